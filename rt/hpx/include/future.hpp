#pragma once
#include "hpxshim.hpp"
