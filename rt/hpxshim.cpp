#include "hpxshim.hpp"
#include <cstdio>
#include <unistd.h>
namespace hpx {
Observer &observer() { static Observer o; return o; }
std::map<std::string, id_type> &names() { static std::map<std::string, id_type> m; return m; }
int next_serial() { static int n = 0; return ++n; }
// writes through std::cout's buffer so that the two channels keep their order
ostream_proxy::ostream_proxy() : std::ostream(std::cout.rdbuf()) {}
ostream_proxy cout, cerr;
} // namespace hpx
