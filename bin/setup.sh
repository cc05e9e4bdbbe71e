#!/bin/bash
# Nothing is prebuilt: every check builds from /repo itself. Only look whether the tools are there.
set -e
cd "$(dirname "$0")/.."
java -version >/dev/null 2>&1
g++ --version >/dev/null
test -f /opt/veriftools/tla/tla2tools.jar
python3 -c 'import json'
mkdir -p evidence replays
echo setup ok
