#!/bin/bash
# Nothing is prebuilt: every check compiles its harness from /repo's working tree. This only verifies the tools.
set -e
cd "$(dirname "$0")/.."
command -v g++ python3 >/dev/null
echo 'int main(){return 0;}' | g++ -std=c++17 -fsanitize=address,undefined -x c++ - -o /dev/null
python3 -c 'import sys; sys.path.insert(0,"tools"); import checks; print(len(checks.CHECKS), "checks registered")'
