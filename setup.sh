#!/bin/bash
# nothing to build: the analysers are python over clang-18 output; check that the tools are there
set -e
cd "$(dirname "$0")"
mkdir -p evidence
test -x /usr/bin/clang++-18 && test -x /usr/bin/opt-18
python3-vt -c 'import sys'
