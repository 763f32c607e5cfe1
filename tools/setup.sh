#!/bin/bash
# nothing to build: the checks use python3 and the installed clang/LLVM tools
set -e
cd "$(dirname "$0")/.."
mkdir -p evidence
python3 -c 'import sys; assert sys.version_info >= (3, 10)'
