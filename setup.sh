#!/bin/bash
# nothing to build ahead of time: every check regenerates what it needs from /repo; verify the tools are there
set -e
for t in clang gcc why3 z3 z3-new cvc5 python3; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
mkdir -p "$(dirname "$0")/evidence"
echo setup ok
