#!/bin/bash
# nothing is installed: checks that the pre-installed tools the checks need are there
set -e
for t in /usr/bin/clang++-18 g++-10 cvc5 python3-vt; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
python3-vt -c 'import z3; print("z3", z3.get_version_string())'
mkdir -p "$(dirname "$0")/../evidence" "$(dirname "$0")/../out"
