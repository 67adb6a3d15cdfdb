#!/bin/bash
# nothing is compiled ahead of time; check that the tools the checks use are present
set -e
cd "$(dirname "$0")/.."
for t in g++ clang++ cvc5 z3; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
/opt/veriftools/pyvenv/bin/python3 -c 'import z3; print("z3", z3.get_version_string())'
mkdir -p evidence
