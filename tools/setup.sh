#!/bin/bash
# nothing to install: every check builds what it needs from /repo.  Verifies that the tools are there.
set -e
for t in /usr/bin/clang++-18 /usr/bin/opt-18 llvm-config-18 g++ /opt/veriftools/pyvenv/bin/python3; do command -v $t >/dev/null; done
/opt/veriftools/pyvenv/bin/python3 -c 'import z3, numpy, scipy'
