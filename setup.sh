#!/bin/sh
# nothing to build ahead: every check encodes /repo's current tree itself. Verify the tools are there.
set -e
cd "$(dirname "$0")"
mkdir -p evidence out
cbmc --version >/dev/null
goto-cc --version >/dev/null
gcc --version >/dev/null
/opt/veriftools/pyvenv/bin/python -c "import z3"
echo setup ok
