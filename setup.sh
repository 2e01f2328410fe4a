#!/bin/bash
# Nothing has to be installed: every check builds what it needs. This only verifies the tools.
cd "$(dirname "$(readlink -f "$0")")" || exit 1
chmod +x check
/opt/veriftools/pyvenv/bin/python3 -c 'import hypothesis, numpy, scipy' || exit 1
command -v cmake ninja octave-cli >/dev/null || exit 1
exit 0
