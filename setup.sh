#!/bin/bash
# nothing is built: the checks are Python and read the sources of /repo; this only makes sure the tools are there
set -e
cd "$(dirname "$0")"
command -v cvc5 z3 >/dev/null || command -v z3-new >/dev/null
python3 -c "import pyvc.terms, pyvc.solve, contracts.index"
mkdir -p evidence
