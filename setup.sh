#!/bin/bash
# nothing to build: the checks run TLC on spec/ and import /repo's working tree
set -e
cd "$(dirname "$0")"
mkdir -p evidence
command -v java >/dev/null
test -f /opt/veriftools/tla/tla2tools.jar
/opt/venv/bin/python -c "import astor, black, isort, pandas"
for m in spec/*.tla; do test -s "$m"; done
