#!/bin/bash
# nothing to build: the checks run the committed TLA+ specifications with the
# installed TLC and import the code from /repo's working tree
set -e
cd "$(dirname "$0")"
mkdir -p evidence
test -x /opt/venv/bin/python
test -f /opt/veriftools/tla/tla2tools.jar
java -version >/dev/null 2>&1
echo "ready"
