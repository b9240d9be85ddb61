#!/bin/bash
# Nothing to build ahead of time: every check compiles its harness from /repo's working tree.
set -e
cd "$(dirname "$0")"
mkdir -p out evidence
g++ --version >/dev/null
java -version >/dev/null 2>&1
test -f /opt/veriftools/tla/tla2tools.jar
echo "setup ok"
