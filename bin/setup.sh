#!/bin/bash
# Nothing to install: checks build what they need from /repo's working tree. Verifies the toolchain is there.
set -e
cd "$(dirname "$0")/.."
mkdir -p _build evidence
java -version >/dev/null 2>&1
g++ --version >/dev/null
test -f /opt/veriftools/tla/tla2tools.jar
python3 -c 'import sys; assert sys.version_info >= (3, 8)'
