#!/bin/bash
# Nothing to install: checks that the toolchain is where the checks look for it.
set -e
cd "$(dirname "$0")"
chmod +x check
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
javac -cp /opt/veriftools/tla/tla2tools.jar -d "$d" java/BigIntOverrides.java
test -x /opt/venv/bin/python
echo "setup ok"
