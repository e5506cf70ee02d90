#!/bin/bash
# Run in /repo: installs the Python package with a stand-in of the C library into a scratch directory and runs demo.py.
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd)
T=$(mktemp -d /tmp/geodiffdemo.XXXXXX) || exit 9
trap 'rm -rf "$T"' EXIT
cp -r "$R/pygeodiff" "$T/pygeodiff" && gcc -O1 -shared -fPIC -o "$T/stub.so" "$D/stub.c" || exit 8
cd "$T" && PYTHONDONTWRITEBYTECODE=1 timeout 60 python3 -W ignore "$D/demo.py" "$T"
