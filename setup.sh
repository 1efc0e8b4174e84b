#!/bin/bash
# warms the build cache; every check builds again from /repo's working tree
set -e
cd "$(dirname "$0")"
. ./env.sh
T=$(mktemp -d)
python3 mkoverlay.py /repo "$T/ov.json"
(cd /repo && go build -tags "$VTAGS" -overlay "$T/ov.json" -o "$T/verifmon" ./verifmon)
rm -rf "$T"
