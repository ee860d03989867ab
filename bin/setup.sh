#!/bin/bash
# Nothing has to be built ahead: every check builds the harness from /repo's tree. This only
# makes sure that the tools are there and that the specifications parse.
set -e
cd "$(dirname "$0")/.."
. /opt/vp/env.sh
go version
test -f /opt/veriftools/tla/tla2tools.jar
python3 -c 'import json; [json.loads(l) for l in open("properties.jsonl")]; json.load(open("MANIFEST.json"))'
