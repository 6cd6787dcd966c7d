#!/bin/bash
# builds the extraction driver and one throw-away dump, so that a missing tool shows here
set -eu
V=$(cd "$(dirname "$0")/.." && pwd)
D=$(mktemp -d)
trap 'rm -rf "$D"' EXIT
bash "$V/tools/extract.sh" "${VERIF_REPO:-/repo}" "$D/dump.json"
python3 -c "import json,sys; d=json.load(open(sys.argv[1])); print('functions:', len(d['bodies']), 'roots:', len(d['roots']))" "$D/dump.json"
