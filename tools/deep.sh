#!/bin/bash
# run every check for SECS seconds on the current tree: tools/deep.sh SECS [PROP...]
secs=$1; shift
V=$(cd "$(dirname "$0")/.." && pwd)
props=${*:-$(python3 -c "import json;print(' '.join(c['property'] for c in json.load(open('$V/MANIFEST.json'))['checks']))")}
for p in $props; do VERIF_SEED=${VERIF_SEED:-$RANDOM} bash "$V/check.sh" -prop $p -secs $secs; done
