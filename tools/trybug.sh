#!/bin/bash
# tools/trybug.sh <seeded id> [PROP]: apply a planted change to /repo, run the check, undo
V="$(cd "$(dirname "$0")/.." && pwd)"
B="$V/seeded/$1"
P="${2:-$(python3 -c "import json;print(json.load(open('$B/meta.json'))['property'])")}"
git -C /repo apply "$B/patch.diff" || exit 2
cd "$V" && python3 check.py $P > /tmp/trybug.$1.$P.out 2>&1
rc=$?
git -C /repo checkout -q -- .
echo "$1 $P rc=$rc $(grep -E '^VIOLATION' /tmp/trybug.$1.$P.out | sed 's/replay=[^ ]*/replay=../') | $(grep -cE '^failed obligation' /tmp/trybug.$1.$P.out) obligations | $(grep -E '^failing input' /tmp/trybug.$1.$P.out | cut -c1-100)"
