#!/bin/bash
# seedtest.sh ID [PROP]: runs the check of a seeded change in a scratch copy of /repo.
set -e
ID=$1; P=${2:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$ID/meta.json'))['property'])")}
W=$(mktemp -d /tmp/seedt-XXXXXX); trap 'rm -rf "$W"' EXIT
cp -a /repo "$W/repo"; git -C "$W/repo" apply /verif/seeded/$ID/patch.diff
s=$(date +%s); REPO=$W/repo /verif/check.py $P > "$W/log" 2>&1 && rc=0 || rc=$?
echo "$ID $P rc=$rc $(($(date +%s)-s))s $(grep -a -h '^VIOLATION' "$W/log" | head -2 | tr '\n' ' ') $(grep -a -m1 -i 'obligation' "$W/log")"
[ -n "$V" ] && cat "$W/log"; exit 0
