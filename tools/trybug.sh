#!/bin/bash
# tools/trybug.sh ID [PROPS...]: run checks (default: the bug's property) against a scratch copy of /repo with the bug applied
cd "$(dirname "$0")/.."
id=$1; shift
props="$@"
[ -n "$props" ] || props=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
T=$(mktemp -d /tmp/tryXXXXXX)
cp -a /repo $T/repo && git -C $T/repo checkout -q -- . && git -C $T/repo apply $PWD/seeded/$id/patch.diff || { echo "$id: patch fails"; exit 2; }
mkdir $T/v; cp -a check sim props tools known_findings.jsonl properties.jsonl MANIFEST.json $T/v/; mkdir $T/v/evidence $T/v/replays
for p in $props; do
  r=$(cd $T/v && VERIF_REPO=$T/repo timeout 900 ./check $p 2>&1); e=$?
  echo "$id $p exit=$e $(echo "$r" | grep -m1 -A1 VIOLATION | tail -1 | cut -c1-150) $(echo "$r" | grep -m1 'runs (')"
done
case $T in /tmp/try??????) rm -rf "$T";; esac
