#!/bin/bash
# tools/show.sh PROP SEED [lines]: run one seed and show its plan and the end of its event log
cd "$(dirname "$0")/.."
./check $1 --first $2 --runs 1 ${SHOWARGS} | tail -4
python3 - replays/$1-$2.json <<'P'
import json,sys
p=json.load(open(sys.argv[1]))['plan']
for o in p['ops']: print('   ', json.dumps(o)[:400])
print('   ', p.get('cfg'),p['faults'],p.get('policy'))
P
./check replay replays/$1-$2.json -v | grep -v "cli recv" | tail -${3:-30}
