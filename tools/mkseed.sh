#!/bin/bash
# mkseed.sh ID : from the diff in /tmp/seedwork (a copy of /repo) to seeded/ID/patch.diff
# usage: edit /tmp/seedwork, then mkseed.sh ID PROPERTY "needs" "breaks"  (demo.sh and its files put by hand)
set -e
mkdir -p /verif/seeded/$1
git -C /tmp/seedwork diff > /verif/seeded/$1/patch.diff
python3 - "$@" <<'P'
import json,sys
i,p,n,w=sys.argv[1:5]
json.dump(dict(property=p,needs=n,what_it_breaks=w),open('/verif/seeded/%s/meta.json'%i,'w'),indent=1)
P
git -C /tmp/seedwork checkout -q -- .
wc -l /verif/seeded/$1/patch.diff
