#!/bin/bash
# seedtest.sh ID [property]: validates seeded/ID in a scratch clone: build, tests, demo, check
H=$(cd "$(dirname "$0")/.." && pwd); S=$H/seeded/$1
P=${2:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}
W=$(mktemp -d /tmp/seedtest.XXXX); trap 'rm -rf "$W"' EXIT
git clone -q /repo $W/repo; mkdir $W/d; cp -r $S $W/d/x; rm -f $W/d/x/patch.diff $W/d/x/meta.json
cd $W/repo
bash $W/d/x/demo.sh >$W/o 2>&1; a=$?
git apply $S/patch.diff || { echo "$1: patch does not apply"; exit 1; }
bash $W/d/x/demo.sh >$W/o2 2>&1; b=$?
cd $H
VERIF_REPO=$W/repo VERIF_EVIDENCE=$W/ev python3 check.py --property $P >$W/c 2>&1; c=$?
echo "$1 $P: demo clean=$a patched=$b check=$c $(grep -c ^VIOLATION $W/c) $(tail -1 $W/o2 | cut -c1-150)"
[ $a = 0 ] || tail -5 $W/o; [ $c = 1 ] || tail -3 $W/c
