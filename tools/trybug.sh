#!/bin/bash
# dev tool: trybug.sh ID|PATCHFILE [CHECK...] -- run checks against a planted bug, in a private mount
# namespace with copies of /repo and /verif in their places; the real ones are not touched
p=$1; shift
[ -f "$p" ] && { patch=$(realpath "$p"); id=$(basename "$p" .diff); } || { id=$p; patch=/verif/seeded/$id/patch.diff; }
checks=${*:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}
w=/tmp/sb/$id
mkdir -p $w && rsync -a --exclude target --exclude .git /repo/ $w/repo/ && rsync -a --exclude build --exclude .git --exclude evidence --exclude replays /verif/ $w/verif/
mkdir -p $w/verif/build $w/verif/evidence $w/verif/replays
cp -a /verif/build/extract $w/verif/build/ 2>/dev/null
for c in $checks; do mkdir -p $w/verif/build/$c; cp -a /verif/build/$c/kani $w/verif/build/$c/ 2>/dev/null; done
export w checks id patch
unshare -m bash -c '
mount --bind $w/repo /repo && mount --bind $w/verif /verif && cd /repo && patch -s -p1 < $patch || exit 3
cd /verif
for c in $checks; do
  o=$(python3 tools/check.py $c $CHECKOPT 2>&1); rc=$?
  echo "$o" >/tmp/trybug.$id.$c.out
  echo "$id $c rc=$rc $(echo "$o" | grep -E "^(VIOLATION|UNDECIDED|NOT-PROVED)" | cut -c1-150 | head -4 | tr "\n" " ") $(echo "$o" | grep -oE "[0-9]+ s$" | tail -1)"
done'
[ -n "$KEEP" ] || rm -rf "/tmp/sb/$id"
