#!/bin/bash
# plant.sh ID : confirms the planted bug in /verif/seeded/ID on scratch copies of /repo
# (or, with EDIT=script given, creates patch.diff by running the script in the copy first)
set -u
ID=$1; D=/verif/seeded/$ID; W=/tmp/plant.$ID
rm -rf "/tmp/plant.$ID"; cp -a /repo "$W"; cd "$W" || exit 2
if [ -n "${EDIT:-}" ]; then bash -c "$EDIT" && git diff > "$D/patch.diff"; git checkout -q -- .; fi
[ -s "$D/patch.diff" ] || { echo "$ID: empty patch"; exit 2; }
T=$(mktemp -d /tmp/pl.XXXX); cp "$D"/* "$T"/; rm -f "$T"/*.diff "$T"/meta.json
bash "$T/demo.sh" >/tmp/pl.out 2>&1; a=$?
git apply "$D/patch.diff" || exit 2
( make -C libmseed static CFLAGS="-O2" && make ) >/tmp/pl.build 2>&1 || { echo "$ID: build fails"; tail -5 /tmp/pl.build; }
grep -i "warning" /tmp/pl.build | head -3
bash "$T/demo.sh" >/tmp/pl.out2 2>&1; b=$?
echo "$ID: demo clean=$a patched=$b"; [ $a = 0 ] || tail -5 /tmp/pl.out; [ $b != 0 ] || tail -5 /tmp/pl.out2
cd /; rm -rf "/tmp/plant.$ID" "$T"
