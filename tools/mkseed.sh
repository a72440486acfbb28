#!/bin/bash
# mkseed.sh <id> : turn the edits made in /tmp/seed (a copy of /repo) into /verif/seeded/<id>/patch.diff
# after checking that it builds, passes the stable tests, and that demo.sh tells both trees apart.
# /verif/seeded/<id>/ must already hold demo.sh, main.go and meta.json.
set -u
id=$1; d=/verif/seeded/$id
cd /tmp/seed || exit 1
git diff > $d/patch.diff
[ -s $d/patch.diff ] || { echo "no edit"; exit 1; }
cp /verif/tools/demo.sh $d/demo.sh
# tests on a copy at /repo's place are not possible : run them in /tmp/seed
. /opt/vp/env.sh; cd /tmp/seed
go build ./ecore || { echo "BUILD FAILS"; exit 1; }
t=$(mktemp -d); mkdir $t/t
TMPDIR=$t/t go test -json -vet=off -count=1 -timeout 10m -skip '^TestSQLEncoder_' ./ecore > $t/log 2>/dev/null
python3 - $t/log <<'P' || { echo "TESTS FAIL"; exit 1; }
import json,sys
ok=set()
for l in open(sys.argv[1]):
    try: e=json.loads(l)
    except Exception: continue
    if e.get("Action")=="pass" and e.get("Test"): ok.add(e["Package"]+"/"+e["Test"])
b=[x for x in json.load(open('/opt/vp/BASELINE.json'))['stable'] if x.startswith("github.com/masagroup/soft.go/ecore/")]
m=[x for x in b if x not in ok]
print("stable", len(b), "missing", len(m), m[:5])
sys.exit(1 if m else 0)
P
rm -rf "$t"
(cd /repo && bash $d/demo.sh >/tmp/demo.out 2>&1); a=$?
(cd /tmp/seed && bash $d/demo.sh >/tmp/demo2.out 2>&1); b=$?
echo "demo: unchanged=$a patched=$b"
[ $a = 0 ] || { cat /tmp/demo.out; exit 1; }
[ $b != 0 ] || { cat /tmp/demo2.out; exit 1; }
tail -3 /tmp/demo2.out
python3 -c "import json;json.load(open('$d/meta.json'))" && echo "OK $id"
