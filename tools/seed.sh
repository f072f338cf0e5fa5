#!/bin/bash
# bash tools/seed.sh ID...: checks planted bugs in a scratch copy of /repo (patch applies, builds, stable tests pass, demo passes without and fails with it).
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:$PATH GOPROXY=off GOFLAGS=-mod=mod GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=0 GOCACHE=/tmp/seedcache
B=/tmp/seedwork.d
for ID in "$@"; do
S=${VERIF:-/verif}/seeded/$ID; W=$B/src; D=$B/demo
rm -rf /tmp/seedwork.d; mkdir -p $W $D
(cd ${REPO:-/repo} && git archive HEAD | tar -x -C $W)
cp -a $S/. $D/; rm -f $D/patch.diff $D/meta.json
cd $W
timeout 300 bash $D/demo.sh >/tmp/seed.out 2>&1 || { echo "$ID: demo FAILS on the unchanged tree"; tail -5 /tmp/seed.out; continue; }
git apply $S/patch.diff || { echo "$ID: patch does not apply"; continue; }
go build ./... || { echo "$ID: does not build"; continue; }
if timeout 300 bash $D/demo.sh >/tmp/seed.out 2>&1; then echo "$ID: demo PASSES with the bug"; continue; fi
tail -2 /tmp/seed.out
(cd tests/scripts && go run create_test_pdfs.go) >/dev/null 2>&1
qpdf --encrypt testpass ownerpass 256 -- tests/resources/acroform_test.pdf tests/resources/test_aes256.pdf >/dev/null 2>&1
[ -e forms/acroform/tests ] || ln -s ../../tests forms/acroform/tests
[ -e content/extract/tests/resources/test_font.ttf ] || { mkdir -p content/extract/tests/resources; cp tests/resources/test_font.ttf content/extract/tests/resources/; }
go test -json -vet=off -count=1 -timeout 5m ./... > $B/t.json 2>/dev/null
python3 - $B/t.json $ID <<'P'
import json,sys
passed=set()
for l in open(sys.argv[1]):
    try: e=json.loads(l)
    except Exception: continue
    if e.get("Action")=="pass" and e.get("Test"): passed.add(e["Package"]+"/"+e["Test"])
miss=[s for s in json.load(open('/opt/vp/BASELINE.json'))["stable"] if s not in passed]
print(sys.argv[2]+":", "OK" if not miss else "stable tests fail: %s"%miss[:5])
P
done
rm -rf /tmp/seedwork.d
