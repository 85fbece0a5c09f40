#!/bin/bash
# seedtest.sh ID [nocheck]: confirms a planted bug in a scratch copy of /repo: it
# applies, builds, passes the stable tests, and its demo tells the trees apart;
# then runs the check of its property against the copy. Development tool.
ID=$1; H=$(dirname "$(dirname "$(realpath "$0")")")
. /opt/vp/env.sh
D=$(mktemp -d /tmp/seed-$ID.XXXX); trap 'rm -rf "$D"' EXIT
mkdir $D/repo; git -C /repo archive HEAD | tar -x -C $D/repo; cd $D/repo
cp -a $H/seeded/$ID $D/demo; rm -f $D/demo/*.diff $D/demo/meta.json
P=$(python3 -c "import json;print(json.load(open('$H/seeded/$ID/meta.json'))['property'])")
go build ./... || { echo "$ID base build failed"; exit 1; }
(timeout 300 bash $D/demo/demo.sh >$D/demo0.log 2>&1); r0=$?
git init -q . && git apply $H/seeded/$ID/patch.diff || { echo "$ID DOES NOT APPLY"; exit 1; }
go build ./... || { echo "$ID DOES NOT BUILD"; exit 1; }
(timeout 300 bash $D/demo/demo.sh >$D/demo1.log 2>&1); r1=$?
[ $r0 = 0 ] || { echo "$ID demo fails on base"; grep -m3 -A12 -E "panic|FAIL|Error" $D/demo0.log; }
[ $r1 != 0 ] || { echo "$ID demo passes with patch"; grep -m3 -A12 -E "panic|FAIL|Error" $D/demo1.log; }
if [ "$2" != notest ]; then
R=$D/rep; mkdir -p $R; export TMPDIR=$D/tmp; mkdir -p $TMPDIR
export ENVTEST_KUBERNETES_VERSION=1.35.0 ENVTEST_ASSETS_DIR=/opt/k8stools/k8s MOCO_CHECK_INTERVAL=100ms MOCO_CLONE_WAIT_DURATION=100ms DEBUG_CONTROLLER=1
for pt in api/v1beta2:60s backup:2m clustering:3m controllers:3m; do p=${pt%:*}; t=${pt#*:}; n=${p//\//_}
go test -json -vet=off -count=1 -timeout 4m ./$p -ginkgo.timeout=$t -ginkgo.seed=1 -ginkgo.no-color "-ginkgo.junit-report=$R/$n.xml" > "$R/$n.json" 2> "$R/$n.err"; done
go test -json -vet=off -count=1 -timeout 1m $(go list -e ./... | grep -vE '/moco/(e2e|pkg/bucket|api/v1beta2|backup|clustering|controllers)$') > "$R/plain.json" 2> "$R/plain.err"
python3 /opt/vp/results.py $D/res.json "junit:$R/*.xml" "gojson:$R/*.json"
python3 - <<PY
import json
b=json.load(open('/opt/vp/BASELINE.json'));r=json.load(open('$D/res.json'))
s=set(x if isinstance(x,str) else x['name'] for x in b['stable']);p=set(r['passed'])
print("$ID tests:", "OK" if s<=p else "FAILING %s"%sorted(s-p)[:5])
PY
fi
echo "$ID demo base=$r0 patched=$r1"
if [ "$2" != nocheck ]; then
VERIF_REPO=$D/repo VERIF_EVIDENCE=$D/ev $H/check $P quick > $D/check.log 2>&1; echo "$ID check $P rc=$? $(head -1 $D/check.log | cut -c1-220)"; fi
