#!/bin/bash
# seedtest.sh ID [notest]   try one planted bug in a private mount namespace (copies of /repo and /verif)
ID=$1; NOTEST=$2
W=$(mktemp -d /tmp/st_XXXXXX)
cp -a /repo $W/repo; mkdir $W/rep $W/verif $W/cache
(cd /verif && cp -a --parents $(ls -d engine units vlib tools *.py MANIFEST.json known_findings.jsonl properties.jsonl 2>/dev/null) $W/verif/)
cp -a /verif/seeded/$ID $W/seed
mkdir -p /opt/vp-reports /opt/vp-build-cache
cat > $W/run.sh <<X
set -u
mount --bind $W/repo /repo; mount --bind $W/verif /verif; mount --bind $W/rep /opt/vp-reports; mount --bind $W/cache /opt/vp-build-cache
cd /repo; git checkout -q -- . ; export VERIF_SEED=1 VERIF_TIER=quick
PROP=\$(python3 -c "import json;print(json.load(open('$W/seed/meta.json'))['property'])")
timeout 300 bash $W/seed/demo.sh >$W/demo0.log 2>&1; echo "demo unpatched rc=\$?"
git apply $W/seed/patch.diff || { echo "PATCH DOES NOT APPLY"; exit 9; }
timeout 300 bash $W/seed/demo.sh >$W/demo1.log 2>&1; echo "demo patched rc=\$? (want nonzero): \$(tail -1 $W/demo1.log)"
if [ -z "$NOTEST" ]; then
 bash /opt/vp/build.sh >$W/build.log 2>&1 || echo "BUILD FAILS"
 bash /opt/vp/test.sh $W/out.json >$W/test.log 2>&1
 python3 - <<Y
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('$W/out.json'))
def names(d):
    for k in ('stable','pass','passed'):
        if k in d: return set(d[k])
    return set(k for k,v in d.items() if v in ('pass','passed',True))
print('stable tests broken:', sorted(names(b)-names(o))[:5])
Y
fi
cd /verif; timeout 900 python3 check.py \$PROP quick > $W/check.log 2>&1; echo "check \$PROP rc=\$? (want 1)"; grep -h -A1 VIOLATION $W/check.log | cut -c1-400 | head -6
X
echo "== $ID"; unshare -Urm bash $W/run.sh
if [ -n "$KEEP" ]; then echo kept $W; else rm -rf "$W"; fi
