#!/bin/bash
# seedtest.sh ID... : confirms planted bugs in a scratch copy of /repo (bound over /repo in a private
# mount namespace) and runs the property's check against them.  NOTEST=1 skips the repository's tests.
V=$(dirname "$(dirname "$(realpath "$0")")")
one() {
    id=$1; d=$V/seeded/$id; w=/tmp/seed-$id; log=/tmp/seed-$id.log
    rm -rf "$w" "$w-demo" "$w-work"; cp -a /repo "$w"; mkdir "$w-demo"; cp -a "$d"/. "$w-demo"; rm -f "$w-demo"/*.diff "$w-demo"/meta.json
    cp -a "$V/.work" "$w-work" 2>/dev/null
    prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
    unshare -Urm bash -c "
        mount --bind $w /repo; cd /repo
        bash /opt/vp/build.sh >$log.b0 2>&1 || echo BASE-BUILD-FAILED
        bash $w-demo/demo.sh >$log.d0 2>&1; echo demo-unchanged=\$?
        git apply $d/patch.diff || { echo APPLY-FAILED; exit; }
        bash /opt/vp/build.sh >$log.b1 2>&1 || { echo BUILD-FAILED; exit; }
        timeout 300 bash $w-demo/demo.sh >$log.d1 2>&1; echo demo-patched=\$?
        [ -n \"\$NOTEST\" ] || { bash /opt/vp/test.sh $w-t.json >$log.t 2>&1; python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('$w-t.json'))
b=b['stable']
print('tests-broken=', sorted(set(b)-set(t['passed']))[:5])
P
        }
        mount --bind $w-work $V/.work; cd $V; for c in $prop $EXTRA; do EVID=/tmp/seed-$id-ev python3 checks/run.py \$c >$log.c-\$c 2>&1; echo check-\$c=\$?; grep -A1 -h '^  \*\*' $log.c-\$c | cut -c1-220 | head -4; done
    " 2>&1 | sed "s/^/[$id] /"
    rm -rf "$w" "$w-demo" "$w-work" "$w-t.json" "$w-ev"
}
for i in "$@"; do one "$i" & while [ "$(jobs -r | wc -l)" -ge 3 ]; do sleep 0.5; done; done; wait
