#!/bin/bash
# try_seed.sh ID [PROP...]: confirms a planted bug against /repo and runs checks against it; always restores /repo
id=$1; shift; T=${T:-/tmp}
s=/verif/seeded/$id
exec 9>$T/seed.lock; flock 9
restore() { git -C /repo checkout -q -- .; }
trap restore EXIT
if [ -z "${SKIP:-}" ]; then
bash /opt/vp/build.sh >$T/seed.log 2>&1
bash $s/demo.sh >$T/seed.demo0 2>&1; d0=$?
git -C /repo apply $s/patch.diff || { echo "$id: does not apply"; exit 1; }
bash /opt/vp/test.sh $T/seed.json >$T/seed.log 2>&1
t=$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('$T/seed.json'))
l=b['stable']
print(len([x for x in l if x not in r['passed']]) if isinstance(l,list) else 'keys:%s'%list(b))")
bash $s/demo.sh >$T/seed.demo1 2>&1; d1=$?
echo "$id: demo clean=$d0 patched=$d1 (last: $(tail -1 $T/seed.demo1)) stable tests failing=$t"
else git -C /repo apply $s/patch.diff || exit 1; fi
p=${*:-$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")}
for x in $p; do
  st=$(date +%s)
  (cd /verif && VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick timeout 900 python3 check.py $x > $T/seed.check.$x 2>&1); rc=$?
  echo "   $x rc=$rc $(( $(date +%s)-st ))s $(grep -m1 -v '^    ' $T/seed.check.$x | cut -c1-200)"
done
