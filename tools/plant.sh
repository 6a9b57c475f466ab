#!/bin/bash
# plant.sh ID [full|demo|check] [PROP...]   Try seeded/ID on a copy of /repo, in a user namespace of its own.
#  full: demo on the unchanged tree, then build + tests + demo with the patch;  check: run checks with the patch
ID=$1; MODE=${2:-full}; shift 2
S=/verif/seeded/$ID
W=$(mktemp -d /tmp/plant.XXXXXX)
trap 'rm -rf "$W"' EXIT
cp -a /repo "$W/repo"; git -C "$W/repo" checkout -q -- .
mkdir "$W/verif"; (cd /verif && tar cf - --exclude=./seeded --exclude=./.git --exclude=./out . ) | tar xf - -C "$W/verif"
mkdir -p "$W/demo" "$W/verif/out"; cp "$S"/* "$W/demo/"; rm -f "$W"/demo/*.diff "$W"/demo/meta.json
cat > "$W/run.sh" <<EOS
mount --bind $W/repo /repo; mount --bind $W/verif /verif; ip link set lo up 2>/dev/null
cd /repo
prop=\$(python3 -c "import json;print(json.load(open('$W/meta.json'))['property'])")
if [ $MODE != check ]; then
  bash /opt/vp/build.sh >$W/b0.log 2>&1 || { echo "BUILD0 FAIL"; exit 1; }
  timeout 300 bash $W/demo/demo.sh >$W/d0.log 2>&1; echo "$ID demo unchanged rc=\$? (want 0)"; tail -3 $W/d0.log
fi
git -c core.fileMode=false apply $W/patch.diff || { echo "APPLY FAIL"; exit 1; }
if [ $MODE != check ]; then
  bash /opt/vp/build.sh >$W/b1.log 2>&1 || { echo "BUILD1 FAIL"; tail -5 $W/b1.log; exit 1; }
  timeout 300 bash $W/demo/demo.sh >$W/d1.log 2>&1; echo "$ID demo patched rc=\$? (want != 0)"; tail -3 $W/d1.log
  if [ $MODE = full ]; then bash /opt/vp/test.sh $W/out.json >$W/t.log 2>&1; python3 - <<PY
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); p=set(json.load(open('$W/out.json'))['passed'])
print("$ID tests", "OK" if b<=p else ("FAIL", sorted(b-p)))
PY
  fi
fi
if [ $MODE != demo ]; then
for p in ${@:-\$prop}; do
  cmd=\$(python3 -c "
import json
print([c['quick_cmd'] for c in json.load(open('/verif/MANIFEST.json'))['checks'] if c['property']=='\$p'][0])")
  t0=\$SECONDS; (cd /verif && VERIF_SEED=1 VERIF_TIER=quick sh -c "\$cmd") >$W/c.log 2>&1; rc=\$?
  echo "$ID check \$p rc=\$rc (\$((SECONDS-t0)) s)"; grep -E 'VIOLATION|KNOWN' $W/c.log | head -4; [ \$rc -gt 1 ] && tail -5 $W/c.log
done; fi
exit 0
EOS
cp "$S/patch.diff" "$S/meta.json" "$W/"
unshare -rmn bash "$W/run.sh"
