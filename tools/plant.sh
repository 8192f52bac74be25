#!/bin/bash
# plant.sh <id> [check...]: confirms a planted bug (builds, passes the stable tests, demo fails; demo passes without it)
# and runs the checks of its property (or the named ones) against it. Works on /repo and undoes the change.
V=$(cd "$(dirname "$0")/.." && pwd); id=$1; shift
S=$V/seeded/$id; P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
R=/repo; cd $R || exit 2
[ -z "$(git status --porcelain)" ] || { echo "$R not clean"; exit 2; }
undo() { git -C $R checkout -q -- .; }
trap undo EXIT
if [ -z "$SKIP_CONFIRM" ]; then
  bash /opt/vp/build.sh >/dev/null 2>&1
  bash $S/demo.sh > /tmp/demo0.out 2>&1; echo "$id demo on the unchanged tree: $?"
fi
git apply $S/patch.diff || { echo "$id patch does not apply"; exit 1; }
if [ -z "$SKIP_CONFIRM" ]; then
  bash /opt/vp/build.sh > /tmp/build.out 2>&1 || { echo "$id does not build"; tail -20 /tmp/build.out; exit 1; }
  bash /opt/vp/test.sh /tmp/plant.json > /tmp/test.out 2>&1
  python3 - <<'X'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); r=json.load(open('/tmp/plant.json'))
bad=[t for t in b if t not in set(r.get('passed',[]))]
print('  stable tests failing with the change:',len(bad),bad[:3])
X
  bash $S/demo.sh > /tmp/demo1.out 2>&1; echo "  demo with the change: $? ($(tail -1 /tmp/demo1.out | cut -c1-160))"
fi
for c in ${@:-$P}; do
  t=$(date +%s); "$V/check.sh" $c > /tmp/plant.$c.out 2>&1; rc=$?
  echo "  check $c: exit $rc, $(grep -c '^VIOLATION property='$c /tmp/plant.$c.out) violation line(s), $(( $(date +%s) - t )) s; $(grep -m1 -A1 '^  case' /tmp/plant.$c.out | tr '\n' ' ' | cut -c1-220)"
done
