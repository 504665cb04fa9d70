#!/bin/bash
# plant.sh ID PROP "needs" "breaks": store the change made in /tmp/plant/repo and its demonstration
# (/tmp/plant/main.rs) after confirming that it builds, passes the tests and that the demo tells it apart.
id=$1 prop=$2 needs=$3 breaks=$4
d=/verif/seeded/$id
mkdir -p "$d"
git -C /tmp/plant/repo diff > "$d/patch.diff"
[ -s "$d/patch.diff" ] || { echo "no change"; exit 1; }
cp /tmp/plant/main.rs "$d/main.rs"; cp /verif/tools/demo_template.sh "$d/demo.sh"; chmod +x "$d/demo.sh"
python3 - "$d/meta.json" "$prop" "$needs" "$breaks" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1],"w"),indent=1)
P
git -C /repo apply --check "$d/patch.diff" || { echo BAD PATCH; exit 1; }
(cd /tmp/plant/repo && bash "$d/demo.sh" >/tmp/plant/bad.log 2>&1); b=$?
(cd /repo && bash "$d/demo.sh" >/tmp/plant/good.log 2>&1); g=$?
echo "demo: unchanged=$g patched=$b"
[ $g = 0 ] && [ $b != 0 ] || { tail -5 /tmp/plant/good.log /tmp/plant/bad.log; exit 1; }
if [ -z "$NOTEST" ]; then
 sed 's#/repo#/tmp/plant/repo#g; s#/opt/vp/env.sh#/tmp/plant/env.sh#' /opt/vp/test.sh > /tmp/plant/test.sh
 sed 's#/repo#/tmp/plant/repo#g' /opt/vp/env.sh > /tmp/plant/env.sh
 bash /tmp/plant/test.sh /tmp/plant/o.json 2>&1 | tail -3
fi
git -C /tmp/plant/repo checkout -q -- .
