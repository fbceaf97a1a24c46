#!/bin/bash
# bugtest.sh ID [notest]: builds, tests, demonstrates and checks one planted bug in a scratch copy of /repo that is
# bind-mounted over /repo in a private mount namespace.
id=$1; here=$(cd "$(dirname "$0")/.." && pwd); b=$here/seeded/$id
prop=$(python3 -c "import json,sys; print(json.load(open('$b/meta.json'))['property'])")
sc=/tmp/sc/$id; mkdir -p /tmp/sc; rm -rf "$sc"; mkdir "$sc"
cp -a /repo "$sc/repo"; cp -a /opt/vp/work "$sc/work" 2>/dev/null || mkdir "$sc/work"
git -C "$sc/repo" checkout -q -- .; cp -a "$b" "$sc/demo"; rm -f "$sc"/demo/*.diff "$sc"/demo/meta.json
cat > "$sc/go.sh" <<G
mount --bind $sc/repo /repo; mount --bind $sc/work /opt/vp/work
cd /repo
bash $sc/demo/demo.sh > $sc/demo0.log 2>&1; echo "demo unchanged: \$?"
git apply $b/patch.diff || exit 1
bash /opt/vp/build.sh > $sc/build.log 2>&1; echo "build: \$?"
bash $sc/demo/demo.sh > $sc/demo1.log 2>&1; echo "demo patched: \$?"
if [ "$2" != notest ]; then bash /opt/vp/test.sh $sc/out.json > $sc/test.log 2>&1
python3 - <<'P'
import json
o=json.load(open("$sc/out.json")); b=json.load(open("/opt/vp/BASELINE.json"))
s=b.get("stable") or b.get("passed") or b
miss=[t for t in s if t not in set(o["passed"])]
print("stable tests broken:", len(miss), miss[:3])
P
fi
cp -a $here/.build $sc/mcbuild; cd $here; MC_BUILD=$sc/mcbuild bash run.sh $prop quick > $sc/check.log 2>&1; echo "check $prop: \$?"; grep -m4 -A1 VIOLATION $sc/check.log; head -3 $sc/check.log
G
unshare -Urm bash "$sc/go.sh" 2>&1 | sed "s/^/[$id] /"
rm -rf "$sc/repo" "$sc/mcbuild" "$sc/work"
