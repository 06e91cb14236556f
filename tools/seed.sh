#!/bin/bash
# tools/seed.sh ID [CHECK...]: confirm /verif/seeded/ID in a scratch copy of /repo: the patch applies, builds,
# keeps the stable tests passing, and the demo tells it from the unchanged tree.  Then run the checks (the
# property of meta.json, or the ones named) against the copy.  NOTEST=1 skips the tests.
ID=$1; shift
S=/verif/seeded/$ID
W=$(mktemp -d /tmp/sw-XXXXXX)
trap 'rm -rf -- "$W"' EXIT
cp -a "${REPO:-/repo}" "$W/repo"; cp -a /opt/vp "$W/vp"; cp -a "$S" "$W/demo"
rm -f "$W/demo/patch.diff" "$W/demo/meta.json"
sed -i "s,/repo,$W/repo,g; s,/opt/vp,$W/vp,g" "$W"/vp/*.sh "$W"/vp/*.py
demo() { (cd "$W/repo" && timeout 300 bash "$W/demo/demo.sh" >"$W/demo.out" 2>&1; echo $?); }
echo "$ID demo clean: $(demo)"; [ -n "$V" ] && tail -5 "$W/demo.out"
git -C "$W/repo" apply "$S/patch.diff" || { echo "$ID DOES NOT APPLY"; exit 1; }
if [ -z "$NOTEST" ]; then
bash "$W/vp/build.sh" >/dev/null 2>&1 || echo "$ID BUILD FAILED"
bash "$W/vp/test.sh" "$W/out.json" >/dev/null 2>&1
python3 - "$W/out.json" "$ID" <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
s=set(b.get('stable') or b.get('passed') or b['tests'])
print(sys.argv[2], 'tests missing', sorted(s-set(o.get('passed') or []))[:6])
P
fi
echo "$ID demo patched: $(demo)"; [ -n "$V" ] && tail -5 "$W/demo.out"
for c in ${*:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}; do
  (cd /verif && VERIF_REPO=$W/repo VERIF_SEED=${VERIF_SEED:-1} VERIF_EVIDENCE=$W timeout 900 ./check "$c" quick >"$W/c.out" 2>&1; echo "$ID check $c: exit $? $(grep -m1 -h VIOLATION -A3 "$W/c.out" | cut -c1-400)")
done
