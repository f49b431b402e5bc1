#!/bin/bash
# seedtest.sh ID [PROPERTY..]: confirm a planted bug in a scratch copy (bind-mounted over /repo in a private
# mount namespace) and run the checks of its property (or the listed ones) against it.
ID=$1; shift
[ -d /tmp/sr ] || cp -a /repo /tmp/sr
rsync -rlpgo --checksum --delete --exclude target /repo/ /tmp/sr/
mkdir -p /tmp/sv && rsync -a --delete --exclude harness/target --exclude evidence --exclude replays --exclude .git /verif/ /tmp/sv/
[ -d /tmp/sv/harness/target ] || cp -a /verif/harness/target /tmp/sv/harness/target
P=${*:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$ID/meta.json'))['property'])")}
unshare -Urm bash -c '
ID=$1; shift
mount --bind /tmp/sr /repo; mount --bind /tmp/sv /verif
cd /repo
S=$(mktemp -d); cp -r /verif/seeded/$ID $S/x
if [ -z "$NODEMO" ]; then bash $S/x/demo.sh >/tmp/demo_clean.log 2>&1; echo "$ID demo clean: $? (want 0)"; fi
git apply /verif/seeded/$ID/patch.diff || exit 9
if [ -z "$NODEMO" ]; then
bash /opt/vp/build.sh >/tmp/sb.log 2>&1 || { echo "$ID BUILD FAILED"; tail -20 /tmp/sb.log; }
bash /opt/vp/test.sh /tmp/st.json >/tmp/st.log 2>&1
python3 - <<P
import json
b=json.load(open("/opt/vp/BASELINE.json")); o=json.load(open("/tmp/st.json"))
def names(x):
    if isinstance(x,dict):
        for k in ("passed","passing","stable","tests"):
            if k in x: return set(x[k]) if isinstance(x[k],list) else {t for t,v in x[k].items() if v in (True,"pass","passed","ok")}
    return set(x)
print("$ID tests missing",sorted(names(b)-names(o)))
P
bash $S/x/demo.sh >/tmp/demo_bug.log 2>&1; echo "$ID demo with bug: $? (want nonzero)"; tail -3 /tmp/demo_bug.log
fi
for p in "$@"; do
  VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick timeout 900 ./../verif/check.sh $p > /tmp/ck.log 2>&1; r=$?
  echo "$ID check $p exit $r: $(grep -E "^VIOLATION" /tmp/ck.log | head -1)"
  [ $r = 1 ] && grep -B3 "^VIOLATION" /tmp/ck.log | cut -c1-300
done
rm -rf $S
' x $ID $P
rsync -rlpgo --checksum --delete --exclude target /repo/ /tmp/sr/
