#!/bin/bash
# revtest.sh COMMIT PROPS..: take one "fix:" commit back in a scratch copy and run the checks of the properties against it.
C=$1; shift
[ -d /tmp/sr ] || cp -a /repo /tmp/sr
rsync -rlpgo --checksum --delete --exclude target /repo/ /tmp/sr/
mkdir -p /tmp/sv && rsync -a --delete --exclude harness/target --exclude evidence --exclude replays --exclude .git /verif/ /tmp/sv/
[ -d /tmp/sv/harness/target ] || cp -a /verif/harness/target /tmp/sv/harness/target
git -C /repo show "$C" -- > /tmp/rev.diff
(cd /tmp/sr && patch -R -p1 -s --no-backup-if-mismatch < /tmp/rev.diff) || { echo "$C cannot be taken back on its own"; exit 1; }
unshare -Urm bash -c '
C=$1; shift
mount --bind /tmp/sr /repo; mount --bind /tmp/sv /verif
for p in "$@"; do
  VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick timeout 900 /verif/check.sh $p > /tmp/ck.log 2>&1; r=$?
  echo "$C check $p exit $r: $(grep -B2 -E "^VIOLATION" /tmp/ck.log | cut -c1-200 | tr "\n" "|")"
done' x $C "$@"
rsync -rlpgo --checksum --delete --exclude target /repo/ /tmp/sr/
