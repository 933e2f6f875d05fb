#!/bin/bash
# tools/quiet.sh [PATCH...]   Applies edits that change no behaviour (default: all of refactorings/) in private copies of
# /repo and /verif, and runs all checks (ONLY="C01 C02" for some): each must stay quiet.
one() {
  id=$(basename "$1" .diff); S=/tmp/quiet.$id; rm -rf "/tmp/quiet.$id"; mkdir -p $S
  cp -a /repo $S/repo; mkdir $S/verif; cp -a /verif/. $S/verif/; rm -rf "/tmp/quiet.$id/verif/seeded"; cp "$1" $S/p.diff
  unshare -Urmn bash -c "
    ip link set lo up; mount --bind $S/repo /repo; mount --bind $S/verif /verif; cd /repo
    git apply $S/p.diff || { echo '$id: PATCH DOES NOT APPLY'; exit; }
    bash /opt/vp/build.sh > $S/b1.log 2>&1 || { echo '$id: BUILD FAILED'; tail -20 $S/b1.log; }
    bash /verif/tools/tests.sh | sed 's/^/$id: tests /'
    cd /verif
    for c in ${ONLY:-\$(ls checks | sed 's/.js//')}; do
      VERIF_SEED=1 VERIF_TIER=quick timeout 900 node lib/run.js \$c > $S/c.\$c.log 2>&1; rc=\$?
      [ \$rc = 0 ] || echo \"$id: check \$c rc=\$rc \$(head -c 600 $S/c.\$c.log)\"
    done
    echo '$id: done'
  "
  [ -n "$KEEP" ] || rm -rf "/tmp/quiet.$id"
}
cd /verif; [ $# = 0 ] && set -- refactorings/*.diff
for p in "$@"; do one "$(realpath "$p")"; done
