#!/bin/bash
# tools/seedtest.sh [-a] [-n] ID...   Confirms planted bugs in private copies of /repo and /verif (bind mounts in a user namespace).
# -a: also run every other check; -n: checks only (skip build/tests/demo confirmation)
ALL=0; NOCONF=0
while getopts an o; do case $o in a) ALL=1;; n) NOCONF=1;; esac; done
shift $((OPTIND-1))
one() {
  id=$1; S=/tmp/seedtest.$id; rm -rf "/tmp/seedtest.$id"; mkdir -p $S
  cp -a /repo $S/repo; mkdir $S/verif; cp -a /verif/. $S/verif/; rm -rf "/tmp/seedtest.$id/verif/seeded"
  mkdir $S/demo; cp -a /verif/seeded/$id/. $S/demo/; rm -f $S/demo/*.diff $S/demo/meta.json
  patch=$(realpath /verif/seeded/$id/patch.diff); cp $patch $S/p.diff
  prop=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  unshare -Urmn bash -c "
    ip link set lo up; mount --bind $S/repo /repo; mount --bind $S/verif /verif; cd /repo
    if [ $NOCONF = 0 ]; then
      bash /opt/vp/build.sh > $S/b0.log 2>&1 || echo '$id: BASE BUILD FAILED'
      timeout 300 bash $S/demo/demo.sh > $S/d0.log 2>&1; echo \"$id: demo on base rc=\$? (want 0)\"
    fi
    git apply $S/p.diff || { echo '$id: PATCH DOES NOT APPLY'; exit; }
    if [ $NOCONF = 0 ]; then
      bash /opt/vp/build.sh > $S/b1.log 2>&1 || { echo '$id: BUILD FAILED'; tail -20 $S/b1.log; }
      timeout 300 bash $S/demo/demo.sh > $S/d1.log 2>&1; echo \"$id: demo with patch rc=\$? (want nonzero)\"; tail -2 $S/d1.log
      bash /verif/tools/tests.sh | sed 's/^/$id: tests /'
    fi
    cd /verif
    list=$prop; [ $ALL = 1 ] && list=\$(ls checks | sed 's/.js//')
    for c in \$list; do
      VERIF_SEED=1 VERIF_TIER=quick timeout 900 node lib/run.js \$c > $S/c.\$c.log 2>&1; rc=\$?
      if [ \$c = $prop ] || [ \$rc != 0 ]; then echo \"$id: check \$c rc=\$rc \$(grep -m1 VIOLATION $S/c.\$c.log | cut -c1-150)\"; fi
    done
  "
  [ -n "$KEEP" ] || rm -rf "/tmp/seedtest.$id"
}
for id in "$@"; do one "$id"; done
