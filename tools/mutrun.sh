#!/bin/bash
# tools/mutrun.sh MUTANTS.jsonl OUT.jsonl WORKER   For each mutant: does it build, do the stable tests pass, which check catches it?
# Runs in private copies of /repo and /verif. Results: {…, build, tests, caught}
M=$(realpath "$1"); OUT=$(realpath -m "$2"); S=/tmp/mut.$3; rm -rf "/tmp/mut.$3"; mkdir -p $S
cp -a /repo $S/repo; mkdir $S/verif; cp -a /verif/. $S/verif/; rm -rf "/tmp/mut.$3/verif/seeded" "/tmp/mut.$3/verif/.git"; cp "$M" $S/m.jsonl
unshare -Urmn bash -c "ip link set lo up; mount --bind $S/repo /repo; mount --bind $S/verif /verif; cd /verif; node tools/mutrun.js $S/m.jsonl $OUT"
rm -rf "/tmp/mut.$3"
