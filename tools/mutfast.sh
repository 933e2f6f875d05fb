#!/bin/bash
# tools/mutfast.sh MUTANTS.jsonl OUT.jsonl WORKER   Like mutrun.sh, but compiles and tests only the package of the mutant (no dist/ is built)
M=$(realpath "$1"); OUT=$(realpath -m "$2"); S=/tmp/mutf.$3; rm -rf "/tmp/mutf.$3"; mkdir -p $S
cp -a /repo $S/repo; mkdir $S/verif; cp -a /verif/. $S/verif/; rm -rf "/tmp/mutf.$3/verif/seeded" "/tmp/mutf.$3/verif/.git"; cp "$M" $S/m.jsonl
unshare -Urmn bash -c "ip link set lo up; mount --bind $S/repo /repo; mount --bind $S/verif /verif; cd /verif; MUTNOCHECK=$MUTNOCHECK MUTFAST=1 node tools/mutrun.js $S/m.jsonl $OUT"
rm -rf "/tmp/mutf.$3"
