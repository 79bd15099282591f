#!/bin/bash
# Applies every planted bug to /repo's working tree, one at a time, and runs the check of its
# property. Usage: tools/seed_test.sh [id...]; results in target/seeds.log
cd "$(dirname "$0")/.." || exit 2
log=target/seeds.log
[ $# -gt 0 ] || : > $log
ids=${*:-$(ls seeded extra_seeds | grep ^C)}
for id in $ids; do
    d=seeded; [ -d "$d/$id" ] || d=extra_seeds
    prop=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$d/$id/meta.json")
    if ! git -C /repo apply "$PWD/$d/$id/patch.diff"; then echo "$id CONFLICT" | tee -a $log; continue; fi
    out=$(bash run.sh "$prop" quick 2>&1 </dev/null); rc=$?
    git -C /repo checkout -q -- .
    echo "$id rc=$rc $(grep -m1 '^\[C' <<<"$out" | cut -c1-150)" | tee -a $log
done
