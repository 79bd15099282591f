#!/bin/bash
# Takes back every recorded fix in /repo's working tree, one at a time, and runs the check that
# must report it. Usage: tools/revert_test.sh [commit...]; results in target/revert.log
cd "$(dirname "$0")/.." || exit 2
only="$*"
: > target/revert.log
python3 -c 'import json; [print(*f.split(" ",3)[1:3], f.split(" ",3)[3], sep="\t") for f in json.load(open("known_findings.json"))["fixed"]]' |
while IFS=$'\t' read -r prop commit subject; do
    [ -z "$only" ] || [[ " $only " == *" $commit "* ]] || continue
    prop=${prop#property=}
    if ! git -C /repo diff "$commit" "$commit~1" | git -C /repo apply --3way 2>/dev/null; then
        git -C /repo checkout -q -f HEAD -- . ; git -C /repo reset -q --hard
        echo "$prop $commit CONFLICT $subject" | tee -a target/revert.log
        continue
    fi
    out=$(bash run.sh "$prop" quick 2>&1 </dev/null); rc=$?
    git -C /repo reset -q --hard
    echo "$prop $commit rc=$rc $subject" | tee -a target/revert.log
done
