#!/bin/bash
# trial.sh SEED [CHECK...]: applies a planted bug to /repo, runs its check (or those named, or "all"), undoes it.
cd /verif || exit 1
seed=$1; shift
dir=/verif/seeded/$seed
prop=$(python3 -c "import json;print(json.load(open('$dir/meta.json'))['property'])")
checks=("$@"); [ $# = 0 ] && checks=("$prop")
[ "$1" = all ] && checks=($(python3 -c "import json;print(*[c['property'] for c in json.load(open('/verif/MANIFEST.json'))['checks']])"))
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 1; }
git -C /repo apply "$dir/patch.diff" || exit 1
trap 'git -C /repo checkout -q -- .' EXIT
for c in "${checks[@]}"; do
    out=$(VERIF_SEED=${VERIF_SEED:-1} timeout 900 python3 /verif/run.py check "$c" quick 2>&1); rc=$?
    echo "$seed ($prop): $c exit $rc $(echo "$out" | grep -m1 VIOLATION)"
    [ -n "$SHOW" ] && echo "$out" | tail -"$SHOW"
done
exit 0
