#!/bin/bash
# runall.sh [PID...]: the quick checks, two at a time
cd "$(dirname "$0")/.."
ids=${*:-$(python3 -c "from contracts import index; print(*sorted(index.PROPS))")}
printf '%s\n' $ids | xargs -P 2 -I{} sh -c 'out=$(VERIF_SEED=${VERIF_SEED:-1} python3 check.py {} --tier quick 2>&1); rc=$?; echo "$out" | sed "s/^/{} rc=$rc /"' | grep -v "rc=0 not verified" 
