#!/bin/bash
# pin.sh PROP NAME COMMIT [SEED]: find a run of PROP that fails just before COMMIT, minimise it, and keep it as a regression replay.
set -e
W=/tmp/pin_$3_$1
[ -d $W ] || git -C /repo worktree add -f --detach $W HEAD >/dev/null 2>&1
( cd $W && git revert -n $3 >/dev/null 2>&1 ) || ( cd $W && git revert --abort; git reset -q --hard; git checkout -q $3^ )
cd "$(dirname "$0")/.."
rm -f /tmp/pin_out_$3_$1
VERIF_REPO=$W VERIF_SEED=${4:-1} DSIM_RUNS=${RUNS:-1500} ./check.sh $1 > /tmp/pin_out_$3_$1 || true
R=$(grep -o 'replay=.*' /tmp/pin_out_$3_$1 | head -1 | cut -d= -f2)
git -C /repo worktree remove --force $W; git -C /repo worktree prune
[ -n "$R" ] || { echo "no violation before $3"; tail -3 /tmp/pin_out_$3_$1; exit 1; }
mkdir -p pinned
/opt/venv/bin/python - "$R" "$1" "$2" "$3" <<'P'
import json, sys
r = json.load(open(sys.argv[1]))
json.dump({'property': sys.argv[2], 'fixed_by': sys.argv[4], 'was': r['violation'], 'plan': r['plan']},
          open('pinned/%s-%s.json' % (sys.argv[2], sys.argv[3]), 'w'), indent=1)
print(sys.argv[2], sys.argv[3], r['violation']['kind'], r['violation']['msg'][:150])
P
