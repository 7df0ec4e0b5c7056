#!/bin/bash
# on_bug.sh BUG PROP...: applies a planted bug to /repo, runs the checks, undoes it.
git -C /repo apply /verif/seeded/$1/patch.diff || exit 9
for p in "${@:2}"; do python3 /verif/check.py $p quick 2>&1 | cut -c1-300; done
git -C /repo checkout -- .
