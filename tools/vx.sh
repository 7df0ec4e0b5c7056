#!/bin/bash
# developer loop: extract and verify. usage: vx.sh [verus args]
set -e
B=/verif/.build/dev; mkdir -p $B
/verif/.build/extract/debug/treena-extract ${REPO:-/repo} /verif/contracts $B/x.rs $B/x.json
cd $B && exec verus x.rs --num-threads 8 "$@"
