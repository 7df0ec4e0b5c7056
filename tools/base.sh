#!/bin/bash
# Regenerates the committed baselines contracts/names.txt and contracts/uncontracted.txt from the unchanged tree.
cd "$(dirname "$0")/.."
T=$(mktemp -d)
.build/extract/debug/treena-extract ${REPO:-/repo} contracts $T/x.rs $T/x.json --names && python3 -c "
import json,sys
J=json.load(open('$T/x.json'));open('contracts/uncontracted.txt','w').write('\n'.join(J['uncontracted'])+'\n');print(len(J['contracted']),'contracted',len(J['uncontracted']),'not')"
rm -r $T
