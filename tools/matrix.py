#!/usr/bin/env python3
"""Run the check of the property of each planted bug (and of the properties named after `--`)
against it, and write how it was caught to tools/matrix.json. Changes and restores /repo."""
import glob, json, os, re, subprocess, sys
V = '/verif'
out = f'{V}/tools/matrix.json'
M = json.load(open(out)) if os.path.exists(out) else {}
want = sys.argv[1:]
for d in sorted(glob.glob(V + '/seeded/*')):
    b = os.path.basename(d)
    if want and not any(b.startswith(w) for w in want):
        continue
    prop = json.load(open(d + '/meta.json'))['property']
    subprocess.run(['git', '-C', '/repo', 'apply', d + '/patch.diff'], check=True)
    try:
        p = subprocess.run(['python3', 'check.py', prop], cwd=V, capture_output=True, text=True)
    finally:
        subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'], check=True)
    o = p.stdout + p.stderr
    M[b] = dict(property=prop, rc=p.returncode,
                obligations=sorted(set(re.findall(r'^failed obligation: \[([^\]]+)\]', o, re.M)) | set(re.findall(r'also open: \[([^\]]+)\]', o))),
                undecided=sorted(set(re.findall(r'^undecided: ([^\n:]{1,90})', o, re.M)))[:4],
                input='failing input:' in o)
    print(b, M[b], flush=True)
    json.dump(M, open(out, 'w'), indent=1, sort_keys=True)
