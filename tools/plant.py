#!/usr/bin/env python3
"""Plants a bug: plant.py SPEC.py. The spec defines ID, PROP, FILE, EDITS [(old, new)], NEEDS, BREAKS, DEMO (Rust main).
Confirms in a scratch copy that it compiles, passes the stable tests, and that the demo tells the trees apart; then runs the check."""
import json, os, re, shutil, subprocess, sys, tempfile
V = '/verif'
def sh(c, cwd=None, env=None):
    p = subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, env=dict(os.environ, **(env or {})))
    return p.returncode, p.stdout + p.stderr
DEMO_SH = '''#!/bin/bash
# Exit 0: the property holds for the history in demo.rs. Run with cwd = the repository.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
mkdir "$t/src"
cp "$here/demo.rs" "$t/src/main.rs"
cat > "$t/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
treena = { path = "$repo" }
X
cd "$t" && RUSTFLAGS=-Awarnings RUSTC_WRAPPER= CARGO_TARGET_DIR="$t/target" cargo build --offline -q || exit 3
timeout 60 "$t/target/debug/demo"
'''
for spec in sys.argv[1:]:
    S = {}
    exec(open(spec).read(), S)
    ID, PROP = S['ID'], S['PROP']
    t = '/tmp/seed/repo'
    shutil.rmtree(t, ignore_errors=True)
    shutil.copytree('/repo', t, symlinks=True, ignore=shutil.ignore_patterns('target'))
    edits = S['EDITS'] if isinstance(S['EDITS'], dict) else {S['FILE']: S['EDITS']}
    bad = False
    for f, es in edits.items():
        s = open(f'{t}/{f}').read()
        for a, b in es:
            if s.count(a) != 1:
                print(ID, 'edit matches', s.count(a), 'times:', a[:60]); bad = True
            s = s.replace(a, b)
        open(f'{t}/{f}', 'w').write(s)
    if bad: continue
    d = f'{V}/seeded/{ID}'
    os.makedirs(d, exist_ok=True)
    diff = subprocess.run('git diff', shell=True, cwd=t, capture_output=True, text=True).stdout
    open(d + '/demo.rs', 'w').write(S['DEMO'])
    open(d + '/demo.sh', 'w').write(DEMO_SH.replace('cargo build', 'cargo build --release').replace('/debug/', '/release/') if S.get('RELEASE') else DEMO_SH); os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=PROP, needs=S['NEEDS'], what_it_breaks=S['BREAKS']), open(d + '/meta.json', 'w'), indent=1)
    rc0, o0 = sh(f'bash {d}/demo.sh', cwd='/repo')
    rc1, o1 = sh(f'bash {d}/demo.sh', cwd=t)
    rct, ot = sh('cargo test --workspace --no-fail-fast --offline -- --test-threads 8', cwd=t, env={'CARGO_TARGET_DIR': '/tmp/seed/target'})
    open('/tmp/seed/log', 'w').write(ot)
    p = subprocess.run('python3 /opt/vp/results.py /tmp/seed/out.json cargo:/tmp/seed/log', shell=True, cwd=t, capture_output=True, text=True)
    fails = re.findall(r'^test (.*) \.\.\. FAILED', ot, re.M)
    print(f'{ID}: demo base {rc0} patched {rc1}; tests rc {rct} failing {fails}')
    if rc0 or not rc1 or rct:
        print((o0 if rc0 else '')[-800:], ot[-800:] if rct else '')
        shutil.rmtree(d)
        continue
    open(d + '/patch.diff', 'w').write(diff)
    if PROP in json.dumps([c['property'] for c in json.load(open(V + '/MANIFEST.json'))['checks']]):
        assert sh('git -C /repo status --short')[1].strip() == ''
        sh(f'git -C /repo apply {d}/patch.diff')
        try:
            rc, o = sh(f'python3 {V}/check.py {PROP} quick', cwd=V)
        finally:
            sh('git -C /repo checkout -- .')
        print('   check rc', rc, [l for l in o.split('\n') if 'VIOLATION' in l or 'undecided' in l or 'failed obl' in l or 'failing input' in l][:6])
