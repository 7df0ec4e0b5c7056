#!/usr/bin/env python3
"""Developer loop: extract, verify, print each failed obligation compactly.
usage: vv.py [MODULE ...] [-- verus args]"""
import json, os, re, subprocess, sys, time
B = '/verif/.build/dev'
os.makedirs(B, exist_ok=True)
args = sys.argv[1:]
extra = []
if '--' in args:
    i = args.index('--'); extra = args[i+1:]; args = args[:i]
r = subprocess.run(['/verif/.build/extract/debug/treena-extract', os.environ.get('REPO','/repo'), '/verif/contracts', B+'/x.rs', B+'/x.json'])
if r.returncode: sys.exit(1)
J = json.load(open(B+'/x.json'))
if J['lost'] or J['unmatched_contracts']: print('LOST', J['lost'], J['unmatched_contracts'])
cmd = ['verus','x.rs','--num-threads','8','--triggers-mode','silent','-V','spinoff-all','--no-report-long-running','--error-format=json'] + [y for m in args for y in ('--verify-only-module', m)] + extra
t=time.time()
p = subprocess.run(cmd, cwd=B, capture_output=True, text=True)
src = open(B+'/x.rs').read().split('\n')
# function by output line
ranges = sorted(J['fns'], key=lambda f: f[2]-f[1])
def fn_at(line):
    if 0 < line <= len(J['line_fn']) and J['line_fn'][line-1] >= 0: return J['fns'][J['line_fn'][line-1]][0]
    for k in range(line-1, -1, -1):
        m = re.search(r'\bproof fn (\w+)|\bfn (\w+)', src[k])
        if m: return m.group(1) or m.group(2)
    return '?'
n=0
for l in p.stderr.split('\n'):
    if not l.startswith('{'):
        if l.strip(): print(l)
        continue
    d = json.loads(l)
    if d['level'] not in ('error',): continue
    if 'aborting due' in d['message']: continue
    n+=1
    sp = d.get('spans',[])
    prim = [s for s in sp if s['is_primary']] or sp
    line = prim[0]['line_start'] if prim else 0
    print(f"[{fn_at(line)}] {d['message']}")
    for s in sp:
        if not s['file_name'].endswith('x.rs'): print('      ', s['file_name'], s['line_start'], s.get('label')); continue
        txt = ' '.join(src[s['line_start']-1:s['line_end']]).strip()
        txt = re.sub(r'\s+',' ',txt)
        print(f"     {'*' if s['is_primary'] else ' '} {s['line_start']}: {txt[:230]} {('<<'+s['label']+'>>') if s.get('label') else ''}")
    if not sp: print(d.get('rendered'))
m = re.search(r'verification results.*', p.stdout); print(m.group(0) if m else p.stdout[-500:], f'{time.time()-t:.1f}s')
