#!/usr/bin/env python3
"""Check of one property: check.py PROP [quick|thorough]

1. Extracts the verified text from /repo's working tree (extract/), with the
   contracts of contracts/, and lets Verus discharge every obligation of the
   functions the property depends on.
2. Runs the concrete harness (harness/) for the property against the real crate:
   it replays a broken property as a failing input, and it is the bounded
   stand-in where the extraction or the verifier cannot decide.
"""
from concurrent.futures import ThreadPoolExecutor
import fnmatch, json, os, re, shutil, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = V + '/.build'
sys.path.insert(0, V + '/tools')
from props import PROPS, LEMMA_MODULES, EXTERNAL, matches  # noqa: E402

os.environ.setdefault('CARGO_NET_OFFLINE', 'true')
os.environ.pop('RUSTC_WRAPPER', None)


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def run(cmd, cwd=None, timeout=None, env=None):
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, timeout=timeout, env=e)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as x:
        return 124, (x.stdout or b'').decode(errors='replace') if isinstance(x.stdout, bytes) else (x.stdout or ''), 'timeout'


def need(ok, what, err=''):
    if not ok:
        log('error of the check:', what, err[-3000:])
        sys.exit(3)


def build_tool(name, profile='dev'):
    target = f'{BUILD}/{name}'
    # Cargo sees changes by modification time only: always rebuild the crate under test.
    fp = f'{target}/{"debug" if profile == "dev" else profile}/.fingerprint'
    if os.path.isdir(fp):
        for d in os.listdir(fp):
            if d.startswith('treena-') and not d.startswith('treena-extract'):
                shutil.rmtree(f'{fp}/{d}', ignore_errors=True)
    env = {'CARGO_TARGET_DIR': target, 'RUSTFLAGS': '-Awarnings'}
    cmd = ['cargo', 'build', '--offline', '-q', '--profile', profile]
    rc, _, err = run(cmd, cwd=f'{V}/{name}', timeout=800, env=env)
    need(rc == 0, f'cannot build {name}', err)


def run_harness(profile, prop, tier, seed, out, secs):
    """Runs the concrete harness as built with `profile`."""
    hj = f'{out}/harness-{profile}.json'
    if os.path.exists(hj):
        os.remove(hj)
    cmd = [f'{BUILD}/harness/{profile}/treena-harness', 'run', prop, tier, str(seed), hj, str(secs)]
    rc, so, err = run(cmd, timeout=secs + 200)
    if rc in (0, 1) and os.path.exists(hj):
        H = json.load(open(hj))
    else:
        # The code under test took the process down (stack overflow, abort): which case was it?
        log(f'harness ended with {rc}; running it again with a trace')
        tr = f'{out}/trace-{profile}.txt'
        rc2, so, err = run(cmd, timeout=secs + 200, env={'TRACE': tr})
        last = open(tr).read() if os.path.exists(tr) else ''
        need(rc2 not in (0, 1) and last, f'harness: rc {rc}, then {rc2}', so + err)
        H = dict(evaluations=1, distinct_nontrivial=1, truncated=True, wall_s=0.0, samples=[last[:300]],
                 found=dict(script=last, msg=f'the process running this case ended with status {rc2}: {err.strip()[-300:]}'))
    log(f'harness ({profile}): {H["evaluations"]} cases, {H["wall_s"]} s, found: {bool(H["found"])}')
    return H


def extract(out, extra=(), opaque=()):
    os.makedirs(out, exist_ok=True)
    rc, so, err = run([f'{BUILD}/extract/debug/treena-extract', REPO, V + '/contracts', out + '/x.rs', out + '/x.json', *extra], env={'OPAQUE': ','.join(sorted(opaque))})
    if rc != 0:
        return None, (so + err).strip()
    return json.load(open(out + '/x.json')), ''


DEADLINE = [time.time() + 700]


def verus(out, modules, extra=(), timeout=480):
    timeout = max(20, min(timeout, DEADLINE[0] - time.time()))
    cmd = ['verus', 'x.rs', '--num-threads', '8', '--triggers-mode', 'silent', '-V', 'spinoff-all', '--no-report-long-running',
           '--error-format=json', '--output-json', '--time-expanded', *extra]
    for m in modules:
        cmd += ['--verify-only-module', m]
    t = time.time()
    rc, so, err = run(cmd, cwd=out, timeout=timeout)
    r = dict(cmd=' '.join(cmd), rc=rc, wall=round(time.time() - t, 2), diags=[], funcs=[], ok=False, compile_error=False, verified=0, errors=0)
    r['raw'] = err
    try:
        j = json.loads(so[so.index('{'):])
        vr = j['verification-results']
        r['verified'], r['errors'] = vr.get('verified', 0), vr.get('errors', 0)
        r['ok'] = vr.get('success', False)
        r['compile_error'] = vr.get('encountered-vir-error', False) or 'verified' not in vr
        for m in j.get('times-ms', {}).get('smt', {}).get('smt-run-module-times', []):
            for f in m.get('function-breakdown', []):
                r['funcs'].append((m['module'], f['function'].split('::')[-1], f['success'], f['time-micros'], f['rlimit']))
    except (ValueError, KeyError):
        r['compile_error'] = True
    for l in err.split('\n'):
        if l.startswith('{'):
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d.get('level') == 'error' and 'aborting due' not in d['message']:
                r['diags'].append(d)
    # What rustc itself refuses (it gives codes) is no failed obligation.
    r['compile_error'] = r['compile_error'] or any(d.get('code') for d in r['diags']) or (rc != 0 and r['errors'] == 0)
    return r


class Text:
    """The verified text, and what each of its lines stands for."""

    def __init__(self, out, J):
        self.src = open(out + '/x.rs').read().split('\n')
        self.J = J
        self.ranges = sorted(J['fns'], key=lambda f: f[2] - f[1])

    def fn_at(self, line):
        k = self.J['line_fn'][line - 1] if 0 < line <= len(self.J['line_fn']) else -1
        if k >= 0:
            return self.J['fns'][k][0]
        mod, name = '?', '?'
        for k in range(min(line, len(self.src)) - 1, -1, -1):
            m = re.search(r'\bproof fn (\w+)|\bfn (\w+)', self.src[k]) if name == '?' else None
            if m:
                name = m.group(1) or m.group(2)
            m = re.match(r'pub mod (\w+) \{', self.src[k])
            if m:
                mod = m.group(1)
                break
        return f'{mod}::{name}'

    def where(self, line):
        f, n = self.J['lines'][line - 1] if 0 < line <= len(self.J['lines']) else (0, 0)
        fs = self.J['files']
        return f'{fs[f]}:{n}' if 0 <= f < len(fs) else f'contract, line {n}' if f == -2 else 'extracted text'

    def explain(self, d):
        sp = [s for s in d.get('spans', []) if s['file_name'].endswith('x.rs')]
        # Of a postcondition that a trait declares, the implementation that fails it.
        prim = [s for s in sp if 'postcondition' in d['message'] and (s.get('label') or '').startswith('at ')]
        prim = prim or [s for s in sp if s['is_primary']] or sp
        fn = self.fn_at(prim[0]['line_start']) if prim else '?'
        lines = [f'[{fn}] {d["message"]}']
        for s in sp:
            txt = re.sub(r'\s+', ' ', ' '.join(self.src[s['line_start'] - 1:min(s['line_end'], s['line_start'] + 6)])).strip()
            lines.append(f'    {self.where(s["line_start"])}: {txt[:300]}' + (f'   <-- {s["label"]}' if s.get('label') else ''))
        return fn, '\n'.join(lines)

    def clause(self, d):
        """The text of the clause that failed."""
        sp = [s for s in d.get('spans', []) if s['file_name'].endswith('x.rs') and 'fail' in (s.get('label') or '')]
        return ' '.join(' '.join(self.src[s['line_start'] - 1:s['line_end']]) for s in sp)

    def about_lemma(self, d):
        """Is it the precondition of a lemma that failed?"""
        sp = [s for s in d.get('spans', []) if 'fail' in (s.get('label') or '')]
        return any('std_specs' not in s['file_name'] if not s['file_name'].endswith('x.rs') else self.fn_at(s['line_start']).split('::')[0] in LEMMA_MODULES + ['spec'] for s in sp)


def trusted(text):
    """Every assumption in the verified text, found mechanically."""
    out = []
    for i, l in enumerate(text.src):
        if re.search(r'\bassume\s*\(|\badmit\s*\(|external_body|assume_specification|external_type_specification|#\[verifier::external|exec_allows_no_decreases', l):
            nxt = l.strip()
            j = i
            while re.match(r'\s*#\[', text.src[j]) and j + 1 < len(text.src):
                j += 1
                nxt += ' ' + text.src[j].strip()
            out.append(f'{text.where(i + 1)}: {nxt[:160]}')
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    tier = tier if tier in ('quick', 'thorough') else 'quick'
    if tier == 'thorough':
        DEADLINE[0] += 3000
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    P = PROPS[prop]
    t0 = time.time()
    out = f'{BUILD}/run/{prop}'
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    build_tool('extract')
    # The concrete side, next to the proof: as built with and without debug assertions and overflow checks.
    secs = {'quick': 120, 'thorough': 420}[tier]

    def concrete(profile, tier, secs):
        build_tool('harness', profile)
        return run_harness('debug' if profile == 'dev' else profile, prop, tier, seed, out, secs)
    pool = ThreadPoolExecutor(2)
    H = pool.submit(concrete, 'dev', tier, secs)
    H2 = pool.submit(concrete, 'plain', 'quick', 120)
    undecided = []   # reasons why the proof does not decide
    failed = []      # (function, text) of failed obligations
    ev = dict(functions=[], obligations=0, discharged=0)
    J, why = extract(out)
    text = None
    if J is None:
        undecided.append('extraction failed: ' + why)
    else:
        text = Text(out, J)
        mods = P['modules'] + [m for m in LEMMA_MODULES if m in P.get('lemmas', LEMMA_MODULES)]
        done = set(J['contracted'])
        fns = [n for n, _, _ in J['fns'] if matches(n, P['fns']) and n in done]
        base = set(open(V + '/contracts/uncontracted.txt').read().split())
        helpers = [u for u in J['uncontracted'] if u not in base]
        for l in J['lost'] + J['unmatched_contracts']:
            if matches(l.split(': ')[0], P['fns']):
                undecided.append('contract has lost its place: ' + l)
        for g in P['fns']:
            if not any(fnmatch.fnmatchcase(n, g) for n in fns):
                undecided.append('no function matches ' + g)
        calls = J.get('calls', {})
        short = {h.split('::')[-1] for h in helpers}
        for f in fns:
            hit = [c for c in calls.get(f, []) if c.split('::')[-1].lstrip('.') in short]
            if hit:
                undecided.append(f'{f} calls {", ".join(hit)}, which has no contract')
        R = verus(out, mods)
        log(f'verus: {R["verified"]} verified, {R["errors"]} errors, {R["wall"]} s')
        # Functions whose bodies the verifier does not take are left out, and undecided.
        opaque = set()
        while R['compile_error'] and R['diags'] and len(opaque) < 12:
            bad = {text.explain(d)[0]: text.explain(d)[1] for d in R['diags']}
            if not all(b in {n for n, _, _ in J['fns']} for b in bad) or set(bad) <= opaque:
                break
            opaque |= set(bad)
            for b, tx in bad.items():
                if matches(b, P['fns']):
                    undecided.append('the verifier does not take the body: ' + tx)
            J2, why = extract(out, opaque=opaque)
            if J2 is None:
                break
            J, text = J2, Text(out, J2)
            R = verus(out, mods)
            log(f'verus without {", ".join(sorted(opaque))}: {R["verified"]} verified, {R["errors"]} errors, {R["wall"]} s')
        if opaque:
            ev['left_out'] = sorted(opaque)
        fns = [f for f in fns if f not in opaque]

        def concerns(fn):
            return fn.split('::')[0] in LEMMA_MODULES + ['spec', 'vt'] or matches(fn, P['fns'])
        if R['rc'] != 0 and not R['compile_error'] and any(concerns(text.explain(d)[0]) for d in R['diags']):
            # Tool limits and unstable queries are no verdict: try again with more resources.
            R2 = verus(out, mods, ['--rlimit', '60'])
            log(f'verus again: {R2["verified"]} verified, {R2["errors"]} errors, {R2["wall"]} s')
            if not R2['compile_error']:
                R = R2
        if R['compile_error'] or R['rc'] == 124:
            undecided.append('the verifier does not take the text: ' + '; '.join(d['message'] for d in R['diags'][:3]) + ('' if R['diags'] else R['raw'][-300:]))
            for d in R['diags'][:5]:
                undecided.append(text.explain(d)[1])
        else:
            in_crate = {f[0] for f in J['fns']}
            proofs = []
            for d in R['diags']:
                fn, tx = text.explain(d)
                limit = 'Resource limit' in d['message'] or 'rlimit' in d['message']
                lemma = fn.split('::')[0] in LEMMA_MODULES + ['spec', 'vt']
                if not lemma and fn not in in_crate:
                    proofs.append('open proof: ' + tx)  # a proof in an impl
                    continue
                if not lemma and not matches(fn, P['fns']):
                    continue
                if not limit and not lemma and P.get('clauses'):
                    if text.about_lemma(d) or not P['clauses'](fn, d['message'], text.clause(d)):
                        undecided.append('open, and not an obligation about this property: ' + tx)
                        continue
                if fn in J.get('renamed', []):
                    undecided.append('open, in a function with renamed locals: ' + tx)
                elif fn in J.get('reshaped', []):
                    undecided.append('open, in a function whose loops are of another kind: ' + tx)
                elif limit or lemma:
                    undecided.append(('resource limit: ' if limit else 'lemma: ') + tx)
                else:
                    failed.append((fn, tx))
            if not failed:
                undecided += proofs
        per = {}
        for m, n, ok, us, rl in R['funcs']:
            per.setdefault((m, n), []).append((ok, us))
        seen, keys, sec, lem_n = [], set(), 0.0, 0
        for f in fns:
            parts = f.split('::')
            name = parts[-1]
            mod = '::'.join(p for p in parts[:-1] if p[0].islower())
            up = next((i for i, p in enumerate(parts) if not p[0].islower()), len(parts) - 2)
            tr = parts[up].replace('@', '_') + '_' if '@' in parts[up] else ''
            for k in ((mod, name), ('::'.join(parts[:up]), tr + '__'.join(parts[-2:]))):
                if k in per:
                    seen.append(f)
                    keys.add(k)
                    break
        for (m, n), hs in per.items():
            lemma = m in LEMMA_MODULES
            if lemma or (m, n) in keys:
                ev['obligations'] += len(hs)
                ev['discharged'] += sum(1 for h in hs if h[0])
                sec += sum(h[1] for h in hs) / 1e6
                lem_n += len(hs) if lemma else 0
        ev['functions'] = seen
        ev['lemmas'] = lem_n
        ev['solver_s'] = round(sec, 2)
        if not undecided and not failed and ev['discharged'] < ev['obligations']:
            undecided.append(f'{ev["obligations"] - ev["discharged"]} obligations are open, and the verifier does not say where')
        if not undecided and not failed and len(seen) < P.get('min_fns', len(fns)):
            undecided.append(f'only {len(seen)} of {len(fns)} functions produced obligations: missing ' + ', '.join(sorted(set(fns) - set(seen))))
        ev['verus'] = R['cmd']
        ev['verus_wall_s'] = R['wall']
    # Obligations of other back ends.
    for name in P.get('external', []):
        r = EXTERNAL[name](V, REPO, BUILD, tier)
        ev.setdefault('external', {})[name] = r['evidence']
        ev['obligations'] += r['obligations']
        ev['discharged'] += r['discharged']
        if r['undecided']:
            undecided.append(f'{name}: {r["undecided"]}')
        for f, tx in r['failed']:
            failed.append((f, tx))
    # Vacuity guard: each contracted function must be reachable under its precondition.
    if tier == 'thorough' and J is not None and not undecided and not failed:
        vo = out + '/vac'
        VJ, why = extract(vo, ['--vacuity'])
        if VJ is not None:
            vt = Text(vo, VJ)
            R = verus(vo, P['modules'])
            hit = {vt.explain(d)[0] for d in R['diags'] if 'assertion failed' in d['message']}
            vac = [f for f in ev['functions'] if f in VJ['contracted'] and f not in hit and f not in P.get('novac', [])]
            ev['vacuity'] = dict(reachable=len(hit), not_shown=vac)
            if vac and not R['compile_error']:
                log('vacuity: not shown reachable:', vac)
    H, H2 = H.result(), H2.result()
    if not H['found']:
        if H2['found']:
            H2['found']['msg'] += ' (built without debug assertions and overflow checks: .build/harness/plain)'
        for k in ('evaluations', 'wall_s'):
            H2[k] += H[k]
        H2['distinct_nontrivial'] = H['distinct_nontrivial']
        H2['truncated'] = H['truncated'] or H2['truncated']
        H2['samples'] = H['samples']
        H = H2
    if P.get('probe') and not H['found']:
        pr = P['probe'](V, REPO, BUILD)
        log('probe:', pr)
        if 'found' in pr:
            H['found'] = dict(script=pr['found'][0], msg=pr['found'][1])
        H['evaluations'] += pr.get('evaluations', 0)
    os.makedirs(V + '/replays', exist_ok=True)
    rp = f'{V}/replays/{prop}.txt'
    lines = []
    nviol = 0
    if H['found']:
        nviol = 1
        body = H['found']['script'] + '\n# ' + H['found']['msg'].replace('\n', '\n# ') + '\n'
        if failed:
            body += '# Failed obligations:\n# ' + '\n'.join(t for _, t in failed).replace('\n', '\n# ') + '\n'
        open(rp, 'w').write(body)
        print('\n'.join(f'failed obligation: {t}' for _, t in failed))
        print(f'failing input: {H["found"]["msg"]}')
        lines.append(f'VIOLATION property={prop} replay={rp}')
    elif failed and not undecided:
        nviol = len(failed)
        open(rp, 'w').write(f'property {prop}: obligations that the verifier no longer discharges (no failing input found)\n\n'
                            + '\n'.join(t for _, t in failed) + '\n\nverifier output:\n' + (R['raw'][-20000:] if J is not None else '') + '\n')
        print('\n'.join(f'failed obligation: {t}' for _, t in failed))
        lines.append(f'VIOLATION property={prop} replay={rp} no-failing-input-found')
    proof = not undecided and not failed and not H['found']
    if failed and undecided:
        undecided += ['also open: ' + t for _, t in failed]
    E = dict(property=prop, tier=tier, seed=seed, wall_s=round(time.time() - t0, 2), violations=nviol)
    bounded = dict(evaluations=H['evaluations'], distinct_nontrivial=H['distinct_nontrivial'],
                   rule='concrete operation scripts on the real crate compared with an independent model (harness/); non-trivial: more than one node',
                   samples=H['samples'] or ['none'], truncated_by_time=H['truncated'])
    tb = (trusted(text) if text else []) + ['Verus ' + ' and its SMT solver Z3', 'the extraction (extract/; what it drops is listed in DESIGN.md)']
    if proof or (failed and not undecided):
        E['level'] = P['level']
        E['coverage'] = dict(obligations=ev['obligations'], discharged=ev['discharged'], checker_cmd=ev.get('verus', ''), trusted_base=tb,
                             functions_under_contract=ev['functions'], lemmas=ev.get('lemmas', 0), solver_s=ev.get('solver_s', 0), back_end='Verus (Z3)',
                             failed=[t for _, t in failed], bounded_companion=bounded)
        for k in ('vacuity', 'external'):
            if k in ev:
                E['coverage'][k] = ev[k]
        if P.get('bounded_parts'):
            E['coverage']['bounded_parts'] = P['bounded_parts']
        E['coverage'].update(explanation=P['claim'])
    else:
        E['level'] = 'exploration'
        E['coverage'] = dict(bounded, explanation='The proof does not decide this tree; the bounded harness stands in. Nothing is proved by this run.',
                             undecided=undecided, obligations=ev['obligations'], discharged=ev['discharged'])
        for u in undecided:
            log('undecided:', u)
        print('undecided by the verifier, bounded stand-in used: ' + undecided[0].split('\n')[0] if undecided else '')
    E['assumptions'] = P.get('assumptions', []) + [a for a in (tb if E['level'] == 'proof' else [])]
    os.makedirs(V + '/evidence', exist_ok=True)
    json.dump(E, open(f'{V}/evidence/{prop}.json', 'w'), indent=1)
    known = [l.strip() for l in open(V + '/known-findings.txt')] if os.path.exists(V + '/known-findings.txt') else []
    for l in known:
        if l.startswith(f'finding: property={prop} '):
            print('KNOWN-FINDING: ' + l[len('finding: '):])
    for l in lines:
        print(l)
    if proof:
        print(f'{prop}: {ev["discharged"]} of {ev["obligations"]} obligations discharged, {len(ev["functions"])} functions; {H["evaluations"]} concrete cases; {E["wall_s"]} s')
    sys.exit(1 if lines else 0)


main()
