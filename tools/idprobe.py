#!/usr/bin/env python3
"""Concrete companion of C14: the ID types of the current tree, at the ends of their ranges.

The text of src/nonmax.rs and src/dynamic/id.rs is compiled as it stands (inner doc comments and test
modules left out) beside a small driver that sits inside the module `id`, where the private conversions
are visible.  What does not build is reported as unavailable, never as a violation.
usage: idprobe.py [WIDTH INDEX [INDEX2]]"""
import os, re, subprocess, sys

DRIVER = r'''
pub fn probe(width: &str, a: usize, b: usize) -> Result<(), String> {
    fn go<I: InternalNodeId + Ord>(max: usize, a: usize, b: usize) -> Result<(), String> {
        use private::SealedInternalNodeId as S;
        for v in [a, b] {
            match <I as S>::from_usize(v) {
                None if v < max => return Err(format!("index {v} is rejected, the documented maximum is {}", max - 1)),
                Some(i) if v >= max => return Err(format!("index {v} is accepted (as index {}), the documented maximum is {}", S::to_usize(i), max - 1)),
                Some(i) if S::to_usize(i) != v => return Err(format!("index {v} comes back as {}", S::to_usize(i))),
                Some(i) => {
                    let e = <I as NodeId>::from_internal(i);
                    if S::to_usize(e.to_internal()) != v {
                        return Err(format!("index {v} comes back as {} through NodeId", S::to_usize(e.to_internal())));
                    }
                }
                None => {}
            }
        }
        if let (Some(x), Some(y)) = (<I as S>::from_usize(a), <I as S>::from_usize(b)) {
            use core::cmp::Ordering::Equal;
            if (x == y) != (a == b) || (x.cmp(&y) == Equal) != (a == b) || x.cmp(&y) != y.cmp(&x).reverse() || x.partial_cmp(&y) != Some(x.cmp(&y)) {
                return Err(format!("the IDs of indices {a} and {b} compare as {:?}, == gives {}", x.cmp(&y), x == y));
            }
        }
        Ok(())
    }
    match width {
        "u8" => go::<NodeIdU8>(u8::MAX as usize, a, b),
        "u16" => go::<NodeIdU16>(u16::MAX as usize, a, b),
        "u32" => go::<NodeIdU32>(u32::MAX as usize, a, b),
        "u64" => go::<NodeIdU64>(u64::MAX as usize, a, b),
        _ => go::<NodeIdUsize>(usize::MAX, a, b),
    }
}
'''
MAIN = r'''
fn main() {
    let arg: Vec<String> = std::env::args().collect();
    let mut n = 0u64;
    let mut run = |w: &str, a: usize, b: usize| {
        n += 1;
        if let Err(m) = dynamic::id::probe(w, a, b) {
            println!("FOUND {w} {a} {b}\n{m}");
            std::process::exit(1);
        }
    };
    if arg.len() > 2 {
        let a: usize = arg[2].parse().unwrap();
        run(&arg[1], a, arg.get(3).map_or(a, |s| s.parse().unwrap()));
        println!("OK 1");
        return;
    }
    for w in ["u8", "u16", "u32", "u64", "usize"] {
        let mut s: Vec<usize> = vec![];
        for k in 0..64 {
            for d in [0, 1, 2, 3] {
                s.push((1usize << k).wrapping_add(d));
                s.push((1usize << k).wrapping_sub(d));
                s.push(0usize.wrapping_sub(1usize << k).wrapping_add(d));
            }
        }
        let mut x = 0x9e3779b97f4a7c15u64;
        for _ in 0..200 {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            s.push((x >> (x & 63)) as usize);
        }
        for &a in &s {
            for &b in &s {
                run(w, a, b);
            }
        }
        for a in 0..70000 {
            run(w, a, a + 1);
        }
    }
    println!("OK {n}");
}
'''

def strip(src):
    src = re.sub(r'(?m)^\s*//!.*\n', '', src)
    return re.sub(r'#\[cfg\(test\)\]\s*mod \w+ \{.*\Z', '', src, flags=re.S)

def run(V, REPO, BUILD, args=()):
    """{'evaluations': n} or {'found': (script, message)} or {'unavailable': reason}"""
    d = BUILD + '/idprobe'
    os.makedirs(d, exist_ok=True)
    try:
        nm, idr = (strip(open(f'{REPO}/src/{f}').read()) for f in ('nonmax.rs', 'dynamic/id.rs'))
        open(d + '/main.rs', 'w').write('#![allow(unused, dead_code)]\nmod nonmax {\n' + nm + '\n}\nmod dynamic {\npub mod id {\n' + idr + DRIVER + '\n}\npub use id::*;\n}\n' + MAIN)
        r = subprocess.run(['rustc', '--edition', '2021', '-O', '-o', d + '/probe', d + '/main.rs'], capture_output=True, text=True, timeout=200)
        if r.returncode:
            return {'unavailable': r.stderr[-500:]}
        r = subprocess.run([d + '/probe', *args], capture_output=True, text=True, timeout=200)
    except Exception as e:
        return {'unavailable': repr(e)}
    out = r.stdout.split('\n')
    if out[0].startswith('OK'):
        return {'evaluations': int(out[0].split()[1])}
    if out[0].startswith('FOUND'):
        return {'found': ('property C14\n# replay: python3 /verif/tools/idprobe.py ' + out[0][6:], out[0][6:] + ': ' + out[1])}
    return {'found': ('property C14\n# replay: python3 /verif/tools/idprobe.py', f'the probe ended with {r.returncode}: {r.stderr[-300:]}')} if 'panicked' in r.stderr else {'unavailable': r.stderr[-300:]}

if __name__ == '__main__':
    r = run('/verif', '/repo', '/verif/.build', sys.argv[1:])
    print(r)
    sys.exit(1 if 'found' in r else 0)
