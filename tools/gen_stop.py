#!/usr/bin/env python3
"""Writes contracts/stop.vc: the contracts of the copies for calls that end in a panic."""
import os
import re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = []
H = 'dynamic::hierarchy::'
SAME = 'kept_at(p, old(self).s(), self.s())'

out.append(f'''@fn {H}Hierarchy::create_root__stop
@ghost_param
    Ghost(p): Ghost<bool>
@stop
    {SAME}
@spec
    requires
        wf(old(self).s()),
        old(self).s().len() <= Id::max_idx() || p,
    ensures
        old(self).s().len() <= Id::max_idx(),
        ix(r) == old(self).s().len(),
        final(self).s() == old(self).s().push(nb_root(ix(r))),
        wf(final(self).s()),
        abs(final(self).s()) == t_new(abs(old(self).s())),
@exit
    proof {{
        let s = old(self).s();
        assert(self.s() =~= s.push(nb_root(s.len() as int)));
        lemma_create(s, abs(s));
    }}
@fn {H}SiblingsRange::with_single_toplevel__stop
@ghost_param
    Ghost(p): Ghost<bool>
@stop
    p
@spec
    requires
        live(hier.s(), ix(node)) || p,
    ensures
        live(hier.s(), ix(node)),
        r.first == node && r.last == node,
@fn {H}Hierarchy::detach__stop
@ghost_param
    Ghost(p): Ghost<bool>
@stop
    {SAME}
@spec
    requires
        wf(old(self).s()),
        live(old(self).s(), ix(node)) || p,
    ensures
        live(old(self).s(), ix(node)),
        wf(final(self).s()),
        abs(final(self).s()) == t_detach(abs(old(self).s()), ix(node)),
@entry
    let ghost s = self.s();
    proof {{
        eqok::<Id>();
        if live(s, ix(node)) {{
            lemma_single(s, ix(node));
            lemma_detach(s, ix(node));
        }}
    }}
@exit
    proof {{
        let t = abs(s);
        let n = ix(node);
        let s1 = ct(s, t.parent[n], prev_of(t, n), next_of(t, n));
        assert(self.s() =~= s1.update(n, Nb {{ parent: None, prev: Some(n), next: None, ..s1[n] }}));
    }}
''')

vc = open(ROOT + '/contracts/hier2.vc').read()


def sections(path):
    """The contract of a function, as {directive: text}."""
    t = vc[vc.index('@fn ' + path + '\n'):]
    t = t[t.index('\n') + 1:]
    m = re.search(r'^@fn ', t, re.M)
    if m:
        t = t[:m.start()]
    r = {}
    for part in re.split(r'^@', t, flags=re.M)[1:]:
        head, _, body = part.partition('\n')
        r[head.strip()] = body
    return r


# detach_single: the same proof, under the condition that the node is live.
ds = sections(H + 'Hierarchy::detach_single')
entry = ds['entry']
a, b = entry.split('    proof {\n', 1)
b = b.rstrip()
assert b.endswith('}')
inner = b[:-1]
out.append(f'''@fn {H}Hierarchy::detach_single__stop
@ghost_param
    Ghost(p): Ghost<bool>
@stop
    {SAME}
@spec
{ds['spec'].replace('        live(old(self).s(), ix(node)),', '        live(old(self).s(), ix(node)) || p,').replace('    ensures', '    ensures' + chr(10) + '        live(old(self).s(), ix(node)),')}@entry
{a}    proof {{
        if live(s, n) {{
{inner}        }}
    }}
@exit
{ds['exit']}@after transplant
{ds['after transplant']}''')

for f, n, a, d, calls in [('prepend_child', 'new_first_child', 'parent', 'First', ''), ('append_child', 'new_last_child', 'parent', 'Last', ''),
                          ('insert_before', 'node', 'next_sibling', 'Before', ''), ('insert_after', 'node', 'prev_sibling', 'After', '')]:
    out.append(f'''@fn {H}Hierarchy::{f}__stop
@ghost_param
    Ghost(p): Ghost<bool>
@stop
    {SAME}
@stop_calls with_single_toplevel
@ghost_arg with_single_toplevel__stop
    Ghost({SAME})
@spec
    requires
        wf(old(self).s()),
        live(old(self).s(), ix({n})) && live(old(self).s(), ix({a})) || p,
    ensures
        wf(final(self).s()),
        r is Ok ==> live(old(self).s(), ix({n})) && live(old(self).s(), ix({a})),
        r is Ok ==> refusal(abs(old(self).s()), ix({n}), Dst::{d}(ix({a}))) is None,
        r is Err ==> final(self).s() == old(self).s(),
        live(old(self).s(), ix({n})) && live(old(self).s(), ix({a})) && refusal(abs(old(self).s()), ix({n}), Dst::{d}(ix({a}))) is None ==> r is Ok,
        r is Ok ==> abs(final(self).s()) == t_insert(abs(old(self).s()), ix({n}), Dst::{d}(ix({a}))),
@entry
    let ghost s = self.s();
    let ghost d = Dst::{d}(ix({a}));
    proof {{
        eqok::<Id>();
        if live(s, anchor(d)) {{
            lemma_single(s, anchor(d));
            if live(s, ix({n})) {{
                lemma_single(s, ix({n}));
                if dst_parent(abs(s), d) is Some && !((d is Before || d is After) && ix({n}) == anchor(d)) {{
                    lemma_insert(s, ix({n}), d);
                    lemma_abs_all(t_insert(abs(s), ix({n}), d));
                }}
            }}
        }}
    }}
''')

args = '\n'.join(f'@ghost_arg {f}__stop\n    Ghost({SAME})' for f in ('prepend_child', 'append_child', 'insert_before', 'insert_after'))
out.append(f'''@fn {H}Hierarchy::insert__stop
@ghost_param
    Ghost(p): Ghost<bool>
@stop
    {SAME}
@stop_calls prepend_child append_child insert_before insert_after
{args}
@spec
    requires
        wf(old(self).s()),
        live(old(self).s(), ix(node)) && live(old(self).s(), anchor(dst(dest))) || p,
    ensures
        wf(final(self).s()),
        r is Ok ==> live(old(self).s(), ix(node)) && live(old(self).s(), anchor(dst(dest))),
        r is Ok ==> refusal(abs(old(self).s()), ix(node), dst(dest)) is None,
        r is Err ==> final(self).s() == old(self).s(),
        live(old(self).s(), ix(node)) && live(old(self).s(), anchor(dst(dest))) && refusal(abs(old(self).s()), ix(node), dst(dest)) is None ==> r is Ok,
        r is Ok ==> abs(final(self).s()) == t_insert(abs(old(self).s()), ix(node), dst(dest)),
''')

F = 'dynamic::forest::'
FS = 'same(*old(self), *self)'
out.append(f'''@fn {F}Forest::detach__stop
@stop
    {FS}
@stop_calls detach
@ghost_arg detach__stop
    Ghost({FS})
@spec
    requires
        old(self).ok(),
    ensures
        live(old(self).s(), nx(node)),
@entry
    proof {{
        lemma_op_alive(self.s());
    }}
@fn {F}Forest::detach_single__stop
@stop
    {FS}
@stop_calls detach_single
@ghost_arg detach_single__stop
    Ghost({FS})
@spec
    requires
        old(self).ok(),
    ensures
        live(old(self).s(), nx(node)),
        r is Err ==> same(*old(self), *final(self)),
@entry
    proof {{
        lemma_op_alive(self.s());
    }}
@fn {F}Forest::insert__stop
@stop
    {FS}
@stop_calls insert
@ghost_arg insert__stop
    Ghost({FS})
@spec
    requires
        old(self).ok(),
    ensures
        r is Ok ==> live(old(self).s(), nx(node)) && live(old(self).s(), anchor(ndst(dest))),
        r is Err ==> same(*old(self), *final(self)),
@entry
    proof {{
        lemma_op_alive(self.s());
    }}
@fn {F}Forest::create_root__stop
@ghost_param
    Ghost(p): Ghost<bool>
@stop
    both(p, {FS})
@stop_calls create_root
@ghost_arg create_root__stop
    Ghost(both(p, {FS}))
@spec
    requires
        old(self).ok(),
        old(self).s().len() <= nmax::<Id>() || p,
    ensures
        old(self).s().len() <= nmax::<Id>(),
        final(self).ok(),
        nx(r) == old(self).s().len(),
        final(self).t() == t_new(old(self).t()),
        final(self).d() == old(self).d().push(Some(data)),
@entry
    proof {{
        nxok::<Id>();
    }}
@fn {F}create_insert_momo__stop
@ghost_param
    Ghost(t0): Ghost<Tr>, Ghost(d0): Ghost<Seq<Option<T>>>
@stop
    frozen(t0, d0, hierarchy.s(), storage@)
@stop_calls create_root insert
@ghost_arg create_root__stop
    Ghost(frozen(t0, d0, hierarchy.s(), storage@))
@ghost_arg insert__stop
    Ghost(frozen(t0, d0, hierarchy.s(), storage@))
@spec
    requires
        wf(old(hierarchy).s()),
        data_ok(old(hierarchy).s(), old(storage)@),
        frozen(t0, d0, old(hierarchy).s(), old(storage)@),
    ensures
        old(hierarchy).s().len() <= Id::max_idx(),
        live(old(hierarchy).s(), anchor(dst(dest))),
        dst_parent(abs(old(hierarchy).s()), dst(dest)) is Some,
        ix(r) == old(hierarchy).s().len(),
        wf(final(hierarchy).s()),
        data_ok(final(hierarchy).s(), final(storage)@),
        final(storage)@ == old(storage)@.push(Some(data)),
        abs(final(hierarchy).s()) == t_insert(t_new(abs(old(hierarchy).s())), ix(r), dst(dest)),
@entry
    proof {{
        lemma_stop_create(hierarchy.s(), dst(dest));
        lemma_frozen_new(t0, d0, hierarchy.s(), storage@, Some(data));
    }}
@fn {F}Forest::create_insert__stop
@ghost_param
    Ghost(t0): Ghost<Tr>, Ghost(d0): Ghost<Seq<Option<T>>>
@stop
    frozen(t0, d0, self.s(), self.d())
@stop_calls create_insert_momo
@ghost_arg create_insert_momo__stop
    Ghost(t0), Ghost(d0)
@spec
    requires
        old(self).ok(),
        frozen(t0, d0, old(self).s(), old(self).d()),
    ensures
        old(self).s().len() <= nmax::<Id>(),
        live(old(self).s(), anchor(ndst(dest))),
        dst_parent(old(self).t(), ndst(dest)) is Some,
        final(self).ok(),
        nx(r) == old(self).s().len(),
        final(self).d() == old(self).d().push(Some(data)),
        final(self).t() == t_insert(t_new(old(self).t()), nx(r), ndst(dest)),
@entry
    proof {{
        nxok::<Id>();
    }}
''')

# Cloning: the proofs of the normal case, without room and liveness.
vc = open(ROOT + '/contracts/clone.vc').read()


def clone(path, new, edits, head):
    sec = sections(path)
    t = ''.join(f'@{k}\n{v}' for k, v in sec.items())
    for a, b in edits:
        assert a in t, (path, a)
        t = t.replace(a, b)
    out.append(f'@fn {new}\n{head}{t}' if t.endswith('\n') else f'@fn {new}\n{head}{t}\n')


MAP = '_with_id_mapping'
STOPL = '''@stop
    frozen(t, d0, {h}.s(), {d}@)
@stop_calls create_insert_momo
@ghost_arg create_insert_momo__stop
    Ghost(t), Ghost(d0)
'''
L = F + 'Forest::clone_local_tree'
G = F + 'Forest::clone_foreign_tree'
clone(L + MAP + '::clone_next_node', L + MAP + '__stop::clone_next_node', [
    ('InternalId::max_idx() as int', '(t.alive.len() + pre(t, n).len()) as int'),
    ('@after create_insert_momo#0', '@after create_insert_momo__stop#0'),
    ('        k = k + 1;\n', '        lemma_frozen_copy(t, t, n, k, q, hierarchy.s(), ix(*current_dest), d0, d0, data@);\n        k = k + 1;\n'),
], STOPL.format(h='hierarchy', d='data'))
clone(G + MAP + '::clone_next_node', G + MAP + '__stop::clone_next_node', [
    ('InternalId::max_idx() as int', '(t.alive.len() + pre(abs(hierarchy_src.s()), n).len()) as int'),
    ('@after create_insert_momo#0', '@after create_insert_momo__stop#0'),
    ('        k = k + 1;\n', '        lemma_frozen_copy(t, u, n, k, q, hierarchy_dest.s(), ix(*current_dest), d0, data_src@, data_dest@);\n        k = k + 1;\n'),
], STOPL.format(h='hierarchy_dest', d='data_dest'))
OUTER = '''@stop
    same(*old(self), *self)
@stop_calls create_root
@ghost_arg create_root__stop
    Ghost(same(*old(self), *self))
'''
LIVE = '        live(old(self).s(), nx(src_id)),\n'
clone(L + MAP, L + MAP + '__stop', [
    (LIVE, ''),
    ('        old(self).s().len() + pre(old(self).t(), nx(src_id)).len() <= nmax::<Id>() + 1,\n', ''),
    ('    ensures\n', '    ensures\n' + LIVE),
    ('        thm_pre(t, n);\n        lemma_copy_start(t, t, n);\n', '        if live(self.s(), n) {\n            thm_pre(t, n);\n            lemma_copy_start(t, t, n);\n        }\n'),
], OUTER)
clone(G + MAP, G + MAP + '__stop', [
    ('        old(self).s().len() + pre(src_root.f().t(), src_root.i()).len() <= nmax::<Id>() + 1,\n', ''),
], OUTER)
NOLOOP = '''@stop
    same(*old(self), *self)
@stop_calls {c}
'''
clone(L, L + '__stop', [
    ('@ghost_arg clone_local_tree_with_id_mapping\n', '@ghost_arg clone_local_tree_with_id_mapping__stop\n'),
    (LIVE, ''),
    ('        old(self).s().len() + pre(old(self).t(), nx(src_id)).len() <= nmax::<Id>() + 1,\n', ''),
    ('    ensures\n', '    ensures\n' + LIVE),
], NOLOOP.format(c='clone_local_tree_with_id_mapping'))
clone(G, G + '__stop', [
    ('@ghost_arg clone_foreign_tree_with_id_mapping\n', '@ghost_arg clone_foreign_tree_with_id_mapping__stop\n'),
    ('        old(self).s().len() + pre(src_root.f().t(), src_root.i()).len() <= nmax::<Id>() + 1,\n', ''),
], NOLOOP.format(c='clone_foreign_tree_with_id_mapping'))

N = F + 'node::NodeMut::'
NS = 'same(old(self).f(), self.f())'
out.append(f'''@fn {N}try_adopt__stop
@ghost_param
    Ghost(p): Ghost<bool>
@stop
    both(p, {NS})
@stop_calls insert
@ghost_arg insert__stop
    Ghost(both(p, {NS}))
@spec
    requires
        old(self).ok(),
        live(old(self).f().s(), nx(node)) || p,
    ensures
        r is Ok ==> live(old(self).f().s(), nx(node)),
        r is Err ==> same(old(self).f(), final(self).f()),
@entry
    proof {{
        lemma_op_alive(self.f().s());
    }}
@fn {N}adopt__stop
@stop
    {NS}
@stop_calls try_adopt
@ghost_arg try_adopt__stop
    Ghost({NS})
@spec
    requires
        old(self).ok(),
    ensures
        live(old(self).f().s(), nx(node)),
@fn {N}create__stop
@stop
    frozen(old(self).f().t(), old(self).f().d(), self.f().s(), self.f().d())
@stop_calls create_insert
@ghost_arg create_insert__stop
    Ghost(old(self).f().t()), Ghost(old(self).f().d())
@spec
    requires
        old(self).ok(),
    ensures
        old(self).f().s().len() <= nmax::<Id>(),
        dst_parent(old(self).f().t(), ndst(insert_as(dest, old(self).id))) is Some,
        nx(r) == old(self).f().s().len(),
@entry
    proof {{
        nxok::<Id>();
    }}
''')

B = F + 'chain_builder::ChainTreeBuilder::'
out.append(f'''@fn {B}new__stop
@stop
    same(*old(forest), *forest)
@stop_calls create_root
@ghost_arg create_root__stop
    Ghost(same(*old(forest), *forest))
@spec
    requires
        old(forest).ok(),
    ensures
        old(forest).s().len() <= nmax::<Id>(),
        nx(r.root) == old(forest).s().len(),
        r.current == r.root,
@entry
    proof {{
        nxok::<Id>();
    }}
''')
for f, d in (('child', 'Last'), ('sibling', 'After')):
    out.append(f'''@fn {B}{f}__stop
@stop
    frozen(old(self).f().t(), old(self).f().d(), self.f().s(), self.f().d())
@stop_calls create_insert
@ghost_arg create_insert__stop
    Ghost(old(self).f().t()), Ghost(old(self).f().d())
@spec
    requires
        old(self).f().ok(),
    ensures
        old(self).f().s().len() <= nmax::<Id>(),
        live(old(self).f().s(), nx(old(self).current)),
        dst_parent(old(self).f().t(), Dst::{d}(nx(old(self).current))) is Some,
        nx(r.current) == old(self).f().s().len(),
@entry
    proof {{
        nxok::<Id>();
    }}
''')
SB = 'old(self).f() == self.f() && old(self).current == self.current'
out.append(f'''@fn {B}try_parent__stop
@stop
    both(old(self).f() == self.f(), old(self).current == self.current)
@spec
    requires
        old(self).f().ok(),
    ensures
        live(old(self).f().s(), nx(old(self).current)),
@entry
    proof {{
        nxok::<Id>();
        if live(self.f().s(), nx(self.current)) {{
            lemma_nav(self.forest.s(), nx(self.current));
        }}
    }}
@fn {B}parent__stop
@stop
    both(old(self).f() == self.f(), old(self).current == self.current)
@spec
    requires
        old(self).f().ok(),
    ensures
        live(old(self).f().s(), nx(old(self).current)),
        old(self).f().t().parent[nx(old(self).current)] is Some,
@entry
    proof {{
        nxok::<Id>();
        if live(self.f().s(), nx(self.current)) {{
            lemma_nav(self.forest.s(), nx(self.current));
        }}
    }}
''')

K = F + 'nest_builder::NestTreeBuilder::'
out.append(f'''@fn {K}new__stop
@stop
    same(*old(forest), *forest)
@stop_calls create_root
@ghost_arg create_root__stop
    Ghost(same(*old(forest), *forest))
@spec
    requires
        old(forest).ok(),
    ensures
        old(forest).s().len() <= nmax::<Id>(),
        nx(r.root) == old(forest).s().len(),
@entry
    proof {{
        nxok::<Id>();
    }}
''')
sec = None
vc = open(ROOT + '/contracts/build.vc').read()
NB = 'both(p, same(old(self).f(), self.f()))'
clone(K + 'add_child', K + 'add_child__stop', [
    ('        old(self).f().s().len() <= nmax::<Id>(),\n', '        old(self).f().s().len() <= nmax::<Id>() || p,\n'),
    ('    ensures\n', '    ensures\n        old(self).f().s().len() <= nmax::<Id>(),\n'),
], f'''@ghost_param
    Ghost(p): Ghost<bool>
@stop
    {NB}
@stop_calls create_root
@ghost_arg create_root__stop
    Ghost({NB})
''')
clone(K + 'create_tree', K + 'create_tree__stop', [
    ('        old(self).f().s().len() <= nmax::<Id>(),\n', ''),
    ('    ensures\n', '    ensures\n        old(self).f().s().len() <= nmax::<Id>(),\n'),
    ('    requires\n', '    requires\n'),
], '''@stop
    same(old(self).f(), self.f())
@stop_calls add_child
@ghost_arg add_child__stop
    Ghost(same(old(self).f(), self.f()))
''')
open(ROOT + '/contracts/stop.vc', 'w').write(''.join(out))
