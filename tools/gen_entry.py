#!/usr/bin/env python3
"""Writes contracts/entry.vc: the methods that start a traversal, on Node and on Forest."""
out = ['@# Written by tools/gen_entry.py.\n']
M = [
 ('depth_first_traverse', 'tour({t}, {n}, 0, None)', 0),
 ('shallow_depth_first_traverse', 'tour({t}, {n}, 0, lim(max_depth))', 0),
 ('breadth_first_traverse', 'bfs({t}, seq![{n}], 0)', 0),
 ('allocating_breadth_first_traverse', 'bfs({t}, seq![{n}], 0)', 0),
 ('ancestors_or_self', 'ancs({t}, {n})', 0),
 ('ancestors', 'oancs({t}, {t}.parent[{n}])', 1),
 ('children', '{t}.kids[{n}]', 0),
 ('following_siblings_or_self', 'from_sib({t}, {n})', 0),
 ('following_siblings', 'tail(from_sib({t}, {n}))', 1),
 ('preceding_siblings_or_self', 'to_sib({t}, {n})', 0),
 ('preceding_siblings', 'init(to_sib({t}, {n}))', 1),
]
for m, q, skip in M:
    x = '        mx(r.traverser.max_depth) == (if max_depth == Some(usize::MAX) { None } else { lim(max_depth) }),\n' if 'shallow' in m else ''
    out.append('''@fn dynamic::forest::node::Node::%s
@spec
    requires
        self.ok(),
    ensures
        r.forest == self.forest,
        r.to_come(%s),
%s''' % (m, q.format(t='self.f().t()', n='self.i()'), x))
    if skip:
        out.append('''@entry
    proof {
        let t = self.f().t();
        lemma_tw(self.f().s());
        lemma_nav(self.f().s(), self.i());
        lemma_oancs(self.f().s(), Some(self.i()));
        assert(tail(ancs(t, self.i())) =~= oancs(t, t.parent[self.i()]));
    }
''' if m == 'ancestors' else '')
    out.append('''@fn dynamic::forest::Forest::%s
@spec
    requires
        self.ok(),
        live(self.s(), nx(node)),
    ensures
        r.forest == self,
        r.to_come(%s),
%s''' % (m, q.format(t='self.t()', n='nx(node)'), x))
for f, st in (('first', 'stepped'), ('last', 'stepped_back')):
    out.append('''@fn dynamic::forest::node::%s_skipped
@spec
    requires
        iter.it_ok(),
    ensures
        iter.%s(r),
''' % (f, st))
open('/verif/contracts/entry.vc', 'w').write(''.join(out))
