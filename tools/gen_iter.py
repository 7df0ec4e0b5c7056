#!/usr/bin/env python3
"""Writes contracts/iter.vc: the contracts of the public iterators, which repeat one scheme."""
P = 'dynamic::forest::traverse::'
out = []
prel = ['''use crate::vt::{Iterator, DoubleEndedIterator};
/// `n` is a handle to the node `i` of `f`.
pub open spec fn is_node<'a, Id: NodeId, T>(n: Node<'a, Id, T>, f: &'a Forest<Id, T>, i: int) -> bool {
    n.forest == f && n.ok() && n.i() == i
}
pub open spec fn is_onode<'a, Id: NodeId, T>(r: Option<Node<'a, Id, T>>, f: &'a Forest<Id, T>, i: Option<int>) -> bool {
    &&& r is Some <==> i is Some
    &&& r is Some ==> is_node(r->0, f, i->0)
}
/// The event `r` is the event `e`, with a handle to its node.
pub open spec fn is_ev<'a, Id: NodeId, T>(r: DftEvent<Node<'a, Id, T>>, f: &'a Forest<Id, T>, e: Ev) -> bool {
    match (r, e) {
        (DftEvent::Open(n), Ev::O(i)) => is_node(n, f, i),
        (DftEvent::Close(n), Ev::C(i)) => is_node(n, f, i),
        _ => false,
    }
}
pub open spec fn is_oev<'a, Id: NodeId, T>(r: Option<DftEvent<Node<'a, Id, T>>>, f: &'a Forest<Id, T>, e: Option<(Ev, int)>) -> bool {
    &&& r is Some <==> e is Some
    &&& r is Some ==> is_ev(r->0, f, (e->0).0)
}
pub open spec fn is_oevd<'a, Id: NodeId, T>(r: Option<(DftEvent<Node<'a, Id, T>>, usize)>, f: &'a Forest<Id, T>, e: Option<(Ev, int)>) -> bool {
    &&& r is Some <==> e is Some
    &&& r is Some ==> is_ev((r->0).0, f, (e->0).0) && (r->0).1 == (e->0).1
}
pub open spec fn is_onoded<'a, Id: NodeId, T>(r: Option<(Node<'a, Id, T>, usize)>, f: &'a Forest<Id, T>, e: Option<(int, int)>) -> bool {
    &&& r is Some <==> e is Some
    &&& r is Some ==> is_node((r->0).0, f, (e->0).0) && (r->0).1 == (e->0).1
}''']
CL = '''@closure 0
|id: Id::Internal| -> (n: Node<'a, Id, T>)
    requires
        %(f)s.ok(),
        live(%(f)s.s(), ix(id)),
    ensures
        is_node(n, %(f)s, ix(id)),
'''
def fn(path, spec, entry='', attr='', more=''):
    s = '@fn ' + P + path + '\n'
    if attr: s += '@attr\n' + attr + '\n'
    s += '@spec\n' + spec.rstrip('\n') + '\n'
    if entry: s += '@entry\n' + entry.rstrip('\n') + '\n'
    out.append(s + more)

# type, element of the sequence, spec of what is to come, result relation, lemma, double-ended, closures, peekable
KINDS = [
 ('DepthFirstTraverse', '(Ev, int)', 'dft(self.forest.t(), self.traverser.next, q)', 'is_oev', 'lemma_dft_steps({f}.s(), {s}.traverser.next);', True, True, True),
 ('ShallowDepthFirstTraverse', '(Ev, int)', 'sdft(self.forest.t(), mx(self.traverser.max_depth), self.traverser.next, q)', 'is_oevd', 'lemma_sdft_steps({f}.s(), mx({s}.traverser.max_depth), {s}.traverser.next);', True, True, True),
 ('Ancestors', 'int', 'olive(self.forest.s(), oid(self.traverser.next)) && q == oancs(self.forest.t(), oid(self.traverser.next))', 'is_onode', 'lemma_oancs({f}.s(), oid({s}.traverser.next));', False, False, True),
 ('Siblings', 'int', 'sib(self.forest.t(), self.traverser.next, q)', 'is_onode', 'lemma_sib_steps({f}.s(), {s}.traverser.next);', True, False, True),
 ('BreadthFirstTraverse', '(int, int)', 'bft(self.forest.t(), self.traverser, q)', 'is_onoded', 'lemma_bft_live({f}.t(), {s}.traverser);', False, False, False),
 ('AllocatingBreadthFirstTraverse', '(int, int)', 'abft(self.forest.t(), self.traverser.events@, self.traverser.current_depth as int, q)', 'is_onoded', 'lemma_abft_live({f}.t(), {s}.traverser.events@, {s}.traverser.current_depth as int); lemma_abft_len({s}.traverser.events@, {s}.traverser.current_depth as int); assert({f}.hierarchy.neighbors.len() <= usize::MAX);', False, False, True),
]
for ty, el, pred, rel, lem, dbl, clos, peek in KINDS:
    prel.append('''impl<'a, Id: NodeId, T> %s<'a, Id, T> {
    /// `q` is what is still to come.
    pub open spec fn to_come(self, q: Seq<%s>) -> bool {
        self.forest.ok() && %s
    }
}''' % (ty, el, pred))
    st = 'self.forest == new.forest && forall|q: Seq<%s>| #![trigger self.to_come(q)] self.to_come(q) ==> new.to_come(%%s(q))' % el
    ok = 'self.forest.ok() && olive(self.forest.s(), oid(self.traverser.next))' if ty == 'Ancestors' else 'exists|q: Seq<%s>| #[trigger] self.to_come(q)' % el
    out.append("""@impl_items %s%s@Iterator
    open spec fn it_ok(self) -> bool { %s }
    open spec fn stepped(self, new: Self) -> bool { %s }
""" % (P, ty, ok, st % 'tail'))
    if dbl:
        out.append("""@impl_items %s%s@DoubleEndedIterator
    open spec fn stepped_back(self, new: Self) -> bool { %s }
""" % (P, ty, st % 'init'))
    def entry(s):
        return '''    hide(rep);
    hide(walk);
    hide(sibs);
    proof {
        let q0 = choose|q: Seq<%s>| %s.to_come(q);
        %s if %s.it_ok() { assert(%s.to_come(q0)); }
        nxok::<Id>();
        lemma_tw(%s.forest.s());
        %s
    }
''' % (el, s, 'assert(%s.to_come(oancs(%s.forest.t(), oid(%s.traverser.next))));' % (s, s, s) if ty == 'Ancestors' else '', s, s, s, lem.format(f=s + '.forest', s=s))
    for name, tr, h, t in [('next', 'Iterator', 'head', 'tail')] + ([('next_back', 'DoubleEndedIterator', 'last', 'init')] if dbl else []):
        fn('%s@%s::%s' % (ty, tr, name), '''    ensures
        final(self).forest == old(self).forest,
        forall|q: Seq<%s>| #![trigger old(self).to_come(q)] old(self).to_come(q) ==> %s(r, old(self).forest, %s(q)) && final(self).to_come(%s(q)),
''' % (el, rel, h, t), entry('self'), '', CL % {'f': 'self.forest'} if clos else '')
    if peek:
        for name, h in [('peek', 'head')] + ([('peek_back', 'last')] if dbl else []):
            fn('%s::%s' % (ty, name), '''    requires
        self.it_ok(),
    ensures
        forall|q: Seq<%s>| #![trigger self.to_come(q)] self.to_come(q) ==> %s(r, self.forest, %s(q)),
''' % (el, rel, h), entry('self'), '', CL % {'f': 'self.forest'} if clos else '')
fn('AllocatingBreadthFirstTraverse@Iterator::size_hint', '''    ensures
        forall|q: Seq<(int, int)>| #![trigger self.to_come(q)] self.to_come(q) ==> r.0 <= q.len() && (r.1 is Some ==> q.len() <= r.1->0),
''', '    proof {\n        lemma_tw(self.forest.s());\n    }\n')
fn('ShallowDepthFirstTraverse::max_depth', '''    ensures
        lim(r) == mx(self.traverser.max_depth),
''')
START = [
 ('DepthFirstTraverse::with_toplevel', 'node', 'tour({t}, {n}, 0, None)'),
 ('ShallowDepthFirstTraverse::with_toplevel_and_max_depth', 'node', 'tour({t}, {n}, 0, lim(max_depth))'),
 ('Ancestors::with_start', 'node', 'ancs({t}, {n})'),
 ('Siblings::with_parent', 'parent', '{t}.kids[{n}]'),
 ('Siblings::with_first_sibling', 'first', 'from_sib({t}, {n})'),
 ('Siblings::with_last_sibling', 'last', 'to_sib({t}, {n})'),
 ('BreadthFirstTraverse::with_toplevel', 'node', 'bfs({t}, seq![{n}], 0)'),
 ('AllocatingBreadthFirstTraverse::with_toplevel', 'node', 'bfs({t}, seq![{n}], 0)'),
]
for path, a, seq in START:
    x = '        r.traverser.max_depth() == (if max_depth == Some(usize::MAX) { None } else { max_depth }),\n' if 0 else ''
    if 'Shallow' in path:
        x = '        mx(r.traverser.max_depth) == (if max_depth == Some(usize::MAX) { None } else { lim(max_depth) }),\n'
    fn(path, '''    requires
        %s.ok(),
    ensures
        r.forest == %s.forest,
        r.to_come(%s),
%s''' % (a, a, seq.format(t=a + '.f().t()', n=a + '.i()'), x), '    proof {\n        nxok::<Id>();\n    }\n')
out.append('''@fn dynamic::forest::traverse::DftEvent::map
@spec
    requires
        forall|v: T| #[trigger] f.requires((v,)),
    ensures
        match (self, r) {
            (DftEvent::Open(a), DftEvent::Open(b)) => f.ensures((a,), b),
            (DftEvent::Close(a), DftEvent::Close(b)) => f.ensures((a,), b),
            _ => false,
        },
@fn dynamic::forest::traverse::DftEvent::from_hierarchy_dft_event
@spec
    requires
        match ev {
            DftEventSrc::Open(a) => f.requires((a,)),
            DftEventSrc::Close(a) => f.requires((a,)),
        },
    ensures
        match (ev, r) {
            (DftEventSrc::Open(a), DftEvent::Open(b)) => f.ensures((a,), b),
            (DftEventSrc::Close(a), DftEvent::Close(b)) => f.ensures((a,), b),
            _ => false,
        },
''')
open('/verif/contracts/iter.vc', 'w').write('@# Written by tools/gen_iter.py.\n@module_prelude dynamic::forest::traverse\n' + '\n'.join(prel) + '\n' + ''.join(out))
