pub mod spec {
    use vstd::prelude::*;
    use vstd::std_specs::cmp::*;

    use crate::dynamic::id::private::SealedInternalNodeId;
    use crate::dynamic::id::NodeId;

    /// Index of an internal node ID.
    pub open spec fn ix<I: SealedInternalNodeId>(i: I) -> int {
        i.idx() as int
    }

    pub open spec fn oid<I: SealedInternalNodeId>(o: Option<I>) -> Option<int> {
        match o {
            Some(i) => Some(ix(i)),
            None => None,
        }
    }

    /// Index of a node ID.
    pub open spec fn nx<I: NodeId>(i: I) -> int {
        ix(i.int())
    }

    /// Greatest index of a node ID.
    pub open spec fn nmax<I: NodeId>() -> int {
        <I::Internal as SealedInternalNodeId>::max_idx() as int
    }

    /// `==` on IDs is equality, and IDs are determined by their indices.
    pub open spec fn ids_ok<I: SealedInternalNodeId>() -> bool {
        &&& I::obeys_eq_spec()
        &&& forall|a: I, b: I| #[trigger] a.eq_spec(&b) <==> a == b
        &&& forall|a: I, b: I| #![trigger ix(a), ix(b)] ix(a) == ix(b) ==> a == b
    }

    pub proof fn eqok<I: SealedInternalNodeId>()
        ensures
            ids_ok::<I>(),
    {
        I::eq_ok();
        assert forall|a: I, b: I| #![trigger ix(a), ix(b)] ix(a) == ix(b) implies a == b by {
            ixinj(a, b);
        }
    }

    pub proof fn ixinj<I: SealedInternalNodeId>(a: I, b: I)
        ensures
            ix(a) == ix(b) ==> a == b,
    {
        if ix(a) == ix(b) {
            I::idx_inj(a, b);
        }
    }

    /// Public IDs stand one to one for internal IDs.
    pub proof fn nxok<I: NodeId>()
        ensures
            ids_ok::<I::Internal>(),
            I::obeys_eq_spec(),
            forall|a: I, b: I| #[trigger] a.eq_spec(&b) <==> a == b,
            forall|i: I::Internal| #![trigger I::ext(i)] I::ext(i).int() == i,
            forall|i: I| #![trigger i.int()] I::ext(i.int()) == i,
            forall|a: I, b: I| #![trigger nx(a), nx(b)] nx(a) == nx(b) ==> a == b,
            forall|i: I| #![trigger nx(i)] 0 <= nx(i) <= nmax::<I>() < usize::MAX,
    {
        eqok::<I::Internal>();
        I::id_eq_ok();
        assert forall|i: I::Internal| #![trigger I::ext(i)] I::ext(i).int() == i by {
            I::ext_int(i);
        }
        assert forall|i: I| #![trigger i.int()] I::ext(i.int()) == i by {
            I::int_ext(i);
        }
        assert forall|a: I, b: I| #![trigger nx(a), nx(b)] nx(a) == nx(b) implies a == b by {
            if nx(a) == nx(b) {
                ixinj(a.int(), b.int());
                I::int_ext(a);
                I::int_ext(b);
            }
        }
        assert forall|i: I| #![trigger nx(i)] 0 <= nx(i) <= nmax::<I>() < usize::MAX by {
            <I::Internal as SealedInternalNodeId>::idx_max(i.int());
        }
    }

    // ------------------------------------------------------------------
    // Raw links, as the code stores them (node IDs are their indices).
    pub struct Nb {
        pub parent: Option<int>,
        pub prev: Option<int>,
        pub next: Option<int>,
        pub first: Option<int>,
    }

    pub type Raw = Seq<Nb>;

    pub open spec fn nb_dead() -> Nb {
        Nb { parent: None, prev: None, next: None, first: None }
    }

    pub open spec fn nb_root(i: int) -> Nb {
        Nb { parent: None, prev: Some(i), next: None, first: None }
    }

    pub open spec fn live(s: Raw, i: int) -> bool {
        0 <= i < s.len() && s[i].prev is Some
    }

    pub open spec fn olive(s: Raw, i: Option<int>) -> bool {
        i is Some ==> live(s, i->0)
    }

    /// Last child, as the code finds it.
    pub open spec fn raw_last(s: Raw, p: int) -> Option<int> {
        match s[p].first {
            None => None,
            Some(f) => s[f].prev,
        }
    }

    pub open spec fn raw_prev(s: Raw, i: int) -> Option<int> {
        if s[s[i].prev->0].next is Some { s[i].prev } else { None }
    }

    // ------------------------------------------------------------------
    // The ordered forest that the links stand for.
    pub struct Tr {
        pub alive: Seq<bool>,
        pub parent: Seq<Option<int>>,
        pub kids: Seq<Seq<int>>,
    }

    pub open spec fn tl(t: Tr, i: int) -> bool {
        0 <= i < t.alive.len() && t.alive[i]
    }

    /// `r` strictly decreases from parents to children, and is bounded.
    pub open spec fn ranked(t: Tr, r: spec_fn(int) -> nat, m: nat) -> bool {
        &&& forall|i: int| #![trigger r(i)] r(i) <= m
        &&& forall|i: int| #![trigger t.parent[i]] tl(t, i) && t.parent[i] is Some ==> r(i) < r(t.parent[i]->0)
    }

    pub open spec fn acyc(t: Tr) -> bool {
        exists|r: spec_fn(int) -> nat, m: nat| ranked(t, r, m)
    }

    pub open spec fn kid(t: Tr, p: int, j: int) -> int {
        t.kids[p][j]
    }

    pub open spec fn isk(t: Tr, p: int, j: int) -> bool {
        tl(t, p) && 0 <= j < t.kids[p].len()
    }

    /// Ordered forest: every child list and every parent agree.
    pub open spec fn tw(t: Tr) -> bool {
        &&& t.parent.len() == t.alive.len()
        &&& t.kids.len() == t.alive.len()
        &&& forall|p: int, j: int| #![trigger isk(t, p, j)] isk(t, p, j) ==> tl(t, t.kids[p][j]) && t.parent[t.kids[p][j]] == Some(p)
        &&& forall|p: int, j: int, k: int| #![trigger isk(t, p, j), isk(t, p, k)] isk(t, p, j) && isk(t, p, k) && j != k ==> t.kids[p][j] != t.kids[p][k]
        &&& forall|i: int| #![trigger t.parent[i]] tl(t, i) && t.parent[i] is Some ==> tl(t, t.parent[i]->0)
        &&& forall|i: int| #![trigger has_pos(t, i)] tl(t, i) && t.parent[i] is Some ==> has_pos(t, i)
        &&& forall|i: int| #![trigger t.kids[i]] #![trigger t.parent[i]] 0 <= i < t.alive.len() && !t.alive[i] ==> t.parent[i] is None && t.kids[i].len() == 0
        &&& acyc(t)
    }

    pub open spec fn is_pos(t: Tr, i: int, j: int) -> bool {
        isk(t, t.parent[i]->0, j) && t.kids[t.parent[i]->0][j] == i
    }

    pub open spec fn has_pos(t: Tr, i: int) -> bool {
        exists|j: int| #[trigger] is_pos(t, i, j)
    }

    pub open spec fn pos(t: Tr, i: int) -> int {
        choose|j: int| #[trigger] is_pos(t, i, j)
    }

    pub open spec fn k_first(k: Seq<int>) -> Option<int> {
        if k.len() > 0 { Some(k[0]) } else { None }
    }

    pub open spec fn k_last(k: Seq<int>) -> Option<int> {
        if k.len() > 0 { Some(k[k.len() - 1]) } else { None }
    }

    pub open spec fn k_before(k: Seq<int>, j: int) -> Option<int> {
        if j > 0 { Some(k[j - 1]) } else { None }
    }

    pub open spec fn k_at(k: Seq<int>, j: int) -> Option<int> {
        if j < k.len() { Some(k[j]) } else { None }
    }

    pub open spec fn link_prev(k: Seq<int>, j: int) -> Option<int> {
        if j > 0 { Some(k[j - 1]) } else { Some(k[k.len() - 1]) }
    }

    /// The links `s` stand for the forest `t`, where the parent and sibling links of
    /// the nodes in `x` (roots of `t`) are not constrained.
    pub open spec fn rep(s: Raw, t: Tr, x: ISet<int>) -> bool {
        &&& tw(t)
        &&& s.len() == t.alive.len()
        &&& forall|i: int| #![trigger s[i]] #![trigger t.alive[i]] 0 <= i < s.len() ==> (s[i].prev is Some <==> t.alive[i])
        &&& forall|i: int| #![trigger s[i]] #![trigger t.kids[i]] tl(t, i) ==> s[i].first == k_first(t.kids[i])
        &&& forall|p: int, j: int| #![trigger isk(t, p, j)] isk(t, p, j) ==> {
            &&& s[t.kids[p][j]].parent == Some(p)
            &&& s[t.kids[p][j]].next == k_at(t.kids[p], j + 1)
            &&& s[t.kids[p][j]].prev == link_prev(t.kids[p], j)
        }
        &&& forall|i: int| #![trigger s[i]] #![trigger t.parent[i]] tl(t, i) && t.parent[i] is None && !x.contains(i) ==> s[i].parent is None && s[i].next is None && s[i].prev == Some(i)
        &&& forall|i: int| #![trigger x.contains(i)] x.contains(i) ==> tl(t, i) && t.parent[i] is None
        &&& forall|i: int| #![trigger s[i]] 0 <= i < s.len() && s[i].prev is None ==> s[i] == nb_dead()
    }

    pub open spec fn stands(s: Raw, t: Tr) -> bool {
        exists|x: ISet<int>| rep(s, t, x)
    }

    /// The forest that the links stand for.
    pub open spec fn abs(s: Raw) -> Tr {
        choose|t: Tr| stands(s, t)
    }

    /// Consistent links.
    pub open spec fn wf(s: Raw) -> bool {
        rep(s, abs(s), ISet::empty())
    }

    /// Roots that still have a parent link.
    pub open spec fn loose(s: Raw) -> ISet<int> {
        ISet::new(|i: int| tl(abs(s), i) && abs(s).parent[i] is None && s[i].parent is Some)
    }

    // ------------------------------------------------------------------
    // Ancestors.
    pub open spec fn up(t: Tr, i: int, n: nat) -> Option<int>
        decreases n,
    {
        if n == 0 {
            Some(i)
        } else {
            match t.parent[i] {
                None => None,
                Some(p) => up(t, p, (n - 1) as nat),
            }
        }
    }

    /// `a` is `i` or an ancestor of `i`.
    pub open spec fn anc(t: Tr, a: int, i: int) -> bool {
        exists|n: nat| #[trigger] up(t, i, n) == Some(a)
    }

    // ------------------------------------------------------------------
    // Operations on forests.
    pub open spec fn t_new(t: Tr) -> Tr {
        Tr { alive: t.alive.push(true), parent: t.parent.push(None), kids: t.kids.push(Seq::empty()) }
    }

    pub open spec fn set_parents(t: Tr, r: Seq<int>, p: Option<int>) -> Seq<Option<int>> {
        Seq::new(t.parent.len(), |i: int| if r.contains(i) { p } else { t.parent[i] })
    }

    /// Children `a..b` of `p` become roots.
    pub open spec fn cut(t: Tr, p: int, a: int, b: int) -> Tr {
        Tr {
            alive: t.alive,
            parent: set_parents(t, t.kids[p].subrange(a, b), None),
            kids: t.kids.update(p, t.kids[p].subrange(0, a) + t.kids[p].subrange(b, t.kids[p].len() as int)),
        }
    }

    /// Roots `r` become the children of `p` from index `k`.
    pub open spec fn paste(t: Tr, r: Seq<int>, p: int, k: int) -> Tr {
        Tr {
            alive: t.alive,
            parent: set_parents(t, r, Some(p)),
            kids: t.kids.update(p, t.kids[p].subrange(0, k) + r + t.kids[p].subrange(k, t.kids[p].len() as int)),
        }
    }

    /// The subtree of `n` becomes a tree of its own.
    pub open spec fn t_detach(t: Tr, n: int) -> Tr {
        match t.parent[n] {
            None => t,
            Some(p) => cut(t, p, pos(t, n), pos(t, n) + 1),
        }
    }

    // ------------------------------------------------------------------
    // Moving the siblings `first..=last` below `parent`, between `prev` and `next`.
    pub open spec fn dest(t: Tr, p: int, next: Option<int>) -> int {
        match next {
            Some(n) => pos(t, n),
            None => t.kids[p].len() as int,
        }
    }

    pub open spec fn rng(t: Tr, first: int, last: int) -> Seq<int> {
        match t.parent[first] {
            Some(q) => t.kids[q].subrange(pos(t, first), pos(t, last) + 1),
            None => seq![first],
        }
    }

    pub open spec fn t_cut(t: Tr, first: int, last: int) -> Tr {
        match t.parent[first] {
            Some(q) => cut(t, q, pos(t, first), pos(t, last) + 1),
            None => t,
        }
    }

    /// Index below `p` after the siblings have been taken out.
    pub open spec fn dest_cut(t: Tr, first: int, last: int, p: int, k: int) -> int {
        if t.parent[first] == Some(p) && k > pos(t, last) {
            k - (pos(t, last) + 1 - pos(t, first))
        } else {
            k
        }
    }

    pub open spec fn t_move(t: Tr, first: int, last: int, p: int, k: int) -> Tr {
        paste(t_cut(t, first, last), rng(t, first, last), p, dest_cut(t, first, last, p, k))
    }

    pub open spec fn range_ok(s: Raw, first: int, last: int) -> bool {
        let t = abs(s);
        let x = loose(s);
        &&& rep(s, t, x)
        &&& tl(t, first) && tl(t, last)
        &&& t.parent[first] == t.parent[last]
        &&& t.parent[first] is None ==> first == last && !x.contains(first)
        &&& t.parent[first] is Some ==> pos(t, first) <= pos(t, last)
    }

    pub open spec fn parent_ok(s: Raw, first: int, last: int, p: int) -> bool {
        let t = abs(s);
        &&& tl(t, p)
        &&& first != last ==> !anc(t, t.parent[first]->0, p)
        &&& forall|y: int| #![trigger loose(s).contains(y)] loose(s).contains(y) ==> !anc(t, y, p)
    }

    pub open spec fn place_ok(s: Raw, first: int, last: int, p: int, prev: Option<int>, next: Option<int>) -> bool {
        let t = abs(s);
        let k = dest(t, p, next);
        &&& next is Some ==> tl(t, next->0) && t.parent[next->0] == Some(p)
        &&& prev == k_before(t.kids[p], k)
        &&& t.parent[first] == Some(p) ==> k <= pos(t, first) || k > pos(t, last)
    }

    // ------------------------------------------------------------------
    // Public operations.
    pub enum Dst {
        First(int),
        Last(int),
        Before(int),
        After(int),
    }

    pub open spec fn dst<I: SealedInternalNodeId>(d: crate::dynamic::InsertAs<I>) -> Dst {
        match d {
            crate::dynamic::InsertAs::FirstChildOf(i) => Dst::First(ix(i)),
            crate::dynamic::InsertAs::LastChildOf(i) => Dst::Last(ix(i)),
            crate::dynamic::InsertAs::PreviousSiblingOf(i) => Dst::Before(ix(i)),
            crate::dynamic::InsertAs::NextSiblingOf(i) => Dst::After(ix(i)),
        }
    }

    pub open spec fn anchor(d: Dst) -> int {
        match d {
            Dst::First(i) => i,
            Dst::Last(i) => i,
            Dst::Before(i) => i,
            Dst::After(i) => i,
        }
    }

    /// The parent that `n` gets.
    pub open spec fn dst_parent(t: Tr, d: Dst) -> Option<int> {
        match d {
            Dst::First(i) => Some(i),
            Dst::Last(i) => Some(i),
            Dst::Before(i) => t.parent[i],
            Dst::After(i) => t.parent[i],
        }
    }

    /// Why `n` cannot be inserted.
    pub open spec fn refusal(t: Tr, n: int, d: Dst) -> Option<crate::dynamic::StructureError> {
        if (d is Before || d is After) && n == anchor(d) {
            Some(crate::dynamic::StructureError::UnorderableSiblings)
        } else if dst_parent(t, d) is None {
            Some(crate::dynamic::StructureError::SiblingsWithoutParent)
        } else if anc(t, n, dst_parent(t, d)->0) {
            Some(crate::dynamic::StructureError::AncestorDescendantLoop)
        } else {
            None
        }
    }

    /// The subtree of `n` is taken out and put in at the destination.
    pub open spec fn t_insert(t: Tr, n: int, d: Dst) -> Tr {
        let u = t_detach(t, n);
        match d {
            Dst::First(p) => paste(u, seq![n], p, 0),
            Dst::Last(p) => paste(u, seq![n], p, u.kids[p].len() as int),
            Dst::Before(m) => paste(u, seq![n], u.parent[m]->0, pos(u, m)),
            Dst::After(m) => paste(u, seq![n], u.parent[m]->0, pos(u, m) + 1),
        }
    }

    /// The node `n` is taken out, its children take its place.
    pub open spec fn t_detach_single(t: Tr, n: int) -> Tr {
        let kids = t.kids[n];
        if kids.len() == 0 {
            t_detach(t, n)
        } else {
            match t.parent[n] {
                Some(p) => paste(cut(t_detach(t, n), n, 0, kids.len() as int), kids, p, pos(t, n)),
                None => cut(t, n, 0, kids.len() as int),
            }
        }
    }

    // ------------------------------------------------------------------
    // Data of the nodes.
    pub open spec fn has<T>(d: Seq<Option<T>>, i: int) -> bool {
        0 <= i < d.len() && d[i] is Some
    }

    /// There is a datum exactly for each live node.
    pub open spec fn data_ok<T>(s: Raw, d: Seq<Option<T>>) -> bool {
        &&& d.len() == s.len()
        &&& forall|i: int| #![trigger d[i]] #![trigger live(s, i)] 0 <= i < s.len() ==> (d[i] is Some <==> live(s, i))
    }

    pub open spec fn pid<I: NodeId>(o: Option<I>) -> Option<int> {
        match o {
            Some(i) => Some(nx(i)),
            None => None,
        }
    }

    pub open spec fn ins_anchor<I>(d: crate::dynamic::InsertAs<I>) -> I {
        match d {
            crate::dynamic::InsertAs::FirstChildOf(i) => i,
            crate::dynamic::InsertAs::LastChildOf(i) => i,
            crate::dynamic::InsertAs::PreviousSiblingOf(i) => i,
            crate::dynamic::InsertAs::NextSiblingOf(i) => i,
        }
    }

    pub open spec fn insert_as<I>(d: crate::dynamic::AdoptAs, a: I) -> crate::dynamic::InsertAs<I> {
        match d {
            crate::dynamic::AdoptAs::FirstChild => crate::dynamic::InsertAs::FirstChildOf(a),
            crate::dynamic::AdoptAs::LastChild => crate::dynamic::InsertAs::LastChildOf(a),
            crate::dynamic::AdoptAs::PreviousSibling => crate::dynamic::InsertAs::PreviousSiblingOf(a),
            crate::dynamic::AdoptAs::NextSibling => crate::dynamic::InsertAs::NextSiblingOf(a),
        }
    }

    pub open spec fn ndst<I: NodeId>(d: crate::dynamic::InsertAs<I>) -> Dst {
        match d {
            crate::dynamic::InsertAs::FirstChildOf(i) => Dst::First(nx(i)),
            crate::dynamic::InsertAs::LastChildOf(i) => Dst::Last(nx(i)),
            crate::dynamic::InsertAs::PreviousSiblingOf(i) => Dst::Before(nx(i)),
            crate::dynamic::InsertAs::NextSiblingOf(i) => Dst::After(nx(i)),
        }
    }

    // ------------------------------------------------------------------
    // What `connect_triangle` does to the links.
    pub open spec fn ct1(s: Raw, parent: Option<int>, prev: Option<int>, next: Option<int>) -> Raw {
        match prev {
            Some(v) => s.update(v, Nb { parent: parent, next: next, ..s[v] }),
            None => s,
        }
    }

    pub open spec fn ct2(s: Raw, parent: Option<int>, prev: Option<int>, next: Option<int>) -> Raw {
        match next {
            Some(v) => s.update(
                v,
                Nb {
                    parent: parent,
                    prev: Some(
                        match prev {
                            Some(p) => p,
                            None => match parent {
                                Some(q) => match raw_last(s, q) {
                                    Some(l) => l,
                                    None => v,
                                },
                                None => v,
                            },
                        },
                    ),
                    ..s[v]
                },
            ),
            None => s,
        }
    }

    pub open spec fn ct3(s: Raw, parent: Option<int>, prev: Option<int>, next: Option<int>) -> Raw {
        match parent {
            Some(q) => if prev is None {
                s.update(q, Nb { first: next, ..s[q] })
            } else if next is None {
                s.update(s[q].first->0, Nb { prev: prev, ..s[s[q].first->0] })
            } else {
                s
            },
            None => s,
        }
    }

    pub open spec fn ct(s: Raw, parent: Option<int>, prev: Option<int>, next: Option<int>) -> Raw {
        ct3(ct2(ct1(s, parent, prev, next), parent, prev, next), parent, prev, next)
    }

    pub open spec fn ct_pre(s: Raw, parent: Option<int>, prev: Option<int>, next: Option<int>) -> bool {
        &&& olive(s, parent) && olive(s, prev) && olive(s, next)
        &&& !(parent is None && prev is Some && next is Some)
        &&& !(prev is Some && prev == next)
        &&& parent is Some && s[parent->0].first is Some ==> live(s, s[parent->0].first->0)
        &&& parent is Some && prev is Some && next is None ==> s[parent->0].first is Some
    }
}
