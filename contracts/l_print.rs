
pub mod pr {
    use vstd::prelude::*;
    use crate::spec::*;
    use crate::lem::*;
    use crate::mv::*;
    use crate::fo::*;
    use crate::wk::*;
    use crate::rm::*;
    use crate::cp::*;
    use crate::vt::*;
    use crate::dynamic::forest::debug_print::IndentLevel;
    use crate::dynamic::id::private::SealedInternalNodeId;
    use crate::dynamic::hierarchy::traverse::DftEvent;

    // ------------------------------------------------------------------
    // The marks before a text.
    /// The mark of an ancestor: whether further siblings of it follow.
    pub open spec fn bar(last: bool) -> Seq<char> {
        if last { seq![' ', ' ', ' ', ' '] } else { seq!['|', ' ', ' ', ' '] }
    }

    /// The mark of the node itself.
    pub open spec fn tee(last: bool) -> Seq<char> {
        if last { seq!['`', '-', '-', ' '] } else { seq!['|', '-', '-', ' '] }
    }

    pub open spec fn bars(f: Seq<bool>) -> Seq<char>
        decreases f.len(),
    {
        if f.len() == 0 { Seq::empty() } else { bars(f.drop_last()) + bar(f.last()) }
    }

    pub open spec fn marks(f: Seq<bool>) -> Seq<char> {
        if f.len() == 0 { Seq::empty() } else { bars(f.drop_last()) + tee(f.last()) }
    }

    pub open spec fn is_last(t: Tr, n: int) -> bool {
        next_of(t, n) is None
    }

    /// For each node on the way from below `top` down to `n`, whether it is the last sibling.
    pub open spec fn lasts(t: Tr, top: int, n: int) -> Seq<bool>
        decreases dep(t, n),
        when tw(t) && tl(t, n)
        via lasts_dec
    {
        if n == top || t.parent[n] is None {
            Seq::empty()
        } else {
            lasts(t, top, t.parent[n]->0).push(is_last(t, n))
        }
    }

    #[via_fn]
    proof fn lasts_dec(t: Tr, top: int, n: int) {
        if t.parent[n] is Some {
            lemma_dep(t, n);
        }
    }

    /// One line for each node of `q`, the first one (the top) without a mark.
    pub open spec fn printed(t: Tr, top: int, q: Seq<int>, tx: spec_fn(int) -> Seq<char>) -> Seq<char>
        decreases q.len(),
    {
        if q.len() == 0 {
            Seq::empty()
        } else if q.len() == 1 {
            tx(q[0])
        } else {
            printed(t, top, q.drop_last(), tx).push('\n') + marks(lasts(t, top, q.last())) + tx(q.last())
        }
    }

    /// A non-empty single line.
    pub open spec fn line(s: Seq<char>) -> bool {
        s.len() > 0 && !s.contains('\n')
    }

    pub open spec fn d_oks<T: fmt::Display>(d: Seq<Option<T>>) -> bool {
        forall|i: int| #![trigger d[i]] 0 <= i < d.len() && d[i] is Some ==> d[i]->0.d_ok()
    }

    pub open spec fn g_oks<T: fmt::Debug>(d: Seq<Option<T>>) -> bool {
        forall|i: int| #![trigger d[i]] 0 <= i < d.len() && d[i] is Some ==> d[i]->0.g_ok()
    }

    /// The texts.
    pub open spec fn d_tx<T: fmt::Display>(d: Seq<Option<T>>) -> spec_fn(int) -> Seq<char> {
        |i: int| d[i]->0.d_text()
    }

    pub open spec fn g_tx<T: fmt::Debug>(d: Seq<Option<T>>) -> spec_fn(int) -> Seq<char> {
        |i: int| d[i]->0.g_text()
    }

    /// Every node below `top` is shown by a non-empty single line.
    pub open spec fn d_lines<T: fmt::Display>(t: Tr, top: int, d: Seq<Option<T>>) -> bool {
        forall|x: int| #![trigger d[x]] tl(t, x) && anc(t, top, x) ==> d[x]->0.d_sure() && line(d[x]->0.d_text())
    }

    pub open spec fn g_lines<T: fmt::Debug>(t: Tr, top: int, d: Seq<Option<T>>) -> bool {
        forall|x: int| #![trigger d[x]] tl(t, x) && anc(t, top, x) ==> d[x]->0.g_sure() && line(d[x]->0.g_text())
    }

    // ------------------------------------------------------------------
    // Theorems about the specification.
    /// One mark of four characters per level below the top.
    pub proof fn thm_marks(t: Tr, top: int, n: int, f: Seq<bool>)
        ensures
            bars(f).len() == 4 * f.len(),
            marks(f).len() == 4 * f.len(),
            !bars(f).contains('\n'),
            !marks(f).contains('\n'),
        decreases f.len(),
    {
        if f.len() > 0 {
            thm_marks(t, top, n, f.drop_last());
            let a = bars(f.drop_last());
            let b = bar(f.last());
            let c = tee(f.last());
            assert forall|i: int| 0 <= i < (a + b).len() implies (a + b)[i] != '\n' by {
                if i < a.len() { assert((a + b)[i] == a[i]); assert(a.contains(a[i])); }
            }
            assert forall|i: int| 0 <= i < (a + c).len() implies (a + c)[i] != '\n' by {
                if i < a.len() { assert((a + c)[i] == a[i]); assert(a.contains(a[i])); }
            }
        }
    }

    /// The number of marks is the number of steps up to the top.
    pub proof fn thm_lasts(t: Tr, top: int, n: int)
        requires
            tw(t),
            tl(t, n),
            anc(t, top, n),
        ensures
            up(t, n, lasts(t, top, n).len()) == Some(top),
        decreases dep(t, n),
    {
        let f = lasts(t, top, n);
        if n != top {
            lemma_lasts(t, top, n);
            let p = t.parent[n]->0;
            lemma_dep(t, n);
            thm_lasts(t, top, p);
            assert(up(t, n, f.len()) == up(t, p, lasts(t, top, p).len()));
        }
    }

    /// The mark `i` places before the last one is that of the node `i` steps up.
    pub proof fn thm_last_at(t: Tr, top: int, n: int, i: nat)
        requires
            tw(t),
            tl(t, n),
            anc(t, top, n),
            i < lasts(t, top, n).len(),
        ensures
            up(t, n, i) is Some,
            lasts(t, top, n)[lasts(t, top, n).len() - 1 - i] == is_last(t, up(t, n, i)->0),
        decreases i,
    {
        lemma_lasts(t, top, n);
        if i > 0 {
            let p = t.parent[n]->0;
            thm_last_at(t, top, p, (i - 1) as nat);
            assert(up(t, n, i) == up(t, p, (i - 1) as nat));
        }
    }

    proof fn lemma_lasts(t: Tr, top: int, n: int)
        requires
            tw(t),
            tl(t, n),
            anc(t, top, n),
        ensures
            n == top ==> lasts(t, top, n).len() == 0,
            n != top ==> t.parent[n] is Some && tl(t, t.parent[n]->0) && anc(t, top, t.parent[n]->0) && lasts(t, top, n) == lasts(t, top, t.parent[n]->0).push(is_last(t, n)),
    {
        if n != top {
            if t.parent[n] is None {
                lemma_anc_root(t, top, n);
            }
            lemma_anc_step(t, top, n);
            lemma_pos(t, n);
        }
    }

    // ------------------------------------------------------------------
    // The indents of the writer.
    pub open spec fn mark_of(l: IndentLevel) -> Seq<char> {
        if l.is_first_line { tee(l.is_last_item) } else { bar(l.is_last_item) }
    }

    pub open spec fn marks_of(s: Seq<IndentLevel>) -> Seq<char>
        decreases s.len(),
    {
        if s.len() == 0 { Seq::empty() } else { marks_of(s.drop_last()) + mark_of(s.last()) }
    }

    pub open spec fn fl(s: Seq<IndentLevel>) -> Seq<bool> {
        s.map_values(|l: IndentLevel| l.is_last_item)
    }

    /// The first lines of all levels but the last have been written.
    pub open spec fn lower(s: Seq<IndentLevel>) -> bool {
        forall|i: int| #![trigger s[i]] 0 <= i < s.len() - 1 ==> !s[i].is_first_line
    }

    pub proof fn lemma_bars(s: Seq<IndentLevel>)
        requires
            forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> !s[i].is_first_line,
        ensures
            marks_of(s) == bars(fl(s)),
        decreases s.len(),
    {
        if s.len() > 0 {
            lemma_bars(s.drop_last());
            assert(fl(s).drop_last() =~= fl(s.drop_last()));
        } else {
            assert(fl(s) =~= Seq::empty());
        }
    }

    pub proof fn lemma_marks_of(s: Seq<IndentLevel>)
        requires
            lower(s),
            s.len() > 0 ==> s.last().is_first_line,
        ensures
            marks_of(s) == marks(fl(s)),
    {
        if s.len() > 0 {
            lemma_bars(s.drop_last());
            assert(fl(s).drop_last() =~= fl(s.drop_last()));
        } else {
            assert(fl(s) =~= Seq::empty());
        }
    }

    pub proof fn lemma_printed(t: Tr, top: int, q: Seq<int>, x: int, tx: spec_fn(int) -> Seq<char>)
        requires
            q.len() > 0,
        ensures
            printed(t, top, q.push(x), tx) == printed(t, top, q, tx).push('\n') + marks(lasts(t, top, x)) + tx(x),
    {
        assert(q.push(x).drop_last() =~= q);
    }

    // ------------------------------------------------------------------
    // Strings.
    pub proof fn lemma_blen(s: Seq<char>, k: int, j: int)
        requires
            0 <= k <= j <= s.len(),
        ensures
            blen(s.take(k)) + (j - k) <= blen(s.take(j)),
        decreases j - k,
    {
        if k < j {
            lemma_blen(s, k, j - 1);
            assert(s.take(j).drop_last() =~= s.take(j - 1));
            axiom_width(s[j - 1]);
        }
    }

    pub proof fn lemma_nl(s: Seq<char>, k: int)
        requires
            0 <= k < s.len(),
            s[k] == '\n',
        ensures
            blen(s.take(k + 1)) == blen(s.take(k)) + 1,
            blen(s.take(k + 1)) <= blen(s),
    {
        assert(s.take(k + 1).drop_last() =~= s.take(k));
        axiom_width('\n');
        lemma_blen(s, k + 1, s.len() as int);
        assert(s.take(s.len() as int) =~= s);
    }

    // ------------------------------------------------------------------
    // The traversal.
    /// The node whose level is the innermost one before the event.
    pub open spec fn cur(t: Tr, e: Ev) -> int {
        match e {
            Ev::O(x) => t.parent[x]->0,
            Ev::C(x) => x,
        }
    }

    /// Before event `k`, the levels are those of the innermost open node.
    pub open spec fn levels(t: Tr, top: int, k: int, f: Seq<bool>) -> bool {
        let r = tour(t, top, 0, None);
        &&& 0 < k <= r.len()
        &&& k < r.len() ==> tl(t, cur(t, r[k].0)) && f == lasts(t, top, cur(t, r[k].0))
    }

    /// The events from the `k`-th on.
    pub open spec fn from(t: Tr, top: int, k: int) -> Seq<(Ev, int)> {
        tour(t, top, 0, None).subrange(k, tour(t, top, 0, None).len() as int)
    }

    pub proof fn lemma_from(t: Tr, top: int, k: int)
        requires
            0 <= k <= tour(t, top, 0, None).len(),
        ensures
            from(t, top, k).len() == tour(t, top, 0, None).len() - k,
            k < tour(t, top, 0, None).len() ==> tail(from(t, top, k)) == from(t, top, k + 1) && ev0(head(from(t, top, k))) == Some(tour(t, top, 0, None)[k].0),
            k == tour(t, top, 0, None).len() ==> ev0(head(from(t, top, k))) is None,
            from(t, top, 0) == tour(t, top, 0, None),
    {
        assert(from(t, top, 0) =~= tour(t, top, 0, None));
        if k < tour(t, top, 0, None).len() {
            assert(tail(from(t, top, k)) =~= from(t, top, k + 1));
        }
    }

    /// From before event `k` to before event `j`, exactly the node `x` was opened.
    pub open spec fn went<I: SealedInternalNodeId>(t: Tr, top: int, k: int, j: int, x: int, o: Option<(DftEvent<I>, DftEvent<I>)>) -> bool {
        let r = tour(t, top, 0, None);
        &&& k < j < r.len()
        &&& dft(t, o, from(t, top, j))
        &&& seen(r, j) == seen(r, k).push(x)
        &&& levels(t, top, j, lasts(t, top, x))
        &&& tl(t, x)
        &&& anc(t, top, x)
    }

    /// From before event `k`, exactly the node `x` was opened.
    pub open spec fn reached<I: SealedInternalNodeId>(t: Tr, top: int, k: int, x: int, o: Option<(DftEvent<I>, DftEvent<I>)>) -> bool {
        exists|j: int| went(t, top, k, j, x, o)
    }

    pub proof fn lemma_levels(t: Tr, top: int, k: int, f: Seq<bool>)
        requires
            tw(t),
            tl(t, top),
            levels(t, top, k, f),
            k < tour(t, top, 0, None).len(),
        ensures
            ({
                let r = tour(t, top, 0, None);
                match r[k].0 {
                    Ev::O(x) => {
                        &&& tl(t, x)
                        &&& anc(t, top, x)
                        &&& lasts(t, top, x) == f.push(is_last(t, x))
                        &&& levels(t, top, k + 1, f.push(is_last(t, x)))
                        &&& k + 1 < r.len()
                        &&& seen(r, k + 1) == seen(r, k).push(x)
                    },
                    Ev::C(x) => {
                        &&& seen(r, k + 1) == seen(r, k)
                        &&& (k + 1 == r.len()) <==> x == top
                        &&& (k + 1 == r.len()) <==> f.len() == 0
                        &&& k + 1 < r.len() ==> levels(t, top, k + 1, f.drop_last())
                    },
                }
            }),
    {
        let r = tour(t, top, 0, None);
        lemma_twalk(t, top);
        lemma_now(t, top, r, k);
        lemma_seen_step(r, k);
        let x = evn(r[k].0);
        assert(tl(t, x) && anc(t, top, x));
        assert(r[k].0 != r[0].0);
        assert(k + 1 < r.len() ==> r[k].0 != r[r.len() - 1].0);
        if k + 1 < r.len() {
            assert(fs(t, None, r[k]) == Some(r[k + 1]));
            assert(tl(t, evn(r[k + 1].0)));
            if r[k].0 is O && t.kids[x].len() > 0 {
                assert(isk(t, x, 0));
            }
        }
        if x != top && r[k].0 is C {
            lemma_pos(t, x);
            let p = t.parent[x]->0;
            if pos(t, x) + 1 < t.kids[p].len() {
                assert(isk(t, p, pos(t, x) + 1));
            }
        }
        if x != top {
            assert(lasts(t, top, x) == lasts(t, top, t.parent[x]->0).push(is_last(t, x)));
        }
        if let Ev::C(_) = r[k].0 {
            if x != top {
                assert(f.drop_last() =~= lasts(t, top, t.parent[x]->0));
            }
        }
    }

    pub proof fn lemma_levels_start(t: Tr, top: int)
        requires
            tw(t),
            tl(t, top),
        ensures
            levels(t, top, 1, Seq::empty()),
            seen(tour(t, top, 0, None), 1) == seq![top],
            seen(tour(t, top, 0, None), tour(t, top, 0, None).len() as int) == pre(t, top),
            tour(t, top, 0, None).len() >= 2,
            tour(t, top, 0, None)[0].0 == Ev::O(top),
    {
        let r = tour(t, top, 0, None);
        lemma_twalk(t, top);
        lemma_seen_once(t, top, r, 1);
        lemma_pre(t, top, 0);
        assert(r.subrange(0, r.len() as int) =~= r);
        assert(fs(t, None, r[0]) == Some(r[1]));
        assert(tl(t, evn(r[1].0)));
        if t.kids[top].len() > 0 {
            assert(isk(t, top, 0));
        }
        assert(lasts(t, top, top) =~= Seq::empty());
    }
}
