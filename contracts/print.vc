@module_prelude dynamic::forest::debug_print
use crate::pr::*;
use crate::vt::*;
use crate::wk::*;
use crate::rm::*;
use crate::cp::*;
impl<'a, 'b> IndentWriter<'a, 'b> {
    pub open spec fn o(&self) -> Seq<char> {
        (*self.fmt).out()
    }
    pub open spec fn bad(&self) -> bool {
        (*self.fmt).failed()
    }
    /// The same sink, and a failure is not forgotten.
    #[verifier::prophetic]
    pub open spec fn on(&self, new: &Self) -> bool {
        *final(new.fmt) == *final(self.fmt) && (self.bad() ==> new.bad())
    }
    /// What is written next begins at the start of the first line of an item, or continues a line.
    pub open spec fn ready(&self) -> bool {
        &&& self.line_state != LineState::PartialIndent
        &&& self.line_state == LineState::BeforeIndent && self.indents@.len() > 0 ==> self.indents@.last().is_first_line
    }
    /// `s` is on the line, after the indents if the line was empty.
    pub open spec fn put(&self, s: Seq<char>, new: &Self) -> bool {
        &&& new.indents@ == self.indents@
        &&& s.len() == 0 ==> new.o() == self.o() && new.line_state == self.line_state
        &&& s.len() > 0 ==> new.line_state == LineState::Content && new.o() == (if self.line_state == LineState::BeforeIndent { self.o() + marks_of(self.indents@) } else { self.o() }) + s
    }
}
@fn dynamic::forest::debug_print::IndentLevel::as_str
@spec
    ensures
        r@ == mark_of(self),
@entry
    proof {
        reveal_strlit("|-- ");
        reveal_strlit("|   ");
        reveal_strlit("`-- ");
        reveal_strlit("    ");
        assert("|-- "@ =~= tee(false) && "|   "@ =~= bar(false) && "`-- "@ =~= tee(true) && "    "@ =~= bar(true));
    }
@fn dynamic::forest::debug_print::IndentLevel::as_str_leading
@spec
    ensures
        self.is_first_line ==> r@ == mark_of(self).take(3),
@entry
    proof {
        reveal_strlit("|--");
        reveal_strlit("`--");
        assert("|--"@ =~= tee(false).take(3) && "`--"@ =~= tee(true).take(3));
    }
@fn dynamic::forest::debug_print::IndentLevel::as_str_trailing_spaces
@spec
    ensures
        self.is_first_line ==> r@ == mark_of(self).skip(3),
@entry
    proof {
        reveal_strlit(" ");
        assert(" "@ =~= tee(false).skip(3) && " "@ =~= tee(true).skip(3));
    }
@fn dynamic::forest::debug_print::IndentLevel::is_all_whitespace
@spec
    ensures
        r ==> !self.is_first_line,
@fn dynamic::forest::debug_print::IndentWriter::new
@spec
    ensures
        *r.fmt == *old(fmt),
        *final(r.fmt) == *final(fmt),
        r.line_state == LineState::BeforeIndent,
        r.indents@ == Seq::<IndentLevel>::empty(),
@fn dynamic::forest::debug_print::IndentWriter::open_item
@spec
    ensures
        old(self).on(final(self)),
        r is Err ==> final(self).bad(),
        r is Ok ==> {
            &&& fl(final(self).indents@) == fl(old(self).indents@).push(is_last_item)
            &&& final(self).line_state == LineState::BeforeIndent
            &&& final(self).indents@.last().is_first_line
            &&& lower(old(self).indents@) ==> lower(final(self).indents@)
            &&& final(self).o() == (if old(self).line_state == LineState::BeforeIndent { old(self).o() } else { old(self).o().push('\n') })
        },
@exit
    proof {
        assert(fl(self.indents@) =~= fl(old(self).indents@).push(is_last_item));
    }
@fn dynamic::forest::debug_print::IndentWriter::close_item
@spec
    ensures
        old(self).on(final(self)),
        final(self).o() == old(self).o(),
        final(self).bad() == old(self).bad(),
        final(self).line_state == old(self).line_state,
        r is Ok <==> old(self).indents@.len() > 0,
        r is Ok ==> final(self).indents@ == old(self).indents@.drop_last(),
        r is Err ==> final(self).indents@ == old(self).indents@,
@fn dynamic::forest::debug_print::IndentWriter::write_indent_partial
@spec
    ensures
        old(self).on(final(self)),
        final(self).indents@ == old(self).indents@,
        final(self).line_state == old(self).line_state,
        r is Err ==> final(self).bad(),
        r is Ok && old(self).indents@.len() == 0 ==> final(self).o() == old(self).o(),
        r is Ok && old(self).indents@.len() > 0 && old(self).indents@.last().is_first_line ==>
            final(self).o() == old(self).o() + marks_of(old(self).indents@.drop_last()) + mark_of(old(self).indents@.last()).take(3),
@attr
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
@loop 0
    invariant
        indents@.len() <= self.indents@.len(),
        self.indents@.len() > 0 && self.indents@.last().is_first_line ==> indents@ == self.indents@,
    decreases indents@.len(),
@before_loop 1
    let ghost lv0 = indents@.drop_last();
    proof {
        assert(lv0.take(0) =~= Seq::empty());
    }
@loop 1
    invariant
        it__.seq().len() == lv0.len(),
        forall|i: int| 0 <= i < lv0.len() ==> *(#[trigger] it__.seq()[i]) == lv0[i],
        old(self).on(self),
        self.indents@ == old(self).indents@,
        self.line_state == old(self).line_state,
        self.o() == old(self).o() + marks_of(lv0.take(it__.index@)),
@loop_entry 1
    proof {
        assert(lv0.take(it__.index@ + 1).drop_last() =~= lv0.take(it__.index@));
        assert(lv0.take(it__.index@ + 1).last() == *indent);
    }
@after_loop 1
    proof {
        assert(lv0.take(lv0.len() as int) =~= lv0);
    }
@fn dynamic::forest::debug_print::IndentWriter::complete_partial_indent
@spec
    requires
        old(self).line_state == LineState::PartialIndent,
    ensures
        old(self).on(final(self)),
        final(self).indents@ == old(self).indents@,
        final(self).line_state == old(self).line_state,
        r is Err ==> final(self).bad(),
        r is Ok && old(self).indents@.len() == 0 ==> final(self).o() == old(self).o(),
        r is Ok && old(self).indents@.len() > 0 && old(self).indents@.last().is_first_line ==> final(self).o() == old(self).o() + mark_of(old(self).indents@.last()).skip(3),
@impl_items dynamic::forest::debug_print::IndentWriter@Write
    open spec fn w_failed(&self) -> bool {
        self.bad()
    }
    #[verifier::prophetic]
    open spec fn kept(&self, new: &Self) -> bool {
        self.on(new) && fl(new.indents@) == fl(self.indents@) && (lower(self.indents@) ==> lower(new.indents@))
    }
    #[verifier::prophetic]
    open spec fn wrote(&self, s: Seq<char>, new: &Self) -> bool {
        self.ready() && !s.contains('\n') && !new.bad() ==> self.put(s, new)
    }
    proof fn pieces(&self, b: &Self, c: &Self, s: Seq<char>, u: Seq<char>) {
        if self.kept(b) && b.kept(c) && self.wrote(s, b) && b.wrote(u, c) && self.ready() && !(s + u).contains('\n') && !c.bad() {
            assert forall|i: int| 0 <= i < s.len() implies s[i] != '\n' by {
                assert((s + u)[i] == s[i]);
                assert((s + u).contains(s[i]));
            }
            assert forall|i: int| 0 <= i < u.len() implies u[i] != '\n' by {
                assert((s + u)[s.len() + i] == u[i]);
                assert((s + u).contains(u[i]));
            }
            assert(self.put(s, b) && b.put(u, c));
            if s.len() == 0 {
                assert(s + u =~= u);
            } else if u.len() == 0 {
                assert(s + u =~= s);
            } else {
                let a = if self.line_state == LineState::BeforeIndent { self.o() + marks_of(self.indents@) } else { self.o() };
                assert(a + (s + u) =~= a + s + u);
            }
        }
    }
@fn dynamic::forest::debug_print::IndentWriter@Write::write_str
@attr
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
@entry
    let ghost s0 = s@;
@loop 0
    invariant
        old(self).kept(self),
        s@.len() <= s0.len(),
        !s0.contains('\n') && old(self).ready() ==> (s@ == s0 && *self == *old(self)) || (s@.len() == 0 && old(self).put(s0, self)),
    decreases s@.len(),
@loop_entry 0
    proof {
        assert(s@.take(s@.len() as int) =~= s@);
        assert(s@.skip(s@.len() as int) =~= Seq::empty());
    }
    let ghost levels0 = self.indents@;
@loop_exit 0
    proof {
        if !s0.contains('\n') && old(self).ready() && s@.len() == 0 {
            let a = old(self).o();
            if levels0.len() > 0 {
                let m = mark_of(levels0.last());
                assert(m.take(3) + m.skip(3) =~= m);
                assert(a + marks_of(levels0.drop_last()) + m.take(3) + m.skip(3) =~= a + marks_of(levels0));
            } else {
                assert(a + marks_of(levels0) =~= a);
            }
        }
    }
@before last_mut#0
    proof {
        let k = choose|k: int| #![trigger s@[k]] 0 <= k < s@.len() && s@[k] == '\n' && pos == blen(s@.take(k)) && !s@.take(k).contains('\n') && blen(s@) <= usize::MAX;
        lemma_nl(s@, k);
        assert(s@.contains(s@[k]));
        assert(s@.take(k + 1).len() == k + 1);
    }
@after last_mut#0
    proof {
        assert(fl(self.indents@) =~= fl(levels0));
    }
@fn dynamic::forest::debug_print::DebugPrint::new
@spec
    ensures
        r.node == node,
@fn dynamic::forest::debug_print::prepare_next_node_printing
@ghost_param
    Ghost(top): Ghost<int>, Ghost(k): Ghost<int>
@spec
    requires
        wf(hierarchy.s()),
        live(hierarchy.s(), top),
        dft(abs(hierarchy.s()), old(traverser).next, from(abs(hierarchy.s()), top, k)),
        k < tour(abs(hierarchy.s()), top, 0, None).len(),
        levels(abs(hierarchy.s()), top, k, fl(old(writer).indents@)),
    ensures
        old(writer).on(final(writer)),
        r is Err ==> final(writer).bad(),
        r is Ok && r->Ok_0 is None ==> {
            &&& final(traverser).next is None
            &&& final(writer).o() == old(writer).o()
            &&& seen(tour(abs(hierarchy.s()), top, 0, None), k) == pre(abs(hierarchy.s()), top)
        },
        r is Ok && r->Ok_0 is Some ==> reached(abs(hierarchy.s()), top, k, ix(r->Ok_0->0), final(traverser).next),
        r is Ok && r->Ok_0 is Some ==> (fl(final(writer).indents@) == lasts(abs(hierarchy.s()), top, ix(r->Ok_0->0))),
        r is Ok && r->Ok_0 is Some ==> (final(writer).line_state == LineState::BeforeIndent),
        r is Ok && r->Ok_0 is Some ==> (final(writer).indents@.last().is_first_line),
        r is Ok && r->Ok_0 is Some ==> (lower(old(writer).indents@) ==> lower(final(writer).indents@)),
        r is Ok && r->Ok_0 is Some ==> (final(writer).o() == (if old(writer).line_state == LineState::BeforeIndent { old(writer).o() } else { old(writer).o().push('\n') })),
@attr
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
@entry
    hide(rep);
    let ghost t = abs(hierarchy.s());
    let ghost mut m = k;
    let ghost r0 = tour(t, top, 0, None);
    proof {
        lemma_tw(hierarchy.s());
        lemma_levels_start(t, top);
        lemma_from(t, top, m);
    }
@loop 0
    invariant
        k <= m <= r0.len(),
        dft(t, traverser.next, from(t, top, m)),
        from(t, top, m).len() == r0.len() - m,
        m < r0.len() ==> tail(from(t, top, m)) == from(t, top, m + 1) && ev0(head(from(t, top, m))) == Some(r0[m].0),
        m == r0.len() ==> ev0(head(from(t, top, m))) is None && tail(from(t, top, m)) == from(t, top, m),
        seen(r0, m) == seen(r0, k),
        levels(t, top, m, fl(writer.indents@)),
        old(writer).on(writer),
        writer.o() == old(writer).o(),
        writer.line_state == old(writer).line_state,
        lower(old(writer).indents@) ==> lower(writer.indents@),
    ensures
        m == r0.len(),
    decreases r0.len() - m,
@loop_entry 0
    proof {
        lemma_levels(t, top, m, fl(writer.indents@));
        m = m + 1;
        lemma_from(t, top, m);
    }
    let ghost levels0 = fl(writer.indents@);
@before continue#0
    proof {
        assert(fl(writer.indents@) =~= levels0.drop_last());
    }
@before open_item#0
    proof {
        lemma_nav(hierarchy.s(), ix(open_id));
    }
@before return#0
    proof {
        assert(went(t, top, k, m, ix(open_id), traverser.next));
        assert(went(abs(hierarchy.s()), top, k, m, ix(open_id), final(traverser).next));
        assert(reached(t, top, k, ix(open_id), traverser.next));
        assert(fl(writer.indents@) == lasts(t, top, ix(open_id)));
        assert(writer.indents@.last().is_first_line);
        assert(writer.line_state == LineState::BeforeIndent);
        assert(lower(old(writer).indents@) ==> lower(writer.indents@));
        assert(writer.o() == (if old(writer).line_state == LineState::BeforeIndent { old(writer).o() } else { old(writer).o().push('\n') }));
    }
@fn dynamic::forest::debug_print::DebugPrint@Display::fmt::inner
@spec
    requires
        wf(hierarchy.s()),
        data_ok(hierarchy.s(), data@),
        live(hierarchy.s(), ix(root)),
        d_oks(data@),
        old(writer).line_state == LineState::BeforeIndent,
        old(writer).indents@ == Seq::<IndentLevel>::empty(),
    ensures
        old(writer).on(final(writer)),
        d_lines(abs(hierarchy.s()), ix(root), data@) && !final(writer).bad() ==> r is Ok && final(writer).o() == old(writer).o() + printed(abs(hierarchy.s()), ix(root), pre(abs(hierarchy.s()), ix(root)), d_tx(data@)),
@ghost_arg prepare_next_node_printing
    Ghost(top), Ghost(k)
@attr
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
@entry
    hide(rep);
    let ghost t = abs(hierarchy.s());
    let ghost top = ix(root);
    let ghost r0 = tour(t, top, 0, None);
    let ghost tx = d_tx(data@);
    let ghost o0 = writer.o();
    let ghost mut k = 1int;
    let ghost lines = d_lines(t, top, data@);
    proof {
        lemma_tw(hierarchy.s());
        lemma_levels_start(t, top);
        lemma_from(t, top, 0);
        lemma_from(t, top, 1);
        lemma_anc_self(t, top);
        assert(fl(writer.indents@) =~= Seq::empty());
        assert(marks_of(writer.indents@) =~= Seq::empty());
        assert(dft(t, Option::<(DftEvent<InternalId>, DftEvent<InternalId>)>::None, Seq::empty()));
    }
@loop 0
    invariant
        1 <= k < r0.len(),
        dft(t, traverser.next, from(t, top, k)),
        levels(t, top, k, fl(writer.indents@)),
        old(writer).on(writer),
        lower(writer.indents@),
        seen(r0, k).len() > 0,
        lines && !writer.bad() ==> writer.o() == o0 + printed(t, top, seen(r0, k), tx) && writer.line_state == LineState::Content,
    ensures
        old(writer).on(writer),
        traverser.next is None,
        seen(r0, k) == pre(t, top),
        lines && !writer.bad() ==> writer.o() == o0 + printed(t, top, seen(r0, k), tx),
    decreases r0.len() - k,
@after_loop 0
    proof {
        let q = Seq::<(Ev, int)>::empty();
        assert(dft(t, traverser.next, q));
        assert(tail(q) =~= q);
    }
@loop_entry 0
    let ghost k0 = k;
    let ghost w1 = *writer;
    proof {
        k = choose|j: int| #[trigger] went(t, top, k0, j, ix(id), traverser.next);
    }
@after write!#1
    proof {
        lemma_printed(t, top, seen(r0, k0), ix(id), tx);
        lemma_marks_of(w1.indents@);
    }
@impl_items dynamic::forest::debug_print::DebugPrint@Display
    open spec fn d_ok(&self) -> bool {
        self.node.ok() && d_oks(self.node.f().d())
    }
    open spec fn d_sure(&self) -> bool {
        d_lines(self.node.f().t(), self.node.i(), self.node.f().d())
    }
    open spec fn d_text(&self) -> Seq<char> {
        printed(self.node.f().t(), self.node.i(), pre(self.node.f().t(), self.node.i()), d_tx(self.node.f().d()))
    }
@fn dynamic::forest::debug_print::DebugPrint@Display::fmt
@entry
    proof {
        nxok::<Id>();
    }
@fn dynamic::forest::debug_print::DebugPrint@Debug::fmt::inner
@spec
    requires
        wf(hierarchy.s()),
        data_ok(hierarchy.s(), data@),
        live(hierarchy.s(), ix(root)),
        g_oks(data@),
        old(writer).line_state == LineState::BeforeIndent,
        old(writer).indents@ == Seq::<IndentLevel>::empty(),
    ensures
        old(writer).on(final(writer)),
        g_lines(abs(hierarchy.s()), ix(root), data@) && !final(writer).bad() ==> r is Ok && final(writer).o() == old(writer).o() + printed(abs(hierarchy.s()), ix(root), pre(abs(hierarchy.s()), ix(root)), g_tx(data@)),
@ghost_arg prepare_next_node_printing
    Ghost(top), Ghost(k)
@attr
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
@entry
    hide(rep);
    let ghost t = abs(hierarchy.s());
    let ghost top = ix(root);
    let ghost r0 = tour(t, top, 0, None);
    let ghost tx = g_tx(data@);
    let ghost o0 = writer.o();
    let ghost mut k = 1int;
    let ghost lines = g_lines(t, top, data@);
    proof {
        lemma_tw(hierarchy.s());
        lemma_levels_start(t, top);
        lemma_from(t, top, 0);
        lemma_from(t, top, 1);
        lemma_anc_self(t, top);
        assert(fl(writer.indents@) =~= Seq::empty());
        assert(marks_of(writer.indents@) =~= Seq::empty());
        assert(dft(t, Option::<(DftEvent<InternalId>, DftEvent<InternalId>)>::None, Seq::empty()));
    }
@loop 0
    invariant
        1 <= k < r0.len(),
        dft(t, traverser.next, from(t, top, k)),
        levels(t, top, k, fl(writer.indents@)),
        old(writer).on(writer),
        lower(writer.indents@),
        seen(r0, k).len() > 0,
        lines && !writer.bad() ==> writer.o() == o0 + printed(t, top, seen(r0, k), tx) && writer.line_state == LineState::Content,
    ensures
        old(writer).on(writer),
        traverser.next is None,
        seen(r0, k) == pre(t, top),
        lines && !writer.bad() ==> writer.o() == o0 + printed(t, top, seen(r0, k), tx),
    decreases r0.len() - k,
@after_loop 0
    proof {
        let q = Seq::<(Ev, int)>::empty();
        assert(dft(t, traverser.next, q));
        assert(tail(q) =~= q);
    }
@loop_entry 0
    let ghost k0 = k;
    let ghost w1 = *writer;
    proof {
        k = choose|j: int| #[trigger] went(t, top, k0, j, ix(id), traverser.next);
    }
@after write!#1
    proof {
        lemma_printed(t, top, seen(r0, k0), ix(id), tx);
        lemma_marks_of(w1.indents@);
    }
@impl_items dynamic::forest::debug_print::DebugPrint@Debug
    open spec fn g_ok(&self) -> bool {
        self.node.ok() && g_oks(self.node.f().d())
    }
    open spec fn g_sure(&self) -> bool {
        g_lines(self.node.f().t(), self.node.i(), self.node.f().d())
    }
    open spec fn g_text(&self) -> Seq<char> {
        printed(self.node.f().t(), self.node.i(), pre(self.node.f().t(), self.node.i()), g_tx(self.node.f().d()))
    }
@fn dynamic::forest::debug_print::DebugPrint@Debug::fmt
@entry
    proof {
        nxok::<Id>();
    }
@fn dynamic::forest::node::Node::debug_print
@spec
    ensures
        r.node == *self,
@fn dynamic::forest::node::NodeMut::debug_print
@spec
    requires
        self.ok(),
    ensures
        r.node.ok(),
        r.node.f() == self.f(),
        r.node.id == self.id,
@fn dynamic::forest::Forest::debug_print
@spec
    requires
        self.ok(),
        live(self.s(), nx(id)),
    ensures
        r.node.ok(),
        r.node.f() == *self,
        r.node.id == id,
