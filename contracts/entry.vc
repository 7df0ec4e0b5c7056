@# Written by tools/gen_entry.py.
@fn dynamic::forest::node::Node::depth_first_traverse
@spec
    requires
        self.ok(),
    ensures
        r.forest == self.forest,
        r.to_come(tour(self.f().t(), self.i(), 0, None)),
@fn dynamic::forest::Forest::depth_first_traverse
@spec
    requires
        self.ok(),
        live(self.s(), nx(node)),
    ensures
        r.forest == self,
        r.to_come(tour(self.t(), nx(node), 0, None)),
@fn dynamic::forest::node::Node::shallow_depth_first_traverse
@spec
    requires
        self.ok(),
    ensures
        r.forest == self.forest,
        r.to_come(tour(self.f().t(), self.i(), 0, lim(max_depth))),
        mx(r.traverser.max_depth) == (if max_depth == Some(usize::MAX) { None } else { lim(max_depth) }),
@fn dynamic::forest::Forest::shallow_depth_first_traverse
@spec
    requires
        self.ok(),
        live(self.s(), nx(node)),
    ensures
        r.forest == self,
        r.to_come(tour(self.t(), nx(node), 0, lim(max_depth))),
        mx(r.traverser.max_depth) == (if max_depth == Some(usize::MAX) { None } else { lim(max_depth) }),
@fn dynamic::forest::node::Node::breadth_first_traverse
@spec
    requires
        self.ok(),
    ensures
        r.forest == self.forest,
        r.to_come(bfs(self.f().t(), seq![self.i()], 0)),
@fn dynamic::forest::Forest::breadth_first_traverse
@spec
    requires
        self.ok(),
        live(self.s(), nx(node)),
    ensures
        r.forest == self,
        r.to_come(bfs(self.t(), seq![nx(node)], 0)),
@fn dynamic::forest::node::Node::allocating_breadth_first_traverse
@spec
    requires
        self.ok(),
    ensures
        r.forest == self.forest,
        r.to_come(bfs(self.f().t(), seq![self.i()], 0)),
@fn dynamic::forest::Forest::allocating_breadth_first_traverse
@spec
    requires
        self.ok(),
        live(self.s(), nx(node)),
    ensures
        r.forest == self,
        r.to_come(bfs(self.t(), seq![nx(node)], 0)),
@fn dynamic::forest::node::Node::ancestors_or_self
@spec
    requires
        self.ok(),
    ensures
        r.forest == self.forest,
        r.to_come(ancs(self.f().t(), self.i())),
@fn dynamic::forest::Forest::ancestors_or_self
@spec
    requires
        self.ok(),
        live(self.s(), nx(node)),
    ensures
        r.forest == self,
        r.to_come(ancs(self.t(), nx(node))),
@fn dynamic::forest::node::Node::ancestors
@spec
    requires
        self.ok(),
    ensures
        r.forest == self.forest,
        r.to_come(oancs(self.f().t(), self.f().t().parent[self.i()])),
@entry
    proof {
        let t = self.f().t();
        lemma_tw(self.f().s());
        lemma_nav(self.f().s(), self.i());
        lemma_oancs(self.f().s(), Some(self.i()));
        assert(tail(ancs(t, self.i())) =~= oancs(t, t.parent[self.i()]));
    }
@fn dynamic::forest::Forest::ancestors
@spec
    requires
        self.ok(),
        live(self.s(), nx(node)),
    ensures
        r.forest == self,
        r.to_come(oancs(self.t(), self.t().parent[nx(node)])),
@fn dynamic::forest::node::Node::children
@spec
    requires
        self.ok(),
    ensures
        r.forest == self.forest,
        r.to_come(self.f().t().kids[self.i()]),
@fn dynamic::forest::Forest::children
@spec
    requires
        self.ok(),
        live(self.s(), nx(node)),
    ensures
        r.forest == self,
        r.to_come(self.t().kids[nx(node)]),
@fn dynamic::forest::node::Node::following_siblings_or_self
@spec
    requires
        self.ok(),
    ensures
        r.forest == self.forest,
        r.to_come(from_sib(self.f().t(), self.i())),
@fn dynamic::forest::Forest::following_siblings_or_self
@spec
    requires
        self.ok(),
        live(self.s(), nx(node)),
    ensures
        r.forest == self,
        r.to_come(from_sib(self.t(), nx(node))),
@fn dynamic::forest::node::Node::following_siblings
@spec
    requires
        self.ok(),
    ensures
        r.forest == self.forest,
        r.to_come(tail(from_sib(self.f().t(), self.i()))),
@fn dynamic::forest::Forest::following_siblings
@spec
    requires
        self.ok(),
        live(self.s(), nx(node)),
    ensures
        r.forest == self,
        r.to_come(tail(from_sib(self.t(), nx(node)))),
@fn dynamic::forest::node::Node::preceding_siblings_or_self
@spec
    requires
        self.ok(),
    ensures
        r.forest == self.forest,
        r.to_come(to_sib(self.f().t(), self.i())),
@fn dynamic::forest::Forest::preceding_siblings_or_self
@spec
    requires
        self.ok(),
        live(self.s(), nx(node)),
    ensures
        r.forest == self,
        r.to_come(to_sib(self.t(), nx(node))),
@fn dynamic::forest::node::Node::preceding_siblings
@spec
    requires
        self.ok(),
    ensures
        r.forest == self.forest,
        r.to_come(init(to_sib(self.f().t(), self.i()))),
@fn dynamic::forest::Forest::preceding_siblings
@spec
    requires
        self.ok(),
        live(self.s(), nx(node)),
    ensures
        r.forest == self,
        r.to_come(init(to_sib(self.t(), nx(node)))),
@fn dynamic::forest::node::first_skipped
@spec
    requires
        iter.it_ok(),
    ensures
        iter.stepped(r),
@fn dynamic::forest::node::last_skipped
@spec
    requires
        iter.it_ok(),
    ensures
        iter.stepped_back(r),
