pub mod vt {
    use vstd::prelude::*;

    /// Stands for `panic!`, `unreachable!`: reaching it is a failed obligation.
    #[verifier::external_body]
    pub fn rt_panic() -> !
        requires
            false,
    {
        panic!()
    }

    pub uninterp spec fn debug_build() -> bool;

    /// Whether debug assertions are checked (`debug_assert*!`, `cfg!(debug_assertions)`): either way.
    #[verifier::external_body]
    pub fn debug_checks() -> (r: bool)
        ensures
            r == debug_build(),
    {
        cfg!(debug_assertions)
    }

    /// Stands for `assert*!`, `debug_assert*!`: a failing assertion is a failed obligation.
    pub fn rt_assert(c: bool)
        requires
            c,
    {
    }

    /// Stands for a panic in a copy for calls that end in a panic: allowed where `p` holds.
    #[verifier::external_body]
    pub fn rt_stop(Ghost(p): Ghost<bool>) -> !
        requires
            p,
    {
        panic!()
    }

    pub fn rt_assert_stop(c: bool, Ghost(p): Ghost<bool>)
        requires
            c || p,
        ensures
            c,
    {
        if !c {
            rt_stop(Ghost(p));
        }
    }

    /// What `expect` and `unwrap` fail for.
    pub trait Fails {
        spec fn failed(&self) -> bool;
        fn fails(&self) -> (r: bool)
            ensures
                r == self.failed(),
        ;
    }
    impl<T> Fails for Option<T> {
        open spec fn failed(&self) -> bool {
            self is None
        }
        fn fails(&self) -> (r: bool) {
            self.is_none()
        }
    }
    impl<T, E> Fails for Result<T, E> {
        open spec fn failed(&self) -> bool {
            self is Err
        }
        fn fails(&self) -> (r: bool) {
            self.is_err()
        }
    }

    pub assume_specification<T> [core::mem::replace] (dest: &mut T, src: T) -> (r: T)
        ensures
            *final(dest) == src,
            r == *old(dest),
    ;

    pub assume_specification<T> [core::mem::drop] (x: T)
        where T: core::marker::Destruct,
    ;

    pub assume_specification<T, A: core::alloc::Allocator> [alloc::collections::VecDeque::<T, A>::is_empty] (q: &alloc::collections::VecDeque<T, A>) -> (r: bool)
        ensures
            r == (q@.len() == 0),
    ;

    pub assume_specification<T, A: core::alloc::Allocator> [alloc::collections::VecDeque::<T, A>::front] (q: &alloc::collections::VecDeque<T, A>) -> (r: Option<&T>)
        ensures
            q@.len() == 0 ==> r is None,
            q@.len() > 0 ==> r is Some && *r->0 == q@[0],
    ;

    pub assume_specification<T, A: core::alloc::Allocator> [alloc::collections::VecDeque::<T, A>::get] (q: &alloc::collections::VecDeque<T, A>, i: usize) -> (r: Option<&T>)
        ensures
            i >= q@.len() ==> r is None,
            i < q@.len() ==> r is Some && *r->0 == q@[i as int],
    ;

    /// Stands for `core::iter::Iterator`.
    pub trait Iterator: Sized {
        type Item;
        spec fn it_ok(self) -> bool;
        /// The state after the first item has been taken.
        spec fn stepped(self, new: Self) -> bool;
        fn next(&mut self) -> (r: Option<Self::Item>)
            requires
                old(self).it_ok(),
            ensures
                old(self).stepped(*final(self)),
        ;
        fn size_hint(&self) -> (r: (usize, Option<usize>))
            requires
                self.it_ok(),
        {
            (0, None)
        }
    }
    pub trait DoubleEndedIterator: Iterator {
        /// The state after the last item has been taken.
        spec fn stepped_back(self, new: Self) -> bool;
        fn next_back(&mut self) -> (r: Option<Self::Item>)
            requires
                old(self).it_ok(),
            ensures
                old(self).stepped_back(*final(self)),
        ;
    }

    // ------------------------------------------------------------------
    // Node IDs.
    /// `usize::try_from(usize)` never fails.
    pub axiom fn axiom_try_from_self()
        ensures
            <usize as vstd::std_specs::convert::TryFromSpec<usize>>::obeys_try_from_spec(),
            forall|n: usize| #[trigger] <usize as vstd::std_specs::convert::TryFromSpec<usize>>::try_from_spec(n) == Ok::<usize, core::convert::Infallible>(n),
    ;

    /// A `NonZero` is determined by its value, and that is not zero.
    pub axiom fn axiom_nonzero_eq<T: core::num::ZeroablePrimitive>(a: core::num::NonZero<T>, b: core::num::NonZero<T>)
        ensures
            a.view() == b.view() ==> a == b,
    ;

    /// `NonZero` is ordered as its value is.
    pub axiom fn axiom_nonzero_cmp<T: core::num::ZeroablePrimitive + Ord>(a: core::num::NonZero<T>, b: core::num::NonZero<T>)
        ensures
            <core::num::NonZero<T> as vstd::std_specs::cmp::OrdSpec>::obeys_cmp_spec() == <T as vstd::std_specs::cmp::OrdSpec>::obeys_cmp_spec(),
            <core::num::NonZero<T> as vstd::std_specs::cmp::PartialOrdSpec<core::num::NonZero<T>>>::obeys_partial_cmp_spec() == <T as vstd::std_specs::cmp::OrdSpec>::obeys_cmp_spec(),
            <core::num::NonZero<T> as vstd::std_specs::cmp::OrdSpec>::cmp_spec(&a, &b) == <T as vstd::std_specs::cmp::OrdSpec>::cmp_spec(&a.view(), &b.view()),
            <core::num::NonZero<T> as vstd::std_specs::cmp::PartialOrdSpec<core::num::NonZero<T>>>::partial_cmp_spec(&a, &b) == Some(<T as vstd::std_specs::cmp::OrdSpec>::cmp_spec(&a.view(), &b.view())),
    ;

    pub assume_specification [core::cmp::Ordering::reverse] (o: core::cmp::Ordering) -> (r: core::cmp::Ordering)
        ensures
            r == (match o { core::cmp::Ordering::Less => core::cmp::Ordering::Greater, core::cmp::Ordering::Equal => core::cmp::Ordering::Equal, core::cmp::Ordering::Greater => core::cmp::Ordering::Less }),
    ;

    pub open spec fn order(a: int, b: int) -> core::cmp::Ordering {
        if a < b { core::cmp::Ordering::Less } else if a == b { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Greater }
    }

    /// Marks a clause that says more than any property does.
    pub open spec fn detail(p: bool) -> bool {
        p
    }

    /// Stands for `core::hash::Hasher`: the values that it has been fed.
    pub trait Hasher {
        spec fn fed(&self) -> Seq<int>;
    }

    /// Stands for `core::hash::Hash`.
    pub trait Hash {
        /// What is fed to the hasher.
        spec fn h(&self) -> Seq<int>;

        fn hash<H: Hasher>(&self, state: &mut H)
            ensures
                final(state).fed() == old(state).fed() + self.h(),
        ;
    }

    impl Hash for core::num::NonZero<u8> {
        open spec fn h(&self) -> Seq<int> {
            seq![self.view() as int]
        }

        #[verifier::external_body]
        fn hash<H: Hasher>(&self, state: &mut H) {
            unimplemented!()
        }
    }

    impl Hash for core::num::NonZero<u16> {
        open spec fn h(&self) -> Seq<int> {
            seq![self.view() as int]
        }

        #[verifier::external_body]
        fn hash<H: Hasher>(&self, state: &mut H) {
            unimplemented!()
        }
    }

    impl Hash for core::num::NonZero<u32> {
        open spec fn h(&self) -> Seq<int> {
            seq![self.view() as int]
        }

        #[verifier::external_body]
        fn hash<H: Hasher>(&self, state: &mut H) {
            unimplemented!()
        }
    }

    impl Hash for core::num::NonZero<u64> {
        open spec fn h(&self) -> Seq<int> {
            seq![self.view() as int]
        }

        #[verifier::external_body]
        fn hash<H: Hasher>(&self, state: &mut H) {
            unimplemented!()
        }
    }

    impl Hash for core::num::NonZero<usize> {
        open spec fn h(&self) -> Seq<int> {
            seq![self.view() as int]
        }

        #[verifier::external_body]
        fn hash<H: Hasher>(&self, state: &mut H) {
            unimplemented!()
        }
    }

    // ------------------------------------------------------------------
    // Strings: positions are byte positions, the text is a sequence of characters.
    /// The number of bytes of a character in UTF-8.
    pub uninterp spec fn width(c: char) -> nat;

    pub open spec fn blen(s: Seq<char>) -> nat
        decreases s.len(),
    {
        if s.len() == 0 { 0 } else { blen(s.drop_last()) + width(s.last()) }
    }

    pub axiom fn axiom_width(c: char)
        ensures
            1 <= width(c) <= 4,
            c == '\n' ==> width(c) == 1,
    ;

    /// `s.len()`.
    #[verifier::external_body]
    pub fn str_len(s: &str) -> (r: usize)
        ensures
            r == blen(s@),
    {
        s.len()
    }

    /// `s.find(c)`.
    #[verifier::external_body]
    pub fn str_find(s: &str, c: char) -> (r: Option<usize>)
        ensures
            r is None <==> !s@.contains(c),
            r is Some ==> exists|k: int| #![trigger s@[k]] 0 <= k < s@.len() && s@[k] == c && r->0 == blen(s@.take(k)) && !s@.take(k).contains(c) && blen(s@) <= usize::MAX,
    {
        s.find(c)
    }

    /// `&s[..n]`.
    #[verifier::external_body]
    pub fn str_to(s: &str, n: usize) -> (r: &str)
        requires
            exists|k: int| #![trigger s@.take(k)] 0 <= k <= s@.len() && blen(s@.take(k)) == n,
        ensures
            forall|k: int| #![trigger s@.take(k)] 0 <= k <= s@.len() && blen(s@.take(k)) == n ==> r@ == s@.take(k),
    {
        &s[..n]
    }

    /// `&s[n..]`.
    #[verifier::external_body]
    pub fn str_from(s: &str, n: usize) -> (r: &str)
        requires
            exists|k: int| #![trigger s@.take(k)] 0 <= k <= s@.len() && blen(s@.take(k)) == n,
        ensures
            forall|k: int| #![trigger s@.take(k)] 0 <= k <= s@.len() && blen(s@.take(k)) == n ==> r@ == s@.skip(k),
    {
        &s[n..]
    }

    /// Stands for `core::fmt`.
    pub mod fmt {
        use vstd::prelude::*;

        pub struct Error;

        pub type Result = core::result::Result<(), Error>;

        #[verifier::external_body]
        pub struct Formatter<'a> {
            x: core::marker::PhantomData<&'a ()>,
        }

        impl<'a> Formatter<'a> {
            /// What has been written so far.
            pub uninterp spec fn out(&self) -> Seq<char>;

            /// Whether writing has failed at some time.
            pub uninterp spec fn failed(&self) -> bool;

            #[verifier::external_body]
            pub fn write_str(&mut self, s: &str) -> (r: Result)
                ensures
                    r is Ok ==> final(self).out() == old(self).out() + s@ && final(self).failed() == old(self).failed(),
                    r is Err ==> final(self).failed(),
            {
                unimplemented!()
            }

            #[verifier::external_body]
            pub fn write_char(&mut self, c: char) -> (r: Result)
                ensures
                    r is Ok ==> final(self).out() == old(self).out().push(c) && final(self).failed() == old(self).failed(),
                    r is Err ==> final(self).failed(),
            {
                unimplemented!()
            }
        }

        /// `core::fmt::Write`.
        pub trait Write: Sized {
            /// Writing has failed at some time.
            spec fn w_failed(&self) -> bool;

            /// What any sequence of calls keeps.
            #[verifier::prophetic]
            spec fn kept(&self, new: &Self) -> bool;

            /// The effect of writing `s`, in any number of pieces.
            #[verifier::prophetic]
            spec fn wrote(&self, s: Seq<char>, new: &Self) -> bool;

            fn write_str(&mut self, s: &str) -> (r: Result)
                ensures
                    old(self).kept(final(self)),
                    old(self).wrote(s@, final(self)),
                    r is Err ==> final(self).w_failed(),
            ;

            /// What `write_display` relies on.
            proof fn pieces(&self, b: &Self, c: &Self, s: Seq<char>, u: Seq<char>)
                ensures
                    self.kept(self),
                    self.kept(b) && b.kept(c) ==> self.kept(c),
                    self.wrote(Seq::empty(), self),
                    self.kept(b) && b.kept(c) && self.wrote(s, b) && b.wrote(u, c) ==> self.wrote(s + u, c),
            ;
        }

        /// `core::fmt::Display`.
        pub trait Display {
            spec fn d_ok(&self) -> bool;

            /// `fmt` writes `d_text` if writing does not fail, and fails only if writing fails.
            spec fn d_sure(&self) -> bool;

            spec fn d_text(&self) -> Seq<char>;

            fn fmt(&self, f: &mut Formatter<'_>) -> (r: Result)
                requires
                    self.d_ok(),
                ensures
                    old(f).failed() ==> final(f).failed(),
                    self.d_sure() && !final(f).failed() ==> r is Ok && final(f).out() == old(f).out() + self.d_text(),
            ;
        }

        /// `core::fmt::Debug`.
        pub trait Debug {
            spec fn g_ok(&self) -> bool;

            spec fn g_sure(&self) -> bool;

            spec fn g_text(&self) -> Seq<char>;

            fn fmt(&self, f: &mut Formatter<'_>) -> (r: Result)
                requires
                    self.g_ok(),
                ensures
                    old(f).failed() ==> final(f).failed(),
                    self.g_sure() && !final(f).failed() ==> r is Ok && final(f).out() == old(f).out() + self.g_text(),
            ;
        }

        impl<T: Display + ?Sized> Display for &T {
            open spec fn d_ok(&self) -> bool {
                (**self).d_ok()
            }

            open spec fn d_sure(&self) -> bool {
                (**self).d_sure()
            }

            open spec fn d_text(&self) -> Seq<char> {
                (**self).d_text()
            }

            fn fmt(&self, f: &mut Formatter<'_>) -> (r: Result) {
                (**self).fmt(f)
            }
        }

        impl<T: Debug + ?Sized> Debug for &T {
            open spec fn g_ok(&self) -> bool {
                (**self).g_ok()
            }

            open spec fn g_sure(&self) -> bool {
                (**self).g_sure()
            }

            open spec fn g_text(&self) -> Seq<char> {
                (**self).g_text()
            }

            fn fmt(&self, f: &mut Formatter<'_>) -> (r: Result) {
                (**self).fmt(f)
            }
        }

        /// `write!(w, "{}", x)`: `fmt` of `x` on a formatter that hands its pieces to `w.write_str`.
        #[verifier::external_body]
        pub fn write_display<W: Write, T: Display + ?Sized>(w: &mut W, x: &T) -> (r: Result)
            requires
                x.d_ok(),
            ensures
                old(w).kept(final(w)),
                r is Err && x.d_sure() ==> final(w).w_failed(),
                x.d_sure() && !final(w).w_failed() ==> old(w).wrote(x.d_text(), final(w)),
        {
            unimplemented!()
        }

        /// `write!(w, "{:?}", x)`.
        #[verifier::external_body]
        pub fn write_debug<W: Write, T: Debug + ?Sized>(w: &mut W, x: &T) -> (r: Result)
            requires
                x.g_ok(),
            ensures
                old(w).kept(final(w)),
                r is Err && x.g_sure() ==> final(w).w_failed(),
                x.g_sure() && !final(w).w_failed() ==> old(w).wrote(x.g_text(), final(w)),
        {
            unimplemented!()
        }
    }
}
