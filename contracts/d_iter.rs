// ===================================================================
// Iterators. Every std iterator the crate builds is a finite sequence taken
// from either end (`SeqIter`); the crate's `for`/`for_each`/`map`/`collect`
// chains are unfolded by the extractor into loops over it. Trusted: the listed
// adapter equations are those of std.
// ===================================================================

#[verifier::external_body]
#[verifier::reject_recursive_types(X)]
pub struct SeqIter<X> { x: PhantomData<X> }
impl<X> View for SeqIter<X> {
    type V = Seq<X>;
    uninterp spec fn view(&self) -> Seq<X>;
}
pub open spec fn refs<'a, T>(s: Seq<T>) -> Seq<&'a T> { Seq::new(s.len(), |i: int| &s[i]) }
/// number of items `step_by(k)` leaves of `n`
pub open spec fn steps(n: int, k: int) -> int { if n <= 0 { 0 } else { (n - 1) / k + 1 } }

pub trait VpIntoIter: Sized {
    type VItem;
    spec fn vp_seq(self) -> Seq<Self::VItem>;
    fn vp_into_iter(self) -> (it: SeqIter<Self::VItem>)
        ensures it@ == self.vp_seq();
}
impl<T> VpIntoIter for Vec<T> {
    type VItem = T;
    open spec fn vp_seq(self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vp_into_iter(self) -> (it: SeqIter<T>) { unimplemented!() }
}
impl<T, const N: usize> VpIntoIter for [T; N] {
    type VItem = T;
    open spec fn vp_seq(self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vp_into_iter(self) -> (it: SeqIter<T>) { unimplemented!() }
}
impl<X> VpIntoIter for SeqIter<X> {
    type VItem = X;
    open spec fn vp_seq(self) -> Seq<X> { self@ }
    fn vp_into_iter(self) -> (it: SeqIter<X>) { self }
}
impl<'a, T> VpIntoIter for &'a Vec<T> {
    type VItem = &'a T;
    open spec fn vp_seq(self) -> Seq<&'a T> { refs(self@) }
    #[verifier::external_body]
    fn vp_into_iter(self) -> (it: SeqIter<&'a T>) { unimplemented!() }
}

pub trait VpIter<T> {
    spec fn vp_sv(&self) -> Seq<T>;
    fn vp_iter<'a>(&'a self) -> (it: SeqIter<&'a T>)
        ensures it@ == refs(self.vp_sv());
    fn vp_iter_mut<'a>(&'a mut self) -> (it: SeqIter<&'a mut T>)
        ensures it@.len() == old(self).vp_sv().len(), final(self).vp_sv().len() == old(self).vp_sv().len(),
            forall|i: int| #![trigger it@[i]] #![trigger final(self).vp_sv()[i]] 0 <= i < it@.len() ==> *it@[i] == old(self).vp_sv()[i] && *final(it@[i]) == final(self).vp_sv()[i];
}
impl<T> VpIter<T> for Vec<T> {
    open spec fn vp_sv(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vp_iter<'a>(&'a self) -> (it: SeqIter<&'a T>) { unimplemented!() }
    #[verifier::external_body]
    fn vp_iter_mut<'a>(&'a mut self) -> (it: SeqIter<&'a mut T>) { unimplemented!() }
}
impl<T> VpIter<T> for [T] {
    open spec fn vp_sv(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vp_iter<'a>(&'a self) -> (it: SeqIter<&'a T>) { unimplemented!() }
    #[verifier::external_body]
    fn vp_iter_mut<'a>(&'a mut self) -> (it: SeqIter<&'a mut T>) { unimplemented!() }
}
/// `a..b`
#[verifier::external_body]
pub fn vp_range(a: usize, b: usize) -> (it: SeqIter<usize>)
    ensures it@ == Seq::new((if a <= b { b - a } else { 0 }) as nat, |i: int| (a + i) as usize),
{ unimplemented!() }

impl<X> SeqIter<X> {
    #[verifier::external_body]
    pub fn vp_more(&self) -> (r: bool)
        ensures r == (self@.len() > 0),
    { unimplemented!() }
    /// the item `next()` yields when there is one
    #[verifier::external_body]
    pub fn vp_take_next(&mut self) -> (r: X)
        requires old(self)@.len() > 0,
        ensures r == old(self)@[0], final(self)@ == old(self)@.skip(1),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<X>)
        ensures
            old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.skip(1),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize)
        ensures r == self@.len(),
    { unimplemented!() }
    /// left-over items of the longer side are dropped untouched
    #[verifier::external_body]
    pub fn zip<O: VpIntoIter>(self, o: O) -> (r: SeqIter<(X, O::VItem)>)
        ensures
            r@.len() == (if self@.len() <= o.vp_seq().len() { self@.len() } else { o.vp_seq().len() }),
            forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == (self@[i], o.vp_seq()[i]),
            forall|i: int| r@.len() <= i < self@.len() ==> has_resolved(#[trigger] self@[i]),
            forall|i: int| r@.len() <= i < o.vp_seq().len() ==> has_resolved(#[trigger] o.vp_seq()[i]),
    { unimplemented!() }
    /// the index counts up to usize::MAX only
    #[verifier::external_body]
    pub fn enumerate(self) -> (r: SeqIter<(usize, X)>)
        ensures r@.len() == self@.len(),
            forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == (i as usize, self@[i]),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn skip(self, n: usize) -> (r: SeqIter<X>)
        ensures
            n <= self@.len() ==> r@ == self@.skip(n as int),
            n > self@.len() ==> r@.len() == 0,
            forall|i: int| n <= i < self@.len() ==> #[trigger] self@[i] == r@[i - n],
            forall|i: int| 0 <= i < self@.len() && i < n ==> has_resolved(#[trigger] self@[i]),
    { unimplemented!() }
    /// panics for a step of zero
    #[verifier::external_body]
    pub fn step_by(self, k: usize) -> (r: SeqIter<X>)
        requires k > 0, //@MEM
        ensures r@.len() == steps(self@.len() as int, k as int),
            forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == self@[i * k],
            forall|i: int| 0 <= i < self@.len() && i % (k as int) == 0 ==> #[trigger] self@[i] == r@[i / (k as int)],
            forall|i: int| 0 <= i < self@.len() && i % (k as int) != 0 ==> has_resolved(#[trigger] self@[i]),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn take(self, n: usize) -> (r: SeqIter<X>)
        ensures
            n <= self@.len() ==> r@ == self@.take(n as int),
            n > self@.len() ==> r@ == self@,
            forall|i: int| 0 <= i < self@.len() && i >= n ==> has_resolved(#[trigger] self@[i]),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vp_map<Y, F: FnMut(X) -> Y>(self, f: F) -> (r: SeqIter<Y>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],)),
        ensures r@.len() == self@.len(), forall|i: int| 0 <= i < r@.len() ==> f.ensures((self@[i],), #[trigger] r@[i]),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn rev(self) -> (r: SeqIter<X>)
        ensures r@.len() == self@.len(), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == self@[self@.len() - 1 - i],
    { unimplemented!() }
}

// ---------------------------------------------------------------- caller-supplied closures
// Each call of a closure parameter is recorded, arguments and result, in a
// ghost trace. A caller's closure is a relation between arguments and results;
// its own mutable state is abstracted (the relation covers every state).

pub tracked struct Trace<A, R> { pub ghost log: Seq<(A, R)> }
pub proof fn vp_trace<A, R>() -> (tracked r: Trace<A, R>)
    ensures r.log.len() == 0,
{ Trace { log: Seq::empty() } }
/// `*x` may become `b` when the closure is given `&mut x` with `*x == a`
#[verifier::prophetic]
pub open spec fn mut1<A, F: FnMut(&mut A)>(f: F, a: A, b: A) -> bool {
    exists|x: &mut A| *x == a && *final(x) == b && #[trigger] f.ensures((x,), ())
}
#[verifier::prophetic]
pub open spec fn mut2<A, B, F: FnMut(&mut A, B)>(f: F, a: A, y: B, b: A) -> bool {
    exists|x: &mut A| *x == a && *final(x) == b && #[trigger] f.ensures((x, y), ())
}
#[verifier::external_body]
pub fn vp_call1<A, R, F: FnMut(A) -> R>(f: &mut F, a: A, Tracked(tr): Tracked<&mut Trace<A, R>>) -> (r: R)
    requires old(f).requires((a,)),
    ensures final(tr).log == old(tr).log.push((a, r)), *final(f) == *old(f), old(f).ensures((a,), r),
{ f(a) }
#[verifier::external_body]
pub fn vp_call1m<A, F: FnMut(&mut A)>(f: &mut F, a: &mut A, Tracked(tr): Tracked<&mut Trace<A, A>>)
    requires old(f).requires((a,)),
    ensures final(tr).log == old(tr).log.push((*old(a), *final(a))), *final(f) == *old(f), old(f).ensures((a,), ()),
{ f(a) }
#[verifier::external_body]
pub fn vp_call2<A, B, R, F: FnMut(A, B) -> R>(f: &mut F, a: A, b: B, Tracked(tr): Tracked<&mut Trace<(A, B), R>>) -> (r: R)
    requires old(f).requires((a, b)),
    ensures final(tr).log == old(tr).log.push(((a, b), r)), *final(f) == *old(f), old(f).ensures((a, b), r),
{ f(a, b) }
#[verifier::external_body]
pub fn vp_call2m<A, B, F: FnMut(&mut A, B)>(f: &mut F, a: &mut A, b: B, Tracked(tr): Tracked<&mut Trace<(A, B), A>>)
    requires old(f).requires((a, b)),
    ensures final(tr).log == old(tr).log.push(((*old(a), b), *final(a))), *final(f) == *old(f), old(f).ensures((a, b), ()),
{ f(a, b) }
/// slices are recorded by their contents
#[verifier::external_body]
pub fn vp_call2s<L, R, U, F: FnMut(&[L], &[R]) -> U>(f: &mut F, a: &[L], b: &[R], Tracked(tr): Tracked<&mut Trace<(Seq<L>, Seq<R>), U>>) -> (r: U)
    requires old(f).requires((a, b)),
    ensures final(tr).log == old(tr).log.push(((a@, b@), r)), *final(f) == *old(f), old(f).ensures((a, b), r),
{ f(a, b) }
