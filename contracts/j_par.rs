// ===================================================================
// rayon, by assumed contract: an indexed parallel iterator over a vector is the
// sequence of its items; every division of the work applies the closure once to
// every item, in an unspecified order (the recorded calls are a multiset), and
// `collect` puts the results back in position.
// ===================================================================
#[verifier::external_body]
#[verifier::reject_recursive_types(X)]
pub struct ParIter<X> { x: PhantomData<X> }
impl<X> View for ParIter<X> {
    type V = Seq<X>;
    uninterp spec fn view(&self) -> Seq<X>;
}
/// the log records exactly the calls of `calls`, in some order
pub open spec fn logged<A>(log: Seq<A>, calls: Seq<A>) -> bool { log.to_multiset() == calls.to_multiset() }
pub open spec fn call_log<A, R>(a: Seq<A>, r: Seq<R>) -> Seq<(A, R)> { Seq::new(a.len(), |i: int| (a[i], r[i])) }

pub trait VpParIter<T> {
    spec fn vp_pv(&self) -> Seq<T>;
    fn vp_par_iter<'a>(&'a self) -> (it: ParIter<&'a T>)
        ensures it@ == refs(self.vp_pv());
    fn vp_par_iter_mut<'a>(&'a mut self) -> (it: ParIter<&'a mut T>)
        ensures it@.len() == old(self).vp_pv().len(), final(self).vp_pv().len() == old(self).vp_pv().len(),
            forall|i: int| #![trigger it@[i]] #![trigger final(self).vp_pv()[i]] 0 <= i < it@.len() ==> *it@[i] == old(self).vp_pv()[i] && *final(it@[i]) == final(self).vp_pv()[i];
}
impl<T> VpParIter<T> for Vec<T> {
    open spec fn vp_pv(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vp_par_iter<'a>(&'a self) -> (it: ParIter<&'a T>) { unimplemented!() }
    #[verifier::external_body]
    fn vp_par_iter_mut<'a>(&'a mut self) -> (it: ParIter<&'a mut T>) { unimplemented!() }
}
pub trait VpIntoParIter: Sized {
    type VPItem;
    spec fn vp_pseq(self) -> Seq<Self::VPItem>;
    fn vp_into_par_iter(self) -> (it: ParIter<Self::VPItem>)
        ensures it@ == self.vp_pseq();
}
impl<T> VpIntoParIter for Vec<T> {
    type VPItem = T;
    open spec fn vp_pseq(self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vp_into_par_iter(self) -> (it: ParIter<T>) { unimplemented!() }
}
impl VpIntoParIter for core::ops::Range<usize> {
    type VPItem = usize;
    open spec fn vp_pseq(self) -> Seq<usize> { Seq::new((if self.start <= self.end { self.end - self.start } else { 0 }) as nat, |i: int| (self.start + i) as usize) }
    #[verifier::external_body]
    fn vp_into_par_iter(self) -> (it: ParIter<usize>) { unimplemented!() }
}
impl<X> ParIter<X> {
    #[verifier::external_body]
    pub fn enumerate(self) -> (r: ParIter<(usize, X)>)
        ensures r@.len() == self@.len(), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == (i as usize, self@[i]),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn rev(self) -> (r: ParIter<X>)
        ensures r@.len() == self@.len(), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == self@[self@.len() - 1 - i],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn with_min_len(self, n: usize) -> (r: ParIter<X>) ensures r@ == self@, { unimplemented!() }
    #[verifier::external_body]
    pub fn with_max_len(self, n: usize) -> (r: ParIter<X>) ensures r@ == self@, { unimplemented!() }
    #[verifier::external_body]
    pub fn vp_par_map<Y, F: Fn(X) -> Y>(self, f: F) -> (r: ParIter<Y>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],)),
        ensures r@.len() == self@.len(), forall|i: int| 0 <= i < r@.len() ==> f.ensures((self@[i],), #[trigger] r@[i]),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vp_par_map_collect<Y, F: Fn(X) -> Y>(self, f: F, Tracked(tr): Tracked<&mut Trace<X, Y>>) -> (r: Vec<Y>)
        requires
            fits::<Y>(self@.len() as int), //@C08,C16
            old(tr).log.len() == 0,
            forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],)),
        ensures r@.len() == self@.len(), forall|i: int| 0 <= i < r@.len() ==> f.ensures((self@[i],), #[trigger] r@[i]),
            logged(final(tr).log, call_log(self@, r@)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vp_par_collect(self) -> (r: Vec<X>)
        requires fits::<X>(self@.len() as int), //@C08,C16
        ensures r@ == self@,
    { unimplemented!() }
}
impl<'a, T> ParIter<&'a mut T> {
    #[verifier::external_body]
    pub fn vp_par_for_each<F: Fn(&mut T)>(self, f: F, Tracked(tr): Tracked<&mut Trace<T, T>>)
        requires old(tr).log.len() == 0, forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],)),
        ensures forall|i: int| 0 <= i < self@.len() ==> f.ensures((#[trigger] self@[i],), ()),
            forall|c: Seq<(T, T)>| c.len() == self@.len() && (forall|i: int| 0 <= i < c.len() ==> c[i] == (*(#[trigger] self@[i]), *final(self@[i]))) ==> #[trigger] logged(final(tr).log, c),
    { unimplemented!() }
}
