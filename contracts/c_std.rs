// ===================================================================
// Assumed contracts of the parts of std the crate's bodies use. The extractor
// maps the std call to the shim of the same name (DESIGN.md, rule table);
// every shim is `external_body`: trusted, never proved.
// ===================================================================

/// Two values of a zero-sized type are indistinguishable.
#[verifier::external_body]
pub proof fn axiom_zst<T>(a: Seq<T>, b: Seq<T>)
    requires size_of::<T>() == 0, a.len() == b.len(),
    ensures a == b,
{ }

/// what `clone()` of a caller-supplied type may return
pub open spec fn clone_of<T: Clone>(a: T, b: T) -> bool { call_ensures(T::clone, (&a,), b) }
/// what `default()` of a caller-supplied type may return
pub open spec fn default_of<T: Default>(b: T) -> bool { call_ensures(T::default, (), b) }

// ---------------------------------------------------------------- Vec

/// `Vec::with_capacity(n)`: panics or aborts unless n elements fit in isize::MAX bytes.
#[verifier::external_body]
pub fn vp_with_capacity<T>(n: usize) -> (r: Vec<T>)
    requires fits::<T>(n as int), //@C08
    ensures r@.len() == 0,
{ unimplemented!() }
/// the vector `collect()` builds: allocates for `n` elements
#[verifier::external_body]
pub fn vp_collect_vec<T>(n: Ghost<nat>) -> (r: Vec<T>)
    requires fits::<T>(n@ as int), //@C08
    ensures r@.len() == 0,
{ unimplemented!() }
/// `vec![x; n]`: n - 1 clones and the value itself
#[verifier::external_body]
pub fn vp_vec_repeat<T: Clone>(x: T, n: usize) -> (r: Vec<T>)
    requires fits::<T>(n as int), //@C08
    ensures r@.len() == n, forall|i: int| 0 <= i < n ==> clone_of(x, #[trigger] r@[i]) || r@[i] == x,
{ unimplemented!() }
#[verifier::external_body]
pub fn vp_vec_repeat_bool(x: bool, n: usize) -> (r: Vec<bool>)
    ensures r@ == Seq::new(n as nat, |i: int| x),
{ unimplemented!() }
/// `Vec::resize_with(n, T::default)`
#[verifier::external_body]
pub fn vp_resize_with_default<T: Default>(v: &mut Vec<T>, n: usize)
    requires fits::<T>(n as int), //@C08
    ensures final(v)@.len() == n,
        forall|i: int| 0 <= i < n && i < old(v)@.len() ==> #[trigger] final(v)@[i] == old(v)@[i],
        forall|i: int| old(v)@.len() <= i < n ==> default_of(#[trigger] final(v)@[i]),
{ unimplemented!() }
/// `<[T]>::swap(i, j)`: panics out of bounds
#[verifier::external_body]
pub fn vp_vec_swap<T>(v: &mut Vec<T>, i: usize, j: usize)
    requires i < old(v)@.len() && j < old(v)@.len(),
    ensures final(v)@ == old(v)@.update(i as int, old(v)@[j as int]).update(j as int, old(v)@[i as int]),
{ unimplemented!() }
/// `<[T]>::get_unchecked(lo..hi)`
#[verifier::external_body]
pub fn vp_get_unchecked_range<T>(v: &Vec<T>, lo: usize, hi: usize) -> (r: &[T])
    requires lo <= hi <= v@.len(), //@MEM
    ensures r@ == v@.subrange(lo as int, hi as int),
{ unimplemented!() }
#[verifier::external_body]
pub fn vp_get_unchecked_mut_range<T>(v: &mut Vec<T>, lo: usize, hi: usize) -> (r: &mut [T])
    requires lo <= hi <= old(v)@.len(), //@MEM
    ensures r@ == old(v)@.subrange(lo as int, hi as int), final(r)@.len() == hi - lo,
        final(v)@.len() == old(v)@.len(),
        forall|i: int| 0 <= i < old(v)@.len() ==> #[trigger] final(v)@[i] == (if lo <= i < hi { final(r)@[i - lo] } else { old(v)@[i] }),
{ unimplemented!() }
pub trait VpCloneFrom<T: Clone> {
    spec fn vp_cv(&self) -> Seq<T>;
    /// panics when the lengths differ
    fn vp_clone_from_slice(&mut self, src: &[T])
        requires old(self).vp_cv().len() == src@.len(),
        ensures final(self).vp_cv().len() == src@.len(),
            forall|i: int| 0 <= i < src@.len() ==> clone_of(src@[i], #[trigger] final(self).vp_cv()[i]);
}
impl<T: Clone> VpCloneFrom<T> for [T] {
    open spec fn vp_cv(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vp_clone_from_slice(&mut self, src: &[T]) { unimplemented!() }
}
/// `Vec::clone_from`: truncates to the source's length, then `clone_from`s / clones element by element (either way a clone of the source's)
#[verifier::external_body]
pub fn vp_vec_clone_from<T: Clone>(v: &mut Vec<T>, src: &Vec<T>)
    ensures final(v)@.len() == src@.len(),
        forall|i: int| 0 <= i < src@.len() ==> vstd::pervasive::cloned(src@[i], #[trigger] final(v)@[i]),
{ unimplemented!() }
/// `Vec == Vec`: pairwise `==` of equally long vectors
#[verifier::external_body]
pub fn vp_vec_eq<L: PartialEq<R>, R>(a: &Vec<L>, b: &Vec<R>) -> (r: bool)
    ensures
        r ==> a@.len() == b@.len() && forall|i: int| 0 <= i < a@.len() ==> eq_rel(#[trigger] a@[i], b@[i], true),
        !r ==> a@.len() != b@.len() || exists|i: int| 0 <= i < a@.len() && eq_rel(#[trigger] a@[i], b@[i], false),
{ unimplemented!() }
/// what `a == b` of caller-supplied types may give
pub open spec fn eq_rel<L: PartialEq<R>, R>(a: L, b: R, r: bool) -> bool { call_ensures(<L as PartialEq<R>>::eq, (&a, &b), r) }
pub mod vpe {
use vstd::prelude::*;
/// `&a == &b` is `a == b` (std's impl of PartialEq for references)
#[verifier::external_body]
pub broadcast proof fn axiom_ref_eq<L: PartialEq<R>, R>(a: &&L, b: &&R, r: bool)
    requires #[trigger] call_ensures(<&L as PartialEq<&R>>::eq, (a, b), r),
    ensures call_ensures(<L as PartialEq<R>>::eq, (*a, *b), r),
{ }
} // mod vpe

// ---------------------------------------------------------------- raw pointers
// A raw pointer into a vector's buffer is its offset from the start and the
// number of elements of that buffer; forming one outside the buffer (one past
// the end included as the last legal one) is a proof obligation.

#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VpPtr<T> { p: *mut T }
impl<T> VpPtr<T> {
    /// points into an allocation (else it is only an address)
    pub uninterp spec fn prov(&self) -> bool;
    /// offset in elements from the start of that allocation; the address without one
    pub uninterp spec fn off(&self) -> int;
    pub uninterp spec fn len(&self) -> int;
    pub uninterp spec fn base(&self) -> int;
    /// suitably aligned for T
    pub uninterp spec fn aligned(&self) -> bool;
    pub open spec fn addr_of(&self) -> int { if self.prov() { self.base() + self.off() * size_of::<T>() } else { self.off() } }
    /// the allocation exists: it does not wrap around the address space
    pub open spec fn alloc_ok(&self) -> bool { self.prov() ==> self.base() > 0 && self.len() >= 0 && self.base() + self.len() * size_of::<T>() <= usize::MAX && self.len() * size_of::<T>() <= isize::MAX }
    #[verifier::external_body]
    pub fn add(self, n: usize) -> (r: VpPtr<T>)
        requires self.prov() && 0 <= self.off() + n <= self.len(), //@MEM
        ensures r.prov(), r.off() == self.off() + n, r.len() == self.len(), r.base() == self.base(), r.aligned() == self.aligned(),
    { unimplemented!() }
}
impl<T> Clone for VpPtr<T> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl<T> Copy for VpPtr<T> {}
#[verifier::external_body]
pub fn vp_as_mut_ptr<T>(v: &Vec<T>) -> (r: VpPtr<T>)
    ensures r.prov(), r.off() == 0, r.len() == v@.len(), r.alloc_ok(), r.aligned(),
{ unimplemented!() }
/// `ptr::without_provenance_mut`
#[verifier::external_body]
pub fn without_provenance_mut<T>(addr: usize) -> (r: VpPtr<T>)
    ensures !r.prov(), r.off() == addr,
{ unimplemented!() }
/// `ptr::swap` on two positions of `v`
#[verifier::external_body]
pub fn vp_ptr_swap<T>(v: &mut Vec<T>, x: VpPtr<T>, y: VpPtr<T>)
    requires x.len() == old(v)@.len(), y.len() == old(v)@.len(), 0 <= x.off() < old(v)@.len(), 0 <= y.off() < old(v)@.len(), //@MEM
    ensures final(v)@ == old(v)@.update(x.off(), old(v)@[y.off()]).update(y.off(), old(v)@[x.off()]),
{ unimplemented!() }
/// `ptr::swap_nonoverlapping`: the ranges must be in bounds and disjoint
#[verifier::external_body]
pub fn vp_ptr_swap_nonoverlapping<T>(v: &mut Vec<T>, x: VpPtr<T>, y: VpPtr<T>, n: usize)
    requires x.len() == old(v)@.len(), y.len() == old(v)@.len(), //@MEM
        0 <= x.off() && x.off() + n <= old(v)@.len() && 0 <= y.off() && y.off() + n <= old(v)@.len(), //@MEM
        x.off() + n <= y.off() || y.off() + n <= x.off() || n == 0, //@MEM
    ensures final(v)@.len() == old(v)@.len(),
        forall|i: int| 0 <= i < old(v)@.len() ==> #[trigger] final(v)@[i] ==
            (if x.off() <= i < x.off() + n { old(v)@[i - x.off() + y.off()] } else if y.off() <= i < y.off() + n { old(v)@[i - y.off() + x.off()] } else { old(v)@[i] }),
{ unimplemented!() }

pub mod cmp {
    use super::*;
    pub fn min(a: usize, b: usize) -> (r: usize)
        ensures r == if a <= b { a } else { b },
    { if a <= b { a } else { b } }
    pub fn max(a: usize, b: usize) -> (r: usize)
        ensures r == if a <= b { b } else { a },
    { if a <= b { b } else { a } }
}
/// a vector never holds more than isize::MAX bytes
#[verifier::external_body]
pub proof fn axiom_vec_fits<T>(v: Vec<T>)
    ensures fits::<T>(v@.len() as int), v@.len() <= usize::MAX,
{ }
#[verifier::external_body]
pub proof fn axiom_size_bool()
    ensures size_of::<bool>() == 1,
{ }
pub assume_specification<T> [ core::hint::black_box ] (x: T) -> (r: T)
    ensures r == x,
;
pub assume_specification<T: PartialEq> [ <[T]>::contains ] (v: &[T], x: &T) -> (r: bool)
    ensures
        r ==> exists|i: int| 0 <= i < v@.len() && eq_rel(#[trigger] v@[i], *x, true),
        !r ==> forall|i: int| 0 <= i < v@.len() ==> eq_rel(#[trigger] v@[i], *x, false);
#[verifier::external_body]
pub fn vp_size_of<T>() -> (r: usize)
    ensures r == size_of::<T>(),
{ core::mem::size_of::<T>() }
#[verifier::external_body]
pub fn vp_align_of<T>() -> (r: usize)
    ensures r == align_of::<T>(), r >= 1,
{ core::mem::align_of::<T>() }
