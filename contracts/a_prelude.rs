// ===================================================================
// Vocabulary of the contracts (spec functions over the real types) and
// assumed contracts of std. Everything `external_body` / `assume_specification`
// / `axiom` in this file is part of the trusted base and is listed in evidence.
// ===================================================================
use core::ops::{Add, AddAssign, Sub, SubAssign, Mul, MulAssign, Div, DivAssign, Rem, RemAssign, Neg};
use vstd::layout::*;
use vstd::arithmetic::mul::*;
use vstd::arithmetic::div_mod::*;
use core::marker::PhantomData;
use std::collections::VecDeque;

// ---------------------------------------------------------------- matrices

impl AxisShape {
    pub open spec fn sz(self) -> int { self.major * self.minor }
    pub open spec fn nr(self, o: Order) -> int { if o == Order::RowMajor { self.major as int } else { self.minor as int } }
    pub open spec fn nc(self, o: Order) -> int { if o == Order::RowMajor { self.minor as int } else { self.major as int } }
    pub open spec fn swapped(self) -> AxisShape { AxisShape { major: self.minor, minor: self.major } }
}

pub open spec fn other(o: Order) -> Order { if o == Order::RowMajor { Order::ColMajor } else { Order::RowMajor } }

/// The axis position of logical (r, c).
pub open spec fn axis_of(o: Order, r: usize, c: usize) -> AxisIndex {
    if o == Order::RowMajor { AxisIndex { major: r, minor: c } } else { AxisIndex { major: c, minor: r } }
}
pub open spec fn inside(s: AxisShape, p: AxisIndex) -> bool { p.major < s.major && p.minor < s.minor }
pub open spec fn inb(s: AxisShape, p: AxisIndex) -> Option<AxisIndex> { if inside(s, p) { Some(p) } else { None } }
pub open spec fn flat(s: AxisShape, p: AxisIndex) -> int { p.major * s.minor + p.minor }
/// memory position of logical (r, c)
pub open spec fn lpos(o: Order, s: AxisShape, r: int, c: int) -> int {
    if o == Order::RowMajor { r * s.minor + c } else { c * s.minor + r }
}
pub open spec fn shape_of(o: Order, r: usize, c: usize) -> AxisShape {
    if o == Order::RowMajor { AxisShape { major: r, minor: c } } else { AxisShape { major: c, minor: r } }
}
pub use vpl::fits;

impl<T> Matrix<T> {
    /// C01: the shape describes exactly the stored elements.
    pub open spec fn coh(&self) -> bool {
        self.shape.sz() == self.data@.len() && self.data@.len() <= usize::MAX
    }
    pub open spec fn nr(&self) -> int { self.shape.nr(self.order) }
    pub open spec fn nc(&self) -> int { self.shape.nc(self.order) }
    pub open spec fn pos(&self, r: int, c: int) -> int { lpos(self.order, self.shape, r, c) }
    pub open spec fn at(&self, r: int, c: int) -> T { self.data@[self.pos(r, c)] }
    pub open spec fn inlog(&self, r: int, c: int) -> bool { 0 <= r < self.nr() && 0 <= c < self.nc() }
}

pub proof fn lemma_pos_bound(a: int, b: int, ma: int, mi: int)
    requires 0 <= a < ma, 0 <= b < mi,
    ensures 0 <= a * mi + b < ma * mi, 0 <= a * mi, a * mi + mi <= ma * mi,
{
    assert(a * mi + mi <= ma * mi) by (nonlinear_arith) requires a + 1 <= ma, mi > 0;
    assert(0 <= a * mi) by (nonlinear_arith) requires 0 <= a, mi > 0;
}
pub proof fn lemma_pos_unique(a: int, b: int, c: int, d: int, mi: int)
    requires 0 <= b < mi, 0 <= d < mi, a * mi + b == c * mi + d,
    ensures a == c, b == d,
{
    assert(a == c) by (nonlinear_arith) requires 0 <= b < mi, 0 <= d < mi, a * mi + b == c * mi + d;
}
pub proof fn lemma_pos_divmod(a: int, b: int, mi: int)
    requires 0 <= b < mi, 0 <= a,
    ensures (a * mi + b) / mi == a, (a * mi + b) % mi == b,
{
    lemma_fundamental_div_mod_converse(a * mi + b, mi, a, b);
}
pub proof fn lemma_divmod(i: int, ma: int, mi: int)
    requires 0 <= i < ma * mi, 0 <= mi, 0 <= ma,
    ensures mi > 0, 0 <= i / mi < ma, 0 <= i % mi < mi, (i / mi) * mi + i % mi == i,
{
    if mi == 0 { assert(ma * mi == 0) by (nonlinear_arith) requires mi == 0; }
    lemma_fundamental_div_mod(i, mi);
    assert(mi * (i / mi) == (i / mi) * mi) by (nonlinear_arith);
    assert(0 <= i / mi) by (nonlinear_arith) requires i >= 0, mi > 0;
    let q = i / mi;
    let r = i % mi;
    assert(q < ma) by (nonlinear_arith) requires q * mi + r < ma * mi, r >= 0, mi > 0;
}
/// positions stay inside the store
pub proof fn lemma_flat(s: AxisShape, p: AxisIndex)
    requires inside(s, p), s.sz() <= usize::MAX,
    ensures 0 <= flat(s, p) < s.sz(), p.major * s.minor <= usize::MAX, p.minor * 1 == p.minor,
{
    lemma_pos_bound(p.major as int, p.minor as int, s.major as int, s.minor as int);
}

// ---------------------------------------------------------------- panics

/// The code panics here; the extractor puts `assert(<panics_when>)` before it.
#[verifier::external_body]
pub fn vp_panic() -> ! { panic!() }

pub open spec fn vp_panic_safe_truncate(s: AxisShape, len: nat, n: nat) -> bool {
    // Vec::truncate/clear set the length before dropping: the matrix a
    // panicking Drop leaves behind has min(len, n) elements.
    s.sz() == (if n < len { n } else { len })
}
pub open spec fn vp_panic_safe_resize(s: AxisShape, len: nat, n: nat) -> bool {
    // growing runs caller code after every single element
    if n <= len { s.sz() == n } else { false }
}

// ---------------------------------------------------------------- std

pub assume_specification [ isize::unsigned_abs ] (x: isize) -> (r: usize)
    ensures r == (if x < 0 { -x } else { x as int });

// ---------------------------------------------------------------- C13

pub open spec fn wrap_of(o: Order, s: AxisShape, w: WrappingIndex) -> AxisIndex {
    // `%` on int is the Euclidean (non-negative) remainder
    axis_of(o, (w.row as int % s.nr(o)) as usize, (w.col as int % s.nc(o)) as usize)
}
/// quotient and remainder, in the forms code may use them
pub proof fn lemma_quot(a: int, n: int)
    ensures n > 0 ==> a == (a / n) * n + a % n && (a / n) * n == n * (a / n) && 0 <= a % n < n && (a >= 0 ==> 0 <= a / n <= a && 0 <= (a / n) * n <= a),
{
    if n > 0 {
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a, n);
        lemma_mod_bound(a, n);
        assert((a / n) * n == n * (a / n)) by (nonlinear_arith);
        if a >= 0 { assert(0 <= a / n <= a && 0 <= (a / n) * n) by (nonlinear_arith) requires n > 0, a >= 0, a == n * (a / n) + a % n, 0 <= a % n < n; }
    }
}
pub proof fn lemma_wrap(a: int, n: int)
    requires n > 0,
    ensures 0 <= a % n < n, a <= 0 ==> (n - (-a) % n) % n == a % n,
        a <= 0 ==> 0 <= (-a) % n < n && (if (-a) % n == 0 { a % n == 0 } else { a % n == n - (-a) % n }),
{
    lemma_mod_bound(a, n);
    if a <= 0 {
        lemma_fundamental_div_mod(-a, n);
        lemma_mod_bound(-a, n);
        let q = (-a) / n;
        let r = (-a) % n;
        // a == -q*n - r == (-q-1)*n + (n-r)
        assert(n * q == q * n) by (nonlinear_arith);
        assert((-q - 1) * n == -(q * n) - n) by (nonlinear_arith);
        lemma_mod_multiples_vanish(-q - 1, n - r, n);
        assert(n * (-q - 1) == (-q - 1) * n) by (nonlinear_arith);
        if r == 0 {
            vstd::arithmetic::div_mod::lemma_mod_multiples_basic(-q, n);
            assert(a == (-q) * n) by (nonlinear_arith) requires -a == q * n;
            vstd::arithmetic::div_mod::lemma_mod_self_0(n);
        } else {
            vstd::arithmetic::div_mod::lemma_small_mod((n - r) as nat, n as nat);
        }
    }
}

// ---------------------------------------------------------------- slices and vectors (unchecked access)

pub trait VpSlice<T> {
    spec fn vp_view(&self) -> Seq<T>;
}
impl<T> VpSlice<T> for Vec<T> { open spec fn vp_view(&self) -> Seq<T> { self@ } }
impl<T> VpSlice<T> for [T] { open spec fn vp_view(&self) -> Seq<T> { self@ } }

/// `<[T]>::get_unchecked`: the bound is a proof obligation at every call.
#[verifier::external_body]
pub fn vp_get_unchecked<T>(v: &Vec<T>, i: usize) -> (r: &T)
    requires i < v@.len(), //@MEM
    ensures *r == v@[i as int],
{ unimplemented!() }
#[verifier::external_body]
pub fn vp_get_unchecked_mut<T>(v: &mut Vec<T>, i: usize) -> (r: &mut T)
    requires i < old(v)@.len(), //@MEM
    ensures *r == old(v)@[i as int], final(v)@ == old(v)@.update(i as int, *final(r)),
{ unimplemented!() }
pub assume_specification<T, A: std::alloc::Allocator> [ Vec::<T, A>::capacity ] (v: &Vec<T, A>) -> (r: usize)
    ensures r >= v@.len();
pub assume_specification<T, A: std::alloc::Allocator> [ Vec::<T, A>::shrink_to_fit ] (v: &mut Vec<T, A>)
    ensures final(v)@ == old(v)@;
pub assume_specification<T, A: std::alloc::Allocator> [ Vec::<T, A>::shrink_to ] (v: &mut Vec<T, A>, n: usize)
    ensures final(v)@ == old(v)@;
