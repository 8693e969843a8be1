// ===================================================================
// Arithmetic (C11, C12, C18)
// ===================================================================
impl<T> Matrix<T> {
    /// logical row / column of the element stored at memory position `i`
    pub open spec fn row_of(&self, i: int) -> int { if self.order == Order::RowMajor { i / (self.shape.minor as int) } else { i % (self.shape.minor as int) } }
    pub open spec fn col_of(&self, i: int) -> int { if self.order == Order::RowMajor { i % (self.shape.minor as int) } else { i / (self.shape.minor as int) } }
    pub open spec fn row_seq(&self, r: int) -> Seq<T> { Seq::new(self.nc() as nat, |c: int| self.at(r, c)) }
    pub open spec fn col_seq(&self, c: int) -> Seq<T> { Seq::new(self.nr() as nat, |r: int| self.at(r, c)) }
}
/// C12: same logical shape
pub open spec fn conf<L, R>(a: Matrix<L>, b: Matrix<R>) -> bool { a.nr() == b.nr() && a.nc() == b.nc() }
/// the element of `b` at the logical position of `a`'s i-th stored element
pub open spec fn peer<L, R>(a: Matrix<L>, b: Matrix<R>, i: int) -> R { b.at(a.row_of(i), a.col_of(i)) }

pub proof fn lemma_rowcol<L>(a: Matrix<L>, i: int)
    requires a.coh(), 0 <= i < a.data@.len(),
    ensures a.inlog(a.row_of(i), a.col_of(i)), a.pos(a.row_of(i), a.col_of(i)) == i, a.shape.minor > 0, a.shape.major > 0,
{
    lemma_divmod(i, a.shape.major as int, a.shape.minor as int);
}
pub proof fn lemma_pos_rowcol<L>(a: Matrix<L>, r: int, c: int)
    requires a.coh(), a.inlog(r, c),
    ensures 0 <= a.pos(r, c) < a.data@.len(), a.row_of(a.pos(r, c)) == r, a.col_of(a.pos(r, c)) == c,
{
    if a.order == Order::RowMajor {
        lemma_pos_bound(r, c, a.shape.major as int, a.shape.minor as int);
        lemma_pos_divmod(r, c, a.shape.minor as int);
    } else {
        lemma_pos_bound(c, r, a.shape.major as int, a.shape.minor as int);
        lemma_pos_divmod(c, r, a.shape.minor as int);
    }
}
/// where the peer is stored
pub proof fn lemma_peer<L, R>(a: Matrix<L>, b: Matrix<R>, i: int)
    requires a.coh(), b.coh(), conf(a, b), 0 <= i < a.data@.len(),
    ensures
        a.data@.len() == b.data@.len(), a.shape.minor > 0,
        a.order == b.order ==> b.pos(a.row_of(i), a.col_of(i)) == i && peer(a, b, i) == b.data@[i],
        0 <= i / (a.shape.minor as int) < a.shape.major, 0 <= i % (a.shape.minor as int) < a.shape.minor,
        a.order != b.order ==> {
            let p = AxisIndex { major: (i % (a.shape.minor as int)) as usize, minor: (i / (a.shape.minor as int)) as usize };
            inside(b.shape, p) && 0 <= flat(b.shape, p) < b.data@.len() && peer(a, b, i) == b.data@[flat(b.shape, p)]
        },
{
    lemma_divmod(i, a.shape.major as int, a.shape.minor as int);
    lemma_conf_len(a, b);
    if a.order != b.order {
        lemma_pos_bound(i % (a.shape.minor as int), i / (a.shape.minor as int), b.shape.major as int, b.shape.minor as int);
    }
}
pub proof fn lemma_conf_len<L, R>(a: Matrix<L>, b: Matrix<R>)
    requires a.coh(), b.coh(), conf(a, b),
    ensures a.data@.len() == b.data@.len(),
{
    assert(a.shape.major * a.shape.minor == a.shape.minor * a.shape.major) by (nonlinear_arith);
}

// ---------------------------------------------------------------- operators of the element types
// `x op y` of a caller-supplied type is the relation Verus gives every trait method.

pub open spec fn add_of<L: core::ops::Add<R, Output = U>, R, U>(a: L, b: R, u: U) -> bool { call_ensures(<L as core::ops::Add<R>>::add, (a, b), u) }
pub open spec fn sub_of<L: core::ops::Sub<R, Output = U>, R, U>(a: L, b: R, u: U) -> bool { call_ensures(<L as core::ops::Sub<R>>::sub, (a, b), u) }
pub open spec fn mul_of<L: core::ops::Mul<R, Output = U>, R, U>(a: L, b: R, u: U) -> bool { call_ensures(<L as core::ops::Mul<R>>::mul, (a, b), u) }
pub open spec fn div_of<L: core::ops::Div<R, Output = U>, R, U>(a: L, b: R, u: U) -> bool { call_ensures(<L as core::ops::Div<R>>::div, (a, b), u) }
pub open spec fn rem_of<L: core::ops::Rem<R, Output = U>, R, U>(a: L, b: R, u: U) -> bool { call_ensures(<L as core::ops::Rem<R>>::rem, (a, b), u) }
pub open spec fn neg_of<T: core::ops::Neg<Output = U>, U>(a: T, u: U) -> bool { call_ensures(<T as core::ops::Neg>::neg, (a,), u) }
/// the operands of `x add y`, cloned when they are borrowed
pub open spec fn add_cc<L: core::ops::Add<R, Output = U> + Clone, R: Clone, U>(a: L, b: R, u: U) -> bool { exists|x: L, y: R| clone_of(a, x) && clone_of(b, y) && #[trigger] call_ensures(<L as core::ops::Add<R>>::add, (x, y), u) }
pub open spec fn add_c<L: core::ops::Add<R, Output = U>, R: Clone, U>(a: L, b: R, u: U) -> bool { exists|y: R| clone_of(b, y) && #[trigger] call_ensures(<L as core::ops::Add<R>>::add, (a, y), u) }
/// `*x add= y`
pub uninterp spec fn add_assign_of<L: core::ops::AddAssign<R>, R>(a: L, b: R, z: L) -> bool;
pub open spec fn add_assign_c<L: core::ops::AddAssign<R>, R: Clone>(a: L, b: R, z: L) -> bool { exists|y: R| clone_of(b, y) && #[trigger] add_assign_of(a, y, z) }
#[verifier::external_body]
pub fn vp_add_assign<L: core::ops::AddAssign<R>, R>(x: &mut L, y: R)
    ensures add_assign_of(*old(x), y, *final(x)),
{ unimplemented!() }
/// the operands of `x sub y`, cloned when they are borrowed
pub open spec fn sub_cc<L: core::ops::Sub<R, Output = U> + Clone, R: Clone, U>(a: L, b: R, u: U) -> bool { exists|x: L, y: R| clone_of(a, x) && clone_of(b, y) && #[trigger] call_ensures(<L as core::ops::Sub<R>>::sub, (x, y), u) }
pub open spec fn sub_c<L: core::ops::Sub<R, Output = U>, R: Clone, U>(a: L, b: R, u: U) -> bool { exists|y: R| clone_of(b, y) && #[trigger] call_ensures(<L as core::ops::Sub<R>>::sub, (a, y), u) }
/// `*x sub= y`
pub uninterp spec fn sub_assign_of<L: core::ops::SubAssign<R>, R>(a: L, b: R, z: L) -> bool;
pub open spec fn sub_assign_c<L: core::ops::SubAssign<R>, R: Clone>(a: L, b: R, z: L) -> bool { exists|y: R| clone_of(b, y) && #[trigger] sub_assign_of(a, y, z) }
#[verifier::external_body]
pub fn vp_sub_assign<L: core::ops::SubAssign<R>, R>(x: &mut L, y: R)
    ensures sub_assign_of(*old(x), y, *final(x)),
{ unimplemented!() }
/// the operands of `x mul y`, cloned when they are borrowed
pub open spec fn mul_cc<L: core::ops::Mul<R, Output = U> + Clone, R: Clone, U>(a: L, b: R, u: U) -> bool { exists|x: L, y: R| clone_of(a, x) && clone_of(b, y) && #[trigger] call_ensures(<L as core::ops::Mul<R>>::mul, (x, y), u) }
pub open spec fn mul_c<L: core::ops::Mul<R, Output = U>, R: Clone, U>(a: L, b: R, u: U) -> bool { exists|y: R| clone_of(b, y) && #[trigger] call_ensures(<L as core::ops::Mul<R>>::mul, (a, y), u) }
/// `*x mul= y`
pub uninterp spec fn mul_assign_of<L: core::ops::MulAssign<R>, R>(a: L, b: R, z: L) -> bool;
pub open spec fn mul_assign_c<L: core::ops::MulAssign<R>, R: Clone>(a: L, b: R, z: L) -> bool { exists|y: R| clone_of(b, y) && #[trigger] mul_assign_of(a, y, z) }
#[verifier::external_body]
pub fn vp_mul_assign<L: core::ops::MulAssign<R>, R>(x: &mut L, y: R)
    ensures mul_assign_of(*old(x), y, *final(x)),
{ unimplemented!() }
/// the operands of `x div y`, cloned when they are borrowed
pub open spec fn div_cc<L: core::ops::Div<R, Output = U> + Clone, R: Clone, U>(a: L, b: R, u: U) -> bool { exists|x: L, y: R| clone_of(a, x) && clone_of(b, y) && #[trigger] call_ensures(<L as core::ops::Div<R>>::div, (x, y), u) }
pub open spec fn div_c<L: core::ops::Div<R, Output = U>, R: Clone, U>(a: L, b: R, u: U) -> bool { exists|y: R| clone_of(b, y) && #[trigger] call_ensures(<L as core::ops::Div<R>>::div, (a, y), u) }
/// `*x div= y`
pub uninterp spec fn div_assign_of<L: core::ops::DivAssign<R>, R>(a: L, b: R, z: L) -> bool;
pub open spec fn div_assign_c<L: core::ops::DivAssign<R>, R: Clone>(a: L, b: R, z: L) -> bool { exists|y: R| clone_of(b, y) && #[trigger] div_assign_of(a, y, z) }
#[verifier::external_body]
pub fn vp_div_assign<L: core::ops::DivAssign<R>, R>(x: &mut L, y: R)
    ensures div_assign_of(*old(x), y, *final(x)),
{ unimplemented!() }
/// the operands of `x rem y`, cloned when they are borrowed
pub open spec fn rem_cc<L: core::ops::Rem<R, Output = U> + Clone, R: Clone, U>(a: L, b: R, u: U) -> bool { exists|x: L, y: R| clone_of(a, x) && clone_of(b, y) && #[trigger] call_ensures(<L as core::ops::Rem<R>>::rem, (x, y), u) }
pub open spec fn rem_c<L: core::ops::Rem<R, Output = U>, R: Clone, U>(a: L, b: R, u: U) -> bool { exists|y: R| clone_of(b, y) && #[trigger] call_ensures(<L as core::ops::Rem<R>>::rem, (a, y), u) }
/// `*x rem= y`
pub uninterp spec fn rem_assign_of<L: core::ops::RemAssign<R>, R>(a: L, b: R, z: L) -> bool;
pub open spec fn rem_assign_c<L: core::ops::RemAssign<R>, R: Clone>(a: L, b: R, z: L) -> bool { exists|y: R| clone_of(b, y) && #[trigger] rem_assign_of(a, y, z) }
#[verifier::external_body]
pub fn vp_rem_assign<L: core::ops::RemAssign<R>, R>(x: &mut L, y: R)
    ensures rem_assign_of(*old(x), y, *final(x)),
{ unimplemented!() }
/// `unwrap_unchecked`: undefined behaviour on None
pub trait VpUnwrap<X>: Sized {
    spec fn vp_opt(self) -> Option<X>;
    unsafe fn vp_unwrap_unchecked(self) -> (r: X)
        requires self.vp_opt() is Some, //@MEM
        ensures Some(r) == self.vp_opt();
}
impl<X> VpUnwrap<X> for Option<X> {
    open spec fn vp_opt(self) -> Option<X> { self }
    #[verifier::external_body]
    unsafe fn vp_unwrap_unchecked(self) -> (r: X) { unimplemented!() }
}

// ---------------------------------------------------------------- C11
/// `u` is l[0]*r[0] + ... + l[n-1]*r[n-1], every factor cloned, the left one from `l`
pub open spec fn dot_of<L: core::ops::Mul<R, Output = U> + Clone, R: Clone, U: core::ops::Add<Output = U>>(l: Seq<L>, r: Seq<R>, n: int, u: U) -> bool
    decreases n
{
    if n <= 1 { n == 1 && mul_cc(l[0], r[0], u) } else {
        exists|p: U, q: U| dot_of(l, r, n - 1, p) && mul_cc(l[n - 1], r[n - 1], q) && #[trigger] call_ensures(<U as core::ops::Add<U>>::add, (p, q), u)
    }
}
pub open spec fn mul_shape_ok<L, R, U>(a: Matrix<L>, b: Matrix<R>, z: Matrix<U>) -> bool {
    a.nc() == b.nr() && z.order == a.order && z.nr() == a.nr() && z.nc() == b.nc() && z.coh() && fits::<U>(a.nr() * b.nc())
}
pub open spec fn mul_err<L, R, U>(a: Matrix<L>, b: Matrix<R>, e: Error) -> bool {
    if a.nc() != b.nr() { e == Error::ShapeNotConformable } else if a.nr() * b.nc() > usize::MAX { e == Error::SizeOverflow } else { e == Error::CapacityOverflow && !fits::<U>(a.nr() * b.nc()) }
}
/// C11: the textbook product
pub open spec fn product_of<L: core::ops::Mul<R, Output = U> + Clone, R: Clone, U: core::ops::Add<Output = U> + Default>(a: Matrix<L>, b: Matrix<R>, z: Matrix<U>) -> bool {
    &&& mul_shape_ok(a, b, z)
    &&& a.nc() == 0 ==> forall|i: int| 0 <= i < z.data@.len() ==> default_of(#[trigger] z.data@[i])
    &&& a.nc() > 0 ==> forall|i: int| 0 <= i < z.data@.len() ==> dot_of(a.row_seq(z.row_of(i)), b.col_seq(z.col_of(i)), a.nc(), #[trigger] z.data@[i])
}
/// rows are contiguous once the matrix is row-major
pub proof fn lemma_row_slices<T>(a: Matrix<T>, z: Matrix<T>)
    requires a.coh(), z.coh(), z.order == Order::RowMajor,
        a.order == Order::RowMajor ==> z.shape == a.shape && z.data@ == a.data@,
        a.order != Order::RowMajor ==> z.shape == a.shape.swapped() && transposed_of(a.data@, z.data@, a.shape.major as int, a.shape.minor as int),
    ensures forall|r: int| 0 <= r < a.nr() ==> 0 <= #[trigger] vec_lo(r, z.shape.minor as int) && vec_lo(r, z.shape.minor as int) + z.shape.minor <= z.data@.len()
        && z.data@.subrange(vec_lo(r, z.shape.minor as int), vec_lo(r, z.shape.minor as int) + z.shape.minor) == a.row_seq(r),
{
    let mi = z.shape.minor as int;
    if a.order != Order::RowMajor { lemma_transposed_at(a.data@, z.data@, a.shape.major as int, a.shape.minor as int); }
    assert forall|r: int| 0 <= r < a.nr() implies 0 <= #[trigger] vec_lo(r, mi) && vec_lo(r, mi) + mi <= z.data@.len() && z.data@.subrange(vec_lo(r, mi), vec_lo(r, mi) + mi) == a.row_seq(r) by {
        assert(0 <= r * mi && r * mi + mi <= z.shape.major * mi) by (nonlinear_arith) requires 0 <= r, r + 1 <= z.shape.major, mi >= 0;
        let s = z.data@.subrange(vec_lo(r, mi), vec_lo(r, mi) + mi);
        assert forall|c: int| 0 <= c < mi implies s[c] == a.row_seq(r)[c] by {
            if a.order != Order::RowMajor { assert(z.data@[tr_pos(r, c, a.shape.major as int)] == a.data@[tr_pos(c, r, a.shape.minor as int)]); }
        }
        assert(s =~= a.row_seq(r));
    }
}
pub proof fn lemma_col_slices<T>(a: Matrix<T>, z: Matrix<T>)
    requires a.coh(), z.coh(), z.order == Order::ColMajor,
        a.order == Order::ColMajor ==> z.shape == a.shape && z.data@ == a.data@,
        a.order != Order::ColMajor ==> z.shape == a.shape.swapped() && transposed_of(a.data@, z.data@, a.shape.major as int, a.shape.minor as int),
    ensures forall|r: int| 0 <= r < a.nc() ==> 0 <= #[trigger] vec_lo(r, z.shape.minor as int) && vec_lo(r, z.shape.minor as int) + z.shape.minor <= z.data@.len()
        && z.data@.subrange(vec_lo(r, z.shape.minor as int), vec_lo(r, z.shape.minor as int) + z.shape.minor) == a.col_seq(r),
{
    let mi = z.shape.minor as int;
    if a.order != Order::ColMajor { lemma_transposed_at(a.data@, z.data@, a.shape.major as int, a.shape.minor as int); }
    assert forall|r: int| 0 <= r < a.nc() implies 0 <= #[trigger] vec_lo(r, mi) && vec_lo(r, mi) + mi <= z.data@.len() && z.data@.subrange(vec_lo(r, mi), vec_lo(r, mi) + mi) == a.col_seq(r) by {
        assert(0 <= r * mi && r * mi + mi <= z.shape.major * mi) by (nonlinear_arith) requires 0 <= r, r + 1 <= z.shape.major, mi >= 0;
        let s = z.data@.subrange(vec_lo(r, mi), vec_lo(r, mi) + mi);
        assert forall|c: int| 0 <= c < mi implies s[c] == a.col_seq(r)[c] by {
            if a.order != Order::ColMajor { assert(z.data@[tr_pos(r, c, a.shape.major as int)] == a.data@[tr_pos(c, r, a.shape.minor as int)]); }
        }
        assert(s =~= a.col_seq(r));
    }
}
pub open spec fn vec_lo(r: int, mi: int) -> int { r * mi }
pub open spec fn row_at(o: Order, s: AxisShape, i: int) -> int { if o == Order::RowMajor { i / (s.minor as int) } else { i % (s.minor as int) } }
pub open spec fn col_at(o: Order, s: AxisShape, i: int) -> int { if o == Order::RowMajor { i % (s.minor as int) } else { i / (s.minor as int) } }
pub proof fn vp_touch(x: int) { }
/// `#[derive(Clone)]`: the same shape and order, every element cloned (`Vec::clone` may copy the elements of a `Copy` type)
pub open spec fn vp_clone_of_Matrix<T: Clone>(a: Matrix<T>, b: Matrix<T>) -> bool {
    &&& b.order == a.order && b.shape == a.shape && b.data@.len() == a.data@.len()
    &&& forall|i: int| 0 <= i < a.data@.len() ==> vstd::pervasive::cloned(#[trigger] a.data@[i], b.data@[i])
}
/// C12: the result of an elementwise operator has the left operand's shape and order
pub open spec fn ew_shape<L, R, U>(a: Matrix<L>, b: Matrix<R>, z: Matrix<U>) -> bool {
    conf(a, b) && z.order == a.order && z.shape == a.shape && z.data@.len() == a.data@.len() && z.coh() && fits::<U>(a.data@.len() as int)
}
pub open spec fn ew_err<L, R, U>(a: Matrix<L>, b: Matrix<R>, e: Error) -> bool {
    if !conf(a, b) { e == Error::ShapeNotConformable } else { e == Error::CapacityOverflow && !fits::<U>(a.data@.len() as int) }
}
pub open spec fn neg_c<T: core::ops::Neg<Output = U> + Clone, U>(a: T, u: U) -> bool { exists|x: T| clone_of(a, x) && #[trigger] call_ensures(<T as core::ops::Neg>::neg, (x,), u) }
