/// what reading row() and col() of `i` once each may give
pub open spec fn reach<I: AsIndex>(i: I, o: Order, p: AxisIndex) -> bool {
    exists|r: usize, c: usize| #[trigger] i.vp_row(r) && #[trigger] i.vp_col(c) && p == axis_of(o, r, c)
}
pub proof fn lemma_res_all<T, I: AsIndex>(i: I, m: Matrix<T>)
    ensures forall|p: AxisIndex| #[trigger] reach(i, m.order, p) ==> i.vp_res(m, inb(m.shape, p)),
{
}
pub proof fn lemma_sz_zero(s: AxisShape)
    ensures s.sz() == 0 <==> (s.major == 0 || s.minor == 0), s.sz() >= 0,
{
    assert(s.sz() == 0 <==> (s.major == 0 || s.minor == 0)) by (nonlinear_arith) requires s.sz() == s.major * s.minor, s.major >= 0, s.minor >= 0;
    assert(s.sz() >= 0) by (nonlinear_arith) requires s.sz() == s.major * s.minor, s.major >= 0, s.minor >= 0;
}
pub proof fn lemma_res_wrap<T>(w: WrappingIndex, m: Matrix<T>)
    ensures
        m.shape.sz() == 0 ==> (forall|o: Option<AxisIndex>| #[trigger] w.vp_res(m, o) <==> o is None) && w.vp_res(m, None),
        m.shape.sz() != 0 ==> w.vp_res(m, Some(wrap_of(m.order, m.shape, w))) && m.shape.major > 0 && m.shape.minor > 0
            && inside(m.shape, wrap_of(m.order, m.shape, w)) && inb(m.shape, wrap_of(m.order, m.shape, w)) == Some(wrap_of(m.order, m.shape, w)),
{
    lemma_sz_zero(m.shape);
    if m.shape.sz() != 0 {
        lemma_wrap(w.row as int, m.shape.nr(m.order));
        lemma_wrap(w.col as int, m.shape.nc(m.order));
    }
}
pub proof fn lemma_shape_of_sz(o: Order, r: usize, c: usize)
    ensures shape_of(o, r, c).sz() == r * c,
{
    assert(r * c == c * r) by (nonlinear_arith);
}
pub mod vpl {
use vstd::prelude::*;
use vstd::layout::*;
/// number of bytes of `n` elements is within what an allocation can hold
pub open spec fn fits<T>(n: int) -> bool { n * size_of::<T>() <= isize::MAX }
pub broadcast proof fn lemma_fits_mono<T>(m: int, n: int)
    requires #[trigger] fits::<T>(n), m <= n,
    ensures #[trigger] fits::<T>(m),
{
    assert(m * size_of::<T>() <= n * size_of::<T>()) by (nonlinear_arith) requires m <= n, size_of::<T>() >= 0;
}
} // mod vpl
broadcast use {vpl::lemma_fits_mono, vpe::axiom_ref_eq, vstd::arithmetic::mul::lemma_mul_is_commutative};
