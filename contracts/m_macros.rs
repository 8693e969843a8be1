// ===================================================================
// What the construction macros expand to (C19).
// ===================================================================
/// std: `From<T> for T` is the identity
pub broadcast axiom fn axiom_into_self<A>(a: A, b: A)
    ensures #[trigger] call_ensures(<A as Into<A>>::into, (a,), b) ==> b == a;
/// `vec![e; n]`: e itself and clones of it
#[verifier::external_body]
pub fn vp_from_elem<T: Clone>(e: T, n: usize) -> (r: Vec<T>)
    ensures r@.len() == n, forall|i: int| 0 <= i < n ==> (#[trigger] r@[i]) == e || clone_of(e, r@[i])
{ unimplemented!() }
/// the same for an array: its clone holds clones
#[verifier::external_body]
pub fn vp_from_elem_arr<T: Clone, const N: usize>(e: [T; N], n: usize) -> (r: Vec<[T; N]>)
    ensures r@.len() == n, forall|i: int, j: int| 0 <= i < n && 0 <= j < N ==> (#[trigger] r@[i]@[j]) == e@[j] || clone_of(e@[j], r@[i]@[j])
{ unimplemented!() }
/// `vec![a, b, ..]`
#[verifier::external_body]
pub fn vp_vec_of<T, const N: usize>(e: [T; N]) -> (r: Vec<T>)
    ensures r@ == e@
{ unimplemented!() }
pub open spec fn copies<T: Clone>(e: T, x: T) -> bool { x == e || clone_of(e, x) }
pub open spec fn holds<T>(m: Matrix<T>, r: int, c: int, v: T) -> bool { m.inlog(r, c) && m.at(r, c) == v }
pub broadcast proof fn lemma_inlog<T>(m: Matrix<T>, r: int, c: int)
    ensures m.coh() && #[trigger] m.inlog(r, c) ==> 0 <= m.pos(r, c) < m.data@.len(),
{
    if m.coh() && m.inlog(r, c) {
        let (a, b) = if m.order == Order::RowMajor { (r, c) } else { (c, r) };
        lemma_pos_bound(a, b, m.shape.major as int, m.shape.minor as int);
    }
}
pub open spec fn copied<T: Clone>(m: Matrix<T>, r: int, c: int, e: T) -> bool { m.inlog(r, c) && copies(e, m.at(r, c)) }
