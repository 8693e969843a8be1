// ===================================================================
// Equality (C07)
// ===================================================================
/// what `a == b` may give: true only when the logical shapes agree and every pair
/// of elements at the same logical position compared equal, false only when they
/// differ or some pair compared unequal
pub open spec fn meq<T: PartialEq>(a: Matrix<T>, b: Matrix<T>, r: bool) -> bool {
    if r { conf(a, b) && forall|i: int| 0 <= i < a.data@.len() ==> eq_rel(#[trigger] a.data@[i], peer(a, b, i), true) }
    else { !conf(a, b) || exists|i: int| 0 <= i < a.data@.len() && eq_rel(#[trigger] a.data@[i], peer(a, b, i), false) }
}
pub proof fn lemma_meq_conf<T>(a: Matrix<T>, b: Matrix<T>)
    requires a.coh(), b.coh(),
    ensures
        a.order == b.order && a.shape == b.shape ==> a.data@.len() == b.data@.len() && forall|i: int| 0 <= i < a.data@.len() ==> #[trigger] peer(a, b, i) == b.data@[i],
        conf(a, b) ==> a.data@.len() == b.data@.len(),
{
    if conf(a, b) { lemma_conf_len(a, b); }
    if a.order == b.order && a.shape == b.shape {
        assert(conf(a, b));
        assert forall|i: int| 0 <= i < a.data@.len() implies #[trigger] peer(a, b, i) == b.data@[i] by { lemma_peer(a, b, i); }
    }
}
/// `e` is what `==` of the elements computes
pub open spec fn eq_is<T: PartialEq>(e: spec_fn(T, T) -> bool) -> bool {
    forall|a: T, b: T, r: bool| #[trigger] eq_rel(a, b, r) ==> r == e(a, b)
}
/// logical equality under an element equality `e`
pub open spec fn leq<T>(e: spec_fn(T, T) -> bool, a: Matrix<T>, b: Matrix<T>) -> bool {
    conf(a, b) && forall|r: int, c: int| #[trigger] a.inlog(r, c) ==> e(a.at(r, c), b.at(r, c))
}
/// C07: `==` decides logical equality, whatever the storage orders
//@lemma C07
pub proof fn lemma_eq_logical<T: PartialEq>(e: spec_fn(T, T) -> bool, a: Matrix<T>, b: Matrix<T>, r: bool)
    requires a.coh(), b.coh(), eq_is(e), meq(a, b, r),
    ensures r == leq(e, a, b), //@C07
{
    if r {
        assert forall|x: int, y: int| #[trigger] a.inlog(x, y) implies e(a.at(x, y), b.at(x, y)) by {
            lemma_pos_rowcol(a, x, y);
            let i = a.pos(x, y);
            assert(eq_rel(a.data@[i], peer(a, b, i), true));
        }
    } else if conf(a, b) {
        let i = choose|i: int| 0 <= i < a.data@.len() && eq_rel(#[trigger] a.data@[i], peer(a, b, i), false);
        lemma_rowcol(a, i);
        assert(a.inlog(a.row_of(i), a.col_of(i)));
    }
}
/// C07: `==` is reflexive, symmetric and transitive where the elements' `==` is
//@lemma C07
pub proof fn lemma_eq_equivalence<T>(e: spec_fn(T, T) -> bool, a: Matrix<T>, b: Matrix<T>, c: Matrix<T>)
    ensures
        (forall|x: T| #[trigger] e(x, x)) ==> leq(e, a, a), //@C07
        (forall|x: T, y: T| #[trigger] e(x, y) ==> e(y, x)) && leq(e, a, b) ==> leq(e, b, a), //@C07
        (forall|x: T, y: T, z: T| #[trigger] e(x, y) && #[trigger] e(y, z) ==> e(x, z)) && leq(e, a, b) && leq(e, b, c) ==> leq(e, a, c), //@C07
{
    if (forall|x: T, y: T| #[trigger] e(x, y) ==> e(y, x)) && leq(e, a, b) {
        assert forall|r: int, q: int| #[trigger] b.inlog(r, q) implies e(b.at(r, q), a.at(r, q)) by { assert(a.inlog(r, q)); }
    }
    if (forall|x: T, y: T, z: T| #[trigger] e(x, y) && #[trigger] e(y, z) ==> e(x, z)) && leq(e, a, b) && leq(e, b, c) {
        assert forall|r: int, q: int| #[trigger] a.inlog(r, q) implies e(a.at(r, q), c.at(r, q)) by { assert(b.inlog(r, q)); assert(e(a.at(r, q), b.at(r, q)) && e(b.at(r, q), c.at(r, q))); }
    }
}
