// ---------------------------------------------------------------- C14: overwrite
pub proof fn lemma_row_apart(a: int, b: int, i: int, mi: int)
    requires a != i, 0 <= b < mi,
    ensures tr_pos(a, b, mi) < i * mi || tr_pos(a, b, mi) >= i * mi + mi,
{
    assert(a * mi + b < i * mi || a * mi + b >= i * mi + mi) by (nonlinear_arith) requires a != i, 0 <= b < mi;
}
/// `(n*k - i - 1) / k + 1 == n`: a column of an (n x k) store, starting at position i
pub proof fn lemma_steps(n: int, k: int, i: int)
    requires 0 <= i < k, 0 <= n,
    ensures steps(n * k - i, k) == n,
{
    if n == 0 {
        assert(n * k == 0) by (nonlinear_arith) requires n == 0;
    } else {
        assert(n * k - i - 1 == (n - 1) * k + (k - 1 - i)) by (nonlinear_arith);
        assert((n - 1) * k >= 0) by (nonlinear_arith) requires n >= 1, k > 0;
        lemma_pos_divmod(n - 1, k - 1 - i, k);
    }
}
pub open spec fn ow_src(a: int, b: int, mi2: int, same: bool) -> int { if same { tr_pos(a, b, mi2) } else { tr_pos(b, a, mi2) } }
/// the first k major vectors have their first `minor` entries replaced by clones
pub open spec fn ow<T: Clone>(old: Seq<T>, d: Seq<T>, src: Seq<T>, k: int, minor: int, ma: int, mi: int, mi2: int, same: bool) -> bool {
    d.len() == old.len()
    && forall|a: int, b: int| 0 <= a < ma && 0 <= b < mi ==> (if a < k && b < minor {
            clone_of(src[ow_src(a, b, mi2, same)], d[#[trigger] tr_pos(a, b, mi)])
        } else { d[tr_pos(a, b, mi)] == old[tr_pos(a, b, mi)] })
}
pub proof fn lemma_ow_step<T: Clone>(old: Seq<T>, d: Seq<T>, d2: Seq<T>, src: Seq<T>, k: int, minor: int, ma: int, mi: int, mi2: int, same: bool)
    requires
        ow(old, d, src, k, minor, ma, mi, mi2, same), 0 <= k < ma, 0 <= minor <= mi, d2.len() == d.len(), d.len() == ma * mi,
        forall|p: int| 0 <= p < d.len() && !(k * mi <= p < k * mi + minor) ==> #[trigger] d2[p] == d[p],
        forall|b: int| 0 <= b < minor ==> clone_of(src[#[trigger] ow_src(k, b, mi2, same)], d2[k * mi + b]),
    ensures ow(old, d2, src, k + 1, minor, ma, mi, mi2, same),
{
    assert forall|a: int, b: int| 0 <= a < ma && 0 <= b < mi implies (if a < k + 1 && b < minor {
            clone_of(src[ow_src(a, b, mi2, same)], d2[#[trigger] tr_pos(a, b, mi)])
        } else { d2[tr_pos(a, b, mi)] == old[tr_pos(a, b, mi)] }) by {
        lemma_pos_bound(a, b, ma, mi);
        if a != k {
            lemma_row_apart(a, b, k, mi);
            assert(d2[tr_pos(a, b, mi)] == d[tr_pos(a, b, mi)]);
        } else if b < minor {
            assert(clone_of(src[ow_src(k, b, mi2, same)], d2[k * mi + b]));
        } else {
            assert(d2[tr_pos(a, b, mi)] == d[tr_pos(a, b, mi)]);
        }
    }
}
pub open spec fn overwritten<T: Clone>(o: Matrix<T>, s: Matrix<T>, n: Matrix<T>) -> bool {
    forall|r: int, c: int| #[trigger] o.inlog(r, c) ==> (if s.inlog(r, c) { clone_of(s.at(r, c), n.at(r, c)) } else { n.at(r, c) == o.at(r, c) })
}
pub proof fn lemma_ow_done<T: Clone>(o: Matrix<T>, s: Matrix<T>, n: Matrix<T>, k: int, minor: int)
    requires
        o.coh(), s.coh(), n.order == o.order, n.shape == o.shape,
        ow(o.data@, n.data@, s.data@, k, minor, o.shape.major as int, o.shape.minor as int, s.shape.minor as int, o.order == s.order),
        k == (if o.shape.major <= (if o.order == s.order { s.shape.major } else { s.shape.minor }) { o.shape.major } else if o.order == s.order { s.shape.major } else { s.shape.minor }),
        minor == (if o.shape.minor <= (if o.order == s.order { s.shape.minor } else { s.shape.major }) { o.shape.minor } else if o.order == s.order { s.shape.minor } else { s.shape.major }),
    ensures overwritten(o, s, n),
{
    assert forall|r: int, c: int| #[trigger] o.inlog(r, c) implies (if s.inlog(r, c) { clone_of(s.at(r, c), n.at(r, c)) } else { n.at(r, c) == o.at(r, c) }) by {
        let (a, b) = if o.order == Order::RowMajor { (r, c) } else { (c, r) };
        assert(o.pos(r, c) == tr_pos(a, b, o.shape.minor as int));
        let same = o.order == s.order;
        assert(s.pos(r, c) == ow_src(a, b, s.shape.minor as int, same));
    }
}
