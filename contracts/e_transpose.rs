// ---------------------------------------------------------------- C05: in-place transpose
/// where the element at memory position p of an (ma x mi)-shaped store goes
pub open spec fn tgt(p: int, ma: int, mi: int) -> int { (p % mi) * ma + p / mi }
pub open spec fn transposed_of<T>(a: Seq<T>, b: Seq<T>, ma: int, mi: int) -> bool {
    a.len() == b.len() && forall|p: int| 0 <= p < a.len() ==> #[trigger] b[tgt(p, ma, mi)] == a[p]
}
pub proof fn lemma_tgt(p: int, ma: int, mi: int)
    requires 0 <= p < ma * mi, 0 <= ma, 0 <= mi,
    ensures 0 <= tgt(p, ma, mi) < ma * mi, tgt(tgt(p, ma, mi), mi, ma) == p, mi > 0, ma > 0, p / mi < ma, p % mi < mi, 0 <= p / mi, 0 <= p % mi,
{
    lemma_divmod(p, ma, mi);
    if ma == 0 { assert(ma * mi == 0) by (nonlinear_arith) requires ma == 0; }
    lemma_pos_bound(p % mi, p / mi, mi, ma);
    assert(mi * ma == ma * mi) by (nonlinear_arith);
    lemma_pos_divmod(p % mi, p / mi, ma);
}
pub proof fn lemma_tgt_at(r: int, c: int, ma: int, mi: int)
    requires 0 <= r < ma, 0 <= c < mi,
    ensures tgt(r * mi + c, ma, mi) == c * ma + r, 0 <= r * mi + c < ma * mi, 0 <= c * ma + r < ma * mi,
{
    lemma_pos_bound(r, c, ma, mi);
    lemma_pos_bound(c, r, mi, ma);
    assert(mi * ma == ma * mi) by (nonlinear_arith);
    lemma_pos_divmod(r, c, mi);
}
/// transposing moves logical (or axis) position (r, c) to (c, r)
pub proof fn lemma_transposed_at<T>(a: Seq<T>, b: Seq<T>, ma: int, mi: int)
    requires transposed_of(a, b, ma, mi), a.len() == ma * mi, 0 <= ma, 0 <= mi,
    ensures forall|r: int, c: int| 0 <= r < ma && 0 <= c < mi ==> b[#[trigger] tr_pos(c, r, ma)] == a[tr_pos(r, c, mi)],
{
    assert forall|r: int, c: int| 0 <= r < ma && 0 <= c < mi implies b[#[trigger] tr_pos(c, r, ma)] == a[tr_pos(r, c, mi)] by {
        lemma_tgt_at(r, c, ma, mi);
    }
}
pub open spec fn tr_pos(r: int, c: int, mi: int) -> int { r * mi + c }
/// twice is the identity
pub proof fn lemma_transposed_twice<T>(a: Seq<T>, b: Seq<T>, c: Seq<T>, ma: int, mi: int)
    requires transposed_of(a, b, ma, mi), transposed_of(b, c, mi, ma), a.len() == ma * mi, 0 <= ma, 0 <= mi,
    ensures a == c,
{
    assert forall|p: int| 0 <= p < a.len() implies a[p] == c[p] by {
        lemma_tgt(p, ma, mi);
        assert(b[tgt(p, ma, mi)] == a[p]);
        assert(c[tgt(tgt(p, ma, mi), mi, ma)] == b[tgt(p, ma, mi)]);
    }
    assert(a =~= c);
}
pub open spec fn count_false(s: Seq<bool>) -> nat
    decreases s.len(),
{
    if s.len() == 0 { 0 } else { count_false(s.drop_last()) + (if s.last() { 0nat } else { 1nat }) }
}
pub proof fn lemma_count_false(s: Seq<bool>, i: int)
    requires 0 <= i < s.len(), !s[i],
    ensures count_false(s.update(i, true)) + 1 == count_false(s),
    decreases s.len(),
{
    let t = s.update(i, true);
    if i == s.len() - 1 {
        assert(t.drop_last() =~= s.drop_last());
    } else {
        assert(t.drop_last() =~= s.drop_last().update(i, true));
        lemma_count_false(s.drop_last(), i);
    }
}
/// the cycle walk: visited positions are closed along the permutation
pub open spec fn tr_closed(v: Seq<bool>, ma: int, mi: int) -> bool {
    forall|p: int| 0 <= p < v.len() ==> (v[p] <==> v[#[trigger] tgt(p, ma, mi)])
}
/// between walks: visited elements arrived, the others have not moved
pub open spec fn tr_outer<T>(old: Seq<T>, d: Seq<T>, v: Seq<bool>, ma: int, mi: int) -> bool {
    v.len() == old.len() && d.len() == old.len() && tr_closed(v, ma, mi)
    && (forall|p: int| 0 <= p < v.len() && v[p] ==> d[#[trigger] tgt(p, ma, mi)] == old[p])
    && (forall|p: int| 0 <= p < v.len() && !v[p] ==> #[trigger] d[p] == old[p])
}
/// inside a walk that started at `i` and is about to visit `c`
pub open spec fn tr_inner<T>(old: Seq<T>, d: Seq<T>, v: Seq<bool>, i: int, c: int, ma: int, mi: int) -> bool {
    v.len() == old.len() && d.len() == old.len() && 0 <= i < v.len() && 0 <= c < v.len()
    && (forall|p: int| 0 <= p < v.len() && v[p] ==> v[#[trigger] tgt(p, ma, mi)] || tgt(p, ma, mi) == c)
    && (forall|p: int| 0 <= p < v.len() && v[#[trigger] tgt(p, ma, mi)] ==> v[p] || tgt(p, ma, mi) == i)
    && (c != i ==> !v[c] && v[i] && v[tgt(c, mi, ma)] && d[i] == old[c])
    && (c == i && !v[i] ==> d[i] == old[i] && tr_closed(v, ma, mi))
    && (c == i && v[i] ==> tr_outer(old, d, v, ma, mi))
    && (forall|p: int| 0 <= p < v.len() && v[p] && tgt(p, ma, mi) != i ==> d[#[trigger] tgt(p, ma, mi)] == old[p])
    && (forall|p: int| 0 <= p < v.len() && !v[p] && tgt(p, ma, mi) != i ==> d[#[trigger] tgt(p, ma, mi)] == old[tgt(p, ma, mi)])
}
pub proof fn lemma_tr_start<T>(old: Seq<T>, d: Seq<T>, v: Seq<bool>, i: int, ma: int, mi: int)
    requires tr_outer(old, d, v, ma, mi), 0 <= i < v.len(), v.len() == ma * mi, 0 <= ma, 0 <= mi,
    ensures tr_inner(old, d, v, i, i, ma, mi),
{
    assert forall|p: int| 0 <= p < v.len() implies 0 <= #[trigger] tgt(p, ma, mi) < v.len() && (v[p] <==> v[tgt(p, ma, mi)]) by { lemma_tgt(p, ma, mi); }
}
pub proof fn lemma_tr_end<T>(old: Seq<T>, d: Seq<T>, v: Seq<bool>, i: int, c: int, ma: int, mi: int)
    requires tr_inner(old, d, v, i, c, ma, mi), v[c],
    ensures tr_outer(old, d, v, ma, mi), c == i,
{
}
#[verifier::spinoff_prover]
pub proof fn lemma_tr_step<T>(old: Seq<T>, d: Seq<T>, v: Seq<bool>, i: int, c: int, ma: int, mi: int, d2: Seq<T>)
    requires
        tr_inner(old, d, v, i, c, ma, mi), !v[c], v.len() == ma * mi, 0 <= ma, 0 <= mi,
        d2 == d.update(i, d[tgt(c, ma, mi)]).update(tgt(c, ma, mi), d[i]),
    ensures tr_inner(old, d2, v.update(c, true), i, tgt(c, ma, mi), ma, mi), count_false(v.update(c, true)) < count_false(v),
{
    let n = tgt(c, ma, mi);
    let v2 = v.update(c, true);
    lemma_count_false(v, c);
    assert(mi * ma == ma * mi) by (nonlinear_arith);
    lemma_tgt(i, mi, ma);
    lemma_tgt(c, mi, ma);
    lemma_tgt(c, ma, mi);
    let j = tgt(i, mi, ma);       // predecessor of i
    let b = tgt(c, mi, ma);       // predecessor of c
    assert(tgt(j, ma, mi) == i && tgt(b, ma, mi) == c);
    // the next position has not been visited, unless the walk returns to i
    if n != i {
        if v[n] { assert(v[tgt(c, ma, mi)]); assert(v[c]); }
        if n == c { assert(b == c); assert(c != i); assert(v[b]); }
        assert(!v2[n]);
        assert(d[n] == old[n]);
    }
    assert(d[i] == old[c]);
    assert(v2[tgt(n, mi, ma)]);
    assert(v2[i]);
    assert forall|p: int| 0 <= p < v.len() && v2[p] implies v2[#[trigger] tgt(p, ma, mi)] || tgt(p, ma, mi) == n by { }
    assert forall|p: int| 0 <= p < v.len() && v2[#[trigger] tgt(p, ma, mi)] implies v2[p] || tgt(p, ma, mi) == i by {
        lemma_tgt(p, ma, mi);
    }
    assert forall|p: int| 0 <= p < v.len() && v2[p] && tgt(p, ma, mi) != i implies d2[#[trigger] tgt(p, ma, mi)] == old[p] by {
        lemma_tgt(p, ma, mi);
    }
    assert forall|p: int| 0 <= p < v.len() && !v2[p] && tgt(p, ma, mi) != i implies d2[#[trigger] tgt(p, ma, mi)] == old[tgt(p, ma, mi)] by {
        lemma_tgt(p, ma, mi);
    }
    if n == i {
        assert(c == j);
        assert(d2 =~= d);
        assert forall|p: int| 0 <= p < v.len() implies (v2[p] <==> v2[#[trigger] tgt(p, ma, mi)]) by {
            lemma_tgt(p, ma, mi);
        }
        assert forall|p: int| 0 <= p < v.len() && v2[p] implies d2[#[trigger] tgt(p, ma, mi)] == old[p] by {
            lemma_tgt(p, ma, mi);
        }
        assert forall|p: int| 0 <= p < v.len() && !v2[p] implies #[trigger] d2[p] == old[p] by {
            lemma_tgt(p, mi, ma);
            let q = tgt(p, mi, ma);
            assert(tgt(q, ma, mi) == p);
            assert(!v2[q]);
        }
    }
}
/// the corners stay where they are
pub proof fn lemma_tr_ends(ma: int, mi: int)
    requires 0 <= ma, 0 <= mi,
    ensures ma * mi > 0 ==> tgt(0, ma, mi) == 0 && tgt(ma * mi - 1, ma, mi) == ma * mi - 1,
{
    if ma * mi > 0 {
        if ma == 0 || mi == 0 { assert(ma * mi == 0) by (nonlinear_arith) requires ma == 0 || mi == 0; }
        lemma_tgt_at(0, 0, ma, mi);
        lemma_tgt_at(ma - 1, mi - 1, ma, mi);
        assert((ma - 1) * mi + (mi - 1) == ma * mi - 1) by (nonlinear_arith);
        assert((mi - 1) * ma + (ma - 1) == ma * mi - 1) by (nonlinear_arith);
    }
}
pub proof fn lemma_tr_done<T>(old: Seq<T>, d: Seq<T>, v: Seq<bool>, ma: int, mi: int)
    requires tr_outer(old, d, v, ma, mi), v.len() == ma * mi, 0 <= ma, 0 <= mi,
        forall|p: int| 0 <= p < v.len() ==> #[trigger] v[p] || tgt(p, ma, mi) == p,
    ensures transposed_of(old, d, ma, mi),
{
    assert forall|p: int| 0 <= p < old.len() implies #[trigger] d[tgt(p, ma, mi)] == old[p] by {
        if !v[p] { assert(d[p] == old[p]); }
    }
}
