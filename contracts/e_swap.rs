// ---------------------------------------------------------------- C10: swaps
/// `self.get_mut(i)? as *mut T`: the position whose reference `get_mut` hands out
#[verifier::external_body]
pub fn vp_get_mut_ptr<T, I: MatrixIndex<T, Output = T>>(m: &mut Matrix<T>, i: I) -> (ret: Result<VpPtr<T>>)
    requires old(m).coh(),
    ensures *final(m) == *old(m),
        match ret {
            Ok(x) => exists|p: AxisIndex| #[trigger] i.vp_res(*old(m), Some(p)) && inside(old(m).shape, p) && x.off() == flat(old(m).shape, p) && x.len() == old(m).data@.len(),
            Err(e) => e == Error::IndexOutOfBounds && i.vp_res(*old(m), None),
        },
{ unimplemented!() }
pub open spec fn exch<T>(s: Seq<T>, i: int, j: int) -> Seq<T> { s.update(i, s[j]).update(j, s[i]) }
pub open spec fn sw(x: int, m: int, n: int) -> int { if x == m { n } else if x == n { m } else { x } }
/// major vectors m and n exchanged
pub open spec fn sw_major<T>(old: Seq<T>, d: Seq<T>, m: int, n: int, ma: int, mi: int) -> bool {
    d.len() == old.len() && forall|a: int, b: int| 0 <= a < ma && 0 <= b < mi ==> d[#[trigger] tr_pos(a, b, mi)] == old[tr_pos(sw(a, m, n), b, mi)]
}
/// minor vectors m and n exchanged in the first k major vectors
pub open spec fn sw_minor<T>(old: Seq<T>, d: Seq<T>, k: int, m: int, n: int, ma: int, mi: int) -> bool {
    d.len() == old.len() && forall|a: int, b: int| 0 <= a < ma && 0 <= b < mi ==> d[#[trigger] tr_pos(a, b, mi)] == old[tr_pos(a, if a < k { sw(b, m, n) } else { b }, mi)]
}
pub open spec fn rows_swapped<T>(o: Matrix<T>, n: Matrix<T>, x: int, y: int) -> bool {
    n.order == o.order && n.shape == o.shape && n.coh() && forall|r: int, c: int| #[trigger] o.inlog(r, c) ==> n.at(r, c) == o.at(sw(r, x, y), c)
}
pub open spec fn cols_swapped<T>(o: Matrix<T>, n: Matrix<T>, x: int, y: int) -> bool {
    n.order == o.order && n.shape == o.shape && n.coh() && forall|r: int, c: int| #[trigger] o.inlog(r, c) ==> n.at(r, c) == o.at(r, sw(c, x, y))
}
/// the axis statement is the logical one
pub proof fn lemma_swapped<T>(o: Matrix<T>, n: Matrix<T>, x: int, y: int)
    requires o.coh(), n.order == o.order, n.shape == o.shape,
    ensures
        sw_major(o.data@, n.data@, x, y, o.shape.major as int, o.shape.minor as int) ==> (if o.order == Order::RowMajor { rows_swapped(o, n, x, y) } else { cols_swapped(o, n, x, y) }),
        sw_minor(o.data@, n.data@, o.shape.major as int, x, y, o.shape.major as int, o.shape.minor as int) ==> (if o.order == Order::RowMajor { cols_swapped(o, n, x, y) } else { rows_swapped(o, n, x, y) }),
{
    let mi = o.shape.minor as int;
    assert forall|r: int, c: int| o.inlog(r, c) implies #[trigger] o.pos(r, c) == (if o.order == Order::RowMajor { tr_pos(r, c, mi) } else { tr_pos(c, r, mi) }) by { }
    if sw_major(o.data@, n.data@, x, y, o.shape.major as int, mi) {
        if o.order == Order::RowMajor {
            assert forall|r: int, c: int| #[trigger] o.inlog(r, c) implies n.at(r, c) == o.at(sw(r, x, y), c) by { assert(n.pos(r, c) == tr_pos(r, c, mi)); }
        } else {
            assert forall|r: int, c: int| #[trigger] o.inlog(r, c) implies n.at(r, c) == o.at(r, sw(c, x, y)) by { assert(n.pos(r, c) == tr_pos(c, r, mi)); }
        }
    }
    if sw_minor(o.data@, n.data@, o.shape.major as int, x, y, o.shape.major as int, mi) {
        if o.order == Order::RowMajor {
            assert forall|r: int, c: int| #[trigger] o.inlog(r, c) implies n.at(r, c) == o.at(r, sw(c, x, y)) by { assert(n.pos(r, c) == tr_pos(r, c, mi)); }
        } else {
            assert forall|r: int, c: int| #[trigger] o.inlog(r, c) implies n.at(r, c) == o.at(sw(r, x, y), c) by { assert(n.pos(r, c) == tr_pos(c, r, mi)); }
        }
    }
}
pub proof fn lemma_sw_major<T>(old: Seq<T>, d: Seq<T>, m: int, n: int, ma: int, mi: int)
    ensures
        0 <= m < ma && 0 <= n < ma && 0 <= mi && old.len() == ma * mi && d.len() == old.len()
            && (forall|i: int| 0 <= i < old.len() ==> #[trigger] d[i] == (if m * mi <= i < m * mi + mi { old[i - m * mi + n * mi] } else if n * mi <= i < n * mi + mi { old[i - n * mi + m * mi] } else { old[i] }))
            ==> sw_major(old, d, m, n, ma, mi),
{
    if 0 <= m < ma && 0 <= n < ma && 0 <= mi && old.len() == ma * mi && d.len() == old.len()
        && (forall|i: int| 0 <= i < old.len() ==> #[trigger] d[i] == (if m * mi <= i < m * mi + mi { old[i - m * mi + n * mi] } else if n * mi <= i < n * mi + mi { old[i - n * mi + m * mi] } else { old[i] })) {
    assert forall|a: int, b: int| 0 <= a < ma && 0 <= b < mi implies d[#[trigger] tr_pos(a, b, mi)] == old[tr_pos(sw(a, m, n), b, mi)] by {
        lemma_pos_bound(a, b, ma, mi);
        if a != m { lemma_row_apart(a, b, m, mi); }
        if a != n { lemma_row_apart(a, b, n, mi); }
    }
    }
}
pub proof fn lemma_sw_minor<T>(old: Seq<T>, d: Seq<T>, d2: Seq<T>, k: int, m: int, n: int, ma: int, mi: int)
    requires
        0 <= m < mi, 0 <= n < mi, 0 <= k < ma, old.len() == ma * mi,
        sw_minor(old, d, k, m, n, ma, mi),
        d2 == exch(d, k * mi + m, k * mi + n),
    ensures sw_minor(old, d2, k + 1, m, n, ma, mi),
{
    lemma_pos_bound(k, m, ma, mi);
    lemma_pos_bound(k, n, ma, mi);
    assert forall|a: int, b: int| 0 <= a < ma && 0 <= b < mi implies d2[#[trigger] tr_pos(a, b, mi)] == old[tr_pos(a, if a < k + 1 { sw(b, m, n) } else { b }, mi)] by {
        lemma_pos_bound(a, b, ma, mi);
        if a != k { lemma_row_apart(a, b, k, mi); }
        assert(d[tr_pos(k, m, mi)] == old[tr_pos(k, m, mi)]);
        assert(d[tr_pos(k, n, mi)] == old[tr_pos(k, n, mi)]);
    }
}
