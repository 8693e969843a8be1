// ===================================================================
// What the properties say, over the contracts
// ===================================================================
/// the same logical matrix, whatever the storage orders
pub open spec fn same<T>(a: Matrix<T>, b: Matrix<T>) -> bool {
    a.coh() && b.coh() && conf(a, b) && forall|r: int, c: int| #[trigger] a.inlog(r, c) ==> a.at(r, c) == b.at(r, c)
}
//@lemma C01
/// every in-bounds (row, col) is a stored element of its own, and every stored element is one
pub proof fn lemma_positions<T>(m: Matrix<T>)
    requires m.coh(),
    ensures
        m.nr() * m.nc() == m.data@.len() <= usize::MAX,
        forall|r: int, c: int| #[trigger] m.inlog(r, c) ==> 0 <= m.pos(r, c) < m.data@.len(),
        forall|r: int, c: int, r2: int, c2: int| #[trigger] m.inlog(r, c) && #[trigger] m.inlog(r2, c2) && m.pos(r, c) == m.pos(r2, c2) ==> r == r2 && c == c2,
        forall|i: int| 0 <= i < m.data@.len() ==> #[trigger] m.inlog(m.row_of(i), m.col_of(i)) && m.pos(m.row_of(i), m.col_of(i)) == i,
{
    let (ma, mi) = (m.shape.major as int, m.shape.minor as int);
    assert(mi * ma == ma * mi) by (nonlinear_arith);
    assert forall|r: int, c: int| #[trigger] m.inlog(r, c) implies 0 <= m.pos(r, c) < m.data@.len() by { lemma_pos_rowcol(m, r, c); }
    assert forall|r: int, c: int, r2: int, c2: int| #[trigger] m.inlog(r, c) && #[trigger] m.inlog(r2, c2) && m.pos(r, c) == m.pos(r2, c2) implies r == r2 && c == c2 by {
        lemma_pos_rowcol(m, r, c); lemma_pos_rowcol(m, r2, c2);
    }
    assert forall|i: int| 0 <= i < m.data@.len() implies #[trigger] m.inlog(m.row_of(i), m.col_of(i)) && m.pos(m.row_of(i), m.col_of(i)) == i by { lemma_rowcol(m, i); }
}
/// what the contract of `transpose` says
pub open spec fn transposed<T>(a: Matrix<T>, b: Matrix<T>) -> bool {
    b.order == a.order && b.shape == a.shape.swapped() && b.coh() && transposed_of(a.data@, b.data@, a.shape.major as int, a.shape.minor as int)
}
//@lemma C05
/// transpose() gives result[j][i] == original[i][j]
pub proof fn lemma_transpose_logical<T>(a: Matrix<T>, b: Matrix<T>)
    requires a.coh(), transposed(a, b),
    ensures
        b.nr() == a.nc() && b.nc() == a.nr(),
        forall|r: int, c: int| #[trigger] a.inlog(r, c) ==> b.at(c, r) == a.at(r, c),
{
    let (ma, mi) = (a.shape.major as int, a.shape.minor as int);
    assert forall|r: int, c: int| #[trigger] a.inlog(r, c) implies b.at(c, r) == a.at(r, c) by {
        let (x, y) = if a.order == Order::RowMajor { (r, c) } else { (c, r) };
        lemma_tgt_at(x, y, ma, mi);
        assert(a.data@[x * mi + y] == b.data@[tgt(x * mi + y, ma, mi)]);
    }
}
//@lemma C05
/// transposing twice restores the matrix, memory included
pub proof fn lemma_transpose_twice<T>(a: Matrix<T>, b: Matrix<T>, c: Matrix<T>)
    requires a.coh(), transposed(a, b), transposed(b, c),
    ensures c.order == a.order, c.shape == a.shape, c.data@ == a.data@,
{
    lemma_transposed_twice(a.data@, b.data@, c.data@, a.shape.major as int, a.shape.minor as int);
}
//@lemma C05 C07
/// changing the order with rearrangement keeps the logical matrix
pub proof fn lemma_switch_logical<T>(a: Matrix<T>, b: Matrix<T>)
    requires a.coh(), b.coh(), b.order != a.order, b.shape == a.shape.swapped(),
        transposed_of(a.data@, b.data@, a.shape.major as int, a.shape.minor as int),
    ensures same(a, b),
{
    let (ma, mi) = (a.shape.major as int, a.shape.minor as int);
    assert forall|r: int, c: int| #[trigger] a.inlog(r, c) implies a.at(r, c) == b.at(r, c) by {
        let (x, y) = if a.order == Order::RowMajor { (r, c) } else { (c, r) };
        lemma_tgt_at(x, y, ma, mi);
        assert(a.data@[x * mi + y] == b.data@[tgt(x * mi + y, ma, mi)]);
    }
}
//@lemma C05
/// changing only the order presents the transposed matrix
pub proof fn lemma_reinterpret<T>(a: Matrix<T>, b: Matrix<T>)
    requires a.coh(), b.order != a.order, b.shape == a.shape, b.data@ == a.data@,
    ensures b.coh() && b.nr() == a.nc() && b.nc() == a.nr(),
        forall|r: int, c: int| #[trigger] a.inlog(r, c) ==> b.at(c, r) == a.at(r, c),
{
}
//@lemma C07 C12
/// elementwise results do not see the operands' storage orders
pub proof fn lemma_elementwise_order<L, R, U>(a: Matrix<L>, b: Matrix<R>, z: Matrix<U>, a2: Matrix<L>, b2: Matrix<R>, z2: Matrix<U>, op: spec_fn(L, R) -> U)
    requires
        same(a, a2), same(b, b2), ew_shape(a, b, z), ew_shape(a2, b2, z2),
        forall|i: int| 0 <= i < z.data@.len() ==> #[trigger] z.data@[i] == op(a.data@[i], peer(a, b, i)),
        forall|i: int| 0 <= i < z2.data@.len() ==> #[trigger] z2.data@[i] == op(a2.data@[i], peer(a2, b2, i)),
    ensures
        same(z, z2),
        forall|r: int, c: int| #[trigger] z.inlog(r, c) ==> z.at(r, c) == op(a.at(r, c), b.at(r, c)),
{
    assert forall|r: int, c: int| #[trigger] z.inlog(r, c) implies z.at(r, c) == z2.at(r, c) && z.at(r, c) == op(a.at(r, c), b.at(r, c)) by {
        lemma_pos_rowcol(z, r, c);
        lemma_pos_rowcol(z2, r, c);
        lemma_pos_rowcol(a, r, c);
        lemma_pos_rowcol(a2, r, c);
        assert(a.inlog(r, c) && b.inlog(r, c));
        assert(z.data@[z.pos(r, c)] == op(a.data@[z.pos(r, c)], peer(a, b, z.pos(r, c))));
        assert(z2.data@[z2.pos(r, c)] == op(a2.data@[z2.pos(r, c)], peer(a2, b2, z2.pos(r, c))));
    }
}
//@lemma C07
/// the errors of elementwise operations and products do not see them either
pub proof fn lemma_errors_order<L, R, U>(a: Matrix<L>, b: Matrix<R>, a2: Matrix<L>, b2: Matrix<R>, e: Error, e2: Error)
    requires same(a, a2), same(b, b2),
    ensures
        ew_err::<L, R, U>(a, b, e) && ew_err::<L, R, U>(a2, b2, e2) ==> e == e2,
        mul_err::<L, R, U>(a, b, e) && mul_err::<L, R, U>(a2, b2, e2) ==> e == e2,
        conf(a, b) == conf(a2, b2),
{
    lemma_positions(a);
    lemma_positions(a2);
}
//@lemma C07 C11
/// the product depends on the logical operands only
pub proof fn lemma_product_order<L: core::ops::Mul<R, Output = U> + Clone, R: Clone, U: core::ops::Add<Output = U> + Default>(a: Matrix<L>, b: Matrix<R>, a2: Matrix<L>, b2: Matrix<R>, z: Matrix<U>)
    requires same(a, a2), same(b, b2), product_of(a, b, z), a.nc() > 0,
    ensures
        forall|r: int, c: int| #[trigger] z.inlog(r, c) ==> dot_of(a.row_seq(r), b.col_seq(c), a.nc(), z.at(r, c)) && dot_of(a2.row_seq(r), b2.col_seq(c), a2.nc(), z.at(r, c)),
{
    assert forall|r: int, c: int| #[trigger] z.inlog(r, c) implies dot_of(a.row_seq(r), b.col_seq(c), a.nc(), z.at(r, c)) && dot_of(a2.row_seq(r), b2.col_seq(c), a2.nc(), z.at(r, c)) by {
        lemma_pos_rowcol(z, r, c);
        let i = z.pos(r, c);
        assert(dot_of(a.row_seq(z.row_of(i)), b.col_seq(z.col_of(i)), a.nc(), z.data@[i]));
        assert(a.row_seq(r) =~= a2.row_seq(r)) by { assert forall|k: int| 0 <= k < a.nc() implies a.at(r, k) == a2.at(r, k) by { assert(a.inlog(r, k)); } }
        assert(b.col_seq(c) =~= b2.col_seq(c)) by { assert forall|k: int| 0 <= k < b.nr() implies b.at(k, c) == b2.at(k, c) by { assert(b.inlog(k, c)); } }
    }
}
//@lemma C07 C10
/// swapping rows or columns of the same logical matrix gives the same logical matrix
pub proof fn lemma_swap_order<T>(o: Matrix<T>, n: Matrix<T>, o2: Matrix<T>, n2: Matrix<T>, x: int, y: int)
    requires same(o, o2),
    ensures
        0 <= x < o.nr() && 0 <= y < o.nr() && rows_swapped(o, n, x, y) && rows_swapped(o2, n2, x, y) ==> same(n, n2),
        0 <= x < o.nc() && 0 <= y < o.nc() && cols_swapped(o, n, x, y) && cols_swapped(o2, n2, x, y) ==> same(n, n2),
{
    if 0 <= x < o.nr() && 0 <= y < o.nr() && rows_swapped(o, n, x, y) && rows_swapped(o2, n2, x, y) {
        assert forall|r: int, c: int| #[trigger] n.inlog(r, c) implies n.at(r, c) == n2.at(r, c) by {
            assert(o.inlog(r, c) && o2.inlog(r, c) && o.inlog(sw(r, x, y), c));
        }
    }
    if 0 <= x < o.nc() && 0 <= y < o.nc() && cols_swapped(o, n, x, y) && cols_swapped(o2, n2, x, y) {
        assert forall|r: int, c: int| #[trigger] n.inlog(r, c) implies n.at(r, c) == n2.at(r, c) by {
            assert(o.inlog(r, c) && o2.inlog(r, c) && o.inlog(r, sw(c, x, y)));
        }
    }
}
//@lemma C10
/// a swap of a row or column with itself changes nothing, a swap done twice is undone
pub proof fn lemma_swap_involution<T>(o: Matrix<T>, n: Matrix<T>, p: Matrix<T>, x: int, y: int)
    requires o.coh(), 0 <= x, 0 <= y,
    ensures
        x == y && rows_swapped(o, n, x, y) ==> same(o, n),
        x == y && cols_swapped(o, n, x, y) ==> same(o, n),
        x < o.nr() && y < o.nr() && rows_swapped(o, n, x, y) && rows_swapped(n, p, x, y) ==> same(o, p),
        x < o.nc() && y < o.nc() && cols_swapped(o, n, x, y) && cols_swapped(n, p, x, y) ==> same(o, p),
{
    if x < o.nr() && y < o.nr() && rows_swapped(o, n, x, y) && rows_swapped(n, p, x, y) {
        assert forall|r: int, c: int| #[trigger] o.inlog(r, c) implies o.at(r, c) == p.at(r, c) by {
            assert(n.inlog(r, c) && n.inlog(sw(r, x, y), c) && o.inlog(sw(r, x, y), c));
        }
    }
    if x < o.nc() && y < o.nc() && cols_swapped(o, n, x, y) && cols_swapped(n, p, x, y) {
        assert forall|r: int, c: int| #[trigger] o.inlog(r, c) implies o.at(r, c) == p.at(r, c) by {
            assert(n.inlog(r, c) && n.inlog(r, sw(c, x, y)) && o.inlog(r, sw(c, x, y)));
        }
    }
}
//@lemma C07 C14
/// what overwrite leaves does not depend on the storage orders (up to the clones)
pub proof fn lemma_overwrite_order<T: Clone>(o: Matrix<T>, s: Matrix<T>, n: Matrix<T>, o2: Matrix<T>, s2: Matrix<T>)
    requires same(o, o2), same(s, s2), overwritten(o, s, n),
    ensures forall|r: int, c: int| #[trigger] o2.inlog(r, c) ==> (if s2.inlog(r, c) { clone_of(s2.at(r, c), n.at(r, c)) } else { n.at(r, c) == o2.at(r, c) }),
{
    assert forall|r: int, c: int| #[trigger] o2.inlog(r, c) implies (if s2.inlog(r, c) { clone_of(s2.at(r, c), n.at(r, c)) } else { n.at(r, c) == o2.at(r, c) }) by {
        assert(o.inlog(r, c));
        assert(s.inlog(r, c) == s2.inlog(r, c));
    }
}
//@lemma C13
/// a wrapped index is the mathematical non-negative remainder
pub proof fn lemma_wrapped_index<T>(m: Matrix<T>, w: WrappingIndex)
    requires m.coh(), m.data@.len() > 0,
    ensures
        m.nr() > 0, m.nc() > 0,
        ({
            let p = wrap_of(m.order, m.shape, w);
            let (r, c) = if m.order == Order::RowMajor { (p.major as int, p.minor as int) } else { (p.minor as int, p.major as int) };
            m.inlog(r, c) && r == w.row as int % m.nr() && c == w.col as int % m.nc()
        }),
{
    lemma_axes(m);
}
//@lemma C15
/// memory order is row by row (row-major) or column by column (column-major)
pub proof fn lemma_memory_order<T>(m: Matrix<T>, r: int, c: int, r2: int, c2: int)
    requires m.coh(), m.inlog(r, c), m.inlog(r2, c2),
    ensures m.pos(r, c) < m.pos(r2, c2) <==> (if m.order == Order::RowMajor { r < r2 || r == r2 && c < c2 } else { c < c2 || c == c2 && r < r2 }),
{
    let mi = m.shape.minor as int;
    let (x, y, x2, y2) = if m.order == Order::RowMajor { (r, c, r2, c2) } else { (c, r, c2, r2) };
    if x < x2 { assert(x * mi + mi <= x2 * mi) by (nonlinear_arith) requires x + 1 <= x2, mi >= 0; }
    if x2 < x { assert(x2 * mi + mi <= x * mi) by (nonlinear_arith) requires x2 + 1 <= x, mi >= 0; }
}
