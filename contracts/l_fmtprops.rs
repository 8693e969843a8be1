// ===================================================================
// What C20 says about the texts proved for Display and Debug.
// ===================================================================
pub proof fn lemma_ew_ge(tx: Seq<Seq<Seq<char>>>, n: int, i: int)
    requires 0 <= i < n,
    ensures width_of(tx[i]) <= ew(tx, n), tx[i].len() <= eh(tx, n),
    decreases n,
{
    lemma_ext(tx, n - 1);
    if i < n - 1 { lemma_ew_ge(tx, n - 1, i); }
}
pub proof fn lemma_ew_least(tx: Seq<Seq<Seq<char>>>, n: int, w: int, h: int)
    requires n >= 0, w >= 0, h >= 0, forall|i: int| 0 <= i < n ==> width_of(#[trigger] tx[i]) <= w && tx[i].len() <= h,
    ensures 0 <= ew(tx, n) <= w, 0 <= eh(tx, n) <= h,
    decreases n,
{
    lemma_ext0(tx);
    if n > 0 { lemma_ext(tx, n - 1); lemma_ew_least(tx, n - 1, w, h); assert(width_of(tx[n - 1]) <= w); }
}
/// every place holds some logical position
pub proof fn lemma_place(l: VpText, i: int) -> (rc: (int, int))
    requires lwf(l), 0 <= i < l.tx.len(),
    ensures 0 <= rc.0 < l.nr(), 0 <= rc.1 < l.nc(), l.p(rc.0, rc.1) == i,
{
    lemma_divmod(i, l.s.major as int, l.s.minor as int);
    let a = i / (l.s.minor as int);
    let b = i % (l.s.minor as int);
    if l.o == Order::RowMajor { (a, b) } else { (b, a) }
}
/// the same elements at the same logical positions
pub open spec fn same_grid(a: VpText, b: VpText) -> bool {
    &&& a.nr() == b.nr() && a.nc() == b.nc()
    &&& forall|r: int, c: int| 0 <= r < a.nr() && 0 <= c < a.nc() ==> a.tx[#[trigger] a.p(r, c)] == b.tx[b.p(r, c)]
}
pub proof fn lemma_ext_le(a: VpText, b: VpText)
    requires lwf(a), lwf(b), same_grid(a, b),
    ensures ew(a.tx, a.tx.len() as int) <= ew(b.tx, b.tx.len() as int), eh(a.tx, a.tx.len() as int) <= eh(b.tx, b.tx.len() as int),
{
    let n = b.tx.len() as int;
    lemma_ew_least(Seq::empty(), 0, 0, 0);
    assert forall|i: int| 0 <= i < a.tx.len() implies width_of(#[trigger] a.tx[i]) <= ew(b.tx, n) && a.tx[i].len() <= eh(b.tx, n) by {
        let rc = lemma_place(a, i);
        lemma_lp(b, rc.0, rc.1);
        assert(a.tx[a.p(rc.0, rc.1)] == b.tx[b.p(rc.0, rc.1)]);
        lemma_ew_ge(b.tx, n, b.p(rc.0, rc.1));
    }
    lemma_ext_nonneg(b.tx, n);
    lemma_ew_least(a.tx, a.tx.len() as int, ew(b.tx, n), eh(b.tx, n));
}
pub proof fn lemma_ext_nonneg(tx: Seq<Seq<Seq<char>>>, n: int)
    requires n >= 0,
    ensures ew(tx, n) >= 0, eh(tx, n) >= 0,
    decreases n,
{
    lemma_ext0(tx);
    if n > 0 { lemma_ext(tx, n - 1); lemma_ext_nonneg(tx, n - 1); }
}
pub proof fn lemma_same_cells(a: VpText, b: VpText, r: int, k: int, c: int)
    requires lwf(a), lwf(b), same_grid(a, b), a.iw is None, b.iw is None, a.ew == b.ew, 0 <= r < a.nr(), 0 <= c <= a.nc(),
    ensures a.cells(r, k, c) == b.cells(r, k, c),
    decreases c,
{
    reveal(VpText::cells);
    reveal(VpText::cell);
    if c > 0 {
        lemma_same_cells(a, b, r, k, c - 1);
        assert(a.tx[a.p(r, c - 1)] == b.tx[b.p(r, c - 1)]);
    }
}
pub proof fn lemma_same_row(a: VpText, b: VpText, r: int, n: int)
    requires lwf(a), lwf(b), same_grid(a, b), a.iw is None, b.iw is None, a.ew == b.ew, 0 <= r < a.nr(),
    ensures a.row(r, n) == b.row(r, n),
    decreases n,
{
    reveal(VpText::row);
    if n > 0 {
        lemma_same_row(a, b, r, n - 1);
        lemma_same_cells(a, b, r, n - 1, a.nc());
        reveal(VpText::line);
        reveal(VpText::head);
    }
}
pub proof fn lemma_same_rows(a: VpText, b: VpText, r: int)
    requires lwf(a), lwf(b), same_grid(a, b), a.iw is None, b.iw is None, a.ew == b.ew, a.height() == b.height(), r <= a.nr(),
    ensures a.rows(r) == b.rows(r),
    decreases r,
{
    reveal(VpText::rows);
    if r > 0 { lemma_same_rows(a, b, r - 1); lemma_same_row(a, b, r - 1, a.height()); }
}
/// Display shows the logical grid only: two matrices with the same shape and elements
/// that read the same print the same text, whatever their storage orders.
//@lemma C20
pub proof fn lemma_display_order<T: VpDisplay>(a: &Matrix<T>, b: &Matrix<T>)
    requires
        a.coh(), b.coh(), a.nr() == b.nr(), a.nc() == b.nc(),
        forall|r: int, c: int| #![trigger a.pos(r, c)] a.inlog(r, c) ==> a.at(r, c).disp() == b.at(r, c).disp(),
    ensures disp_text(a) == disp_text(b),
{
    let la = disp_layout(a);
    let lb = disp_layout(b);
    assert(a.shape.sz() == b.shape.sz()) by (nonlinear_arith)
        requires a.nr() == b.nr(), a.nc() == b.nc();
    assert(same_grid(la, lb)) by {
        assert forall|r: int, c: int| 0 <= r < la.nr() && 0 <= c < la.nc() implies la.tx[#[trigger] la.p(r, c)] == lb.tx[lb.p(r, c)] by {
            lemma_lp(la, r, c);
            lemma_lp(lb, r, c);
            assert(a.inlog(r, c));
            assert(a.at(r, c).disp() == b.at(r, c).disp()) by { assert(a.pos(r, c) == la.p(r, c)); }
        }
    }
    assert(same_grid(lb, la)) by {
        assert forall|r: int, c: int| 0 <= r < lb.nr() && 0 <= c < lb.nc() implies lb.tx[#[trigger] lb.p(r, c)] == la.tx[la.p(r, c)] by {
            assert(la.tx[la.p(r, c)] == lb.tx[lb.p(r, c)]);
        }
    }
    lemma_ext_le(la, lb);
    lemma_ext_le(lb, la);
    reveal(VpText::height);
    lemma_same_rows(la, lb, la.nr());
    reveal(VpText::text);
    reveal(VpText::header);
}

// ---------------------------------------------------------------- lines of a row
/// an element that is one line of text at most
pub open spec fn one_line(l: Seq<Seq<char>>) -> bool { l.len() == 0 || l.len() == 1 && l[0].len() > 0 }
pub open spec fn all_one_line(l: VpText) -> bool { forall|i: int| 0 <= i < l.tx.len() ==> one_line(#[trigger] l.tx[i]) }
pub open spec fn nonl(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> s[i] != '\n' }
pub proof fn lemma_first_nl(s: Seq<char>)
    ensures
        0 <= first_nl(s) <= s.len(), nonl(s.take(first_nl(s))), first_nl(s) < s.len() ==> s[first_nl(s)] == '\n',
        nonl(s) <==> first_nl(s) == s.len(),
    decreases s.len(),
{
    if s.len() > 0 && s[0] != '\n' {
        let t = s.skip(1);
        lemma_first_nl(t);
        let k = first_nl(t);
        assert(forall|i: int| 1 <= i < s.len() ==> s[i] == t[i - 1]);
        assert(s.take(k + 1) =~= seq![s[0]] + t.take(k));
        assert(nonl(s) ==> nonl(t));
        assert(nonl(t) ==> nonl(s));
    }
}
/// a text without line feeds is such an element
//@lemma C20
pub proof fn lemma_lines_single(s: Seq<char>)
    requires nonl(s),
    ensures one_line(lines_of(s)), s.len() > 0 ==> lines_of(s) == seq![s], s.len() == 0 ==> lines_of(s) == Seq::<Seq<char>>::empty(),
{ reveal(lines_of); lemma_first_nl(s); }
/// no line of a text has a line feed in it
//@lemma C20
pub proof fn lemma_lines_nonl(s: Seq<char>)
    ensures forall|i: int| 0 <= i < lines_of(s).len() ==> nonl(#[trigger] lines_of(s)[i]),
    decreases s.len(),
{
    reveal(lines_of);
    lemma_first_nl(s);
    if s.len() > 0 && first_nl(s) < s.len() {
        let k = first_nl(s);
        let t = s.skip(k + 1);
        lemma_lines_nonl(t);
        assert(lines_of(s) == seq![chomp(s.take(k))] + lines_of(t));
        assert(nonl(chomp(s.take(k))));
        assert forall|i: int| 0 <= i < lines_of(s).len() implies nonl(#[trigger] lines_of(s)[i]) by {
            if i > 0 { assert(lines_of(s)[i] == lines_of(t)[i - 1]); }
        }
    }
}
pub proof fn lemma_nonl_cat(a: Seq<char>, b: Seq<char>)
    requires nonl(a), nonl(b),
    ensures nonl(a + b),
{ assert(forall|i: int| 0 <= i < (a + b).len() ==> (a + b)[i] == if i < a.len() { a[i] } else { b[i - a.len()] }); }
pub proof fn lemma_nonl_pad(s: Seq<char>, w: int)
    requires nonl(s),
    ensures nonl(pad_r(s, w)), nonl(pad_l(s, w)),
{ reveal(pad_r); reveal(pad_l); reveal(sp); }
pub proof fn lemma_nonl_dec(n: nat)
    ensures nonl(dec(n)),
    decreases n,
{ reveal(dec); if n >= 10 { lemma_nonl_dec(n / 10); } }
pub open spec fn tx_nonl(l: VpText) -> bool { forall|i: int, k: int| 0 <= i < l.tx.len() && 0 <= k < l.tx[i].len() ==> nonl(#[trigger] l.tx[i][k]) }
pub proof fn lemma_nonl_cells(l: VpText, r: int, k: int, c: int)
    requires lwf(l), tx_nonl(l), 0 <= r < l.nr(), 0 <= c <= l.nc(), k >= 0, nonl(SPACE@),
    ensures nonl(l.cells(r, k, c)),
    decreases c,
{
    reveal(VpText::cells);
    reveal(VpText::cell);
    if c > 0 {
        lemma_nonl_cells(l, r, k, c - 1);
        lemma_lp(l, r, c - 1);
        let q = l.p(r, c - 1);
        assert(nonl(line_k(l.tx[q], k)));
        lemma_nonl_pad(line_k(l.tx[q], k), l.ew);
        lemma_nonl_pad(SPACE@, INTER_GAP as int);
        if l.iw is Some {
            lemma_nonl_dec(q as nat);
            lemma_nonl_pad(dec(q as nat), l.iw.unwrap());
            lemma_nonl_pad(SPACE@, l.iw.unwrap());
            lemma_nonl_pad(SPACE@, INNER_GAP as int);
        }
        lemma_nonl_cat(l.gap(c - 1), l.tag(k, q));
        lemma_nonl_cat(l.gap(c - 1) + l.tag(k, q), pad_r(line_k(l.tx[q], k), l.ew));
        lemma_nonl_cat(l.cells(r, k, c - 1), l.cell(r, k, c - 1));
    }
}
/// what is printed for one line of a row is one line: a line feed at its end and nowhere else
//@lemma C20
pub proof fn lemma_line_is_line(l: VpText, r: int, k: int)
    requires lwf(l), tx_nonl(l), 0 <= r < l.nr(), 0 < l.nc(), k >= 0,
    ensures nonl(l.line(r, k).drop_last()), l.line(r, k).last() == '\n',
{
    reveal_strlit(" ");
    reveal_strlit("\n");
    reveal_strlit("[");
    reveal_strlit("]");
    reveal(VpText::line);
    reveal(VpText::head);
    lemma_nonl_cells(l, r, k, l.nc());
    lemma_nonl_pad(SPACE@, TAB_SIZE as int);
    lemma_nonl_pad(SPACE@, OUTER_GAP as int);
    lemma_nonl_dec(r as nat);
    if l.iw is Some {
        lemma_nonl_pad(dec(r as nat), l.iw.unwrap());
        lemma_nonl_pad(SPACE@, l.iw.unwrap());
    }
    let t: Seq<char> = if k == 0 { RIGHT_DELIMITER@ } else { Seq::empty() };
    assert(l.line(r, k) =~= l.head(r, k) + l.cells(r, k, l.nc()) + t + "\n"@);
    lemma_nonl_cat(l.head(r, k), l.cells(r, k, l.nc()));
    lemma_nonl_cat(l.head(r, k) + l.cells(r, k, l.nc()), t);
    assert(l.line(r, k).drop_last() =~= l.head(r, k) + l.cells(r, k, l.nc()) + t);
}
/// the layouts of both formats are of this kind
//@lemma C20
pub proof fn lemma_layouts<T: VpDisplay + VpDebug>(m: &Matrix<T>)
    requires m.coh(),
    ensures
        lwf(disp_layout(m)), labels(disp_layout(m)), tx_nonl(disp_layout(m)),
        lwf(dbg_layout(m)), labels(dbg_layout(m)), tx_nonl(dbg_layout(m)),
{
    assert forall|i: int, k: int| 0 <= i < m.data@.len() && 0 <= k < disp_tx(m.data@)[i].len() implies nonl(#[trigger] disp_tx(m.data@)[i][k]) by { lemma_lines_nonl(m.data@[i].disp()); }
    assert forall|i: int, k: int| 0 <= i < m.data@.len() && 0 <= k < dbg_tx(m.data@)[i].len() implies nonl(#[trigger] dbg_tx(m.data@)[i][k]) by { lemma_lines_nonl(m.data@[i].dbg()); }
}
/// labels fit
pub open spec fn labels(l: VpText) -> bool { l.iw is Some ==> l.iw.unwrap() == dec(l.tx.len()).len() }
pub proof fn lemma_pad_len(s: Seq<char>, w: int)
    ensures pad_r(s, w).len() == (if w > s.len() { w } else { s.len() as int }), pad_l(s, w).len() == pad_r(s, w).len(),
{ reveal(pad_r); reveal(pad_l); reveal(sp); }
pub open spec fn lab(l: VpText, extra: int) -> int { match l.iw { None => 0, Some(w) => w + extra } }
pub open spec fn atl(w: int, n: int) -> int { if w > n { w } else { n } }
pub open spec fn cell_width(l: VpText) -> int { lab(l, atl(INNER_GAP as int, SPACE@.len() as int)) + atl(l.ew, SPACE@.len() as int) }
pub open spec fn cells_width(l: VpText, c: int) -> int decreases c {
    if c <= 0 { 0 } else { cells_width(l, c - 1) + cell_width(l) + (if c > 1 { atl(INTER_GAP as int, SPACE@.len() as int) } else { 0 }) }
}
pub proof fn lemma_cell_width(l: VpText, r: int, k: int, c: int)
    requires lwf(l), labels(l), 0 <= r < l.nr(), 0 <= c < l.nc(), k >= 0,
        l.ew == ew(l.tx, l.tx.len() as int),
        SPACE@.len() == 1,
        k < l.tx[l.p(r, c)].len() ==> l.tx[l.p(r, c)][k].len() > 0,
    ensures l.cell(r, k, c).len() == cell_width(l) + (if c > 0 { atl(INTER_GAP as int, SPACE@.len() as int) } else { 0 }),
{
    reveal(VpText::cell);
    let q = l.p(r, c);
    let t = l.tx[q];
    lemma_lp(l, r, c);
    lemma_ew_ge(l.tx, l.tx.len() as int, q);
    lemma_ext_nonneg(l.tx, l.tx.len() as int);
    if k < t.len() { lemma_wmax_ge(t, t.len() as int, k); }
    lemma_pad_len(line_k(t, k), l.ew);
    lemma_pad_len(SPACE@, INTER_GAP as int);
    if l.iw is Some {
        lemma_dec_mono(q as nat, l.tx.len());
        lemma_pad_len(dec(q as nat), l.iw.unwrap());
        lemma_pad_len(SPACE@, l.iw.unwrap());
        lemma_pad_len(SPACE@, INNER_GAP as int);
    }
}
pub proof fn lemma_wmax_ge(l: Seq<Seq<char>>, n: int, i: int)
    requires 0 <= i < n,
    ensures l[i].len() <= wmax(l, n),
    decreases n,
{ if i < n - 1 { lemma_wmax_ge(l, n - 1, i); } }
pub proof fn lemma_cells_width(l: VpText, r: int, c: int)
    requires lwf(l), labels(l), all_one_line(l), 0 <= r < l.nr(), 0 <= c <= l.nc(), l.ew == ew(l.tx, l.tx.len() as int), SPACE@.len() == 1,
    ensures l.cells(r, 0, c).len() == cells_width(l, c),
    decreases c,
{
    reveal(VpText::cells);
    if c > 0 {
        lemma_cells_width(l, r, c - 1);
        lemma_lp(l, r, c - 1);
        assert(one_line(l.tx[l.p(r, c - 1)]));
        lemma_cell_width(l, r, 0, c - 1);
    }
}
pub open spec fn line_width(l: VpText) -> int {
    atl(TAB_SIZE as int, SPACE@.len() as int) + lab(l, atl(OUTER_GAP as int, SPACE@.len() as int)) + LEFT_DELIMITER@.len() + cells_width(l, l.nc()) + RIGHT_DELIMITER@.len() + 1
}
/// For elements of one line: a row is one line, and all row lines are equally wide.
//@lemma C20
pub proof fn lemma_row_width(l: VpText, r: int)
    requires lwf(l), labels(l), all_one_line(l), 0 <= r < l.nr(), 0 < l.nc(), l.ew == ew(l.tx, l.tx.len() as int),
    ensures l.height() == 1, l.row(r, l.height()) == l.line(r, 0), l.line(r, 0).len() == line_width(l),
{
    reveal_strlit(" ");
    reveal_strlit("\n");
    lemma_ext_nonneg(l.tx, l.tx.len() as int);
    assert forall|i: int| 0 <= i < l.tx.len() implies width_of(#[trigger] l.tx[i]) <= ew(l.tx, l.tx.len() as int) && l.tx[i].len() <= 1 by {
        assert(one_line(l.tx[i]));
        lemma_ew_ge(l.tx, l.tx.len() as int, i);
    }
    lemma_ew_least(l.tx, l.tx.len() as int, l.ew, 1);
    reveal(VpText::height);
    l.lemma_row(r, 0);
    reveal(VpText::line);
    reveal(VpText::head);
    lemma_cells_width(l, r, l.nc());
    lemma_pad_len(SPACE@, TAB_SIZE as int);
    if l.iw is Some {
        lemma_lp(l, r, 0);
        assert(r <= l.tx.len()) by {
            lemma_lp(l, r, 0);
            assert(l.nr() <= l.tx.len()) by (nonlinear_arith) requires l.tx.len() == l.s.major * l.s.minor, 0 < l.nc(), l.nr() >= 0, l.nr() == l.s.nr(l.o), l.nc() == l.s.nc(l.o);
        }
        lemma_dec_mono(r as nat, l.tx.len());
        lemma_pad_len(dec(r as nat), l.iw.unwrap());
        lemma_pad_len(SPACE@, l.iw.unwrap());
        lemma_pad_len(SPACE@, OUTER_GAP as int);
    }
}
