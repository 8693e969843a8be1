// ===================================================================
// Rows: conversions from sequences of rows (C19)
// ===================================================================
impl<'a, T> VpIntoIter for &'a [T] {
    type VItem = &'a T;
    open spec fn vp_seq(self) -> Seq<&'a T> { refs(self@) }
    #[verifier::external_body]
    fn vp_into_iter(self) -> (it: SeqIter<&'a T>) { unimplemented!() }
}
impl<'a, T, const N: usize> VpIntoIter for &'a [T; N] {
    type VItem = &'a T;
    open spec fn vp_seq(self) -> Seq<&'a T> { refs(self@) }
    #[verifier::external_body]
    fn vp_into_iter(self) -> (it: SeqIter<&'a T>) { unimplemented!() }
}
/// the items of the items, in order
pub open spec fn vp_flat<X: VpIntoIter>(s: Seq<X>) -> Seq<X::VItem> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { vp_flat(s.drop_last()) + s.last().vp_seq() }
}
impl<X: VpIntoIter> SeqIter<X> {
    #[verifier::external_body]
    pub fn flatten(self) -> (r: SeqIter<X::VItem>)
        ensures r@ == vp_flat(self@),
    { unimplemented!() }
}
impl<X> SeqIter<X> {
    /// `collect::<Vec<_>>()`
    #[verifier::external_body]
    pub fn vp_collect(self) -> (r: Vec<X>)
        requires fits::<X>(self@.len() as int) && self@.len() <= usize::MAX, //@C08
        ensures r@ == self@,
    { unimplemented!() }
}
pub trait VpFirst<X> {
    spec fn vp_fv(&self) -> Seq<X>;
    fn vp_first(&self) -> (r: Option<&X>)
        ensures (r is None) == (self.vp_fv().len() == 0), r is Some ==> *r->0 == self.vp_fv()[0];
}
impl<X> VpFirst<X> for [X] {
    open spec fn vp_fv(&self) -> Seq<X> { self@ }
    #[verifier::external_body]
    fn vp_first(&self) -> (r: Option<&X>) { unimplemented!() }
}
impl<X> VpFirst<X> for Vec<X> {
    open spec fn vp_fv(&self) -> Seq<X> { self@ }
    #[verifier::external_body]
    fn vp_first(&self) -> (r: Option<&X>) { unimplemented!() }
}
impl<X, const N: usize> VpFirst<X> for [X; N] {
    open spec fn vp_fv(&self) -> Seq<X> { self@ }
    #[verifier::external_body]
    fn vp_first(&self) -> (r: Option<&X>) { unimplemented!() }
}
pub trait VpExtend<T>: Sized {
    spec fn vp_ev(&self) -> Seq<T>;
    fn vp_extend<I: VpIntoIter<VItem = T>>(&mut self, rows: I)
        requires fits::<T>((old(self).vp_ev().len() + rows.vp_seq().len()) as int) && old(self).vp_ev().len() + rows.vp_seq().len() <= usize::MAX, //@C08
        ensures final(self).vp_ev() == old(self).vp_ev() + rows.vp_seq();
    fn vp_extend_from_slice(&mut self, rows: &[T]) where T: Clone
        requires fits::<T>((old(self).vp_ev().len() + rows@.len()) as int) && old(self).vp_ev().len() + rows@.len() <= usize::MAX, //@C08
        ensures final(self).vp_ev().len() == old(self).vp_ev().len() + rows@.len(),
            forall|i: int| 0 <= i < old(self).vp_ev().len() ==> #[trigger] final(self).vp_ev()[i] == old(self).vp_ev()[i],
            forall|i: int| 0 <= i < rows@.len() ==> clone_of(#[trigger] rows@[i], final(self).vp_ev()[old(self).vp_ev().len() + i]);
}
impl<T> VpExtend<T> for Vec<T> {
    open spec fn vp_ev(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vp_extend<I: VpIntoIter<VItem = T>>(&mut self, rows: I) { unimplemented!() }
    #[verifier::external_body]
    fn vp_extend_from_slice(&mut self, rows: &[T]) where T: Clone { unimplemented!() }
}
/// `d` is the first `k` rows of `s`, each `n` long, one after the other
pub open spec fn rows_in<X: VpIntoIter>(d: Seq<X::VItem>, s: Seq<X>, k: int, n: int) -> bool {
    &&& d.len() == k * n
    &&& forall|r: int| 0 <= r < k ==> (#[trigger] s[r]).vp_seq().len() == n
    &&& forall|r: int, c: int| 0 <= r < k && 0 <= c < n ==> d[#[trigger] rc(r, n, c)] == s[r].vp_seq()[c]
}
/// the same, every element a clone
pub open spec fn rows_cl<T: Clone>(d: Seq<T>, s: Seq<Seq<T>>, k: int, n: int) -> bool {
    &&& d.len() == k * n
    &&& forall|r: int| 0 <= r < k ==> (#[trigger] s[r]).len() == n
    &&& forall|r: int, c: int| 0 <= r < k && 0 <= c < n ==> clone_of(s[r][c], d[#[trigger] rc(r, n, c)])
}
pub open spec fn rc(r: int, n: int, c: int) -> int { r * n + c }

pub proof fn lemma_rows_step<X: VpIntoIter>(d: Seq<X::VItem>, s: Seq<X>, k: int, n: int)
    requires rows_in(d, s, k, n), 0 <= k < s.len(), s[k].vp_seq().len() == n, n >= 0,
    ensures rows_in(d + s[k].vp_seq(), s, k + 1, n),
{
    let e = d + s[k].vp_seq();
    assert((k + 1) * n == k * n + n) by (nonlinear_arith);
    assert forall|r: int, c: int| 0 <= r < k + 1 && 0 <= c < n implies e[#[trigger] rc(r, n, c)] == s[r].vp_seq()[c] by {
        if r < k {
            assert(r * n + n <= k * n) by (nonlinear_arith) requires r + 1 <= k, n >= 0;
            assert(0 <= r * n) by (nonlinear_arith) requires r >= 0, n >= 0;
            assert(d[rc(r, n, c)] == s[r].vp_seq()[c]);
        }
    }
}
pub proof fn lemma_rows_cl_step<T: Clone>(d: Seq<T>, e: Seq<T>, s: Seq<Seq<T>>, k: int, n: int)
    requires rows_cl(d, s, k, n), 0 <= k < s.len(), s[k].len() == n, n >= 0, e.len() == d.len() + n,
        forall|i: int| 0 <= i < d.len() ==> #[trigger] e[i] == d[i],
        forall|i: int| 0 <= i < n ==> clone_of(#[trigger] s[k][i], e[d.len() + i]),
    ensures rows_cl(e, s, k + 1, n),
{
    assert((k + 1) * n == k * n + n) by (nonlinear_arith);
    assert forall|r: int, c: int| 0 <= r < k + 1 && 0 <= c < n implies clone_of(s[r][c], e[#[trigger] rc(r, n, c)]) by {
        if r < k {
            assert(r * n + n <= k * n) by (nonlinear_arith) requires r + 1 <= k, n >= 0;
            assert(0 <= r * n) by (nonlinear_arith) requires r >= 0, n >= 0;
            assert(e[rc(r, n, c)] == d[rc(r, n, c)]);
            assert(clone_of(s[r][c], d[rc(r, n, c)]));
        } else {
            assert(clone_of(s[k][c], e[d.len() + c]));
        }
    }
}
pub proof fn lemma_flat_rows<X: VpIntoIter>(s: Seq<X>, n: int)
    requires n >= 0, forall|r: int| 0 <= r < s.len() ==> (#[trigger] s[r]).vp_seq().len() == n,
    ensures rows_in(vp_flat(s), s, s.len() as int, n),
    decreases s.len(),
{
    if s.len() > 0 {
        let p = s.drop_last();
        lemma_flat_rows(p, n);
        assert forall|r: int| 0 <= r < p.len() implies (#[trigger] s[r]).vp_seq().len() == n && s[r] == p[r] by {}
        assert(rows_in(vp_flat(p), s, p.len() as int, n)) by {
            assert forall|r: int, c: int| 0 <= r < p.len() && 0 <= c < n implies vp_flat(p)[#[trigger] rc(r, n, c)] == s[r].vp_seq()[c] by {
                assert(vp_flat(p)[rc(r, n, c)] == p[r].vp_seq()[c]);
            }
        }
        lemma_rows_step(vp_flat(p), s, p.len() as int, n);
    } else {
        assert(0 * n == 0) by (nonlinear_arith);
    }
}
/// the rows as sequences
pub open spec fn row_seqs<X: VpIntoIter>(s: Seq<X>) -> Seq<Seq<X::VItem>> { Seq::new(s.len(), |i: int| s[i].vp_seq()) }
pub open spec fn vec_seqs<T>(s: Seq<Vec<T>>) -> Seq<Seq<T>> { Seq::new(s.len(), |i: int| s[i]@) }
pub open spec fn arr_seqs<T, const C: usize>(s: Seq<[T; C]>) -> Seq<Seq<T>> { Seq::new(s.len(), |i: int| s[i]@) }
/// C19: the logical rows of `m` are the given rows, in order
pub open spec fn has_rows<T>(m: Matrix<T>, s: Seq<Seq<T>>, n: int) -> bool {
    &&& m.order == Order::RowMajor && m.coh() && m.nr() == s.len() && m.nc() == n
    &&& forall|r: int, c: int| #[trigger] m.inlog(r, c) ==> s[r].len() == n && m.at(r, c) == s[r][c]
}
pub open spec fn has_rows_cl<T: Clone>(m: Matrix<T>, s: Seq<Seq<T>>, n: int) -> bool {
    &&& m.order == Order::RowMajor && m.coh() && m.nr() == s.len() && m.nc() == n
    &&& forall|r: int, c: int| #[trigger] m.inlog(r, c) ==> s[r].len() == n && clone_of(s[r][c], m.at(r, c))
}
pub proof fn lemma_has_rows<X: VpIntoIter>(m: Matrix<X::VItem>, s: Seq<X>, n: int)
    requires m.order == Order::RowMajor, m.shape.major == s.len(), m.shape.minor == n, rows_in(m.data@, s, s.len() as int, n), m.data@.len() <= usize::MAX,
    ensures has_rows(m, row_seqs(s), n),
{
    assert forall|r: int, c: int| #[trigger] m.inlog(r, c) implies m.at(r, c) == s[r].vp_seq()[c] by {
        assert(m.data@[rc(r, n, c)] == s[r].vp_seq()[c]);
    }
}
pub proof fn lemma_has_rows_cl<T: Clone>(m: Matrix<T>, s: Seq<Seq<T>>, n: int)
    requires m.order == Order::RowMajor, m.shape.major == s.len(), m.shape.minor == n, rows_cl(m.data@, s, s.len() as int, n), m.data@.len() <= usize::MAX,
    ensures has_rows_cl(m, s, n),
{
    assert forall|r: int, c: int| #[trigger] m.inlog(r, c) implies clone_of(s[r][c], m.at(r, c)) by {
        assert(clone_of(s[r][c], m.data@[rc(r, n, c)]));
    }
}
/// what a fallible conversion of rows must return
pub open spec fn rows_result<T>(ret: Result<Matrix<T>>, s: Seq<Seq<T>>, exact: bool) -> bool {
    let n = if s.len() == 0 { 0 } else { s[0].len() as int };
    match ret {
        Ok(m) => m.order == Order::RowMajor && m.coh() && m.nr() == s.len() && m.nc() == n && s.len() * n <= usize::MAX && fits::<T>(s.len() * n)
            && (forall|r: int| 0 <= r < s.len() ==> (#[trigger] s[r]).len() == n),
        Err(Error::SizeOverflow) => s.len() * n > usize::MAX,
        Err(Error::CapacityOverflow) => s.len() * n <= usize::MAX && !fits::<T>(s.len() * n),
        Err(Error::LengthInconsistent) => exists|r: int| 0 <= r < s.len() && (#[trigger] s[r]).len() != n,
        Err(_) => false,
    }
}
pub proof fn lemma_flat_take<X: VpIntoIter>(s: Seq<X>, k: int)
    requires 0 < k <= s.len(),
    ensures vp_flat(s.take(k)).len() == vp_flat(s.take(k - 1)).len() + s[k - 1].vp_seq().len(), vp_flat(s.take(k)).len() <= vp_flat(s).len(),
    decreases s.len() - k,
{
    assert(s.take(k).drop_last() =~= s.take(k - 1));
    if k < s.len() { lemma_flat_take(s, k + 1); } else { assert(s.take(k) =~= s); }
}
pub proof fn lemma_flat_prefix<X: VpIntoIter>(d: Seq<X::VItem>, s: Seq<X>, k: int, n: int)
    requires rows_in(d, s, k, n), 0 <= k <= s.len(), n >= 0,
    ensures vp_flat(s.take(k)).len() == d.len(),
{
    assert forall|r: int| 0 <= r < k implies (#[trigger] s.take(k)[r]).vp_seq().len() == n by { assert(s.take(k)[r] == s[r]); }
    lemma_flat_rows(s.take(k), n);
}
