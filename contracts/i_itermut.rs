// ===================================================================
// The hand-written mutable row/column iterators (C03, C06, C17)
// NonNull, NonZero and the references they yield are stand-ins that carry the
// position they denote; std's contract of every pointer operation is a proof
// obligation at each use.
// ===================================================================
#[verifier::external_body]
#[verifier::reject_recursive_types(X)]
pub struct NonZero<X> { x: PhantomData<X> }
impl View for NonZero<usize> {
    type V = int;
    uninterp spec fn view(&self) -> int;
}
impl<X> Clone for NonZero<X> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl<X> Copy for NonZero<X> {}
impl NonZero<usize> {
    #[verifier::external_body]
    pub unsafe fn new_unchecked(n: usize) -> (r: Self)
        requires n != 0, //@MEM
        ensures r@ == n,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn new(n: usize) -> (r: Option<Self>)
        ensures match r { Some(z) => n != 0 && z@ == n, None => n == 0 },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get(self) -> (r: usize)
        ensures r == self@, r > 0,
    { unimplemented!() }
}
#[verifier::external_body]
pub fn vp_nz_min() -> (r: NonZero<usize>)
    ensures r@ == 1,
{ unimplemented!() }

#[verifier::reject_recursive_types(T)]
pub struct NonNull<T> { pub p: VpPtr<T> }
impl<T> Clone for NonNull<T> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl<T> Copy for NonNull<T> {}
/// pointers compare by address
impl<T> PartialEq for NonNull<T> {
    #[verifier::external_body]
    fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() }
}
impl<T> vstd::std_specs::cmp::PartialEqSpecImpl for NonNull<T> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { self.p.addr_of() == o.p.addr_of() }
}
impl<T> NonNull<T> {
    #[verifier::external_body]
    pub unsafe fn new_unchecked(p: VpPtr<T>) -> (r: Self)
        requires p.addr_of() != 0, //@MEM
        ensures r.p == p,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn dangling() -> (r: Self)
        ensures !r.p.prov(), r.p.off() > 0, r.p.aligned(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn addr(self) -> (r: NonZero<usize>)
        ensures r@ == self.p.addr_of(),
    { unimplemented!() }
    /// forming a pointer outside its buffer is undefined behaviour
    #[verifier::external_body]
    pub unsafe fn add(self, n: usize) -> (r: Self)
        requires size_of::<T>() == 0 || (self.p.prov() && 0 <= self.p.off() && self.p.off() + n <= self.p.len()), //@MEM
        ensures r.p.prov() == self.p.prov(), r.p.len() == self.p.len(), r.p.base() == self.p.base(), r.p.aligned() == self.p.aligned(), self.p.prov() ==> r.p.off() == self.p.off() + n, !self.p.prov() ==> r.p.off() == self.p.off(),
    { unimplemented!() }
    #[verifier::external_body]
    pub unsafe fn sub(self, n: usize) -> (r: Self)
        requires size_of::<T>() == 0 || (self.p.prov() && 0 <= self.p.off() - n && self.p.off() <= self.p.len()), //@MEM
        ensures r.p.prov() == self.p.prov(), r.p.len() == self.p.len(), r.p.base() == self.p.base(), r.p.aligned() == self.p.aligned(), self.p.prov() ==> r.p.off() == self.p.off() - n, !self.p.prov() ==> r.p.off() == self.p.off(),
    { unimplemented!() }
    /// the reference stands for the element the pointer points at
    #[verifier::external_body]
    pub unsafe fn as_mut<'a>(&mut self) -> (r: VpMut<'a, T>)
        requires old(self).p.aligned() && (size_of::<T>() == 0 || (old(self).p.prov() && 0 <= old(self).p.off() < old(self).p.len())), //@MEM
        ensures r.pos() == old(self).p.off(), r.base() == old(self).p.base(), *final(self) == *old(self),
    { unimplemented!() }
}
/// `&'a mut T` to the element at position `pos` of the buffer at `base`
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VpMut<'a, T> { m: PhantomData<&'a T> }
impl<'a, T> VpMut<'a, T> {
    pub uninterp spec fn pos(&self) -> int;
    pub uninterp spec fn base(&self) -> int;
}

/// the positions lo, lo + s, ... up to hi
pub open spec fn count_of(lo: int, hi: int, s: int) -> int { (hi - lo) / s + 1 }
pub open spec fn ends_ok<T>(lo: VpPtr<T>, hi: VpPtr<T>, s: int, counting: bool) -> bool {
    &&& s > 0 && lo.off() <= hi.off() && (hi.off() - lo.off()) % s == 0
    &&& lo.prov() == !counting && hi.prov() == !counting
    &&& if counting { 0 < lo.off() && hi.off() <= usize::MAX && s <= usize::MAX } else { lo.aligned() && hi.aligned() && hi.base() == lo.base() && hi.len() == lo.len() && lo.alloc_ok() && 0 <= lo.off() && hi.off() < lo.len() && s <= lo.len() && lo.len() <= usize::MAX && size_of::<T>() > 0 }
}
impl<'a, T> IterNthVectorMut<'a, T> {
    pub open spec fn wf(&self) -> bool { self.stride is Some ==> ends_ok(self.lower.p, self.upper.p, self.stride->0@, size_of::<T>() == 0) }
    /// the positions of the elements still to come
    pub open spec fn left(&self) -> Seq<int> {
        if self.stride is None { Seq::empty() } else { Seq::new(count_of(self.lower.p.off(), self.upper.p.off(), self.stride->0@) as nat, |i: int| self.lower.p.off() + i * self.stride->0@) }
    }
}
impl<'a, T> IterVectorsMut<'a, T> {
    pub open spec fn counting(&self) -> bool { size_of::<T>() == 0 || self.layout->0.vector_length is None }
    pub open spec fn wf(&self) -> bool {
        self.layout is Some ==> {
            let l = self.layout->0;
            &&& l.vector_stride@ > 0
            &&& ends_ok(self.lower.p, self.upper.p, l.axis_stride@, self.counting())
            &&& l.vector_length is Some ==> l.vector_length->0@ > 0 && {
                let last = (l.vector_length->0@ - 1) * l.vector_stride@;
                if size_of::<T>() == 0 { 1 + last <= usize::MAX } else { self.upper.p.off() + last < self.lower.p.len() && l.vector_stride@ <= self.lower.p.len() && self.lower.p.len() <= usize::MAX }
            }
        }
    }
    /// vectors still to come
    pub open spec fn left(&self) -> int { if self.layout is None { 0 } else { count_of(self.lower.p.off(), self.upper.p.off(), self.layout->0.axis_stride@) } }
    /// length of every vector
    pub open spec fn vlen(&self) -> int { if self.layout is Some && self.layout->0.vector_length is Some { self.layout->0.vector_length->0@ } else { 0 } }
    /// the positions of the k-th vector's elements
    pub open spec fn vec_at(&self, k: int) -> Seq<int> { Seq::new(self.vlen() as nat, |j: int| self.lower.p.off() + k * self.layout->0.axis_stride@ + j * self.layout->0.vector_stride@) }
    pub open spec fn same_vectors(&self, o: &Self) -> bool {
        self.layout is Some && o.layout is Some ==> self.vlen() == o.vlen() && self.layout->0 == o.layout->0
    }
}
pub proof fn lemma_count(lo: int, hi: int, s: int)
    requires s > 0, lo <= hi, (hi - lo) % s == 0,
    ensures
        count_of(lo, hi, s) >= 1, lo + (count_of(lo, hi, s) - 1) * s == hi,
        lo == hi ==> count_of(lo, hi, s) == 1,
        lo < hi ==> hi - lo >= s && (hi - lo - s) % s == 0 && count_of(lo + s, hi, s) == count_of(lo, hi, s) - 1 && count_of(lo, hi - s, s) == count_of(lo, hi, s) - 1 && count_of(lo, hi, s) >= 2,
        count_of(lo, hi, s) <= hi - lo + 1,
{
    let d = hi - lo;
    lemma_fundamental_div_mod(d, s);
    let q = d / s;
    assert(s * q == q * s) by (nonlinear_arith);
    assert(q >= 0) by (nonlinear_arith) requires q * s == d, d >= 0, s > 0;
    assert(q <= d) by (nonlinear_arith) requires q * s == d, s > 0, q >= 0;
    if lo < hi {
        assert(q >= 1) by (nonlinear_arith) requires q * s == d, d > 0, s > 0;
        assert(d >= s) by (nonlinear_arith) requires q * s == d, q >= 1, s > 0;
        assert((q - 1) * s == d - s) by (nonlinear_arith) requires q * s == d;
        lemma_fundamental_div_mod_converse(d - s, s, q - 1, 0);
    } else {
        assert(q == 0) by (nonlinear_arith) requires q * s == 0, s > 0;
    }
}
/// n positions from lo in steps of s
pub proof fn lemma_count_of(lo: int, n: int, s: int)
    requires s > 0, n >= 1,
    ensures count_of(lo, lo + (n - 1) * s, s) == n, ((n - 1) * s) % s == 0, (n - 1) * s >= 0,
{
    lemma_fundamental_div_mod_converse((n - 1) * s, s, n - 1, 0);
    assert((n - 1) * s >= 0) by (nonlinear_arith) requires n >= 1, s > 0;
}
/// scaling a distance and a step by the element size does not change the count
pub proof fn lemma_scaled(d: int, s: int, z: int)
    requires s > 0, z > 0, d >= 0, d % s == 0,
    ensures (d * z) / (s * z) == d / s, s * z > 0, d * z >= 0,
{
    lemma_fundamental_div_mod(d, s);
    let q = d / s;
    assert(s * z > 0) by (nonlinear_arith) requires s > 0, z > 0;
    assert(d * z >= 0) by (nonlinear_arith) requires d >= 0, z > 0;
    assert(d * z == q * (s * z)) by (nonlinear_arith) requires d == s * q;
    lemma_fundamental_div_mod_converse(d * z, s * z, q, 0);
}
/// two pointers into one buffer have equal addresses exactly when equal offsets
pub proof fn lemma_addr_eq<T>(x: VpPtr<T>, y: VpPtr<T>)
    requires x.prov(), y.prov(), x.base() == y.base(), size_of::<T>() > 0,
    ensures x.addr_of() == y.addr_of() <==> x.off() == y.off(),
{
    let (a, b, z) = (x.off(), y.off(), size_of::<T>() as int);
    assert(a * z == b * z <==> a == b) by (nonlinear_arith) requires z > 0;
}
pub proof fn lemma_addr_diff<T>(x: VpPtr<T>, y: VpPtr<T>, s: int)
    requires ends_ok(x, y, s, false),
    ensures
        0 < x.addr_of() <= y.addr_of() <= usize::MAX,
        s * size_of::<T>() > 0, s * size_of::<T>() <= usize::MAX,
        (y.addr_of() - x.addr_of()) / (s * size_of::<T>()) + 1 == count_of(x.off(), y.off(), s),
        count_of(x.off(), y.off(), s) <= usize::MAX,
{
    let (a, b, z, n) = (x.off(), y.off(), size_of::<T>() as int, x.len());
    lemma_scaled(b - a, s, z);
    lemma_count(a, b, s);
    assert(a * z <= b * z <= n * z && b * z - a * z == (b - a) * z && s * z <= n * z && a * z >= 0) by (nonlinear_arith) requires z > 0, 0 <= a <= b, b < n, s <= n;
}
/// the vectors of a freshly made iterator are the rows (columns) of the matrix
pub open spec fn covers_rows<'a, T>(m: Matrix<T>, it: IterVectorsMut<'a, T>) -> bool {
    it.wf() && it.left() == m.nr() && (m.nr() > 0 ==> it.vlen() == m.nc())
        && (size_of::<T>() > 0 ==> forall|k: int, j: int| 0 <= k < m.nr() && 0 <= j < m.nc() ==> #[trigger] it.vec_at(k)[j] == m.pos(k, j))
}
pub open spec fn covers_cols<'a, T>(m: Matrix<T>, it: IterVectorsMut<'a, T>) -> bool {
    it.wf() && it.left() == m.nc() && (m.nc() > 0 ==> it.vlen() == m.nr())
        && (size_of::<T>() > 0 ==> forall|k: int, j: int| 0 <= k < m.nc() && 0 <= j < m.nr() ==> #[trigger] it.vec_at(k)[j] == m.pos(j, k))
}
/// C03, C17: over all vectors, every element position occurs exactly once
//@lemma C03 C17
pub proof fn lemma_partition_rows<'a, T>(m: Matrix<T>, it: IterVectorsMut<'a, T>)
    requires m.coh(), covers_rows(m, it), size_of::<T>() > 0,
    ensures
        forall|k: int, j: int| 0 <= k < it.left() && 0 <= j < it.vlen() ==> 0 <= #[trigger] it.vec_at(k)[j] < m.data@.len(), //@C03
        forall|k: int, j: int, k2: int, j2: int| 0 <= k < it.left() && 0 <= k2 < it.left() && 0 <= j < it.vlen() && 0 <= j2 < it.vlen() && #[trigger] it.vec_at(k)[j] == #[trigger] it.vec_at(k2)[j2] ==> k == k2 && j == j2, //@C03,C17
{
    assert forall|k: int, j: int| 0 <= k < it.left() && 0 <= j < it.vlen() implies 0 <= #[trigger] it.vec_at(k)[j] < m.data@.len() && m.row_of(it.vec_at(k)[j]) == k && m.col_of(it.vec_at(k)[j]) == j by {
        assert(m.inlog(k, j));
        lemma_pos_rowcol(m, k, j);
    }
}
//@lemma C03 C17
pub proof fn lemma_partition_cols<'a, T>(m: Matrix<T>, it: IterVectorsMut<'a, T>)
    requires m.coh(), covers_cols(m, it), size_of::<T>() > 0,
    ensures
        forall|k: int, j: int| 0 <= k < it.left() && 0 <= j < it.vlen() ==> 0 <= #[trigger] it.vec_at(k)[j] < m.data@.len(), //@C03
        forall|k: int, j: int, k2: int, j2: int| 0 <= k < it.left() && 0 <= k2 < it.left() && 0 <= j < it.vlen() && 0 <= j2 < it.vlen() && #[trigger] it.vec_at(k)[j] == #[trigger] it.vec_at(k2)[j2] ==> k == k2 && j == j2, //@C03,C17
{
    assert forall|k: int, j: int| 0 <= k < it.left() && 0 <= j < it.vlen() implies 0 <= #[trigger] it.vec_at(k)[j] < m.data@.len() && m.row_of(it.vec_at(k)[j]) == j && m.col_of(it.vec_at(k)[j]) == k by {
        assert(m.inlog(j, k));
        lemma_pos_rowcol(m, j, k);
    }
}
//@lemma C03 C06
pub proof fn lemma_covered_rows<'a, T>(m: Matrix<T>, it: IterVectorsMut<'a, T>, i: int)
    requires m.coh(), covers_rows(m, it), size_of::<T>() > 0, 0 <= i < m.data@.len(),
    ensures 0 <= m.row_of(i) < it.left(), 0 <= m.col_of(i) < it.vlen(), it.vec_at(m.row_of(i))[m.col_of(i)] == i, //@C03
{
    lemma_rowcol(m, i);
}
//@lemma C03 C06
pub proof fn lemma_covered_cols<'a, T>(m: Matrix<T>, it: IterVectorsMut<'a, T>, i: int)
    requires m.coh(), covers_cols(m, it), size_of::<T>() > 0, 0 <= i < m.data@.len(),
    ensures 0 <= m.col_of(i) < it.left(), 0 <= m.row_of(i) < it.vlen(), it.vec_at(m.col_of(i))[m.row_of(i)] == i, //@C03
{
    lemma_rowcol(m, i);
}
/// a non-empty matrix: bounds of its axes
pub proof fn lemma_axes<T>(m: Matrix<T>)
    requires m.coh(), m.data@.len() > 0,
    ensures m.shape.major > 0, m.shape.minor > 0, m.shape.major <= m.data@.len(), m.shape.minor <= m.data@.len(),
        (m.shape.major - 1) * m.shape.minor == m.shape.minor * (m.shape.major - 1),
        (m.shape.major - 1) * m.shape.minor + m.shape.minor == m.data@.len(),
        (m.shape.major - 1) * m.shape.minor >= 0,
{
    lemma_sz_zero(m.shape);
    let (a, b) = (m.shape.major as int, m.shape.minor as int);
    assert(a <= a * b && b <= a * b && (a - 1) * b == b * (a - 1) && (a - 1) * b + b == a * b && (a - 1) * b >= 0) by (nonlinear_arith) requires a > 0, b > 0;
}

// ---------------------------------------------------------------- nth vectors
pub proof fn lemma_nth_major(s: AxisShape, n: int)
    requires 0 <= n < s.major, s.sz() <= usize::MAX,
    ensures 0 <= n * s.minor, n * s.minor + s.minor <= s.sz(), s.minor * n == n * s.minor,
        steps(s.sz() - n * s.minor, 1) == s.sz() - n * s.minor,
        forall|j: int| #![trigger j * 1] j * 1 == j,
        s.minor > 0 ==> forall|i: int| #![trigger i / (s.minor as int)] (n * s.minor <= i < n * s.minor + s.minor <==> i / (s.minor as int) == n),
{
    let mi = s.minor as int;
    assert(n * mi + mi <= s.major * mi && n * mi >= 0 && mi * n == n * mi) by (nonlinear_arith) requires 0 <= n < s.major, mi >= 0;
    if mi > 0 {
        assert forall|i: int| #![trigger i / mi] (n * mi <= i < n * mi + mi <==> i / mi == n) by {
            lemma_fundamental_div_mod(i, mi);
            if n * mi <= i < n * mi + mi { lemma_pos_divmod(n, i - n * mi, mi); }
            assert(mi * (i / mi) == (i / mi) * mi) by (nonlinear_arith);
        }
    }
}
pub proof fn lemma_nth_minor(s: AxisShape, n: int)
    requires 0 <= n < s.minor, s.sz() <= usize::MAX,
    ensures s.major > 0 ==> n < s.sz(), steps(s.sz() - n, s.minor as int) == s.major, n * 1 == n,
        forall|j: int| 0 <= j < s.major ==> 0 <= #[trigger] (j * s.minor) + n < s.sz(),
        forall|i: int| #![trigger i % (s.minor as int)] i >= n ==> (i % (s.minor as int) == n <==> (i - n) % (s.minor as int) == 0),
{
    let (a, mi) = (s.major as int, s.minor as int);
    if a > 0 {
        assert(a * mi == (a - 1) * mi + mi) by (nonlinear_arith);
        assert((a - 1) * mi >= 0) by (nonlinear_arith) requires a > 0, mi > 0;
        lemma_fundamental_div_mod_converse(s.sz() - n - 1, mi, a - 1, mi - 1 - n);
    } else { assert(a * mi == 0) by (nonlinear_arith) requires a == 0; }
    assert forall|j: int| 0 <= j < s.major implies 0 <= #[trigger] (j * s.minor) + n < s.sz() by { lemma_pos_bound(j, n, a, mi); }
    assert forall|i: int| #![trigger i % mi] i >= n implies (i % mi == n <==> (i - n) % mi == 0) by {
        lemma_fundamental_div_mod(i, mi);
        lemma_fundamental_div_mod(i - n, mi);
        if i % mi == n { assert(i - n == mi * (i / mi)); assert(mi * (i / mi) == (i / mi) * mi) by (nonlinear_arith); lemma_fundamental_div_mod_converse(i - n, mi, i / mi, 0); }
        if (i - n) % mi == 0 { let q = (i - n) / mi; assert(mi * q == q * mi) by (nonlinear_arith); lemma_fundamental_div_mod_converse(i, mi, q, n); }
    }
}
