// ===================================================================
// Formatting (C20). Text is a sequence of characters. The text an element
// writes is a function of its value (`disp`, `dbg`) and writing it succeeds.
// Trusted: std's formatting machinery, `str::lines`, `chars().count()`,
// `str::repeat`, as stated here.
// ===================================================================
pub struct VpFmtError;
pub type VpFmtResult = std::result::Result<(), VpFmtError>;

pub trait VpDisplay { spec fn disp(&self) -> Seq<char>; }
pub trait VpDebug { spec fn dbg(&self) -> Seq<char>; }
/// the types whose own Display honours a width; numbers are aligned to the right by default
pub trait VpPadded: VpDisplay { spec fn num(&self) -> bool; }
impl VpDisplay for str { open spec fn disp(&self) -> Seq<char> { self@ } }
impl VpDisplay for String { open spec fn disp(&self) -> Seq<char> { self@ } }
impl VpDisplay for usize { open spec fn disp(&self) -> Seq<char> { dec(*self as nat) } }
impl<A: VpDisplay + ?Sized> VpDisplay for &A { open spec fn disp(&self) -> Seq<char> { (**self).disp() } }
impl<A: VpDebug + ?Sized> VpDebug for &A { open spec fn dbg(&self) -> Seq<char> { (**self).dbg() } }
impl VpPadded for str { open spec fn num(&self) -> bool { false } }
impl VpPadded for String { open spec fn num(&self) -> bool { false } }
impl VpPadded for usize { open spec fn num(&self) -> bool { true } }
impl<A: VpPadded + ?Sized> VpPadded for &A { open spec fn num(&self) -> bool { (**self).num() } }

/// decimal digits
#[verifier::opaque]
pub open spec fn dec(n: nat) -> Seq<char> decreases n {
    if n < 10 { seq![digit(n)] } else { dec(n / 10).push(digit(n % 10)) }
}
pub open spec fn digit(n: nat) -> char {
    if n == 0 { '0' } else if n == 1 { '1' } else if n == 2 { '2' } else if n == 3 { '3' } else if n == 4 { '4' }
    else if n == 5 { '5' } else if n == 6 { '6' } else if n == 7 { '7' } else if n == 8 { '8' } else { '9' }
}
#[verifier::opaque]
pub open spec fn sp(n: int) -> Seq<char> { Seq::new((if n <= 0 { 0 } else { n }) as nat, |i: int| ' ') }
#[verifier::opaque]
pub open spec fn pad_r(s: Seq<char>, w: int) -> Seq<char> { s + sp(w - s.len()) }
#[verifier::opaque]
pub open spec fn pad_l(s: Seq<char>, w: int) -> Seq<char> { sp(w - s.len()) + s }

#[verifier::external_body]
pub struct VpFormatter { x: u8 }
impl View for VpFormatter { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
/// concatenation (the first case saves the proofs a step)
pub open spec fn fcat(a: Seq<char>, b: Seq<char>) -> Seq<char> { if a.len() == 0 { b } else { a + b } }
pub broadcast proof fn lemma_assoc(a: Seq<char>, b: Seq<char>, c: Seq<char>)
    ensures #[trigger] (a + (b + c)) == (a + b) + c
{ assert(a + (b + c) =~= (a + b) + c); }
pub broadcast proof fn lemma_cat_empty(a: Seq<char>)
    ensures #[trigger] (a + Seq::<char>::empty()) == a
{ assert(a + Seq::<char>::empty() =~= a); }
#[verifier::external_body]
pub struct VpArgs { x: u8 }
impl View for VpArgs { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
#[verifier::external_body]
pub fn vp_fmt() -> (r: VpArgs) ensures r@ == Seq::<char>::empty() { unimplemented!() }
impl VpArgs {
    #[verifier::external_body]
    pub fn vp_lit(self, s: &str) -> (r: VpArgs) ensures r@ == fcat(self@, s@) { unimplemented!() }
    #[verifier::external_body]
    pub fn vp_disp<X: VpDisplay + ?Sized>(self, x: &X) -> (r: VpArgs) ensures r@ == fcat(self@, x.disp()) { unimplemented!() }
    #[verifier::external_body]
    pub fn vp_dbg<X: VpDebug + ?Sized>(self, x: &X) -> (r: VpArgs) ensures r@ == fcat(self@, x.dbg()) { unimplemented!() }
    /// a width argument above u16::MAX panics
    #[verifier::external_body]
    pub fn vp_disp_w<X: VpPadded + ?Sized>(self, x: &X, w: usize) -> (r: VpArgs)
        requires w <= 65535, //@C20
        ensures r@ == fcat(self@, if x.num() { pad_l(x.disp(), w as int) } else { pad_r(x.disp(), w as int) })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vp_disp_r<X: VpPadded + ?Sized>(self, x: &X, w: usize) -> (r: VpArgs)
        requires w <= 65535, //@C20
        ensures r@ == fcat(self@, pad_l(x.disp(), w as int))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vp_disp_l<X: VpPadded + ?Sized>(self, x: &X, w: usize) -> (r: VpArgs)
        requires w <= 65535, //@C20
        ensures r@ == fcat(self@, pad_r(x.disp(), w as int))
    { unimplemented!() }
}
impl VpFormatter {
    #[verifier::external_body]
    pub fn vp_write_fmt(&mut self, a: VpArgs) -> (r: VpFmtResult)
        ensures r is Ok ==> final(self)@ == old(self)@ + a@
    { unimplemented!() }
    #[verifier::external_body]
    pub fn write_str(&mut self, s: &str) -> (r: VpFmtResult)
        ensures r is Ok ==> final(self)@ == old(self)@ + s@
    { unimplemented!() }
    #[verifier::external_body]
    pub fn write_char(&mut self, c: char) -> (r: VpFmtResult)
        ensures r is Ok ==> final(self)@ == old(self)@ + seq![c]
    { unimplemented!() }
}
#[verifier::external_body]
pub fn vp_format(a: VpArgs) -> (r: String) ensures r@ == a@ { unimplemented!() }

/// does the output support colours
pub uninterp spec fn vp_colours() -> bool;
#[verifier::external_body]
pub struct VpStyled { x: u8 }
impl VpDisplay for VpStyled { uninterp spec fn disp(&self) -> Seq<char>; }
#[verifier::external_body]
pub fn vp_if_supports_color<X: VpDisplay + ?Sized>(x: &X) -> (r: VpStyled)
    ensures !vp_colours() ==> r.disp() == x.disp()
{ unimplemented!() }

/// place of the first line feed, the length if there is none
pub open spec fn first_nl(s: Seq<char>) -> int decreases s.len() {
    if s.len() == 0 { 0 } else if s[0] == '\n' { 0 } else { 1 + first_nl(s.skip(1)) }
}
/// `str::lines`
#[verifier::opaque]
pub open spec fn lines_of(s: Seq<char>) -> Seq<Seq<char>> decreases s.len() {
    if s.len() == 0 { Seq::empty() }
    else {
        let k = first_nl(s);
        if 0 <= k < s.len() { seq![chomp(s.take(k))] + lines_of(s.skip(k + 1)) } else { seq![s] }
    }
}
pub open spec fn chomp(s: Seq<char>) -> Seq<char> { if s.len() > 0 && s.last() == '\r' { s.drop_last() } else { s } }

pub trait VpStr {
    spec fn vp_sv(&self) -> Seq<char>;
    fn vp_chars<'a>(&self) -> (r: SeqIter<char>) ensures r@ == self.vp_sv();
    fn vp_lines<'a>(&self) -> (r: SeqIter<&'a str>)
        ensures r@.len() == lines_of(self.vp_sv()).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == lines_of(self.vp_sv())[i];
    fn vp_repeat(&self, n: usize) -> (r: String)
        ensures self.vp_sv() == " "@ ==> r@ == sp(n as int);
}
impl VpStr for str {
    open spec fn vp_sv(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vp_chars<'a>(&self) -> (r: SeqIter<char>) { unimplemented!() }
    #[verifier::external_body]
    fn vp_lines<'a>(&self) -> (r: SeqIter<&'a str>) { unimplemented!() }
    #[verifier::external_body]
    fn vp_repeat(&self, n: usize) -> (r: String) { unimplemented!() }
}
impl VpStr for String {
    open spec fn vp_sv(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vp_chars<'a>(&self) -> (r: SeqIter<char>) { unimplemented!() }
    #[verifier::external_body]
    fn vp_lines<'a>(&self) -> (r: SeqIter<&'a str>) { unimplemented!() }
    #[verifier::external_body]
    fn vp_repeat(&self, n: usize) -> (r: String) { unimplemented!() }
}
impl<X> SeqIter<X> {
    #[verifier::external_body]
    pub fn vp_count(self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
}
pub trait VpToString: VpDisplay {
    fn vp_to_string(&self) -> (r: String) ensures r@ == self.disp();
}
impl<X: VpDisplay> VpToString for X {
    #[verifier::external_body]
    fn vp_to_string(&self) -> (r: String) { unimplemented!() }
}
impl VpStr2 for str { #[verifier::external_body] fn vp_to_owned(&self) -> (r: String) { unimplemented!() } }
pub trait VpStr2: VpStr { fn vp_to_owned(&self) -> (r: String) ensures r@ == self.vp_sv(); }
#[verifier::external_body]
pub fn vp_string_from(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
pub fn vp_with_capacity_any<T>(n: usize) -> (r: Vec<T>) ensures r@.len() == 0 { unimplemented!() }
pub fn vp_opt_max(a: Option<usize>, b: usize) -> (r: Option<usize>)
    ensures r == Some(match a { None => b, Some(x) => if x > b { x } else { b } })
{ match a { None => Some(b), Some(x) => Some(if x > b { x } else { b }) } }
#[verifier::external_body]
pub fn vp_collect_deque<T>(n: Ghost<nat>) -> (r: std::collections::VecDeque<T>)
    ensures r@ == Seq::<T>::empty()
{ unimplemented!() }
impl<T> VpIter<T> for std::collections::VecDeque<T> {
    open spec fn vp_sv(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vp_iter<'a>(&'a self) -> (it: SeqIter<&'a T>) { unimplemented!() }
    #[verifier::external_body]
    fn vp_iter_mut<'a>(&'a mut self) -> (it: SeqIter<&'a mut T>) { unimplemented!() }
}

// ---------------------------------------------------------------- what is printed

pub open spec fn texts(s: Seq<String>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| s[i]@) }
pub open spec fn lview(l: Lines) -> Seq<Seq<char>> { texts(l.0@) }
/// widest line
pub open spec fn wmax(l: Seq<Seq<char>>, n: int) -> int decreases n {
    if n <= 0 { 0 } else { let m = wmax(l, n - 1); if l[n - 1].len() > m { l[n - 1].len() as int } else { m } }
}
pub open spec fn width_of(l: Seq<Seq<char>>) -> int { wmax(l, l.len() as int) }
/// widest and highest of the first n elements
#[verifier::opaque]
pub open spec fn ew(tx: Seq<Seq<Seq<char>>>, n: int) -> int decreases n {
    if n <= 0 { 0 } else { let m = ew(tx, n - 1); if width_of(tx[n - 1]) > m { width_of(tx[n - 1]) } else { m } }
}
#[verifier::opaque]
pub open spec fn eh(tx: Seq<Seq<Seq<char>>>, n: int) -> int decreases n {
    if n <= 0 { 0 } else { let m = eh(tx, n - 1); if tx[n - 1].len() > m { tx[n - 1].len() as int } else { m } }
}
/// the k-th line of an element, blank when it has fewer
pub open spec fn line_k(l: Seq<Seq<char>>, k: int) -> Seq<char> { if 0 <= k < l.len() { l[k] } else { SPACE@ } }
/// what is left after k lines were taken
#[verifier::opaque]
pub open spec fn drained(l: Seq<Seq<char>>, k: int) -> Seq<Seq<char>> { if 0 <= k < l.len() { l.skip(k) } else { Seq::empty() } }

pub ghost struct VpText {
    pub tx: Seq<Seq<Seq<char>>>,   // lines of each element, in memory order
    pub o: Order,
    pub s: AxisShape,
    pub ew: int,
    pub iw: Option<int>,           // width of index labels (Debug)
}
impl VpText {
    pub open spec fn p(&self, r: int, c: int) -> int { lpos(self.o, self.s, r, c) }
    pub open spec fn nr(&self) -> int { self.s.nr(self.o) }
    pub open spec fn nc(&self) -> int { self.s.nc(self.o) }
    pub open spec fn gap(&self, c: int) -> Seq<char> { if c > 0 { pad_r(SPACE@, INTER_GAP as int) } else { Seq::empty() } }
    /// label of an element: its position in memory order, on its first line only
    pub open spec fn tag(&self, k: int, n: int) -> Seq<char> {
        match self.iw { None => Seq::empty(), Some(w) => (if k == 0 { pad_l(dec(n as nat), w) } else { pad_r(SPACE@, w) }) + pad_r(SPACE@, INNER_GAP as int) }
    }
    #[verifier::opaque]
    pub open spec fn cell(&self, r: int, k: int, c: int) -> Seq<char> {
        self.gap(c) + self.tag(k, self.p(r, c)) + pad_r(line_k(self.tx[self.p(r, c)], k), self.ew)
    }
    #[verifier::opaque]
    pub open spec fn cells(&self, r: int, k: int, c: int) -> Seq<char> decreases c {
        if c <= 0 { Seq::empty() } else { self.cells(r, k, c - 1) + self.cell(r, k, c - 1) }
    }
    #[verifier::opaque]
    pub open spec fn head(&self, r: int, k: int) -> Seq<char> {
        pad_r(SPACE@, TAB_SIZE as int)
            + (match self.iw { None => Seq::empty(), Some(w) => (if k == 0 { pad_l(dec(r as nat), w) } else { pad_r(SPACE@, w) }) + pad_r(SPACE@, OUTER_GAP as int) })
            + (if k == 0 { LEFT_DELIMITER@ } else { SPACE@ })
    }
    #[verifier::opaque]
    pub open spec fn line(&self, r: int, k: int) -> Seq<char> {
        self.head(r, k) + self.cells(r, k, self.nc()) + (if k == 0 { RIGHT_DELIMITER@ + "\n"@ } else { "\n"@ })
    }
    /// the first n lines of a row
    #[verifier::opaque]
    pub open spec fn row(&self, r: int, n: int) -> Seq<char> decreases n {
        if n <= 0 { Seq::empty() } else { self.row(r, n - 1) + self.line(r, n - 1) }
    }
    #[verifier::opaque]
    pub open spec fn height(&self) -> int { let h = eh(self.tx, self.tx.len() as int); if h < 1 { 1 } else { h } }
    #[verifier::opaque]
    pub open spec fn rows(&self, r: int) -> Seq<char> decreases r {
        if r <= 0 { Seq::empty() } else { self.rows(r - 1) + self.row(r - 1, self.height()) }
    }
    /// column numbers (Debug)
    #[verifier::opaque]
    pub open spec fn hcell(&self, c: int) -> Seq<char> {
        self.gap(c) + self.tag(0, c) + pad_r(SPACE@, self.ew)
    }
    #[verifier::opaque]
    pub open spec fn hcells(&self, c: int) -> Seq<char> decreases c {
        if c <= 0 { Seq::empty() } else { self.hcells(c - 1) + self.hcell(c - 1) }
    }
    #[verifier::opaque]
    pub open spec fn header(&self) -> Seq<char> {
        match self.iw { None => Seq::empty(), Some(w) =>
            pad_r(SPACE@, TAB_SIZE as int) + pad_r(SPACE@, w) + pad_r(SPACE@, OUTER_GAP as int) + SPACE@ + self.hcells(self.nc()) + "\n"@ }
    }
    #[verifier::opaque]
    pub open spec fn text(&self) -> Seq<char> {
        LEFT_DELIMITER@ + "\n"@ + self.header() + self.rows(self.nr()) + RIGHT_DELIMITER@
    }
}
pub open spec fn disp_tx<T: VpDisplay>(d: Seq<T>) -> Seq<Seq<Seq<char>>> { Seq::new(d.len(), |i: int| lines_of(d[i].disp())) }
pub open spec fn dbg_tx<T: VpDebug>(d: Seq<T>) -> Seq<Seq<Seq<char>>> { Seq::new(d.len(), |i: int| lines_of(d[i].dbg())) }
pub open spec fn disp_layout<T: VpDisplay>(m: &Matrix<T>) -> VpText {
    let tx = disp_tx(m.data@);
    VpText { tx, o: m.order, s: m.shape, ew: ew(tx, tx.len() as int), iw: None }
}
pub open spec fn dbg_layout<T: VpDebug>(m: &Matrix<T>) -> VpText {
    let tx = dbg_tx(m.data@);
    VpText { tx, o: m.order, s: m.shape, ew: ew(tx, tx.len() as int), iw: Some(dec(m.data@.len()).len() as int) }
}
pub open spec fn disp_text<T: VpDisplay>(m: &Matrix<T>) -> Seq<char> {
    if m.data@.len() == 0 { LEFT_DELIMITER@ + RIGHT_DELIMITER@ } else { disp_layout(m).text() }
}
pub open spec fn dbg_text<T: VpDebug>(m: &Matrix<T>) -> Seq<char> {
    if m.data@.len() == 0 { LEFT_DELIMITER@ + RIGHT_DELIMITER@ } else { dbg_layout(m).text() }
}

// ---------------------------------------------------------------- lemmas for the bodies

pub open spec fn p10(k: nat) -> nat decreases k { if k == 0 { 1 } else { 10 * p10((k - 1) as nat) } }
pub proof fn lemma_dec_len(n: nat, k: nat)
    requires k >= 1, n < p10(k),
    ensures 1 <= dec(n).len() <= k,
    decreases k,
{
    reveal(dec);
    reveal_with_fuel(p10, 2);
    if n >= 10 {
        assert(k >= 2) by { if k == 1 { assert(p10(1) == 10) by (compute); } }
        lemma_dec_len(n / 10, (k - 1) as nat);
    }
}
pub proof fn lemma_dec_usize(n: usize)
    ensures 1 <= dec(n as nat).len() <= 20,
{
    
    assert(p10(20) == 100000000000000000000) by (compute);
    lemma_dec_len(n as nat, 20);
}
pub proof fn lemma_dec_mono(a: nat, b: nat)
    requires a <= b,
    ensures 1 <= dec(a).len() <= dec(b).len(),
    decreases b,
{
    reveal(dec);
    if b >= 10 {
        if a >= 10 { lemma_dec_mono(a / 10, b / 10); } else { lemma_dec_mono(0, b / 10); }
    }
}
pub proof fn lemma_drained(l: Seq<Seq<char>>, k: int)
    requires 0 <= k,
    ensures
        drained(l, 0) == l,
        drained(l, k).len() > 0 <==> k < l.len(),
        k < l.len() ==> drained(l, k)[0] == line_k(l, k),
        k >= l.len() ==> line_k(l, k) == SPACE@,
        k < l.len() ==> drained(l, k).skip(1) == drained(l, k + 1),
        k >= l.len() ==> drained(l, k) == drained(l, k + 1),
{
    reveal(drained);
    assert(drained(l, 0) =~= l);
    if k < l.len() { assert(drained(l, k).skip(1) =~= drained(l, k + 1)); }
}
/// distinct logical positions have distinct places
pub proof fn lemma_lpos_inj(o: Order, s: AxisShape, r1: int, c1: int, r2: int, c2: int)
    requires 0 <= r1 < s.nr(o), 0 <= r2 < s.nr(o), 0 <= c1 < s.nc(o), 0 <= c2 < s.nc(o), (r1, c1) != (r2, c2),
    ensures lpos(o, s, r1, c1) != lpos(o, s, r2, c2),
{
    if lpos(o, s, r1, c1) == lpos(o, s, r2, c2) {
        if o == Order::RowMajor { lemma_pos_unique(r1, c1, r2, c2, s.minor as int); } else { lemma_pos_unique(c1, r1, c2, r2, s.minor as int); }
    }
}
/// the cache while line k of row r is printed, up to column c
#[verifier::opaque]
pub open spec fn cstate(cache: Seq<Lines>, l: VpText, r: int, k: int, c: int) -> bool {
    &&& cache.len() == l.tx.len()
    &&& forall|r2: int, c2: int| 0 <= r2 < l.nr() && 0 <= c2 < l.nc() && r2 >= r ==>
        lview(cache[#[trigger] l.p(r2, c2)]) == drained(l.tx[l.p(r2, c2)], if r2 > r { 0 } else if c2 < c { k + 1 } else { k })
}
pub open spec fn lwf(l: VpText) -> bool { l.tx.len() == l.s.sz() }
pub proof fn lemma_lp(l: VpText, r: int, c: int)
    requires lwf(l), 0 <= r < l.nr(), 0 <= c < l.nc(),
    ensures 0 <= l.p(r, c) < l.tx.len(),
{
    if l.o == Order::RowMajor { lemma_pos_bound(r, c, l.s.major as int, l.s.minor as int); } else { lemma_pos_bound(c, r, l.s.major as int, l.s.minor as int); }
}
pub proof fn lemma_cstate_init(cache: Seq<Lines>, l: VpText)
    requires lwf(l), cache.len() == l.tx.len(), forall|i: int| 0 <= i < cache.len() ==> lview(#[trigger] cache[i]) == l.tx[i],
    ensures cstate(cache, l, 0, 0, 0),
{
    reveal(cstate);
    assert forall|r2: int, c2: int| 0 <= r2 < l.nr() && 0 <= c2 < l.nc() && r2 >= 0 implies
        lview(cache[#[trigger] l.p(r2, c2)]) == drained(l.tx[l.p(r2, c2)], 0) by {
        lemma_lp(l, r2, c2);
        lemma_drained(l.tx[l.p(r2, c2)], 0);
    }
}
pub proof fn lemma_cstate_next(a: Seq<Lines>, b: Seq<Lines>, l: VpText, r: int, k: int, c: int)
    requires
        lwf(l), cstate(a, l, r, k, c), 0 <= r < l.nr(), 0 <= c < l.nc(), k >= 0,
        b.len() == a.len(), forall|i: int| 0 <= i < a.len() && i != l.p(r, c) ==> #[trigger] b[i] == a[i],
        lview(a[l.p(r, c)]).len() > 0 ==> lview(b[l.p(r, c)]) == lview(a[l.p(r, c)]).skip(1),
        lview(a[l.p(r, c)]).len() == 0 ==> lview(b[l.p(r, c)]) == lview(a[l.p(r, c)]),
    ensures cstate(b, l, r, k, c + 1),
{
    reveal(cstate);
    let q = l.p(r, c);
    assert forall|r2: int, c2: int| 0 <= r2 < l.nr() && 0 <= c2 < l.nc() && r2 >= r implies
        lview(b[#[trigger] l.p(r2, c2)]) == drained(l.tx[l.p(r2, c2)], if r2 > r { 0 } else if c2 < c + 1 { k + 1 } else { k }) by {
        lemma_lp(l, r2, c2);
        if r2 == r && c2 == c {
            lemma_drained(l.tx[q], k);
        } else {
            lemma_lpos_inj(l.o, l.s, r, c, r2, c2);
        }
    }
}
pub proof fn lemma_cstate_line(a: Seq<Lines>, l: VpText, r: int, k: int)
    requires cstate(a, l, r, k, l.nc()),
    ensures cstate(a, l, r, k + 1, 0), cstate(a, l, r + 1, 0, 0),
{
    reveal(cstate);
    assert forall|r2: int, c2: int| 0 <= r2 < l.nr() && 0 <= c2 < l.nc() && r2 >= r + 1 implies
        lview(a[#[trigger] l.p(r2, c2)]) == drained(l.tx[l.p(r2, c2)], 0) by {}
}

pub proof fn lemma_cache_len(a: Seq<Lines>, l: VpText, r: int, k: int, c: int)
    requires cstate(a, l, r, k, c), lwf(l), 0 <= r < l.nr(), 0 <= c < l.nc(),
    ensures a.len() == l.tx.len(), 0 <= l.p(r, c) < a.len(), lview(a[l.p(r, c)]) == drained(l.tx[l.p(r, c)], k),
{ reveal(cstate); lemma_lp(l, r, c); }
pub proof fn lemma_ext0(tx: Seq<Seq<Seq<char>>>)
    ensures ew(tx, 0) == 0, eh(tx, 0) == 0,
{ reveal(ew); reveal(eh); }
pub proof fn lemma_ext(tx: Seq<Seq<Seq<char>>>, n: int)
    requires n >= 0,
    ensures
        ew(tx, n + 1) == (if width_of(tx[n]) > ew(tx, n) { width_of(tx[n]) } else { ew(tx, n) }),
        eh(tx, n + 1) == (if tx[n].len() > eh(tx, n) { tx[n].len() as int } else { eh(tx, n) }),
{ reveal(ew); reveal(eh); }
impl VpText {
    pub proof fn lemma_cells(&self, r: int, k: int, c: int)
        requires c >= 0,
        ensures self.cells(r, k, 0) == Seq::<char>::empty(),
            self.cells(r, k, c + 1) == self.cells(r, k, c) + self.gap(c) + self.tag(k, self.p(r, c)) + pad_r(line_k(self.tx[self.p(r, c)], k), self.ew),
    { reveal(VpText::cells); reveal(VpText::cell); broadcast use {lemma_assoc, lemma_cat_empty}; }
    pub proof fn lemma_line(&self, r: int, k: int)
        ensures self.line(r, k) == self.head(r, k) + self.cells(r, k, self.nc()) + (if k == 0 { RIGHT_DELIMITER@ + "\n"@ } else { "\n"@ }),
    { reveal(VpText::line); }
    pub proof fn lemma_row(&self, r: int, n: int)
        requires n >= 0,
        ensures self.row(r, 0) == Seq::<char>::empty(), self.row(r, n + 1) == self.row(r, n) + self.line(r, n),
            n == 0 ==> self.row(r, 1) == self.line(r, 0),
    { reveal_with_fuel(VpText::row, 2); assert(Seq::<char>::empty() + self.line(r, 0) =~= self.line(r, 0)); }
    pub proof fn lemma_rows(&self, r: int)
        requires r >= 0,
        ensures self.rows(0) == Seq::<char>::empty(), self.rows(r + 1) == self.rows(r) + self.row(r, self.height()),
    { reveal(VpText::rows); }
    pub proof fn lemma_hcells(&self, c: int)
        requires c >= 0,
        ensures self.hcells(0) == Seq::<char>::empty(),
            self.hcells(c + 1) == self.hcells(c) + self.gap(c) + self.tag(0, c) + pad_r(SPACE@, self.ew),
    { reveal(VpText::hcells); reveal(VpText::hcell); broadcast use {lemma_assoc, lemma_cat_empty}; }
}
