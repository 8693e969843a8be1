//! Shared pieces of the executable contracts: case bookkeeping, instrumented
//! element types, the row-of-rows reference model, matrix builders.
use matreex::{Index, Matrix, Order, Shape};
use std::any::Any;
use std::fmt;
use std::io::Write;
use std::panic::{AssertUnwindSafe, catch_unwind, panic_any, resume_unwind};
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, AtomicUsize, Ordering::SeqCst};

// ------------------------------------------------------------ cases

pub static CASE: Mutex<String> = Mutex::new(String::new());
pub static NCASES: AtomicU64 = AtomicU64::new(0);
pub static LAST_PANIC: Mutex<String> = Mutex::new(String::new());
pub static TRACE: Mutex<Option<std::fs::File>> = Mutex::new(None);
static TRACING: AtomicBool = AtomicBool::new(false);

pub fn enable_trace(path: &str) {
    *TRACE.lock().unwrap() = Some(std::fs::File::create(path).unwrap());
    TRACING.store(true, SeqCst);
}
pub fn set_case(s: String) {
    NCASES.fetch_add(1, SeqCst);
    if TRACING.load(SeqCst) {
        if let Some(f) = TRACE.lock().unwrap().as_mut() {
            let _ = writeln!(f, "{s}");
        }
    }
    *lock(&CASE) = s;
}
pub fn lock<T>(m: &Mutex<T>) -> std::sync::MutexGuard<'_, T> {
    m.lock().unwrap_or_else(|e| e.into_inner())
}

pub struct Failure(pub String);
pub struct SetupFailure(pub String);
pub struct Boom;

pub fn fail(s: String) -> ! {
    panic_any(Failure(s))
}
#[macro_export]
macro_rules! case { ($($t:tt)*) => { $crate::util::set_case(format!($($t)*)) } }
#[macro_export]
macro_rules! check { ($c:expr, $($t:tt)*) => { if !($c) { $crate::util::fail(format!($($t)*)) } } }
#[macro_export]
macro_rules! check_eq { ($a:expr, $b:expr, $($t:tt)*) => { { let (a, b) = (&$a, &$b); if a != b { $crate::util::fail(format!("{}: got {:?}, expected {:?}", format!($($t)*), a, b)) } } } }

/// Runs code under test. `Ok` its value, `Err(message)` if it panicked;
/// failures of the checks themselves pass through.
pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(p) => {
            if p.is::<Failure>() || p.is::<SetupFailure>() {
                resume_unwind(p)
            }
            Err(payload(&p))
        }
    }
}
pub fn payload(p: &Box<dyn Any + Send>) -> String {
    if p.is::<Boom>() {
        "caller's panic".into()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else {
        "panic".into()
    }
}

// ------------------------------------------------------------ random

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
}

// ------------------------------------------------------------ panics injected into caller code

pub static FUSE: AtomicI64 = AtomicI64::new(-1);
/// every piece of caller code ticks; the one that burns the fuse panics
pub fn tick() {
    if FUSE.load(SeqCst) >= 0 && FUSE.fetch_sub(1, SeqCst) == 0 && !std::thread::panicking() {
        panic_any(Boom)
    }
}
pub fn arm(n: i64) {
    FUSE.store(n, SeqCst)
}
pub fn burnt() -> bool {
    FUSE.load(SeqCst) < 0
}

// ------------------------------------------------------------ element types

const MAGIC: u64 = 0x5EED_1E55_0DD5_EED5;
pub static CLONES: AtomicUsize = AtomicUsize::new(0);
pub static DROPS: AtomicUsize = AtomicUsize::new(0);
pub static MADE: AtomicUsize = AtomicUsize::new(0);
pub static DEFAULTS: AtomicUsize = AtomicUsize::new(0);
pub static BAD: Mutex<Vec<String>> = Mutex::new(vec![]);
static ALIVE: Mutex<Vec<bool>> = Mutex::new(vec![]);

/// Owns heap memory, knows whether it is alive, counts clones and drops.
pub struct Tok {
    v: u64,
    inst: usize,
    magic: u64,
    heap: Box<u64>,
}
fn fresh() -> usize {
    MADE.fetch_add(1, SeqCst);
    let mut a = lock(&ALIVE);
    a.push(true);
    a.len() - 1
}
impl Tok {
    pub fn new(v: u64) -> Tok {
        Tok { v, inst: fresh(), magic: MAGIC, heap: Box::new(v) }
    }
    pub fn get(&self) -> u64 {
        if self.magic != MAGIC {
            fail("an element that is not a live value (uninitialised or freed memory) was reached".into())
        }
        if !lock(&ALIVE).get(self.inst).copied().unwrap_or(false) {
            fail(format!("element instance {} (value {}) was reached after it was dropped", self.inst, self.v))
        }
        if *self.heap != self.v {
            fail("element contents corrupted".into())
        }
        self.v
    }
    pub fn inst(&self) -> usize {
        self.get();
        self.inst
    }
    pub fn set(&mut self, v: u64) {
        self.get();
        self.v = v;
        *self.heap = v;
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        let ok = self.magic == MAGIC && lock(&ALIVE).get(self.inst).copied().unwrap_or(false);
        if !ok {
            lock(&BAD).push(format!("element instance {} dropped twice or never initialised", self.inst));
            // the allocation is gone: leak what we hold, exit through the check
            let b = std::mem::replace(&mut self.heap, Box::new(0));
            std::mem::forget(b);
            return;
        }
        lock(&ALIVE)[self.inst] = false;
        self.magic = 0xDEAD;
        DROPS.fetch_add(1, SeqCst);
        tick();
    }
}
impl Clone for Tok {
    fn clone(&self) -> Tok {
        CLONES.fetch_add(1, SeqCst);
        tick();
        Tok::new(self.get())
    }
}
impl Default for Tok {
    fn default() -> Tok {
        DEFAULTS.fetch_add(1, SeqCst);
        tick();
        Tok::new(DEFV)
    }
}
pub const DEFV: u64 = 0;
impl PartialEq for Tok {
    fn eq(&self, o: &Tok) -> bool {
        tick();
        self.get() == o.get()
    }
}
impl fmt::Debug for Tok {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        tick();
        write!(f, "{}", self.get())
    }
}
impl fmt::Display for Tok {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        tick();
        write!(f, "{}", self.get())
    }
}

/// Counters at the start of a case; see `Ledger::settle`.
pub struct Ledger {
    made: usize,
    drops: usize,
    clones: usize,
}
impl Ledger {
    pub fn open() -> Ledger {
        arm(-1);
        Ledger { made: MADE.load(SeqCst), drops: DROPS.load(SeqCst), clones: CLONES.load(SeqCst) }
    }
    pub fn clones(&self) -> usize {
        CLONES.load(SeqCst) - self.clones
    }
    pub fn drops(&self) -> usize {
        DROPS.load(SeqCst) - self.drops
    }
    pub fn made(&self) -> usize {
        MADE.load(SeqCst) - self.made
    }
    pub fn alive(&self) -> usize {
        self.made() - self.drops()
    }
    pub fn no_bad(&self) {
        let b = lock(&BAD);
        if let Some(m) = b.first() {
            let m = m.clone();
            drop(b);
            fail(m)
        }
    }
    /// every element made since `open` is gone, none of them twice
    pub fn settle(&self) {
        self.no_bad();
        check!(self.alive() == 0, "{} element(s) leaked", self.alive());
    }
}

/// Zero-sized, counted.
pub struct Z;
#[derive(Clone, Copy, PartialEq, Debug, Default)]
#[repr(align(16))]
pub struct ZA;
#[derive(Clone, Copy, PartialEq, Debug, Default)]
pub struct Z1;
impl Drop for Z {
    fn drop(&mut self) {
        DROPS.fetch_add(1, SeqCst);
        tick();
    }
}
impl Z {
    pub fn new() -> Z {
        MADE.fetch_add(1, SeqCst);
        Z
    }
}
impl Clone for Z {
    fn clone(&self) -> Z {
        CLONES.fetch_add(1, SeqCst);
        tick();
        Z::new()
    }
}
impl Default for Z {
    fn default() -> Z {
        DEFAULTS.fetch_add(1, SeqCst);
        tick();
        Z::new()
    }
}
impl PartialEq for Z {
    fn eq(&self, _: &Z) -> bool {
        tick();
        true
    }
}

pub trait El: Sized + 'static + Clone + PartialEq + Default {
    const ZST: bool = size_of::<Self>() == 0;
    const NAME: &'static str;
    fn mk(v: u64) -> Self;
    fn val(&self) -> u64;
    fn put(&mut self, v: u64);
    /// `v` as this type can hold it
    fn lim(v: u64) -> u64 {
        if Self::ZST { 0 } else { v }
    }
}
impl El for Tok {
    const NAME: &'static str = "Tok";
    fn mk(v: u64) -> Tok {
        Tok::new(v)
    }
    fn val(&self) -> u64 {
        self.get()
    }
    fn put(&mut self, v: u64) {
        self.set(v)
    }
}
impl El for Z {
    const NAME: &'static str = "Z";
    fn mk(_: u64) -> Z {
        Z::new()
    }
    fn val(&self) -> u64 {
        0
    }
    fn put(&mut self, _: u64) {}
}
impl El for ZA {
    const NAME: &'static str = "ZA(align 16)";
    fn mk(_: u64) -> ZA {
        ZA
    }
    fn val(&self) -> u64 {
        check!(self as *const ZA as usize % 16 == 0, "misaligned reference");
        0
    }
    fn put(&mut self, _: u64) {
        check!(self as *const ZA as usize % 16 == 0, "misaligned reference");
    }
}
impl El for Z1 {
    const NAME: &'static str = "Z1";
    fn mk(_: u64) -> Z1 {
        Z1
    }
    fn val(&self) -> u64 {
        0
    }
    fn put(&mut self, _: u64) {}
}
impl El for u8 {
    const NAME: &'static str = "u8";
    fn mk(v: u64) -> u8 {
        v as u8
    }
    fn val(&self) -> u64 {
        *self as u64
    }
    fn put(&mut self, v: u64) {
        *self = v as u8
    }
    fn lim(v: u64) -> u64 {
        v & 255
    }
}
impl El for u64 {
    const NAME: &'static str = "u64";
    fn mk(v: u64) -> u64 {
        v
    }
    fn val(&self) -> u64 {
        *self
    }
    fn put(&mut self, v: u64) {
        *self = v
    }
}
impl El for String {
    const NAME: &'static str = "String";
    fn mk(v: u64) -> String {
        v.to_string()
    }
    fn val(&self) -> u64 {
        if self.is_empty() { 0 } else { self.parse().unwrap_or_else(|_| fail("corrupt string element".into())) }
    }
    fn put(&mut self, v: u64) {
        *self = v.to_string()
    }
}
/// odd size, align 2
impl El for [u16; 3] {
    const NAME: &'static str = "[u16;3]";
    fn mk(v: u64) -> [u16; 3] {
        [v as u16, (v >> 16) as u16, (v as u16) ^ 0x5a5a ^ (v >> 16) as u16]
    }
    fn val(&self) -> u64 {
        if *self == [0; 3] {
            return 0;
        }
        check!(self[2] == self[0] ^ self[1] ^ 0x5a5a, "torn element {self:?}");
        self[0] as u64 | (self[1] as u64) << 16
    }
    fn put(&mut self, v: u64) {
        *self = El::mk(v)
    }
    fn lim(v: u64) -> u64 {
        v & 0xffff_ffff
    }
}

// ------------------------------------------------------------ the reference model

pub const ORDERS: [Order; 2] = [Order::RowMajor, Order::ColMajor];
pub fn flip(o: Order) -> Order {
    if o == Order::RowMajor { Order::ColMajor } else { Order::RowMajor }
}

/// A plain row-of-rows matrix of values plus the storage order.
#[derive(Clone, PartialEq, Debug)]
pub struct Mdl {
    pub nr: usize,
    pub nc: usize,
    pub o: Order,
    pub rows: Vec<Vec<u64>>,
}
impl Mdl {
    pub fn new(nr: usize, nc: usize, o: Order, mut f: impl FnMut(usize, usize) -> u64) -> Mdl {
        Mdl { nr, nc, o, rows: (0..nr).map(|r| (0..nc).map(|c| f(r, c)).collect()).collect() }
    }
    /// distinct non-zero values
    pub fn seq(nr: usize, nc: usize, o: Order, base: u64) -> Mdl {
        Mdl::new(nr, nc, o, |r, c| base + (r * nc + c) as u64)
    }
    pub fn from_mem(nr: usize, nc: usize, o: Order, mem: &[u64]) -> Mdl {
        Mdl::new(nr, nc, o, |r, c| mem[if o == Order::RowMajor { r * nc + c } else { c * nr + r }])
    }
    pub fn mem(&self) -> Vec<u64> {
        let mut v = vec![];
        if self.o == Order::RowMajor {
            for r in 0..self.nr {
                for c in 0..self.nc {
                    v.push(self.rows[r][c])
                }
            }
        } else {
            for c in 0..self.nc {
                for r in 0..self.nr {
                    v.push(self.rows[r][c])
                }
            }
        }
        v
    }
    pub fn pos(&self, r: usize, c: usize) -> usize {
        if self.o == Order::RowMajor { r * self.nc + c } else { c * self.nr + r }
    }
    pub fn transposed(&self) -> Mdl {
        Mdl::new(self.nc, self.nr, self.o, |r, c| self.rows[c][r])
    }
    pub fn lim<T: El>(&self) -> Mdl {
        Mdl::new(self.nr, self.nc, self.o, |r, c| T::lim(self.rows[r][c]))
    }
    pub fn with_order(&self, o: Order) -> Mdl {
        Mdl { o, ..self.clone() }
    }
    pub fn map(&self, f: impl Fn(u64) -> u64) -> Mdl {
        Mdl::new(self.nr, self.nc, self.o, |r, c| f(self.rows[r][c]))
    }
}

/// What a matrix looks like from outside: through `get`.
pub fn observe<T: El>(m: &Matrix<T>) -> Mdl {
    let (nr, nc) = (m.nrows(), m.ncols());
    check!(nr.checked_mul(nc) == Some(m.size()), "nrows {} * ncols {} does not equal size {}", nr, nc, m.size());
    Mdl::new(nr, nc, m.order(), |r, c| match m.get((r, c)) {
        Ok(e) => e.val(),
        Err(e) => fail(format!("get(({r}, {c})) on a {nr}x{nc} matrix gives {e:?}")),
    })
}
/// coherence of one matrix: shape, distinct live elements, agreeing counts
pub fn coherent<T: El>(m: &Matrix<T>) -> Mdl {
    let o = observe(m);
    check!(m.shape() == Shape::new(o.nr, o.nc), "shape() disagrees with nrows()/ncols()");
    check!(m.is_empty() == (m.size() == 0), "is_empty() disagrees with size()");
    check!(m.iter_elements().len() == m.size(), "iter_elements().len() {} disagrees with size() {}", m.iter_elements().len(), m.size());
    if !T::ZST {
        let mut addrs: Vec<usize> = vec![];
        for r in 0..o.nr {
            for c in 0..o.nc {
                addrs.push(m.get((r, c)).unwrap() as *const T as usize);
            }
        }
        addrs.sort();
        let n = addrs.len();
        addrs.dedup();
        check!(addrs.len() == n, "two positions share one element");
        let mut el: Vec<usize> = m.iter_elements().map(|e| e as *const T as usize).collect();
        el.sort();
        check!(el == addrs, "the positions do not cover exactly the stored elements");
    }
    check!(m.get((o.nr, 0)).is_err() && m.get((0, o.nc)).is_err(), "get succeeds outside the shape");
    o
}

fn verified<T: El>(m: &Matrix<T>, d: &Mdl) -> bool {
    (m.nrows(), m.ncols(), m.order(), m.size()) == (d.nr, d.nc, d.o, d.nr * d.nc)
        && m.iter_elements().map(|e| e.val()).eq(d.mem().into_iter().map(T::lim))
}

/// Builds the real matrix for a model by whichever way produces it.
pub fn build<T: El>(d: &Mdl) -> Matrix<T> {
    let fuse = FUSE.swap(-1, SeqCst);
    let mem = d.mem();
    let a = catch(|| {
        let (r, c) = if Matrix::<T>::new().order() == d.o { (d.nr, d.nc) } else { (d.nc, d.nr) };
        let mut it = mem.iter();
        let m = Matrix::<T>::with_initializer((r, c), |_| T::mk(*it.next().unwrap()));
        let mut m = m.ok()?;
        if m.order() != d.o {
            m.switch_order_without_rearrangement();
        }
        Some(m)
    });
    let mut got = None;
    if let Ok(Some(m)) = a {
        if verified(&m, d) {
            got = Some(m);
        }
    }
    if got.is_none() {
        let b = catch(|| {
            let mut m = Matrix::<T>::from_row(mem.iter().map(|v| T::mk(*v)).collect::<Vec<T>>());
            m.set_order_without_rearrangement(d.o);
            m.reshape((d.nr, d.nc)).ok()?;
            Some(m)
        });
        if let Ok(Some(m)) = b {
            if verified(&m, d) {
                got = Some(m);
            }
        }
    }
    if got.is_none() && d.nr > 0 {
        let b = catch(|| {
            let mut m = Matrix::<T>::try_from(d.rows.iter().map(|r| r.iter().map(|v| T::mk(*v)).collect()).collect::<Vec<Vec<T>>>()).ok()?;
            m.set_order(d.o);
            Some(m)
        });
        if let Ok(Some(m)) = b {
            if verified(&m, d) {
                got = Some(m);
            }
        }
    }
    FUSE.store(fuse, SeqCst);
    got.unwrap_or_else(|| panic_any(SetupFailure(format!("no way of building a {}x{} {:?} matrix works", d.nr, d.nc, d.o))))
}
pub fn mseq<T: El>(nr: usize, nc: usize, o: Order) -> (Matrix<T>, Mdl) {
    let d = Mdl::seq(nr, nc, o, 1).lim::<T>();
    (build(&d), d)
}

/// A matrix of `n` zero-sized elements (1 x n or n x 1) for astronomically large n.
pub fn huge<T: El>(rows: bool, o: Order, n: usize) -> Matrix<T> {
    assert!(T::ZST && !std::mem::needs_drop::<T>());
    let mut v: Vec<T> = Vec::new();
    // SAFETY: T is zero-sized with an alignment the dangling pointer honours.
    unsafe { v.set_len(n) };
    let mut m = if rows == (o == Order::RowMajor) { Matrix::from_row(v) } else { Matrix::from_col(v) };
    if m.order() != o {
        m.switch_order_without_rearrangement();
    }
    m
}

pub fn small(max: usize) -> Vec<(usize, usize)> {
    let mut v = vec![];
    for r in 0..=max {
        for c in 0..=max {
            v.push((r, c))
        }
    }
    v
}
/// shapes past likely thresholds
pub const BIG: [(usize, usize); 22] = [
    (1, 17), (17, 1), (7, 9), (9, 7), (8, 8), (10, 12), (16, 16), (15, 17), (16, 33), (33, 16), (31, 32), (32, 32), (2, 65), (65, 2), (1, 300), (300, 1),
    (64, 64), (63, 65), (3, 257), (257, 3), (100, 41), (5, 1030),
];
pub fn shapes(max: usize) -> Vec<(usize, usize)> {
    let mut v = small(max);
    v.extend(BIG);
    v
}

pub struct Cfg {
    pub deep: bool,
    pub seed: u64,
}

pub fn idx(i: Index) -> (usize, usize) {
    (i.row, i.col)
}
