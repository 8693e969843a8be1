//! C08: sizes at and beyond every limit. Calls that may have to allocate run
//! in a forked child whose allocator reports the attempt instead of serving it.
use crate::util::*;
use matreex::{Error, Matrix, Order};
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};

pub struct Watch;
/// requests above this end the process with status 77
pub static LIMIT: AtomicUsize = AtomicUsize::new(usize::MAX);
unsafe extern "C" {
    fn _exit(c: i32) -> !;
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn alarm(s: u32) -> u32;
}
// SAFETY: forwards to System
unsafe impl GlobalAlloc for Watch {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > LIMIT.load(SeqCst) {
            unsafe { _exit(77) }
        }
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > LIMIT.load(SeqCst) {
            unsafe { _exit(77) }
        }
        unsafe { System.realloc(p, l, n) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.size() > LIMIT.load(SeqCst) {
            unsafe { _exit(77) }
        }
        unsafe { System.alloc_zeroed(l) }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Outcome {
    Size,
    Capacity,
    Other,
    Alloc,
    Fine,
    Panic,
    Crash(i32),
}
use Outcome::*;

fn outcome(f: impl FnOnce() -> Result<(), Error>) -> Outcome {
    // SAFETY: single-threaded process; the child only runs `f` and exits
    unsafe {
        let pid = fork();
        if pid == 0 {
            LIMIT.store(1 << 32, SeqCst);
            alarm(20);
            let c = match catch(f) {
                Err(_) => 14,
                Ok(Ok(())) => 13,
                Ok(Err(Error::SizeOverflow)) => 10,
                Ok(Err(Error::CapacityOverflow)) => 11,
                Ok(Err(_)) => 12,
            };
            _exit(c)
        }
        let mut st = 0;
        waitpid(pid, &mut st, 0);
        if st & 0x7f != 0 {
            return Crash(st & 0x7f);
        }
        match st >> 8 & 0xff {
            10 => Size,
            11 => Capacity,
            12 => Other,
            13 => Fine,
            14 => Panic,
            77 => Alloc,
            c => Crash(1000 + c),
        }
    }
}
fn expect(f: impl FnOnce() -> Result<(), Error>, want: Outcome, what: &str) {
    let got = outcome(f);
    let words = |o: Outcome| match o {
        Size => "SizeOverflow".to_string(),
        Capacity => "CapacityOverflow".into(),
        Other => "another error".into(),
        Alloc => "the allocation is attempted".into(),
        Fine => "success".into(),
        Panic => "a panic".into(),
        Crash(14) => "no end within 20 s".into(),
        Crash(s) => format!("the process dies (signal or status {s})"),
    };
    check!(got == want, "{what}: got {}, expected {}", words(got), words(want));
}

/// what a call that wants `r`x`c` elements of `size` bytes must do
fn law(r: usize, c: usize, size: usize) -> Outcome {
    match r.checked_mul(c) {
        None => Size,
        Some(n) if n as u128 * size as u128 > isize::MAX as u128 => Capacity,
        Some(n) if n * size > 1 << 32 => Alloc,
        _ => Fine,
    }
}

pub fn shapes_for(size: usize) -> Vec<(usize, usize)> {
    let m = usize::MAX;
    let mut v = vec![
        (m, m), (m, 2), (2, m), (m, 1), (1, m), (m / 3, 3), (3, m / 3), (m / 3 + 1, 3), (3, m / 3 + 1), (1 << 32, 1 << 32), ((1 << 32) - 1, (1 << 32) + 1), (1 << 32, (1 << 32) - 1),
        (1 << 33, 1 << 31), (1 << 63, 2), (2, 1 << 63), (1 << 63, 1), (1, 1 << 63), ((1 << 32) + 1, 1 << 32), (641 * 65537, 6700417 * 257 * 51), (5, m / 5), (17, m / 17 + 1), (m - 1, 2), (m / 2 + 1, 2), (m / 2, 2),
        (m / 2, 3), ((1 << 32) + 7, (1 << 32) - 7), (m, 0), (0, m), (1 << 63, 0), (0, 1 << 63), (0, 0), (3, 2), (6, (m / 6) + 2), (1 << 62, 4), (1 << 62, 5), (1 << 61, 1 << 5),
    ];
    if size > 0 {
        let n = isize::MAX as usize / size;
        for k in [n - 1, n, n + 1, n + 2] {
            v.extend([(k, 1), (1, k)]);
            for f in [2usize, 3, 5, 7, 8, 49, 73, 127, 337, 1 << 20, 1 << 31, 1 << 32] {
                v.extend([(f, k / f), (k / f, f), (f, k / f + 1), (k / f + 1, f)]);
            }
        }
        // byte counts that wrap round to small numbers
        for k in [usize::MAX / size, (usize::MAX / size).wrapping_add(1), (usize::MAX / size).wrapping_add(2), usize::MAX / size / 4 * 3, (1 << 63) / size, (1usize << 63) / size + 1] {
            v.extend([(k, 1), (1, k), (2, k / 2), (k / 2 + 1, 2)]);
        }
    }
    v.sort();
    v.dedup();
    v
}

trait Sized_: Clone + Default + 'static {}
impl<T: Clone + Default + 'static> Sized_ for T {}

#[derive(Clone, Copy, Default)]
struct B3([u8; 3]);
#[derive(Clone, Copy, Default)]
struct B4096([[u64; 32]; 16]);
#[derive(Clone, Copy, Default)]
struct B24([u64; 3]);

/// zero-length operands whose product has shape (r, c)
fn operands(r: usize, c: usize, oa: Order, ob: Order) -> Option<(Matrix<u64>, Matrix<u64>)> {
    let mk = |r, c, o| {
        let mut m = build::<u64>(&Mdl::new(0, 0, o, |_, _| 0));
        m.reshape((r, c)).ok()?;
        Some(m)
    };
    Some((mk(r, 0, oa)?, mk(0, c, ob)?))
}

fn constructors<T: Sized_>(name: &str) {
    let size = size_of::<T>();
    for (r, c) in shapes_for(size) {
        let want = law(r, c, size);
        if size == 0 && r.checked_mul(c).is_some_and(|n| n > 1 << 20) {
            continue; // allowed to succeed, one element at a time
        }
        let fine = |m: Matrix<T>| -> Result<(), Error> {
            if (m.nrows(), m.ncols(), Some(m.size())) == (r, c, r.checked_mul(c)) { Result::Ok(()) } else { Err(Error::SizeMismatch) }
        };
        case!("with_default::<{name}>(({r}, {c}))");
        expect(|| fine(Matrix::<T>::with_default((r, c))?), want, "result");
        case!("with_value::<{name}>(({r}, {c}))");
        expect(|| fine(Matrix::<T>::with_value((r, c), T::default())?), want, "result");
        case!("with_initializer::<{name}>(({r}, {c}))");
        expect(
            || {
                let mut n = 0;
                match Matrix::<T>::with_initializer((r, c), |_| { n += 1; T::default() }) {
                    Result::Ok(m) => fine(m),
                    Err(_) if n > 0 => Err(Error::SizeMismatch),
                    Err(e) => Err(e),
                }
            },
            want,
            "result",
        );
        for o in ORDERS {
            case!("resize of a 1x1 Matrix<{name}> {o:?} to {r}x{c}");
            expect(
                || {
                    let mut m = Matrix::<T>::with_default((1, 1)).unwrap();
                    m.set_order_without_rearrangement(o);
                    let e = m.resize((r, c)).map(|_| ());
                    if e.is_ok() && (m.nrows(), m.ncols(), Some(m.size())) != (r, c, r.checked_mul(c)) {
                        return Err(Error::SizeMismatch);
                    }
                    if e.is_err() && (m.nrows(), m.ncols(), m.size()) != (1, 1, 1) {
                        return Err(Error::SizeMismatch);
                    }
                    e
                },
                want,
                "result",
            );
        }
        for (oa, ob) in [(ORDERS[0], ORDERS[1]), (ORDERS[1], ORDERS[1]), (ORDERS[1], ORDERS[0])] {
            if let Some((x, y)) = operands(r, c, oa, ob) {
                case!("multiplication_like_operation into Matrix<{name}>, {r}x0 {oa:?} by 0x{c} {ob:?}");
                expect(|| fine(x.clone().multiplication_like_operation(y.clone(), |_, _| T::default())?), want, "result");
            }
        }
    }
}

macro_rules! sized {
    ($($t:ident $n:expr),*) => { $(
        #[derive(Clone, Copy, Default)]
        pub struct $t(#[allow(dead_code)] [u8; $n]);
        impl std::ops::Mul for $t { type Output = $t; fn mul(self, _: $t) -> $t { self } }
        impl std::ops::Add for $t { type Output = $t; fn add(self, _: $t) -> $t { self } }
    )* }
}
sized!(P1 1, P3 3, P16 16);

fn products<T: Sized_ + std::ops::Mul<Output = T> + std::ops::Add<Output = T>>(name: &str) {
    for (r, c) in shapes_for(size_of::<T>()) {
        let mk = |r, c| {
            let mut m = Matrix::<T>::new();
            m.reshape((r, c)).ok()?;
            Some(m)
        };
        let (Some(x), Some(y)) = (mk(r, 0), mk(0, c)) else { continue };
        let want = law(r, c, size_of::<T>());
        case!("multiply of a {r}x0 by a 0x{c} Matrix<{name}>");
        expect(|| x.clone().multiply(y.clone()).map(|_| ()), want, "result");
        case!("&M * &M of a {r}x0 by a 0x{c} Matrix<{name}>");
        let w = if want == Size || want == Capacity { Panic } else { want };
        expect(|| Result::Ok(drop(&x * &y)), w, "result");
    }
}

/// every mapping-style operation from `n` zero-sized elements to `U`
fn mapping<U: Sized_ + Send>(name: &str) {
    let size = size_of::<U>();
    let n0 = isize::MAX as usize / size;
    for n in [n0 - 1, n0, n0 + 1, usize::MAX, (usize::MAX / size).wrapping_add(1), (usize::MAX / size).wrapping_add(2), 1 << 63, 5] {
        if n == 0 || (n < 1 << 32 && n > 1000) {
            continue;
        }
        for rows in [true, false] {
            let o = if rows { Order::RowMajor } else { Order::ColMajor };
            let want = law(n, 1, size);
            let mk = || huge::<Z1>(rows, o, n);
            let ok = |m: Matrix<U>| -> Result<(), Error> {
                if m.size() == n && m.nrows() * m.ncols() == n { Result::Ok(()) } else { Err(Error::SizeMismatch) }
            };
            macro_rules! go {
                ($w:literal, |$m:ident, $k:ident| $e:expr) => {
                    case!("{} of {n} zero-sized elements into {name}, {o:?}", $w);
                    expect(
                        || {
                            #[allow(unused_variables)]
                            let $k = ();
                            let $m = mk();
                            match $e {
                                Result::Ok(m) => ok(m),
                                Err(e) => Err(e),
                            }
                        },
                        want,
                        "result",
                    );
                };
            }
            go!("map", |m, k| m.map(|_| U::default()));
            go!("map_ref", |m, k| m.map_ref(|_| U::default()));
            go!("scalar_operation", |m, k| m.scalar_operation(&1, |_, _| U::default()));
            go!("scalar_operation_consume_self", |m, k| m.scalar_operation_consume_self(&1, |_, _| U::default()));
            go!("elementwise_operation", |m, k| { let z = mk(); m.elementwise_operation(&z, |_, _| U::default()) });
            go!("elementwise_operation_consume_self", |m, k| { let z = mk(); m.elementwise_operation_consume_self(&z, |_, _| U::default()) });
            if want != Fine {
                #[cfg(feature = "parallel")]
                if want == Capacity {
                    go!("par_map", |m, k| m.par_map(|_| U::default()));
                    go!("par_map_ref", |m, k| m.par_map_ref(|_| U::default()));
                }
            }
        }
    }
}

// zero-sized operands with sized results, for the named methods and operators
#[derive(Clone, Copy, Default)]
struct Q;
macro_rules! q { ($($tr:ident $f:ident),*) => { $( impl std::ops::$tr<Q> for Q { type Output = P3; fn $f(self, _: Q) -> P3 { P3::default() } } )* } }
q!(Add add, Sub sub, Mul mul, Div div, Rem rem);
impl std::ops::Neg for Q {
    type Output = P3;
    fn neg(self) -> P3 {
        P3::default()
    }
}
fn named() {
    let n0 = isize::MAX as usize / 3;
    for n in [n0, n0 + 1, usize::MAX, (usize::MAX / 3) + 1] {
        let mk = || {
            let mut v: Vec<Q> = vec![];
            // SAFETY: Q is zero-sized
            unsafe { v.set_len(n) };
            Matrix::from_row(v)
        };
        let want = law(n, 1, 3);
        let wop = if want == Capacity { Panic } else { want };
        macro_rules! m { ($($f:ident)*) => { $( case!("{} of {n} zero-sized elements into 3-byte ones", stringify!($f)); expect(|| mk().$f(&mk()).map(|_| ()), want, "result"); )* } }
        m!(elementwise_add elementwise_sub elementwise_mul elementwise_div elementwise_rem elementwise_add_consume_self elementwise_sub_consume_self elementwise_mul_consume_self elementwise_div_consume_self elementwise_rem_consume_self);
        macro_rules! o { ($($op:tt)*) => { $( case!("{} of {n} zero-sized elements into 3-byte ones", stringify!($op)); expect(|| { let _ = mk() $op mk(); Result::Ok(()) }, wop, "owned operands"); expect(|| { let _ = &mk() $op &mk(); Result::Ok(()) }, wop, "borrowed operands"); )* } }
        o!(+ -);
        case!("negation of {n} zero-sized elements into 3-byte ones");
        expect(|| { let _ = -mk(); Result::Ok(()) }, wop, "owned");
        expect(|| { let _ = -&mk(); Result::Ok(()) }, wop, "borrowed");
    }
}

fn conversions() {
    // rows of zero-sized elements, as long as a row can be
    let row = |n: usize| {
        let mut v: Vec<Z1> = vec![];
        // SAFETY: zero-sized
        unsafe { v.set_len(n) };
        v
    };
    for n in [usize::MAX, usize::MAX / 2 + 1, usize::MAX / 3 + 1] {
        for k in [2usize, 3, 4] {
            if n.checked_mul(k).is_some() {
                continue;
            }
            case!("TryFrom<Vec<Vec<_>>> of {k} rows of {n} zero-sized elements");
            expect(|| Matrix::try_from((0..k).map(|_| row(n)).collect::<Vec<_>>()).map(|_| ()), Size, "result");
            case!("TryFrom<&[Vec<_>]> of {k} rows of {n} zero-sized elements");
            expect(|| Matrix::try_from(&(0..k).map(|_| row(n)).collect::<Vec<_>>()[..]).map(|_| ()), Size, "result");
        }
        case!("TryFrom<[Vec<_>; 4]> of rows of {n} zero-sized elements");
        expect(|| Matrix::try_from([row(n), row(n), row(n), row(n)]).map(|_| ()), Size, "result");
    }
    for k in 1..4 {
        case!("{k} rows of 2 elements");
        expect(|| Matrix::try_from((0..k).map(|_| vec![1u8, 2]).collect::<Vec<_>>()).map(|_| ()), Fine, "result");
        expect(|| Matrix::try_from(&(0..k).map(|_| vec![1u8, 2]).collect::<Vec<_>>()[..]).map(|_| ()), Fine, "result");
    }
}

/// elements so large that the capacity of even a handful of them overflows:
/// matrices without elements must still be made
#[derive(Clone)]
pub struct Big(#[allow(dead_code)] [u8; 1 << 44]);
fn big() {
    // more rows than such elements fit in the address space
    const N: usize = 600_000;
    let quiet = |f: &mut dyn FnMut() -> Result<Matrix<Big>, Error>, r: usize, c: usize, what: &str| {
        case!("{what}, {r}x{c} elements of 16 TiB");
        let got = outcome(|| {
            let m = f()?;
            if (m.nrows(), m.ncols(), m.size()) == (r, c, 0) { Result::Ok(()) } else { Err(Error::SizeMismatch) }
        });
        // a crash decides nothing: code that moves such an element needs a stack for it
        check!(matches!(got, Fine | Crash(_)), "got {got:?}, expected success");
    };
    let rows = |n: usize| -> Vec<Vec<Big>> { (0..n).map(|_| vec![]).collect() };
    quiet(&mut || Matrix::try_from(rows(N)), N, 0, "TryFrom<Vec<Vec<_>>>");
    quiet(&mut || Matrix::try_from(&rows(N)[..]), N, 0, "TryFrom<&[Vec<_>]>");
    quiet(&mut || Result::Ok(rows(N).into_iter().collect()), N, 0, "FromIterator");
    quiet(&mut || Result::Ok(Matrix::from((0..N).map(|_| []).collect::<Vec<[Big; 0]>>())), N, 0, "From<Vec<[_; 0]>>");
    quiet(&mut || Result::Ok(Matrix::from(&(0..N).map(|_| []).collect::<Vec<[Big; 0]>>()[..])), N, 0, "From<&[[_; 0]]>");
    quiet(&mut || Matrix::try_from({ let a: [Vec<Big>; 4096] = std::array::from_fn(|_| vec![]); a }).map(|m| { let _ = m; Matrix::new() }), 0, 0, "TryFrom<[Vec<_>; 4096]>");
}
/// results whose elements are far larger than the ones they come from
struct Vast(#[allow(dead_code)] [u64; 1 << 57]);
impl Default for Vast {
    fn default() -> Vast {
        unreachable!()
    }
}
fn grow<T: Clone + Default + Send + Sync>() {
    for (r, c) in [(1, 8), (8, 1), (3, 4), (2, 600)] {
        for o in ORDERS {
            let m = || { let mut m = Matrix::<T>::with_default((r, c)).unwrap(); m.set_order(o); m };
            let deny = |f: &mut dyn FnMut() -> Result<Matrix<Vast>, Error>, what: &str| {
                case!("{what} of a {r}x{c} {o:?} matrix of {}-byte elements to ones of 2^60 bytes", size_of::<T>());
                // a crash decides nothing: code that moves such an element needs a stack for it
                match outcome(|| f().map(|_| ())) {
                    Crash(_) => {}
                    got => check!(got == Capacity, "got {got:?}, expected CapacityOverflow"),
                }
            };
            deny(&mut || m().map(|_| unreachable!()), "map");
            deny(&mut || m().map_ref(|_| unreachable!()), "map_ref");
            deny(&mut || m().scalar_operation(&1, |_, _| unreachable!()), "scalar_operation");
            deny(&mut || m().scalar_operation_consume_self(&1, |_, _| unreachable!()), "scalar_operation_consume_self");
            for q in ORDERS {
                let n = || { let mut m = Matrix::<u8>::with_default((r, c)).unwrap(); m.set_order(q); m };
                deny(&mut || m().elementwise_operation(&n(), |_, _| unreachable!()), "elementwise_operation");
                deny(&mut || m().elementwise_operation_consume_self(&n(), |_, _| unreachable!()), "elementwise_operation_consume_self");
                for k in [0, 2] {
                    let a = || { let mut m = Matrix::<T>::with_default((r, k)).unwrap(); m.set_order(o); m };
                    let b = || { let mut m = Matrix::<u8>::with_default((k, c)).unwrap(); m.set_order(q); m };
                    deny(&mut || a().multiplication_like_operation(b(), |_, _| unreachable!()), "multiplication_like_operation");
                }
            }
            #[cfg(feature = "parallel")]
            {
                deny(&mut || m().par_map(|_| unreachable!()), "par_map");
                deny(&mut || m().par_map_ref(|_| unreachable!()), "par_map_ref");
            }
        }
    }
}
/// shapes without elements whose other dimension is as long as it can be
fn empty() {
    let quiet = |f: &mut dyn FnMut() -> Result<Matrix<B4096>, Error>, r: usize, c: usize, what: &str| {
        case!("{what}, {r}x{c} elements of 4096 bytes");
        expect(
            || {
                let m = f()?;
                if (m.nrows(), m.ncols(), m.size()) == (r, c, 0) { Result::Ok(()) } else { Err(Error::SizeMismatch) }
            },
            Fine,
            "result",
        );
    };
    for (r, c) in [(1 << 62, 0), (0, 1 << 62), (usize::MAX, 0), (0, usize::MAX)] {
        quiet(&mut || Matrix::with_initializer((r, c), |_| unreachable!()), r, c, "with_initializer");
        quiet(&mut || { let mut m = Matrix::new(); m.reshape((r, c))?; Result::Ok(m) }, r, c, "reshape of an empty matrix");
        quiet(&mut || { let mut m = Matrix::new(); m.reshape((r, c))?; m.transpose(); Result::Ok(m) }, c, r, "transpose");
        quiet(&mut || { let mut m = Matrix::<B4096>::new(); m.reshape((r, c))?; Result::Ok(m.clone()) }, r, c, "clone");
        quiet(&mut || { let mut m = Matrix::new(); m.reshape((r, c))?; m.set_order(Order::ColMajor); m.shrink_to_fit(); Result::Ok(m) }, r, c, "set_order, shrink_to_fit");
        let z = || { let mut m = Matrix::<u8>::new(); m.reshape((r, c)).unwrap(); m };
        quiet(&mut || z().map(|_| unreachable!()), r, c, "map");
        quiet(&mut || z().map_ref(|_| unreachable!()), r, c, "map_ref");
        quiet(&mut || z().scalar_operation(&1, |_, _| unreachable!()), r, c, "scalar_operation");
        quiet(&mut || z().scalar_operation_consume_self(&1, |_, _| unreachable!()), r, c, "scalar_operation_consume_self");
        quiet(&mut || z().elementwise_operation(&z(), |_, _| unreachable!()), r, c, "elementwise_operation");
        quiet(&mut || z().elementwise_operation_consume_self(&z(), |_, _| unreachable!()), r, c, "elementwise_operation_consume_self");
        #[cfg(feature = "parallel")]
        {
            quiet(&mut || z().par_map(|_| unreachable!()), r, c, "par_map");
            quiet(&mut || z().par_map_ref(|_| unreachable!()), r, c, "par_map_ref");
        }
        if c == 0 {
            quiet(&mut || { let mut m = Matrix::<u8>::new(); m.reshape((0, 0))?; z().multiplication_like_operation(m, |_, _| unreachable!()) }, r, 0, "multiplication_like_operation");
        }
    }
}

fn reshapes() {
    for (r, c) in shapes_for(8) {
        for o in ORDERS {
            for (a, b) in [(0, 0), (2, 3), (1, 1)] {
                case!("reshape of a {a}x{b} {o:?} matrix to {r}x{c}");
                let mut m = build::<u64>(&Mdl::seq(a, b, o, 1));
                let fits = r.checked_mul(c) == Some(a * b);
                match catch(|| m.reshape((r, c)).map(|_| ())) {
                    Err(p) => fail(format!("panics: {p}")),
                    Result::Ok(e) => check_eq!(e, if fits { Result::Ok(()) } else { Err(Error::SizeMismatch) }, "result"),
                }
                check_eq!((m.nrows(), m.ncols(), m.size()), if fits { (r, c, a * b) } else { (a, b, a * b) }, "shape afterwards");
            }
        }
        case!("Shape::new({r}, {c}).size()");
        check_eq!(matreex::Shape::new(r, c).size(), r.checked_mul(c).ok_or(Error::SizeOverflow), "result");
    }
}

pub fn run(_cfg: &Cfg) {
    constructors::<u8>("u8");
    constructors::<B3>("3 bytes");
    constructors::<u64>("u64");
    constructors::<B24>("24 bytes");
    constructors::<B4096>("4096 bytes");
    constructors::<Z1>("zero-sized");
    constructors::<String>("String");
    products::<P1>("1 byte");
    products::<P3>("3 bytes");
    products::<P16>("16 bytes");
    mapping::<u8>("u8");
    mapping::<B3>("3 bytes");
    mapping::<u64>("u64");
    mapping::<B24>("24 bytes");
    named();
    conversions();
    big();
    empty();
    grow::<u8>();
    grow::<u64>();
    grow::<[u64; 5]>();
    grow::<()>();
    reshapes();
}
