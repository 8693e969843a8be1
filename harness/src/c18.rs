//! C18 scalar operators.
use crate::util::*;
use matreex::{Error, Matrix, Order};

trait Num: Copy + PartialEq + std::fmt::Debug {
    fn of(v: i32) -> Self;
    fn same(a: Self, b: Self) -> bool;
    const SIGNED: bool;
    fn extremes() -> Vec<Self>;
}
macro_rules! ints { ($($t:ident)*) => { $( impl Num for $t { fn of(v: i32) -> $t { v as $t } fn same(a: $t, b: $t) -> bool { a == b } const SIGNED: bool = $t::MIN != 0; fn extremes() -> Vec<$t> { vec![$t::MIN, $t::MIN + 1, $t::MAX, $t::MAX - 1, $t::MAX / 2, 0, 1, 2] } } )* } }
ints!(u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize);
macro_rules! floats { ($($t:ident)*) => { $( impl Num for $t { fn of(v: i32) -> $t { v as $t + if v % 2 == 0 { 0.5 } else { 0.0 } } fn same(a: $t, b: $t) -> bool { a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()) } const SIGNED: bool = true; fn extremes() -> Vec<$t> { vec![$t::NAN, $t::INFINITY, $t::NEG_INFINITY, -0.0, 0.0, 1.0, $t::MIN_POSITIVE, $t::MAX, 1e-300f64 as $t] } } )* } }
floats!(f32 f64);

fn cells<T: Copy>(m: &Matrix<T>) -> Vec<Vec<T>> {
    (0..m.nrows()).map(|i| (0..m.ncols()).map(|j| *m.get((i, j)).unwrap_or_else(|e| fail(format!("get gives {e:?}")))).collect()).collect()
}

/// got (or a panic) must be what the primitive operation gives (or panics)
fn judge<T: Num>(got: Result<Matrix<T>, String>, want: &Result<Vec<Vec<T>>, String>, dim: (usize, usize), o: Order, w: &str) {
    match (got, want) {
        (Err(_), Err(_)) => {}
        (Err(p), Ok(_)) => fail(format!("{w} panics: {p}")),
        (Ok(_), Err(p)) => fail(format!("{w} succeeds although the primitive operation panics: {p}")),
        (Ok(m), Ok(want)) => {
            check_eq!((m.nrows(), m.ncols(), m.size(), m.order()), (dim.0, dim.1, dim.0 * dim.1, o), "{w}: shape and order");
            let g = cells(&m);
            for i in 0..dim.0 {
                for j in 0..dim.1 {
                    check!(T::same(g[i][j], want[i][j]), "{w}: element ({i}, {j}) is {:?}, expected {:?}", g[i][j], want[i][j]);
                }
            }
        }
    }
}

fn matrix_of<T: Num>(dim: (usize, usize), o: Order, f: impl Fn(usize) -> T) -> Matrix<T> {
    let d = Mdl::seq(dim.0, dim.1, o, 0);
    build::<u64>(&d).map_ref(|v| f(*v as usize)).unwrap_or_else(|e| fail(format!("map_ref gives {e:?}")))
}

macro_rules! scalar_case {
    ($t:ident, $op:tt, $opa:tt, $dim:expr, $o:expr, $vals:expr, $s:expr) => {{
        let (dim, o, vals, s): ((usize, usize), Order, &dyn Fn(usize) -> $t, $t) = ($dim, $o, $vals, $s);
        let op = stringify!($op);
        let m: Matrix<$t> = matrix_of(dim, o, vals);
        let rows = cells(&m);
        case!("{} {}x{} {o:?}, elements {:?}, scalar {s:?}, operator {op}", stringify!($t), dim.0, dim.1, rows.iter().flatten().take(12).collect::<Vec<_>>());
        let left: Result<Vec<Vec<$t>>, String> = catch(|| rows.iter().map(|r| r.iter().map(|e| *e $op s).collect()).collect());
        let right: Result<Vec<Vec<$t>>, String> = catch(|| rows.iter().map(|r| r.iter().map(|e| s $op *e).collect()).collect());
        let refs = || -> Matrix<&$t> { m.map_ref(|e| e).unwrap() };
        let j = |g: Result<Matrix<$t>, String>, w: &str| judge(g, &left, dim, o, w);
        j(catch(|| m.clone() $op s), "Matrix<T> op T");
        j(catch(|| m.clone() $op &s), "Matrix<T> op &T");
        j(catch(|| &m $op s), "&Matrix<T> op T");
        j(catch(|| &m $op &s), "&Matrix<T> op &T");
        j(catch(|| refs() $op s), "Matrix<&T> op T");
        j(catch(|| refs() $op &s), "Matrix<&T> op &T");
        j(catch(|| &refs() $op s), "&Matrix<&T> op T");
        j(catch(|| &refs() $op &s), "&Matrix<&T> op &T");
        let j = |g: Result<Matrix<$t>, String>, w: &str| judge(g, &right, dim, o, w);
        j(catch(|| s $op m.clone()), "T op Matrix<T>");
        j(catch(|| s $op &m), "T op &Matrix<T>");
        j(catch(|| &s $op m.clone()), "&T op Matrix<T>");
        j(catch(|| &s $op &m), "&T op &Matrix<T>");
        j(catch(|| s $op refs()), "T op Matrix<&T>");
        j(catch(|| s $op &refs()), "T op &Matrix<&T>");
        j(catch(|| &s $op refs()), "&T op Matrix<&T>");
        j(catch(|| &s $op &refs()), "&T op &Matrix<&T>");
        judge(catch(|| { let mut k = m.clone(); k $opa s; k }), &left, dim, o, "Matrix<T> op= T");
        judge(catch(|| { let mut k = m.clone(); k $opa &s; k }), &left, dim, o, "Matrix<T> op= &T");
        judge(Ok(m), &Ok(rows), dim, o, "the borrowed operand afterwards");
    }};
}

macro_rules! scalar_type {
    ($t:ident, $deep:expr) => {{
        type T = $t;
        type V<'a> = &'a dyn Fn(usize) -> T;
        fn add(dim: (usize, usize), o: Order, v: V, s: T) { scalar_case!($t, +, +=, dim, o, v, s) }
        fn sub(dim: (usize, usize), o: Order, v: V, s: T) { scalar_case!($t, -, -=, dim, o, v, s) }
        fn mul(dim: (usize, usize), o: Order, v: V, s: T) { scalar_case!($t, *, *=, dim, o, v, s) }
        fn div(dim: (usize, usize), o: Order, v: V, s: T) { scalar_case!($t, /, /=, dim, o, v, s) }
        fn rem(dim: (usize, usize), o: Order, v: V, s: T) { scalar_case!($t, %, %=, dim, o, v, s) }
        let dims: Vec<(usize, usize)> = vec![(0, 0), (0, 2), (3, 0), (1, 1), (2, 3), (3, 2), (1, 4), (5, 7), (17, 3)];
        for dim in dims {
            for o in ORDERS {
                let small = |i: usize| T::of(1 + (i % 3) as i32);
                let mid = |i: usize| T::of(10 + (i % 7) as i32);
                for (vals, s) in [(&small as &dyn Fn(usize) -> T, 40), (&mid, 3), (&mid, 7), (&small, 1)] {
                    add(dim, o, vals, T::of(s));
                    sub(dim, o, vals, T::of(s));
                    mul(dim, o, vals, T::of(s));
                    div(dim, o, vals, T::of(s));
                    rem(dim, o, vals, T::of(s));
                }
                if T::SIGNED {
                    let neg = |i: usize| T::of((i % 9) as i32 * 2 - 9);
                    for s in [-3, 5, -1, 2] {
                        add(dim, o, &neg, T::of(s));
                        sub(dim, o, &neg, T::of(s));
                        mul(dim, o, &neg, T::of(s));
                        div(dim, o, &neg, T::of(s));
                        rem(dim, o, &neg, T::of(s));
                    }
                }
            }
        }
        // where the primitive operation overflows, divides by zero, or rounds
        let ext = T::extremes();
        for e in &ext {
            for s in &ext {
                let v = |_: usize| *e;
                add((1, 1), Order::RowMajor, &v, *s);
                sub((1, 1), Order::RowMajor, &v, *s);
                mul((1, 1), Order::ColMajor, &v, *s);
                div((1, 1), Order::RowMajor, &v, *s);
                rem((1, 1), Order::ColMajor, &v, *s);
            }
        }
    }};
}
macro_rules! neg_type {
    ($($t:ident)*) => { $( for dim in [(0, 0), (0, 3), (1, 1), (2, 3), (3, 2), (4, 5)] { for o in ORDERS {
        type T = $t;
        let f = |i: usize| T::of(i as i32 * 2 - 5);
        let m: Matrix<T> = matrix_of(dim, o, f);
        let rows = cells(&m);
        case!("{} {}x{} {o:?}, negation", stringify!($t), dim.0, dim.1);
        let want: Result<Vec<Vec<T>>, String> = Ok(rows.iter().map(|r| r.iter().map(|e| -*e).collect()).collect());
        judge(catch(|| -m.clone()), &want, dim, o, "-Matrix<T>");
        judge(catch(|| -&m), &want, dim, o, "-&Matrix<T>");
        judge(catch(|| -m.map_ref(|e| e).unwrap()), &want, dim, o, "-Matrix<&T>");
        judge(catch(|| -&m.map_ref(|e| e).unwrap()), &want, dim, o, "-&Matrix<&T>");
        for e in T::extremes() {
            let m: Matrix<T> = matrix_of((1, 1), o, |_| e);
            case!("{} 1x1 {o:?}, negation of {e:?}", stringify!($t));
            let want = catch(|| vec![vec![-e]]);
            judge(catch(|| -m.clone()), &want, (1, 1), o, "-Matrix<T>");
            judge(catch(|| -&m), &want, (1, 1), o, "-&Matrix<T>");
        }
    } } )* }
}

fn generic(r: usize, c: usize, o: Order) {
    case!("{r}x{c} {o:?}, scalar_operation family");
    let d = Mdl::seq(r, c, o, 1);
    let m = build::<Tok>(&d);
    let s = 7u64;
    let mut n = vec![0usize; r * c + 1];
    macro_rules! log { ($e:expr, $x:expr) => {{ n[$e as usize] += 1; check!(std::ptr::eq($x, &s), "the second argument is not the scalar"); }} }
    let once = |n: &mut Vec<usize>, w: &str| {
        check!(n[1..].iter().all(|k| *k == 1), "{w}: calls per element {n:?}");
        n.iter_mut().for_each(|k| *k = 0);
    };
    let want = d.map(|v| v * 100 + 7);
    let k = m.scalar_operation(&s, |e, x| { log!(e.get(), x); e.get() * 100 + x });
    check_eq!(observe(&k.unwrap()), want, "scalar_operation");
    once(&mut n, "scalar_operation");
    check_eq!(observe(&m), d, "the operand of scalar_operation");
    let k = m.clone().scalar_operation_consume_self(&s, |e, x| { log!(e.get(), x); e.get() * 100 + x });
    check_eq!(observe(&k.unwrap()), want, "scalar_operation_consume_self");
    once(&mut n, "scalar_operation_consume_self");
    let mut k = m.clone();
    k.scalar_operation_assign(&s, |e, x| { log!(e.get(), x); let v = e.get() * 100 + x; e.set(v) });
    check_eq!(observe(&k), want, "scalar_operation_assign");
    once(&mut n, "scalar_operation_assign");
}

pub fn run(_cfg: &Cfg) {
    for (r, c) in shapes(4) {
        for o in ORDERS {
            generic(r, c, o);
        }
    }
    scalar_type!(u8, cfg.deep);
    scalar_type!(u16, cfg.deep);
    scalar_type!(u32, cfg.deep);
    scalar_type!(u64, cfg.deep);
    scalar_type!(u128, cfg.deep);
    scalar_type!(usize, cfg.deep);
    scalar_type!(i8, cfg.deep);
    scalar_type!(i16, cfg.deep);
    scalar_type!(i32, cfg.deep);
    scalar_type!(i64, cfg.deep);
    scalar_type!(i128, cfg.deep);
    scalar_type!(isize, cfg.deep);
    scalar_type!(f32, cfg.deep);
    scalar_type!(f64, cfg.deep);
    neg_type!(i8 i16 i32 i64 i128 isize f32 f64);
}

