//! C11 product; C12 elementwise operations; C07 order transparency.
use crate::util::*;
use matreex::{Error, Matrix, Order};
use std::collections::BTreeMap;
use std::ops::*;

pub const BADSHAPE: Error = Error::ShapeNotConformable;

// symbolic elements: left factors, right factors, and sums of ordered pairs
#[derive(Clone, PartialEq, Debug)]
pub struct L(pub u64);
#[derive(Clone, PartialEq, Debug)]
pub struct R(pub u64);
/// what was computed: op, left, right, with multiplicity
#[derive(Clone, PartialEq, Debug)]
pub struct U(pub BTreeMap<(&'static str, u64, u64), usize>);
impl Default for U {
    fn default() -> U {
        U(BTreeMap::from([(("default", 0, 0), 1)]))
    }
}
macro_rules! sym {
    ($($tr:ident $f:ident $tra:ident $fa:ident $op:literal),*) => { $(
        impl $tr<R> for L { type Output = U; fn $f(self, r: R) -> U { U(BTreeMap::from([(($op, self.0, r.0), 1)])) } }
        impl $tra<R> for L { fn $fa(&mut self, r: R) { self.0 = self.0 * 1_000_000 + r.0 * 100 + $op.as_bytes()[0] as u64 } }
    )* }
}
sym!(Add add AddAssign add_assign "+", Sub sub SubAssign sub_assign "-", Mul mul MulAssign mul_assign "*", Div div DivAssign div_assign "/", Rem rem RemAssign rem_assign "%");
impl Add<U> for U {
    type Output = U;
    fn add(mut self, o: U) -> U {
        for (k, n) in o.0 {
            *self.0.entry(k).or_insert(0) += n;
        }
        self
    }
}
macro_rules! el {
    ($t:ident) => {
        impl Default for $t {
            fn default() -> $t {
                $t(0)
            }
        }
        impl El for $t {
            const NAME: &'static str = stringify!($t);
            fn mk(v: u64) -> $t {
                $t(v)
            }
            fn val(&self) -> u64 {
                self.0
            }
            fn put(&mut self, v: u64) {
                self.0 = v
            }
        }
    };
}
el!(L);
el!(R);

fn cells<T: Clone>(m: &Matrix<T>, r: usize, c: usize, o: Order) -> Vec<Vec<T>> {
    check_eq!((m.nrows(), m.ncols(), m.order(), m.size()), (r, c, o, r * c), "shape and order of the result");
    (0..r).map(|i| (0..c).map(|j| m.get((i, j)).unwrap_or_else(|e| fail(format!("get(({i}, {j})) gives {e:?}"))).clone()).collect()).collect()
}

fn product(a: (usize, usize), oa: Order, b: (usize, usize), ob: Order) {
    case!("lhs {}x{} {oa:?}, rhs {}x{} {ob:?}, products", a.0, a.1, b.0, b.1);
    let da = Mdl::seq(a.0, a.1, oa, 1);
    let db = Mdl::seq(b.0, b.1, ob, 5001);
    let ok = a.1 == b.0;
    let (la, rb) = (build::<L>(&da), build::<R>(&db));
    let want = |i: usize, j: usize| -> U {
        if a.1 == 0 {
            return U::default();
        }
        let mut u = U(BTreeMap::new());
        for k in 0..a.1 {
            *u.0.entry(("*", da.rows[i][k], db.rows[k][j])).or_insert(0) += 1;
        }
        u
    };
    check_eq!(la.is_multiplication_like_operation_conformable(&rb), ok, "is_multiplication_like_operation_conformable");
    check_eq!(la.ensure_multiplication_like_operation_conformable(&rb).map(|_| ()), if ok { Ok(()) } else { Err(BADSHAPE) }, "ensure_multiplication_like_operation_conformable");
    let judge = |got: Result<Result<Matrix<U>, Error>, String>, w: &str, op: bool| match got {
        Err(p) => check!(op && !ok, "{w} panics: {p}"),
        Ok(Err(e)) => check!(!ok && e == BADSHAPE, "{w} gives {e:?}"),
        Ok(Ok(m)) => {
            check!(ok, "{w} accepts operands that do not conform");
            let g = cells(&m, a.0, b.1, oa);
            for i in 0..a.0 {
                for j in 0..b.1 {
                    // a sum started from default() is the textbook sum too
                    let mut x = g[i][j].clone();
                    if a.1 > 0 {
                        x.0.remove(&("default", 0, 0));
                    }
                    check_eq!(x, want(i, j), "{w}: element ({i}, {j})");
                }
            }
        }
    };
    judge(catch(|| la.clone().multiply(rb.clone())), "multiply", false);
    judge(catch(|| Ok(la.clone() * rb.clone())), "M * M", true);
    judge(catch(|| Ok(la.clone() * &rb)), "M * &M", true);
    judge(catch(|| Ok(&la * rb.clone())), "&M * M", true);
    judge(catch(|| Ok(&la * &rb)), "&M * &M", true);
    check_eq!(observe(&la), da, "lhs passed by reference");
    check_eq!(observe(&rb), db, "rhs passed by reference");
    // the generic form: which slices reach the closure
    let mut seen: BTreeMap<(Vec<u64>, Vec<u64>), usize> = BTreeMap::new();
    let mut n = 0u64;
    let got = catch(|| {
        la.clone().multiplication_like_operation(rb.clone(), |p, q| {
            check!(!p.is_empty() && p.len() == q.len(), "slices of lengths {} and {}", p.len(), q.len());
            let k = (p.iter().map(|x| x.0).collect::<Vec<_>>(), q.iter().map(|x| x.0).collect::<Vec<_>>());
            *seen.entry(k.clone()).or_insert(0) += 1;
            n += 1;
            Some(k)
        })
    });
    let w = "multiplication_like_operation";
    match got {
        Err(p) => fail(format!("{w} panics: {p}")),
        Ok(Err(e)) => {
            check!(!ok && e == BADSHAPE, "{w} gives {e:?}");
            check_eq!(n, 0, "{w}: closure calls on failure");
        }
        Ok(Ok(m)) => {
            check!(ok, "{w} accepts operands that do not conform");
            let g = cells(&m, a.0, b.1, oa);
            check_eq!(n as usize, if a.1 == 0 { 0 } else { a.0 * b.1 }, "{w}: closure calls");
            for i in 0..a.0 {
                for j in 0..b.1 {
                    let want = (a.1 > 0).then(|| (da.rows[i].clone(), (0..a.1).map(|k| db.rows[k][j]).collect::<Vec<_>>()));
                    check_eq!(g[i][j], want, "{w}: slices for ({i}, {j})");
                    if let Some(k) = want {
                        check_eq!(seen.get(&k), Some(&1), "{w}: calls for ({i}, {j})");
                    }
                }
            }
        }
    }
}

pub fn run_product(cfg: &Cfg) {
    let t = small(if cfg.deep { 5 } else { 3 });
    for oa in ORDERS {
        for ob in ORDERS {
            for &a in &t {
                for &b in &t {
                    product(a, oa, b, ob);
                }
            }
            for (m, k, n) in [(5, 7, 4), (1, 9, 1), (9, 1, 9), (8, 8, 8), (16, 17, 15), (2, 65, 3), (33, 4, 31), (1, 300, 2), (64, 3, 64), (3, 64, 3), (17, 0, 33), (0, 17, 20), (20, 17, 0)] {
                product((m, k), oa, (k, n), ob);
                product((m, k), oa, (k + 1, n), ob);
            }
        }
    }
    // plain numbers, and counted elements (nothing leaked or dropped twice)
    for oa in ORDERS {
        for ob in ORDERS {
            for (m, k, n) in [(2, 3, 4), (4, 3, 2), (3, 3, 3), (1, 5, 1), (0, 3, 2), (2, 0, 3), (2, 3, 0), (7, 6, 5), (20, 30, 10)] {
                case!("numbers and counted elements {m}x{k} {oa:?} * {k}x{n} {ob:?}");
                let (da, db) = (Mdl::seq(m, k, oa, 1), Mdl::seq(k, n, ob, 3));
                let want = Mdl::new(m, n, oa, |i, j| (0..k).map(|x| da.rows[i][x] * db.rows[x][j]).sum());
                check_eq!(observe(&build::<u64>(&da).multiply(build::<u64>(&db)).unwrap()), want, "multiply of u64");
                check_eq!(observe(&(build::<u64>(&da) * build::<u64>(&db))), want, "* of u64");
                let l = Ledger::open();
                let p = build::<Tok>(&da).multiply(build::<Tok>(&db)).unwrap();
                check_eq!(observe(&p), want, "multiply of counted elements");
                check!(l.alive() == m * n, "{} elements alive, {} in the result", l.alive(), m * n);
                drop(p);
                l.settle();
            }
        }
    }
}

// ------------------------------------------------------------ C12

fn elementwise(a: (usize, usize), oa: Order, b: (usize, usize), ob: Order) {
    case!("lhs {}x{} {oa:?}, rhs {}x{} {ob:?}, elementwise operations", a.0, a.1, b.0, b.1);
    let da = Mdl::seq(a.0, a.1, oa, 1);
    let db = Mdl::seq(b.0, b.1, ob, 5001);
    let ok = a == b;
    let (la, rb) = (build::<L>(&da), build::<R>(&db));
    check_eq!(la.is_elementwise_operation_conformable(&rb), ok, "is_elementwise_operation_conformable");
    check_eq!(la.ensure_elementwise_operation_conformable(&rb).map(|_| ()), if ok { Ok(()) } else { Err(BADSHAPE) }, "ensure_elementwise_operation_conformable");
    type P = (u64, u64);
    let mut calls: BTreeMap<P, usize> = BTreeMap::new();
    let want: BTreeMap<P, usize> = if ok { (0..a.0).flat_map(|i| (0..a.1).map(move |j| (i, j))).map(|(i, j)| ((da.rows[i][j], db.rows[i][j]), 1)).collect() } else { BTreeMap::new() };
    let intact = |w: &str| {
        check_eq!(observe(&la), da, "{w}: lhs");
        check_eq!(observe(&rb), db, "{w}: rhs");
    };
    macro_rules! generic {
        ($w:literal, $e:expr) => {{
            calls.clear();
            match catch(|| $e) {
                Err(p) => fail(format!("{} panics: {p}", $w)),
                Ok(Err(e)) => check!(!ok && e == BADSHAPE, "{} gives {e:?}", $w),
                Ok(Ok(m)) => {
                    check!(ok, "{} accepts other shapes", $w);
                    let g = cells(&m, a.0, a.1, oa);
                    for i in 0..a.0 {
                        for j in 0..a.1 {
                            check_eq!(g[i][j], (da.rows[i][j], db.rows[i][j]), "{}: element ({i}, {j})", $w);
                        }
                    }
                }
            }
            check_eq!(calls, want, "{}: closure calls by operands", $w);
            intact($w);
        }};
    }
    let mut log = |x: u64, y: u64| {
        *calls.entry((x, y)).or_insert(0) += 1;
        (x, y)
    };
    let _ = &mut log;
    generic!("elementwise_operation", la.elementwise_operation(&rb, |x, y| { *calls.entry((x.0, y.0)).or_insert(0) += 1; (x.0, y.0) }));
    generic!("elementwise_operation_consume_self", la.clone().elementwise_operation_consume_self(&rb, |x, y| { *calls.entry((x.0, y.0)).or_insert(0) += 1; (x.0, y.0) }));
    calls.clear();
    let mut m = la.clone();
    let w = "elementwise_operation_assign";
    match catch(|| m.elementwise_operation_assign(&rb, |x, y| { *calls.entry((x.0, y.0)).or_insert(0) += 1; x.0 = x.0 * 10000 + y.0 }).map(|_| ())) {
        Err(p) => fail(format!("{w} panics: {p}")),
        Ok(e) => check_eq!(e, if ok { Ok(()) } else { Err(BADSHAPE) }, "{w}"),
    }
    check_eq!(calls, want, "{w}: closure calls by operands");
    check_eq!(observe(&m), if ok { Mdl::new(a.0, a.1, oa, |i, j| da.rows[i][j] * 10000 + db.rows[i][j]) } else { da.clone() }, "{w}");
    intact(w);
    // the named forms
    let judge = |got: Result<Result<Matrix<U>, Error>, String>, op: &'static str, w: &str, operator: bool| match got {
        Err(p) => check!(operator && !ok, "{w} panics: {p}"),
        Ok(Err(e)) => check!(!ok && e == BADSHAPE, "{w} gives {e:?}"),
        Ok(Ok(m)) => {
            check!(ok, "{w} accepts other shapes");
            let g = cells(&m, a.0, a.1, oa);
            for i in 0..a.0 {
                for j in 0..a.1 {
                    check_eq!(g[i][j], U(BTreeMap::from([((op, da.rows[i][j], db.rows[i][j]), 1)])), "{w}: element ({i}, {j})");
                }
            }
        }
    };
    macro_rules! named {
        ($op:literal, $f:ident, $fc:ident, $fa:ident) => {
            judge(catch(|| la.$f(&rb)), $op, stringify!($f), false);
            judge(catch(|| la.clone().$fc(&rb)), $op, stringify!($fc), false);
            let mut m = la.clone();
            let w = stringify!($fa);
            match catch(|| m.$fa(&rb).map(|_| ())) {
                Err(p) => fail(format!("{w} panics: {p}")),
                Ok(e) => check_eq!(e, if ok { Ok(()) } else { Err(BADSHAPE) }, "{w}"),
            }
            check_eq!(observe(&m), if ok { Mdl::new(a.0, a.1, oa, |i, j| da.rows[i][j] * 1_000_000 + db.rows[i][j] * 100 + $op.as_bytes()[0] as u64) } else { da.clone() }, "{w}");
            intact(w);
        };
    }
    named!("+", elementwise_add, elementwise_add_consume_self, elementwise_add_assign);
    named!("-", elementwise_sub, elementwise_sub_consume_self, elementwise_sub_assign);
    named!("*", elementwise_mul, elementwise_mul_consume_self, elementwise_mul_assign);
    named!("/", elementwise_div, elementwise_div_consume_self, elementwise_div_assign);
    named!("%", elementwise_rem, elementwise_rem_consume_self, elementwise_rem_assign);
    macro_rules! operators {
        ($op:tt, $opa:tt) => {
            judge(catch(|| Ok(la.clone() $op rb.clone())), stringify!($op), concat!("M ", stringify!($op), " M"), true);
            judge(catch(|| Ok(la.clone() $op &rb)), stringify!($op), concat!("M ", stringify!($op), " &M"), true);
            judge(catch(|| Ok(&la $op rb.clone())), stringify!($op), concat!("&M ", stringify!($op), " M"), true);
            judge(catch(|| Ok(&la $op &rb)), stringify!($op), concat!("&M ", stringify!($op), " &M"), true);
            for owned in [true, false] {
                let mut m = la.clone();
                let w = concat!("M ", stringify!($opa), " M");
                let res = catch(|| if owned { m $opa rb.clone() } else { m $opa &rb });
                check_eq!(res.is_ok(), ok, "{w} (owned rhs: {owned}) succeeds");
                check_eq!(observe(&m), if ok { Mdl::new(a.0, a.1, oa, |i, j| da.rows[i][j] * 1_000_000 + db.rows[i][j] * 100 + stringify!($op).as_bytes()[0] as u64) } else { da.clone() }, "{w} (owned rhs: {owned})");
            }
            intact(stringify!($op));
        };
    }
    operators!(+, +=);
    operators!(-, -=);
}

#[derive(Clone, Copy, Default)]
struct Zs;
macro_rules! zs { ($($tr:ident $f:ident),*) => { $( impl $tr<Zs> for Zs { type Output = u8; fn $f(self, _: Zs) -> u8 { 1 } } )* } }
zs!(Add add, Sub sub, Mul mul, Div div, Rem rem);
fn hugezs(n: usize, o: Order) -> Matrix<Zs> {
    let mut v: Vec<Zs> = vec![];
    // SAFETY: Zs is zero-sized
    unsafe { v.set_len(n) };
    let mut m = Matrix::from_row(v);
    if m.order() != o {
        m.switch_order_without_rearrangement();
        m.transpose();
    }
    m
}

pub fn run_elementwise(cfg: &Cfg) {
    let t = small(if cfg.deep { 5 } else { 3 });
    for oa in ORDERS {
        for ob in ORDERS {
            for &a in &t {
                for &b in &t {
                    elementwise(a, oa, b, ob);
                }
            }
            for a in BIG {
                elementwise(a, oa, a, ob);
                elementwise(a, oa, (a.1, a.0), ob);
                elementwise(a, oa, (a.0, a.1 + 1), ob);
            }
            for (a, b) in [((2, 6), (3, 4)), ((2, 6), (4, 3)), ((1, 6), (6, 1)), ((0, 4), (4, 0)), ((0, 4), (0, 5))] {
                elementwise(a, oa, b, ob);
            }
            // results beyond the largest allocation: methods fail, operators panic
            for n in [usize::MAX, isize::MAX as usize + 1] {
                case!("1x{n} zero-sized operands {oa:?} {ob:?} with one-byte results");
                let (x, y) = (hugezs(n, oa), hugezs(n, ob));
                let e = Err(Error::CapacityOverflow);
                let m = catch(|| {
                    check_eq!(x.elementwise_operation(&y, |_, _| 1u8).map(|_| ()), e, "elementwise_operation");
                    check_eq!(x.clone().elementwise_operation_consume_self(&y, |_, _| 1u8).map(|_| ()), e, "elementwise_operation_consume_self");
                });
                if let Err(p) = m {
                    fail(format!("panics: {p}"))
                }
            }
        }
    }
    // counted elements
    for oa in ORDERS {
        for ob in ORDERS {
            for (r, c) in small(4) {
                case!("counted elements {r}x{c} {oa:?} {ob:?}");
                let (da, db) = (Mdl::seq(r, c, oa, 100), Mdl::seq(r, c, ob, 3));
                let l = Ledger::open();
                {
                    let (x, y) = (build::<Tok>(&da), build::<Tok>(&db));
                    let want = Mdl::new(r, c, oa, |i, j| da.rows[i][j] - db.rows[i][j]);
                    check_eq!(observe(&x.elementwise_sub(&y).unwrap()), want, "elementwise_sub");
                    let mut z = x.clone();
                    z -= &y;
                    check_eq!(observe(&z), want, "-=");
                    z += &y;
                    check_eq!(observe(&z), da, "+=");
                    check_eq!(observe(&(x - y)), want, "-");
                }
                l.settle();
            }
        }
    }
}

// ------------------------------------------------------------ C07

fn eqs(a: (usize, usize), b: (usize, usize)) {
    for oa in ORDERS {
        for ob in ORDERS {
            case!("{}x{} {oa:?} == {}x{} {ob:?}", a.0, a.1, b.0, b.1);
            let da = Mdl::seq(a.0, a.1, oa, 1);
            let x = build::<u64>(&da);
            let y = build::<u64>(&Mdl::seq(b.0, b.1, ob, 1));
            let e = match catch(|| (x == y, y == x, x != y)) {
                Ok(e) => e,
                Err(p) => fail(format!("panics: {p}")),
            };
            check_eq!(e, (a == b, a == b, a != b), "(a == b, b == a, a != b)");
            check!(x == x && x == x.clone(), "not reflexive");
            // same memory sequence, other shape or other order
            if a.0 * a.1 == b.0 * b.1 {
                let z = build::<u64>(&Mdl::from_mem(b.0, b.1, ob, &da.mem()));
                let want = observe(&z).rows == da.rows && a == b;
                check_eq!((x == z, z == x), (want, want), "equal memory sequences");
            }
            if a == b && a.0 * a.1 <= 400 {
                // one element differs
                for i in 0..a.0 {
                    for j in 0..a.1 {
                        let mut d = da.with_order(ob);
                        d.rows[i][j] += 1000;
                        let z = build::<u64>(&d);
                        check!(x != z && z != x && !(x == z), "equal although ({i}, {j}) differs");
                    }
                }
                // two elements exchanged
                if a.0 * a.1 >= 2 {
                    let mut d = da.with_order(ob);
                    let (i, j) = (a.0 - 1, a.1 - 1);
                    let t = d.rows[0][0];
                    d.rows[0][0] = d.rows[i][j];
                    d.rows[i][j] = t;
                    check!(build::<u64>(&d) != x, "equal although the corners are exchanged");
                }
            }
        }
    }
}

#[derive(Clone, Copy, Debug, Default)]
struct Par2(u64);
impl PartialEq for Par2 {
    // a partial equivalence: 0 equals nothing, parity classes otherwise
    fn eq(&self, o: &Par2) -> bool {
        self.0 != 0 && o.0 != 0 && self.0 % 2 == o.0 % 2
    }
}

fn same_everywhere(a: (usize, usize), b: (usize, usize)) {
    // every operation with each operand in either order: same logical outcome
    type Out = (Result<(usize, usize, Vec<Vec<i64>>), String>, String);
    let names = [
        "elementwise_operation", "elementwise_operation_consume_self", "elementwise_operation_assign", "elementwise_add", "elementwise_sub", "elementwise_mul", "elementwise_div", "elementwise_rem",
        "elementwise_add_consume_self", "elementwise_sub_consume_self", "elementwise_mul_consume_self", "elementwise_div_consume_self", "elementwise_rem_consume_self", "elementwise_add_assign",
        "elementwise_sub_assign", "elementwise_mul_assign", "elementwise_div_assign", "elementwise_rem_assign", "+", "-", "+ refs", "- refs", "+=", "-=", "multiply", "*", "* refs",
        "multiplication_like_operation", "overwrite", "transpose", "swap_rows", "swap_cols", "swap", "neg", "neg ref", "scalar +", "scalar -", "scalar *", "scalar / left", "map", "map_ref", "apply",
        "scalar_operation", "scalar_operation_consume_self", "scalar_operation_assign", "==", "contains", "get", "iter_rows", "iter_cols", "clone", "set_order", "* M &M", "* &M M", "%=", "swap wrapping", "iter_nth_row", "iter_nth_col", "conformable",
        "par_map", "par_apply", "par_map_ref", "iter_rows_mut", "iter_cols_mut",
    ];
    for name in names {
        let mut first: Option<Out> = None;
        for oa in ORDERS {
            for ob in ORDERS {
                case!("{name}, lhs {}x{} {oa:?}, rhs {}x{} {ob:?}", a.0, a.1, b.0, b.1);
                let va = Mdl::seq(a.0, a.1, oa, 100);
                let vb = Mdl::seq(b.0, b.1, ob, 3);
                let f = |d: &Mdl| -> Matrix<i64> { build::<u64>(d).map(|v| v as i64).unwrap_or_else(|e| fail(format!("{e:?}"))) };
                let (x, y) = (f(&va), f(&vb));
                let mut extra = String::new();
                let res: Result<Result<Matrix<i64>, Error>, String> = catch(|| {
                    let mut x = x.clone();
                    let y = y.clone();
                    let mut z = x.clone();
                    Ok(match name {
                        "elementwise_operation" => x.elementwise_operation(&y, |p, q| p * 10 + q)?,
                        "elementwise_operation_consume_self" => x.elementwise_operation_consume_self(&y, |p, q| p * 10 + q)?,
                        "elementwise_operation_assign" => { z.elementwise_operation_assign(&y, |p, q| *p = *p * 10 + q)?; z }
                        "elementwise_add" => x.elementwise_add(&y)?,
                        "elementwise_sub" => x.elementwise_sub(&y)?,
                        "elementwise_mul" => x.elementwise_mul(&y)?,
                        "elementwise_div" => x.elementwise_div(&y)?,
                        "elementwise_rem" => x.elementwise_rem(&y)?,
                        "elementwise_add_consume_self" => x.elementwise_add_consume_self(&y)?,
                        "elementwise_sub_consume_self" => x.elementwise_sub_consume_self(&y)?,
                        "elementwise_mul_consume_self" => x.elementwise_mul_consume_self(&y)?,
                        "elementwise_div_consume_self" => x.elementwise_div_consume_self(&y)?,
                        "elementwise_rem_consume_self" => x.elementwise_rem_consume_self(&y)?,
                        "elementwise_add_assign" => { z.elementwise_add_assign(&y)?; z }
                        "elementwise_sub_assign" => { z.elementwise_sub_assign(&y)?; z }
                        "elementwise_mul_assign" => { z.elementwise_mul_assign(&y)?; z }
                        "elementwise_div_assign" => { z.elementwise_div_assign(&y)?; z }
                        "elementwise_rem_assign" => { z.elementwise_rem_assign(&y)?; z }
                        "+" => x + y,
                        "-" => x - y,
                        "+ refs" => &x + &y,
                        "- refs" => &x - &y,
                        "+=" => { z += &y; z }
                        "-=" => { z -= y; z }
                        "multiply" => x.multiply(y)?,
                        "*" => x * y,
                        "* refs" => &x * &y,
                        "* M &M" => x * &y,
                        "* &M M" => &x * y,
                        "multiplication_like_operation" => x.multiplication_like_operation(y, |p, q| p.iter().zip(q).fold(7i64, |t, (u, v)| (t * 31 + u * 17 + v) % 1_000_003))?,
                        "overwrite" => { z.overwrite(&y); z }
                        "transpose" => { z.transpose(); z }
                        "swap_rows" => { z.swap_rows(0, b.0)?; z }
                        "swap_cols" => { z.swap_cols(b.1, 0)?; z }
                        "swap" => { z.swap((0, b.1), (b.0, 0))?; z }
                        "swap wrapping" => { z.swap(matreex::WrappingIndex::new(-1, 2), matreex::WrappingIndex::new(3, -2))?; z }
                        "neg" => -x,
                        "neg ref" => -&x,
                        "scalar +" => x + 3,
                        "scalar -" => &x - 3,
                        "scalar *" => 3 * x,
                        "scalar / left" => 1000 / &x,
                        "%=" => { z %= 7; z }
                        "map" => x.map(|e| e + 1)?,
                        "map_ref" => x.map_ref(|e| e + 1)?,
                        "apply" => { z.apply(|e| *e += 1); z }
                        "scalar_operation" => x.scalar_operation(&2i64, |p, q| p - q)?,
                        "scalar_operation_consume_self" => x.scalar_operation_consume_self(&2i64, |p, q| p - q)?,
                        "scalar_operation_assign" => { z.scalar_operation_assign(&2i64, |p, q| *p -= q); z }
                        "==" => { extra = format!("{} {}", x == y, x == z); z }
                        "contains" => { extra = format!("{} {}", x.contains(&100), x.contains(&99)); z }
                        "get" => { extra = format!("{:?} {:?}", x.get((b.0, b.1)), x.get((1, 0))); z }
                        "iter_rows" => { extra = format!("{:?}", x.iter_rows().map(|r| r.copied().collect::<Vec<_>>()).collect::<Vec<_>>()); z }
                        "iter_cols" => { extra = format!("{:?}", x.iter_cols().map(|r| r.copied().collect::<Vec<_>>()).collect::<Vec<_>>()); z }
                        "iter_rows_mut" => { z.iter_rows_mut().enumerate().for_each(|(i, r)| r.enumerate().for_each(|(j, e)| *e += (i * 9 + j) as i64)); z }
                        "iter_cols_mut" => { z.iter_cols_mut().enumerate().for_each(|(i, r)| r.enumerate().for_each(|(j, e)| *e += (i * 9 + j) as i64)); z }
                        "iter_nth_row" => { extra = format!("{:?}", x.iter_nth_row(b.0).map(|r| r.copied().collect::<Vec<_>>())); z }
                        "iter_nth_col" => { extra = format!("{:?}", x.iter_nth_col(b.1).map(|r| r.copied().collect::<Vec<_>>())); z }
                        "conformable" => { extra = format!("{} {} {} {:?} {:?}", x.is_square(), x.is_elementwise_operation_conformable(&y), x.is_multiplication_like_operation_conformable(&y), x.ensure_square().is_ok(), x.ensure_elementwise_operation_conformable(&y).map(|_| ())); z }
                        "clone" => x.clone(),
                        "set_order" => { x.set_order(oa); x }
                        #[cfg(feature = "parallel")]
                        "par_map" => x.par_map(|e| e + 1)?,
                        #[cfg(feature = "parallel")]
                        "par_map_ref" => x.par_map_ref(|e| e + 1)?,
                        #[cfg(feature = "parallel")]
                        "par_apply" => { z.par_apply(|e| *e += 1); z }
                        _ => z,
                    })
                });
                let out: Out = match res {
                    Err(p) => (Err(format!("panic: {p}")), extra),
                    Ok(Err(e)) => (Err(format!("{e:?}")), extra),
                    Ok(Ok(m)) => {
                        check_eq!(m.order(), oa, "order of the result");
                        extra += &format!("\n{m}");
                        let (r, c) = (m.nrows(), m.ncols());
                        (Ok((r, c, cells(&m, r, c, oa))), extra)
                    }
                };
                match &first {
                    None => first = Some(out),
                    Some(f) => check_eq!(out, *f, "outcome differs from that with both operands row-major"),
                }
            }
        }
    }
}

pub fn run_orders(cfg: &Cfg) {
    let t = small(if cfg.deep { 4 } else { 3 });
    for &a in &t {
        for &b in &t {
            eqs(a, b);
            same_everywhere(a, b);
        }
    }
    for a in BIG {
        eqs(a, a);
        eqs(a, (a.1, a.0));
        if a.0 * a.1 < 700 {
            same_everywhere(a, a);
            same_everywhere(a, (a.1, a.0));
            same_everywhere(a, (2, 3));
        }
    }
    for (a, b) in [((2, 6), (3, 4)), ((0, 7), (7, 0)), ((0, 7), (0, 8)), ((12, 1), (1, 12)), ((4, 9), (6, 6))] {
        eqs(a, b);
        same_everywhere(a, b);
    }
    // element types whose equality is partial; transitivity over all triples of small matrices
    let mut ms: Vec<(Mdl, Matrix<Par2>)> = vec![];
    for (r, c) in [(1, 2), (2, 1), (2, 2)] {
        for o in ORDERS {
            for bits in 0..3usize.pow((r * c) as u32) {
                let d = Mdl::new(r, c, o, |i, j| (bits / 3usize.pow((i * c + j) as u32) % 3) as u64);
                let m = build::<u64>(&d).map(Par2).unwrap();
                ms.push((d, m));
            }
        }
    }
    for (da, x) in &ms {
        for (db, y) in &ms {
            case!("parity-equal elements {da:?} == {db:?}");
            let want = (da.nr, da.nc) == (db.nr, db.nc) && (0..da.nr).all(|i| (0..da.nc).all(|j| Par2(da.rows[i][j]) == Par2(db.rows[i][j])));
            check_eq!((*x == *y, *x != *y), (want, !want), "(==, !=)");
        }
    }
    for o in ORDERS {
        case!("NaN elements {o:?}");
        let m = build::<u64>(&Mdl::seq(2, 2, o, 1)).map(|v| if v == 3 { f64::NAN } else { v as f64 }).unwrap();
        check!(m != m && m != m.clone() && !(m == m), "a matrix with a NaN equals itself");
        // empty and huge: shapes decide
        for (a, b) in [((usize::MAX, 0), (0, usize::MAX)), ((usize::MAX, 0), (usize::MAX, 0)), ((0, 5), (5, 0)), ((usize::MAX, 0), (usize::MAX - 1, 0))] {
            for p in ORDERS {
                case!("empty {a:?} {o:?} == empty {b:?} {p:?}");
                let mk = |s, o| {
                    let mut m = build::<u64>(&Mdl::new(0, 0, o, |_, _| 0));
                    m.reshape(s).ok()?;
                    Some(m)
                };
                let (Some(x), Some(y)) = (mk(a, o), mk(b, p)) else { continue };
                match catch(|| x == y) {
                    Ok(e) => check_eq!(e, a == b, "=="),
                    Err(p) => fail(format!("panics: {p}")),
                }
            }
        }
    }
}
