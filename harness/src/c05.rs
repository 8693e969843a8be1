//! C05 transpose and storage order; C09 reshape/resize and failing in-place
//! operations; C10 swaps; C14 overwrite; C07 order transparency.
use crate::util::*;
use matreex::{Error, Index, Matrix, Order, WrappingIndex};

/// identity of the elements: for counted types the instance, else the value
trait Id: El {
    fn id(&self) -> u64 {
        self.val()
    }
}
impl Id for Tok {
    fn id(&self) -> u64 {
        self.inst() as u64
    }
}
impl Id for u64 {}
impl Id for u8 {}
impl Id for Z {}
impl Id for ZA {}
impl Id for String {}
impl Id for [u16; 3] {}

fn ids<T: Id>(m: &Matrix<T>) -> Vec<u64> {
    m.iter_elements().map(|e| e.id()).collect()
}
fn at<T: Id>(m: &Matrix<T>, r: usize, c: usize) -> u64 {
    m.get((r, c)).unwrap_or_else(|e| fail(format!("get(({r}, {c})) gives {e:?}"))).id()
}

fn orders<T: Id>(r: usize, c: usize, o: Order) {
    let d = Mdl::seq(r, c, o, 1).lim::<T>();
    let l = Ledger::open();
    let mut m: Matrix<T> = build(&d);
    let made = l.made();
    let id0 = ids(&m);
    let lid: Vec<Vec<u64>> = (0..r).map(|i| (0..c).map(|j| at(&m, i, j)).collect()).collect();
    let same = |m: &Matrix<T>, w: &str| {
        check_eq!(observe(m), d, "{w}: contents");
        for i in 0..r {
            for j in 0..c {
                check_eq!(at(m, i, j), lid[i][j], "{w}: the element at ({i}, {j}) is not the one moved there");
            }
        }
    };
    m.transpose();
    check_eq!(observe(&m), d.transposed(), "transpose");
    for i in 0..r {
        for j in 0..c {
            check_eq!(at(&m, j, i), lid[i][j], "transpose: element at ({j}, {i})");
        }
    }
    m.transpose();
    same(&m, "transpose twice");
    m.switch_order();
    check_eq!(observe(&m), d.with_order(flip(o)), "switch_order");
    for i in 0..r {
        for j in 0..c {
            check_eq!(at(&m, i, j), lid[i][j], "switch_order: element at ({i}, {j})");
        }
    }
    m.switch_order();
    same(&m, "switch_order twice");
    m.switch_order_without_rearrangement();
    check_eq!(observe(&m), d.transposed().with_order(flip(o)), "switch_order_without_rearrangement");
    check_eq!(ids(&m), id0, "switch_order_without_rearrangement: memory order");
    m.switch_order_without_rearrangement();
    same(&m, "switch_order_without_rearrangement twice");
    for p in ORDERS {
        m.set_order(p);
        check_eq!(observe(&m), d.with_order(p), "set_order({p:?})");
        m.set_order(p);
        check_eq!(observe(&m), d.with_order(p), "set_order({p:?}) again");
        m.set_order(o);
        same(&m, "set_order back");
        m.set_order_without_rearrangement(p);
        check_eq!(observe(&m), if p == o { d.clone() } else { d.transposed().with_order(p) }, "set_order_without_rearrangement({p:?})");
        check_eq!(ids(&m), id0, "set_order_without_rearrangement: memory order");
        m.set_order_without_rearrangement(o);
        same(&m, "set_order_without_rearrangement back");
    }
    // chains
    m.transpose().switch_order().transpose().switch_order();
    same(&m, "a chain that cancels out");
    if T::NAME == "Tok" || T::NAME == "Z" {
        check!(l.made() == made && l.clones() == 0, "elements were cloned");
        check!(l.alive() == r * c, "elements were dropped");
    }
    drop(m);
    if T::NAME == "Tok" || T::NAME == "Z" {
        l.settle();
    }
}

fn each<T: El>(s: &[(usize, usize)], what: &str, f: impl Fn(usize, usize, Order)) {
    for &(r, c) in s {
        for o in ORDERS {
            case!("{} {r}x{c} {o:?}, {what}", T::NAME);
            if let Err(p) = catch(|| f(r, c, o)) {
                fail(format!("panics: {p}"))
            }
        }
    }
}

pub fn run(cfg: &Cfg) {
    let w = "transpose and order changes";
    each::<u64>(&shapes(if cfg.deep { 40 } else { 14 }), w, orders::<u64>);
    each::<Tok>(&small(7), w, orders::<Tok>);
    each::<Tok>(&[(16, 33), (33, 16), (31, 32), (1, 70), (70, 1)], w, orders::<Tok>);
    each::<u8>(&shapes(9), w, orders::<u8>);
    each::<Z>(&small(5), w, orders::<Z>);
    each::<ZA>(&small(5), w, orders::<ZA>);
    each::<String>(&small(6), w, orders::<String>);
    each::<[u16; 3]>(&shapes(7), w, orders::<[u16; 3]>);
    for o in ORDERS {
        for n in [usize::MAX, 1 << 63, 1 << 40] {
            for rows in [true, false] {
                case!("{n} zero-sized elements, one {}, {o:?}", if rows { "row" } else { "column" });
                let e = catch(|| {
                    let mut m = huge::<Z1>(rows, o, n);
                    let (r, c) = (m.nrows(), m.ncols());
                    m.transpose();
                    check_eq!((m.nrows(), m.ncols(), m.order()), (c, r, o), "transpose");
                    m.switch_order();
                    check_eq!((m.nrows(), m.ncols(), m.order()), (c, r, flip(o)), "switch_order");
                    m.switch_order_without_rearrangement();
                    check_eq!((m.nrows(), m.ncols(), m.order()), (r, c, o), "switch_order_without_rearrangement");
                });
                if let Err(p) = e {
                    fail(format!("panics: {p}"))
                }
            }
            for (r, c) in [(n, 0), (0, n)] {
                case!("empty {r}x{c} {o:?}");
                let e = catch(|| {
                    let mut m = build::<u64>(&Mdl::new(0, 0, o, |_, _| 0));
                    if m.reshape((r, c)).is_err() {
                        return;
                    }
                    m.transpose();
                    check_eq!((m.nrows(), m.ncols(), m.order()), (c, r, o), "transpose");
                    m.switch_order();
                    check_eq!((m.nrows(), m.ncols(), m.order()), (c, r, flip(o)), "switch_order");
                    m.set_order(o);
                    check_eq!((m.nrows(), m.ncols(), m.order()), (c, r, o), "set_order");
                    m.set_order_without_rearrangement(flip(o));
                    check_eq!((m.nrows(), m.ncols(), m.order()), (r, c, flip(o)), "set_order_without_rearrangement");
                });
                if let Err(p) = e {
                    fail(format!("panics: {p}"))
                }
            }
        }
    }
}

// ------------------------------------------------------------ C09

const HUGE: [(usize, usize); 12] = [
    (usize::MAX, 2), (2, usize::MAX), (usize::MAX, usize::MAX), (1 << 32, 1 << 32), (1 << 33, 1 << 31), ((1 << 32) + 1, 1 << 32), (usize::MAX, 1), (1, usize::MAX),
    (usize::MAX / 2 + 1, 2), (3, usize::MAX / 3 + 1), ((1 << 32) + 3, (1 << 32) + 5), (6, usize::MAX / 6 + 2),
];

fn reshapes<T: Id>(r: usize, c: usize, o: Order, targets: &[(usize, usize)]) {
    let d = Mdl::seq(r, c, o, 1).lim::<T>();
    let mem = d.mem();
    let n = r * c;
    let counted = T::NAME == "Tok" || T::NAME == "Z";
    let mut ts: Vec<(usize, usize)> = targets.to_vec();
    ts.extend(HUGE);
    ts.extend([(n, 1), (1, n), (n + 1, 1), (0, usize::MAX), (usize::MAX, 0), (r, c), (c, r)]);
    for (a, b) in ts {
        let l = Ledger::open();
        let mut m: Matrix<T> = build(&d);
        let id0 = ids(&m);
        case!("{} {r}x{c} {o:?}, reshape to {a}x{b}", T::NAME);
        let res = match catch(|| m.reshape((a, b)).map(|_| ())) {
            Ok(x) => x,
            Err(p) => fail(format!("panics: {p}")),
        };
        if a.checked_mul(b) == Some(n) {
            check!(res.is_ok(), "equal size, yet {res:?}");
            check_eq!((m.nrows(), m.ncols(), m.order(), m.size()), (a, b, o, n), "shape and order");
            if n > 0 {
                check_eq!(observe(&m), Mdl::from_mem(a, b, o, &mem), "contents");
            }
        } else {
            check_eq!(res, Err(Error::SizeMismatch), "result");
            check_eq!(observe(&m), d, "matrix after the failure");
        }
        check_eq!(ids(&m), id0, "memory-order sequence");
        if counted {
            check!(l.alive() == n && l.clones() == 0, "elements were cloned or dropped");
        }
        // resize
        let k = a.checked_mul(b);
        let bytes = k.map(|k| k as u128 * size_of::<T>() as u128);
        case!("{} {r}x{c} {o:?}, resize to {a}x{b}", T::NAME);
        if bytes.is_some_and(|x| x > 1 << 30 && x <= isize::MAX as u128) || (T::ZST && k.is_some_and(|k| k > 1 << 20)) {
            continue; // would have to succeed, but cannot be afforded here
        }
        let mut m: Matrix<T> = build(&d);
        let id0 = ids(&m);
        let drops = l.drops();
        let res = match catch(|| m.resize((a, b)).map(|_| ())) {
            Ok(x) => x,
            Err(p) => fail(format!("panics: {p}")),
        };
        match (k, bytes) {
            (None, _) => check_eq!(res, Err(Error::SizeOverflow), "result"),
            (_, Some(x)) if x > isize::MAX as u128 => check_eq!(res, Err(Error::CapacityOverflow), "result"),
            _ => check_eq!(res, Ok(()), "result"),
        }
        if res.is_err() {
            check_eq!(observe(&m), d, "matrix after the failure");
            check_eq!(ids(&m), id0, "elements after the failure");
            continue;
        }
        let k = k.unwrap();
        check_eq!((m.nrows(), m.ncols(), m.order(), m.size()), (a, b, o, k), "shape and order");
        let mut want = mem.clone();
        want.resize(k, 0);
        check_eq!(m.iter_elements().map(|e| e.val()).collect::<Vec<_>>(), want, "memory-order sequence");
        let keep = n.min(k);
        check_eq!(ids(&m)[..keep], id0[..keep], "the kept elements");
        if k > 0 {
            check_eq!(observe(&m), Mdl::from_mem(a, b, o, &want), "contents");
        }
        if counted {
            check_eq!(l.drops() - drops, n - keep, "elements dropped");
            check_eq!(l.clones(), 0, "clones");
        }
        drop(m);
    }
}

fn failing<T: Id>(r: usize, c: usize, o: Order) {
    let d = Mdl::seq(r, c, o, 1).lim::<T>();
    let mut m: Matrix<T> = build(&d);
    let id0 = ids(&m);
    macro_rules! same {
        ($m:expr, $($w:tt)*) => {
            check_eq!(observe(&$m), d, $($w)*);
            check_eq!(ids(&$m), id0, $($w)*);
        };
    }
    for (a, b) in [(r, 0), (r, usize::MAX), (usize::MAX, 0), (r + 3, 0)] {
        check!(m.swap_rows(a, b).is_err() && m.swap_rows(b, a).is_err(), "swap_rows({a}, {b}) succeeds");
        same!(m, "after failing swap_rows({a}, {b})");
    }
    for (a, b) in [(c, 0), (c, usize::MAX), (usize::MAX, 0), (c + 3, 0)] {
        check!(m.swap_cols(a, b).is_err() && m.swap_cols(b, a).is_err(), "swap_cols({a}, {b}) succeeds");
        same!(m, "after failing swap_cols({a}, {b})");
    }
    for i in [(r, 0), (0, c), (usize::MAX, usize::MAX)] {
        check!(m.swap(i, (0, 0)).is_err() && m.swap((0, 0), i).is_err() && m.swap(i, i).is_err(), "swap with {i:?} succeeds");
        same!(m, "after failing swap with {i:?}");
    }
    for (a, b) in [(r + 1, c), (r, c + 1), (c, r), (0, c), (r, 0), (1, r * c), (c + 1, r)] {
        for p in ORDERS {
            if (a, b) == (r, c) {
                continue;
            }
            let rhs = Mdl::seq(a, b, p, 1000).lim::<T>();
            let s: Matrix<T> = build(&rhs);
            let mut calls = 0;
            let e = m.elementwise_operation_assign(&s, |_, _| calls += 1).map(|_| ());
            check_eq!(e, Err(Error::ShapeNotConformable), "elementwise_operation_assign with {a}x{b} {p:?}");
            check_eq!(calls, 0, "closure calls");
            same!(m, "after failing elementwise_operation_assign with {a}x{b} {p:?}");
        }
    }
}
fn failing_ops(r: usize, c: usize, o: Order) {
    let d = Mdl::seq(r, c, o, 1);
    let mut m: Matrix<u64> = build(&d);
    for (a, b) in [(r + 1, c), (r, c + 1), (c, r), (0, c), (r, 0), (1, r * c), (c + 1, r)] {
        for p in ORDERS {
            if (a, b) == (r, c) {
                continue;
            }
            let s: Matrix<u64> = build(&Mdl::seq(a, b, p, 1000));
            let bad = Err(Error::ShapeNotConformable);
            check_eq!(m.elementwise_add_assign(&s).map(|_| ()), bad, "elementwise_add_assign with {a}x{b} {p:?}");
            check_eq!(m.elementwise_sub_assign(&s).map(|_| ()), bad, "elementwise_sub_assign with {a}x{b} {p:?}");
            check_eq!(m.elementwise_mul_assign(&s).map(|_| ()), bad, "elementwise_mul_assign with {a}x{b} {p:?}");
            check_eq!(m.elementwise_div_assign(&s).map(|_| ()), bad, "elementwise_div_assign with {a}x{b} {p:?}");
            check_eq!(m.elementwise_rem_assign(&s).map(|_| ()), bad, "elementwise_rem_assign with {a}x{b} {p:?}");
            check_eq!(observe(&m), d, "after failing elementwise_*_assign with {a}x{b} {p:?}");
            check!(catch(|| m += &s).is_err(), "+= with {a}x{b} does not panic");
            check_eq!(observe(&m), d, "after the panic of += with {a}x{b} {p:?}");
            check!(catch(|| m -= &s).is_err(), "-= with {a}x{b} does not panic");
            check_eq!(observe(&m), d, "after the panic of -= with {a}x{b} {p:?}");
            check!(catch(|| m += s.clone()).is_err(), "+= with {a}x{b} does not panic");
            check!(catch(|| m -= s.clone()).is_err(), "-= with {a}x{b} does not panic");
            check_eq!(observe(&m), d, "after the panic of owned += and -= with {a}x{b} {p:?}");
        }
    }
}

pub fn run_reshape(cfg: &Cfg) {
    let t = small(if cfg.deep { 7 } else { 5 });
    let mut t2 = t.clone();
    t2.extend([(10, 12), (12, 10), (16, 16), (64, 64), (1, 200), (65, 3)]);
    for o in ORDERS {
        for &(r, c) in &t {
            reshapes::<Tok>(r, c, o, &t);
            reshapes::<u64>(r, c, o, &t2);
            if r < 4 && c < 4 {
                reshapes::<Z>(r, c, o, &t);
                reshapes::<ZA>(r, c, o, &t);
                reshapes::<u8>(r, c, o, &t2);
                reshapes::<String>(r, c, o, &t);
                reshapes::<[u16; 3]>(r, c, o, &t);
            }
        }
        for (r, c) in BIG {
            reshapes::<u64>(r, c, o, &[(c, r), (3, 5), (40, 40), (r * c, 1), (r + 1, c), (r, c + 1)]);
        }
    }
    let w = "failing in-place operations";
    each::<Tok>(&small(4), w, failing::<Tok>);
    each::<u64>(&shapes(5), w, failing::<u64>);
    each::<ZA>(&small(3), w, failing::<ZA>);
    each::<u64>(&shapes(5), w, failing_ops);
    for o in ORDERS {
        for n in [usize::MAX, 1 << 63] {
            case!("{n} zero-sized elements {o:?}, reshape and resize");
            let e = catch(|| {
                let mut m = huge::<Z1>(true, o, n);
                for (a, b) in HUGE {
                    let res = m.reshape((a, b)).map(|_| ());
                    let ok = a.checked_mul(b) == Some(n);
                    check_eq!(res, if ok { Ok(()) } else { Err(Error::SizeMismatch) }, "reshape to {a}x{b}");
                    if ok {
                        check_eq!((m.nrows(), m.ncols(), m.size()), (a, b, n), "shape after reshape to {a}x{b}");
                    }
                }
                check_eq!(m.reshape((n / 2 + 1, 2)).map(|_| ()), Err(Error::SizeMismatch), "reshape to size + 1");
                check_eq!(m.resize((usize::MAX, 2)).map(|_| ()), Err(Error::SizeOverflow), "resize beyond usize");
                check_eq!(m.size(), n, "size after the failure");
                check_eq!(m.resize((n, 1)).map(|_| (n, 1)), Ok((n, 1)), "resize to the same size");
                check_eq!((m.nrows(), m.ncols(), m.size()), (n, 1, n), "shape after resize");
            });
            if let Err(p) = e {
                fail(format!("panics: {p}"))
            }
        }
    }
}

// ------------------------------------------------------------ C10

fn swaps<T: Id>(r: usize, c: usize, o: Order) {
    let d = Mdl::seq(r, c, o, 1).lim::<T>();
    let l = Ledger::open();
    let mut m: Matrix<T> = build(&d);
    let made = l.made();
    let name = |m: &Matrix<T>| -> Vec<Vec<u64>> { (0..r).map(|i| (0..c).map(|j| at(m, i, j)).collect()).collect() };
    let id0 = name(&m);
    let pick = |n: usize| -> Vec<usize> {
        let mut v: Vec<usize> = if n <= 6 { (0..n + 2).collect() } else { vec![0, 1, n / 2, n - 2, n - 1, n] };
        v.extend([usize::MAX, 1 << 63, 1 << 32]);
        v
    };
    let expect = |m: &mut Matrix<T>, want: &Vec<Vec<u64>>, w: &str| {
        check_eq!((m.nrows(), m.ncols(), m.order()), (r, c, o), "{w}: shape and order");
        let got = name(m);
        check_eq!(got, *want, "{w}");
    };
    for a in pick(r) {
        for b in pick(r) {
            let w = format!("swap_rows({a}, {b})");
            let ok = a < r && b < r;
            let mut want = id0.clone();
            if ok {
                want.swap(a, b);
            }
            match catch(|| m.swap_rows(a, b).map(|_| ())) {
                Ok(x) => check_eq!(x, if ok { Ok(()) } else { Err(Error::IndexOutOfBounds) }, "{w}"),
                Err(p) => fail(format!("{w} panics: {p}")),
            }
            expect(&mut m, &want, &w);
            if ok {
                check!(m.swap_rows(b, a).is_ok(), "{w} backwards");
                expect(&mut m, &id0, &format!("{w} and back"));
            }
        }
    }
    for a in pick(c) {
        for b in pick(c) {
            let w = format!("swap_cols({a}, {b})");
            let ok = a < c && b < c;
            let mut want = id0.clone();
            if ok {
                for row in &mut want {
                    row.swap(a, b);
                }
            }
            match catch(|| m.swap_cols(a, b).map(|_| ())) {
                Ok(x) => check_eq!(x, if ok { Ok(()) } else { Err(Error::IndexOutOfBounds) }, "{w}"),
                Err(p) => fail(format!("{w} panics: {p}")),
            }
            expect(&mut m, &want, &w);
            if ok {
                check!(m.swap_cols(b, a).is_ok(), "{w} backwards");
                expect(&mut m, &id0, &format!("{w} and back"));
            }
        }
    }
    if r * c <= 64 {
        for a in pick(r) {
            for b in pick(c) {
                for x in pick(r) {
                    for y in pick(c) {
                        let w = format!("swap(({a}, {b}), ({x}, {y}))");
                        let ok = a < r && x < r && b < c && y < c;
                        let mut want = id0.clone();
                        if ok {
                            let t = want[a][b];
                            want[a][b] = want[x][y];
                            want[x][y] = t;
                        }
                        match catch(|| m.swap((a, b), Index::new(x, y)).map(|_| ())) {
                            Ok(x) => check_eq!(x, if ok { Ok(()) } else { Err(Error::IndexOutOfBounds) }, "{w}"),
                            Err(p) => fail(format!("{w} panics: {p}")),
                        }
                        expect(&mut m, &want, &w);
                        if ok {
                            check!(m.swap([x, y], (a, b)).is_ok(), "{w} backwards");
                            expect(&mut m, &id0, &format!("{w} and back"));
                            check!(m.swap(WrappingIndex::new(a as isize - r as isize, b as isize), (x, y)).is_ok(), "{w} wrapping");
                            expect(&mut m, &want, &format!("{w} wrapping"));
                            check!(m.swap((x, y), WrappingIndex::new(a as isize, b as isize + c as isize)).is_ok(), "{w} wrapping");
                            expect(&mut m, &id0, &format!("{w} wrapping, back"));
                        }
                    }
                }
            }
        }
    }
    if T::NAME == "Tok" {
        check!(l.made() == made && l.clones() == 0 && l.drops() == 0, "elements were cloned or dropped");
        drop(m);
        l.settle();
    }
}

pub fn run_swaps(cfg: &Cfg) {
    let w = "swaps";
    each::<u64>(&shapes(if cfg.deep { 7 } else { 5 }), w, swaps::<u64>);
    each::<Tok>(&small(4), w, swaps::<Tok>);
    each::<Tok>(&[(16, 33), (33, 16)], w, swaps::<Tok>);
    each::<u8>(&small(4), w, swaps::<u8>);
    each::<ZA>(&small(3), w, swaps::<ZA>);
    each::<Z>(&small(3), w, swaps::<Z>);
    each::<String>(&small(3), w, swaps::<String>);
    each::<[u16; 3]>(&small(5), w, swaps::<[u16; 3]>);
    for o in ORDERS {
        for n in [usize::MAX, 1 << 63] {
            for rows in [true, false] {
                // swapping the long way round walks every element; keep to what returns at once
                case!("{n} zero-sized elements, one {}, {o:?}", if rows { "row" } else { "column" });
                let e = catch(|| {
                    let mut m = huge::<Z1>(rows, o, n);
                    let last = if rows { (0, n - 1) } else { (n - 1, 0) };
                    check!(m.swap((0, 0), last).is_ok(), "swap of the corners");
                    if rows {
                        check!(m.swap_cols(0, n - 1).is_ok() && m.swap_cols(n - 1, n - 2).is_ok(), "swap_cols");
                        check!(m.swap_cols(0, n).is_err() && m.swap_rows(0, 1).is_err(), "out of range accepted");
                    } else {
                        check!(m.swap_rows(0, n - 1).is_ok() && m.swap_rows(n - 1, n - 2).is_ok(), "swap_rows");
                        check!(m.swap_rows(0, n).is_err() && m.swap_cols(0, 1).is_err(), "out of range accepted");
                    }
                });
                if let Err(p) = e {
                    fail(format!("panics: {p}"))
                }
            }
            for (r, c) in [(n, 0), (0, n)] {
                case!("empty {r}x{c} {o:?}, swaps");
                let e = catch(|| {
                    let mut m = build::<u64>(&Mdl::new(0, 0, o, |_, _| 0));
                    if m.reshape((r, c)).is_err() {
                        return;
                    }
                    for (a, b) in [(0, n - 1), (0, 0), (n - 1, n - 1), (0, n), (n, n)] {
                        let ok = a < r && b < r;
                        check_eq!(m.swap_rows(a, b).map(|_| ()), if ok { Ok(()) } else { Err(Error::IndexOutOfBounds) }, "swap_rows({a}, {b})");
                        let ok = a < c && b < c;
                        check_eq!(m.swap_cols(a, b).map(|_| ()), if ok { Ok(()) } else { Err(Error::IndexOutOfBounds) }, "swap_cols({a}, {b})");
                    }
                    check_eq!((m.nrows(), m.ncols()), (r, c), "shape");
                });
                if let Err(p) = e {
                    fail(format!("panics: {p}"))
                }
            }
        }
    }
}

// ------------------------------------------------------------ C14

fn overwrites<T: Id>(a: (usize, usize), oa: Order, b: (usize, usize), ob: Order) {
    case!("{} dest {}x{} {oa:?}, src {}x{} {ob:?}", T::NAME, a.0, a.1, b.0, b.1);
    let l = Ledger::open();
    let d = Mdl::seq(a.0, a.1, oa, 1).lim::<T>();
    let s = Mdl::seq(b.0, b.1, ob, 100).lim::<T>();
    let mut m: Matrix<T> = build(&d);
    let src: Matrix<T> = build(&s);
    let (im, is) = (ids(&m), ids(&src));
    let drops = l.drops();
    if let Err(p) = catch(|| { m.overwrite(&src); }) {
        fail(format!("panics: {p}"))
    }
    let (r, c) = (a.0.min(b.0), a.1.min(b.1));
    let want = Mdl::new(a.0, a.1, oa, |i, j| if i < r && j < c { s.rows[i][j] } else { d.rows[i][j] });
    check_eq!(observe(&m), want, "dest");
    check_eq!(observe(&src), s, "src");
    check_eq!(ids(&src), is, "elements of src");
    let now = ids(&m);
    for i in 0..a.0 {
        for j in 0..a.1 {
            if i >= r || j >= c {
                check_eq!(now[d.pos(i, j)], im[d.pos(i, j)], "the element at ({i}, {j}), outside the block");
            }
        }
    }
    if T::NAME == "Tok" {
        check_eq!(l.clones(), r * c, "clones made");
        check_eq!(l.drops() - drops, r * c, "elements dropped");
    }
    drop(m);
    check_eq!(observe(&src), s, "src after dest is gone");
    drop(src);
    if T::NAME == "Tok" || T::NAME == "Z" {
        l.settle();
    }
}

pub fn run_overwrite(cfg: &Cfg) {
    let t = small(if cfg.deep { 6 } else { 4 });
    for oa in ORDERS {
        for ob in ORDERS {
            for &a in &t {
                for &b in &t {
                    overwrites::<u64>(a, oa, b, ob);
                    overwrites::<Tok>(a, oa, b, ob);
                    if a.0.max(a.1) < 4 && b.0.max(b.1) < 4 {
                        overwrites::<String>(a, oa, b, ob);
                        overwrites::<Z>(a, oa, b, ob);
                        overwrites::<[u16; 3]>(a, oa, b, ob);
                    }
                }
            }
            for (i, &a) in BIG.iter().enumerate() {
                for (j, &b) in BIG.iter().enumerate() {
                    if a.0 * a.1 * b.0 * b.1 < 2_000_000 || (i + j) % 3 == 0 {
                        overwrites::<u64>(a, oa, b, ob);
                    }
                }
            }
            // empty against huge
            for (a, b) in [((usize::MAX, 0), (2, 2)), ((0, usize::MAX), (3, 1)), ((2, 3), (usize::MAX, 0)), ((2, 3), (0, usize::MAX)), ((usize::MAX, 0), (0, usize::MAX))] {
                case!("dest {a:?} {oa:?}, src {b:?} {ob:?} (empty against others)");
                let mk = |s: (usize, usize), o: Order| {
                    if s.0.max(s.1) < 100 {
                        return Some(build::<u64>(&Mdl::seq(s.0, s.1, o, 1)));
                    }
                    let mut m = build::<u64>(&Mdl::new(0, 0, o, |_, _| 0));
                    m.reshape(s).ok()?;
                    Some(m)
                };
                let (Some(mut x), Some(y)) = (mk(a, oa), mk(b, ob)) else { continue };
                let before: Vec<u64> = x.iter_elements().copied().collect();
                if let Err(p) = catch(|| { x.overwrite(&y); }) {
                    fail(format!("panics: {p}"))
                }
                check!((x.nrows(), x.ncols(), x.order()) == (a.0, a.1, oa) && x.iter_elements().copied().collect::<Vec<_>>() == before, "dest changed");
            }
            // zero-sized elements, one huge line against a small matrix
            for rows in [true, false] {
                case!("dest: {} zero-sized elements in one {}, src 2x2 zero-sized", usize::MAX, if rows { "row" } else { "column" });
                let mut m = huge::<Z1>(rows, oa, usize::MAX);
                let s = build::<Z1>(&Mdl::seq(2, 2, ob, 1));
                if let Err(p) = catch(|| { m.overwrite(&s); }) {
                    fail(format!("panics: {p}"))
                }
                check_eq!(m.size(), usize::MAX, "size of dest");
                case!("dest 2x2 zero-sized, src: {} zero-sized elements in one {}", usize::MAX, if rows { "row" } else { "column" });
                let mut m = build::<Z1>(&Mdl::seq(2, 2, oa, 1));
                let s = huge::<Z1>(rows, ob, usize::MAX);
                if let Err(p) = catch(|| { m.overwrite(&s); }) {
                    fail(format!("panics: {p}"))
                }
                check_eq!(m.size(), 4, "size of dest");
            }
        }
    }
}
