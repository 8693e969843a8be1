//! C01: random and exhaustive operation histories against the reference model.
use crate::util::*;
use matreex::{Error, Index, Matrix, Order};

#[derive(Clone, Debug)]
enum Op {
    Transpose,
    Switch,
    SwitchWo,
    Set(Order),
    SetWo(Order),
    Reshape(usize, usize),
    Resize(usize, usize),
    Shrink,
    ShrinkTo(usize),
    Overwrite(usize, usize, Order),
    Apply,
    Map,
    MapRef,
    Clear,
    Swap(usize, usize, usize, usize),
    SwapRows(usize, usize),
    SwapCols(usize, usize),
    Put(usize, usize),
    IterMut,
    RowsMut,
    ColsMut,
    NthRowMut(usize),
    Ew(usize, usize, Order),
    EwConsume(usize, usize, Order),
    EwAssign(usize, usize, Order),
    Mul(usize, Order),
    Scalar,
    ScalarConsume,
    ScalarAssign,
    CloneIt,
    CloneFrom(usize, usize, Order),
    Reload,
    Rebuild(u8),
    Par(u8),
    IdxMut,
}
use Op::*;

fn gen_op(r: &mut Rng, big: bool) -> Op {
    let n = |r: &mut Rng| {
        let k = r.below(12);
        if k == 11 {
            [usize::MAX, 1 << 32, usize::MAX / 2 + 1, 7, 9][r.below(5)]
        } else if big {
            k * r.below(5)
        } else {
            k % 5
        }
    };
    let o = |r: &mut Rng| ORDERS[r.below(2)];
    match r.below(38) {
        0 | 34 => Transpose,
        1 | 35 => Switch,
        2 => SwitchWo,
        3 => Set(o(r)),
        4 => SetWo(o(r)),
        5 | 36 => Reshape(n(r), n(r)),
        6 | 37 => Resize(n(r), n(r)),
        7 => Shrink,
        8 => ShrinkTo(r.below(20)),
        9 => Overwrite(r.below(5), r.below(5), o(r)),
        10 => Apply,
        11 => Map,
        12 => MapRef,
        13 => if r.below(3) == 0 { Clear } else { Transpose },
        14 => Swap(n(r), n(r), n(r), n(r)),
        15 => SwapRows(n(r), n(r)),
        16 => SwapCols(n(r), n(r)),
        17 => Put(n(r), n(r)),
        18 => IterMut,
        19 => RowsMut,
        20 => ColsMut,
        21 => NthRowMut(n(r)),
        22 => Ew(r.below(5), r.below(5), o(r)),
        23 => EwConsume(r.below(5), r.below(5), o(r)),
        24 => EwAssign(r.below(5), r.below(5), o(r)),
        25 => Mul(r.below(4), o(r)),
        26 => Scalar,
        27 => ScalarConsume,
        28 => ScalarAssign,
        29 => if r.below(2) == 0 { CloneIt } else { CloneFrom(r.below(5), r.below(5), o(r)) },
        30 => Reload,
        31 => Rebuild(r.below(6) as u8),
        32 => Par(r.below(6) as u8),
        _ => IdxMut,
    }
}

/// Applies `op` to the real matrix and to the model; checks the outcome.
fn step<T: El + Send + Sync>(m: Matrix<T>, d: &mut Mdl, op: &Op, n: &mut u64) -> Matrix<T> {
    let mut m = m;
    let sz = d.nr * d.nc;
    let same = |nr: usize, nc: usize| nr.checked_mul(nc) == Some(sz);
    match op.clone() {
        Transpose => {
            m.transpose();
            *d = d.transposed();
        }
        Switch => {
            m.switch_order();
            d.o = flip(d.o);
        }
        SwitchWo => {
            m.switch_order_without_rearrangement();
            *d = d.transposed();
            d.o = flip(d.o);
        }
        Set(o) => {
            m.set_order(o);
            d.o = o;
        }
        SetWo(o) => {
            m.set_order_without_rearrangement(o);
            if o != d.o {
                *d = d.transposed();
                d.o = o;
            }
        }
        Reshape(r, c) => {
            let res = m.reshape((r, c)).map(|_| ());
            if same(r, c) {
                check!(res.is_ok(), "reshape to an equal size fails with {res:?}");
                if r.max(c) > 5000 {
                    check!((m.nrows(), m.ncols(), m.size()) == (r, c, sz), "shape after reshape");
                    check!(m.reshape((d.nr, d.nc)).is_ok(), "reshape back fails");
                    return m;
                }
                *d = Mdl::from_mem(r, c, d.o, &d.mem());
            } else {
                check!(res == Err(Error::SizeMismatch), "reshape to another size gives {res:?}");
            }
        }
        Resize(r, c) => {
            let res = match (r.checked_mul(c), T::ZST) {
                (None, _) => {
                    let e = m.resize((r, c)).map(|_| ());
                    check!(e == Err(Error::SizeOverflow), "resize gives {e:?}");
                    return m;
                }
                (Some(k), _) if k > 5000 => {
                    if T::ZST {
                        return m; // would take forever
                    }
                    if (k as u128) * (size_of::<T>() as u128) > isize::MAX as u128 {
                        let e = m.resize((r, c)).map(|_| ());
                        check!(e == Err(Error::CapacityOverflow), "resize gives {e:?}");
                    }
                    return m;
                }
                _ => m.resize((r, c)).map(|_| ()),
            };
            check!(res.is_ok(), "resize fails with {res:?}");
            if r.max(c) > 5000 && r * c == 0 {
                check!((m.nrows(), m.ncols(), m.size()) == (r, c, 0), "shape after resize");
                check!(m.reshape((0, 0)).is_ok(), "reshape of an empty matrix fails");
                *d = Mdl::new(0, 0, d.o, |_, _| 0);
                return m;
            }
            let mut mem = d.mem();
            mem.resize(r * c, 0);
            *d = Mdl::from_mem(r, c, d.o, &mem);
        }
        Shrink => {
            m.shrink_to_fit();
        }
        ShrinkTo(k) => {
            m.shrink_to(k);
        }
        Overwrite(r, c, o) => {
            let s = Mdl::seq(r, c, o, *n).lim::<T>();
            *n += 100;
            let src: Matrix<T> = build(&s);
            m.overwrite(&src);
            check_eq!(observe(&src), s, "source after overwrite");
            for i in 0..r.min(d.nr) {
                for j in 0..c.min(d.nc) {
                    d.rows[i][j] = s.rows[i][j];
                }
            }
        }
        Apply => {
            m.apply(|e| e.put(e.val().wrapping_mul(3) % 251));
            *d = d.map(|v| v.wrapping_mul(3) % 251);
        }
        Map => {
            m = match m.map(|e| T::mk(e.val() + 1)) {
                Ok(m) => m,
                Err(e) => fail(format!("map gives {e:?}")),
            };
            *d = d.map(|v| v + 1).lim::<T>();
        }
        MapRef => {
            let k = match m.map_ref(|e| T::mk(e.val() + 2)) {
                Ok(m) => m,
                Err(e) => fail(format!("map_ref gives {e:?}")),
            };
            check_eq!(observe(&m), *d, "operand after map_ref");
            m = k;
            *d = d.map(|v| v + 2).lim::<T>();
        }
        Clear => {
            m.clear();
            *d = Mdl::new(0, 0, d.o, |_, _| 0);
        }
        Swap(a, b, x, y) => {
            let res = m.swap((a, b), Index::new(x, y)).map(|_| ());
            if a < d.nr && x < d.nr && b < d.nc && y < d.nc {
                check!(res.is_ok(), "swap gives {res:?}");
                let t = d.rows[a][b];
                d.rows[a][b] = d.rows[x][y];
                d.rows[x][y] = t;
            } else {
                check!(res == Err(Error::IndexOutOfBounds), "swap gives {res:?}");
            }
        }
        SwapRows(a, b) => {
            let res = m.swap_rows(a, b).map(|_| ());
            if a < d.nr && b < d.nr {
                check!(res.is_ok(), "swap_rows gives {res:?}");
                d.rows.swap(a, b);
            } else {
                check!(res == Err(Error::IndexOutOfBounds), "swap_rows gives {res:?}");
            }
        }
        SwapCols(a, b) => {
            let res = m.swap_cols(a, b).map(|_| ());
            if a < d.nc && b < d.nc {
                check!(res.is_ok(), "swap_cols gives {res:?}");
                for r in &mut d.rows {
                    r.swap(a, b);
                }
            } else {
                check!(res == Err(Error::IndexOutOfBounds), "swap_cols gives {res:?}");
            }
        }
        Put(a, b) => {
            *n += 1;
            let ok = a < d.nr && b < d.nc;
            match m.get_mut((a, b)) {
                Ok(e) => {
                    check!(ok, "get_mut succeeds out of bounds");
                    *e = T::mk(*n);
                    d.rows[a][b] = T::lim(*n);
                }
                Err(e) => check!(!ok && e == Error::IndexOutOfBounds, "get_mut gives {e:?}"),
            }
        }
        IdxMut => {
            if sz > 0 {
                *n += 1;
                let (a, b) = (*n as usize % d.nr, (*n as usize / 3) % d.nc);
                m[(a, b)] = T::mk(*n);
                d.rows[a][b] = T::lim(*n);
            }
        }
        IterMut => {
            for (i, e) in m.iter_elements_mut_with_index() {
                check!(i.row < d.nr && i.col < d.nc, "index {i:?} out of bounds");
                e.put(T::lim(e.val() + 1));
                d.rows[i.row][i.col] = T::lim(d.rows[i.row][i.col] + 1);
            }
        }
        RowsMut => {
            for (r, row) in m.iter_rows_mut().enumerate() {
                for (c, e) in row.enumerate() {
                    check!(r < d.nr && c < d.nc, "row iterator goes out of bounds");
                    e.put(T::lim(e.val() + (r * 7 + c) as u64));
                    d.rows[r][c] = T::lim(d.rows[r][c] + (r * 7 + c) as u64);
                }
            }
        }
        ColsMut => {
            for (c, col) in m.iter_cols_mut().enumerate() {
                for (r, e) in col.enumerate() {
                    check!(r < d.nr && c < d.nc, "column iterator goes out of bounds");
                    e.put(T::lim(e.val() + (r * 7 + c) as u64));
                    d.rows[r][c] = T::lim(d.rows[r][c] + (r * 7 + c) as u64);
                }
            }
        }
        NthRowMut(k) => match m.iter_nth_row_mut(k) {
            Ok(it) => {
                check!(k < d.nr, "iter_nth_row_mut({k}) succeeds");
                for (c, e) in it.enumerate() {
                    e.put(T::lim(c as u64 + 1));
                    d.rows[k][c] = T::lim(c as u64 + 1);
                }
            }
            Err(e) => check!(k >= d.nr && e == Error::IndexOutOfBounds, "iter_nth_row_mut({k}) gives {e:?}"),
        },
        Ew(r, c, o) | EwConsume(r, c, o) | EwAssign(r, c, o) => {
            // conformable every other time
            let (r, c) = if (*n + r as u64) % 2 == 0 { (r, c) } else { (d.nr, d.nc) };
            let s = Mdl::seq(r, c, o, *n).lim::<T>();
            *n += 100;
            let rhs: Matrix<T> = build(&s);
            let ok = (r, c) == (d.nr, d.nc);
            let f = |a: u64, b: u64| T::lim(a.wrapping_mul(2).wrapping_add(b) % 1000);
            let want = if ok { Mdl::new(r, c, d.o, |i, j| f(d.rows[i][j], s.rows[i][j])) } else { d.clone() };
            match op {
                Ew(..) => match m.elementwise_operation(&rhs, |a, b| T::mk(f(a.val(), b.val()))) {
                    Ok(k) => {
                        check!(ok, "not conformable, yet accepted");
                        check_eq!(observe(&m), *d, "lhs after the operation");
                        m = k;
                    }
                    Err(e) => check!(!ok && e == Error::ShapeNotConformable, "elementwise operation gives {e:?}"),
                },
                EwConsume(..) => {
                    let keep: Matrix<T> = build(d);
                    m = match m.elementwise_operation_consume_self(&rhs, |a, b| T::mk(f(a.val(), b.val()))) {
                        Ok(k) => {
                            check!(ok, "not conformable, yet accepted");
                            k
                        }
                        Err(e) => {
                            check!(!ok && e == Error::ShapeNotConformable, "elementwise operation gives {e:?}");
                            keep
                        }
                    }
                }
                _ => match m.elementwise_operation_assign(&rhs, |a, b| a.put(f(a.val(), b.val()))).map(|_| ()) {
                    Ok(()) => check!(ok, "not conformable, yet accepted"),
                    Err(e) => check!(!ok && e == Error::ShapeNotConformable, "elementwise operation gives {e:?}"),
                },
            }
            check_eq!(observe(&rhs), s, "rhs after the operation");
            *d = want;
        }
        Mul(k, o) => {
            let s = Mdl::seq(d.nc, k, o, *n % 50).lim::<T>();
            *n += 100;
            let rhs: Matrix<T> = build(&s);
            let dot = |a: &[T], b: &[T]| a.iter().zip(b).fold(0u64, |t, (x, y)| (t + x.val() * y.val()) % 1000);
            m = match m.multiplication_like_operation(rhs, |a, b| T::mk(dot(a, b))) {
                Ok(k) => k,
                Err(e) => fail(format!("multiplication gives {e:?}")),
            };
            *d = Mdl::new(d.nr, k, d.o, |i, j| if d.nc == 0 { 0 } else { T::lim((0..d.nc).fold(0u64, |t, x| (t + d.rows[i][x] * s.rows[x][j]) % 1000)) });
        }
        Scalar => {
            let k = match m.scalar_operation(&5u64, |a, b| T::mk((a.val() + b) % 900)) {
                Ok(k) => k,
                Err(e) => fail(format!("scalar operation gives {e:?}")),
            };
            m = k;
            *d = d.map(|v| T::lim((v + 5) % 900));
        }
        ScalarConsume => {
            m = match m.scalar_operation_consume_self(&5u64, |a, b| T::mk((a.val() + b) % 900)) {
                Ok(k) => k,
                Err(e) => fail(format!("scalar operation gives {e:?}")),
            };
            *d = d.map(|v| T::lim((v + 5) % 900));
        }
        ScalarAssign => {
            m.scalar_operation_assign(&5u64, |a, b| a.put(T::lim((a.val() + b) % 900)));
            *d = d.map(|v| T::lim((v + 5) % 900));
        }
        CloneIt => {
            let k = m.clone();
            check!(k == m, "a clone is not equal to its original");
            check_eq!(observe(&m), *d, "original after clone");
            m = k;
        }
        Reload => {
            // move everything out and in again
            let mem: Vec<T> = m.into_iter_elements().collect();
            check_eq!(mem.iter().map(|e| e.val()).collect::<Vec<_>>(), d.mem(), "elements moved out");
            let mut k = Matrix::from_row(mem);
            if d.o != k.order() {
                k.switch_order_without_rearrangement();
            }
            check!(k.reshape((d.nr, d.nc)).is_ok(), "reshape back fails");
            m = k;
        }
        Rebuild(k) => match k {
            0 => {
                // partial consumption, the rest is dropped
                let mut it = m.into_iter_elements_with_index();
                let a = it.next();
                let b = it.next_back();
                check!(a.is_some() == (sz > 0) && b.is_some() == (sz > 1), "consuming iterator is short");
                drop(it);
                drop((a, b));
                *d = Mdl::seq(2, 3, d.o, *n).lim::<T>();
                m = build(d);
            }
            1 => {
                m = Matrix::with_default((3, 2)).unwrap();
                *d = Mdl::new(3, 2, m.order(), |_, _| 0);
            }
            2 => {
                m = Matrix::with_value((2, 2), T::mk(4)).unwrap();
                *d = Mdl::new(2, 2, m.order(), |_, _| T::lim(4));
            }
            3 => {
                let mut k = Matrix::<T>::with_capacity(9);
                check!(k.size() == 0 && k.nrows() == 0 && k.ncols() == 0, "with_capacity is not empty");
                k.resize((2, 1)).unwrap();
                *d = Mdl::new(2, 1, k.order(), |_, _| 0);
                m = k;
            }
            4 => {
                let rows: Vec<Vec<T>> = (0..3).map(|r| (0..2).map(|c| T::mk(r * 2 + c)).collect()).collect();
                m = rows.into_iter().collect();
                *d = Mdl::new(3, 2, m.order(), |r, c| T::lim((r * 2 + c) as u64));
            }
            _ => {
                m = Default::default();
                *d = Mdl::new(0, 0, m.order(), |_, _| 0);
            }
        },
        Par(k) => par(&mut m, d, k),
        CloneFrom(r, c, o) => {
            // the target has a shape, an order and an allocation of its own
            let mut k: Matrix<T> = build(&Mdl::seq(r, c, o, *n % 50).lim::<T>());
            k.clone_from(&m);
            check!(k == m, "after clone_from the two are not equal");
            check_eq!(observe(&m), *d, "original after clone_from");
            m = k;
        }
    }
    m
}

#[cfg(feature = "parallel")]
fn par<T: El + Send + Sync>(m: &mut Matrix<T>, d: &mut Mdl, k: u8) {
    use rayon::prelude::*;
    let old = std::mem::take(m);
    let bad = |e: Error| -> Matrix<T> { fail(format!("parallel map gives {e:?}")) };
    *m = match k {
        0 => {
            let mut m = old;
            m.par_apply(|e| e.put(T::lim(e.val() + 1)));
            *d = d.map(|v| T::lim(v + 1));
            m
        }
        1 => {
            *d = d.map(|v| T::lim(v + 1));
            old.par_map(|e| T::mk(e.val() + 1)).unwrap_or_else(bad)
        }
        2 => {
            *d = d.map(|v| T::lim(v + 1));
            old.par_map_ref(|e| T::mk(e.val() + 1)).unwrap_or_else(bad)
        }
        3 => {
            let mut m = old;
            m.par_iter_elements_mut_with_index().for_each(|(i, e)| e.put(T::lim(e.val() + (i.row * 5 + i.col) as u64)));
            *d = Mdl::new(d.nr, d.nc, d.o, |r, c| T::lim(d.rows[r][c] + (r * 5 + c) as u64));
            m
        }
        4 => {
            let n = old.into_par_iter_elements_with_index().count();
            check!(n == d.nr * d.nc, "parallel consuming iterator yields {n} items");
            *d = Mdl::seq(2, 3, d.o, 5).lim::<T>();
            build(d)
        }
        _ => {
            let s: u64 = old.par_iter_elements().map(|e| e.val()).sum();
            check!(s == d.mem().iter().sum::<u64>(), "parallel iterator yields other elements");
            old
        }
    };
}
#[cfg(not(feature = "parallel"))]
fn par<T: El>(_: &mut Matrix<T>, _: &mut Mdl, _: u8) {}

fn history<T: El + Send + Sync>(start: &Mdl, ops: &[Op]) {
    let l = Ledger::open();
    let mut d = start.lim::<T>();
    let mut m: Matrix<T> = build(&d);
    let mut n = 100u64;
    let txt = format!("{} {}x{} {:?}: {:?}", T::NAME, start.nr, start.nc, start.o, ops);
    case!("{txt}");
    for (i, op) in ops.iter().enumerate() {
        m = match catch(AssertU(|| step(m, &mut d, op, &mut n)).0) {
            Ok(m) => m,
            Err(p) => fail(format!("step {i} {op:?} panics: {p}")),
        };
        let o = coherent(&m);
        check_eq!(o, d, "after step {i} {op:?}");
        l.no_bad();
        if T::NAME == "Tok" || T::NAME == "Z" {
            check!(l.alive() == m.size(), "after step {i} {op:?}: {} elements are alive, the matrix has {}", l.alive(), m.size());
        }
    }
    drop(m);
    l.settle();
}
struct AssertU<F>(F);

fn run_all<T: El + Send + Sync>(cfg: &Cfg, rng: &mut Rng, n: usize) {
    for i in 0..n {
        let big = i % 8 == 7;
        let (r, c) = if big { BIG[rng.below(BIG.len())] } else { (rng.below(6), rng.below(6)) };
        let len = 1 + rng.below(if cfg.deep { 24 } else { 12 });
        let ops: Vec<Op> = (0..len).map(|_| gen_op(rng, big)).collect();
        history::<T>(&Mdl::seq(r, c, ORDERS[rng.below(2)], 1), &ops);
    }
}

pub fn run(cfg: &Cfg) {
    let mut rng = Rng(cfg.seed ^ 0xC01);
    let o2 = Order::ColMajor;
    let o1 = Order::RowMajor;
    // every history of two of the structural operations, small shapes
    let core = [
        Transpose, Switch, SwitchWo, Set(o1), Set(o2), SetWo(o1), SetWo(o2), Reshape(1, 6), Reshape(3, 2), Reshape(0, 5), Resize(0, 3), Resize(2, 2), Resize(3, 3),
        Resize(1, 1), Shrink, Overwrite(2, 2, o1), Overwrite(3, 1, o2), Clear, Swap(0, 0, 1, 1), SwapRows(0, 1), SwapCols(1, 0), SwapRows(1, 1), SwapCols(0, 0),
        CloneIt, CloneFrom(2, 3, o1), CloneFrom(3, 2, o2), Reload, RowsMut, ColsMut, Map, Mul(2, o2), Ew(2, 3, o2), EwAssign(2, 3, o2), EwConsume(2, 3, o2), ScalarConsume, IterMut, Rebuild(0), Resize(usize::MAX, 2), Reshape(usize::MAX, 3),
    ];
    for (r, c) in [(0, 0), (0, 3), (3, 0), (1, 1), (2, 3), (3, 2), (2, 2)] {
        for o in ORDERS {
            for a in &core {
                for b in &core {
                    history::<Tok>(&Mdl::seq(r, c, o, 1), &[a.clone(), b.clone()]);
                }
            }
        }
    }
    for (r, c) in shapes(5) {
        for o in ORDERS {
            for a in &core {
                if r * c > 1100 && matches!(a, Clear | Reload | CloneIt | CloneFrom(..) | IterMut) {
                    continue;
                }
                history::<Tok>(&Mdl::seq(r, c, o, 1), &[a.clone()]);
                if r * c < 300 {
                    history::<Z>(&Mdl::seq(r, c, o, 1), &[a.clone()]);
                    history::<u8>(&Mdl::seq(r, c, o, 1), &[a.clone()]);
                }
            }
        }
    }
    let n = if cfg.deep { 20000 } else { 1200 };
    run_all::<Tok>(cfg, &mut rng, n);
    run_all::<Z>(cfg, &mut rng, n / 4);
    run_all::<ZA>(cfg, &mut rng, n / 8);
    run_all::<u8>(cfg, &mut rng, n / 4);
    run_all::<String>(cfg, &mut rng, n / 8);
    run_all::<[u16; 3]>(cfg, &mut rng, n / 8);
    // a matrix of a huge number of zero-sized elements is still coherent
    for k in [usize::MAX, usize::MAX - 1, isize::MAX as usize, isize::MAX as usize + 1] {
        for o in ORDERS {
            for rows in [true, false] {
                case!("{k} zero-sized elements, one {}, {o:?}", if rows { "row" } else { "column" });
                let r = catch(|| {
                    let mut m = huge::<Z1>(rows, o, k);
                    let want = if rows { (1, k) } else { (k, 1) };
                    check_eq!((m.nrows(), m.ncols(), m.size()), (want.0, want.1, k), "shape");
                    m.transpose();
                    check_eq!((m.nrows(), m.ncols(), m.size()), (want.1, want.0, k), "shape after transpose");
                    m.switch_order_without_rearrangement();
                    check_eq!((m.nrows(), m.ncols(), m.size()), (want.0, want.1, k), "shape after switch_order_without_rearrangement");
                    check!(m.get((want.0 - 1, want.1 - 1)).is_ok() && m.get((want.0, 0)).is_err() && m.get((0, want.1)).is_err(), "get at the corners");
                    check!(m.resize((3, 2)).is_ok() && m.size() == 6, "resize down");
                });
                if let Err(p) = r {
                    fail(format!("panics: {p}"))
                }
            }
        }
    }
}
