//! C04 checked indexing; C13 wrapping indices.
use crate::util::*;
use matreex::index::{AsIndex, MatrixIndex};
use matreex::{Error, Index, Matrix, Order, WrappingIndex};
use std::cell::RefCell;

const OOB: Error = Error::IndexOutOfBounds;

#[derive(Clone, Copy)]
struct Own(usize, usize);
impl AsIndex for Own {
    fn row(&self) -> usize {
        self.0
    }
    fn col(&self) -> usize {
        self.1
    }
}

fn values(n: usize, other: usize) -> Vec<usize> {
    let mut v: Vec<usize> = if n <= 8 { (0..n + 3).collect() } else { vec![0, 1, n / 2, n - 2, n - 1, n, n + 1] };
    v.extend([usize::MAX, usize::MAX - 1, usize::MAX / 2, usize::MAX / 2 + 1, 1 << 32, (1 << 32) + 1, 1 << 31, 1 << 63, n.wrapping_mul(other)]);
    // products with the other dimension that wrap round to small positions
    for k in [1usize, 2, 3, other] {
        if k > 0 {
            v.push((usize::MAX / k).wrapping_add(1));
            v.push(usize::MAX / k);
            v.push((usize::MAX / k).wrapping_add(2));
            v.push(0usize.wrapping_sub(k));
        }
    }
    v.sort();
    v.dedup();
    v
}

fn one<T: El, I: MatrixIndex<T, Output = T> + Copy>(m: &mut Matrix<T>, i: I, want: Option<usize>, addrs: &[usize], mem: &[u64], what: &str) {
    let ok = |e: &T, w: &str| {
        match want {
            None => fail(format!("{w} {what} succeeds out of bounds")),
            Some(k) => {
                check!(T::ZST || e as *const T as usize == addrs[k], "{w} {what} gives another element");
                check_eq!(e.val(), mem[k], "{w} {what}");
            }
        }
    };
    let bad = |e: Error, w: &str| check!(want.is_none() && e == OOB, "{w} {what} gives {e:?}");
    match m.get(i) {
        Ok(e) => ok(e, "get"),
        Err(e) => bad(e, "get"),
    }
    match m.get_mut(i) {
        Ok(e) => ok(e, "get_mut"),
        Err(e) => bad(e, "get_mut"),
    }
    match MatrixIndex::get(i, m) {
        Ok(e) => ok(e, "MatrixIndex::get"),
        Err(e) => bad(e, "MatrixIndex::get"),
    }
    match MatrixIndex::get_mut(i, m) {
        Ok(e) => ok(e, "MatrixIndex::get_mut"),
        Err(e) => bad(e, "MatrixIndex::get_mut"),
    }
    match catch(|| &m[i]) {
        Ok(e) => ok(e, "[]"),
        Err(_) => check!(want.is_none(), "[] {what} panics"),
    }
    match catch(|| &mut m[i]) {
        Ok(e) => ok(e, "[] mut"),
        Err(_) => check!(want.is_none(), "[] mut {what} panics"),
    }
    check_eq!(i.is_out_of_bounds(m), want.is_none(), "is_out_of_bounds {what}");
    check_eq!(i.ensure_in_bounds(m).is_ok(), want.is_some(), "ensure_in_bounds {what}");
    if want.is_some() {
        // SAFETY: in bounds
        unsafe {
            ok(m.get_unchecked(i), "get_unchecked");
            ok(m.get_unchecked_mut(i), "get_unchecked_mut");
        }
    }
}

fn grid<T: El>(r: usize, c: usize, o: Order) {
    let (mut m, d) = mseq::<T>(r, c, o);
    let mem = d.mem();
    let addrs: Vec<usize> = m.iter_elements().map(|e| e as *const T as usize).collect();
    for a in values(r, c) {
        for b in values(c, r) {
            let want = (a < r && b < c).then(|| d.pos(a, b));
            let w = format!("({a}, {b})");
            let e = catch(|| {
                one(&mut m, (a, b), want, &addrs, &mem, &w);
                one(&mut m, [a, b], want, &addrs, &mem, &w);
                one(&mut m, Index::new(a, b), want, &addrs, &mem, &w);
                one(&mut m, Own(a, b), want, &addrs, &mem, &w);
                one(&mut m, Index::from((a, b)), want, &addrs, &mem, &w);
                one(&mut m, *Index::new(b, a).swap(), want, &addrs, &mem, &w);
            });
            if let Err(p) = e {
                fail(format!("{w}: panics: {p}"))
            }
            if let Some(k) = want {
                *m.get_mut((a, b)).unwrap() = T::mk(mem[k]);
            }
        }
    }
    check_eq!(observe(&m), d, "matrix after indexing");
}

/// accessors that follow a script, one answer per call
struct Script<'a> {
    rows: &'a [usize],
    cols: &'a [usize],
    log: RefCell<(Vec<usize>, Vec<usize>)>,
}
impl AsIndex for Script<'_> {
    fn row(&self) -> usize {
        let mut l = self.log.borrow_mut();
        let v = self.rows[l.0.len() % self.rows.len()];
        l.0.push(v);
        v
    }
    fn col(&self) -> usize {
        let mut l = self.log.borrow_mut();
        let v = self.cols[l.1.len() % self.cols.len()];
        l.1.push(v);
        v
    }
}
impl AsIndex for &Script<'_> {
    fn row(&self) -> usize {
        (**self).row()
    }
    fn col(&self) -> usize {
        (**self).col()
    }
}

fn flaky(r: usize, c: usize, o: Order) {
    let (mut m, d) = mseq::<u64>(r, c, o);
    let mut base = m.iter_elements().next().map_or(0, |e| e as *const u64 as usize);
    let mem = d.mem();
    let pick = |n: usize| vec![0, n.wrapping_sub(1), n, n + 7, usize::MAX, 1 << 61];
    let (pr, pc) = (pick(r), pick(c));
    for &a in &pr {
        for &b in &pr {
            for &x in &pc {
                for &y in &pc {
                    for way in 0..8 {
                        let s = Script { rows: &[a, b, a], cols: &[x, y, y], log: Default::default() };
                        let what = ["get", "get_mut", "[]", "[] mut", "MatrixIndex::get", "MatrixIndex::get_mut", "swap", "iter"][way];
                        case!("u64 {r}x{c} {o:?}, {what} with an index whose row() answers {a}, {b}, {a}, ... and col() {x}, {y}, {y}, ...");
                        let res: Result<Result<usize, Error>, String> = match way {
                            0 => catch(|| m.get(&s).map(|e| e as *const u64 as usize)),
                            1 => catch(|| m.get_mut(&s).map(|e| e as *mut u64 as usize)),
                            2 => catch(|| Ok(&m[&s] as *const u64 as usize)),
                            3 => catch(|| Ok(&mut m[&s] as *mut u64 as usize)),
                            4 => catch(|| MatrixIndex::get(&s, &m).map(|e| e as *const u64 as usize)),
                            5 => catch(|| MatrixIndex::get_mut(&s, &mut m).map(|e| e as *mut u64 as usize)),
                            6 => {
                                let k = catch(|| m.swap(&s, &s).map(|_| ()));
                                let mut now: Vec<u64> = m.iter_elements().copied().collect();
                                now.sort();
                                let mut was = mem.clone();
                                was.sort();
                                check_eq!(now, was, "elements after swap");
                                m = build(&d);
                                base = m.iter_elements().next().map_or(0, |e| e as *const u64 as usize);
                                check!(k.is_ok(), "swap panics");
                                continue;
                            }
                            _ => continue,
                        };
                        let (lr, lc) = s.log.borrow().clone();
                        match res {
                            Ok(Ok(at)) => {
                                let off = at.wrapping_sub(base);
                                check!(off % 8 == 0 && off / 8 < mem.len(), "the element is outside the matrix");
                                let k = off / 8;
                                check!(lr.iter().any(|i| lc.iter().any(|j| *i < r && *j < c && d.pos(*i, *j) == k)), "gives an element the accessors (rows {lr:?}, cols {lc:?}) never named");
                            }
                            Ok(Err(e)) => {
                                check!(e == OOB && (lr.iter().any(|i| *i >= r) || lc.iter().any(|j| *j >= c)), "fails with {e:?} though the accessors only named valid positions (rows {lr:?}, cols {lc:?})");
                            }
                            Err(p) => {
                                check!(way == 2 || way == 3, "panics: {p}");
                                check!(lr.iter().any(|i| *i >= r) || lc.iter().any(|j| *j >= c), "panics though the accessors only named valid positions");
                            }
                        }
                    }
                }
            }
        }
    }
}

pub fn run(cfg: &Cfg) {
    fn all<T: El>(s: &[(usize, usize)]) {
        for &(r, c) in s {
            for o in ORDERS {
                case!("{} {r}x{c} {o:?}, indexing", T::NAME);
                grid::<T>(r, c, o);
            }
        }
    }
    all::<u64>(&shapes(if cfg.deep { 9 } else { 5 }));
    all::<Tok>(&small(3));
    all::<u8>(&small(3));
    all::<ZA>(&small(3));
    all::<[u16; 3]>(&small(3));
    for o in ORDERS {
        for (r, c) in [(0, 0), (0, 2), (2, 0), (1, 1), (1, 3), (3, 2), (2, 3)] {
            flaky(r, c, o);
        }
        // huge dimensions: empty, and zero-sized elements
        for n in [usize::MAX, 1 << 63, 1 << 32] {
            for (r, c) in [(n, 0), (0, n)] {
                case!("empty {r}x{c} {o:?}");
                let mut m = build::<u64>(&Mdl::new(0, 0, o, |_, _| 0));
                if m.reshape((r, c)).is_err() {
                    continue;
                }
                for a in [0, 1, n - 1, n, usize::MAX] {
                    for b in [0, 1, n - 1, n, usize::MAX] {
                        let e = catch(|| one(&mut m, (a, b), None, &[], &[], &format!("({a}, {b})")));
                        if let Err(p) = e {
                            fail(format!("({a}, {b}): panics: {p}"))
                        }
                    }
                }
            }
            for rows in [true, false] {
                case!("{n} zero-sized elements in one {}, {o:?}", if rows { "row" } else { "column" });
                let mut m = huge::<Z1>(rows, o, n);
                let (r, c) = if rows { (1, n) } else { (n, 1) };
                for a in [0, 1, 2, n / 2, n - 1, n, usize::MAX] {
                    for b in [0, 1, 2, n / 2, n - 1, n, usize::MAX] {
                        let e = catch(|| {
                            check_eq!(m.get((a, b)).is_ok(), a < r && b < c, "get(({a}, {b}))");
                            check_eq!(m.get_mut((a, b)).is_ok(), a < r && b < c, "get_mut(({a}, {b}))");
                        });
                        if let Err(p) = e {
                            fail(format!("({a}, {b}): panics: {p}"))
                        }
                    }
                }
            }
        }
    }
}

// ------------------------------------------------------------ C13

fn wraps<T: El>(r: usize, c: usize, o: Order) {
    let (mut m, d) = mseq::<T>(r, c, o);
    let mem = d.mem();
    let addrs: Vec<usize> = m.iter_elements().map(|e| e as *const T as usize).collect();
    let vals = |n: usize| {
        let n = n as isize;
        let mut v: Vec<isize> = if n <= 6 { (-2 * n - 2..=2 * n + 2).collect() } else { vec![0, 1, -1, n - 1, n, n + 1, -n + 1, -n, -n - 1, 2 * n, -2 * n, 2 * n - 1] };
        v.extend([isize::MIN, isize::MIN + 1, isize::MIN + 2, isize::MAX, isize::MAX - 1, isize::MIN / 2, isize::MAX / 2, -(1 << 32), 1 << 32, -(1 << 31), 255, -256]);
        if n > 0 {
            let q = isize::MAX / n * n;
            v.extend([q, q - 1, -q, -q - 1, -q + 1]);
        }
        v.sort();
        v.dedup();
        v
    };
    for a in vals(r) {
        for b in vals(c) {
            let w = format!("WrappingIndex({a}, {b})");
            let want = (r > 0 && c > 0).then(|| d.pos((a as i128).rem_euclid(r as i128) as usize, (b as i128).rem_euclid(c as i128) as usize));
            let e = catch(|| {
                one(&mut m, WrappingIndex::new(a, b), want, &addrs, &mem, &w);
                one(&mut m, *WrappingIndex::new(b, a).swap(), want, &addrs, &mem, &w);
            });
            if let Err(p) = e {
                fail(format!("{w}: panics: {p}"))
            }
            if want.is_none() {
                // the unchecked forms must panic, not read memory
                let e = catch(|| unsafe { m.get_unchecked(WrappingIndex::new(a, b)) as *const T as usize });
                check!(e.is_err(), "get_unchecked({w}) on an empty matrix gives a reference");
                let e = catch(|| unsafe { m.get_unchecked_mut(WrappingIndex::new(a, b)) as *mut T as usize });
                check!(e.is_err(), "get_unchecked_mut({w}) on an empty matrix gives a reference");
                let e = catch(|| m.swap(WrappingIndex::new(a, b), WrappingIndex::new(b, a)).map(|_| ()));
                check_eq!(e, Ok(Err(OOB)), "swap at {w} on an empty matrix");
            }
        }
    }
    check_eq!(observe(&m), d, "matrix after indexing");
}

pub fn run_wrap(cfg: &Cfg) {
    fn all<T: El>(s: &[(usize, usize)]) {
        for &(r, c) in s {
            for o in ORDERS {
                case!("{} {r}x{c} {o:?}, wrapping indices", T::NAME);
                wraps::<T>(r, c, o);
            }
        }
    }
    all::<u64>(&shapes(if cfg.deep { 9 } else { 5 }));
    all::<Tok>(&small(3));
    all::<ZA>(&small(2));
    // dimensions beyond isize::MAX (zero-sized elements)
    for o in ORDERS {
        for rows in [true, false] {
            for n in [usize::MAX, usize::MAX - 1, 1 << 63, (1 << 63) - 1, (1 << 63) + 1, 1 << 62, 3 << 61] {
                case!("{n} zero-sized elements in one {}, {o:?}, wrapping indices", if rows { "row" } else { "column" });
                let mut m = huge::<Z1>(rows, o, n);
                for a in [0, 1, -1, isize::MIN, isize::MAX, isize::MIN + 1, 12345, -12345] {
                    for b in [0, 1, -1, isize::MIN, isize::MAX, isize::MAX - 1] {
                        let e = catch(|| {
                            let i = WrappingIndex::new(a, b);
                            check!(m.get(i).is_ok() && m.get_mut(i).is_ok(), "get(({a}, {b})) fails");
                            let _ = &m[i];
                            let _ = &mut m[i];
                            unsafe {
                                let _ = m.get_unchecked(i);
                                let _ = m.get_unchecked_mut(i);
                            }
                        });
                        if let Err(p) = e {
                            fail(format!("({a}, {b}): panics: {p}"))
                        }
                    }
                }
            }
            // empty with huge dimensions
            for (r, c) in [(usize::MAX, 0), (0, usize::MAX), (1 << 63, 0), (0, 1 << 63)] {
                case!("empty {r}x{c} {o:?}, wrapping indices");
                let mut m = build::<u64>(&Mdl::new(0, 0, o, |_, _| 0));
                if m.reshape((r, c)).is_err() {
                    continue;
                }
                for a in [0, 5, -1, isize::MIN, isize::MAX] {
                    for b in [0, -3, isize::MIN, isize::MAX] {
                        let i = WrappingIndex::new(a, b);
                        check!(m.get(i) == Err(&OOB).map_err(|e| *e) && m.get_mut(i).is_err(), "get(({a}, {b})) on an empty matrix");
                        check!(catch(|| m[i]).is_err(), "[] on an empty matrix succeeds");
                        check!(catch(|| unsafe { *m.get_unchecked(i) }).is_err(), "get_unchecked on an empty matrix succeeds");
                        check!(catch(|| unsafe { *m.get_unchecked_mut(i) = 1 }).is_err(), "get_unchecked_mut on an empty matrix succeeds");
                    }
                }
            }
        }
    }
}
