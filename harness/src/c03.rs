//! C03: mutable row/column iterators under every interleaving; C06 views; C15 element order.
use crate::util::*;
use matreex::iter::ExactSizeDoubleEndedIterator;
use matreex::{Index, Matrix, Order};

/// Where position (r, c) must be: address by storage order.
fn addr<T: El>(base: usize, d: (usize, usize), o: Order, r: usize, c: usize) -> usize {
    base + size_of::<T>() * if o == Order::RowMajor { r * d.1 + c } else { c * d.0 + r }
}

macro_rules! both {
    ($m:expr, $rows:expr, |$it:ident| $e:expr) => {
        if $rows {
            #[allow(unused_mut)]
            let mut $it = $m.iter_rows_mut();
            $e
        } else {
            #[allow(unused_mut)]
            let mut $it = $m.iter_cols_mut();
            $e
        }
    };
}
pub(crate) use both;

/// one schedule: bits choose next/next_back on the outer iterator, `inner`
/// chooses among the handed-out vectors and their ends
fn schedule<T: El>(r: usize, c: usize, o: Order, rows: bool, outer: u64, inner: &mut dyn FnMut(usize) -> usize) {
    let (mut m, d) = mseq::<T>(r, c, o);
    let base = m.iter_elements().next().map_or(0, |e| e as *const T as usize);
    let (nv, len) = if rows { (r, c) } else { (c, r) };
    let mut hit = vec![0u32; r * c];
    both!(m, rows, |it| {
        let mut got = vec![];
        let (mut lo, mut hi) = (0, nv);
        check_eq!(it.len(), nv, "len of the outer iterator at the start");
        for step in 0..nv + 2 {
            let back = outer >> step & 1 == 1;
            let x = if back { it.next_back() } else { it.next() };
            if lo == hi {
                check!(x.is_none(), "the outer iterator yields a vector past its end");
                check_eq!(it.len(), 0, "len after the end");
                continue;
            }
            let k = if back { hi -= 1; hi } else { lo += 1; lo - 1 };
            match x {
                None => fail(format!("the outer iterator ends early, {} vector(s) are missing", hi - lo + 1)),
                Some(v) => {
                    check_eq!(v.len(), len, "len of vector {k}");
                    got.push((k, v, 0, len));
                }
            }
            check_eq!(it.len(), hi - lo, "len of the outer iterator");
            check_eq!(it.size_hint(), (hi - lo, Some(hi - lo)), "size_hint of the outer iterator");
        }
        let mut left: Vec<usize> = (0..got.len()).collect();
        let mut keep: Vec<(&mut T, u64)> = vec![];
        while !left.is_empty() {
            let w = inner(2 * left.len());
            let (i, back) = (left[w / 2], w % 2 == 1);
            let (k, v, lo, hi) = &mut got[i];
            let x = if back { v.next_back() } else { v.next() };
            if lo == hi {
                check!(x.is_none(), "vector {k} yields an element past its end");
                check_eq!(v.len(), 0, "len of a finished vector");
                let again = if back { v.next() } else { v.next_back() };
                check!(again.is_none(), "vector {k} yields an element after it ended");
                left.swap_remove(w / 2);
                continue;
            }
            let j = if back { *hi -= 1; *hi } else { *lo += 1; *lo - 1 };
            let (rr, cc) = if rows { (*k, j) } else { (j, *k) };
            let e = match x {
                None => fail(format!("vector {k} ends early")),
                Some(e) => e,
            };
            let at = e as *const T as usize;
            if T::ZST {
                check!(at % align_of::<T>() == 0 && at != 0, "reference to a zero-sized element is null or misaligned");
            } else {
                check!(at == addr::<T>(base, (r, c), o, rr, cc), "the reference handed out for ({rr}, {cc}) points {} bytes from where that element is", at as i128 - addr::<T>(base, (r, c), o, rr, cc) as i128);
            }
            hit[d.pos(rr, cc)] += 1;
            check_eq!(e.val(), d.rows[rr][cc], "element handed out for ({rr}, {cc})");
            keep.push((e, T::lim((1000 + rr * 7 + cc) as u64)));
            check_eq!(v.len(), *hi - *lo, "len of vector {k}");
            check_eq!(v.size_hint(), (*hi - *lo, Some(*hi - *lo)), "size_hint of vector {k}");
        }
        // all references are alive at once
        for (e, v) in keep {
            e.put(v)
        }
    });
    check!(hit.iter().all(|h| *h == 1), "elements handed out {hit:?} times (in memory order)");
    check_eq!(observe(&m), Mdl::new(r, c, o, |i, j| T::lim((1000 + i * 7 + j) as u64)), "matrix after writing through every reference");
}

fn adaptors<T: El>(r: usize, c: usize, o: Order, rows: bool) {
    let (nv, len) = if rows { (r, c) } else { (c, r) };
    let d = Mdl::seq(r, c, o, 1).lim::<T>();
    let want = |k: usize| -> Vec<u64> { (0..len).map(|j| if rows { d.rows[k][j] } else { d.rows[j][k] }).collect() };
    let mut m: Matrix<T> = build(&d);
    both!(m, rows, |it| check_eq!(it.count(), nv, "count"));
    both!(m, rows, |it| check_eq!(it.rev().map(|v| v.map(|e| e.val()).collect::<Vec<_>>()).collect::<Vec<_>>(), (0..nv).rev().map(want).collect::<Vec<_>>(), "rev()"));
    both!(m, rows, |it| check_eq!(it.last().map(|v| v.rev().map(|e| e.val()).collect::<Vec<_>>()), nv.checked_sub(1).map(|k| want(k).into_iter().rev().collect::<Vec<_>>()), "last() reversed"));
    for k in 0..nv + 2 {
        both!(m, rows, |it| {
            check_eq!(it.nth(k).map(|v| v.map(|e| e.val()).collect::<Vec<_>>()), (k < nv).then(|| want(k)), "nth({k})");
            check_eq!(it.len(), nv.saturating_sub(k + 1), "len after nth({k})");
        });
        both!(m, rows, |it| {
            check_eq!(it.nth_back(k).map(|v| v.map(|e| e.val()).collect::<Vec<_>>()), (k < nv).then(|| want(nv - 1 - k)), "nth_back({k})");
            check_eq!(it.next().map(|v| v.map(|e| e.val()).collect::<Vec<_>>()), (k + 1 < nv).then(|| want(0)), "next() after nth_back({k})");
        });
    }
    if nv > 0 {
        for j in 0..len + 2 {
            both!(m, rows, |it| {
                let mut v = it.next().unwrap();
                check_eq!(v.nth(j).map(|e| e.val()), (j < len).then(|| want(0)[j]), "element nth({j})");
                check_eq!(v.len(), len.saturating_sub(j + 1), "len after element nth({j})");
                check_eq!(v.map(|e| e.val()).collect::<Vec<_>>(), want(0).into_iter().skip(j + 1).collect::<Vec<_>>(), "the rest after nth({j})");
            });
            both!(m, rows, |it| {
                let mut v = it.next_back().unwrap();
                check_eq!(v.nth_back(j).map(|e| e.val()), (j < len).then(|| want(nv - 1)[len - 1 - j]), "element nth_back({j})");
                check_eq!(v.count(), len.saturating_sub(j + 1), "count after element nth_back({j})");
            });
        }
    }
    check_eq!(observe(&m), d, "matrix after reading only");
}

fn sweep<T: El>(cfg: &Cfg, max: usize, rng: &mut Rng) {
    for (r, c) in small(max) {
        for o in ORDERS {
            for rows in [true, false] {
                let nv = if rows { r } else { c };
                for outer in 0..1u64 << (nv + 2) {
                    // ends chosen: all forward, all back, alternating, random
                    for mode in 0..4 {
                        case!("{} {r}x{c} {o:?}, iter_{}_mut, outer schedule {outer:b} (lowest bit first, 1 = next_back), inner mode {mode} seed {}", T::NAME, if rows { "rows" } else { "cols" }, cfg.seed);
                        let mut t = 0;
                        let mut f = |n: usize| {
                            t += 1;
                            match mode {
                                0 => 0,
                                1 => n - 1,
                                2 => (t % 2 + 2 * (t / 2)) % n,
                                _ => rng.below(n),
                            }
                        };
                        let e = catch(|| schedule::<T>(r, c, o, rows, outer, &mut f));
                        if let Err(p) = e {
                            fail(format!("panics: {p}"))
                        }
                    }
                }
                case!("{} {r}x{c} {o:?}, iter_{}_mut adaptors", T::NAME, if rows { "rows" } else { "cols" });
                if let Err(p) = catch(|| adaptors::<T>(r, c, o, rows)) {
                    fail(format!("panics: {p}"))
                }
            }
        }
    }
}

/// every inner interleaving of one small matrix
fn exhaustive_inner(r: usize, c: usize, o: Order, rows: bool) {
    let mut script: Vec<(usize, usize)> = vec![]; // (choice, of)
    loop {
        let mut pos = 0;
        let txt = format!("{:?}", script.iter().map(|x| x.0).collect::<Vec<_>>());
        case!("u64 {r}x{c} {o:?}, iter_{}_mut, every interleaving of the inner iterators, choices {txt}", if rows { "rows" } else { "cols" });
        let mut f = |n: usize| {
            if pos == script.len() {
                script.push((0, n));
            }
            pos += 1;
            script[pos - 1].0
        };
        if let Err(p) = catch(|| schedule::<u64>(r, c, o, rows, 0b0110, &mut f)) {
            fail(format!("panics: {p}"))
        }
        script.truncate(pos);
        while let Some((a, n)) = script.pop() {
            if a + 1 < n {
                script.push((a + 1, n));
                break;
            }
        }
        if script.is_empty() {
            break;
        }
    }
}

fn huge_views<T: El>() {
    for n in [usize::MAX, usize::MAX - 1, isize::MAX as usize + 1, isize::MAX as usize, usize::MAX / 16 + 1] {
        for one_row in [true, false] {
            for o in ORDERS {
                for rows in [true, false] {
                    case!("{} {n} zero-sized elements in one {}, {o:?}, iter_{}_mut", T::NAME, if one_row { "row" } else { "column" }, if rows { "rows" } else { "cols" });
                    let e = catch(|| {
                        let mut m = huge::<T>(one_row, o, n);
                        let (nv, len) = if one_row == rows { (1, n) } else { (n, 1) };
                        both!(m, rows, |it| {
                            check_eq!(it.len(), nv, "len of the outer iterator");
                            let mut v = it.next().unwrap_or_else(|| fail("no vector".into()));
                            check_eq!(v.len(), len, "len of the vector");
                            let a = v.next().unwrap_or_else(|| fail("no element".into()));
                            a.put(0);
                            a.val();
                            if len > 2 {
                                let b = v.next_back().unwrap_or_else(|| fail("no element from the back".into()));
                                b.val();
                                check_eq!(v.len(), len - 2, "len after next and next_back");
                            }
                            if nv > 2 {
                                check!(it.next_back().is_some(), "no vector from the back");
                                check_eq!(it.len(), nv - 2, "len after next and next_back");
                            }
                        });
                    });
                    if let Err(p) = e {
                        fail(format!("panics: {p}"))
                    }
                }
            }
        }
    }
}

fn big<T: El>(rng: &mut Rng) {
    for (r, c) in BIG {
        for o in ORDERS {
            for rows in [true, false] {
                case!("{} {r}x{c} {o:?}, iter_{}_mut, random ends", T::NAME, if rows { "rows" } else { "cols" });
                let (mut m, d) = mseq::<T>(r, c, o);
                let e = catch(|| {
                    let (nv, len) = if rows { (r, c) } else { (c, r) };
                    both!(m, rows, |it| {
                        let (mut lo, mut hi) = (0, nv);
                        while lo < hi {
                            check_eq!(it.len(), hi - lo, "outer len");
                            let back = rng.below(2) == 1;
                            let k = if back { hi -= 1; hi } else { lo += 1; lo - 1 };
                            let mut v = (if back { it.next_back() } else { it.next() }).unwrap_or_else(|| fail("the outer iterator ends early".into()));
                            let (mut a, mut b) = (0, len);
                            while a < b {
                                check_eq!(v.len(), b - a, "inner len");
                                let back = rng.below(2) == 1;
                                let j = if back { b -= 1; b } else { a += 1; a - 1 };
                                let e = (if back { v.next_back() } else { v.next() }).unwrap_or_else(|| fail("a vector ends early".into()));
                                let (i, j) = if rows { (k, j) } else { (j, k) };
                                check_eq!(e.val(), d.rows[i][j], "element for ({i}, {j})");
                                e.put(T::lim(d.rows[i][j] + 5));
                            }
                            check!(v.next().is_none() && v.next_back().is_none(), "a vector is too long");
                        }
                        check!(it.next().is_none() && it.next_back().is_none(), "the outer iterator is too long");
                    });
                    check_eq!(observe(&m), d.map(|v| T::lim(v + 5)), "matrix after adding 5 everywhere");
                });
                if let Err(p) = e {
                    fail(format!("panics: {p}"))
                }
            }
        }
    }
}

pub fn run(cfg: &Cfg) {
    let mut rng = Rng(cfg.seed ^ 0xC03);
    let max = if cfg.deep { 6 } else { 4 };
    sweep::<u64>(cfg, max + 1, &mut rng);
    sweep::<u8>(cfg, max, &mut rng);
    sweep::<Tok>(cfg, max, &mut rng);
    sweep::<[u16; 3]>(cfg, max, &mut rng);
    sweep::<ZA>(cfg, max, &mut rng);
    sweep::<Z>(cfg, max, &mut rng);
    sweep::<Z1>(cfg, max, &mut rng);
    for o in ORDERS {
        for rows in [true, false] {
            for (r, c) in [(1, 1), (1, 2), (2, 1), (2, 2), (1, 5), (5, 1)] {
                if (if rows { r } else { c }) <= 2 {
                    exhaustive_inner(r, c, o, rows);
                }
            }
            if cfg.deep {
                exhaustive_inner(if rows { 2 } else { 3 }, if rows { 3 } else { 2 }, o, rows);
            }
        }
    }
    big::<u64>(&mut rng);
    big::<u8>(&mut rng);
    big::<ZA>(&mut rng);
    big::<[u16; 3]>(&mut rng);
    huge_views::<Z1>();
    huge_views::<ZA>();
}

/// small enough for an interpreter that watches every pointer
pub fn run_small() {
    let mut rng = Rng(3);
    for (r, c) in [(0, 0), (0, 2), (2, 0), (1, 1), (1, 3), (3, 1), (2, 3), (3, 2)] {
        for o in ORDERS {
            for rows in [true, false] {
                for outer in [0, 0b111111, 0b010101] {
                    case!("{r}x{c} {o:?}, iter_{}_mut, outer schedule {outer:b}", if rows { "rows" } else { "cols" });
                    let mut f = |n: usize| rng.below(n);
                    schedule::<u64>(r, c, o, rows, outer, &mut f);
                    schedule::<ZA>(r, c, o, rows, outer, &mut f);
                    if r * c < 4 {
                        schedule::<[u16; 3]>(r, c, o, rows, outer, &mut f);
                        schedule::<String>(r, c, o, rows, outer, &mut f);
                    }
                }
            }
        }
    }
    huge_views::<ZA>();
}

// ------------------------------------------------------------ C06

fn drain<'a, T: El>(mut it: impl ExactSizeDoubleEndedIterator<Item = &'a T>, want: &[u64], what: &str, pat: u64) {
    let (mut lo, mut hi) = (0, want.len());
    let mut t = 0;
    loop {
        check_eq!(it.len(), hi - lo, "{what}: len");
        check_eq!(it.size_hint(), (hi - lo, Some(hi - lo)), "{what}: size_hint");
        let back = pat >> (t % 64) & 1 == 1;
        t += 1;
        let x = if back { it.next_back() } else { it.next() };
        if lo == hi {
            check!(x.is_none(), "{what}: an element past the end");
            break;
        }
        let k = if back { hi -= 1; hi } else { lo += 1; lo - 1 };
        match x {
            None => fail(format!("{what}: ends early")),
            Some(e) => check_eq!(e.val(), want[k], "{what}: element {k}"),
        }
    }
}
fn drain_mut<'a, T: El>(mut it: impl ExactSizeDoubleEndedIterator<Item = &'a mut T>, want: &[u64], what: &str, pat: u64) {
    let (mut lo, mut hi) = (0, want.len());
    let mut t = 0;
    loop {
        check_eq!(it.len(), hi - lo, "{what}: len");
        check_eq!(it.size_hint(), (hi - lo, Some(hi - lo)), "{what}: size_hint");
        let back = pat >> (t % 64) & 1 == 1;
        t += 1;
        let x = if back { it.next_back() } else { it.next() };
        if lo == hi {
            check!(x.is_none(), "{what}: an element past the end");
            break;
        }
        let k = if back { hi -= 1; hi } else { lo += 1; lo - 1 };
        match x {
            None => fail(format!("{what}: ends early")),
            Some(e) => check_eq!(e.val(), want[k], "{what}: element {k}"),
        }
    }
}

const PATS: [u64; 4] = [0, u64::MAX, 0xAAAA_AAAA_AAAA_AAAA, 0x9D3C_51E7_0B26_F48A];

fn views<T: El>(r: usize, c: usize, o: Order) {
    let d = Mdl::seq(r, c, o, 1).lim::<T>();
    let mut m: Matrix<T> = build(&d);
    let row = |k: usize| d.rows[k].clone();
    let col = |k: usize| (0..r).map(|i| d.rows[i][k]).collect::<Vec<u64>>();
    macro_rules! outer {
        ($it:expr, $n:expr, $line:expr, $drain:ident, $what:expr) => {
            for pat in PATS {
                let mut it = $it;
                let (mut lo, mut hi) = (0, $n);
                let mut t = 0;
                loop {
                    check_eq!(it.len(), hi - lo, "{}: len", $what);
                    check_eq!(it.size_hint(), (hi - lo, Some(hi - lo)), "{}: size_hint", $what);
                    let back = pat >> (t % 64) & 1 == 1;
                    t += 1;
                    let x = if back { it.next_back() } else { it.next() };
                    if lo == hi {
                        check!(x.is_none(), "{}: a view past the end", $what);
                        break;
                    }
                    let k = if back { hi -= 1; hi } else { lo += 1; lo - 1 };
                    match x {
                        None => fail(format!("{}: ends early after {} views", $what, k)),
                        Some(v) => $drain(v, &$line(k), &format!("{} view {k}", $what), pat.rotate_left(k as u32)),
                    }
                }
            }
        };
    }
    outer!(m.iter_rows(), r, row, drain, "iter_rows");
    outer!(m.iter_cols(), c, col, drain, "iter_cols");
    outer!(m.iter_rows_mut(), r, row, drain_mut, "iter_rows_mut");
    outer!(m.iter_cols_mut(), c, col, drain_mut, "iter_cols_mut");
    let probe = |n: usize| -> Vec<usize> {
        let mut v: Vec<usize> = (0..n.min(40) + 2).collect();
        v.extend([n.wrapping_sub(1), n, n + 1, r, c, r * c, usize::MAX, usize::MAX / 2 + 1, (usize::MAX - n).wrapping_add(1), 1 << 32, 1 << 63]);
        v
    };
    for pat in PATS {
        for k in probe(r) {
            match m.iter_nth_row(k) {
                Ok(it) => {
                    check!(k < r, "iter_nth_row({k}) succeeds");
                    drain(it, &row(k), &format!("iter_nth_row({k})"), pat)
                }
                Err(e) => check!(k >= r && e == matreex::Error::IndexOutOfBounds, "iter_nth_row({k}) gives {e:?}"),
            }
            match m.iter_nth_row_mut(k) {
                Ok(it) => {
                    check!(k < r, "iter_nth_row_mut({k}) succeeds");
                    drain_mut(it, &row(k), &format!("iter_nth_row_mut({k})"), pat)
                }
                Err(e) => check!(k >= r && e == matreex::Error::IndexOutOfBounds, "iter_nth_row_mut({k}) gives {e:?}"),
            }
        }
        for k in probe(c) {
            match m.iter_nth_col(k) {
                Ok(it) => {
                    check!(k < c, "iter_nth_col({k}) succeeds");
                    drain(it, &col(k), &format!("iter_nth_col({k})"), pat)
                }
                Err(e) => check!(k >= c && e == matreex::Error::IndexOutOfBounds, "iter_nth_col({k}) gives {e:?}"),
            }
            match m.iter_nth_col_mut(k) {
                Ok(it) => {
                    check!(k < c, "iter_nth_col_mut({k}) succeeds");
                    drain_mut(it, &col(k), &format!("iter_nth_col_mut({k})"), pat)
                }
                Err(e) => check!(k >= c && e == matreex::Error::IndexOutOfBounds, "iter_nth_col_mut({k}) gives {e:?}"),
            }
        }
    }
    // jumping adaptors
    for k in 0..r.min(6) + 2 {
        check_eq!(m.iter_rows().nth(k).map(|v| v.map(|e| e.val()).collect::<Vec<_>>()), (k < r).then(|| row(k)), "iter_rows().nth({k})");
        check_eq!(m.iter_rows().nth_back(k).map(|v| v.map(|e| e.val()).collect::<Vec<_>>()), (k < r).then(|| row(r - 1 - k)), "iter_rows().nth_back({k})");
    }
    for k in 0..c.min(6) + 2 {
        check_eq!(m.iter_cols().nth(k).map(|v| v.map(|e| e.val()).collect::<Vec<_>>()), (k < c).then(|| col(k)), "iter_cols().nth({k})");
        check_eq!(m.iter_cols().nth_back(k).map(|v| v.rev().map(|e| e.val()).collect::<Vec<_>>()), (k < c).then(|| col(c - 1 - k).into_iter().rev().collect::<Vec<_>>()), "iter_cols().nth_back({k})");
    }
    if r > 0 {
        for j in 0..c.min(6) + 2 {
            check_eq!(m.iter_rows().next().unwrap().nth(j).map(|e| e.val()), row(0).get(j).copied(), "element nth({j}) of row 0");
            check_eq!(m.iter_nth_row(r - 1).unwrap().nth_back(j).map(|e| e.val()), row(r - 1).iter().rev().nth(j).copied(), "element nth_back({j}) of the last row");
        }
    }
    if c > 0 {
        for j in 0..r.min(6) + 2 {
            check_eq!(m.iter_cols().next().unwrap().nth(j).map(|e| e.val()), col(0).get(j).copied(), "element nth({j}) of column 0");
            check_eq!(m.iter_nth_col(c - 1).unwrap().nth_back(j).map(|e| e.val()), col(c - 1).iter().rev().nth(j).copied(), "element nth_back({j}) of the last column");
        }
    }
    check_eq!(observe(&m), d, "matrix after viewing");
}

pub fn run_views(cfg: &Cfg) {
    fn all<T: El>(s: &[(usize, usize)]) {
        for &(r, c) in s {
            for o in ORDERS {
                case!("{} {r}x{c} {o:?}, all views", T::NAME);
                if let Err(p) = catch(|| views::<T>(r, c, o)) {
                    fail(format!("panics: {p}"))
                }
            }
        }
    }
    let m = if cfg.deep { 9 } else { 6 };
    all::<u64>(&shapes(m));
    all::<Tok>(&small(4));
    all::<u8>(&small(5));
    all::<Z>(&small(4));
    all::<ZA>(&small(4));
    all::<[u16; 3]>(&small(4));
    // empty matrices with one huge dimension, and huge zero-sized ones
    for o in ORDERS {
        for n in [usize::MAX, 1 << 40, isize::MAX as usize] {
            for (r, c) in [(n, 0), (0, n)] {
                case!("empty matrix {r}x{c} {o:?}");
                let e = catch(|| {
                    let mut m = build::<u64>(&Mdl::new(0, 0, o, |_, _| 0));
                    if m.reshape((r, c)).is_err() {
                        return;
                    }
                    check_eq!(m.iter_rows().len(), r, "iter_rows().len()");
                    check_eq!(m.iter_cols().len(), c, "iter_cols().len()");
                    check_eq!(m.iter_rows_mut().len(), r, "iter_rows_mut().len()");
                    check_eq!(m.iter_cols_mut().len(), c, "iter_cols_mut().len()");
                    for back in [false, true] {
                        macro_rules! first { ($it:expr, $n:expr, $w:expr) => { { let mut it = $it; let v = if back { it.next_back() } else { it.next() }; check!(v.is_some() == ($n > 0), "{}: first view", $w); if let Some(mut v) = v { check!(v.len() == 0 && v.next().is_none() && v.next_back().is_none(), "{}: a view of an empty matrix has elements", $w); check_eq!(it.len(), $n - 1, "{}: len after one", $w); } } } }
                        first!(m.iter_rows(), r, "iter_rows");
                        first!(m.iter_cols(), c, "iter_cols");
                        first!(m.iter_rows_mut(), r, "iter_rows_mut");
                        first!(m.iter_cols_mut(), c, "iter_cols_mut");
                    }
                    for k in [0, n - 1, n / 2] {
                        check_eq!(m.iter_nth_row(k).map(|i| i.len()).ok(), (k < r).then_some(0), "iter_nth_row({k})");
                        check_eq!(m.iter_nth_col(k).map(|i| i.len()).ok(), (k < c).then_some(0), "iter_nth_col({k})");
                        check_eq!(m.iter_nth_row_mut(k).map(|i| i.len()).ok(), (k < r).then_some(0), "iter_nth_row_mut({k})");
                        check_eq!(m.iter_nth_col_mut(k).map(|i| i.len()).ok(), (k < c).then_some(0), "iter_nth_col_mut({k})");
                    }
                });
                if let Err(p) = e {
                    fail(format!("panics: {p}"))
                }
            }
            for rows in [true, false] {
                case!("{n} zero-sized elements, one {}, {o:?}", if rows { "row" } else { "column" });
                let e = catch(|| {
                    let mut m = huge::<Z1>(rows, o, n);
                    let (r, c) = if rows { (1, n) } else { (n, 1) };
                    check_eq!((m.iter_rows().len(), m.iter_cols().len()), (r, c), "lens");
                    check_eq!(m.iter_rows_mut().len(), r, "iter_rows_mut().len()");
                    check_eq!(m.iter_cols_mut().len(), c, "iter_cols_mut().len()");
                    check_eq!(m.iter_rows().next().map(|v| v.len()), Some(c), "first row");
                    check_eq!(m.iter_rows().next_back().map(|v| v.len()), Some(c), "last row");
                    check_eq!(m.iter_cols().next().map(|v| v.len()), Some(r), "first column");
                    check_eq!(m.iter_cols().next_back().map(|v| v.len()), Some(r), "last column");
                    for k in [0, n - 1, n / 2] {
                        check_eq!(m.iter_nth_row(k).map(|i| i.len()).ok(), (k < r).then_some(c), "iter_nth_row({k})");
                        check_eq!(m.iter_nth_col(k).map(|i| i.len()).ok(), (k < c).then_some(r), "iter_nth_col({k})");
                        check_eq!(m.iter_nth_row_mut(k).map(|i| i.len()).ok(), (k < r).then_some(c), "iter_nth_row_mut({k})");
                        check_eq!(m.iter_nth_col_mut(k).map(|i| i.len()).ok(), (k < c).then_some(r), "iter_nth_col_mut({k})");
                    }
                });
                if let Err(p) = e {
                    fail(format!("panics: {p}"))
                }
            }
        }
    }
}

// ------------------------------------------------------------ C15

fn elements<T: El + Send + Sync>(r: usize, c: usize, o: Order) {
    let d = Mdl::seq(r, c, o, 1).lim::<T>();
    let mem = d.mem();
    let n = mem.len();
    let ix = |i: usize| if o == Order::RowMajor { (i / c.max(1), i % c.max(1)) } else { (i % r.max(1), i / r.max(1)) };
    let mut m: Matrix<T> = build(&d);
    for pat in PATS {
        drain(m.iter_elements(), &mem, "iter_elements", pat);
        drain_mut(m.iter_elements_mut(), &mem, "iter_elements_mut", pat);
        macro_rules! pairs {
            ($it:expr, $what:expr) => {{
                let mut it = $it;
                let (mut lo, mut hi) = (0, n);
                let mut t = 0;
                loop {
                    check_eq!(it.len(), hi - lo, "{}: len", $what);
                    let back = pat >> (t % 64) & 1 == 1;
                    t += 1;
                    let x = if back { it.next_back() } else { it.next() };
                    if lo == hi {
                        check!(x.is_none(), "{}: past the end", $what);
                        break;
                    }
                    let k = if back { hi -= 1; hi } else { lo += 1; lo - 1 };
                    match x {
                        None => fail(format!("{}: ends early", $what)),
                        Some((i, e)) => {
                            let i: Index = i;
                            check_eq!((idx(i), e.val()), (ix(k), mem[k]), "{}: item {k}", $what);
                        }
                    }
                }
            }};
        }
        pairs!(m.iter_elements_with_index(), "iter_elements_with_index");
        pairs!(m.iter_elements_mut_with_index(), "iter_elements_mut_with_index");
        let l = Ledger::open();
        pairs!(build::<T>(&d).into_iter_elements_with_index(), "into_iter_elements_with_index");
        l.settle();
        // the plain consuming iterator
        let mut it = build::<T>(&d).into_iter_elements();
        let (mut lo, mut hi) = (0, n);
        let mut t = 0;
        while lo < hi {
            check_eq!(it.len(), hi - lo, "into_iter_elements: len");
            let back = pat >> (t % 64) & 1 == 1;
            t += 1;
            let x = if back { it.next_back() } else { it.next() };
            let k = if back { hi -= 1; hi } else { lo += 1; lo - 1 };
            check_eq!(x.map(|e| e.val()), Some(mem[k]), "into_iter_elements: item {k}");
        }
        check!(it.next().is_none() && it.next_back().is_none(), "into_iter_elements: past the end");
        drop(it);
        l.settle();
        check_eq!(l.clones(), 0, "clones made by the consuming iterators");
        // half consumed
        let mut it = build::<T>(&d).into_iter_elements_with_index();
        for _ in 0..n / 2 {
            it.next_back();
        }
        drop(it);
        l.settle();
    }
    // the reported index is where `get` finds that very element
    let at: Vec<usize> = m.iter_elements().map(|e| e as *const T as usize).collect();
    for (k, (i, e)) in m.iter_elements_with_index().enumerate() {
        check!(std::ptr::eq(m.get(i).unwrap_or_else(|x| fail(format!("get({i:?}) gives {x:?}"))), e), "get({i:?}) is not the element paired with that index");
        check!(T::ZST || e as *const T as usize == at[k], "iter_elements_with_index visits other elements");
    }
    for k in 0..n.min(5) + 2 {
        check_eq!(m.iter_elements_with_index().nth(k).map(|(i, e)| (idx(i), e.val())), mem.get(k).map(|v| (ix(k), *v)), "iter_elements_with_index().nth({k})");
        check_eq!(m.iter_elements_with_index().nth_back(k).map(|(i, e)| (idx(i), e.val())), (k < n).then(|| (ix(n - 1 - k), mem[n - 1 - k])), "iter_elements_with_index().nth_back({k})");
        check_eq!(m.iter_elements().nth_back(k).map(|e| e.val()), (k < n).then(|| mem[n - 1 - k]), "iter_elements().nth_back({k})");
        check_eq!(m.iter_elements_mut().nth(k).map(|e| e.val()), mem.get(k).copied(), "iter_elements_mut().nth({k})");
    }
    #[cfg(feature = "parallel")]
    {
        use rayon::prelude::*;
        let want: Vec<((usize, usize), u64)> = { let mut v: Vec<_> = (0..n).map(|k| (ix(k), mem[k])).collect(); v.sort(); v };
        let mut a: Vec<_> = m.par_iter_elements_with_index().map(|(i, e)| (idx(i), e.val())).collect();
        a.sort();
        check_eq!(a, want, "par_iter_elements_with_index");
        let mut a: Vec<_> = m.par_iter_elements_mut_with_index().map(|(i, e)| (idx(i), e.val())).collect();
        a.sort();
        check_eq!(a, want, "par_iter_elements_mut_with_index");
        let l = Ledger::open();
        let mut a: Vec<_> = build::<T>(&d).into_par_iter_elements_with_index().map(|(i, e)| (idx(i), e.val())).collect();
        a.sort();
        check_eq!(a, want, "into_par_iter_elements_with_index");
        l.settle();
        let same = m.par_iter_elements_with_index().all(|(i, e)| m.get(i).is_ok_and(|x| std::ptr::eq(x, e)));
        check!(same, "par_iter_elements_with_index pairs an element with another index");
    }
    check_eq!(observe(&m), d, "matrix after iterating");
}

pub fn run_elements(cfg: &Cfg) {
    fn all<T: El + Send + Sync>(s: &[(usize, usize)]) {
        for &(r, c) in s {
            for o in ORDERS {
                case!("{} {r}x{c} {o:?}, element iterators", T::NAME);
                if let Err(p) = catch(|| elements::<T>(r, c, o)) {
                    fail(format!("panics: {p}"))
                }
            }
        }
    }
    let m = if cfg.deep { 9 } else { 6 };
    all::<u64>(&shapes(m));
    all::<Tok>(&small(5));
    all::<Tok>(&[(16, 33), (33, 16)]);
    all::<u8>(&small(5));
    all::<Z>(&small(4));
    all::<ZA>(&small(4));
    all::<[u16; 3]>(&small(4));
    // indices of a huge zero-sized matrix
    for o in ORDERS {
        for rows in [true, false] {
            let n = usize::MAX;
            case!("{n} zero-sized elements, one {}, {o:?}", if rows { "row" } else { "column" });
            let e = catch(|| {
                let mut m = huge::<Z1>(rows, o, n);
                let last = if rows { (0, n - 1) } else { (n - 1, 0) };
                check_eq!(m.iter_elements_with_index().next().map(|x| idx(x.0)), Some((0, 0)), "first index");
                check_eq!(m.iter_elements_with_index().next_back().map(|x| idx(x.0)), Some(last), "last index");
                check_eq!(m.iter_elements_mut_with_index().next_back().map(|x| idx(x.0)), Some(last), "last index (mut)");
                check_eq!((m.iter_elements().len(), m.iter_elements_with_index().len()), (n, n), "lens");
                check_eq!(m.iter_elements_mut().len(), n, "iter_elements_mut().len()");
                let mut it = m.into_iter_elements_with_index();
                check_eq!((it.next_back().map(|x| idx(x.0)), it.len()), (Some(last), n - 1), "last index (consuming)");
                std::mem::forget(it);
            });
            if let Err(p) = e {
                fail(format!("panics: {p}"))
            }
        }
    }
}
