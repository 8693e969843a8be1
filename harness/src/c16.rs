//! C16: the parallel helpers against their sequential counterparts; C17:
//! rows and columns mutated on different threads.
use crate::util::*;
use matreex::{Error, Index, Matrix, Order};
use rayon::prelude::*;
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};

fn one<T: El + Send + Sync>(r: usize, c: usize, o: Order, jitter: bool) {
    let d = Mdl::seq(r, c, o, 1).lim::<T>();
    let n = r * c;
    let counted = T::NAME == "Tok";
    let l = Ledger::open();
    let calls: Vec<AtomicU32> = (0..=n).map(|_| AtomicU32::new(0)).collect();
    let total = AtomicU32::new(0);
    let hit = |v: u64| {
        total.fetch_add(1, SeqCst);
        if let Some(k) = calls.get(v as usize) {
            k.fetch_add(1, SeqCst);
        }
        if jitter && v % 5 == 0 {
            std::thread::yield_now();
        }
    };
    let once = |w: &str| {
        check_eq!(total.swap(0, SeqCst), n as u32, "{w}: closure calls");
        for k in calls.iter() {
            let k = k.swap(0, SeqCst);
            check!(T::ZST || T::NAME == "u8" || k <= 1, "{w}: an element is visited {k} times");
        }
    };
    let m: Matrix<T> = build(&d);
    let mut a: Matrix<T> = build(&d);
    a.par_apply(|e| { hit(e.val()); e.put(T::lim(e.val() * 3 + 1)) });
    once("par_apply");
    check_eq!(observe(&a), d.map(|v| T::lim(v * 3 + 1)), "par_apply");
    let mut s: Matrix<T> = build(&d);
    s.apply(|e| e.put(T::lim(e.val() * 3 + 1)));
    check!(s == a && s.order() == a.order(), "par_apply differs from apply");
    let b: Matrix<T> = build(&d);
    let b = match b.par_map(|e| { hit(e.val()); T::mk(e.val() * 2) }) {
        Ok(b) => b,
        Err(e) => fail(format!("par_map gives {e:?}")),
    };
    once("par_map");
    check_eq!(observe(&b), d.map(|v| T::lim(v * 2)), "par_map");
    let k = match m.par_map_ref(|e| { hit(e.val()); e as *const T as usize }) {
        Ok(b) => b,
        Err(e) => fail(format!("par_map_ref gives {e:?}")),
    };
    once("par_map_ref");
    let q = m.map_ref(|e| e as *const T as usize).unwrap();
    check!(k == q && k.order() == q.order() && (k.nrows(), k.ncols()) == (r, c), "par_map_ref differs from map_ref");
    // the iterators, as multisets
    let sort = |mut v: Vec<((usize, usize), u64)>| {
        v.sort();
        v
    };
    let ix = |x: (Index, u64)| (idx(x.0), x.1);
    let want = sort((0..r).flat_map(|i| (0..c).map(move |j| (i, j))).map(|(i, j)| ((i, j), d.rows[i][j])).collect());
    let flat = { let mut v = d.mem(); v.sort(); v };
    let fs = |mut v: Vec<u64>| { v.sort(); v };
    check_eq!(fs(m.par_iter_elements().map(|e| { hit(e.val()); e.val() }).collect()), flat, "par_iter_elements");
    once("par_iter_elements");
    check_eq!(sort(m.par_iter_elements_with_index().map(|(i, e)| ix((i, e.val()))).collect()), want, "par_iter_elements_with_index");
    check_eq!(sort(m.iter_elements_with_index().map(|(i, e)| ix((i, e.val()))).collect()), want, "iter_elements_with_index");
    let mut z: Matrix<T> = build(&d);
    check_eq!(fs(z.par_iter_elements_mut().map(|e| e.val()).collect()), flat, "par_iter_elements_mut");
    check_eq!(sort(z.par_iter_elements_mut_with_index().map(|(i, e)| ix((i, e.val()))).collect()), want, "par_iter_elements_mut_with_index");
    z.par_iter_elements_mut_with_index().for_each(|(i, e)| e.put(T::lim((i.row * 100 + i.col) as u64)));
    check_eq!(observe(&z), Mdl::new(r, c, o, |i, j| T::lim((i * 100 + j) as u64)), "writes through par_iter_elements_mut_with_index");
    check_eq!(fs(build::<T>(&d).into_par_iter_elements().map(|e| e.val()).collect()), flat, "into_par_iter_elements");
    check_eq!(sort(build::<T>(&d).into_par_iter_elements_with_index().map(|(i, e)| ix((i, e.val()))).collect()), want, "into_par_iter_elements_with_index");
    // stopping early
    let _ = build::<T>(&d).into_par_iter_elements_with_index().find_any(|(_, e)| e.val() > 2);
    check_eq!(m.par_iter_elements().count(), n, "par_iter_elements().count()");
    check_eq!(observe(&m), d, "the borrowed matrix afterwards");
    if counted {
        check_eq!(l.clones(), 0, "clones");
    }
    drop((m, a, s, b, z));
    if counted {
        l.settle();
    }
}

pub fn run(cfg: &Cfg) {
    let pools: &[usize] = if cfg.deep { &[1, 2, 3, 4, 5, 7, 8, 16, 32] } else { &[1, 2, 3, 8] };
    for &p in pools {
        let pool = rayon::ThreadPoolBuilder::new().num_threads(p).build().unwrap();
        let reps = if cfg.deep { 5 } else { 1 };
        for rep in 0..reps {
            macro_rules! go {
                ($t:ty, $s:expr) => {
                    for &(r, c) in $s.iter() {
                        for o in ORDERS {
                            case!("{} {r}x{c} {o:?}, {p} threads, repetition {rep}", <$t as El>::NAME);
                            if let Err(e) = catch(|| pool.install(|| one::<$t>(r, c, o, rep % 2 == 1))) {
                                fail(format!("panics: {e}"))
                            }
                        }
                    }
                };
            }
            go!(u64, shapes(4));
            go!(Tok, small(3));
            go!(Tok, [(16, 33), (64, 64)]);
            go!(ZA, small(3));
            go!([u16; 3], small(3));
            go!(u64, [(1000, 37), (37, 1000), (1, 20011), (20011, 1)]);
        }
    }
    // too large results: the same error as the sequential form, at once
    for n in [usize::MAX, isize::MAX as usize + 1] {
        for rows in [true, false] {
            for o in ORDERS {
                case!("{n} zero-sized elements into u8, {o:?}");
                let e = catch(|| {
                    let m = huge::<Z1>(rows, o, n);
                    let bad = Err(Error::CapacityOverflow);
                    check_eq!(m.map_ref(|_| 1u8).map(|_| ()), bad, "map_ref");
                    check_eq!(m.par_map_ref(|_| 1u8).map(|_| ()), bad, "par_map_ref");
                    check_eq!(m.par_map(|_| 1u8).map(|_| ()), bad, "par_map");
                });
                if let Err(p) = e {
                    fail(format!("panics: {p}"))
                }
            }
        }
    }
}
