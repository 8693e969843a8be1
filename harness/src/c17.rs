//! C17: rows and columns of one iterator mutated on different threads.
use crate::c03::both;
use crate::util::*;
use matreex::Order;
use std::sync::Barrier;
use std::sync::Mutex;

fn race<T: El + Send>(r: usize, c: usize, o: Order, rows: bool, threads: usize, move_inner: bool) {
    case!("{} {r}x{c} {o:?}, iter_{}_mut spread over {threads} threads{}", T::NAME, if rows { "rows" } else { "cols" }, if move_inner { ", vectors handed over" } else { "" });
    let (mut m, d) = mseq::<T>(r, c, o);
    let addrs: Mutex<Vec<(usize, usize)>> = Mutex::new(vec![]);
    let f = |v: u64, k: usize, j: usize| T::lim(v * 3 + (k * 31 + j * 7) as u64);
    both!(m, rows, |it| {
        let bar = Barrier::new(threads);
        if move_inner {
            let mut piles: Vec<Vec<_>> = (0..threads).map(|_| vec![]).collect();
            for (k, v) in it.enumerate() {
                piles[k % threads].push((k, v));
            }
            std::thread::scope(|s| {
                for (t, pile) in piles.into_iter().enumerate() {
                    let (bar, addrs, f) = (&bar, &addrs, &f);
                    s.spawn(move || {
                        bar.wait();
                        for (k, v) in pile {
                            for (j, e) in v.enumerate() {
                                addrs.lock().unwrap().push((e as *const T as usize, t));
                                e.put(f(e.val(), k, j));
                            }
                        }
                    });
                }
            });
        } else {
            // the outer iterator itself is shared behind a lock and used from every thread
            let shared = Mutex::new((it, 0usize));
            std::thread::scope(|s| {
                for t in 0..threads {
                    let (shared, bar, addrs, f) = (&shared, &bar, &addrs, &f);
                    s.spawn(move || {
                        bar.wait();
                        loop {
                            let mut g = shared.lock().unwrap();
                            let k = g.1;
                            let Some(v) = g.0.next() else { break };
                            g.1 += 1;
                            drop(g);
                            for (j, e) in v.enumerate() {
                                addrs.lock().unwrap().push((e as *const T as usize, t));
                                e.put(f(e.val(), k, j));
                            }
                            std::thread::yield_now();
                        }
                    });
                }
            });
        }
    });
    let mut a = addrs.into_inner().unwrap();
    check_eq!(a.len(), r * c, "elements reached");
    if !T::ZST {
        a.sort();
        for w in a.windows(2) {
            check!(w[0].0 != w[1].0, "one element is reached from threads {} and {}", w[0].1, w[1].1);
        }
    }
    let want = crate::util::Mdl::new(r, c, o, |i, j| if rows { f(d.rows[i][j], i, j) } else { f(d.rows[i][j], j, i) });
    check_eq!(observe(&m), want, "final matrix against the sequential result");
}

pub fn run(cfg: &Cfg) {
    for (r, c) in small(if cfg.deep { 6 } else { 4 }).into_iter().chain([(16, 33), (33, 16), (64, 64), (7, 101)]) {
        for o in ORDERS {
            for rows in [true, false] {
                for threads in [2, 4] {
                    for mv in [true, false] {
                        race::<u64>(r, c, o, rows, threads, mv);
                        if r * c < 20 {
                            race::<Tok>(r, c, o, rows, threads, mv);
                            race::<u8>(r, c, o, rows, threads, mv);
                            race::<ZA>(r, c, o, rows, threads, mv);
                        }
                    }
                }
            }
        }
    }
}
pub fn run_small() {
    for (r, c) in [(2, 2), (1, 3), (3, 2)] {
        for o in ORDERS {
            for rows in [true, false] {
                race::<u64>(r, c, o, rows, 2, true);
                race::<u64>(r, c, o, rows, 2, false);
            }
        }
    }
}
