//! C02: every operation that runs caller code, with the caller's panic at every point of it.
use crate::util::*;
use matreex::index::AsIndex;
use matreex::{Matrix, Order, Shape, WrappingIndex};
use std::ops::*;

macro_rules! ops {
    ($($tr:ident $f:ident $tra:ident $fa:ident $op:tt),*) => { $(
        impl $tr for Tok { type Output = Tok; fn $f(self, o: Tok) -> Tok { tick(); Tok::new(bin(stringify!($op), self.get(), o.get())) } }
        impl $tra for Tok { fn $fa(&mut self, o: Tok) { tick(); let v = bin(stringify!($op), self.get(), o.get()); self.set(v) } }
    )* }
}
pub fn bin(op: &str, a: u64, b: u64) -> u64 {
    match op {
        "+" => a.wrapping_add(b),
        "-" => a.wrapping_sub(b),
        "*" => a.wrapping_mul(b),
        "/" => a / b.max(1),
        _ => a % b.max(1),
    }
}
ops!(Add add AddAssign add_assign +, Sub sub SubAssign sub_assign -, Mul mul MulAssign mul_assign *, Div div DivAssign div_assign /, Rem rem RemAssign rem_assign %);
impl Neg for Tok {
    type Output = Tok;
    fn neg(self) -> Tok {
        tick();
        Tok::new(self.get().wrapping_neg())
    }
}
impl<'a> Neg for &'a Tok {
    type Output = Tok;
    fn neg(self) -> Tok {
        tick();
        Tok::new(self.get().wrapping_neg())
    }
}

struct UserShape(usize, usize);
impl From<UserShape> for Shape {
    fn from(s: UserShape) -> Shape {
        tick();
        Shape::new(s.0, s.1)
    }
}
struct UserIdx(usize, usize);
impl AsIndex for UserIdx {
    fn row(&self) -> usize {
        tick();
        self.0
    }
    fn col(&self) -> usize {
        tick();
        self.1
    }
}

type M = Matrix<Tok>;
type Scn = (&'static str, fn(&mut Option<M>, &mut Option<M>));

fn t(v: u64) -> Tok {
    tick();
    Tok::new(v)
}

macro_rules! scn { ($v:ident, $( $name:expr => |$a:ident, $b:ident| $e:expr; )*) => { $( { fn f($a: &mut Option<M>, $b: &mut Option<M>) { let _ = &$b; $e; } $v.push(($name, f)); } )* } }

fn scenarios() -> Vec<Scn> {
    let mut v: Vec<Scn> = vec![];
    scn! { v,
        "resize grow" => |a, b| { let (r, c) = { let m = a.as_ref().unwrap(); (m.nrows(), m.ncols()) }; let _ = a.as_mut().unwrap().resize(UserShape(r + 2, c + 1)); };
        "resize grow small" => |a, b| { let m = a.as_mut().unwrap(); let (r, c) = (m.nrows(), m.ncols()); let _ = m.resize((r + 1, c.max(1))); };
        "resize shrink" => |a, b| { let _ = a.as_mut().unwrap().resize(UserShape(1, 2)); };
        "resize to nothing" => |a, b| { let _ = a.as_mut().unwrap().resize((0, 3)); };
        "resize reshapes" => |a, b| { let m = a.as_mut().unwrap(); let (r, c) = (m.nrows(), m.ncols()); let _ = m.resize(UserShape(c, r)); };
        "reshape" => |a, b| { let m = a.as_mut().unwrap(); let (r, c) = (m.nrows(), m.ncols()); let _ = m.reshape(UserShape(c, r)); };
        "clear" => |a, b| { a.as_mut().unwrap().clear(); };
        "overwrite" => |a, b| { a.as_mut().unwrap().overwrite(b.as_ref().unwrap()); };
        "overwrite back" => |a, b| { b.as_mut().unwrap().overwrite(a.as_ref().unwrap()); };
        "drop" => |a, b| { drop(a.take()); };
        "clone" => |a, b| { *b = Some(a.as_ref().unwrap().clone()); };
        "clone_from" => |a, b| { b.as_mut().unwrap().clone_from(a.as_ref().unwrap()); };
        "assign" => |a, b| { *a = b.take(); };
        "eq" => |a, b| { let _ = a == b; };
        "eq self" => |a, b| { let _ = a == a; };
        "contains" => |a, b| { let k = Tok::new(9999); let _ = a.as_ref().unwrap().contains(&k); };
        "apply" => |a, b| { a.as_mut().unwrap().apply(|e| { tick(); let v = e.get() + 1; *e = t(v) }); };
        "map" => |a, b| { let m = a.take().unwrap(); *a = Some(m.map(|e| t(e.get())).unwrap()); };
        "map dropping" => |a, b| { let m = a.take().unwrap(); let _ = m.map(|e| { let v = e.get(); drop(e); tick(); v as u8 }).unwrap(); };
        "map_ref" => |a, b| { *b = Some(a.as_ref().unwrap().map_ref(|e| t(e.get())).unwrap()); };
        "with_default" => |a, b| { *b = Some(M::with_default(UserShape(2, 3)).unwrap()); };
        "with_value" => |a, b| { *b = Some(M::with_value(UserShape(3, 2), Tok::new(7)).unwrap()); };
        "with_value nothing" => |a, b| { *b = Some(M::with_value((0, 2), Tok::new(7)).unwrap()); };
        "with_initializer" => |a, b| { *b = Some(M::with_initializer(UserShape(2, 3), |i| t(i.row as u64)).unwrap()); };
        "swap" => |a, b| { let _ = a.as_mut().unwrap().swap(UserIdx(0, 1), UserIdx(1, 0)); };
        "swap out" => |a, b| { let _ = a.as_mut().unwrap().swap(UserIdx(0, 0), UserIdx(9, 0)); };
        "swap wrapping" => |a, b| { let m = a.as_mut().unwrap(); if !m.is_empty() { let _ = m.swap(WrappingIndex::new(-1, 0), UserIdx(0, 0)); } };
        "get" => |a, b| { let _ = a.as_ref().unwrap().get(UserIdx(0, 0)).map(|e| e.get()); };
        "get_mut" => |a, b| { if let Ok(e) = a.as_mut().unwrap().get_mut(UserIdx(0, 0)) { *e = t(3); } };
        "index" => |a, b| { let m = a.as_mut().unwrap(); if !m.is_empty() { m[UserIdx(0, 0)] = t(4); } };
        "elementwise_operation" => |a, b| { let k = a.as_ref().unwrap().elementwise_operation(b.as_ref().unwrap(), |x, y| t(x.get() + y.get())); if let Ok(k) = k { *b = Some(k) } };
        "elementwise_operation_consume_self" => |a, b| { let k = a.take().unwrap().elementwise_operation_consume_self(b.as_ref().unwrap(), |x, y| t(x.get() + y.get())); *a = k.ok(); };
        "elementwise_operation_assign" => |a, b| { let _ = a.as_mut().unwrap().elementwise_operation_assign(b.as_ref().unwrap(), |x, y| { tick(); *x = t(x.get() + y.get()) }); };
        "elementwise_add" => |a, b| { let k = a.as_ref().unwrap().elementwise_add(b.as_ref().unwrap()); if let Ok(k) = k { *a = Some(k) } };
        "elementwise_mul consume" => |a, b| { let k = a.take().unwrap().elementwise_mul_consume_self(b.as_ref().unwrap()); *a = k.ok(); };
        "elementwise_div consume" => |a, b| { let k = a.take().unwrap().elementwise_div_consume_self(b.as_ref().unwrap()); *a = k.ok(); };
        "elementwise_sub_assign" => |a, b| { let _ = a.as_mut().unwrap().elementwise_sub_assign(b.as_ref().unwrap()); };
        "elementwise_add_assign" => |a, b| { let _ = a.as_mut().unwrap().elementwise_add_assign(b.as_ref().unwrap()); };
        "elementwise_rem_assign" => |a, b| { let _ = a.as_mut().unwrap().elementwise_rem_assign(b.as_ref().unwrap()); };
        "elementwise_mul_assign" => |a, b| { let _ = a.as_mut().unwrap().elementwise_mul_assign(b.as_ref().unwrap()); };
        "elementwise_div_assign" => |a, b| { let _ = a.as_mut().unwrap().elementwise_div_assign(b.as_ref().unwrap()); };
        "elementwise_sub" => |a, b| { let k = a.as_ref().unwrap().elementwise_sub(b.as_ref().unwrap()); if let Ok(k) = k { *a = Some(k) } };
        "elementwise_rem" => |a, b| { let k = a.as_ref().unwrap().elementwise_rem(b.as_ref().unwrap()); if let Ok(k) = k { *a = Some(k) } };
        "+" => |a, b| { let k = a.take().unwrap() + b.as_ref().unwrap(); *a = Some(k); };
        "+ refs" => |a, b| { let k = a.as_ref().unwrap() + b.as_ref().unwrap(); *a = Some(k); };
        "- owned" => |a, b| { let k = a.take().unwrap() - b.take().unwrap(); *a = Some(k); };
        "+=" => |a, b| { *a.as_mut().unwrap() += b.as_ref().unwrap(); };
        "-= owned" => |a, b| { *a.as_mut().unwrap() -= b.take().unwrap(); };
        "neg" => |a, b| { let k = -a.take().unwrap(); *a = Some(k); };
        "neg ref" => |a, b| { let k = -a.as_ref().unwrap(); *b = Some(k); };
        "multiply" => |a, b| { let mut y = b.take().unwrap(); y.transpose(); let k = a.take().unwrap().multiply(y); *a = k.ok(); };
        "multiply plain" => |a, b| { let k = a.take().unwrap().multiply(b.take().unwrap()); *a = k.ok(); };
        "* refs" => |a, b| { let mut y = b.take().unwrap(); y.transpose(); let k = a.as_ref().unwrap() * &y; *b = Some(k); };
        "multiplication_like_operation" => |a, b| { let mut y = b.take().unwrap(); y.transpose(); let k = a.take().unwrap().multiplication_like_operation(y, |p, q| t((p.len() * q.len()) as u64)); *a = k.ok(); };
        "scalar_operation" => |a, b| { let k = a.as_ref().unwrap().scalar_operation(&3u64, |x, y| t(x.get() + y)); *b = k.ok(); };
        "scalar_operation_consume_self" => |a, b| { let k = a.take().unwrap().scalar_operation_consume_self(&3u64, |x, y| t(x.get() + y)); *a = k.ok(); };
        "scalar_operation_assign" => |a, b| { a.as_mut().unwrap().scalar_operation_assign(&3u64, |x, y| { tick(); *x = t(x.get() + y) }); };
        "Display" => |a, b| { let _ = format!("{}", a.as_ref().unwrap()); };
        "Debug" => |a, b| { let _ = format!("{:?}", a.as_ref().unwrap()); };
        "from_row" => |a, b| { *b = Some(M::from_row(vec![t(1), t(2)])); };
        "From<&[[T; C]]>" => |a, b| { let s = [[Tok::new(1), Tok::new(2)], [Tok::new(3), Tok::new(4)]]; *b = Some(M::from(&s[..])); };
        "TryFrom<&[Vec]>" => |a, b| { let s = [vec![Tok::new(1), Tok::new(2)], vec![Tok::new(3), Tok::new(4)]]; *b = M::try_from(&s[..]).ok(); };
        "TryFrom<&[Vec]> ragged" => |a, b| { let s = [vec![Tok::new(1), Tok::new(2)], vec![Tok::new(3)]]; *b = M::try_from(&s[..]).ok(); };
        "TryFrom<Vec<Vec>> ragged" => |a, b| { let s = vec![vec![Tok::new(1), Tok::new(2)], vec![Tok::new(3)]]; *b = M::try_from(s).ok(); };
        "FromIterator" => |a, b| { *b = Some((0..3u64).map(|r| (0..2u64).map(move |c| t(r * 2 + c))).collect::<M>()); };
        "FromIterator outer" => |a, b| { *b = Some((0..3u64).map(|r| { tick(); vec![Tok::new(r), Tok::new(r)] }).collect::<M>()); };
        "macros" => |a, b| { *b = Some(matreex::matrix![[Tok::new(1); 2]; 3]); let _ = matreex::matrix![[Tok::new(1), Tok::new(2)]; 3]; let _ = matreex::row_vec![Tok::new(1); 3]; };
        "transpose" => |a, b| { a.as_mut().unwrap().transpose(); };
        "swap rows and columns" => |a, b| { let m = a.as_mut().unwrap(); let _ = m.swap_rows(0, 1); let _ = m.swap_cols(1, 0); };
        "into_iter_elements" => |a, b| { let mut it = a.take().unwrap().into_iter_elements(); let x = it.next(); tick(); drop(it); drop(x); };
        "into_iter_elements_with_index" => |a, b| { for (_, e) in a.take().unwrap().into_iter_elements_with_index() { drop(e); tick(); } };
        "iter_elements_mut" => |a, b| { for e in a.as_mut().unwrap().iter_elements_mut() { *e = t(1) } };
        "iter_rows_mut" => |a, b| { for r in a.as_mut().unwrap().iter_rows_mut() { for e in r.rev() { *e = t(1) } } };
        "iter_cols_mut" => |a, b| { for r in a.as_mut().unwrap().iter_cols_mut().rev() { for e in r { *e = t(1) } } };
        "iter_nth_row_mut" => |a, b| { if let Ok(r) = a.as_mut().unwrap().iter_nth_row_mut(0) { for e in r { *e = t(1) } } };
        "iter_nth_col_mut" => |a, b| { if let Ok(r) = a.as_mut().unwrap().iter_nth_col_mut(0) { for e in r { *e = t(1) } } };
    }
    #[cfg(feature = "parallel")]
    scn! { v,
        "par_apply" => |a, b| { a.as_mut().unwrap().par_apply(|e| { tick(); let v = e.get() + 1; *e = t(v) }); };
        "par_map" => |a, b| { let m = a.take().unwrap(); *a = Some(m.par_map(|e| t(e.get())).unwrap()); };
        "par_map_ref" => |a, b| { *b = Some(a.as_ref().unwrap().par_map_ref(|e| t(e.get())).unwrap()); };
    }
    v
}

fn after(m: &mut M, l: &Ledger) {
    let d = coherent(m);
    // all instances are distinct
    let mut v: Vec<usize> = m.iter_elements().map(|e| e.inst()).collect();
    let n = v.len();
    v.sort();
    v.dedup();
    check!(v.len() == n, "one element sits in two places");
    // ... and it can be used normally
    let ok = catch(|| {
        m.transpose();
        check_eq!(observe(m), d.transposed(), "transpose after the panic");
        m.switch_order();
        m.resize((2, 2)).unwrap();
        check!(coherent(m).rows.len() == 2, "resize after the panic");
        let k = m.clone();
        check!(k == *m, "clone after the panic");
        m.resize((1, 2)).unwrap();
        m.apply(|e| { e.set(5) });
        check!(m.iter_elements().all(|e| e.get() == 5), "apply after the panic");
    });
    if let Err(p) = ok {
        fail(format!("using the matrix afterwards panics: {p}"))
    }
    l.no_bad();
}

pub fn run(cfg: &Cfg) {
    let shp: Vec<(usize, usize)> = if cfg.deep { small(4) } else { vec![(0, 0), (0, 2), (1, 1), (1, 3), (2, 1), (2, 2), (2, 3), (3, 2), (3, 3)] };
    let sc = scenarios();
    for (name, f) in sc {
        for &(r, c) in &shp {
            for oa in ORDERS {
                for ob in ORDERS {
                    for same in [true, false] {
                        let mut k = 0;
                        loop {
                            case!("{name}, a: {r}x{c} {oa:?}, b: {} {ob:?}, caller code panics at its call number {k}", if same { format!("{r}x{c}") } else { "2x2".into() });
                            let l = Ledger::open();
                            let mut a = Some(build::<Tok>(&Mdl::seq(r, c, oa, 1)));
                            let mut b = Some(build::<Tok>(&if same { Mdl::seq(r, c, ob, 50) } else { Mdl::seq(2, 2, ob, 50) }));
                            arm(k);
                            let res = catch(|| f(&mut a, &mut b));
                            let done = !burnt();
                            arm(-1);
                            l.no_bad();
                            for m in [&mut a, &mut b] {
                                if let Some(m) = m.as_mut() {
                                    after(m, &l);
                                }
                            }
                            drop((a, b));
                            l.no_bad();
                            check!(l.drops() <= l.made(), "more drops than elements");
                            if done {
                                if let Err(p) = res {
                                    let fine = (name.starts_with(['+', '-', '*'])) || name == "index" || name.contains("macros");
                                    check!(fine, "panics without the caller's code panicking: {p}");
                                } else {
                                    l.settle();
                                }
                                break;
                            }
                            k += 1;
                            if k > 400 {
                                fail("caller code runs without end".into())
                            }
                        }
                    }
                }
            }
        }
    }
    zst();
}

/// the same for a counted zero-sized type
fn zst() {
    type MZ = Matrix<Z>;
    let sc: Vec<(&str, fn(&mut Option<MZ>))> = vec![
        ("resize grow", |a| { let _ = a.as_mut().unwrap().resize((4, 4)); }),
        ("resize shrink", |a| { let _ = a.as_mut().unwrap().resize((1, 1)); }),
        ("clear", |a| { a.as_mut().unwrap().clear(); }),
        ("map", |a| { let m = a.take().unwrap(); *a = m.map(|z| { tick(); z }).ok(); }),
        ("overwrite", |a| { let s = build::<Z>(&Mdl::seq(3, 3, Order::ColMajor, 1)); a.as_mut().unwrap().overwrite(&s); }),
        ("drop", |a| { drop(a.take()) }),
        ("clone", |a| { let _ = a.as_ref().unwrap().clone(); }),
        ("with_default", |_| { let _ = MZ::with_default((3, 2)); }),
        ("with_value", |_| { let _ = MZ::with_value((3, 2), Z::new()); }),
    ];
    for (name, f) in sc {
        for (r, c) in small(3) {
            for o in ORDERS {
                for k in 0..60 {
                    case!("zero-sized elements: {name}, {r}x{c} {o:?}, caller code panics at its call number {k}");
                    let l = Ledger::open();
                    let mut a = Some(build::<Z>(&Mdl::seq(r, c, o, 1)));
                    arm(k);
                    let _ = catch(|| f(&mut a));
                    let done = !burnt();
                    arm(-1);
                    let left = a.as_ref().map_or(0, |m| m.size());
                    check!(l.alive() >= left, "{} elements dropped twice", left - l.alive());
                    if let Some(m) = &a {
                        coherent(m);
                    }
                    drop(a);
                    check!(l.drops() <= l.made(), "more drops than elements");
                    if done {
                        l.settle();
                        break;
                    }
                }
            }
        }
    }
}
