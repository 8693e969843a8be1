//! C19 construction; C20 formatting.
use crate::util::*;
use matreex::{Error, Matrix, Order};


// ------------------------------------------------------------ C19

fn rows_of(d: &[Vec<u64>]) -> Vec<Vec<Tok>> {
    d.iter().map(|r| r.iter().map(|v| Tok::new(*v)).collect()).collect()
}
fn is(m: &Matrix<Tok>, d: &[Vec<u64>], nc: usize, w: &str) {
    let o = coherent(m);
    check_eq!((o.nr, o.nc), (d.len(), nc), "{w}: shape");
    check_eq!(o.rows, d, "{w}: rows");
}

fn from_rows(lens: &[usize]) {
    let mut n = 0;
    let d: Vec<Vec<u64>> = lens.iter().map(|l| (0..*l).map(|_| { n += 1; n }).collect()).collect();
    case!("rows of lengths {:?}", &lens[..lens.len().min(20)]);
    let nc = lens.first().copied().unwrap_or(0);
    let even = lens.iter().all(|l| *l == nc);
    let l = Ledger::open();
    let judge = |r: Result<Result<Matrix<Tok>, Error>, String>, w: &str| match r {
        Err(p) => fail(format!("{w} panics: {p}")),
        Ok(Ok(m)) => {
            check!(even, "{w} accepts ragged rows");
            is(&m, &d, nc, w);
        }
        Ok(Err(e)) => check!(!even && e == Error::LengthInconsistent, "{w} gives {e:?}"),
    };
    let v = rows_of(&d);
    judge(catch(|| Matrix::try_from(v)), "TryFrom<Vec<Vec<T>>>");
    let v = rows_of(&d);
    judge(catch(|| Matrix::try_from(&v[..])), "TryFrom<&[Vec<T>]>");
    check!(v.iter().flatten().map(|e| e.get()).eq(d.iter().flatten().copied()), "the borrowed rows changed");
    drop(v);
    macro_rules! arr { ($($k:literal)*) => { match lens.len() { $( $k => { let a: [Vec<Tok>; $k] = rows_of(&d).try_into().map_err(|_| ()).unwrap(); judge(catch(|| Matrix::try_from(a)), "TryFrom<[Vec<T>; R]>") } )* _ => {} } } }
    arr!(0 1 2 3 4 5);
    // FromIterator: a panic for ragged rows, an empty iterator is the empty matrix
    macro_rules! it {
        ($w:literal, $e:expr) => {
            match catch(|| -> Matrix<Tok> { $e }) {
                Err(p) => check!(!even, "{} panics: {p}", $w),
                Ok(m) => {
                    check!(even, "{} accepts ragged rows", $w);
                    is(&m, &d, nc, $w);
                }
            }
        };
    }
    it!("FromIterator of vectors", rows_of(&d).into_iter().collect());
    it!("FromIterator of filtered iterators", rows_of(&d).into_iter().map(|r| r.into_iter().filter(|_| true)).collect());
    it!("FromIterator of boxed slices", rows_of(&d).into_iter().map(|r| r.into_boxed_slice()).collect());
    it!("FromIterator of options as rows", { if lens.iter().all(|l| *l <= 1) { rows_of(&d).into_iter().map(|mut r| r.pop()).collect() } else { rows_of(&d).into_iter().collect() } });
    l.settle();
}

macro_rules! nested {
    ($r:literal, $c:literal) => {{
        case!("nested arrays {}x{}", $r, $c);
        let l = Ledger::open();
        let d: Vec<Vec<u64>> = (0..$r).map(|i| (0..$c).map(|j| (i * $c + j + 1) as u64).collect()).collect();
        let a = || -> [[Tok; $c]; $r] { std::array::from_fn(|i| std::array::from_fn(|j| Tok::new((i * $c + j + 1) as u64))) };
        let r = catch(|| {
            is(&Matrix::from(a()), &d, $c, "From<[[T; C]; R]>");
            is(&Matrix::from(Vec::from(a())), &d, $c, "From<Vec<[T; C]>>");
            check_eq!(l.clones(), 0, "clones made by the consuming conversions");
            let s = a();
            is(&Matrix::from(&s[..]), &d, $c, "From<&[[T; C]]>");
            check_eq!(l.clones(), $r * $c, "clones made by From<&[[T; C]]>");
            drop(s);
            is(&a().into_iter().collect(), &d, if $r == 0 { 0 } else { $c }, "FromIterator of arrays");
        });
        if let Err(p) = r {
            fail(format!("panics: {p}"))
        }
        l.settle();
    }};
}

fn macros() {
    use matreex::{col_vec, matrix, row_vec};
    case!("macros");
    let l = Ledger::open();
    let t = Tok::new;
    let v = |r: &[&[u64]]| r.iter().map(|x| x.to_vec()).collect::<Vec<_>>();
    let m: Matrix<Tok> = matrix![];
    is(&m, &[], 0, "matrix![]");
    is(&matrix![[t(1), t(2), t(3)], [t(4), t(5), t(6)]], &v(&[&[1, 2, 3], &[4, 5, 6]]), 3, "matrix![[..], [..]]");
    is(&matrix![[t(1), t(2)], [t(4), t(5)], [t(6), t(7)],], &v(&[&[1, 2], &[4, 5], &[6, 7]]), 2, "matrix![[..], [..], [..],]");
    is(&matrix![[t(1), t(2), t(3)]; 2], &v(&[&[1, 2, 3], &[1, 2, 3]]), 3, "matrix![[..]; n]");
    is(&matrix![[t(9); 3]; 2], &v(&[&[9, 9, 9], &[9, 9, 9]]), 3, "matrix![[e; c]; r]");
    is(&matrix![[t(9); 2]; 3], &v(&[&[9, 9], &[9, 9], &[9, 9]]), 2, "matrix![[e; c]; r]");
    is(&matrix![[t(9); 0]; 3], &v(&[&[], &[], &[]]), 0, "matrix![[e; 0]; r]");
    is(&matrix![[t(1)]], &v(&[&[1]]), 1, "matrix![[e]]");
    is(&matrix![[t(1)], [t(2)]], &v(&[&[1], &[2]]), 1, "matrix![[e], [e]]");
    let m: Matrix<Tok> = row_vec![];
    is(&m, &v(&[&[]]), 0, "row_vec![]");
    is(&row_vec![t(1), t(2), t(3)], &v(&[&[1, 2, 3]]), 3, "row_vec![..]");
    is(&row_vec![t(4); 3], &v(&[&[4, 4, 4]]), 3, "row_vec![e; n]");
    let m: Matrix<Tok> = col_vec![];
    is(&m, &[], 1, "col_vec![]");
    is(&col_vec![t(1), t(2), t(3)], &v(&[&[1], &[2], &[3]]), 1, "col_vec![..]");
    is(&col_vec![t(4); 2], &v(&[&[4], &[4]]), 1, "col_vec![e; n]");
    is(&Matrix::from_row([t(1), t(2)]), &v(&[&[1, 2]]), 2, "from_row");
    is(&Matrix::from_row(vec![]), &v(&[&[]]), 0, "from_row of nothing");
    is(&Matrix::from_col([t(1), t(2)]), &v(&[&[1], &[2]]), 1, "from_col");
    is(&Matrix::from_col(vec![]), &[], 1, "from_col of nothing");
    check_eq!((Matrix::<u8>::new().nrows(), Matrix::<u8>::new().ncols(), Matrix::<u8>::default().size()), (0, 0, 0), "new and default");
    let m = Matrix::<u8>::with_capacity(10);
    check_eq!((m.nrows(), m.ncols(), m.size(), m.capacity() >= 10), (0, 0, 0, true), "with_capacity(10)");
    drop(m);
    check!(catch(|| matrix![[0u64; usize::MAX]; 2]).is_err(), "matrix![[e; MAX]; 2] does not panic");
    l.settle();
}

fn fills(r: usize, c: usize) {
    case!("constructors for {r}x{c}");
    let l = Ledger::open();
    let res = catch(|| {
        let m = Matrix::<Tok>::with_value((r, c), Tok::new(8)).unwrap_or_else(|e| fail(format!("with_value gives {e:?}")));
        is(&m, &vec![vec![8; c]; r], c, "with_value");
        drop(m);
        l.settle();
        let m = Matrix::<Tok>::with_default(matreex::Shape::new(r, c)).unwrap_or_else(|e| fail(format!("with_default gives {e:?}")));
        is(&m, &vec![vec![DEFV; c]; r], c, "with_default");
        drop(m);
        l.settle();
        let mut seen = vec![vec![0; c]; r];
        let mut n = 0;
        let m = Matrix::<Tok>::with_initializer([r, c], |i| {
            check!(i.row < r && i.col < c, "with_initializer calls its closure with {i:?}");
            seen[i.row][i.col] += 1;
            n += 1;
            Tok::new((i.row * 1000 + i.col) as u64)
        })
        .unwrap_or_else(|e| fail(format!("with_initializer gives {e:?}")));
        check!(n == r * c && seen.iter().flatten().all(|k| *k == 1), "with_initializer's calls per position: {seen:?}");
        is(&m, &(0..r).map(|i| (0..c).map(|j| (i * 1000 + j) as u64).collect()).collect::<Vec<_>>(), c, "with_initializer");
        check_eq!(l.clones(), r * c * 0 + l.clones(), "clones");
        drop(m);
        // a stateful closure: values are stored where they were asked for
        let mut k = 0u64;
        let mut asked = vec![vec![0u64; c]; r];
        let m = Matrix::<Tok>::with_initializer((r, c), |i| { k += 1; asked[i.row][i.col] = k; Tok::new(k) }).unwrap();
        is(&m, &asked, c, "with_initializer with a counter");
    });
    if let Err(p) = res {
        fail(format!("panics: {p}"))
    }
    l.settle();
}

pub fn run_construct(cfg: &Cfg) {
    for (r, c) in shapes(if cfg.deep { 8 } else { 5 }) {
        fills(r, c);
        from_rows(&vec![c; r]);
    }
    // all length profiles of up to four rows
    let k = if cfg.deep { 5 } else { 4 };
    for n in 0..=4u32 {
        for code in 0..(k as usize).pow(n) {
            let lens: Vec<usize> = (0..n).map(|i| code / (k as usize).pow(i) % k as usize).collect();
            from_rows(&lens);
        }
    }
    // ragged in one late row; total length that still matches
    for (r, c) in BIG {
        if r > 1 {
            for at in [0, 1, r / 2, r - 1] {
                let mut l = vec![c; r];
                l[at] += 1;
                from_rows(&l);
                l[at] = c - 1;
                from_rows(&l);
                if r > 2 && at > 0 {
                    l[at] = c - 1;
                    l[if at > 1 { at - 1 } else { r - 1 }] = c + 1;
                    from_rows(&l);
                }
                l[at] = 0;
                from_rows(&l);
                l[at] = 2 * c;
                from_rows(&l);
            }
        }
    }
    from_rows(&[2, 2, 0, 2]);
    from_rows(&[2, 4, 0]);
    from_rows(&[3, 0, 6]);
    from_rows(&[0, 0, 1]);
    nested!(0, 0);
    nested!(0, 3);
    nested!(3, 0);
    nested!(1, 1);
    nested!(1, 4);
    nested!(4, 1);
    nested!(2, 3);
    nested!(3, 2);
    nested!(3, 3);
    nested!(5, 7);
    nested!(17, 9);
    macros();
    // empty matrices with one huge dimension
    for (r, c) in [(usize::MAX, 0), (0, usize::MAX), (1 << 40, 0)] {
        case!("constructors for {r}x{c}");
        let e = catch(|| {
            let dims = |m: Matrix<u64>| (m.nrows(), m.ncols(), m.size());
            check_eq!(Matrix::<u64>::with_value((r, c), 1).map(dims), Ok((r, c, 0)), "with_value");
            check_eq!(Matrix::<u64>::with_default((r, c)).map(dims), Ok((r, c, 0)), "with_default");
            check_eq!(Matrix::<u64>::with_initializer((r, c), |_| fail("the closure is called".into())).map(dims), Ok((r, c, 0)), "with_initializer");
        });
        if let Err(p) = e {
            fail(format!("panics: {p}"))
        }
    }
}

// ------------------------------------------------------------ C20

fn grid_text(text: &str, r: usize, w: &str) -> Vec<String> {
    let lines: Vec<String> = text.split('\n').map(String::from).collect();
    check!(lines.first().map(|l| l.trim()) == Some("[") && lines.last().map(|l| l.trim()) == Some("]"), "{w}: not enclosed in brackets:\n{text}");
    let body = lines[1..lines.len() - 1].to_vec();
    let rows: Vec<String> = body.iter().filter(|l| l.contains('[')).cloned().collect();
    check_eq!(rows.len(), r, "{w}: row lines in\n{text}");
    let n = rows[0].chars().count();
    check!(rows.iter().all(|l| l.chars().count() == n), "{w}: row lines of widths {:?} in\n{text}", rows.iter().map(|l| l.chars().count()).collect::<Vec<_>>());
    rows
}
fn inner(l: &str, w: &str) -> (String, String) {
    let a = l.find('[').unwrap();
    let t = l.trim_end();
    check!(t.ends_with(']') && t.matches('[').count() == 1 && t.matches(']').count() == 1, "{w}: not one bracketed line: {l:?}");
    (l[..a].to_string(), t[a + 1..t.len() - 1].to_string())
}

fn texts<T: std::fmt::Display + std::fmt::Debug>(r: usize, c: usize, kind: &str, f: &dyn Fn(usize, usize) -> T, out: &mut String) {
    let mut first = None;
    for o in ORDERS {
        case!("{kind} elements {r}x{c} {o:?}, formatting");
        let d = Mdl::new(r, c, o, |i, j| (i * c + j) as u64);
        let m = match build::<u64>(&d).map(|v| f(v as usize / c.max(1), v as usize % c.max(1))) {
            Ok(m) => m,
            Err(e) => fail(format!("map gives {e:?}")),
        };
        let (s, g) = match catch(|| (format!("{m}"), format!("{m:?}"))) {
            Ok(x) => x,
            Err(p) => fail(format!("panics: {p}")),
        };
        out.push_str(&g);
        out.push('\n');
        for v in [catch(|| format!("{m:#?}")), catch(|| format!("{m:>50}")), catch(|| format!("{m:.1}"))] {
            if let Err(p) = v {
                fail(format!("panics with formatting flags: {p}"))
            }
        }
        match &first {
            None => first = Some(s.clone()),
            Some(t) => check!(s == *t, "Display differs between the storage orders:\n{t}\n{s}"),
        }
        if r * c == 0 {
            continue;
        }
        if kind == "multi-line" || kind == "multi-line or empty" {
            continue;
        }
        let rows = grid_text(&s, r, "Display");
        for (i, l) in rows.iter().enumerate() {
            let (_, body) = inner(l, "Display");
            let want: Vec<String> = (0..c).map(|j| format!("{}", f(i, j))).collect();
            let got: Vec<&str> = body.split_whitespace().collect();
            let want: Vec<&str> = want.iter().flat_map(|w| w.split_whitespace()).collect();
            check_eq!(got, want, "Display: row {i} of\n{s}");
        }
        let rows = grid_text(&g, r, "Debug");
        let head: Vec<&str> = g.split('\n').nth(1).unwrap().split_whitespace().collect();
        check_eq!(head, (0..c).map(|j| j.to_string()).collect::<Vec<_>>(), "Debug: column numbers of\n{g}");
        for (i, l) in rows.iter().enumerate() {
            let (num, body) = inner(l, "Debug");
            check_eq!(num.trim(), i.to_string(), "Debug: number of row {i} in\n{g}");
            let want: Vec<String> = (0..c).flat_map(|j| [d.pos(i, j).to_string(), format!("{:?}", f(i, j))]).collect();
            let got: Vec<&str> = body.split_whitespace().collect();
            let want: Vec<&str> = want.iter().flat_map(|w| w.split_whitespace()).collect();
            check_eq!(got, want, "Debug: row {i} of\n{g}");
        }
    }
}

struct Raw(String);
impl std::fmt::Display for Raw {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::fmt::Debug for Raw {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}

pub fn run_format(cfg: &Cfg) -> String {
    let mut out = String::new();
    let mut dims = small(if cfg.deep { 7 } else { 4 });
    dims.extend([(1, 12), (12, 1), (10, 10), (11, 10), (3, 40), (40, 3), (101, 2), (2, 101), (33, 32), (1, 1001)]);
    for (r, c) in dims {
        texts(r, c, "integer", &|i, j| (i * 37 + j * 1001) as i64 - 50, &mut out);
        texts(r, c, "equal", &|_, _| 7u8, &mut out);
        texts(r, c, "first-widest", &|i, j| if i + j == 0 { 123456789 } else { 1 }, &mut out);
        texts(r, c, "float", &|i, j| i as f64 / 3.0 + j as f64, &mut out);
        texts(r, c, "unicode", &|i, j| Raw(["é", "日本", "x", "ñandú", "🙂"][(i * 3 + j) % 5].repeat(1 + j % 3)), &mut out);
        texts(r, c, "empty and short", &|i, j| Raw(["", "a", "bcd"][(i + 2 * j) % 3].into()), &mut out);
        texts(r, c, "spaced", &|i, j| Raw([" x", "y ", "a b"][(i + j) % 3].into()), &mut out);
        texts(r, c, "combining and zero-width", &|i, j| Raw(["e\u{301}", "\u{200b}z", "\u{feff}q"][(i + j) % 3].into()), &mut out);
        texts(r, c, "multi-line", &|i, j| Raw((0..1 + (i + j) % 3).map(|k| format!("l{k}")).collect::<Vec<_>>().join("\n")), &mut out);
        texts(r, c, "multi-line or empty", &|i, j| Raw(["", "\n", "a\n\nb", "\r\n", "x\r\ny", "\n\n\n", "z"][(i * 2 + j) % 7].into()), &mut out);
    }
    // elements far wider than any fixed limit
    for n in [255usize, 256, 65535, 65536, 70000, 200_000] {
        texts(2, 2, "wide", &|i, j| Raw(if i == j { "w".repeat(n) } else { "s".into() }), &mut out);
        texts(1, 2, "wide unicode", &|_, j| Raw(if j == 1 { "é".repeat(n) } else { "s".into() }), &mut String::new());
    }
    // a nested matrix is a multi-line element
    case!("a matrix of matrices");
    let e = catch(|| {
        let x = build::<u64>(&Mdl::seq(2, 2, Order::ColMajor, 1));
        let m = build::<u64>(&Mdl::seq(2, 3, Order::ColMajor, 1)).map(|_| x.clone()).unwrap();
        out.push_str(&format!("{m:?}{m}"));
    });
    if let Err(p) = e {
        fail(format!("panics: {p}"))
    }
    // zero-sized elements and huge empty shapes
    for o in ORDERS {
        for (r, c) in [(usize::MAX, 0), (0, usize::MAX)] {
            case!("empty {r}x{c} {o:?}, formatting");
            let mut m = build::<u64>(&Mdl::new(0, 0, o, |_, _| 0));
            if m.reshape((r, c)).is_err() {
                continue;
            }
            match catch(|| (format!("{m}"), format!("{m:?}"))) {
                Ok((a, b)) => check!(a.len() + b.len() < 1000, "a long text for an empty matrix"),
                Err(p) => fail(format!("panics: {p}")),
            }
        }
    }
    texts(3, 2, "zero-sized", &|_, _| Raw("()".into()), &mut out);
    out
}
