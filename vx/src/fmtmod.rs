//! The formatting module. Its `write!`/`format!` calls (and the crate's own macro around them)
//! are expanded by rustc; `format_args!` is then split here into its pieces.
use crate::norm;
use quote::{format_ident, quote};
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub const FILE: &str = "fmt.rs";

fn is_fmt_impl(i: &ItemImpl, which: &[&str]) -> bool {
    let t = match &i.trait_ {
        Some((_, p, _)) => p.segments.last().unwrap().ident.to_string(),
        None => return false,
    };
    which.contains(&t.as_str()) && crate::types::base_ty(&i.self_ty) == "Matrix"
}
fn has(items: &[Item]) -> bool {
    items.iter().any(|i| match i {
        Item::Impl(i) => is_fmt_impl(i, &["Display", "Debug"]),
        Item::Mod(m) => m.content.as_ref().map_or(false, |c| has(&c.1)),
        _ => false,
    })
}

/// the top-level module that implements Display/Debug for Matrix
pub fn module(file: File) -> Option<(String, Vec<Item>)> {
    for i in file.items {
        if let Item::Mod(m) = i {
            if let Some((_, c)) = m.content {
                if has(&c) {
                    return Some((m.ident.to_string(), c));
                }
            }
        }
    }
    None
}

/// std::fmt's names become the ones of the specification library
pub struct Fix;
impl VisitMut for Fix {
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        visit_mut::visit_path_mut(self, p);
        let first = p.segments.first().unwrap().ident.to_string();
        let last = p.segments.last().unwrap().clone();
        let is_fmt = ["fmt", "std", "core"].contains(&first.as_str()) || p.segments.len() == 1;
        if !is_fmt {
            return;
        }
        match last.ident.to_string().as_str() {
            "Debug" => *p = parse_quote!(VpDebug),
            "Display" => *p = parse_quote!(VpDisplay),
            "Formatter" => *p = parse_quote!(VpFormatter),
            "Result" if last.arguments.is_none() && p.segments.len() > 1 => *p = parse_quote!(VpFmtResult),
            "Error" if p.segments.len() > 1 => *p = parse_quote!(VpFmtError),
            _ => {}
        }
    }
    fn visit_item_impl_mut(&mut self, i: &mut ItemImpl) {
        // the implemented trait keeps its name
        let t = i.trait_.take();
        visit_mut::visit_item_impl_mut(self, i);
        i.trait_ = t;
    }
}

pub fn is_debug_impl(i: &Item) -> bool {
    matches!(i, Item::Impl(i) if is_fmt_impl(i, &["Debug"]))
}

pub fn differing(a: &[(String, Item)], b: &[(String, Item)]) -> Vec<String> {
    let key = |x: &Item| norm(x);
    let have: std::collections::BTreeSet<String> = a.iter().map(|x| key(&x.1)).collect();
    b.iter()
        .filter(|x| !matches!(x.1, Item::Macro(_) | Item::Use(_)) && !is_debug_impl(&x.1) && !have.contains(&key(&x.1)))
        .map(|x| key(&x.1).chars().take(50).collect())
        .collect()
}

enum Piece {
    Lit(String),
    Arg { n: usize, debug: bool, align: Option<char>, width: Option<W> },
}
enum W {
    N(usize),
    A(usize),
}

fn template(s: &str) -> Option<Vec<Piece>> {
    let mut out = vec![];
    let mut lit = String::new();
    let c: Vec<char> = s.chars().collect();
    let mut i = 0;
    let mut next = 0;
    while i < c.len() {
        if c[i] == '{' && c.get(i + 1) == Some(&'{') || c[i] == '}' && c.get(i + 1) == Some(&'}') {
            lit.push(c[i]);
            i += 2;
            continue;
        }
        if c[i] != '{' {
            lit.push(c[i]);
            i += 1;
            continue;
        }
        let j = (i..c.len()).find(|&j| c[j] == '}')?;
        let body: String = c[i + 1..j].iter().collect();
        i = j + 1;
        let (arg, spec) = match body.split_once(':') {
            Some((a, b)) => (a.trim().to_string(), b.trim().to_string()),
            None => (body.trim().to_string(), String::new()),
        };
        let n = if arg.is_empty() {
            next += 1;
            next - 1
        } else {
            arg.parse().ok()?
        };
        let (spec, debug) = match spec.strip_suffix('?') {
            Some(s) => (s.to_string(), true),
            None => (spec, false),
        };
        let mut align = None;
        let mut rest = spec.as_str();
        if let Some(a) = rest.chars().next().filter(|a| "<>".contains(*a)) {
            align = Some(a);
            rest = &rest[1..];
        }
        let width = if rest.is_empty() {
            None
        } else if let Some(a) = rest.strip_suffix('$') {
            Some(W::A(a.parse().ok()?))
        } else {
            if rest.starts_with('0') {
                return None;
            }
            Some(W::N(rest.parse().ok()?))
        };
        if !lit.is_empty() {
            out.push(Piece::Lit(std::mem::take(&mut lit)));
        }
        out.push(Piece::Arg { n, debug, align, width });
    }
    if !lit.is_empty() {
        out.push(Piece::Lit(lit));
    }
    Some(out)
}

/// `format_args!(..)` as an expression over the pieces
pub fn format_args(m: &Macro) -> Option<Expr> {
    let a = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok()?;
    let mut it = a.into_iter();
    let t = match it.next()? {
        Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => s.value(),
        _ => return None,
    };
    let args: Vec<Expr> = it.collect();
    let mut ss: Vec<Stmt> = vec![];
    for (i, x) in args.iter().enumerate() {
        let id = format_ident!("__fa{}", i);
        ss.push(parse_quote!(let #id = &#x;));
    }
    let mut e: Expr = parse_quote!(vp_fmt());
    for p in template(&t)? {
        e = match p {
            Piece::Lit(s) => parse_quote!(#e.vp_lit(#s)),
            Piece::Arg { n, debug, align, width } => {
                if n >= args.len() {
                    return None;
                }
                let id = format_ident!("__fa{}", n);
                let w: Option<Expr> = match width {
                    None => None,
                    Some(W::N(k)) => Some(parse_quote!(#k)),
                    Some(W::A(k)) => {
                        let wid = format_ident!("__fa{}", k);
                        Some(parse_quote!(*#wid))
                    }
                };
                match (debug, align, w) {
                    (true, None, None) => parse_quote!(#e.vp_dbg(#id)),
                    (false, None, None) => parse_quote!(#e.vp_disp(#id)),
                    (false, None, Some(w)) => parse_quote!(#e.vp_disp_w(#id, #w)),
                    (false, Some('>'), Some(w)) => parse_quote!(#e.vp_disp_r(#id, #w)),
                    (false, Some('<'), Some(w)) => parse_quote!(#e.vp_disp_l(#id, #w)),
                    _ => return None,
                }
            }
        };
    }
    let _ = quote!();
    Some(parse_quote!({ #(#ss)* #e }))
}
