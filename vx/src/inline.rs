//! Helpers without a contract are put back into their callers (R25): a call
//! `h(a, b)`, `Self::h(a, b)` or `recv.h(a, b)` of a function of this crate that has no
//! contract becomes the block `{ let (p, q) = (a, b); body }`, so that extracting a part of a
//! function under contract into a new helper leaves its obligations what they were.
//! A helper that cannot be put back (recursive, early exits that do not coincide with the
//! caller's, patterns in its parameters, ..) stays a call, and its callers are degraded.
use crate::{is_test, norm, types::base_ty};
use proc_macro2::{TokenStream, TokenTree};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::Visit;
use syn::visit_mut::VisitMut;
use syn::*;

#[derive(Clone)]
struct Helper {
    base: Option<String>,
    generics: BTreeSet<String>,
    /// none, or by value, &, &mut
    recv: Option<(bool, bool)>,
    /// name, `mut`, of type `&mut _`
    params: Vec<(Ident, bool, bool)>,
    sig_out: String,
    /// its own type parameters that its body names
    own: Vec<String>,
    own_used: bool,
    body: Block,
    macros: bool,
    exits: bool,
}

fn idents(t: TokenStream, out: &mut BTreeSet<String>) {
    for x in t {
        match x {
            TokenTree::Ident(i) => {
                out.insert(i.to_string());
            }
            TokenTree::Group(g) => idents(g.stream(), out),
            _ => {}
        }
    }
}
fn idents_of<T: quote::ToTokens>(t: &T) -> BTreeSet<String> {
    let mut s = BTreeSet::new();
    idents(quote::quote!(#t), &mut s);
    s
}

#[derive(Default)]
struct Scan {
    macros: bool,
    exits: bool,
    bad_exits: bool,
    bound: BTreeSet<String>,
}
impl<'a> Visit<'a> for Scan {
    fn visit_macro(&mut self, m: &'a Macro) {
        let n = m.path.segments.last().unwrap().ident.to_string();
        if !["panic", "unreachable", "assert", "debug_assert"].contains(&n.as_str()) || !m.tokens.is_empty() {
            self.macros = true;
        }
    }
    fn visit_expr_try(&mut self, e: &'a ExprTry) {
        self.exits = true;
        visit::visit_expr_try(self, e);
    }
    fn visit_expr_return(&mut self, e: &'a ExprReturn) {
        self.exits = true;
        if !e.expr.as_ref().map_or(false, |x| norm(x).starts_with("Err(")) {
            self.bad_exits = true;
        }
        visit::visit_expr_return(self, e);
    }
    fn visit_expr_closure(&mut self, c: &'a ExprClosure) {
        // exits of a closure are its own
        let (a, b) = (self.exits, self.bad_exits);
        visit::visit_expr_closure(self, c);
        self.exits = a;
        self.bad_exits = b;
    }
    fn visit_pat_ident(&mut self, p: &'a PatIdent) {
        self.bound.insert(p.ident.to_string());
        visit::visit_pat_ident(self, p);
    }
}

fn type_params(g: &Generics) -> BTreeSet<String> {
    g.params
        .iter()
        .filter_map(|p| match p {
            GenericParam::Type(t) => Some(t.ident.to_string()),
            GenericParam::Const(t) => Some(t.ident.to_string()),
            _ => None,
        })
        .collect()
}

fn helper(sig: &Signature, body: &Block, imp: Option<&ItemImpl>) -> Option<Helper> {
    let mut recv = None;
    let mut params = vec![];
    for a in &sig.inputs {
        match a {
            FnArg::Receiver(r) => {
                if r.colon_token.is_some() {
                    return None;
                }
                recv = Some((r.reference.is_some(), r.mutability.is_some() && r.reference.is_some()))
            }
            FnArg::Typed(t) => match &*t.pat {
                Pat::Ident(p) if p.by_ref.is_none() && p.subpat.is_none() => params.push((p.ident.clone(), p.mutability.is_some(), matches!(&*t.ty, Type::Reference(r) if r.mutability.is_some()))),
                _ => return None,
            },
        }
    }
    let mut s = Scan::default();
    s.visit_block(body);
    let own: Vec<String> = sig
        .generics
        .params
        .iter()
        .filter_map(|p| match p {
            GenericParam::Type(t) => Some(t.ident.to_string()),
            GenericParam::Const(t) => Some(t.ident.to_string()),
            _ => None,
        })
        .collect();
    let used = idents_of(body);
    let own_used = own.iter().any(|g| used.contains(g));
    if s.bad_exits || used.contains(&sig.ident.to_string()) || sig.asyncness.is_some() {
        return None;
    }
    Some(Helper {
        base: imp.map(|i| base_ty(&i.self_ty)),
        generics: imp.map(|i| type_params(&i.generics)).unwrap_or_default(),
        recv,
        params,
        sig_out: norm(&sig.output),
        own,
        own_used,
        body: body.clone(),
        macros: s.macros,
        exits: s.exits,
    })
}

/// replaces identifiers used as expressions
struct Subst<'a> {
    map: &'a BTreeMap<String, Expr>,
    this: Option<(Expr, bool, bool, bool)>,
    ok: bool,
}
fn is_path(e: &Expr, n: &str) -> bool {
    matches!(e, Expr::Path(p) if p.qself.is_none() && p.path.is_ident(n))
}
impl Subst<'_> {
    /// the place an expression stands for when something is read from it
    fn place(&self, e: &Expr) -> Option<Expr> {
        if let (Some((r, ..)), true) = (&self.this, is_path(e, "self")) {
            return Some(r.clone());
        }
        if let Expr::Path(p) = e {
            if let Some(x) = p.path.get_ident().and_then(|i| self.map.get(&i.to_string())) {
                return Some(match x {
                    Expr::Reference(r) => (*r.expr).clone(),
                    x => x.clone(),
                });
            }
        }
        None
    }
}
impl VisitMut for Subst<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Field(f) => {
                if let Some(x) = self.place(&f.base) {
                    *f.base = x;
                    return;
                }
            }
            Expr::MethodCall(m) => {
                if let Some(x) = self.place(&m.receiver) {
                    *m.receiver = x;
                    for a in m.args.iter_mut() {
                        self.visit_expr_mut(a);
                    }
                    return;
                }
            }
            Expr::Index(i) => {
                if let Some(x) = self.place(&i.expr) {
                    *i.expr = x;
                    self.visit_expr_mut(&mut i.index);
                    return;
                }
            }
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) && is_path(&u.expr, "self") && self.this.is_some() => {
                let (r, helper_ref, _, caller_ref) = self.this.clone().unwrap();
                if helper_ref && is_path(&r, "self") && caller_ref {
                    return;
                }
                if helper_ref {
                    *e = r;
                    return;
                }
            }
            Expr::Path(_) if is_path(e, "self") && self.this.is_some() => {
                let (r, helper_ref, helper_mut, caller_ref) = self.this.clone().unwrap();
                *e = match (helper_ref, helper_mut, is_path(&r, "self") && caller_ref) {
                    (true, true, true) => parse_quote!((&mut *self)),
                    (true, false, true) => parse_quote!((&*self)),
                    (true, true, false) => parse_quote!((&mut #r)),
                    (true, false, false) => parse_quote!((&#r)),
                    (false, _, false) => r,
                    // a Copy value behind the caller's reference
                    (false, _, true) => parse_quote!((*self)),
                };
                return;
            }
            Expr::Path(p) => {
                if let Some(x) = p.path.get_ident().and_then(|i| self.map.get(&i.to_string())) {
                    *e = x.clone();
                    return;
                }
            }
            Expr::Struct(s) => {
                // `S { x }` where x is replaced
                for f in s.fields.iter_mut() {
                    if f.colon_token.is_none() {
                        f.colon_token = Some(Default::default());
                    }
                }
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

struct TySubst<'a>(&'a [String], &'a [Type]);
impl TySubst<'_> {
    fn of(&self, p: &Path) -> Option<&Type> {
        let k = self.0.iter().position(|o| p.segments[0].ident == o.as_str())?;
        Some(&self.1[k])
    }
}
impl VisitMut for TySubst<'_> {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Path(p) = t {
            if p.qself.is_none() && p.path.segments.len() == 1 {
                if let Some(x) = self.of(&p.path) {
                    *t = x.clone();
                    return;
                }
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        if let Some(Type::Path(x)) = self.of(p) {
            if let Some(i) = x.path.get_ident() {
                p.segments[0].ident = i.clone();
            }
        }
        visit_mut::visit_path_mut(self, p);
    }
}

/// a place or a reference to one: cheap and without effects
fn plain(e: &Expr) -> bool {
    match e {
        Expr::Path(p) => p.qself.is_none(),
        Expr::Field(f) => plain(&f.base),
        Expr::Reference(r) => plain(&r.expr) && !matches!(&*r.expr, Expr::Reference(_)),
        Expr::Paren(p) => plain(&p.expr),
        Expr::Lit(_) => true,
        _ => false,
    }
}

struct Inl<'a> {
    hs: &'a BTreeMap<String, Helper>,
    base: Option<String>,
    generics: BTreeSet<String>,
    caller_ref: bool,
    sig_out: String,
    used: BTreeSet<String>,
}

impl Inl<'_> {
    fn build(&mut self, name: &str, h: &Helper, recv: Option<&Expr>, args: Vec<Expr>, targs: Option<&AngleBracketedGenericArguments>, under_try: bool, at_tail: bool) -> Option<Expr> {
        if args.len() != h.params.len() || h.recv.is_some() != recv.is_some() {
            return None;
        }
        if h.exits && !(under_try || at_tail && h.sig_out == self.sig_out) {
            return None;
        }
        let used = idents_of(&h.body);
        if h.base.is_some() && h.base != self.base && (used.contains("Self") || h.generics.iter().any(|g| used.contains(g))) {
            return None;
        }
        if h.generics.iter().any(|g| used.contains(g) && !self.generics.contains(g)) {
            return None;
        }
        let mut s = Scan::default();
        s.visit_block(&h.body);
        let captured = |e: &Expr| idents_of(e).iter().any(|i| s.bound.contains(i));
        let this = match (recv, h.recv) {
            (Some(r), Some((byref, mu))) => {
                let mut r = r;
                while let Expr::Paren(p) = r {
                    r = &p.expr;
                }
                if !plain(r) || captured(r) {
                    return None;
                }
                Some((r.clone(), byref, mu, self.caller_ref))
            }
            _ => None,
        };
        if h.macros && this.is_some() && used.contains("self") {
            // `self` may stand inside a macro's arguments
            let mut m = MacroSelf(false);
            m.visit_block(&h.body);
            if m.0 && !is_path(&this.as_ref().unwrap().0, "self") {
                return None;
            }
        }
        let mut map = BTreeMap::new();
        let (mut ps, mut vs): (Vec<Pat>, Vec<Expr>) = (vec![], vec![]);
        for ((p, mu, mref), a) in h.params.iter().zip(args) {
            if matches!(a, Expr::Closure(_)) {
                return None;
            }
            if !mu && is_path(&a, &p.to_string()) {
                continue;
            }
            if !mu && !h.macros && plain(&a) && !captured(&a) && !s.bound.contains(&p.to_string()) {
                map.insert(p.to_string(), a);
            } else {
                let a = if *mref && !matches!(a, Expr::Reference(_)) { parse_quote!(&mut *#a) } else { a };
                ps.push(if *mu { parse_quote!(mut #p) } else { parse_quote!(#p) });
                vs.push(a);
            }
        }
        let mut b = h.body.clone();
        if h.own_used {
            // only the types the call spells out
            let ts: Vec<Type> = targs?.args.iter().filter_map(|a| if let GenericArgument::Type(t) = a { Some(t.clone()) } else { None }).collect();
            if ts.len() != h.own.len() || ts.iter().any(|t| norm(t).contains('_')) || h.macros {
                return None;
            }
            TySubst(&h.own, &ts).visit_block_mut(&mut b);
        }
        let mut sub = Subst { map: &map, this, ok: true };
        sub.visit_block_mut(&mut b);
        if !sub.ok {
            return None;
        }
        let stmts = &b.stmts;
        self.used.insert(name.to_string());
        Some(match vs.len() {
            0 => {
                if let [Stmt::Expr(x, None)] = &stmts[..] {
                    parse_quote!((#x))
                } else {
                    parse_quote!({ #(#stmts)* })
                }
            }
            1 => {
                let (p, v) = (&ps[0], &vs[0]);
                parse_quote!({ let #p = #v; #(#stmts)* })
            }
            _ => {
                // the arguments are evaluated before any of them is bound
                if vs.iter().all(|v| idents_of(v).iter().all(|i| !ps.iter().any(|p| norm(p).trim_start_matches("mut") == i.as_str()))) {
                    parse_quote!({ #(let #ps = #vs;)* #(#stmts)* })
                } else {
                    let ts: Vec<Ident> = (0..vs.len()).map(|k| quote::format_ident!("__arg{}", k)).collect();
                    parse_quote!({ #(let #ts = #vs;)* #(let #ps = #ts;)* #(#stmts)* })
                }
            }
        })
    }
    fn call(&mut self, e: &Expr, under_try: bool, at_tail: bool) -> Option<Expr> {
        match e {
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    if p.qself.is_some() {
                        return None;
                    }
                    let n = p.path.segments.last()?.ident.to_string();
                    let h = self.hs.get(&n)?.clone();
                    let q = if p.path.segments.len() >= 2 { Some(p.path.segments[p.path.segments.len() - 2].ident.to_string()) } else { None };
                    let ok = match (&h.base, &q) {
                        (None, None) => true,
                        (None, Some(m)) => m.chars().next().map_or(false, |c| c.is_lowercase()),
                        (Some(b), Some(q)) => q == b || q == "Self" && self.base.as_ref() == Some(b),
                        _ => false,
                    };
                    if !ok {
                        return None;
                    }
                    let targs = match &p.path.segments.last()?.arguments {
                        PathArguments::AngleBracketed(a) => Some(a.clone()),
                        _ => None,
                    };
                    if h.recv.is_some() {
                        let (r, rest) = (c.args.first()?.clone(), c.args.iter().skip(1).cloned().collect());
                        let r = match (r, h.recv) {
                            (Expr::Reference(r), Some((true, _))) => *r.expr,
                            (r, _) => r,
                        };
                        return self.build(&n, &h, Some(&r), rest, targs.as_ref(), under_try, at_tail);
                    }
                    return self.build(&n, &h, None, c.args.iter().cloned().collect(), targs.as_ref(), under_try, at_tail);
                }
                None
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                let h = self.hs.get(&n)?.clone();
                h.recv?;
                self.build(&n, &h, Some(&m.receiver), m.args.iter().cloned().collect(), m.turbofish.as_ref(), under_try, at_tail)
            }
            _ => None,
        }
    }
    fn tail(&mut self, b: &mut Block) {
        if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() {
            self.tail_expr(e);
        }
    }
    fn tail_expr(&mut self, e: &mut Expr) {
        match e {
            Expr::If(i) => {
                self.tail(&mut i.then_branch);
                if let Some((_, x)) = &mut i.else_branch {
                    self.tail_expr(x);
                }
            }
            Expr::Block(b) => self.tail(&mut b.block),
            Expr::Match(m) => {
                for a in m.arms.iter_mut() {
                    self.tail_expr(&mut a.body);
                }
            }
            _ => {
                if let Some(x) = self.call(e, false, true) {
                    *e = x;
                }
            }
        }
    }
}
struct MacroSelf(bool);
impl<'a> Visit<'a> for MacroSelf {
    fn visit_macro(&mut self, m: &'a Macro) {
        let mut s = BTreeSet::new();
        idents(m.tokens.clone(), &mut s);
        self.0 |= s.contains("self");
    }
}
impl VisitMut for Inl<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Try(t) = e {
            if let Some(x) = self.call(&t.expr, true, false) {
                // `{ ..; Ok(v) }?` is `{ ..; v }`
                let mut x = x;
                let mut done = false;
                let inner: Option<&mut Expr> = match &mut x {
                    Expr::Block(b) => match b.block.stmts.last_mut() {
                        Some(Stmt::Expr(y, None)) => Some(y),
                        _ => None,
                    },
                    _ => None,
                };
                if let Some(y) = inner {
                    if let Expr::Call(c) = y {
                        if norm(&c.func) == "Ok" && c.args.len() == 1 {
                            *y = c.args[0].clone();
                            done = true;
                        }
                    }
                }
                if done {
                    *e = x;
                } else {
                    *t.expr = x;
                }
                visit_mut::visit_expr_mut(self, e);
                return;
            }
        }
        if let Some(x) = self.call(e, false, false) {
            *e = x;
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

fn all_fns(items: &[(String, Item)], f: &mut dyn FnMut(&Signature, Option<&Block>, Option<&ItemImpl>)) {
    for (_, it) in items {
        match it {
            Item::Fn(x) if !is_test(&x.attrs) => f(&x.sig, Some(&x.block), None),
            Item::Impl(i) if !is_test(&i.attrs) => {
                for m in &i.items {
                    if let ImplItem::Fn(x) = m {
                        if !is_test(&x.attrs) {
                            f(&x.sig, Some(&x.block), Some(i))
                        }
                    }
                }
            }
            Item::Trait(t) => {
                for m in &t.items {
                    if let TraitItem::Fn(x) = m {
                        f(&x.sig, None, None)
                    }
                }
            }
            _ => {}
        }
    }
}

/// Puts helpers back; returns the names it used.
pub fn run(items: &mut [(String, Item)], contracted: &BTreeSet<String>) -> BTreeSet<String> {
    let mut count: BTreeMap<String, usize> = BTreeMap::new();
    let mut hs: BTreeMap<String, Helper> = BTreeMap::new();
    all_fns(items, &mut |sig, body, imp| {
        let n = sig.ident.to_string();
        *count.entry(n.clone()).or_default() += 1;
        let path = match imp {
            Some(i) if i.trait_.is_some() => return,
            Some(i) => format!("{}::{}", base_ty(&i.self_ty), n),
            None => n.clone(),
        };
        if contracted.contains(&path) || n.starts_with("macro_") {
            return;
        }
        if let Some(b) = body {
            if let Some(h) = helper(sig, b, imp) {
                hs.insert(n, h);
            }
        }
    });
    hs.retain(|n, _| count[n] == 1);
    let mut used = BTreeSet::new();
    if hs.is_empty() {
        return used;
    }
    for _ in 0..4 {
        let mut any = false;
        for (_, it) in items.iter_mut() {
            let mut go = |sig: &Signature, b: &mut Block, imp: Option<(&Type, &Generics)>| {
                let mut generics = type_params(&sig.generics);
                if let Some((_, g)) = imp {
                    generics.extend(type_params(g));
                }
                let caller_ref = sig.inputs.iter().any(|a| matches!(a, FnArg::Receiver(r) if r.reference.is_some()));
                let mut v = Inl { hs: &hs, base: imp.map(|i| base_ty(i.0)), generics, caller_ref, sig_out: norm(&sig.output), used: Default::default() };
                v.tail(b);
                v.visit_block_mut(b);
                if !v.used.is_empty() {
                    any = true;
                    used.extend(v.used);
                }
            };
            match it {
                Item::Fn(x) if !is_test(&x.attrs) => go(&x.sig.clone(), &mut x.block, None),
                Item::Impl(i) if !is_test(&i.attrs) => {
                    let (t, g) = ((*i.self_ty).clone(), i.generics.clone());
                    for m in i.items.iter_mut() {
                        if let ImplItem::Fn(x) = m {
                            if !is_test(&x.attrs) {
                                go(&x.sig.clone(), &mut x.block, Some((&t, &g)))
                            }
                        }
                    }
                }
                Item::Trait(t) => {
                    for m in t.items.iter_mut() {
                        if let TraitItem::Fn(x) = m {
                            if let Some(b) = &mut x.default {
                                go(&x.sig.clone(), b, None)
                            }
                        }
                    }
                }
                _ => {}
            }
        }
        if !any {
            break;
        }
    }
    used
}
