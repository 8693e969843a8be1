//! Function-level rewriting rules R2..R20 (documented in DESIGN.md).
use crate::types::*;
use crate::{norm, print, OutItem, Registry};
use proc_macro2::TokenStream;
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub enum Place<'a> {
    Free,
    Trait,
    Inherent(&'a Generics, &'a Type),
}

struct SelfSubst {
    ty: Type,
    assoc: Vec<(String, Type)>,
    rename: bool,
}
impl VisitMut for SelfSubst {
    fn visit_ident_mut(&mut self, i: &mut Ident) {
        if self.rename && i == "self" {
            *i = format_ident!("__self");
        }
    }
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Path(p) = t {
            if p.qself.is_none() && p.path.segments.len() == 2 && p.path.segments[0].ident == "Self" {
                let n = p.path.segments[1].ident.to_string();
                if let Some((_, ty)) = self.assoc.iter().find(|a| a.0 == n) {
                    *t = ty.clone();
                    return;
                }
            }
            if self.rename && p.path.is_ident("Self") {
                *t = self.ty.clone();
                return;
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        visit_mut::visit_path_mut(self, p);
        if self.rename && p.segments.first().map_or(false, |s| s.ident == "Self") {
            if let Type::Path(tp) = &self.ty {
                let mut seg = tp.path.segments.last().unwrap().clone();
                if let PathArguments::AngleBracketed(a) = &mut seg.arguments {
                    a.colon2_token = Some(Default::default());
                }
                p.segments[0] = seg;
            }
        }
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        if self.rename {
            m.tokens = subst_tokens(m.tokens.clone());
        }
    }
}
fn subst_tokens(ts: TokenStream) -> TokenStream {
    subst_tokens_to(ts, "__self")
}
fn subst_tokens_to(ts: TokenStream, to: &str) -> TokenStream {
    use proc_macro2::{Group, TokenTree};
    ts.into_iter()
        .map(|t| match t {
            TokenTree::Ident(i) if i == "self" => TokenTree::Ident(format_ident!("{}", to)),
            TokenTree::Group(g) => TokenTree::Group(Group::new(g.delimiter(), subst_tokens_to(g.stream(), to))),
            t => t,
        })
        .collect()
}

fn raw(s: &str) -> Stmt {
    parse_quote!(vp_raw!(#s);)
}
fn ph(s: &str) -> Stmt {
    parse_quote!(vp_ph!(#s);)
}

#[derive(PartialEq, Clone, Copy)]
enum It {
    No,
    Seq,
    Par,
}

struct Rw<'a> {
    reg: &'a Registry,
    path: String,
    cps: BTreeMap<String, (usize, ClosureKind)>,
    loops: usize,
    closures: usize,
    tmps: usize,
    lets: BTreeMap<String, usize>,
    notes: Vec<String>,
    calls: BTreeSet<String>,
    ptr_origin: Option<Expr>,
    vec_locals: BTreeSet<String>,
    types: BTreeMap<String, Type>,
    mut_self_matrix: bool,
    mut_iter_depth: usize,
    in_iter_mut_file: bool,
    in_fmt: bool,
    deque: bool,
    self_base: String,
}

const ADAPTERS: &[&str] = &["zip", "enumerate", "skip", "step_by", "take", "rev", "flatten", "cloned", "copied", "map", "chain", "peekable", "filter"];
const SINKS: &[&str] = &["collect", "for_each", "all", "any", "reduce", "fold", "max"];

fn unparen(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => unparen(&p.expr),
        Expr::Group(p) => unparen(&p.expr),
        e => e,
    }
}

impl<'a> Rw<'a> {
    fn unsupported(&mut self, s: String) {
        self.notes.push(format!("UNSUPPORTED {s}"));
    }

    /// `&v[a..b]`, `&mut v[a..b]` and `v[a..b].method(..)`: the slice between
    /// the bounds, which become obligations
    fn range_index(&mut self, e: &Expr) -> Option<Expr> {
        let is = |x: &Expr| matches!(unparen(x), Expr::Index(i) if matches!(unparen(&i.index), Expr::Range(_)));
        let conv = |x: &Expr, mu: bool| -> Option<Expr> {
            let Expr::Index(i) = unparen(x) else { return None };
            let Expr::Range(rg) = unparen(&i.index) else { return None };
            if !self.is_vecish(&i.expr) || !matches!(rg.limits, RangeLimits::HalfOpen(_)) {
                return None;
            }
            let v = &i.expr;
            let a: Expr = rg.start.as_ref().map_or(parse_quote!(0usize), |a| (**a).clone());
            let b: Expr = rg.end.as_ref().map_or(parse_quote!(#v.len()), |b| (**b).clone());
            Some(if mu { parse_quote!(vp_get_unchecked_mut_range(&mut #v, #a, #b)) } else { parse_quote!(vp_get_unchecked_range(&#v, #a, #b)) })
        };
        match e {
            Expr::Reference(r) if is(&r.expr) => {
                let x = conv(&r.expr, r.mutability.is_some());
                if x.is_none() {
                    self.unsupported("slice by a range".into());
                }
                x
            }
            Expr::MethodCall(m) if is(&m.receiver) => {
                let mu = match m.method.to_string().as_str() {
                    "clone_from_slice" | "iter_mut" | "get_unchecked_mut" | "swap" | "reverse" | "as_mut_ptr" => true,
                    "iter" | "len" | "is_empty" | "get_unchecked" | "first" => false,
                    _ => {
                        self.unsupported("slice by a range".into());
                        return None;
                    }
                };
                match conv(&m.receiver, mu) {
                    Some(x) => {
                        let mut m = m.clone();
                        *m.receiver = x;
                        Some(Expr::MethodCall(m))
                    }
                    None => {
                        self.unsupported("slice by a range".into());
                        None
                    }
                }
            }
            Expr::Index(_) if is(e) => {
                self.unsupported("slice by a range".into());
                None
            }
            _ => None,
        }
    }

    fn is_iter(&self, e: &Expr) -> It {
        match unparen(e) {
            Expr::Range(_) => It::Seq,
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                match n.as_str() {
                    "iter" | "iter_mut" | "into_iter" | "chars" | "lines" => It::Seq,
                    "par_iter" | "par_iter_mut" | "into_par_iter" => It::Par,
                    _ if self.reg.iter_fns.contains(&n) => It::Seq,
                    _ if ADAPTERS.contains(&n.as_str()) => self.is_iter(&m.receiver),
                    _ => It::No,
                }
            }
            _ => It::No,
        }
    }

    /// Some(true): a Result, Some(false): an Option, None: cannot tell
    fn result_like(&self, e: &Expr) -> Option<bool> {
        let by_ty = |t: &Type| {
            let s = norm(t);
            if s.starts_with("Result<") {
                Some(true)
            } else if s.starts_with("Option<") {
                Some(false)
            } else {
                None
            }
        };
        match unparen(e) {
            Expr::Path(_) => self.expr_ty(e).as_ref().and_then(by_ty),
            Expr::Call(c) => {
                let Expr::Path(p) = unparen(&c.func) else { return None };
                let n = p.path.segments.last()?.ident.to_string();
                match n.as_str() {
                    "Ok" | "Err" => Some(true),
                    "Some" => Some(false),
                    _ if self.reg.ret_res.contains(&n) && !self.reg.ret_opt.contains(&n) => Some(true),
                    _ if self.reg.ret_opt.contains(&n) && !self.reg.ret_res.contains(&n) => Some(false),
                    _ => None,
                }
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                match n.as_str() {
                    "ok_or" | "ok_or_else" | "map_err" => Some(true),
                    "ok" | "err" | "then" | "then_some" => Some(false),
                    "and_then" | "map" | "or_else" | "or" if self.is_iter(&m.receiver) == It::No => self.result_like(&m.receiver),
                    _ if n.starts_with("checked_") => Some(false),
                    "get" | "get_mut" | "first" | "last" | "first_mut" | "last_mut" if self.is_vecish(&m.receiver) => Some(false),
                    "get" | "get_mut" => None,
                    _ if self.reg.ret_res.contains(&n) && !self.reg.ret_opt.contains(&n) => Some(true),
                    _ if self.reg.ret_opt.contains(&n) && !self.reg.ret_res.contains(&n) => Some(false),
                    _ => None,
                }
            }
            _ => None,
        }
    }

    fn mutates(&self, e: &Expr) -> bool {
        match unparen(e) {
            Expr::MethodCall(m) => m.method == "iter_mut" || m.method.to_string().ends_with("_mut") || self.mutates(&m.receiver),
            _ => false,
        }
    }

    /// split `src.map(a).map(b)` into (src, [a, b])
    fn stages(&self, e: &Expr) -> (Expr, Vec<Expr>) {
        if let Expr::MethodCall(m) = unparen(e) {
            let n = m.method.to_string();
            if n == "map" && m.args.len() == 1 && self.is_iter(&m.receiver) == It::Seq {
                let (s, mut v) = self.stages(&m.receiver);
                v.push(m.args[0].clone());
                return (s, v);
            }
            if (n == "cloned" || n == "copied") && self.is_iter(&m.receiver) == It::Seq {
                let (s, mut v) = self.stages(&m.receiver);
                let c: Expr = if n == "cloned" { parse_quote!(|__e| __e.clone()) } else { parse_quote!(|__e| *__e) };
                v.push(c);
                return (s, v);
            }
        }
        (unparen(e).clone(), vec![])
    }

    fn source(&mut self, e: &Expr) -> Expr {
        match unparen(e) {
            Expr::Range(r) => {
                if let (Some(a), Some(b), RangeLimits::HalfOpen(_)) = (&r.start, &r.end, &r.limits) {
                    parse_quote!(vp_range(#a, #b))
                } else if let (Some(a), Some(b), RangeLimits::Closed(_)) = (&r.start, &r.end, &r.limits) {
                    parse_quote!(vp_range_incl(#a, #b))
                } else {
                    self.unsupported("range form".into());
                    e.clone()
                }
            }
            Expr::MethodCall(m) if ADAPTERS.contains(&m.method.to_string().as_str()) => {
                let mut m = m.clone();
                let r = self.source(&m.receiver);
                m.receiver = Box::new(r);
                for a in m.args.iter_mut() {
                    if self.is_iter(a) == It::Seq {
                        *a = self.source(&a.clone());
                    }
                }
                Expr::MethodCall(m)
            }
            e => e.clone(),
        }
    }

    /// apply one closure stage to `input`, returning statements and the result expression
    fn apply(&mut self, stage: &Expr, inputs: Vec<Expr>) -> Expr {
        let mut ss: Vec<Stmt> = vec![];
        match unparen(stage) {
            Expr::Closure(c) => {
                if c.inputs.len() != inputs.len() {
                    self.unsupported("closure arity".into());
                }
                for (p, i) in c.inputs.iter().zip(inputs) {
                    ss.push(parse_quote!(let #p = #i;));
                }
                let b = &c.body;
                if has_return(b) {
                    self.unsupported("return inside an inlined closure".into());
                }
                match &**b {
                    Expr::Block(bb) if bb.label.is_none() && bb.attrs.is_empty() => ss.extend(bb.block.stmts.clone()),
                    b => ss.push(Stmt::Expr(b.clone(), None)),
                }
                parse_quote!({ #(#ss)* })
            }
            f => parse_quote!(#f(#(#inputs),*)),
        }
    }

    fn lower_sink(&mut self, e: &Expr) -> Option<Expr> {
        let m = match unparen(e) {
            Expr::MethodCall(m) => m.clone(),
            _ => return None,
        };
        let name = m.method.to_string();
        if !SINKS.contains(&name.as_str()) || self.is_iter(&m.receiver) == It::No {
            return None;
        }
        if self.is_iter(&m.receiver) == It::Par {
            return Some(self.lower_par_sink(&m, &name));
        }
        if name == "max" && !(self.in_fmt && m.args.is_empty()) {
            return None;
        }
        let deque = std::mem::take(&mut self.deque);
        let (src0, stages) = self.stages(&m.receiver);
        let muts = self.mutates(&src0);
        let src = self.source(&src0);
        if name == "collect" && stages.is_empty() {
            let mut s: Expr = parse_quote!(#src.vp_collect());
            self.visit_expr_mut(&mut s);
            return Some(s);
        }
        let n = self.loops;
        self.loops += 1;
        if name == "reduce" {
            self.loops += 0;
        }
        let it = format_ident!("__it{}", n);
        let out = format_ident!("__out{}", n);
        let x = format_ident!("__x{}", n);
        let mut body: Vec<Stmt> = vec![];
        let mut cur: Expr = parse_quote!(#x);
        for (j, st) in stages.iter().enumerate() {
            let y = format_ident!("__y{}_{}", n, j);
            let r = self.apply(st, vec![cur]);
            body.push(parse_quote!(let #y = #r;));
            cur = parse_quote!(#y);
        }
        let key = format!("{}/loop{}", self.path, n);
        let mut pre: Vec<Stmt> = vec![];
        let mut post: Vec<Stmt> = vec![];
        let mut result: Option<Expr> = None;
        let mut cond: Expr = parse_quote!(#it.vp_more());
        match name.as_str() {
            "collect" => {
                let sn = format_ident!("__s{}", n);
                if deque {
                    pre.push(parse_quote!(let mut #out = vp_collect_deque(Ghost(#sn.len()));));
                    body.push(parse_quote!(#out.push_back(#cur);));
                } else {
                    pre.push(parse_quote!(let mut #out = vp_collect_vec(Ghost(#sn.len()));));
                    body.push(parse_quote!(#out.push(#cur);));
                }
                result = Some(parse_quote!(#out));
            }
            "for_each" => {
                let r = self.apply(&m.args[0], vec![cur]);
                body.push(parse_quote!(#r;));
            }
            "all" | "any" => {
                let all = name == "all";
                pre.push(parse_quote!(let mut #out: bool = #all;));
                let r = self.apply(&m.args[0], vec![cur]);
                body.push(parse_quote!(let __b = #r;));
                if all {
                    body.push(parse_quote!(if !__b { #out = false; }));
                    cond = parse_quote!(#out && #it.vp_more());
                } else {
                    body.push(parse_quote!(if __b { #out = true; }));
                    cond = parse_quote!(!#out && #it.vp_more());
                }
                result = Some(parse_quote!(#out));
            }
            "max" => {
                pre.push(parse_quote!(let mut #out: Option<usize> = None;));
                body.push(parse_quote!(#out = vp_opt_max(#out, #cur);));
                result = Some(parse_quote!(#out));
            }
            "fold" => {
                let init = &m.args[0];
                pre.push(parse_quote!(let mut #out = #init;));
                let r = self.apply(&m.args[1], vec![parse_quote!(#out), cur]);
                body.push(parse_quote!(#out = { #r };));
                result = Some(parse_quote!(#out));
            }
            "reduce" => {
                // first element, then a fold over the rest
                let some_body = body.clone();
                let mut first: Vec<Stmt> = vec![];
                first.push(parse_quote!(let #x = #it.vp_take_next();));
                first.push(raw(&format!("let ghost __j{n} = __k{n}; proof {{ __k{n} = __k{n} + 1; }}")));
                first.push(ph(&format!("{key}.first_begin")));
                first.extend(some_body);
                first.push(ph(&format!("{key}.first_end")));
                let firstval: Expr = parse_quote!({ #(#first)* #cur });
                let r = self.apply(&m.args[0], vec![parse_quote!(#out), cur.clone()]);
                body.push(parse_quote!(#out = { #r };));
                let whole = self.loop_parts(n, &key, &cond, &parse_quote!(#x), body);
                let raw0 = raw(&format!("let ghost __s{n} = __it{n}@; let ghost mut __k{n}: int = 0;"));
                let php = ph(&format!("{key}.pre"));
                let phq = ph(&format!("{key}.post"));
                let phi = ph(&format!("{key}.init"));
                let mut r: Expr = parse_quote!({
                    let mut #it = #src;
                    #raw0
                    #php
                    if !#it.vp_more() { None } else {
                        let mut #out = #firstval;
                        #phi
                        #(#whole)*
                        #phq
                        Some(#out)
                    }
                });
                self.visit_children(&mut r);
                return Some(r);
            }
            _ => {}
        }
        let whole = self.loop_parts(n, &key, &cond, &parse_quote!(#x), body);
        let mut stmts: Vec<Stmt> = vec![ph(&format!("{key}.pre"))];
        stmts.extend(self.coh_guard(muts, &whole));
        stmts.push(parse_quote!(let mut #it = #src;));
        stmts.push(raw(&format!("let ghost __s{n} = __it{n}@; let ghost mut __k{n}: int = 0;")));
        stmts.extend(pre);
        stmts.push(ph(&format!("{key}.init")));
        stmts.extend(whole);
        stmts.extend(post.drain(..));
        stmts.push(ph(&format!("{key}.post")));
        let mut r: Expr = match result {
            Some(res) => parse_quote!({ #(#stmts)* #res }),
            None => parse_quote!({ #(#stmts)* }),
        };
        if muts {
            self.mut_iter_depth += 1;
        }
        self.visit_children(&mut r);
        if muts {
            self.mut_iter_depth -= 1;
        }
        Some(r)
    }

    /// A loop over `&mut` elements of the matrix that runs caller code: the
    /// matrix must be coherent when it starts (its shape and length cannot
    /// change while the elements are borrowed).
    fn coh_guard(&self, muts: bool, body: &[Stmt]) -> Option<Stmt> {
        if !(self.mut_self_matrix && muts) {
            return None;
        }
        let t = quote!(#(#body)*).to_string();
        let caller = self.cps.keys().any(|k| t.contains(&format!("{k} ("))) || t.contains("clone") || t.contains("+=") || t.contains("-=") || t.contains("*=") || t.contains("/=") || t.contains("%=");
        if caller {
            Some(raw("assert(self.coh()); //@C02,C01 caller code runs in this loop and may panic: the matrix must be coherent"))
        } else {
            None
        }
    }

    fn loop_parts(&mut self, n: usize, key: &str, cond: &Expr, pat: &Pat, body: Vec<Stmt>) -> Vec<Stmt> {
        let it = format_ident!("__it{}", n);
        let ls = format!("{key}:d{n}");
        let beg = ph(&format!("{key}.begin"));
        let end = ph(&format!("{key}.end"));
        let step = raw(&format!("let ghost __j{n} = __k{n}; proof {{ __k{n} = __k{n} + 1; }}"));
        let attr = raw("#[verifier::loop_isolation(false)]");
        vec![
            attr,
            Stmt::Expr(
                parse_quote!(while #cond {
                    vp_ls!(#ls);
                    let #pat = #it.vp_take_next();
                    #step
                    #beg
                    #(#body)*
                    #end
                }),
                None,
            ),
            raw(&format!("proof {{ assert(__it{n}@.len() == 0 ==> __k{n} == __s{n}.len()); }}")),
        ]
    }

    fn lower_par_sink(&mut self, m: &ExprMethodCall, name: &str) -> Expr {
        let tr = |s: &Self, e: &Expr| -> TokenStream {
            if let Expr::Path(p) = unparen(e) {
                if let Some(id) = p.path.get_ident() {
                    if let Some((k, _)) = s.cps.get(&id.to_string()) {
                        let t = format_ident!("__tr{}", k);
                        return quote!(, Tracked(&mut *#t));
                    }
                }
            }
            quote!(, Tracked(&mut vp_trace()))
        };
        match name {
            "for_each" => {
                let r = &m.receiver;
                let f = &m.args[0];
                let t = tr(self, f);
                let mut e: Expr = parse_quote!(#r.vp_par_for_each(#f #t));
                if self.mut_self_matrix {
                    let rw = raw("assert(self.coh()); //@C02,C01 caller code runs here and may panic: the matrix must be coherent");
                    e = parse_quote!({ #rw #e });
                }
                self.visit_children(&mut e);
                e
            }
            "collect" => {
                if let Expr::MethodCall(mm) = unparen(&m.receiver) {
                    if mm.method == "map" {
                        let r = &mm.receiver;
                        let f = &mm.args[0];
                        let t = tr(self, f);
                        let mut e: Expr = parse_quote!(#r.vp_par_map_collect(#f #t));
                        self.visit_children(&mut e);
                        return e;
                    }
                }
                let r = &m.receiver;
                let mut e: Expr = parse_quote!(#r.vp_par_collect());
                self.visit_children(&mut e);
                e
            }
            _ => {
                self.unsupported(format!("parallel sink {name}"));
                Expr::MethodCall(m.clone())
            }
        }
    }

    fn lower_for(&mut self, f: &ExprForLoop) -> Expr {
        let n = self.loops;
        self.loops += 1;
        let key = format!("{}/loop{}", self.path, n);
        let muts = self.mutates(&f.expr);
        let it = format_ident!("__it{}", n);
        let src: Expr = if self.is_iter(&f.expr) != It::No {
            self.source(&f.expr)
        } else {
            let e = unparen(&f.expr);
            match e {
                Expr::Reference(_) => parse_quote!((#e).vp_into_iter()),
                _ => parse_quote!(#e.vp_into_iter()),
            }
        };
        let cond: Expr = parse_quote!(#it.vp_more());
        let body = f.body.stmts.clone();
        let parts = self.loop_parts(n, &key, &cond, &f.pat, body);
        let raw0 = raw(&format!("let ghost __s{n} = __it{n}@; let ghost mut __k{n}: int = 0;"));
        let p0 = ph(&format!("{key}.pre"));
        let pi = ph(&format!("{key}.init"));
        let p1 = ph(&format!("{key}.post"));
        if f.label.is_some() {
            self.unsupported("labelled for loop".into());
        }
        let guard = self.coh_guard(muts, &parts).into_iter().collect::<Vec<Stmt>>();
        let mut r: Expr = parse_quote!({
            #p0
            #(#guard)*
            let mut #it = #src;
            #raw0
            #pi
            #(#parts)*
            #p1
        });
        if muts {
            self.mut_iter_depth += 1;
        }
        self.visit_children(&mut r);
        if muts {
            self.mut_iter_depth -= 1;
        }
        r
    }

    fn visit_children(&mut self, e: &mut Expr) {
        if let Expr::Block(b) = e {
            self.visit_block_mut(&mut b.block);
        } else {
            visit_mut::visit_expr_mut(self, e);
            self.post(e);
        }
    }

    fn expr_ty(&self, e: &Expr) -> Option<Type> {
        match unparen(e) {
            Expr::Path(p) => p.path.get_ident().and_then(|i| self.types.get(&i.to_string()).cloned()),
            Expr::Reference(r) if r.mutability.is_none() => {
                let t = self.expr_ty(&r.expr)?;
                Some(parse_quote!(&#t))
            }
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => match self.expr_ty(&u.expr)? {
                Type::Reference(r) => Some(*r.elem),
                _ => None,
            },
            Expr::MethodCall(m) if m.method == "clone" => match self.expr_ty(&m.receiver)? {
                Type::Reference(r) => Some(*r.elem),
                t => Some(t),
            },
            _ => None,
        }
    }

    fn is_vecish(&self, e: &Expr) -> bool {
        match unparen(e) {
            Expr::Field(f) => matches!(&f.member, Member::Named(n) if n == "data"),
            Expr::Path(p) => p.path.get_ident().map_or(false, |i| self.vec_locals.contains(&i.to_string())),
            Expr::Reference(r) => self.is_vecish(&r.expr),
            Expr::MethodCall(m) => ["as_slice", "as_mut_slice"].contains(&m.method.to_string().as_str()) && self.is_vecish(&m.receiver),
            _ => false,
        }
    }

    fn is_self_data(&self, e: &Expr) -> bool {
        norm(unparen(e)) == "self.data"
    }

    /// post-order expression rules
    fn post(&mut self, e: &mut Expr) {
        // macros in expression position
        if let Expr::Macro(m) = e {
            let n = m.mac.path.segments.last().unwrap().ident.to_string();
            match n.as_str() {
                "panic" | "unreachable" | "todo" | "unimplemented" => {
                    let key = format!("{}/panic", self.path);
                    let p = ph(&key);
                    *e = parse_quote!({ #p vp_panic() });
                }
                "debug_assert" | "debug_assert_eq" | "debug_assert_ne" | "assert" | "assert_eq" | "assert_ne" => {
                    let args: syn::Result<punctuated::Punctuated<Expr, Token![,]>> = m.mac.parse_body_with(punctuated::Punctuated::parse_terminated);
                    match args {
                        Ok(a) if !a.is_empty() => {
                            let key = format!("{}/panic", self.path);
                            let p = ph(&key);
                            let c: Expr = if n.ends_with("_eq") {
                                let (x, y) = (&a[0], &a[1]);
                                parse_quote!(#x == #y)
                            } else if n.ends_with("_ne") {
                                let (x, y) = (&a[0], &a[1]);
                                parse_quote!(#x != #y)
                            } else {
                                a[0].clone()
                            };
                            *e = parse_quote!(if !(#c) { #p vp_panic() });
                        }
                        _ => self.unsupported(format!("macro {n}!")),
                    }
                }
                "vec" => {
                    // `vec![x; n]` allocates n elements
                    struct Rep(Expr, Expr);
                    impl syn::parse::Parse for Rep {
                        fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
                            let a = i.parse()?;
                            let _: Token![;] = i.parse()?;
                            Ok(Rep(a, i.parse()?))
                        }
                    }
                    if let Ok(Rep(mut a, mut b)) = m.mac.parse_body::<Rep>() {
                        self.visit_expr_mut(&mut a);
                        self.visit_expr_mut(&mut b);
                        *e = parse_quote!(vp_vec_repeat(#a, #b));
                    }
                }
                "format_args" if self.in_fmt => match crate::fmtmod::format_args(&m.mac) {
                    Some(mut x) => {
                        self.visit_expr_mut(&mut x);
                        *e = x;
                    }
                    None => self.unsupported("format_args! form".into()),
                },
                "vp_raw" | "vp_ph" | "vp_ls" | "vp_cl" => {}
                _ => self.unsupported(format!("macro {n}!")),
            }
            return;
        }
        match e {
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                self.calls.insert(n.clone());
                match n.as_str() {
                    "iter" | "iter_mut" | "into_iter" | "par_iter" | "par_iter_mut" | "into_par_iter" => {
                        m.method = format_ident!("vp_{}", n);
                    }
                    "get_unchecked" | "get_unchecked_mut" if m.args.len() == 1 && self.is_vecish(&m.receiver) => {
                        let mu = n.ends_with("_mut");
                        let r = &m.receiver;
                        let rr: Expr = if mu { parse_quote!(&mut #r) } else { parse_quote!(&#r) };
                        if let Expr::Range(rg) = unparen(&m.args[0]) {
                            let f = format_ident!("vp_{}_range", n);
                            if let (Some(a), Some(b), RangeLimits::HalfOpen(_)) = (&rg.start, &rg.end, &rg.limits) {
                                *e = parse_quote!(#f(#rr, #a, #b));
                            } else {
                                self.unsupported("get_unchecked range form".into());
                            }
                        } else {
                            let f = format_ident!("vp_{}", n);
                            let a = &m.args[0];
                            *e = parse_quote!(#f(#rr, #a));
                        }
                    }
                    "write_fmt" if self.in_fmt && m.args.len() == 1 => m.method = format_ident!("vp_write_fmt"),
                    "chars" | "lines" | "to_string" | "to_owned" | "count" if self.in_fmt && m.args.is_empty() => m.method = format_ident!("vp_{}", n),
                    "repeat" if self.in_fmt => m.method = format_ident!("vp_repeat"),
                    "swap" if m.args.len() == 2 && norm(&m.receiver).ends_with(".data") => {
                        let (r, a, b) = (&m.receiver, &m.args[0], &m.args[1]);
                        *e = parse_quote!(vp_vec_swap(&mut #r, #a, #b));
                    }
                    "first" if m.args.is_empty() => m.method = format_ident!("vp_first"),
                    "clone_from" if m.args.len() == 1 && self.is_vecish(&m.receiver) => {
                        let (r, a) = (&m.receiver, &m.args[0]);
                        let call: Expr = parse_quote!(vp_vec_clone_from(&mut #r, __s));
                        let mut ss: Vec<Stmt> = vec![parse_quote!(let __s = #a;)];
                        if self.mut_self_matrix && self.is_self_data(r) {
                            ss.push(raw("assert(vp_panic_safe_resize(self.shape, self.data@.len(), __s@.len())); //@C02,C01 T::clone() or an element's Drop may panic here: shape must match every intermediate length"));
                        } else if self.mut_self_matrix {
                            ss.push(raw("assert(self.coh()); //@C02,C01 T::clone() may panic here: the matrix must be coherent"));
                        }
                        *e = parse_quote!({ #(#ss)* #call });
                    }
                    "clone_from_slice" => m.method = format_ident!("vp_clone_from_slice"),
                    "unwrap_unchecked" => m.method = format_ident!("vp_unwrap_unchecked"),
                    "as_mut_ptr" => {
                        let r = (*m.receiver).clone();
                        if let Some(o) = &self.ptr_origin {
                            if norm(o) != norm(&r) {
                                self.unsupported("several as_mut_ptr origins".into());
                            }
                        }
                        *e = parse_quote!(vp_as_mut_ptr(&#r));
                        self.ptr_origin = Some(r);
                    }
                    "resize_with" if m.args.len() == 2 => {
                        let r = &m.receiver;
                        let size = &m.args[0];
                        let f = norm(&m.args[1]);
                        let ty: Option<TokenStream> = f.strip_suffix("::default").map(|t| t.parse().unwrap());
                        let is_self = self.is_self_data(r);
                        match ty {
                            Some(t) => {
                                let call: Expr = if f == "Default::default" { parse_quote!(vp_resize_with_default(&mut #r, __n)) } else { parse_quote!(vp_resize_with_default::<#t>(&mut #r, __n)) };
                                let mut ss: Vec<Stmt> = vec![parse_quote!(let __n = #size;)];
                                if self.mut_self_matrix && is_self {
                                    ss.push(raw("assert(vp_panic_safe_resize(self.shape, self.data@.len(), __n as nat)); //@C02,C01 T::default() or an element's Drop may panic here: shape must match every intermediate length"));
                                } else if self.mut_self_matrix {
                                    ss.push(raw("assert(self.coh()); //@C02,C01 T::default() may panic here: the matrix must be coherent"));
                                }
                                *e = parse_quote!({ #(#ss)* #call });
                            }
                            None => self.unsupported("resize_with initializer".into()),
                        }
                    }
                    "truncate" if m.args.len() == 1 && self.mut_self_matrix && self.is_self_data(&m.receiver) => {
                        let a = &m.args[0];
                        let r = &m.receiver;
                        let rw = raw("assert(vp_panic_safe_truncate(self.shape, self.data@.len(), __n as nat)); //@C02,C01 an element's Drop may panic here: shape must already match the truncated length");
                        *e = parse_quote!({ let __n = #a; #rw #r.truncate(__n) });
                    }
                    "clear" if self.is_self_data(&m.receiver) && self.mut_self_matrix => {
                        let r = &m.receiver;
                        let rw = raw("assert(vp_panic_safe_truncate(self.shape, self.data@.len(), 0)); //@C02,C01 an element's Drop may panic here: shape must already be empty");
                        *e = parse_quote!({ #rw #r.clear() });
                    }
                    "extend" | "extend_from_slice" | "resize" | "drain" | "retain" | "dedup" | "splice" if self.is_self_data(&m.receiver) && self.mut_self_matrix => {
                        let old = e.clone();
                        let rw = raw("assert(vp_panic_safe_unknown(self.shape)); //@C02,C01 caller code may panic while self.data has an intermediate length");
                        if let Expr::MethodCall(m) = &old {
                            let mut m = m.clone();
                            if n == "extend" || n == "extend_from_slice" {
                                m.method = format_ident!("vp_{}", n);
                            }
                            *e = parse_quote!({ #rw #m });
                        }
                    }
                    "extend" | "extend_from_slice" => m.method = format_ident!("vp_{}", n),
                    _ => {
                        // traced crate functions take an extra ghost trace
                        if let Some(ks) = self.reg.traced.get(&n) {
                            if self.is_iter(&m.receiver) == It::No && !norm(&m.receiver).starts_with("vp_") {
                                for _ in ks {
                                    m.args.push(parse_quote!(Tracked(&mut vp_trace())));
                                }
                            }
                        }
                    }
                }
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = unparen(&c.func) {
                    let full = norm(&p.path);
                    if let Some(id) = p.path.segments.last() {
                        self.calls.insert(id.ident.to_string());
                    }
                    if let Some(id) = p.path.get_ident() {
                        if let Some((k, kind)) = self.cps.get(&id.to_string()) {
                            let f = format_ident!("{}{}", kind.shim, if kind.kind == "Fn" { "f" } else { "" });
                            let t = format_ident!("__tr{}", k);
                            let args = &c.args;
                            let fr: Expr = if kind.kind == "Fn" { parse_quote!(&#id) } else { parse_quote!(&mut #id) };
                            let call: Expr = parse_quote!(#f(#fr, #args, Tracked(&mut *#t)));
                            if self.mut_self_matrix && self.mut_iter_depth == 0 {
                                let rw = raw("assert(self.coh()); //@C02,C01 caller code may panic here: the matrix must be coherent");
                                *e = parse_quote!({ #rw #call });
                            } else {
                                *e = call;
                            }
                            return;
                        }
                    }
                    let tail = p.path.segments.last().unwrap().ident.to_string();
                    if (tail == "size_of" || tail == "align_of") && c.args.is_empty() {
                        let a = &p.path.segments.last().unwrap().arguments;
                        let f = format_ident!("vp_{}", tail);
                        *e = parse_quote!(#f #a());
                        return;
                    }
                    if self.in_fmt && full == "::alloc::fmt::format" && c.args.len() == 1 {
                        let a = &c.args[0];
                        *e = parse_quote!(vp_format(#a));
                        return;
                    }
                    if self.in_fmt && full == "Vec::with_capacity" {
                        // one text per element is held: that it fits in memory is not an obligation
                        let args = &c.args;
                        *e = parse_quote!(vp_with_capacity_any(#args));
                        return;
                    }
                    if full == "Vec::with_capacity" {
                        let args = &c.args;
                        *e = parse_quote!(vp_with_capacity(#args));
                        return;
                    }
                    if full.ends_with("ptr::swap") || full.ends_with("ptr::swap_nonoverlapping") || full.ends_with("mem::swap") && false {
                        match self.ptr_origin.clone() {
                            Some(o) => {
                                let f = format_ident!("vp_ptr_{}", tail);
                                let args = &c.args;
                                *e = parse_quote!(#f(&mut #o, #args));
                            }
                            None => self.unsupported("pointer swap without a known buffer".into()),
                        }
                    } else if full.starts_with("ptr::") {
                        self.unsupported(format!("{full}"));
                    } else if p.path.segments.len() >= 2 && self.reg.traced.contains_key(&tail) {
                        for _ in &self.reg.traced[&tail] {
                            c.args.push(parse_quote!(Tracked(&mut vp_trace())));
                        }
                    }
                }
            }
            Expr::Cast(c) => {
                if let Type::Ptr(_) = &*c.ty {
                    // `recv.get_mut(i)? as *mut T`
                    if let Expr::Try(t) = unparen(&c.expr) {
                        if let Expr::MethodCall(m) = unparen(&t.expr) {
                            if m.method == "get_mut" && m.args.len() == 1 && norm(&m.receiver) == "self" {
                                let a = &m.args[0];
                                self.ptr_origin = Some(parse_quote!(self.data));
                                *e = parse_quote!(vp_get_mut_ptr(self, #a)?);
                                return;
                            }
                        }
                    }
                    self.unsupported("cast to a raw pointer".into());
                }
            }
            Expr::Assign(a) => {
                if self.mut_self_matrix && self.is_self_data(&a.left) {
                    let r = &a.right;
                    let rw = raw("assert(self.data@.len() == 0 || self.shape.major * self.shape.minor == __d@.len()); //@C02,C01 an element's Drop may panic here: shape must already match");
                    *e = parse_quote!({ let __d = #r; #rw self.data = __d; });
                }
            }
            Expr::Binary(b) => {
                let opname = match b.op {
                    BinOp::AddAssign(_) => "add_assign",
                    BinOp::SubAssign(_) => "sub_assign",
                    BinOp::MulAssign(_) => "mul_assign",
                    BinOp::DivAssign(_) => "div_assign",
                    BinOp::RemAssign(_) => "rem_assign",
                    BinOp::Add(_) => "add",
                    BinOp::Sub(_) => "sub",
                    BinOp::Mul(_) => "mul",
                    BinOp::Div(_) => "div",
                    BinOp::Rem(_) => "rem",
                    BinOp::Eq(_) | BinOp::Ne(_) if self.is_vecish(&b.left) && self.is_vecish(&b.right) => {
                        let (l, r) = (&b.left, &b.right);
                        let neg = matches!(b.op, BinOp::Ne(_));
                        *e = if neg { parse_quote!(!vp_vec_eq(&#l, &#r)) } else { parse_quote!(vp_vec_eq(&#l, &#r)) };
                        return;
                    }
                    _ => return,
                };
                // operators between matrices resolve to the extracted operator functions
                let (lt, rt) = (self.expr_ty(&b.left), self.expr_ty(&b.right));
                if let (Some(l), Some(r)) = (lt, rt) {
                    if let (Some(k1), Some(k2)) = (mat_kind(&l), mat_kind(&r)) {
                        if let Some(f) = self.reg.ops.get(&(opname.to_string(), k1, k2)) {
                            let fi = format_ident!("{}", f);
                            self.calls.insert(f.clone());
                            let (l, r) = (&b.left, &b.right);
                            *e = if opname.ends_with("assign") {
                                // *x op= y
                                let x: Expr = match unparen(l) {
                                    Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => (*u.expr).clone(),
                                    l => parse_quote!(&mut #l),
                                };
                                parse_quote!(#fi(#x, #r))
                            } else {
                                parse_quote!(#fi(#l, #r))
                            };
                        }
                        return;
                    }
                }
                if opname.ends_with("_assign") {
                    if let Expr::Unary(u) = unparen(&b.left) {
                        if matches!(u.op, UnOp::Deref(_)) {
                            let f = format_ident!("vp_{}", opname);
                            let (x, r) = (&u.expr, &b.right);
                            *e = parse_quote!(#f(#x, #r));
                        }
                    }
                }
            }
            _ => {}
        }
    }

    fn note_local(&mut self, l: &Local) {
        if let Some(init) = &l.init {
            let s = norm(&init.expr);
            let id = match &l.pat {
                Pat::Ident(p) => Some(p.ident.to_string()),
                Pat::Type(t) => match &*t.pat {
                    Pat::Ident(p) => Some(p.ident.to_string()),
                    _ => None,
                },
                _ => None,
            };
            if let Some(id) = id {
                if s.starts_with("vec!") || s.starts_with("Vec::") || s.contains(".collect()") || s.contains("vp_collect()") || s.starts_with("&self.data") || s.starts_with("&mutself.data") || s == "row.into()" || s.contains("mem::take(&mut") && s.ends_with(".data)") || s == "self.data" || s.ends_with(".data.clone()") {
                    self.vec_locals.insert(id);
                }
            }
        }
    }
}

fn has_return(e: &Expr) -> bool {
    struct R(bool);
    impl syn::visit::Visit<'_> for R {
        fn visit_expr_return(&mut self, _: &ExprReturn) {
            self.0 = true
        }
        fn visit_expr_try(&mut self, _: &ExprTry) {
            self.0 = true
        }
        fn visit_expr_closure(&mut self, _: &ExprClosure) {}
    }
    let mut r = R(false);
    syn::visit::Visit::visit_expr(&mut r, e);
    r.0
}

/// R27: a call of a combinator of Option, Result or bool with a closure literal -> the
/// `match` it stands for. Only those whose receiver type the argument list decides.
fn combinator(m: &ExprMethodCall, kind: Option<bool>) -> Option<Expr> {
    let cl: Vec<Option<&ExprClosure>> = m
        .args
        .iter()
        .map(|a| match unparen(a) {
            Expr::Closure(c) if !has_return(&c.body) && c.asyncness.is_none() => Some(c),
            _ => None,
        })
        .collect();
    let r = &m.receiver;
    let n = m.method.to_string();
    let pat = |c: &ExprClosure| match &c.inputs[0] {
        Pat::Type(t) => (*t.pat).clone(),
        p => p.clone(),
    };
    Some(match (n.as_str(), cl.as_slice()) {
        ("map_or", [_, Some(c)]) if c.inputs.len() == 1 => {
            let (d, p, b) = (&m.args[0], pat(c), &c.body);
            parse_quote!(match #r { None => #d, Some(#p) => #b })
        }
        ("map_or_else", [Some(d), Some(c)]) if d.inputs.is_empty() && c.inputs.len() == 1 => {
            let (d, p, b) = (&d.body, pat(c), &c.body);
            parse_quote!(match #r { None => #d, Some(#p) => #b })
        }
        ("map_or_else", [Some(d), Some(c)]) if d.inputs.len() == 1 && c.inputs.len() == 1 => {
            let (q, d, p, b) = (pat(d), &d.body, pat(c), &c.body);
            parse_quote!(match #r { Err(#q) => #d, Ok(#p) => #b })
        }
        ("is_some_and", [Some(c)]) if c.inputs.len() == 1 => {
            let (p, b) = (pat(c), &c.body);
            parse_quote!(match #r { None => false, Some(#p) => #b })
        }
        ("is_none_or", [Some(c)]) if c.inputs.len() == 1 => {
            let (p, b) = (pat(c), &c.body);
            parse_quote!(match #r { None => true, Some(#p) => #b })
        }
        ("is_ok_and", [Some(c)]) if c.inputs.len() == 1 => {
            let (p, b) = (pat(c), &c.body);
            parse_quote!(match #r { Err(_) => false, Ok(#p) => #b })
        }
        ("is_err_and", [Some(c)]) if c.inputs.len() == 1 => {
            let (p, b) = (pat(c), &c.body);
            parse_quote!(match #r { Ok(_) => false, Err(#p) => #b })
        }
        ("map_err", [Some(c)]) if c.inputs.len() == 1 => {
            let (p, b) = (pat(c), &c.body);
            parse_quote!(match #r { Ok(__v) => Ok(__v), Err(#p) => Err(#b) })
        }
        ("ok_or_else", [Some(c)]) if c.inputs.is_empty() => {
            let b = &c.body;
            parse_quote!(match #r { Some(__v) => Ok(__v), None => Err(#b) })
        }
        ("unwrap_or_else", [Some(c)]) if c.inputs.is_empty() => {
            let b = &c.body;
            parse_quote!(match #r { Some(__v) => __v, None => #b })
        }
        ("unwrap_or_else", [Some(c)]) if c.inputs.len() == 1 => {
            let (p, b) = (pat(c), &c.body);
            parse_quote!(match #r { Ok(__v) => __v, Err(#p) => #b })
        }
        ("or_else", [Some(c)]) if c.inputs.is_empty() => {
            let b = &c.body;
            parse_quote!(match #r { Some(__v) => Some(__v), None => #b })
        }
        ("or_else", [Some(c)]) if c.inputs.len() == 1 => {
            let (p, b) = (pat(c), &c.body);
            parse_quote!(match #r { Ok(__v) => Ok(__v), Err(#p) => #b })
        }
        ("then", [Some(c)]) if c.inputs.is_empty() => {
            let b = &c.body;
            parse_quote!(if #r { Some(#b) } else { None })
        }
        ("map" | "and_then", [x]) if kind.is_some() => {
            let res = kind.unwrap();
            let (p, b): (Pat, Expr) = match (x, unparen(&m.args[0])) {
                (Some(c), _) if c.inputs.len() == 1 => (pat(c), (*c.body).clone()),
                (None, Expr::Path(f)) => (parse_quote!(__v), parse_quote!(#f(__v))),
                _ => return None,
            };
            match (n == "map", res) {
                (true, true) => parse_quote!(match #r { Ok(#p) => Ok(#b), Err(__e) => Err(__e) }),
                (true, false) => parse_quote!(match #r { Some(#p) => Some(#b), None => None }),
                (false, true) => parse_quote!(match #r { Ok(#p) => #b, Err(__e) => Err(__e) }),
                (false, false) => parse_quote!(match #r { Some(#p) => #b, None => None }),
            }
        }
        _ => return None,
    })
}

impl<'a> VisitMut for Rw<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let old = std::mem::take(&mut b.stmts);
        let mut new: Vec<Stmt> = vec![];
        for mut s in old {
            match &mut s {
                Stmt::Local(l) => {
                    self.note_local(l);
                    visit_mut::visit_local_mut(self, l);
                    // R3: array patterns
                    if let (Pat::Slice(ps), Some(init)) = (&l.pat, &l.init) {
                        if ps.elems.iter().all(|p| matches!(p, Pat::Ident(_))) {
                            let t = format_ident!("__arr{}", self.tmps);
                            self.tmps += 1;
                            let e = &init.expr;
                            new.push(parse_quote!(let #t = #e;));
                            for (i, p) in ps.elems.iter().enumerate() {
                                new.push(parse_quote!(let #p = #t[#i];));
                            }
                            continue;
                        }
                    }
                    let name = match &l.pat {
                        Pat::Ident(p) => Some(p.ident.to_string()),
                        _ => None,
                    };
                    new.push(s);
                    if let Some(n) = name {
                        if !n.starts_with("__") {
                            let c = self.lets.entry(n.clone()).or_insert(0);
                            let k = if *c == 0 { String::new() } else { format!("#{c}") };
                            *c += 1;
                            new.push(ph(&format!("{}/let:{}{}", self.path, n, k)));
                        }
                    }
                    continue;
                }
                Stmt::Expr(e, semi) => {
                    // R2: destructuring assignment
                    if let Expr::Assign(a) = e {
                        if let (Expr::Tuple(l), Expr::Tuple(r)) = (unparen(&a.left), unparen(&a.right)) {
                            if l.elems.len() == r.elems.len() {
                                let mut names = vec![];
                                for x in r.elems.iter() {
                                    let t = format_ident!("__t{}", self.tmps);
                                    self.tmps += 1;
                                    let mut x = x.clone();
                                    self.visit_expr_mut(&mut x);
                                    new.push(parse_quote!(let #t = #x;));
                                    names.push(t);
                                }
                                for (x, t) in l.elems.iter().zip(names) {
                                    new.push(parse_quote!(#x = #t;));
                                }
                                continue;
                            }
                        }
                        if matches!(unparen(&a.left), Expr::Tuple(_)) {
                            self.unsupported("destructuring assignment".into());
                        }
                    }
                    self.visit_expr_mut(e);
                    // a for-loop that became a block stays a statement
                    let _ = semi;
                    new.push(s);
                }
                Stmt::Macro(m) => {
                    let n = m.mac.path.segments.last().unwrap().ident.to_string();
                    if n.starts_with("vp_") {
                        new.push(s);
                    } else {
                        let mac = m.mac.clone();
                        let semi = m.semi_token;
                        let mut e = Expr::Macro(ExprMacro { attrs: vec![], mac });
                        self.post(&mut e);
                        new.push(Stmt::Expr(e, semi.or_else(|| None)));
                    }
                }
                Stmt::Item(i) => {
                    match i {
                        Item::Use(_) => continue,
                        Item::Const(_) => {}
                        _ => self.unsupported("nested item".into()),
                    }
                    new.push(s);
                }
            }
        }
        b.stmts = new;
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Some(r) = self.lower_sink(e) {
            *e = r;
            return;
        }
        if let Expr::Path(p) = e {
            let f = norm(&p.path);
            if self.in_fmt && (f == "String::from" || f == "ToString::to_string" || f == "str::to_string" || f == "ToOwned::to_owned" || f == "str::to_owned") {
                *e = parse_quote!(vp_string_from);
                return;
            }
            if f == "NonZero::<usize>::MIN" || f == "NonZeroUsize::MIN" {
                *e = parse_quote!(vp_nz_min());
                return;
            }
        }
        if self.in_fmt {
            if let Expr::Call(c) = e {
                let f = norm(&c.func);
                if f == "::alloc::__export::must_use" && c.args.len() == 1 {
                    let mut x = c.args[0].clone();
                    if let Expr::Block(b) = &x {
                        if let (1, Some(Stmt::Expr(y, None))) = (b.block.stmts.len(), b.block.stmts.first()) {
                            x = y.clone();
                        }
                    }
                    self.visit_expr_mut(&mut x);
                    *e = x;
                    return;
                }
                let own = if f == "Self" { self.self_base.clone() } else { f };
                if self.reg.deques.contains(&own) && c.args.len() == 1 && matches!(unparen(&c.args[0]), Expr::MethodCall(m) if m.method == "collect") {
                    self.deque = true;
                }
            }
            if let Expr::MethodCall(m) = e {
                // which style is applied when colours are supported is not modelled
                if m.method == "if_supports_color" && m.args.len() == 2 {
                    let mut r = (*m.receiver).clone();
                    self.visit_expr_mut(&mut r);
                    *e = parse_quote!(vp_if_supports_color(&#r));
                    return;
                }
            }
        }
        if let Some(x) = self.range_index(e) {
            *e = x;
        }
        if let Expr::Match(m) = e {
            if let Some(n) = unguard(m) {
                *m = n;
            }
        }
        if let Expr::MethodCall(m) = e {
            if let Some(x) = { let k = self.result_like(&m.receiver); combinator(m, k) } {
                *e = x;
            }
        }
        match e {
            Expr::ForLoop(f) => {
                let f = f.clone();
                *e = self.lower_for(&f);
                return;
            }
            Expr::While(w) if matches!(w.body.stmts.first(), Some(Stmt::Macro(m)) if m.mac.path.is_ident("vp_ls")) => {
                // a loop this tool generated: already numbered
                self.visit_expr_mut(&mut w.cond);
                self.visit_block_mut(&mut w.body);
                return;
            }
            Expr::While(w) => {
                let n = self.loops;
                self.loops += 1;
                let key = format!("{}/loop{}", self.path, n);
                self.visit_expr_mut(&mut w.cond);
                self.visit_block_mut(&mut w.body);
                let ls = format!("{key}:n");
                w.body.stmts.insert(0, parse_quote!(vp_ls!(#ls);));
                w.body.stmts.insert(1, ph(&format!("{key}.begin")));
                let (p0, p1, at) = (ph(&format!("{key}.pre")), ph(&format!("{key}.post")), raw("#[verifier::loop_isolation(false)]"));
                w.body.stmts.push(ph(&format!("{key}.end")));
                let w = w.clone();
                *e = parse_quote!({ #p0 #at #w #p1 });
                return;
            }
            Expr::Loop(w) => {
                let n = self.loops;
                self.loops += 1;
                let key = format!("{}/loop{}", self.path, n);
                self.visit_block_mut(&mut w.body);
                let ls = format!("{key}:n");
                w.body.stmts.insert(0, parse_quote!(vp_ls!(#ls);));
                w.body.stmts.insert(1, ph(&format!("{key}.begin")));
                w.body.stmts.push(ph(&format!("{key}.end")));
                let (p0, at) = (ph(&format!("{key}.pre")), raw("#[verifier::loop_isolation(false)]"));
                let p1 = ph(&format!("{key}.post"));
                let w = w.clone();
                *e = parse_quote!({ #p0 #at #w #p1 });
                return;
            }
            Expr::Closure(c) => {
                // a closure kept as an exec closure (not inlined)
                let n = self.closures;
                self.closures += 1;
                let mut names = vec![];
                let mut pre: Vec<Stmt> = vec![];
                for (i, p) in c.inputs.iter().enumerate() {
                    let (pat, ty) = match p {
                        Pat::Type(t) => ((*t.pat).clone(), Some((*t.ty).clone())),
                        p => (p.clone(), None),
                    };
                    let _ = ty;
                    match &pat {
                        Pat::Ident(pi) if pi.subpat.is_none() => names.push(pi.ident.to_string()),
                        other => {
                            let id = format_ident!("__p{}", i);
                            names.push(id.to_string());
                            pre.push(parse_quote!(let #other = #id;));
                        }
                    }
                }
                let mut body = (*c.body).clone();
                self.visit_expr_mut(&mut body);
                let stmts: Vec<Stmt> = match body {
                    Expr::Block(b) => pre.into_iter().chain(b.block.stmts).collect(),
                    b => pre.into_iter().chain([Stmt::Expr(b, None)]).collect(),
                };
                let key = format!("{}/closure{}:{}:{}", self.path, n, names.join(","), if c.capture.is_some() { "move" } else { "" });
                *e = parse_quote!(vp_cl!(#key, { #(#stmts)* }));
                return;
            }
            Expr::MethodCall(m) => {
                // iterator adapters with closures that stay lazy (returned iterators)
                let par = self.is_iter(&m.receiver);
                let n = m.method.to_string();
                if par != It::No && ADAPTERS.contains(&n.as_str()) {
                    let r = self.source(&m.receiver);
                    m.receiver = Box::new(r);
                    for a in m.args.iter_mut() {
                        if self.is_iter(a) == It::Seq {
                            *a = self.source(&a.clone());
                        }
                    }
                    visit_mut::visit_expr_method_call_mut(self, m);
                    if n == "map" {
                        m.method = if par == It::Par { format_ident!("vp_par_map") } else { format_ident!("vp_map") };
                    }
                    self.calls.insert(n);
                    return;
                }
            }
            _ => {}
        }
        if let Expr::Unsafe(u) = e {
            // keep the unsafe block: its operations carry preconditions
            self.visit_block_mut(&mut u.block);
            return;
        }
        visit_mut::visit_expr_mut(self, e);
        self.post(e);
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}

pub fn emit_fn(
    file: &str,
    path: &str,
    mut sig: Signature,
    block: Option<Block>,
    subst: Option<(&Type, &Vec<(String, Type)>, Option<String>)>,
    reg: &Registry,
    place: Place,
) -> OutItem {
    let line = sig.ident.span().start().line;
    let mut block = block;
    let mut renamed = vec![];
    if let Some(b) = &mut block {
        if std::env::var_os("VX_LOCALS").is_some() {
            eprintln!("{path}\t{}", crate::alpha::names(b).join(" "));
        }
        let ps: Vec<String> = sig.inputs.iter().filter_map(|a| if let FnArg::Typed(t) = a { if let Pat::Ident(p) = &*t.pat { Some(p.ident.to_string()) } else { None } } else { None }).collect();
        renamed = crate::alpha::run(path, b, &ps);
    }
    let mut self_kind = String::new();
    for i in &sig.inputs {
        if let FnArg::Receiver(r) = i {
            self_kind = match (&r.reference, &r.mutability) {
                (Some(_), Some(_)) => "&mut",
                (Some(_), None) => "&",
                (None, _) => "val",
            }
            .into();
        }
    }
    // R21: `mut self` -> `self` moved into a mutable local
    let mut me = false;
    if let Some(FnArg::Receiver(r)) = sig.inputs.first_mut() {
        if r.reference.is_none() && r.mutability.is_some() && !matches!(&subst, Some((_, _, Some(_)))) {
            r.mutability = None;
            me = true;
            if let Some(b) = &mut block {
                struct Me;
                impl VisitMut for Me {
                    fn visit_ident_mut(&mut self, i: &mut Ident) {
                        if i == "self" {
                            *i = format_ident!("__me");
                        }
                    }
                    fn visit_macro_mut(&mut self, m: &mut Macro) {
                        m.tokens = subst_tokens_to(m.tokens.clone(), "__me");
                    }
                }
                Me.visit_block_mut(b);
                b.stmts.insert(0, parse_quote!(let mut __me = self;));
            }
        }
    }
    let mut types: BTreeMap<String, Type> = BTreeMap::new();
    let self_ty: Option<Type> = match (&place, &subst) {
        (_, Some((t, _, _))) => Some((*t).clone()),
        (Place::Inherent(_, t), None) => Some((*t).clone()),
        _ => None,
    };
    let mut free_self = false;
    if let Some((t, assoc, newname)) = &subst {
        free_self = newname.is_some();
        let mut s = SelfSubst { ty: (*t).clone(), assoc: (*assoc).clone(), rename: free_self };
        if free_self {
            let mut ins: punctuated::Punctuated<FnArg, Token![,]> = Default::default();
            for i in sig.inputs.iter() {
                match i {
                    FnArg::Receiver(r) => {
                        let mutt = if r.reference.is_none() { r.mutability } else { None };
                        let ty: Type = match (&r.reference, &r.mutability) {
                            (Some((_, l)), Some(_)) => parse_quote!(& #l mut #t),
                            (Some((_, l)), None) => parse_quote!(& #l #t),
                            (None, _) => (*t).clone(),
                        };
                        ins.push(parse_quote!(#mutt __self: #ty));
                    }
                    FnArg::Typed(p) => {
                        let mut p = p.clone();
                        s.visit_pat_type_mut(&mut p);
                        ins.push(FnArg::Typed(p))
                    }
                }
            }
            sig.inputs = ins;
            s.visit_return_type_mut(&mut sig.output);
            s.visit_generics_mut(&mut sig.generics);
            if let Some(b) = &mut block {
                s.visit_block_mut(b);
            }
        } else {
            s.visit_signature_mut(&mut sig);
            if let Some(b) = &mut block {
                s.visit_block_mut(b);
            }
        }
        if let Some(n) = newname {
            sig.ident = format_ident!("{}", n);
        }
    }
    for i in &sig.inputs {
        match i {
            FnArg::Typed(p) => {
                if let Pat::Ident(pi) = &*p.pat {
                    types.insert(pi.ident.to_string(), (*p.ty).clone());
                }
            }
            FnArg::Receiver(_) => {
                if let Some(t) = &self_ty {
                    let ty: Type = match self_kind.as_str() {
                        "&mut" => parse_quote!(&mut #t),
                        "&" => parse_quote!(&#t),
                        _ => t.clone(),
                    };
                    if me {
                        types.insert("__me".into(), ty.clone());
                    }
                    types.insert("self".into(), ty);
                }
            }
        }
    }
    let outer = match &place {
        Place::Inherent(g, _) => (*g).clone(),
        _ => Generics::default(),
    };
    let cps = closure_params(&sig, &outer);
    let mut notes = vec![];
    if !renamed.is_empty() {
        notes.push(format!("RENAMED {path}: {}", renamed.join(" ")));
    }
    // param named by a pattern cannot be handled by the trace protocol
    let is_matrix = self_ty.as_ref().map_or(false, |t| base_ty(t) == "Matrix");
    let mut rw = Rw {
        reg,
        path: path.to_string(),
        cps: cps.iter().enumerate().map(|(i, (n, k))| (n.clone(), (i, k.clone()))).collect(),
        loops: 0,
        closures: 0,
        tmps: 0,
        lets: Default::default(),
        notes: vec![],
        calls: Default::default(),
        ptr_origin: None,
        vec_locals: Default::default(),
        types,
        mut_self_matrix: is_matrix && self_kind == "&mut" && !free_self,
        mut_iter_depth: 0,
        in_iter_mut_file: file.contains("iter_mut"),
        in_fmt: file == crate::fmtmod::FILE,
        deque: false,
        self_base: self_ty.as_ref().map(base_ty).unwrap_or_default(),
    };
    let _ = rw.in_iter_mut_file;
    if let Some(b) = &mut block {
        rw.visit_block_mut(b);
        fix_expr_types(b);
    }
    notes.extend(rw.notes.drain(..));
    let calls = rw.calls.clone();
    let params: Vec<String> = sig
        .inputs
        .iter()
        .filter_map(|a| match a {
            FnArg::Typed(p) => match &*p.pat {
                Pat::Ident(i) => Some(i.ident.to_string()),
                _ => Some("_".into()),
            },
            FnArg::Receiver(_) => None,
        })
        .collect();
    fix_sig(&mut sig);
    // iter_mut.rs: yielded references become address-carrying stand-ins
    if file.contains("iter_mut") {
        struct M;
        impl VisitMut for M {
            fn visit_type_mut(&mut self, t: &mut Type) {
                visit_mut::visit_type_mut(self, t);
                if let Type::Reference(r) = t {
                    if r.mutability.is_some() && norm(&r.elem) == "T" {
                        let l = &r.lifetime;
                        *t = parse_quote!(VpMut<#l, T>);
                    }
                }
            }
        }
        M.visit_return_type_mut(&mut sig.output);
    }
    for i in sig.inputs.iter_mut() {
        if let FnArg::Typed(p) = i {
            if let Pat::Ident(pi) = &mut *p.pat {
                if block.is_some() && cps.iter().any(|(n, k)| *n == pi.ident.to_string() && k.kind != "Fn") {
                    pi.mutability = Some(Default::default());
                }
            }
        }
    }
    for (i, (_, k)) in cps.iter().enumerate() {
        let mut t = k.trace.clone();
        fix_type(&mut t);
        let id = format_ident!("__tr{}", i);
        // `Tracked(id): Tracked<&mut T>` is valid Rust pattern syntax
        sig.inputs.push(parse_quote!(Tracked(#id): Tracked<&mut #t>));
    }
    let name = &sig.ident;
    let unsafety = &sig.unsafety;
    let mut gens = sig.generics.clone();
    let wc = gens.where_clause.take();
    let inputs = &sig.inputs;
    let vis = if matches!(place, Place::Trait) { quote!() } else { quote!(pub) };
    let head = print::pp(quote!(#vis #unsafety fn #name #gens ( #inputs )));
    let ret = match &sig.output {
        ReturnType::Default => String::new(),
        ReturnType::Type(_, t) => format!("-> (@@RET@@: {})", t.to_token_stream()),
    };
    let w = wc.map(|w| print::pp(quote!(#w))).unwrap_or_default();
    let w = w.trim().trim_end_matches(',').to_string();
    let cnames: Vec<String> = cps.iter().filter(|(_, k)| k.kind != "Fn").map(|(n, _)| n.clone()).collect();
    let mut text = format!("@@PARAMS:{};{}@@{} {} {} @@SPEC:{}@@", params.join(","), cnames.join(","), head.trim_end(), ret, if w.is_empty() { w } else { w + "," }, path);
    match block {
        None => text += ";",
        Some(b) => {
            let mut stmts = b.stmts;
            // split off a tail expression
            let tail = match stmts.last() {
                Some(Stmt::Expr(_, None)) => stmts.pop(),
                _ => None,
            };
            let entry = ph(&format!("{path}/entry"));
            let exit = ph(&format!("{path}/exit"));
            text += "{\n";
            for (i, n) in cnames.iter().enumerate() {
                text += &format!("let ghost __c{i} = {n};\n");
            }
            text += &print::pp(quote!(#entry #(#stmts)* #exit #tail));
            text += "}\n";
        }
    }
    if let Place::Inherent(g, t) = &place {
        let mut gg = (*g).clone();
        let mut tt = (*t).clone();
        fix_generics(&mut gg);
        fix_type(&mut tt);
        let (ig, _, w) = gg.split_for_impl();
        let h = quote!(impl #ig #tt #w).to_string();
        text = format!("{h} {{\n{text}}}\n");
    }
    OutItem { kind: "fn", path: path.to_string(), file: file.to_string(), line, text, notes, calls }
}

/// R24: `P if G => A, .., Q => B` -> `P => if G { A } else { B }, .., Q => B` where Q is the
/// next arm that can match what P matches, and matches all of it with the same bindings.
fn unguard(m: &ExprMatch) -> Option<ExprMatch> {
    if m.arms.iter().all(|a| a.guard.is_none()) {
        return None;
    }
    let head = |p: &Pat| match p {
        Pat::TupleStruct(t) => Some(norm(&t.path)),
        Pat::Path(t) => Some(norm(&t.path)),
        Pat::Struct(t) => Some(norm(&t.path)),
        _ => None,
    };
    let mut n = m.clone();
    for i in (0..n.arms.len()).rev() {
        let Some((_, g)) = n.arms[i].guard.clone() else { continue };
        let p = n.arms[i].pat.clone();
        let mut found = None;
        for a in &n.arms[i + 1..] {
            if let (Some(x), Some(y)) = (head(&p), head(&a.pat)) {
                if x != y {
                    continue;
                }
            }
            let all = match &a.pat {
                Pat::Wild(_) => true,
                Pat::TupleStruct(t) if head(&p).is_some() => t.elems.iter().all(|e| matches!(e, Pat::Wild(_) | Pat::Rest(_))),
                _ => false,
            };
            if all || norm(&a.pat) == norm(&p) {
                found = Some(a.body.clone());
            }
            break;
        }
        let (b, f) = (n.arms[i].body.clone(), found?);
        n.arms[i].guard = None;
        n.arms[i].body = Box::new(parse_quote!(if #g { #b } else { #f }));
    }
    Some(n)
}
