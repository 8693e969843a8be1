//! Type-level rewriting rules.
use crate::norm;
use syn::visit_mut::{self, VisitMut};
use syn::*;

/// How a closure parameter takes its arguments; selects the call shim and the ghost trace type.
#[derive(Clone, Debug)]
pub struct ClosureKind {
    pub shim: &'static str,
    pub trace: Type,
    pub kind: String,
}

pub fn base_ty(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        Type::Reference(r) => base_ty(&r.elem),
        _ => norm(t),
    }
}

/// "M" for Matrix<..>, "rM" for &Matrix<..>
pub fn mat_kind(t: &Type) -> Option<String> {
    match t {
        Type::Path(_) if base_ty(t) == "Matrix" => Some("M".into()),
        Type::Reference(r) if base_ty(t) == "Matrix" && matches!(&*r.elem, Type::Path(_)) => Some("rM".into()),
        _ => None,
    }
}

fn bounds_of(sig: &Signature, g: &Generics) -> Vec<(String, TraitBound)> {
    let mut v = vec![];
    for gg in [&sig.generics, g] {
        for p in &gg.params {
            if let GenericParam::Type(t) = p {
                for b in &t.bounds {
                    if let TypeParamBound::Trait(tb) = b {
                        v.push((t.ident.to_string(), tb.clone()))
                    }
                }
            }
        }
        if let Some(w) = &gg.where_clause {
            for p in &w.predicates {
                if let WherePredicate::Type(pt) = p {
                    for b in &pt.bounds {
                        if let TypeParamBound::Trait(tb) = b {
                            v.push((norm(&pt.bounded_ty), tb.clone()))
                        }
                    }
                }
            }
        }
    }
    v
}

fn strip_amp(t: &Type) -> Option<(&TypeReference, &Type)> {
    if let Type::Reference(r) = t {
        Some((r, &*r.elem))
    } else {
        None
    }
}

/// (parameter name, kind) for every parameter whose type is a closure-bounded generic
pub fn closure_params(sig: &Signature, g: &Generics) -> Vec<(String, ClosureKind)> {
    let mut out = vec![];
    let bs = bounds_of(sig, g);
    for p in &sig.inputs {
        if let FnArg::Typed(pt) = p {
            let tn = norm(&pt.ty);
            for (n, b) in &bs {
                if *n != tn {
                    continue;
                }
                let seg = b.path.segments.last().unwrap();
                let name = seg.ident.to_string();
                if !["Fn", "FnMut", "FnOnce"].contains(&name.as_str()) {
                    continue;
                }
                if let PathArguments::Parenthesized(pa) = &seg.arguments {
                    let ret: Type = match &pa.output {
                        ReturnType::Default => parse_quote!(()),
                        ReturnType::Type(_, t) => (**t).clone(),
                    };
                    let ins: Vec<Type> = pa.inputs.iter().cloned().collect();
                    let unnamed = |t: &Type| strip_amp(t).map_or(false, |(r, _)| r.lifetime.is_none());
                    let kind = match ins.len() {
                        1 => {
                            let a = &ins[0];
                            if let Some((r, e)) = strip_amp(a) {
                                if r.mutability.is_some() {
                                    ClosureKind { shim: "vp_call1m", trace: parse_quote!(Trace<#e, #e>), kind: name.clone() }
                                } else if unnamed(a) {
                                    ClosureKind { shim: "vp_call1r", trace: parse_quote!(Trace<#e, #ret>), kind: name.clone() }
                                } else {
                                    ClosureKind { shim: "vp_call1", trace: parse_quote!(Trace<#a, #ret>), kind: name.clone() }
                                }
                            } else {
                                ClosureKind { shim: "vp_call1", trace: parse_quote!(Trace<#a, #ret>), kind: name.clone() }
                            }
                        }
                        2 => {
                            let (a, b) = (&ins[0], &ins[1]);
                            let slice = |t: &Type| match strip_amp(t) {
                                Some((r, Type::Slice(s))) if r.mutability.is_none() => Some((*s.elem).clone()),
                                _ => None,
                            };
                            if let (Some(l), Some(r)) = (slice(a), slice(b)) {
                                ClosureKind { shim: "vp_call2s", trace: parse_quote!(Trace<(Seq<#l>, Seq<#r>), #ret>), kind: name.clone() }
                            } else if let Some((r, e)) = strip_amp(a) {
                                if r.mutability.is_some() {
                                    ClosureKind { shim: "vp_call2m", trace: parse_quote!(Trace<(#e, #b), #e>), kind: name.clone() }
                                } else {
                                    ClosureKind { shim: "vp_call2", trace: parse_quote!(Trace<(#a, #b), #ret>), kind: name.clone() }
                                }
                            } else {
                                ClosureKind { shim: "vp_call2", trace: parse_quote!(Trace<(#a, #b), #ret>), kind: name.clone() }
                            }
                        }
                        _ => continue,
                    };
                    if let Pat::Ident(pi) = &*pt.pat {
                        out.push((pi.ident.to_string(), kind));
                    }
                }
            }
        }
    }
    out
}

/// Opaque / std iterator types become SeqIter / ParIter.
struct TyFix;
impl VisitMut for TyFix {
    fn visit_type_mut(&mut self, t: &mut Type) {
        visit_mut::visit_type_mut(self, t);
        match t {
            Type::ImplTrait(i) => {
                let s = norm(i);
                let target = if s.contains("ParallelIterator") { "ParIter" } else { "SeqIter" };
                for b in &i.bounds {
                    if let TypeParamBound::Trait(tb) = b {
                        let seg = tb.path.segments.last().unwrap();
                        if let PathArguments::AngleBracketed(a) = &seg.arguments {
                            for ga in &a.args {
                                if let GenericArgument::AssocType(at) = ga {
                                    if at.ident == "Item" {
                                        let it = at.ty.clone();
                                        if target == "SeqIter" && norm(&it).starts_with("SeqIter<&mut") {
                                            // an iterator of iterators of references: the crate's own type
                                            *t = parse_quote!(IterVectorsMut<'_, T>);
                                            return;
                                        }
                                        let id = quote::format_ident!("{}", target);
                                        *t = parse_quote!(#id<#it>);
                                        return;
                                    }
                                }
                            }
                        }
                    }
                }
            }
            Type::Path(p) => {
                let seg = p.path.segments.last().unwrap().clone();
                let n = seg.ident.to_string();
                let arg_types: Vec<Type> = match &seg.arguments {
                    PathArguments::AngleBracketed(a) => a.args.iter().filter_map(|x| if let GenericArgument::Type(t) = x { Some(t.clone()) } else { None }).collect(),
                    _ => vec![],
                };
                let lts: Vec<Lifetime> = match &seg.arguments {
                    PathArguments::AngleBracketed(a) => a.args.iter().filter_map(|x| if let GenericArgument::Lifetime(t) = x { Some(t.clone()) } else { None }).collect(),
                    _ => vec![],
                };
                match n.as_str() {
                    "Take" | "StepBy" | "Skip" | "Rev" if arg_types.len() == 1 => *t = arg_types[0].clone(),
                    "Iter" if arg_types.len() == 1 && lts.len() <= 1 => {
                        let e = &arg_types[0];
                        let l = lts.first();
                        *t = parse_quote!(SeqIter<& #l #e>);
                    }
                    "IterMut" if arg_types.len() == 1 && lts.len() <= 1 => {
                        let e = &arg_types[0];
                        let l = lts.first();
                        *t = parse_quote!(SeqIter<& #l mut #e>);
                    }
                    _ => fix_path(&mut p.path),
                }
            }
            _ => {}
        }
    }
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        visit_mut::visit_path_mut(self, p);
        fix_path(p);
    }
    fn visit_trait_bound_mut(&mut self, b: &mut TraitBound) {
        visit_mut::visit_trait_bound_mut(self, b);
        let seg = b.path.segments.last_mut().unwrap();
        if seg.ident == "IntoIterator" {
            seg.ident = quote::format_ident!("VpIntoIter");
            if let PathArguments::AngleBracketed(a) = &mut seg.arguments {
                for ga in a.args.iter_mut() {
                    if let GenericArgument::AssocType(at) = ga {
                        if at.ident == "Item" {
                            at.ident = quote::format_ident!("VItem");
                        }
                    }
                }
            }
        }
    }
}

/// flatten crate-internal module paths
pub fn fix_path(p: &mut syn::Path) {
    let n = p.segments.len();
    if n < 2 {
        return;
    }
    let first = p.segments[0].ident.to_string();
    let mods = ["crate", "self", "super", "internal", "iter_mut", "error", "index", "order", "shape"];
    if mods.contains(&first.as_str()) {
        let mut k = 0;
        while k + 1 < n && mods.contains(&p.segments[k].ident.to_string().as_str()) {
            k += 1;
        }
        let rest: Vec<_> = p.segments.iter().skip(k).cloned().collect();
        p.segments = rest.into_iter().collect();
        p.leading_colon = None;
    } else if first == "mem" && n == 2 {
        // the module is std's
        p.segments.insert(0, parse_quote!(core));
    } else if (first == "std" || first == "core") && p.segments[1].ident == "mem" {
        p.segments[0].ident = Ident::new("core", proc_macro2::Span::call_site());
        p.leading_colon = None;
    } else if first == "std" || first == "core" {
        let second = p.segments[1].ident.to_string();
        if ["ptr", "cmp", "mem"].contains(&second.as_str()) && n > 2 {
            let rest: Vec<_> = p.segments.iter().skip(1).cloned().collect();
            p.segments = rest.into_iter().collect();
            p.leading_colon = None;
        }
    }
}

pub fn fix_type(t: &mut Type) {
    TyFix.visit_type_mut(t)
}
pub fn fix_sig(s: &mut Signature) {
    TyFix.visit_signature_mut(s)
}
pub fn fix_generics(s: &mut Generics) {
    TyFix.visit_generics_mut(s)
}
pub fn fix_expr_types(b: &mut Block) {
    TyFix.visit_block_mut(b)
}

pub fn rewrite_type_alias(t: &mut ItemType) {
    TyFix.visit_type_mut(&mut t.ty)
}

struct Uses<'a>(&'a str, bool);
impl<'a> syn::visit::Visit<'_> for Uses<'a> {
    fn visit_ident(&mut self, i: &Ident) {
        if i == self.0 {
            self.1 = true
        }
    }
}

/// (generics constrained by Self, the rest)
pub fn split_generics(g: &Generics, self_ty: &Type) -> (Generics, Generics) {
    use syn::visit::Visit;
    let mut a = Generics::default();
    let mut b = Generics::default();
    for p in &g.params {
        let name = match p {
            GenericParam::Type(t) => t.ident.to_string(),
            GenericParam::Lifetime(l) => l.lifetime.ident.to_string(),
            GenericParam::Const(c) => c.ident.to_string(),
        };
        let mut u = Uses(&name, false);
        u.visit_type(self_ty);
        if u.1 {
            a.params.push(p.clone())
        } else {
            b.params.push(p.clone())
        }
    }
    b.where_clause = g.where_clause.clone();
    (a, b)
}

pub fn merge_generics(into: &mut Generics, from: &Generics) {
    let mut lts = vec![];
    let mut rest = vec![];
    for p in from.params.iter().chain(into.params.iter()) {
        match p {
            GenericParam::Lifetime(_) => lts.push(p.clone()),
            _ => rest.push(p.clone()),
        }
    }
    into.params = lts.into_iter().chain(rest).collect();
    if let Some(w) = &from.where_clause {
        let iw = into.make_where_clause();
        for p in &w.predicates {
            iw.predicates.push(p.clone());
        }
    }
}
