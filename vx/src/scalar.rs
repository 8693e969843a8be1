//! Scalar operator impls. They are written as macros over the primitive types; rustc expands
//! them (`-Zunpretty=expanded`) and every instance
//!     impl Op<s> for Matrix<t> { type Output = Matrix<u>; .. }      (and the mirrored forms)
//! is abstracted over its three types: t -> E, s -> S, u -> U. Instances whose text is then the
//! same are one item; a body that names a primitive type is not abstracted (UNSUPPORTED).
use crate::{norm, types::*};
use std::collections::BTreeMap;
use syn::visit_mut::VisitMut;
use syn::*;

pub const PRIMS: &[&str] = &["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize", "f32", "f64"];
const OPS: &[(&str, &str)] = &[("Add", "add"), ("Sub", "sub"), ("Mul", "mul"), ("Div", "div"), ("Rem", "rem")];

pub struct Form {
    pub file: String,
    pub key: String,
    pub name: String,
    pub item: ItemImpl,
    pub instances: Vec<String>,
    pub bad: Option<String>,
}

fn prim(t: &Type) -> Option<String> {
    let s = norm(t);
    let b = s.strip_prefix('&').unwrap_or(&s);
    PRIMS.contains(&b).then(|| s.clone())
}
fn mat_arg(t: &Type) -> Option<(bool, Type)> {
    let (r, p) = match t {
        Type::Reference(r) if r.mutability.is_none() => (true, &*r.elem),
        t => (false, t),
    };
    if let Type::Path(p) = p {
        let seg = p.path.segments.last()?;
        if seg.ident == "Matrix" {
            if let PathArguments::AngleBracketed(a) = &seg.arguments {
                if let Some(GenericArgument::Type(x)) = a.args.first() {
                    return Some((r, x.clone()));
                }
            }
        }
    }
    None
}

struct Fix(Option<String>);
impl VisitMut for Fix {
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        if p.segments.iter().any(|s| PRIMS.contains(&s.ident.to_string().as_str())) {
            self.0 = Some(format!("names the primitive type {}", norm(p)));
        }
        visit_mut::visit_path_mut(self, p);
    }
    fn visit_lit_mut(&mut self, l: &mut Lit) {
        if matches!(l, Lit::Int(_) | Lit::Float(_)) {
            self.0 = Some(format!("uses the literal {}", norm(l)));
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Call(c) = e {
            let f = norm(&c.func);
            if f.contains("core::panicking::") || f.contains("std::rt::") {
                *e = parse_quote!(panic!());
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

fn one(i: &ItemImpl) -> Option<(String, String, ItemImpl, String, Option<String>)> {
    if !i.generics.params.is_empty() {
        return None;
    }
    let (_, p, _) = i.trait_.as_ref()?;
    let seg = p.segments.last()?;
    let tr = seg.ident.to_string();
    let (op, assign) = match tr.strip_suffix("Assign") {
        Some(o) => (o.to_string(), true),
        None => (tr.clone(), false),
    };
    let m = OPS.iter().find(|x| x.0 == op)?.1;
    let rhs = match &seg.arguments {
        PathArguments::AngleBracketed(a) => match a.args.first()? {
            GenericArgument::Type(t) => t.clone(),
            _ => return None,
        },
        _ => return None,
    };
    let method = if assign { format!("{m}_assign") } else { m.to_string() };
    let mut f = i.items.iter().find_map(|x| match x {
        ImplItem::Fn(f) if f.sig.ident == method => Some(f.clone()),
        _ => None,
    })?;
    f.attrs.clear();
    let trid = &seg.ident;
    let (e, s, left, mref) = match (mat_arg(&i.self_ty), mat_arg(&rhs)) {
        (Some((r, t)), None) => (prim(&t)?, prim(&rhs)?, true, r),
        (None, Some((r, t))) => (prim(&t)?, prim(&i.self_ty)?, false, r),
        _ => return None,
    };
    let mut fix = Fix(None);
    fix.visit_block_mut(&mut f.block);
    let mty: Type = if mref { parse_quote!(&Matrix<E>) } else { parse_quote!(Matrix<E>) };
    if let Some(FnArg::Typed(t)) = f.sig.inputs.iter_mut().nth(1) {
        *t.ty = if left { parse_quote!(S) } else { mty.clone() };
    }
    let (inst, it): (String, ItemImpl);
    if assign {
        if !left || mref {
            return None;
        }
        it = parse_quote!(impl<E, S> #trid<S> for Matrix<E> where E: #trid<S> + Copy, S: Copy { #f });
        inst = format!("{e},{s}");
    } else {
        let u = i.items.iter().find_map(|x| match x {
            ImplItem::Type(t) if t.ident == "Output" => mat_arg(&t.ty),
            _ => None,
        })?;
        inst = format!("{e},{s},{}", norm(&u.1));
        if left {
            it = parse_quote!(impl<E, S, U> #trid<S> for #mty where E: #trid<S, Output = U> + Copy, S: Copy { type Output = Matrix<U>; #f });
        } else {
            it = parse_quote!(impl<E, S, U> #trid<#mty> for S where S: #trid<E, Output = U> + Copy, E: Copy { type Output = Matrix<U>; #f });
        }
    }
    let k = if mref { "rM" } else { "M" };
    let form = if left { format!("{k}_s") } else { format!("s_{k}") };
    let key = format!("scalar::{method}::{form}");
    Some((key, inst, it, format!("vp_scalar_{method}_{form}"), fix.0))
}

fn walk(items: Vec<Item>, path: &str, out: &mut BTreeMap<(String, String), Form>) {
    for it in items {
        match it {
            Item::Mod(m) => {
                if let Some((_, c)) = m.content {
                    let p = if path.is_empty() { m.ident.to_string() } else { format!("{path}/{}", m.ident) };
                    walk(c, &p, out)
                }
            }
            Item::Impl(i) => {
                if let Some((key, inst, item, name, bad)) = one(&i) {
                    let text = quote::quote!(#item).to_string();
                    out.entry((key.clone(), text))
                        .or_insert(Form { file: format!("{path}.rs"), key, name, item, instances: vec![], bad })
                        .instances
                        .push(inst);
                }
            }
            _ => {}
        }
    }
}

pub fn forms(file: syn::File) -> Vec<Form> {
    let mut m = BTreeMap::new();
    walk(file.items, "", &mut m);
    let mut v: Vec<Form> = m.into_values().collect();
    // the text most instances share comes first
    v.sort_by(|a, b| (&a.key, b.instances.len()).cmp(&(&b.key, a.instances.len())));
    let mut last = String::new();
    let mut n = 0;
    for f in v.iter_mut() {
        if f.key == last {
            n += 1;
            f.key = format!("{}#{}", f.key, n);
            f.name = format!("{}_{}", f.name, n);
        } else {
            last = f.key.clone();
            n = 1;
        }
    }
    let _ = base_ty;
    v
}
