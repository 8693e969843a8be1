//! vx: mechanical extractor. Reads the crate sources, applies the documented rewrite rules
//! (see DESIGN.md, "Extraction rules") and prints one Verus-ready text block per item, with
//! placeholders (`@@SPEC:..@@`, `@@PH:..@@`, `@@LS:..@@`, `@@CL:..@@`) where the sidecar
//! contracts are spliced in by vp.py.  It never invents executable code that is not a
//! documented rewriting of what it read; constructs it has no rule for are reported as
//! `UNSUPPORTED` and the function then loses its "proved" status.
mod fmtmod;
mod alpha;
mod inline;
mod mac;
mod print;
mod rewrite;
mod scalar;
mod types;

use rewrite::*;
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::path::{Path, PathBuf};
use syn::*;
use types::*;

pub struct OutItem {
    pub kind: &'static str,
    pub path: String,
    pub file: String,
    pub line: usize,
    pub text: String,
    pub notes: Vec<String>,
    pub calls: BTreeSet<String>,
}

pub struct Registry {
    /// names of crate functions that take closure parameters -> closure kind
    pub traced: BTreeMap<String, Vec<ClosureKind>>,
    /// operator impls between matrices: (method, self kind, rhs kind) -> free fn name
    pub ops: BTreeMap<(String, String, String), String>,
    /// functions returning iterators
    pub iter_fns: BTreeSet<String>,
    pub local_types: BTreeSet<String>,
    /// `Output` of `impl Index<..> for X` (used by `impl IndexMut`)
    pub index_out: BTreeMap<String, Type>,
pub iter_item: BTreeMap<String, Type>,
    /// tuple structs around one VecDeque
    pub deques: BTreeSet<String>,
    pub inherent: BTreeSet<(String, String)>,
    pub fn_names: BTreeSet<String>,
    /// functions returning a Result / an Option
    pub ret_res: BTreeSet<String>,
    pub ret_opt: BTreeSet<String>,
}

fn is_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        let t = quote::quote!(#a).to_string().replace(' ', "");
        t.contains("cfg(test)") || t == "#[test]" || t.contains("cfg(kani)") || t.contains("cfg(vp") || t.contains("cfg(feature=\"pretty-debug\")")
    })
}

fn collect(dir: &Path, out: &mut Vec<PathBuf>) {
    let mut v: Vec<_> = fs::read_dir(dir).unwrap().map(|e| e.unwrap().path()).collect();
    v.sort();
    for p in v {
        if p.is_dir() {
            collect(&p, out)
        } else if p.extension().map_or(false, |e| e == "rs") {
            out.push(p)
        }
    }
}

/// every lifetime of a type becomes `'_`
fn anon_lifetimes(mut t: Type) -> Type {
    struct A;
    impl syn::visit_mut::VisitMut for A {
        fn visit_lifetime_mut(&mut self, l: &mut Lifetime) {
            *l = Lifetime::new("'_", l.span());
        }
    }
    syn::visit_mut::VisitMut::visit_type_mut(&mut A, &mut t);
    t
}
/// names of items do not depend on how lifetimes are spelled
fn no_lifetimes(s: &str) -> String {
    let mut out = String::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c == '\'' {
            while it.peek().map_or(false, |d| d.is_alphanumeric() || *d == '_') {
                it.next();
            }
            if it.peek() == Some(&',') {
                it.next();
            }
        } else {
            out.push(c);
        }
    }
    out.replace("<>", "")
}

pub fn norm<T: quote::ToTokens>(t: &T) -> String {
    quote::quote!(#t).to_string().replace(' ', "")
}

fn flatten(items: Vec<Item>, file: &str, out: &mut Vec<(String, Item)>) {
    for it in items {
        match it {
            Item::Mod(m) => {
                if is_test(&m.attrs) {
                    continue;
                }
                if let Some((_, c)) = m.content {
                    flatten(c, file, out)
                }
            }
            other => out.push((file.to_string(), other)),
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let src = PathBuf::from(&args[1]);
    // optional: a list of extra files to parse (macro-expanded scalar impls)
    let mut files = vec![];
    if src.is_dir() {
        collect(&src, &mut files);
    } else {
        files.push(src.clone());
    }
    let mut items: Vec<(String, Item)> = vec![];
    let mut skipped: Vec<String> = vec![];
    for f in &files {
        let rel = if src.is_dir() { f.strip_prefix(&src).unwrap().to_string_lossy().to_string() } else { args.get(2).cloned().unwrap_or("expanded.rs".into()) };
        let text = fs::read_to_string(f).unwrap();
        match syn::parse_file(&text) {
            Ok(file) => flatten(file.items, &rel, &mut items),
            Err(e) => {
                println!("%%PARSEERROR {} {}", rel, e);
                std::process::exit(3);
            }
        }
    }
    let mut reg = Registry {
        traced: BTreeMap::new(),
        ops: BTreeMap::new(),
        iter_fns: BTreeSet::new(),
        local_types: BTreeSet::new(),
        index_out: BTreeMap::new(),
        iter_item: BTreeMap::new(),
        deques: BTreeSet::new(),
        inherent: BTreeSet::new(),
        fn_names: BTreeSet::new(),
        ret_res: BTreeSet::new(),
        ret_opt: BTreeSet::new(),
    };
    let mut pretty: Vec<(String, Item)> = vec![];
    let load = |opt: &str| -> Option<(String, Vec<(String, Item)>)> {
        let k = args.iter().position(|a| a == opt)?;
        let (m, c) = fmtmod::module(syn::parse_file(&fs::read_to_string(&args[k + 1]).ok()?).ok()?)?;
        let mut v = vec![];
        flatten(c, fmtmod::FILE, &mut v);
        for x in v.iter_mut() {
            syn::visit_mut::VisitMut::visit_item_mut(&mut fmtmod::Fix, &mut x.1);
        }
        Some((m, v))
    };
    if let Some((m, v)) = load("--expanded") {
        items.retain(|(f, _)| *f != format!("{m}.rs") && !f.starts_with(&format!("{m}/")));
        if let Some((_, p)) = load("--pretty") {
            let bad = fmtmod::differing(&v, &p);
            if bad.is_empty() {
                pretty = p.into_iter().filter(|x| fmtmod::is_debug_impl(&x.1)).collect();
            } else {
                skipped.push(format!("{} pretty-debug variant: other items differ: {}", fmtmod::FILE, bad.join("; ")));
            }
        }
        items.extend(v);
    }
    if let Some(k) = args.iter().position(|a| a == "--macros") {
        if let Ok(f) = syn::parse_file(&fs::read_to_string(&args[k + 1]).unwrap()) {
            items.extend(mac::items(f));
        }
    }
    if let Some(k) = args.iter().position(|a| a == "--contracted") {
        let names: BTreeSet<String> = fs::read_to_string(&args[k + 1]).unwrap().lines().map(|l| l.to_string()).collect();
        let k = items.len();
        items.append(&mut pretty);
        for n in inline::run(&mut items, &names) {
            skipped.push(format!("inlined {n} (no contract) into its callers"));
        }
        pretty = items.split_off(k);
    }
    if let Some(k) = args.iter().position(|a| a == "--locals") {
        let mut m: std::collections::BTreeMap<String, Vec<Vec<alpha::Bind>>> = Default::default();
        for l in fs::read_to_string(&args[k + 1]).unwrap_or_default().lines() {
            if let Some((p, n)) = l.split_once('\t') {
                m.entry(p.to_string()).or_default().push(n.split_whitespace().filter_map(|x| x.split_once('=')).map(|(a, b)| (a.to_string(), b.to_string())).collect());
            }
        }
        let _ = alpha::PINNED.set(m);
    }
    for (_, it) in &items {
        register(it, &mut reg);
    }
    let mut out: Vec<OutItem> = vec![];
    let forms = match args.iter().position(|a| a == "--expanded") {
        Some(k) => match syn::parse_file(&fs::read_to_string(&args[k + 1]).unwrap()) {
            Ok(file) => scalar::forms(file),
            Err(_) => vec![],
        },
        None => vec![],
    };
    for f in &forms {
        for m in &f.item.items {
            if let ImplItem::Fn(m) = m {
                reg_sig(&m.sig, &f.item.generics, &mut reg);
            }
        }
    }
    for f in forms {
        let i = f.item;
        let assoc: Vec<(String, Type)> = i
            .items
            .iter()
            .filter_map(|m| match m {
                ImplItem::Type(t) => Some((t.ident.to_string(), t.ty.clone())),
                _ => None,
            })
            .collect();
        for m in i.items {
            if let ImplItem::Fn(m) = m {
                let mut sig = m.sig.clone();
                merge_generics(&mut sig.generics, &i.generics);
                let mut o = emit_fn(&f.file, &f.key, sig, Some(m.block), Some((&i.self_ty, &assoc, Some(f.name.clone()))), &reg, Place::Free);
                o.line = 0;
                o.notes.push(format!("INSTANCES {}", f.instances.join(" ")));
                if let Some(b) = &f.bad {
                    o.notes.push(format!("UNSUPPORTED scalar form {b}"));
                }
                out.push(o);
            }
        }
    }
    for (file, it) in items {
        emit_item(&file, it, &reg, &mut out, &mut skipped);
    }
    let n = out.len();
    for (file, it) in pretty {
        emit_item(&file, it, &reg, &mut out, &mut skipped);
    }
    for o in out[n..].iter_mut() {
        let old = o.path.clone();
        o.path = format!("{old}#pretty");
        o.text = o.text.replace(&format!("{old}/"), &format!("{}/", o.path)).replace(&format!("@@SPEC:{old}@@"), &format!("@@SPEC:{}@@", o.path)).replace(&sanitize(&old), &format!("{}_pretty", sanitize(&old)));
        let f = format!("vp_Debug_fmt_for_");
        o.text = o.text.replacen(&f, &format!("vp_pretty_{}", &f[3..]), 1);
    }
    for o in &out {
        println!("%%ITEM {}\t{}\t{}\t{}", o.kind, o.path, o.file, o.line);
        for n in &o.notes {
            println!("%%NOTE {}", n);
        }
        println!("%%CALLS {}", o.calls.iter().cloned().collect::<Vec<_>>().join(" "));
        println!("{}", o.text);
        println!("%%END");
    }
    for s in skipped {
        println!("%%SKIP {}", s);
    }
}

fn register(it: &Item, reg: &mut Registry) {
    match it {
        Item::Struct(s) => {
            reg.local_types.insert(s.ident.to_string());
            if let Fields::Unnamed(f) = &s.fields {
                if f.unnamed.len() == 1 && base_ty(&f.unnamed[0].ty) == "VecDeque" {
                    reg.deques.insert(s.ident.to_string());
                }
            }
        }
        Item::Enum(s) => {
            reg.local_types.insert(s.ident.to_string());
        }
        Item::Fn(f) => {
            if is_test(&f.attrs) {
                return;
            }
            reg.fn_names.insert(f.sig.ident.to_string());
            reg_sig(&f.sig, &Generics::default(), reg);
        }
        Item::Impl(i) => {
            if is_test(&i.attrs) {
                return;
            }
            let tr = i.trait_.as_ref().map(|t| norm(&t.1));
            for m in &i.items {
                if let (ImplItem::Type(t), Some((_, p, _))) = (m, &i.trait_) {
                    if t.ident == "Output" && p.segments.last().unwrap().ident == "Index" {
                        reg.index_out.insert(base_ty(&i.self_ty), t.ty.clone());
                    }
                    if t.ident == "Item" && p.segments.last().unwrap().ident == "Iterator" {
                        reg.iter_item.insert(base_ty(&i.self_ty), anon_lifetimes(t.ty.clone()));
                    }
                }
                if let ImplItem::Fn(f) = m {
                    if is_test(&f.attrs) {
                        continue;
                    }
                    reg.fn_names.insert(f.sig.ident.to_string());
                    if tr.is_none() {
                        reg.inherent.insert((base_ty(&i.self_ty), f.sig.ident.to_string()));
                    }
                    reg_sig(&f.sig, &i.generics, reg);
                    if let Some((_, p, _)) = &i.trait_ {
                        if let Some(k) = op_key(p, &f.sig.ident.to_string(), &i.self_ty) {
                            let name = format!("vp_{}_{}_{}", k.0, k.1, k.2);
                            reg.ops.insert(k, name);
                        }
                    }
                }
            }
        }
        Item::Trait(t) => {
            for m in &t.items {
                if let TraitItem::Fn(f) = m {
                    reg.fn_names.insert(f.sig.ident.to_string());
                }
            }
        }
        _ => {}
    }
}

/// (method, self kind, rhs kind) for operator impls where both sides are (refs to) matrices
fn op_key(p: &syn::Path, method: &str, self_ty: &Type) -> Option<(String, String, String)> {
    let seg = p.segments.last()?;
    let a = match &seg.arguments {
        PathArguments::AngleBracketed(a) => a,
        _ => return None,
    };
    let rhs = match a.args.first()? {
        GenericArgument::Type(t) => t,
        _ => return None,
    };
    let k1 = mat_kind(self_ty)?;
    let k2 = mat_kind(rhs)?;
    let ok = ["Add", "Sub", "Mul", "Div", "Rem", "AddAssign", "SubAssign", "MulAssign", "DivAssign", "RemAssign"];
    if ok.contains(&seg.ident.to_string().as_str()) {
        Some((method.to_string(), k1, k2))
    } else {
        None
    }
}

fn reg_sig(sig: &Signature, g: &Generics, reg: &mut Registry) {
    let k = closure_params(sig, g);
    if !k.is_empty() {
        reg.traced.insert(sig.ident.to_string(), k.into_iter().map(|x| x.1).collect());
    }
    if let ReturnType::Type(_, t) = &sig.output {
        let s = norm(t);
        if s.contains("DoubleEndedIterator") || s.contains("Take<") || s.contains("ParallelIterator") {
            reg.iter_fns.insert(sig.ident.to_string());
        }
        if s.starts_with("Result<") || s.starts_with("core::result::Result<") || s.starts_with("std::result::Result<") {
            reg.ret_res.insert(sig.ident.to_string());
        }
        if s.starts_with("Option<") {
            reg.ret_opt.insert(sig.ident.to_string());
        }
    }
}

fn clean_derives(attrs: &[Attribute]) -> String {
    let mut v = vec![];
    for a in attrs {
        if a.path().is_ident("derive") {
            let _ = a.parse_nested_meta(|m| {
                let s = m.path.segments.last().unwrap().ident.to_string();
                v.push(s);
                Ok(())
            });
        }
    }
    let mut keep: Vec<String> = vec![];
    let has_copy = v.iter().any(|x| x == "Copy");
    for d in v {
        match d.as_str() {
            "Copy" | "Eq" => keep.push(d),
            "Clone" if has_copy => keep.push(d),
            "PartialEq" => {
                keep.push(d);
                keep.push("Structural".into())
            }
            "Default" if has_copy => keep.push("@Default".into()),
            _ => {}
        }
    }
    let dflt = keep.iter().any(|k| k == "@Default");
    keep.retain(|k| k != "@Default");
    let mut s = String::new();
    if !keep.is_empty() {
        s += &format!("#[derive({})]\n", keep.join(", "));
    }
    let _ = dflt;
    s
}

fn derive_default(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("derive") && norm(a).contains("Default"))
}

fn emit_item(file: &str, it: Item, reg: &Registry, out: &mut Vec<OutItem>, skipped: &mut Vec<String>) {
    use quote::quote;
    match it {
        Item::Use(_) | Item::ExternCrate(_) | Item::Macro(_) => {}
        Item::Type(mut t) => {
            t.attrs.clear();
            t.vis = parse_quote!(pub);
            rewrite_type_alias(&mut t);
            let p = t.ident.to_string();
            out.push(OutItem { kind: "type", path: p, file: file.into(), line: t.ident.span().start().line, text: print::pp(quote!(#t)), notes: vec![], calls: Default::default() });
        }
        Item::Const(mut c) => {
            c.attrs.clear();
            c.vis = parse_quote!(pub);
            if let Type::Reference(r) = &mut *c.ty {
                r.lifetime.get_or_insert(parse_quote!('static));
            }
            out.push(OutItem { kind: "const", path: c.ident.to_string(), file: file.into(), line: c.ident.span().start().line, text: print::pp(quote!(#c)), notes: vec![], calls: Default::default() });
        }
        Item::Struct(mut s) => {
            if is_test(&s.attrs) {
                return;
            }
            let d = clean_derives(&s.attrs);
            let dflt = derive_default(&s.attrs);
            let derive_clone = s.attrs.iter().any(|a| a.path().is_ident("derive") && norm(a).contains("Clone"));
            s.attrs.clear();
            s.vis = parse_quote!(pub);
            for f in s.fields.iter_mut() {
                f.vis = parse_quote!(pub);
                f.attrs.clear();
                fix_type(&mut f.ty);
            }
            let mut text = d + &print::pp(quote!(#s));
            if text.contains("NonNull") {
                for p in s.generics.type_params() {
                    text = format!("#[verifier::reject_recursive_types({})]\n{text}", p.ident);
                }
            }
            let mut notes = vec![];
            if derive_clone && s.generics.params.iter().any(|_| true) {
                // expansion of #[derive(Clone)]: every field cloned
                let id = &s.ident;
                let g = &s.generics;
                let ps: Vec<_> = g.type_params().map(|p| p.ident.to_string()).collect();
                let fs: Vec<_> = s.fields.iter().filter_map(|f| f.ident.clone()).map(|f| format!("{f}: self.{f}.clone()")).collect();
                if ps.len() == g.params.len() {
                    text += &format!(
                        "\nimpl<{}> Clone for {id}<{}> {{ fn clone(&self) -> (r: Self) ensures vp_clone_of_{id}(*self, r) {{ {id} {{ {} }} }} }}",
                        ps.iter().map(|p| format!("{p}: Clone")).collect::<Vec<_>>().join(", "),
                        ps.join(", "),
                        fs.join(", ")
                    );
                }
                notes.push("derive-clone".to_string());
            }
            if dflt && !s.generics.params.iter().any(|_| true) {
                // expansion of #[derive(Default)]: every field from its Default
                let id = &s.ident;
                let fs: Vec<_> = s.fields.iter().map(|f| f.ident.clone().unwrap()).collect();
                let ts: Vec<_> = s.fields.iter().map(|f| f.ty.clone()).collect();
                let all_int = ts.iter().all(|t| matches!(norm(t).as_str(), "usize" | "isize"));
                if all_int {
                    text += &format!(
                        "\nimpl {} {{ pub fn default() -> (r: Self) ensures {} {{ {} {{ {} }} }} }}",
                        id,
                        fs.iter().map(|f| format!("r.{} == 0", f)).collect::<Vec<_>>().join(", "),
                        id,
                        fs.iter().map(|f| format!("{}: 0", f)).collect::<Vec<_>>().join(", ")
                    );
                }
            }
            out.push(OutItem { kind: "struct", path: s.ident.to_string(), file: file.into(), line: s.ident.span().start().line, text, notes, calls: Default::default() });
        }
        Item::Enum(mut s) => {
            let d = clean_derives(&s.attrs);
            let dflt = derive_default(&s.attrs);
            s.attrs.clear();
            s.vis = parse_quote!(pub);
            let mut def = None;
            for v in s.variants.iter_mut() {
                if v.attrs.iter().any(|a| a.path().is_ident("default")) {
                    def = Some(v.ident.clone());
                }
                v.attrs.clear();
            }
            let mut text = d + &print::pp(quote!(#s));
            if let (true, Some(v)) = (dflt, def) {
                let id = &s.ident;
                text += &format!("\nimpl {id} {{ pub fn default() -> (r: Self) ensures r == {id}::{v} {{ {id}::{v} }} }}");
            }
            out.push(OutItem { kind: "enum", path: s.ident.to_string(), file: file.into(), line: s.ident.span().start().line, text, notes: vec![], calls: Default::default() });
        }
        Item::Fn(f) => {
            if is_test(&f.attrs) {
                return;
            }
            let path = f.sig.ident.to_string();
            let o = emit_fn(file, &path, f.sig, Some(*f.block), None, reg, Place::Free);
            out.push(o);
        }
        Item::Trait(t) => {
            let name = t.ident.to_string();
            if name == "ExactSizeDoubleEndedIterator" {
                skipped.push(format!("{file} trait {name} (blanket marker; opaque iterators become SeqIter)"));
                return;
            }
            let mut body = String::new();
            let mut notes = vec![];
            let mut calls = BTreeSet::new();
            let line = t.ident.span().start().line;
            body += &format!("@@TRAIT:{name}@@\n");
            for m in t.items {
                match m {
                    TraitItem::Fn(f) => {
                        let path = format!("{}::{}", name, f.sig.ident);
                        let o = emit_fn(file, &path, f.sig, f.default, None, reg, Place::Trait);
                        body += &format!("@@FN:{path}@@\n");
                        body += &o.text;
                        body += "\n@@ENDFN@@\n";
                        notes.extend(o.notes.iter().map(|n| format!("{path}: {n}")));
                        calls.extend(o.calls);
                    }
                    TraitItem::Type(mut ty) => {
                        ty.attrs.clear();
                        ty.bounds = Default::default();
                        body += &print::pp(quote!(#ty));
                        body += "\n";
                    }
                    other => body += &print::pp(quote!(#other)),
                }
            }
            let g = &t.generics;
            let (_, tg, w) = g.split_for_impl();
            let gp = quote!(#g);
            let _ = (tg, w);
            let mut sup: Vec<String> = t.supertraits.iter().map(|s| norm(s)).collect();
            sup.iter_mut().for_each(|s| *s = s.rsplit("::").next().unwrap().to_string());
            let sup = if sup.is_empty() { String::new() } else { format!(": {}", sup.join(" + ")) };
            let text = format!("pub {}trait {}{}{} {{\n{}}}\n", if t.unsafety.is_some() { "unsafe " } else { "" }, name, gp, sup, body);
            out.push(OutItem { kind: "trait", path: name, file: file.into(), line, text, notes, calls });
        }
        Item::Impl(i) => {
            if is_test(&i.attrs) {
                return;
            }
            emit_impl(file, i, reg, out, skipped);
        }
        other => skipped.push(format!("{file} item {}", norm(&other).chars().take(60).collect::<String>())),
    }
}

fn emit_impl(file: &str, i: ItemImpl, reg: &Registry, out: &mut Vec<OutItem>, skipped: &mut Vec<String>) {
    use quote::quote;
    let self_norm = no_lifetimes(&norm(&i.self_ty));
    let base = base_ty(&i.self_ty);
    let line = i.impl_token.span.start().line;
    match &i.trait_ {
        None => {
            for m in i.items {
                match m {
                    ImplItem::Fn(f) => {
                        if is_test(&f.attrs) {
                            continue;
                        }
                        let path = format!("{}::{}", base, f.sig.ident);
                        let g = i.generics.clone();
                        let o = emit_fn(file, &path, f.sig, Some(f.block), None, reg, Place::Inherent(&g, &i.self_ty));
                        out.push(o);
                    }
                    other => skipped.push(format!("{file} impl item {}", norm(&other).chars().take(60).collect::<String>())),
                }
            }
        }
        Some((_, p, _)) => {
            let tname = p.segments.last().unwrap().ident.to_string();
            let tnorm = norm(&p.segments.last().unwrap());
            if ["Send", "Sync", "Display", "Debug", "ExactSizeDoubleEndedIterator", "Eq", "Error"].contains(&tname.as_str()) && !(file == fmtmod::FILE && base == "Matrix") {
                skipped.push(format!("{file} impl {tnorm} for {self_norm}"));
                return;
            }
            let own = ["MatrixIndex", "AsIndex", "Sealed"].contains(&tname.as_str());
            if own {
                let key = format!("<{} as {}>", self_norm, tnorm);
                let mut body = format!("@@TRAIT:{key}@@\n");
                let mut notes = vec![];
                let mut calls = BTreeSet::new();
                for m in i.items {
                    match m {
                        ImplItem::Fn(f) => {
                            let path = format!("{}::{}", key, f.sig.ident);
                            let o = emit_fn(file, &path, f.sig, Some(f.block), None, reg, Place::Trait);
                            body += &format!("@@FN:{path}@@\n");
                            body += &o.text;
                            body += "\n@@ENDFN@@\n";
                            notes.extend(o.notes.iter().map(|n| format!("{path}: {n}")));
                            calls.extend(o.calls);
                        }
                        other => {
                            body += &print::pp(quote!(#other));
                            body += "\n"
                        }
                    }
                }
                let (ig, _, w) = i.generics.split_for_impl();
                let seg = p.segments.last().unwrap();
                let st = &i.self_ty;
                let head = quote!(impl #ig #seg for #st #w).to_string();
                let text = format!("{}{} {{\n{}}}\n", if i.unsafety.is_some() { "unsafe " } else { "" }, head, body);
                out.push(OutItem { kind: "traitimpl", path: key, file: file.into(), line, text, notes, calls });
                return;
            }
            // impl of a std trait: each method becomes an inherent function of the local Self type when
            // the name is free, and a free function otherwise
            let mut assoc: Vec<(String, Type)> = i
                .items
                .iter()
                .filter_map(|m| match m {
                    ImplItem::Type(t) => Some((t.ident.to_string(), t.ty.clone())),
                    _ => None,
                })
                .collect();
            if tname == "DoubleEndedIterator" || tname == "ExactSizeIterator" {
                if let Some(t) = reg.iter_item.get(&base) {
                    assoc.push(("Item".into(), t.clone()));
                }
            }
            if tname == "IndexMut" {
                if let Some(t) = reg.index_out.get(&base) {
                    assoc.push(("Output".into(), t.clone()));
                }
            }
            for m in i.items.clone() {
                if let ImplItem::Fn(f) = m {
                    let mname = f.sig.ident.to_string();
                    let path = format!("<{} as {}>::{}", self_norm, tnorm, mname);
                    let inherent_ok = ["Iterator", "ExactSizeIterator", "DoubleEndedIterator", "PartialEq", "Default", "FromIterator", "Index", "IndexMut"];
                    let is_ref = matches!(&*i.self_ty, Type::Reference(_));
                    let inherent = inherent_ok.contains(&tname.as_str()) || tname == "Clone" && i.generics.type_params().next().is_some();
                    let mut o = if !is_ref && reg.local_types.contains(&base) && inherent {
                        // constrain only impl generics that appear in Self; move the others to the fn
                        let (gi, gf) = split_generics(&i.generics, &i.self_ty);
                        let mut sig = f.sig.clone();
                        merge_generics(&mut sig.generics, &gf);
                        emit_fn(file, &path, sig, Some(f.block), Some((&i.self_ty, &assoc, None)), reg, Place::Inherent(&gi, &i.self_ty))
                    } else {
                        let mut sig = f.sig.clone();
                        merge_generics(&mut sig.generics, &i.generics);
                        let name = match op_key(p, &mname, &i.self_ty) {
                            Some(k) => reg.ops[&k].clone(),
                            None => format!("vp_{}_{}_for_{}", sanitize(&tnorm), mname, sanitize(&self_norm)),
                        };
                        emit_fn(file, &path, sig, Some(f.block), Some((&i.self_ty, &assoc, Some(name))), reg, Place::Free)
                    };
                    o.line = f.sig.ident.span().start().line;
                    out.push(o);
                }
            }
        }
    }
}

pub fn sanitize(s: &str) -> String {
    let mut r = String::new();
    for c in s.chars() {
        if c.is_alphanumeric() || c == '_' {
            r.push(c)
        } else {
            r.push('_')
        }
    }
    r
}
