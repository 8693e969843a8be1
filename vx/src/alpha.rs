//! R26: local variables are renamed back to the names the proof hints use. The
//! names a function binds, in order, are recorded per function (contracts/locals.txt); where
//! the current function binds other names in the same places, they are alpha-renamed: never
//! onto a name the function already uses, never a variable that a format string mentions, and
//! all of its binding places or none. This changes no meaning, whatever it guesses.
use proc_macro2::{Group, TokenStream, TokenTree};
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::OnceLock;
use syn::visit::Visit;
use syn::visit_mut::VisitMut;
use syn::*;

pub static PINNED: OnceLock<BTreeMap<String, Vec<Vec<Bind>>>> = OnceLock::new();

/// a binding: its name and what it is bound to, locals left out ("" if it is no `let` or `for`)
pub type Bind = (String, String);

#[derive(Default)]
struct Binds {
    names: Vec<Bind>,
    used: BTreeSet<String>,
    text: String,
    key: Vec<String>,
}
impl Binds {
    fn under<'a>(&mut self, p: &'a Pat, key: String) {
        self.key.push(key);
        self.visit_pat(p);
        self.key.pop();
    }
}
impl<'a> Visit<'a> for Binds {
    fn visit_local(&mut self, l: &'a Local) {
        let key = l.init.as_ref().map_or(String::new(), |i| format!("let {}", i.expr.to_token_stream()));
        self.under(&l.pat, key);
        if let Some(i) = &l.init {
            self.visit_expr(&i.expr);
            if let Some((_, e)) = &i.diverge {
                self.visit_expr(e);
            }
        }
    }
    fn visit_expr_for_loop(&mut self, l: &'a ExprForLoop) {
        self.under(&l.pat, format!("for {}", l.expr.to_token_stream()));
        self.visit_expr(&l.expr);
        self.visit_block(&l.body);
    }
    fn visit_expr(&mut self, e: &'a Expr) {
        let k = std::mem::take(&mut self.key);
        visit::visit_expr(self, e);
        self.key = k;
    }
    fn visit_pat_ident(&mut self, p: &'a PatIdent) {
        let n = p.ident.to_string();
        self.used.insert(n.clone());
        if n.starts_with(|c: char| c.is_lowercase()) {
            self.names.push((n, self.key.last().cloned().unwrap_or_default()));
        }
        visit::visit_pat_ident(self, p);
    }
    fn visit_expr_path(&mut self, p: &'a ExprPath) {
        if let Some(i) = p.path.get_ident() {
            self.used.insert(i.to_string());
        }
        visit::visit_expr_path(self, p);
    }
    fn visit_macro(&mut self, m: &'a Macro) {
        fn go(t: TokenStream, b: &mut Binds) {
            for x in t {
                match x {
                    TokenTree::Ident(i) => {
                        b.used.insert(i.to_string());
                    }
                    TokenTree::Literal(l) => b.text += &l.to_string(),
                    TokenTree::Group(g) => go(g.stream(), b),
                    _ => {}
                }
            }
        }
        go(m.tokens.clone(), self);
    }
}

fn scan(b: &Block) -> Binds {
    let mut v = Binds::default();
    v.visit_block(b);
    let all: BTreeSet<String> = v.names.iter().map(|n| n.0.clone()).collect();
    fn go(t: TokenStream, all: &BTreeSet<String>, out: &mut String) {
        let mut dot = false;
        for x in t {
            match &x {
                TokenTree::Ident(i) if !dot && all.contains(&i.to_string()) => out.push('_'),
                TokenTree::Group(g) => {
                    out.push('(');
                    go(g.stream(), all, out);
                    out.push(')');
                }
                x => *out += &x.to_string(),
            }
            dot = matches!(&x, TokenTree::Punct(p) if p.as_char() == '.');
        }
    }
    for (_, k) in v.names.iter_mut() {
        if let Ok(t) = k.parse::<TokenStream>() {
            let mut s = String::new();
            go(t, &all, &mut s);
            *k = s.split_whitespace().collect();
        }
    }
    v
}
pub fn names(b: &Block) -> Vec<String> {
    scan(b).names.into_iter().map(|(n, k)| format!("{n}={k}")).collect()
}

struct Ren<'a>(&'a BTreeMap<String, String>);
impl Ren<'_> {
    fn of(&self, i: &Ident) -> Option<Ident> {
        self.0.get(&i.to_string()).map(|n| Ident::new(n, i.span()))
    }
    fn tokens(&self, t: TokenStream) -> TokenStream {
        let mut dot = false;
        t.into_iter()
            .map(|x| {
                let d = dot;
                dot = matches!(&x, TokenTree::Punct(p) if p.as_char() == '.');
                match x {
                    TokenTree::Ident(i) if !d => TokenTree::Ident(self.of(&i).unwrap_or(i)),
                    TokenTree::Group(g) => TokenTree::Group(Group::new(g.delimiter(), self.tokens(g.stream()))),
                    x => x,
                }
            })
            .collect()
    }
}
impl VisitMut for Ren<'_> {
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
        if let Some(n) = self.of(&p.ident) {
            p.ident = n;
        }
        visit_mut::visit_pat_ident_mut(self, p);
    }
    fn visit_field_pat_mut(&mut self, f: &mut FieldPat) {
        if f.colon_token.is_none() {
            f.colon_token = Some(Default::default());
        }
        visit_mut::visit_field_pat_mut(self, f);
    }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
        if f.colon_token.is_none() {
            f.colon_token = Some(Default::default());
        }
        visit_mut::visit_field_value_mut(self, f);
    }
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        if let (None, Some(i)) = (&p.qself, p.path.get_ident()) {
            if let Some(n) = self.of(i) {
                p.path.segments[0].ident = n;
                return;
            }
        }
        visit_mut::visit_expr_path_mut(self, p);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        m.tokens = self.tokens(m.tokens.clone());
    }
}

/// the renaming that `cur` needs to become `old`, by alignment
fn align(cur: &[String], old: &[String]) -> BTreeMap<String, String> {
    let (n, m) = (cur.len(), old.len());
    let mut t = vec![vec![0usize; m + 1]; n + 1];
    for i in (0..n).rev() {
        for j in (0..m).rev() {
            t[i][j] = if cur[i] == old[j] { t[i + 1][j + 1] + 1 } else { t[i + 1][j].max(t[i][j + 1]) };
        }
    }
    let mut pairs: Vec<(String, String)> = vec![];
    let (mut i, mut j, mut a, mut b) = (0, 0, 0, 0);
    let mut keep: BTreeSet<String> = BTreeSet::new();
    let mut gap = |a: usize, i: usize, b: usize, j: usize, keep: &mut BTreeSet<String>| {
        if i - a == j - b {
            pairs.extend(cur[a..i].iter().cloned().zip(old[b..j].iter().cloned()));
        } else {
            keep.extend(cur[a..i].iter().cloned());
        }
    };
    while i < n && j < m {
        if cur[i] == old[j] {
            gap(a, i, b, j, &mut keep);
            keep.insert(cur[i].clone());
            i += 1;
            j += 1;
            a = i;
            b = j;
        } else if t[i + 1][j] >= t[i][j + 1] {
            i += 1;
        } else {
            j += 1;
        }
    }
    gap(a, n, b, m, &mut keep);
    let mut map: BTreeMap<String, String> = BTreeMap::new();
    let mut bad: BTreeSet<String> = keep;
    for (c, o) in &pairs {
        match map.get(c) {
            Some(x) if x != o => {
                bad.insert(c.clone());
            }
            _ => {
                map.insert(c.clone(), o.clone());
            }
        }
    }
    // one to one
    let mut seen: BTreeMap<String, String> = BTreeMap::new();
    for (c, o) in &map {
        if let Some(x) = seen.insert(o.clone(), c.clone()) {
            bad.insert(x);
            bad.insert(c.clone());
        }
    }
    map.retain(|c, o| !bad.contains(c) && c != o);
    map
}

/// by what they are bound to: the k-th binding of an expression is the k-th binding of it
fn by_key(cur: &[Bind], old: &[Bind]) -> BTreeMap<String, String> {
    let free = |n: &str, l: &[Bind]| !l.iter().any(|x| x.0 == n);
    let mut map = BTreeMap::new();
    let mut bad = BTreeSet::new();
    let rank = |l: &[Bind], k: usize| l[..k].iter().filter(|x| x.1 == l[k].1).count();
    let total = |l: &[Bind], key: &str| l.iter().filter(|x| x.1 == key).count();
    for (k, (n, key)) in cur.iter().enumerate() {
        if key.is_empty() || !free(n, old) || total(cur, key) != total(old, key) {
            continue;
        }
        let r = rank(cur, k);
        if let Some((_, (o, _))) = old.iter().enumerate().find(|(j, x)| x.1 == *key && rank(old, *j) == r) {
            if free(o, cur) && map.insert(n.clone(), o.clone()).map_or(false, |x| x != *o) {
                bad.insert(n.clone());
            }
        }
    }
    let mut seen: BTreeMap<String, String> = BTreeMap::new();
    for (c, o) in &map {
        if let Some(x) = seen.insert(o.clone(), c.clone()) {
            bad.insert(x);
            bad.insert(c.clone());
        }
    }
    map.retain(|c, _| !bad.contains(c));
    map
}

/// renames; returns what was renamed
pub fn run(path: &str, b: &mut Block, params: &[String]) -> Vec<String> {
    let Some(old) = PINNED.get().and_then(|p| p.get(path)) else { return vec![] };
    let mut v = scan(b);
    let plain = |l: &[Bind]| l.iter().map(|x| x.0.clone()).collect::<Vec<_>>();
    if old.iter().any(|o| plain(o) == plain(&v.names)) {
        return vec![];
    }
    // a function with variants (cfg): the closest one
    let same = |o: &Vec<Bind>| o.iter().filter(|n| v.names.iter().any(|m| m.0 == n.0)).count() * 2;
    let old = old.iter().max_by_key(|o| same(o) as isize - o.len() as isize).unwrap();
    let mut done = vec![];
    for step in 0..2 {
        let mut map = if step == 0 { by_key(&v.names, old) } else { align(&plain(&v.names), &plain(old)) };
        map.retain(|c, o| !v.used.contains(o) && !params.contains(o) && !params.contains(c) && !v.text.contains(&format!("{{{c}")));
        if !map.is_empty() {
            Ren(&map).visit_block_mut(b);
            v = scan(b);
            done.extend(map.into_iter().map(|(c, o)| format!("{c}->{o}")));
        }
    }
    done
}
