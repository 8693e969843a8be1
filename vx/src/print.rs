//! Token printer: plain Rust tokens with newlines, plus the placeholder macros.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

fn lit(t: &TokenTree) -> Option<String> {
    let ts: TokenStream = std::iter::once(t.clone()).collect();
    syn::parse2::<syn::LitStr>(ts).ok().map(|l| l.value())
}

pub fn pp(ts: TokenStream) -> String {
    let mut s = String::new();
    go(ts, &mut s, 0, true);
    s
}

fn go(ts: TokenStream, out: &mut String, depth: usize, brace: bool) {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut i = 0;
    let mut glue = true;
    while i < v.len() {
        if let TokenTree::Ident(id) = &v[i] {
            let n = id.to_string();
            if n.starts_with("vp_") && i + 2 < v.len() {
                if let (TokenTree::Punct(p), TokenTree::Group(g)) = (&v[i + 1], &v[i + 2]) {
                    if p.as_char() == '!' {
                        let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                        let txt = inner.first().and_then(lit);
                        if let Some(txt) = txt {
                            let mut done = true;
                            match n.as_str() {
                                "vp_ph" => out.push_str(&format!("@@PH:{txt}@@\n")),
                                "vp_raw" => out.push_str(&format!("{txt}\n")),
                                "vp_ls" => out.push_str(&format!("@@LS:{txt}@@\n")),
                                "vp_cl" => {
                                    out.push_str(&format!("@@CL:{txt}@@ "));
                                    for t in &inner[1..] {
                                        if let TokenTree::Group(g) = t {
                                            out.push_str("{ ");
                                            go(g.stream(), out, depth + 1, true);
                                            out.push_str("} ");
                                        }
                                    }
                                    i += 3;
                                    glue = false;
                                    continue;
                                }
                                _ => done = false,
                            }
                            if done {
                                i += 3;
                                if i < v.len() {
                                    if let TokenTree::Punct(p) = &v[i] {
                                        if p.as_char() == ';' {
                                            i += 1;
                                        }
                                    }
                                }
                                glue = true;
                                continue;
                            }
                        }
                    }
                }
            }
        }
        match &v[i] {
            TokenTree::Group(g) => {
                let (a, b) = match g.delimiter() {
                    Delimiter::Brace => ("{", "}"),
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::None => ("", ""),
                };
                let isb = g.delimiter() == Delimiter::Brace;
                out.push_str(a);
                if isb {
                    out.push('\n');
                }
                go(g.stream(), out, depth + 1, isb);
                if isb && !out.ends_with('\n') {
                    out.push('\n');
                }
                out.push_str(b);
                let next_semi = matches!(v.get(i + 1), Some(TokenTree::Punct(p)) if [';', ',', '.', '?'].contains(&p.as_char()));
                if isb && !next_semi {
                    out.push('\n');
                } else {
                    out.push(' ');
                }
                glue = true;
            }
            TokenTree::Punct(p) => {
                out.push(p.as_char());
                if p.as_char() == ';' && brace {
                    out.push('\n');
                    glue = true;
                } else if p.spacing() == Spacing::Joint || p.as_char() == '\'' {
                    glue = true;
                } else {
                    out.push(' ');
                    glue = true;
                }
            }
            t => {
                let _ = glue;
                out.push_str(&t.to_string());
                out.push(' ');
                glue = true;
            }
        }
        i += 1;
    }
}
