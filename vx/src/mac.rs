//! Clients of the crate's macros (macros/client.rs), after rustc has expanded them.
//! Each replaced call is std's or a conversion chosen by the type of its argument.
use crate::norm;
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub const FILE: &str = "macros.rs";

struct Fix;
impl VisitMut for Fix {
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        visit_mut::visit_path_mut(self, p);
        if p.segments.len() > 1 && p.segments[0].ident == "matreex" {
            p.leading_colon = None;
            p.segments = p.segments.iter().skip(1).cloned().collect();
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let Expr::Call(c) = e else { return };
        let f = norm(&c.func);
        let last = f.rsplit("::").next().unwrap().to_string();
        let a: Vec<Expr> = c.args.iter().cloned().collect();
        match last.as_str() {
            "panic_fmt" | "panic_display" | "panic_str_literal" | "begin_panic" => *e = parse_quote!(panic!()),
            "from_elem" => {
                let (x, n) = (&a[0], &a[1]);
                *e = if matches!(x, Expr::Array(_)) { parse_quote!(vp_from_elem_arr(#x, #n)) } else { parse_quote!(vp_from_elem(#x, #n)) }
            }
            "new" if f.ends_with("vec::Vec::new") => *e = parse_quote!(Vec::new()),
            "write_box_via_move" | "box_new" | "new_box" => *e = a.last().unwrap().clone(),
            "box_assume_init_into_vec_unsafe" | "into_vec" => {
                let x = &a[0];
                *e = parse_quote!(vp_vec_of(#x))
            }
            "from" if f == "Matrix::from" => {
                let x = &a[0];
                *e = if matches!(x, Expr::Array(_)) { parse_quote!(vp_From___T_C__R___from_for_Matrix_T_(#x)) } else { parse_quote!(vp_From_Vec__T_C____from_for_Matrix_T_(#x)) }
            }
            "with_value" | "with_default" if matches!(a[0], Expr::Tuple(_)) => {
                let (x, rest) = (&a[0], &a[1..]);
                let g = &c.func;
                *e = parse_quote!(#g(vp_From__usize_usize___from_for_Shape(#x), #(#rest),*))
            }
            _ => {}
        }
    }
}

pub fn items(file: File) -> Vec<(String, Item)> {
    file.items
        .into_iter()
        .filter_map(|mut i| {
            if let Item::Fn(_) = i {
                Fix.visit_item_mut(&mut i);
                Some((FILE.to_string(), i))
            } else {
                None
            }
        })
        .collect()
}
