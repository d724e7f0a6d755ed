//! gfx SRC_CRATE DST_CRATE STATS_DIR: derive a copy of the library in which the primitive type
//! `f64` is `gf::Gf64` and `statrs` is the stand-in. Nothing else changes.
use quote::ToTokens;
use std::path::Path;
use syn::visit_mut::*;
use syn::*;

struct V;
fn is_f64(p: &syn::Path) -> bool {
    p.segments.len() >= 1 && p.segments[0].ident == "f64" && p.leading_colon.is_none()
}
fn swap(p: &mut syn::Path) {
    let rest: Vec<PathSegment> = p.segments.iter().skip(1).cloned().collect();
    let mut q: syn::Path = parse_quote!(::gf::Gf64);
    for s in rest {
        q.segments.push(s);
    }
    *p = q;
}
fn test_only(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("cfg") && a.meta.to_token_stream().to_string().replace(' ', "") == "cfg(test)")
}
impl VisitMut for V {
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        if is_f64(p) {
            swap(p);
        }
        if p.segments.len() > 1 {
            let l = p.segments.last().unwrap().ident.to_string();
            if l == "to_f64" {
                *p = parse_quote!(::gf::ToGf::to_gf);
            } else if l == "from_f64" {
                let k = p.segments.len() - 1;
                let id = Ident::new("from_gf", p.segments[k].ident.span());
                p.segments[k].ident = id;
                if k == 1 && p.segments[0].ident == "FromPrimitive" || k == 2 && p.segments[1].ident == "FromPrimitive" {
                    *p = parse_quote!(::gf::FromGf::from_gf);
                }
            }
        }
        visit_path_mut(self, p);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_expr_mut(self, e);
        let new: Option<Expr> = match e {
            Expr::Cast(c) if c.ty.to_token_stream().to_string().replace(' ', "") == "::gf::Gf64" => {
                let x = &c.expr;
                Some(parse_quote!(::gf::cast(#x)))
            }
            Expr::Lit(ExprLit { lit: Lit::Float(f), .. }) if f.suffix() == "" || f.suffix() == "f64" => {
                let x: Lit = Lit::Float(LitFloat::new(&format!("{:?}f64", f.base10_parse::<f64>().unwrap()), f.span()));
                Some(parse_quote!(::gf::Gf64::lit(#x)))
            }
            Expr::MethodCall(m) if m.method == "to_f64" => {
                m.method = Ident::new("to_gf", m.method.span());
                None
            }
            _ => None,
        };
        if let Some(n) = new {
            *e = n;
        }
    }
    // conversions of responses keep the primitive types
    fn visit_item_impl_mut(&mut self, i: &mut ItemImpl) {
        let s = i.self_ty.to_token_stream().to_string();
        if i.trait_.is_some() && (s == "f64" || s == "f32") {
            return;
        }
        visit_item_impl_mut(self, i);
    }
    fn visit_item_mod_mut(&mut self, m: &mut ItemMod) {
        if test_only(&m.attrs) {
            m.content = Some((Default::default(), vec![]));
            m.semi = None;
            return;
        }
        visit_item_mod_mut(self, m);
        if let Some((_, items)) = &mut m.content {
            items.push(parse_quote!(#[allow(unused_imports)] use ::gf::{FromGf as _, ToGf as _};));
        }
    }
    fn visit_attribute_mut(&mut self, _: &mut Attribute) {}
}
fn walk(src: &Path, dst: &Path) {
    std::fs::create_dir_all(dst).unwrap();
    let mut seen = vec![];
    for e in std::fs::read_dir(src).unwrap() {
        let e = e.unwrap();
        let (s, d) = (e.path(), dst.join(e.file_name()));
        seen.push(e.file_name());
        if s.is_dir() {
            walk(&s, &d);
            continue;
        }
        let text = std::fs::read_to_string(&s).unwrap();
        let out = if s.extension().is_some_and(|x| x == "rs") {
            let mut f = parse_file(&text).unwrap_or_else(|e| panic!("{}: {e}", s.display()));
            // documentation is not needed (and its attribute macros cost time)
            V.visit_file_mut(&mut f);
            f.items.push(parse_quote!(#[allow(unused_imports)] use ::gf::{FromGf as _, ToGf as _};));
            f.to_token_stream().to_string()
        } else {
            text
        };
        if std::fs::read_to_string(&d).ok().as_deref() != Some(&out) {
            std::fs::write(&d, out).unwrap();
        }
    }
    for e in std::fs::read_dir(dst).unwrap() {
        let e = e.unwrap();
        if !seen.contains(&e.file_name()) {
            let p = e.path();
            if p.is_dir() { std::fs::remove_dir_all(p).unwrap() } else { std::fs::remove_file(p).unwrap() }
        }
    }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (src, dst, stats) = (Path::new(&a[1]), Path::new(&a[2]), &a[3]);
    walk(&src.join("src"), &dst.join("src"));
    let mut out = String::new();
    let toml = std::fs::read_to_string(src.join("Cargo.toml")).unwrap();
    let mut skip = false;
    for l in toml.lines() {
        if l.starts_with('[') {
            skip = l.starts_with("[dev-dependencies") || l.starts_with("[[") || l.starts_with("[package.metadata");
        }
        if skip {
            continue;
        }
        if l.starts_with("statrs") {
            out += &format!("statrs = {{ path = \"{stats}/statrs\", optional = true }}\ngf = {{ path = \"{stats}/gf\" }}\n");
        } else if !l.starts_with("readme") {
            out += l;
            out += "\n";
        }
    }
    if std::fs::read_to_string(dst.join("Cargo.toml")).ok().as_deref() != Some(&out) {
        std::fs::write(dst.join("Cargo.toml"), out).unwrap();
    }
}
