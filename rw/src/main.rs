//! Mechanical extraction: turns a Rust source file of /repo into the same program over
//! symbolic reals. What it changes, and nothing else:
//!   * the types `f32` / `f64`  ->  `symrt::Sym`
//!   * float literals           ->  `symrt::lit(<literal>)`
//!   * `e as <float or int>`    ->  `symrt::CastTo::<T>::cast_to(e)`
//!   * float-typed `const`/`static` initialisers that compute  ->  `symrt::lit(<native computation>)`
//! What it drops: comments, doc attributes and items under `#[cfg(test)]`.
use proc_macro2::{Delimiter, Group, Ident, Literal, Span, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use syn::parse::Parser;
use syn::punctuated::Punctuated;
use syn::visit_mut::{self, VisitMut};
use syn::*;

struct R;

const INTS: [&str; 12] = [
    "u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize",
];

fn is_cfg_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        a.path().is_ident("test")
            || (a.path().is_ident("cfg") && {
                let s = a.meta.to_token_stream().to_string();
                s.replace(' ', "") == "cfg(test)"
            })
    })
}

fn is_float_ident(i: &Ident) -> bool {
    i == "f32" || i == "f64"
}

fn is_float_type(t: &Type) -> bool {
    matches!(t, Type::Path(p) if p.qself.is_none() && p.path.segments.len() == 1 && is_float_ident(&p.path.segments[0].ident))
}

fn float_tokens(text: &str) -> TokenStream {
    // strip suffix
    let t = text.replace('_', "");
    let t = t.strip_suffix("f32").or(t.strip_suffix("f64")).unwrap_or(&t).to_string();
    let t = if t.ends_with('.') { format!("{}0", t) } else { t };
    let t = if t.contains('.') || t.contains('e') || t.contains('E') { t } else { format!("{}.0", t) };
    let l: Literal = t.parse().unwrap();
    quote!((::symrt::Sym { id: 0, c: #l }))
}

fn is_upper(s: &str) -> bool {
    s.chars().all(|c| c.is_ascii_uppercase() || c.is_ascii_digit() || c == '_')
}

impl R {
    fn path(&mut self, p: &mut Path) {
        let n = p.segments.len();
        // std::f32::..., core::f64::...
        if n >= 2
            && (p.segments[0].ident == "std" || p.segments[0].ident == "core")
            && is_float_ident(&p.segments[1].ident)
        {
            p.segments[0].ident = Ident::new("symrt", Span::call_site());
            if n == 3 && !is_upper(&p.segments[2].ident.to_string()) && p.segments[2].ident != "consts" {
                p.segments[1].ident = Ident::new("Sym", Span::call_site());
            }
            return;
        }
        if n == 1 && is_float_ident(&p.segments[0].ident) && p.leading_colon.is_none() {
            *p = parse_quote!(::symrt::Sym);
            return;
        }
        if n >= 2 && is_float_ident(&p.segments[0].ident) {
            let second = p.segments[1].ident.to_string();
            let rest: Vec<PathSegment> = p.segments.iter().skip(1).cloned().collect();
            let mut np: Path = if second == "consts" || is_upper(&second) {
                let f = p.segments[0].ident.clone();
                parse_quote!(::symrt::#f)
            } else {
                parse_quote!(::symrt::Sym)
            };
            for s in rest {
                np.segments.push(s);
            }
            *p = np;
        }
    }

    fn tokens(&mut self, ts: TokenStream) -> TokenStream {
        // fallback for macro bodies that are not expression lists
        let mut out: Vec<TokenTree> = vec![];
        let toks: Vec<TokenTree> = ts.into_iter().collect();
        for (k, t) in toks.iter().enumerate() {
            match t {
                TokenTree::Group(g) => {
                    let mut ng = Group::new(g.delimiter(), self.tokens(g.stream()));
                    ng.set_span(g.span());
                    out.push(TokenTree::Group(ng));
                }
                TokenTree::Ident(i) if is_float_ident(i) => {
                    let s: TokenStream = quote!(::symrt::Sym);
                    out.extend(s);
                }
                TokenTree::Literal(l) => {
                    let s = l.to_string();
                    let prev_dot = k > 0 && matches!(&toks[k-1], TokenTree::Punct(p) if p.as_char() == '.');
                    let first = s.chars().next().unwrap();
                    let is_float = first.is_ascii_digit()
                        && !s.starts_with("0x")
                        && (s.contains('.') || s.ends_with("f32") || s.ends_with("f64"));
                    if is_float && !prev_dot {
                        out.extend(float_tokens(&s));
                    } else {
                        out.push(t.clone());
                    }
                }
                _ => out.push(t.clone()),
            }
        }
        out.into_iter().collect()
    }

    fn mac(&mut self, m: &mut Macro) {
        let name = m.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
        let ts = m.tokens.clone();
        if name == "macro_rules" {
            m.tokens = self.tokens(ts);
            return;
        }
        if name == "matches" {
            let p = |input: parse::ParseStream| -> Result<(Expr, TokenStream)> {
                let e: Expr = input.parse()?;
                let rest: TokenStream = input.parse()?;
                Ok((e, rest))
            };
            if let Ok((mut e, rest)) = p.parse2(ts.clone()) {
                self.visit_expr_mut(&mut e);
                m.tokens = quote!(#e #rest);
                return;
            }
        }
        // list of expressions
        if let Ok(mut l) = Punctuated::<Expr, Token![,]>::parse_terminated.parse2(ts.clone()) {
            for e in l.iter_mut() {
                // named format arguments parse as assignments: fine
                self.visit_expr_mut(e);
            }
            m.tokens = quote!(#l);
            return;
        }
        // vec![x; n]
        let p = |input: parse::ParseStream| -> Result<(Expr, Expr)> {
            let e: Expr = input.parse()?;
            input.parse::<Token![;]>()?;
            let n: Expr = input.parse()?;
            Ok((e, n))
        };
        if let Ok((mut e, mut n)) = p.parse2(ts.clone()) {
            self.visit_expr_mut(&mut e);
            self.visit_expr_mut(&mut n);
            m.tokens = quote!(#e ; #n);
            return;
        }
        m.tokens = self.tokens(ts);
    }
}

impl VisitMut for R {
    fn visit_file_mut(&mut self, f: &mut File) {
        f.attrs.retain(|a| !a.path().is_ident("doc") && !a.path().is_ident("deny") && !a.path().is_ident("warn"));
        f.items.retain(|i| !item_test(i));
        visit_mut::visit_file_mut(self, f);
    }
    fn visit_item_mod_mut(&mut self, m: &mut ItemMod) {
        if let Some((_, items)) = &mut m.content {
            items.retain(|i| !item_test(i));
        }
        visit_mut::visit_item_mod_mut(self, m);
    }
    fn visit_item_impl_mut(&mut self, m: &mut ItemImpl) {
        m.items.retain(|i| match i {
            ImplItem::Fn(f) => !is_cfg_test(&f.attrs),
            _ => true,
        });
        visit_mut::visit_item_impl_mut(self, m);
    }
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.retain(|a| !a.path().is_ident("doc"));
    }
    fn visit_attribute_mut(&mut self, _: &mut Attribute) {}
    fn visit_path_mut(&mut self, p: &mut Path) {
        self.path(p);
        visit_mut::visit_path_mut(self, p);
    }
    fn visit_use_tree_mut(&mut self, t: &mut UseTree) {
        if let UseTree::Path(p) = t {
            if p.ident == "std" || p.ident == "core" {
                if let UseTree::Path(q) = &*p.tree {
                    if is_float_ident(&q.ident) {
                        p.ident = Ident::new("symrt", Span::call_site());
                    }
                }
            }
        }
        visit_mut::visit_use_tree_mut(self, t);
    }
    fn visit_item_const_mut(&mut self, c: &mut ItemConst) {
        if is_float_type(&c.ty) && !matches!(&*c.expr, Expr::Lit(_)) {
            let e = &c.expr;
            let ty = &c.ty;
            c.expr = Box::new(parse_quote!(::symrt::lit({ const V: #ty = #e; V as core::primitive::f64 })));
            c.ty = Box::new(parse_quote!(::symrt::Sym));
            return;
        }
        if matches!(&*c.ty, Type::Path(p) if p.path.segments.len()==1 && INTS.contains(&p.path.segments[0].ident.to_string().as_str())) {
            return; // integer constants stay as they are
        }
        visit_mut::visit_item_const_mut(self, c);
    }
    fn visit_type_array_mut(&mut self, t: &mut TypeArray) {
        self.visit_type_mut(&mut t.elem);
    }
    fn visit_expr_repeat_mut(&mut self, t: &mut ExprRepeat) {
        self.visit_expr_mut(&mut t.expr);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        self.mac(m);
    }
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        // literals in patterns stay (integers); float patterns are not supported
        visit_mut::visit_pat_mut(self, p);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Lit(l) => {
                let txt = match &l.lit {
                    Lit::Float(f) => Some(f.to_string()),
                    Lit::Int(i) if i.suffix() == "f32" || i.suffix() == "f64" => Some(i.to_string()),
                    _ => None,
                };
                if let Some(t) = txt {
                    let ts = float_tokens(&t);
                    *e = parse2(ts).unwrap();
                }
            }
            Expr::Unary(u) if matches!(u.op, UnOp::Neg(_)) => {
                if let Expr::Lit(ExprLit { lit: Lit::Float(f), .. }) = &*u.expr {
                    let inner = float_tokens(&f.to_string());
                    // const-context friendly
                    let s = inner.to_string().replace("c :", "c : -");
                    *e = parse_str(&s).unwrap();
                    return;
                }
                visit_mut::visit_expr_mut(self, e);
            }
            Expr::Cast(c) => {
                self.visit_expr_mut(&mut c.expr);
                let inner = c.expr.clone();
                let ty = c.ty.clone();
                if is_float_type(&ty) {
                    *e = parse_quote!(::symrt::CastTo::<::symrt::Sym>::cast_to(#inner));
                } else if let Type::Path(p) = &*ty {
                    if p.path.segments.len() == 1
                        && INTS.contains(&p.path.segments[0].ident.to_string().as_str())
                    {
                        *e = parse_quote!(::symrt::CastTo::<#ty>::cast_to(#inner));
                    } else if let Expr::Cast(c) = e {
                        self.visit_type_mut(&mut c.ty);
                    }
                } else if let Expr::Cast(c) = e {
                    self.visit_type_mut(&mut c.ty);
                }
            }
            Expr::Call(c) => {
                visit_mut::visit_expr_call_mut(self, c);
                if let Expr::Path(p) = &*c.func {
                    let last = p.path.segments.last().unwrap().ident.to_string();
                    if last == "from_secs_f32" || last == "from_secs_f64" {
                        if let Some(a) = c.args.first_mut() {
                            let x = a.clone();
                            let f = Ident::new(if last.ends_with("f32") { "native32" } else { "native64" }, Span::call_site());
                            *a = parse_quote!(::symrt::#f(#x));
                        }
                    }
                }
            }
            Expr::MethodCall(m) => {
                visit_mut::visit_expr_method_call_mut(self, m);
                if m.method == "as_secs_f32" || m.method == "as_secs_f64" {
                    let x = m.clone();
                    *e = parse_quote!(::symrt::Sym::from_native(#x));
                }
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
}

fn item_test(i: &Item) -> bool {
    let a: &[Attribute] = match i {
        Item::Mod(m) => &m.attrs,
        Item::Fn(m) => &m.attrs,
        Item::Use(m) => &m.attrs,
        Item::Impl(m) => &m.attrs,
        Item::Struct(m) => &m.attrs,
        Item::Const(m) => &m.attrs,
        _ => return false,
    };
    is_cfg_test(a)
}

fn main() {
    let _ = Delimiter::Brace;
    let args: Vec<String> = std::env::args().collect();
    // rw IN OUT [IN OUT ...]
    let mut bad = false;
    for c in args[1..].chunks(2) {
        let s = std::fs::read_to_string(&c[0]).expect("read");
        match parse_file(&s) {
            Ok(mut f) => {
                R.visit_file_mut(&mut f);
                std::fs::write(&c[1], prettyplease::unparse(&f)).expect("write");
            }
            Err(e) => {
                eprintln!("rw: {}: {}", c[0], e);
                bad = true;
            }
        }
    }
    if bad {
        std::process::exit(2);
    }
}
