//! Index of the items of /repo/src: functions by path, items by name, local macros.
use quote::ToTokens;
use std::collections::HashMap;
use syn::*;

#[derive(Clone)]
pub struct FnInfo {
    pub attrs: Vec<Attribute>,
    pub sig: Signature,
    pub block: Block,
    pub impl_generics: Option<Generics>,
    pub self_ty: Option<Type>,
    pub self_name: Option<String>,
    pub trait_: Option<Path>,
}

#[derive(Default)]
pub struct FileIdx {
    pub fns: HashMap<String, FnInfo>,
    pub items: HashMap<String, Item>,
    pub macros: HashMap<String, ItemMacro>,
    /// invocations of item macros such as bitflags!
    pub invocations: Vec<ItemMacro>,
    /// name in this file -> full path, from its use declarations
    pub uses: HashMap<String, String>,
}

fn use_tree(t: &UseTree, pre: &str, uses: &mut HashMap<String, String>) {
    match t {
        UseTree::Path(p) => use_tree(&p.tree, &format!("{pre}{}::", p.ident), uses),
        UseTree::Name(n) => {
            uses.insert(n.ident.to_string(), format!("{pre}{}", n.ident));
        }
        UseTree::Rename(n) => {
            uses.insert(n.rename.to_string(), format!("{pre}{}", n.ident));
        }
        UseTree::Group(g) => g.items.iter().for_each(|t| use_tree(t, pre, uses)),
        UseTree::Glob(_) => {}
    }
}

thread_local! {
    /// what is switched on, or off with a leading `-`, against the usual build
    pub static CFGS: std::cell::RefCell<Vec<String>> = std::cell::RefCell::new(vec![]);
}
fn switched(n: &str, usual: bool) -> bool {
    CFGS.with(|c| {
        let c = c.borrow();
        (usual || c.iter().any(|x| x == n)) && !c.iter().any(|x| x.strip_prefix('-') == Some(n))
    })
}

/// Evaluates a cfg predicate for the build that is verified.
pub fn cfg_true(m: &Meta) -> bool {
    match m {
        Meta::Path(p) => {
            let s = p.to_token_stream().to_string();
            switched(&s, matches!(s.as_str(), "unix" | "debug_assertions" | "panic"))
        }
        Meta::NameValue(nv) => {
            let k = nv.path.to_token_stream().to_string();
            let v = nv.value.to_token_stream().to_string();
            let v = v.trim_matches('"');
            match k.as_str() {
                "feature" => switched(v, matches!(v, "internal-tests" | "capi")),
                "target_arch" => v == "x86_64",
                "target_feature" => matches!(v, "sse" | "sse2" | "fxsr"),
                "target_pointer_width" => v == "64",
                "target_os" => v == "linux",
                _ => false,
            }
        }
        Meta::List(l) => {
            let k = l.path.to_token_stream().to_string();
            let args = l
                .parse_args_with(punctuated::Punctuated::<Meta, Token![,]>::parse_terminated)
                .map(|p| p.into_iter().collect::<Vec<_>>())
                .unwrap_or_default();
            match k.as_str() {
                "all" => args.iter().all(cfg_true),
                "any" => args.iter().any(cfg_true),
                "not" => !args.first().map(cfg_true).unwrap_or(false),
                _ => false,
            }
        }
    }
}

pub fn enabled(attrs: &[Attribute]) -> bool {
    attrs.iter().all(|a| {
        if a.path().is_ident("cfg") {
            match a.parse_args::<Meta>() {
                Ok(m) => cfg_true(&m),
                Err(_) => true,
            }
        } else {
            true
        }
    })
}

pub fn ty_name(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        Type::Reference(r) => ty_name(&r.elem),
        Type::Array(a) => format!("[{}]", ty_name(&a.elem)),
        Type::Slice(a) => format!("[{}]", ty_name(&a.elem)),
        _ => t.to_token_stream().to_string(),
    }
}

impl FileIdx {
    pub fn build(items: &[Item], idx: &mut FileIdx) {
        for it in items {
            match it {
                Item::Fn(f) if enabled(&f.attrs) => {
                    idx.fns.insert(
                        f.sig.ident.to_string(),
                        FnInfo {
                            attrs: f.attrs.clone(),
                            sig: f.sig.clone(),
                            block: (*f.block).clone(),
                            impl_generics: None,
                            self_ty: None,
                            self_name: None,
                            trait_: None,
                        },
                    );
                }
                Item::Impl(im) if enabled(&im.attrs) => {
                    let name = ty_name(&im.self_ty);
                    let tr = im.trait_.as_ref().map(|(_, p, _)| p.clone());
                    let key = match &tr {
                        Some(p) => format!("{}.{}", name, p.segments.last().unwrap().ident),
                        None => name.clone(),
                    };
                    for ii in &im.items {
                        match ii {
                            ImplItem::Fn(f) if enabled(&f.attrs) => {
                                idx.fns.insert(
                                    format!("{}::{}", key, f.sig.ident),
                                    FnInfo {
                                        attrs: f.attrs.clone(),
                                        sig: f.sig.clone(),
                                        block: f.block.clone(),
                                        impl_generics: Some(im.generics.clone()),
                                        self_ty: Some((*im.self_ty).clone()),
                                        self_name: Some(name.clone()),
                                        trait_: tr.clone(),
                                    },
                                );
                            }
                            ImplItem::Const(c) => {
                                // the value of an associated constant, as the body of a function
                                let (t, e) = (&c.ty, &c.expr);
                                let f = Ident::new(&format!("vx_{}", c.ident.to_string().to_lowercase()), c.ident.span());
                                idx.fns.insert(
                                    format!("{}::{}", key, c.ident),
                                    FnInfo {
                                        attrs: c.attrs.clone(),
                                        sig: parse_quote!(fn #f() -> #t),
                                        block: parse_quote!({ #e }),
                                        impl_generics: Some(im.generics.clone()),
                                        self_ty: Some((*im.self_ty).clone()),
                                        self_name: Some(name.clone()),
                                        trait_: tr.clone(),
                                    },
                                );
                                idx.items.insert(
                                    format!("{}::{}", key, c.ident),
                                    Item::Const(ItemConst {
                                        attrs: vec![],
                                        vis: Visibility::Inherited,
                                        const_token: c.const_token,
                                        ident: c.ident.clone(),
                                        generics: Generics::default(),
                                        colon_token: c.colon_token,
                                        ty: Box::new(c.ty.clone()),
                                        eq_token: c.eq_token,
                                        expr: Box::new(c.expr.clone()),
                                        semi_token: c.semi_token,
                                    }),
                                );
                            }
                            _ => {}
                        }
                    }
                }
                Item::Struct(s) if enabled(&s.attrs) => {
                    idx.items.insert(s.ident.to_string(), it.clone());
                }
                Item::Enum(s) if enabled(&s.attrs) => {
                    idx.items.insert(s.ident.to_string(), it.clone());
                }
                Item::Const(s) if enabled(&s.attrs) => {
                    idx.items.insert(s.ident.to_string(), it.clone());
                }
                Item::Static(s) if enabled(&s.attrs) => {
                    idx.items.insert(s.ident.to_string(), it.clone());
                }
                Item::Use(u) if enabled(&u.attrs) => use_tree(&u.tree, "", &mut idx.uses),
                Item::Trait(s) if enabled(&s.attrs) => {
                    idx.items.insert(s.ident.to_string(), it.clone());
                }
                Item::Macro(m) if enabled(&m.attrs) => {
                    if m.mac.path.is_ident("macro_rules") {
                        if let Some(id) = &m.ident {
                            idx.macros.insert(id.to_string(), m.clone());
                        }
                    } else {
                        idx.invocations.push(m.clone());
                    }
                }
                Item::Mod(m) if enabled(&m.attrs) && m.ident != "tests" && m.ident != "c_tests" => {
                    if let Some((_, items)) = &m.content {
                        FileIdx::build(items, idx);
                    }
                }
                _ => {}
            }
        }
    }
}

/// Forms the normaliser does not know, in terms of those it does: let-else, matches!, constants that are not emitted.
struct Desugar<'a> {
    consts: &'a HashMap<String, (Type, Expr)>,
    self_name: Option<String>,
    depth: usize,
}
fn suffixed(t: &Type, e: &Expr) -> Expr {
    let ts = t.to_token_stream().to_string();
    let num = ["u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize", "f32", "f64"];
    if let (true, Expr::Lit(l)) = (num.contains(&ts.as_str()), e) {
        let d = match &l.lit {
            Lit::Int(i) if i.suffix().is_empty() => Some(i.base10_digits().to_string()),
            Lit::Float(i) if i.suffix().is_empty() => Some(i.base10_digits().to_string()),
            _ => None,
        };
        if let Some(d) = d {
            if let Ok(x) = parse_str::<Expr>(&format!("{d}{ts}")) {
                return x;
            }
        }
    }
    if matches!(e, Expr::Lit(_) | Expr::Path(_)) {
        return e.clone();
    }
    parse_quote!((#e))
}
fn binds(p: &Pat, out: &mut Vec<Ident>) {
    struct B<'a>(&'a mut Vec<Ident>);
    impl<'a, 'b> visit::Visit<'b> for B<'a> {
        fn visit_pat_ident(&mut self, p: &'b PatIdent) {
            let n = p.ident.to_string();
            if p.subpat.is_some() || n.chars().next().map(|c| c.is_lowercase() || c == '_').unwrap_or(false) {
                self.0.push(p.ident.clone());
            }
            visit::visit_pat_ident(self, p)
        }
    }
    visit::Visit::visit_pat(&mut B(out), p);
}
impl<'a> visit_mut::VisitMut for Desugar<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Macro(m) = e {
            if m.mac.path.is_ident("matches") {
                let parsed = m.mac.parse_body_with(|i: parse::ParseStream| {
                    let x: Expr = i.parse()?;
                    i.parse::<Token![,]>()?;
                    let p = Pat::parse_multi_with_leading_vert(i)?;
                    let g: Option<Expr> = if i.peek(Token![if]) {
                        i.parse::<Token![if]>()?;
                        Some(i.parse()?)
                    } else {
                        None
                    };
                    let _ = i.parse::<Option<Token![,]>>()?;
                    Ok((x, p, g))
                });
                if let Ok((x, p, g)) = parsed {
                    *e = match g {
                        None => parse_quote!((match #x { #p => true, _ => false })),
                        Some(g) => parse_quote!((match #x { #p if #g => true, _ => false })),
                    };
                }
            }
        }
        let key = match &*e {
            Expr::Path(p) if p.qself.is_none() && p.path.segments.len() <= 2 => {
                let v: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                match &v[..] {
                    [a] => Some(a.clone()),
                    [a, b] if a == "Self" => self.self_name.as_ref().map(|s| format!("{s}::{b}")),
                    [a, b] if a == "self" => Some(b.clone()),
                    [a, b] => Some(format!("{a}::{b}")),
                    _ => None,
                }
            }
            _ => None,
        };
        if let Some((t, x)) = key.and_then(|k| self.consts.get(&k)) {
            if self.depth < 8 {
                let mut x = suffixed(t, x);
                self.depth += 1;
                self.visit_expr_mut(&mut x);
                self.depth -= 1;
                *e = x;
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Local(l) = s {
            if let Some(LocalInit { expr, diverge: Some((_, d)), .. }) = &l.init {
                let mut names = vec![];
                binds(&l.pat, &mut names);
                let mut pat = l.pat.clone();
                if let Pat::Type(t) = &pat {
                    pat = (*t.pat).clone();
                }
                *s = match &names[..] {
                    [] => parse_quote!(match #expr { #pat => (), _ => #d }),
                    [x] => parse_quote!(let #x = match #expr { #pat => #x, _ => #d };),
                    v => parse_quote!(let (#(#v),*) = match #expr { #pat => (#(#v),*), _ => #d };),
                };
            }
        }
        visit_mut::visit_stmt_mut(self, s);
    }
}
impl FileIdx {
    /// `emitted`: items that stay items
    pub fn desugar(&mut self, emitted: &std::collections::HashSet<String>) {
        let mut consts = HashMap::new();
        for (k, it) in &self.items {
            if let Item::Const(c) = it {
                if !emitted.contains(k) && !matches!(*c.ty, Type::Array(_) | Type::Reference(_)) {
                    consts.insert(k.clone(), ((*c.ty).clone(), (*c.expr).clone()));
                }
            }
        }
        for f in self.fns.values_mut() {
            let mut d = Desugar { consts: &consts, self_name: f.self_name.clone(), depth: 0 };
            visit_mut::VisitMut::visit_block_mut(&mut d, &mut f.block);
        }
    }
}
