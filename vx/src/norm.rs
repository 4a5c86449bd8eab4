//! Normalisation of the real function bodies into the subset of Rust Verus accepts.
//! Every rule is semantics preserving (see DESIGN.md, "What the extraction does"); whatever is not covered is reported
//! as unsupported, never guessed.
use crate::index::*;
use quote::{quote, ToTokens};
use std::collections::{HashMap, HashSet};
use syn::visit_mut::VisitMut;
use syn::*;

#[derive(Clone, Debug)]
pub enum Bind {
    Local,
    /// reference bound to a place; uses are replaced by the place
    Place(Expr, bool),
    /// sub-slice of a place
    View { base: Expr, off: Expr, len: Expr, m: bool },
    Const(Expr),
    /// materialised iterator
    IterVec,
    OptIter,
    FnMut,
    RefParam,
}

#[derive(Clone)]
pub enum Item_ {
    Val(Expr),
    Place(Expr, bool),
    View { base: Expr, off: Expr, len: Expr, m: bool },
    Tuple(Vec<Item_>),
}

pub struct Prod {
    setup: Vec<Stmt>,
    len: Expr,
    item: Box<dyn Fn(&Expr) -> Item_>,
}

pub struct Norm<'a> {
    pub file: &'a FileIdx,
    pub contracted: &'a HashSet<String>,
    pub macrofns: &'a HashSet<String>,
    /// parameters of type &mut
    pub mutrefs: HashSet<String>,
    pub self_name: Option<String>,
    pub scopes: Vec<HashMap<String, Bind>>,
    pub decls: Vec<String>,
    pub loops: usize,
    pub loop_muts: Vec<Vec<String>>,
    pub tmp: usize,
    pub accs: usize,
    pub macros: HashMap<String, ItemMacro>,
    pub inlined: Vec<String>,
    pub inline_depth: usize,
    pub unsupported: Vec<String>,
    pub lifted: Vec<String>,
    pub used_rules: HashSet<&'static str>,
}

fn id(s: &str) -> Ident {
    Ident::new(s, proc_macro2::Span::call_site())
}
fn ex(s: &str) -> Expr {
    parse_str(s).unwrap_or_else(|e| panic!("bad expr {s}: {e}"))
}
fn path_ident(e: &Expr) -> Option<String> {
    match e {
        Expr::Path(p) if p.qself.is_none() && p.path.segments.len() == 1 => Some(p.path.segments[0].ident.to_string()),
        Expr::Paren(p) => path_ident(&p.expr),
        Expr::Group(p) => path_ident(&p.expr),
        _ => None,
    }
}
fn path_str(e: &Expr) -> String {
    match e {
        Expr::Path(p) => p.to_token_stream().to_string().replace(' ', ""),
        _ => String::new(),
    }
}
fn strip(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip(&p.expr),
        Expr::Group(p) => strip(&p.expr),
        _ => e,
    }
}
/// `Mode::X`, or an operation on such
fn is_flags(e: &Expr) -> bool {
    match e {
        Expr::Path(p) => p.path.segments.len() == 2 && p.path.segments[0].ident == "Mode",
        Expr::Paren(p) => is_flags(&p.expr),
        Expr::Call(c) => matches!(&*c.func, Expr::Path(p) if p.path.segments.len() == 2 && p.path.segments[0].ident == "Mode" && (p.path.segments[1].ident == "union" || p.path.segments[1].ident == "intersection")),
        _ => false,
    }
}
fn is_simple(e: &Expr) -> bool {
    match strip(e) {
        Expr::Path(_) | Expr::Lit(_) => true,
        Expr::Field(f) => is_simple(&f.base),
        Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => is_simple(&u.expr),
        _ => false,
    }
}
fn closure(e: &Expr) -> Option<&ExprClosure> {
    match strip(e) {
        Expr::Closure(c) => Some(c),
        _ => None,
    }
}
fn strip_pat(p: &Pat) -> &Pat {
    match p {
        Pat::Type(t) => strip_pat(&t.pat),
        Pat::Paren(t) => strip_pat(&t.pat),
        _ => p,
    }
}

pub fn pat_idents(p: &Pat, out: &mut Vec<(String, bool)>) {
    match p {
        Pat::Ident(i) => {
            out.push((i.ident.to_string(), i.mutability.is_some()));
            if let Some((_, s)) = &i.subpat {
                pat_idents(s, out);
            }
        }
        Pat::Tuple(t) => t.elems.iter().for_each(|p| pat_idents(p, out)),
        Pat::TupleStruct(t) => t.elems.iter().for_each(|p| pat_idents(p, out)),
        Pat::Struct(t) => t.fields.iter().for_each(|f| pat_idents(&f.pat, out)),
        Pat::Reference(r) => pat_idents(&r.pat, out),
        Pat::Slice(t) => t.elems.iter().for_each(|p| pat_idents(p, out)),
        Pat::Or(t) => {
            if let Some(p) = t.cases.first() {
                pat_idents(p, out)
            }
        }
        Pat::Type(t) => pat_idents(&t.pat, out),
        Pat::Paren(t) => pat_idents(&t.pat, out),
        _ => {}
    }
}

struct HasFlow {
    ret: bool,
    brk: bool,
}
impl<'ast> syn::visit::Visit<'ast> for HasFlow {
    fn visit_expr_return(&mut self, _: &'ast ExprReturn) {
        self.ret = true;
    }
    fn visit_expr_try(&mut self, i: &'ast ExprTry) {
        self.ret = true;
        syn::visit::visit_expr_try(self, i);
    }
    fn visit_expr_break(&mut self, _: &'ast ExprBreak) {
        self.brk = true;
    }
    fn visit_expr_for_loop(&mut self, i: &'ast ExprForLoop) {
        let b = self.brk;
        syn::visit::visit_expr_for_loop(self, i);
        self.brk = b;
    }
    fn visit_expr_while(&mut self, i: &'ast ExprWhile) {
        let b = self.brk;
        syn::visit::visit_expr_while(self, i);
        self.brk = b;
    }
    fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {}
}
fn flow_block(b: &Block) -> (bool, bool) {
    let mut h = HasFlow { ret: false, brk: false };
    syn::visit::visit_block(&mut h, b);
    (h.ret, h.brk)
}
fn flow_expr(b: &Expr) -> (bool, bool) {
    let mut h = HasFlow { ret: false, brk: false };
    syn::visit::visit_expr(&mut h, b);
    (h.ret, h.brk)
}

struct Assigned(Vec<String>);
impl<'ast> syn::visit::Visit<'ast> for Assigned {
    fn visit_expr_assign(&mut self, a: &'ast ExprAssign) {
        let mut l = &*a.left;
        loop {
            match l {
                Expr::Field(f) => l = &f.base,
                Expr::Index(f) => l = &f.expr,
                Expr::Paren(f) => l = &f.expr,
                _ => break,
            }
        }
        if let Some(n) = path_ident(l) {
            self.0.push(n);
        }
        syn::visit::visit_expr_assign(self, a);
    }
}

pub struct Rename<'a>(pub &'a HashMap<String, Ident>);
impl<'a> VisitMut for Rename<'a> {
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        if p.qself.is_none() && p.path.segments.len() == 1 {
            if let Some(n) = self.0.get(&p.path.segments[0].ident.to_string()) {
                p.path.segments[0].ident = n.clone();
            }
        }
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        m.tokens = rename_tokens(m.tokens.clone(), self.0);
    }
}
fn rename_tokens(ts: proc_macro2::TokenStream, m: &HashMap<String, Ident>) -> proc_macro2::TokenStream {
    use proc_macro2::TokenTree as TT;
    ts.into_iter()
        .map(|t| match t {
            TT::Ident(i) => match m.get(&i.to_string()) {
                Some(n) => TT::Ident(n.clone()),
                None => TT::Ident(i),
            },
            TT::Group(g) => TT::Group(proc_macro2::Group::new(g.delimiter(), rename_tokens(g.stream(), m))),
            t => t,
        })
        .collect()
}

impl<'a> Norm<'a> {
    fn unsup(&mut self, what: impl Into<String>) -> Expr {
        self.unsupported.push(what.into());
        parse_quote!(vx_unsupported())
    }
    fn lookup(&self, n: &str) -> Option<Bind> {
        for s in self.scopes.iter().rev() {
            if let Some(b) = s.get(n) {
                return Some(b.clone());
            }
        }
        None
    }
    fn lookup_e(&self, e: &Expr) -> Option<Bind> {
        path_ident(e).and_then(|n| self.lookup(&n))
    }
    fn set(&mut self, n: &str, b: Bind) {
        self.scopes.last_mut().unwrap().insert(n.to_string(), b);
    }
    fn declare(&mut self, n: &str) {
        self.set(n, Bind::Local);
    }
    fn fresh(&mut self, p: &str) -> Ident {
        self.tmp += 1;
        id(&format!("vx_{}{}", p, self.tmp - 1))
    }
    fn scoped<R>(&mut self, f: impl FnOnce(&mut Self) -> R) -> R {
        self.scopes.push(HashMap::new());
        let r = f(self);
        self.scopes.pop();
        r
    }
    fn declare_pat(&mut self, p: &Pat) {
        let mut v = vec![];
        pat_idents(p, &mut v);
        for (n, _) in v {
            self.declare(&n);
        }
    }

    // ---------------------------------------------------------------- blocks and statements

    pub fn block(&mut self, b: &Block) -> Block {
        self.scoped(|s| s.block_inner(b))
    }
    pub fn block_inner(&mut self, b: &Block) -> Block {
        let mut out = vec![];
        let stmts: Vec<&Stmt> = b.stmts.iter().collect();
        for st in stmts {
            self.stmt(st, &mut out);
        }
        Block { brace_token: Default::default(), stmts: out }
    }

    fn stmt(&mut self, st: &Stmt, out: &mut Vec<Stmt>) {
        match st {
            Stmt::Local(l) => {
                if enabled(&l.attrs) {
                    self.local(l, out)
                }
            }
            Stmt::Item(i) => match i {
                Item::Use(_) => {}
                Item::Const(c) => {
                    let e = self.expr(&c.expr);
                    let e = if is_simple(&e) { e } else { parse_quote!((#e)) };
                    self.set(&c.ident.to_string(), Bind::Const(e));
                }
                Item::Macro(m) if m.mac.path.is_ident("macro_rules") => {
                    self.macros.insert(m.ident.as_ref().unwrap().to_string(), m.clone());
                }
                Item::Enum(en) => {
                    let mut en = en.clone();
                    en.attrs.clear();
                    en.vis = parse_quote!(pub);
                    self.lifted.push(en.to_token_stream().to_string());
                }
                _ => {
                    self.unsup("nested item");
                }
            },
            Stmt::Expr(e, semi) => {
                let attrs = match e {
                    Expr::Block(b) => b.attrs.clone(),
                    Expr::Assign(b) => b.attrs.clone(),
                    Expr::MethodCall(b) => b.attrs.clone(),
                    Expr::Unsafe(b) => b.attrs.clone(),
                    _ => vec![],
                };
                if !enabled(&attrs) {
                    return;
                }
                let had_cfg = attrs.iter().any(|a| a.path().is_ident("cfg"));
                if had_cfg {
                    if let Expr::Block(b) = e {
                        // #[cfg(..)] { .. } : a plain block, its tail is the tail of the function
                        let b = self.block(&b.block);
                        out.push(Stmt::Expr(Expr::Block(ExprBlock { attrs: vec![], label: None, block: b }), *semi));
                        return;
                    }
                }
                if semi.is_some() || matches!(e, Expr::ForLoop(_) | Expr::While(_)) {
                    // statement position: loops can be spliced in
                    if let Some(mut v) = self.stmt_form(e) {
                        out.append(&mut v);
                        return;
                    }
                }
                let e2 = self.expr(e);
                out.push(Stmt::Expr(e2, *semi));
            }
            Stmt::Macro(m) => {
                let e = Expr::Macro(ExprMacro { attrs: vec![], mac: m.mac.clone() });
                let name = m.mac.path.segments.last().unwrap().ident.to_string();
                if matches!(name.as_str(), "debug_assert" | "debug_assert_eq") {
                    // must hold as well
                }
                let e2 = self.expr(&e);
                out.push(Stmt::Expr(e2, m.semi_token.or(Some(Default::default()))));
            }
        }
    }

    /// Expressions in statement position that become several statements.
    fn stmt_form(&mut self, e: &Expr) -> Option<Vec<Stmt>> {
        match e {
            Expr::ForLoop(f) => Some(self.for_loop(f)),
            _ => None,
        }
    }

    fn local(&mut self, l: &Local, out: &mut Vec<Stmt>) {
        let (pat, ty) = match &l.pat {
            Pat::Type(t) => ((*t.pat).clone(), Some((*t.ty).clone())),
            p => (p.clone(), None),
        };
        let init = match &l.init {
            None => {
                // deferred initialisation
                let mut v = vec![];
                pat_idents(&pat, &mut v);
                for (n, m) in &v {
                    self.declare(n);
                    if *m {
                        self.decls.push(n.clone());
                    }
                }
                let p = &pat;
                let st: Stmt = match ty {
                    Some(t) => parse_quote!(let #p: #t;),
                    None => parse_quote!(let #p;),
                };
                out.push(st);
                return;
            }
            Some(i) => {
                if i.diverge.is_some() {
                    self.unsup("let-else");
                }
                (*i.expr).clone()
            }
        };
        let mut init = strip(&init).clone();
        // let x = PLACE.index_mut(i);
        if let Expr::MethodCall(mc) = &init {
            if mc.method == "index_mut" && mc.args.len() == 1 {
                let (r, i) = (&mc.receiver, &mc.args[0]);
                init = parse_quote!(&mut #r[#i]);
            }
        }
        // let S { ref mut x, ref y, .. } = *self;
        if let (Pat::Struct(ps), Expr::Unary(u)) = (&pat, &init) {
            if matches!(u.op, UnOp::Deref(_)) && is_simple(&u.expr) {
                let base = self.place(&u.expr);
                let mut ok = true;
                let mut binds = vec![];
                for f in &ps.fields {
                    let mem = &f.member;
                    match &*f.pat {
                        Pat::Ident(pi) if pi.by_ref.is_some() => {
                            let pl: Expr = parse_quote!(#base.#mem);
                            binds.push((pi.ident.to_string(), pl, pi.mutability.is_some()));
                        }
                        _ => ok = false,
                    }
                }
                if ok {
                    self.used_rules.insert("ref-alias");
                    for (n, p, m) in binds {
                        self.set(&n, Bind::Place(p, m));
                    }
                    return;
                }
            }
        }
        if let Pat::Ident(pi) = &pat {
            let name = pi.ident.to_string();
            if pi.by_ref.is_none() {
                // let x = &mut PLACE;
                if let Expr::Reference(r) = &init {
                    if r.mutability.is_some() {
                        if let Expr::Index(ix) = strip(&r.expr) {
                            if let Expr::Range(_) = strip(&ix.index) {
                                if let Some((mut st, b, o, n)) = self.view_of(&r.expr) {
                                    out.append(&mut st);
                                    self.set(&name, Bind::View { base: b, off: o, len: n, m: true });
                                    return;
                                }
                            }
                        }
                        if let Some(p) = self.stable_place(&r.expr, out) {
                            self.used_rules.insert("ref-alias");
                            self.set(&name, Bind::Place(p, true));
                            return;
                        }
                    } else if let Expr::Index(ix) = strip(&r.expr) {
                        if let Expr::Range(_) = strip(&ix.index) {
                            if let Some((mut st, b, o, n)) = self.view_of(&r.expr) {
                                out.append(&mut st);
                                self.set(&name, Bind::View { base: b, off: o, len: n, m: false });
                                return;
                            }
                        }
                    }
                }
                // let x = X.as_mut().unwrap() and the like are left alone
                if path_ident(&init).is_some() {
                    if let Some(Bind::View { base, off, len, m }) = self.lookup_e(&init) {
                        self.set(&name, Bind::View { base, off, len, m });
                        return;
                    }
                    if let Some(Bind::Place(p, m)) = self.lookup_e(&init) {
                        self.set(&name, Bind::Place(p, m));
                        return;
                    }
                }
                // iterator bound to a variable: materialise
                if self.iterish(&init) {
                    let e = self.collect_vec(&init);
                    self.used_rules.insert("materialise");
                    self.set(&name, Bind::IterVec);
                    out.push(parse_quote!(let #pi = #e;));
                    return;
                }
                // let mut x = None; later x = Some(ITER)
                if pi.mutability.is_some() && path_ident(&init).as_deref() == Some("None") && ty.is_none() {
                    self.set(&name, Bind::OptIter);
                    let i = &pi.ident;
                    // the type is inferred from the later assignment
                    out.push(parse_quote!(let mut #i = None;));
                    return;
                }
            }
        }
        let e = self.expr(&init);
        let mut v = vec![];
        pat_idents(&pat, &mut v);
        let isref = match &init {
            Expr::Reference(_) => true,
            _ => false,
        };
        for (n, m) in &v {
            self.declare(n);
            if *m {
                self.decls.push(n.clone());
            }
        }
        if isref && v.len() == 1 {
            self.set(&v[0].0, Bind::RefParam);
        }
        let st: Stmt = match ty {
            Some(t) if !self.drop_type(&t) => parse_quote!(let #pat: #t = #e;),
            Some(_) => parse_quote!(let #pat = #e;),
            None => parse_quote!(let #pat = #e;),
        };
        out.push(st);
    }

    /// Types the output cannot name: left to inference.
    fn drop_type(&self, t: &Type) -> bool {
        fn words(ts: proc_macro2::TokenStream, out: &mut Vec<String>) {
            for t in ts {
                match t {
                    proc_macro2::TokenTree::Group(g) => words(g.stream(), out),
                    proc_macro2::TokenTree::Ident(i) => out.push(i.to_string()),
                    proc_macro2::TokenTree::Punct(_) | proc_macro2::TokenTree::Literal(_) => {}
                }
            }
        }
        let s = t.to_token_stream();
        if s.to_string().contains('_') {
            return true;
        }
        let mut v = vec![];
        words(s, &mut v);
        v.iter().any(|w| w == "SmallVec" || matches!(self.lookup(w), Some(Bind::Const(_))))
    }

    /// Resolves a place whose index expressions are frozen into immutable locals.
    fn stable_place(&mut self, e: &Expr, out: &mut Vec<Stmt>) -> Option<Expr> {
        match strip(e) {
            Expr::Path(_) => Some(self.place(e)),
            Expr::Field(f) => {
                let b = self.stable_place(&f.base, out)?;
                let m = &f.member;
                Some(parse_quote!(#b.#m))
            }
            Expr::Index(ix) => {
                if let Some(Bind::View { base, off, .. }) = self.lookup_e(&ix.expr) {
                    let i = self.expr(&ix.index);
                    let n = self.fresh("ix");
                    out.push(parse_quote!(let #n = #i;));
                    return Some(parse_quote!(#base[#off + #n]));
                }
                let b = self.stable_place(&ix.expr, out)?;
                let i = self.expr(&ix.index);
                if let (Expr::Lit(_), _) | (Expr::Path(_), true) = (strip(&i), true) {
                    // literals and immutable names are stable; mutable names are frozen
                    let frozen = match path_ident(&i) {
                        Some(n) => self.decls.contains(&n),
                        None => false,
                    };
                    if !frozen {
                        return Some(parse_quote!(#b[#i]));
                    }
                }
                let n = self.fresh("ix");
                out.push(parse_quote!(let #n = #i;));
                Some(parse_quote!(#b[#n]))
            }
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => match self.lookup_e(&u.expr) {
                Some(Bind::Place(p, _)) => Some(p),
                _ => {
                    if path_ident(&u.expr).is_some() {
                        let x = &u.expr;
                        Some(parse_quote!((*#x)))
                    } else if let Expr::Field(_) = strip(&u.expr) {
                        // what a field owns
                        let p = self.stable_place(&u.expr, out)?;
                        Some(parse_quote!((*#p)))
                    } else {
                        None
                    }
                }
            },
            _ => None,
        }
    }

    // ---------------------------------------------------------------- places and views

    /// X[lo..hi] -> (checks, base, offset, length)
    fn view_of(&mut self, e: &Expr) -> Option<(Vec<Stmt>, Expr, Expr, Expr)> {
        if let Some(Bind::View { base, off, len, .. }) = self.lookup_e(e) {
            return Some((vec![], base, off, len));
        }
        if let Expr::Index(ix) = strip(e) {
            if let Expr::Range(r) = strip(&ix.index) {
                let (mut st, base, off, len) = match self.view_of(&ix.expr) {
                    Some(v) => v,
                    None => {
                        let b = self.place(&ix.expr);
                        let l: Expr = parse_quote!(vx_len(&#b));
                        (vec![], b, ex("0usize"), l)
                    }
                };
                let lo = match &r.start {
                    Some(s) => self.expr(s),
                    None => ex("0usize"),
                };
                let hi: Expr = match &r.end {
                    Some(s) => {
                        let s = self.expr(s);
                        match r.limits {
                            RangeLimits::HalfOpen(_) => s,
                            RangeLimits::Closed(_) => parse_quote!(#s + 1),
                        }
                    }
                    None => len.clone(),
                };
                let l = self.fresh("lo");
                let h = self.fresh("hi");
                st.push(parse_quote!(let #l: usize = #lo;));
                st.push(parse_quote!(let #h: usize = #hi;));
                st.push(parse_quote!(vx_assert(#l <= #h && #h <= #len);));
                let zero = off.to_token_stream().to_string() == "0usize";
                let off2: Expr = if zero { parse_quote!(#l) } else { parse_quote!((#off + #l)) };
                return Some((st, base, off2, parse_quote!((#h - #l))));
            }
        }
        None
    }

    pub fn place(&mut self, e: &Expr) -> Expr {
        match strip(e) {
            Expr::Path(_) => match self.lookup_e(e) {
                Some(Bind::Place(p, _)) => p,
                Some(Bind::Const(c)) => c,
                _ => {
                    if path_ident(e).is_some() {
                        strip(e).clone()
                    } else {
                        self.expr(e)
                    }
                }
            },
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => {
                match self.lookup_e(&u.expr) {
                    Some(Bind::Place(p, _)) => return p,
                    _ => {}
                }
                if let Expr::MethodCall(mc) = strip(&u.expr) {
                    let m = mc.method.to_string();
                    if m == "get_unchecked_mut" || m == "get_unchecked" {
                        self.used_rules.insert("get_unchecked");
                        let b = self.place(&mc.receiver);
                        let i = self.expr(&mc.args[0]);
                        return parse_quote!(#b[#i]);
                    }
                    if m == "index_mut" || m == "index" {
                        let b = self.place(&mc.receiver);
                        let i = self.expr(&mc.args[0]);
                        return parse_quote!(#b[#i]);
                    }
                }
                if let Expr::Reference(r) = strip(&u.expr) {
                    return self.place(&r.expr);
                }
                let i = self.expr(&u.expr);
                parse_quote!(*#i)
            }
            Expr::Field(f) => {
                let b = self.place(&f.base);
                let b: Expr = if let Expr::Unary(_) = b { parse_quote!((#b)) } else { b };
                let m = &f.member;
                parse_quote!(#b.#m)
            }
            Expr::Index(ix) => {
                if let Expr::Range(_) = strip(&ix.index) {
                    if let Some((mut st, b, o, n)) = self.view_of(e) {
                        let tail: Expr = parse_quote!(*vx_slice(&#b, #o, #o + #n));
                        if st.is_empty() {
                            return tail;
                        }
                        st.push(Stmt::Expr(tail, None));
                        return Expr::Block(ExprBlock {
                            attrs: vec![],
                            label: None,
                            block: Block { brace_token: Default::default(), stmts: st },
                        });
                    }
                }
                if let Some(Bind::View { base, off, len, .. }) = self.lookup_e(&ix.expr) {
                    let i = self.expr(&ix.index);
                    return parse_quote!(#base[vx_at(#off, #len, #i)]);
                }
                let b = self.place(&ix.expr);
                let b: Expr = if let Expr::Unary(_) = b { parse_quote!((#b)) } else { b };
                let i = self.expr(&ix.index);
                parse_quote!(#b[#i])
            }
            _ => self.expr(e),
        }
    }

    // ---------------------------------------------------------------- iterators

    pub fn iterish(&self, e: &Expr) -> bool {
        match strip(e) {
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                match n.as_str() {
                    "iter" | "iter_mut" | "chunks_exact" | "chunks_exact_mut" | "enumerate" | "zip" | "filter_map"
                    | "flat_map" | "chain" | "take_while" | "skip" | "rev" | "flatten" => true,
                    "map" | "copied" | "cloned" | "take" | "filter" | "inspect" => self.iterish(&m.receiver),
                    "into_iter" => {
                        self.iterish(&m.receiver)
                            || matches!(
                                self.lookup_e(&m.receiver),
                                Some(Bind::IterVec | Bind::OptIter | Bind::RefParam)
                            )
                    }
                    _ => false,
                }
            }
            Expr::Call(c) => path_str(&c.func) == "Iterator::zip" || path_str(&c.func).ends_with("iter::zip"),
            Expr::Path(_) => matches!(self.lookup_e(e), Some(Bind::IterVec)),
            Expr::Range(_) => true,
            _ => false,
        }
    }

    fn src_setup(&mut self, x: &Expr, setup: &mut Vec<Stmt>) -> (Expr, Expr, Expr) {
        // returns base, off, len of an iterated slice-like
        if let Some((mut st, b, o, n)) = self.view_of(x) {
            setup.append(&mut st);
            return (b, o, n);
        }
        let p = match strip(x) {
            Expr::Path(_) | Expr::Field(_) | Expr::Index(_) => self.place(x),
            Expr::Unary(_) => {
                let p = self.place(x);
                parse_quote!((#p))
            }
            Expr::MethodCall(mc) if matches!(mc.method.to_string().as_str(), "as_ref" | "as_slice" | "deref") => {
                let e = self.expr(x);
                let t = self.fresh("src");
                setup.push(parse_quote!(let #t = #e;));
                parse_quote!(#t)
            }
            _ => {
                let e = self.expr(x);
                let t = self.fresh("src");
                setup.push(parse_quote!(let #t = #e;));
                parse_quote!(#t)
            }
        };
        let len: Expr = parse_quote!(vx_len(&#p));
        (p, ex("0usize"), len)
    }

    fn elem(base: &Expr, off: &Expr, k: &Expr) -> Expr {
        if off.to_token_stream().to_string() == "0usize" {
            parse_quote!(#base[#k])
        } else {
            parse_quote!(#base[#off + #k])
        }
    }

    pub fn prod(&mut self, e: &Expr) -> Option<Prod> {
        let e = strip(e).clone();
        match &e {
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                match n.as_str() {
                    "iter" | "iter_mut" => {
                        let mut setup = vec![];
                        let (b, o, l) = self.src_setup(&m.receiver, &mut setup);
                        let mu = n == "iter_mut";
                        Some(Prod {
                            setup,
                            len: l,
                            item: Box::new(move |k| {
                                let el = Self::elem(&b, &o, k);
                                if mu {
                                    Item_::Place(el, true)
                                } else {
                                    Item_::Val(parse_quote!(&#el))
                                }
                            }),
                        })
                    }
                    "into_iter" => {
                        if let Some(Bind::OptIter) = self.lookup_e(&m.receiver) {
                            return None;
                        }
                        if self.iterish(&m.receiver) || matches!(self.lookup_e(&m.receiver), Some(_)) {
                            return self.prod(&m.receiver);
                        }
                        None
                    }
                    "chunks_exact" | "chunks_exact_mut" => {
                        let mut setup = vec![];
                        let (b, o, l) = self.src_setup(&m.receiver, &mut setup);
                        let c = self.expr(&m.args[0]);
                        let cn = self.fresh("cs");
                        setup.push(parse_quote!(let #cn: usize = #c;));
                        setup.push(parse_quote!(vx_assert(#cn != 0);));
                        let mu = n == "chunks_exact_mut";
                        self.used_rules.insert("chunks");
                        Some(Prod {
                            setup,
                            len: parse_quote!(#l / #cn),
                            item: Box::new(move |k| Item_::View {
                                base: b.clone(),
                                off: if o.to_token_stream().to_string() == "0usize" {
                                    parse_quote!((#k * #cn))
                                } else {
                                    parse_quote!((#o + #k * #cn))
                                },
                                len: parse_quote!(#cn),
                                m: mu,
                            }),
                        })
                    }
                    "zip" => self.prod_zip(&m.receiver, &m.args[0]),
                    "enumerate" => {
                        let p = self.prod(&m.receiver)?;
                        let it = p.item;
                        Some(Prod {
                            setup: p.setup,
                            len: p.len,
                            item: Box::new(move |k| Item_::Tuple(vec![Item_::Val(k.clone()), it(k)])),
                        })
                    }
                    "copied" | "cloned" if self.iterish(&m.receiver) => {
                        let p = self.prod(&m.receiver)?;
                        let it = p.item;
                        Some(Prod {
                            setup: p.setup,
                            len: p.len,
                            item: Box::new(move |k| match it(k) {
                                Item_::Val(Expr::Reference(r)) => Item_::Val((*r.expr).clone()),
                                Item_::Val(v) => Item_::Val(parse_quote!(*#v)),
                                o => o,
                            }),
                        })
                    }
                    "by_ref" => self.prod(&m.receiver),
                    "take" | "skip" if m.args.len() == 1 => {
                        let p = self.prod(&m.receiver)?;
                        let c = self.expr(&m.args[0]);
                        let cn = self.fresh("take");
                        let (mut setup, it, l) = (p.setup, p.item, p.len);
                        setup.push(parse_quote!(let #cn: usize = #c;));
                        self.used_rules.insert("take-skip");
                        if n == "take" {
                            Some(Prod { setup, len: parse_quote!(vx_min_usize(#l, #cn)), item: it })
                        } else {
                            Some(Prod { setup, len: parse_quote!(vx_sub_or_0(#l, #cn)), item: Box::new(move |k| it(&parse_quote!((#cn + #k)))) })
                        }
                    }
                    "rev" => {
                        let p = self.prod(&m.receiver)?;
                        let ln = self.fresh("rlen");
                        let (mut setup, it, l) = (p.setup, p.item, p.len);
                        setup.push(parse_quote!(let #ln: usize = #l;));
                        self.used_rules.insert("rev");
                        Some(Prod { setup, len: parse_quote!(#ln), item: Box::new(move |k| it(&parse_quote!((#ln - 1 - #k)))) })
                    }
                    _ => None,
                }
            }
            Expr::Call(c) => {
                let p = path_str(&c.func);
                if p == "Iterator::zip" || p.ends_with("iter::zip") {
                    return self.prod_zip(&c.args[0], &c.args[1]);
                }
                None
            }
            Expr::Reference(r) => {
                let mut setup = vec![];
                let (b, o, l) = self.src_setup(&r.expr, &mut setup);
                let mu = r.mutability.is_some();
                Some(Prod {
                    setup,
                    len: l,
                    item: Box::new(move |k| {
                        let el = Self::elem(&b, &o, k);
                        if mu {
                            Item_::Place(el, true)
                        } else {
                            Item_::Val(parse_quote!(&#el))
                        }
                    }),
                })
            }
            Expr::Range(r) => {
                let lo = match &r.start {
                    Some(s) => self.expr(s),
                    None => return None,
                };
                let hi = match &r.end {
                    Some(s) => self.expr(s),
                    None => return None,
                };
                let hi: Expr = match r.limits {
                    RangeLimits::HalfOpen(_) => hi,
                    RangeLimits::Closed(_) => parse_quote!(#hi + 1),
                };
                let zero = matches!(&lo, Expr::Lit(l) if l.to_token_stream().to_string() == "0");
                if zero {
                    Some(Prod { setup: vec![], len: hi, item: Box::new(|k| Item_::Val(k.clone())) })
                } else {
                    let a = self.fresh("lo");
                    let b = self.fresh("hi");
                    let setup: Vec<Stmt> = vec![parse_quote!(let #a: usize = #lo;), parse_quote!(let #b: usize = #hi;)];
                    Some(Prod {
                        setup,
                        len: parse_quote!(vx_sub_or_0(#b, #a)),
                        item: Box::new(move |k| Item_::Val(parse_quote!(#a + #k))),
                    })
                }
            }
            Expr::Path(_) => match self.lookup_e(&e) {
                Some(Bind::IterVec) => {
                    let p = e.clone();
                    Some(Prod {
                        setup: vec![],
                        len: parse_quote!(vx_len(&#p)),
                        item: Box::new(move |k| Item_::Val(parse_quote!(#p[#k]))),
                    })
                }
                Some(Bind::RefParam) => {
                    let p = e.clone();
                    let mu = path_ident(&e).map(|n| self.mutrefs.contains(&n)).unwrap_or(false);
                    Some(Prod {
                        setup: vec![],
                        len: parse_quote!(vx_len(&#p)),
                        item: Box::new(move |k| {
                            if mu {
                                Item_::Place(parse_quote!(#p[#k]), true)
                            } else {
                                Item_::Val(parse_quote!(&#p[#k]))
                            }
                        }),
                    })
                }
                Some(Bind::Place(p, mu)) => Some(Prod {
                    setup: vec![],
                    len: parse_quote!(vx_len(&#p)),
                    item: Box::new(move |k| {
                        if mu {
                            Item_::Place(parse_quote!(#p[#k]), true)
                        } else {
                            Item_::Val(parse_quote!(&#p[#k]))
                        }
                    }),
                }),
                Some(Bind::View { base, off, len, m }) => Some(Prod {
                    setup: vec![],
                    len,
                    item: Box::new(move |k| {
                        let el = Self::elem(&base, &off, k);
                        if m {
                            Item_::Place(el, true)
                        } else {
                            Item_::Val(parse_quote!(&#el))
                        }
                    }),
                }),
                _ => {
                    // a local: `buf` of type &[T; N] and the like
                    let p = e.clone();
                    self.used_rules.insert("iter-local");
                    Some(Prod {
                        setup: vec![],
                        len: parse_quote!(vx_len(&#p)),
                        item: Box::new(move |k| Item_::Val(parse_quote!(&#p[#k]))),
                    })
                }
            },
            _ => None,
        }
    }

    fn prod_zip(&mut self, a: &Expr, b: &Expr) -> Option<Prod> {
        let pa = self.prod(a)?;
        let pb = self.prod(b)?;
        let mut setup = pa.setup;
        setup.extend(pb.setup);
        let (la, lb) = (pa.len, pb.len);
        let (ia, ib) = (pa.item, pb.item);
        self.used_rules.insert("zip");
        Some(Prod {
            setup,
            len: parse_quote!(vx_min_usize(#la, #lb)),
            item: Box::new(move |k| Item_::Tuple(vec![ia(k), ib(k)])),
        })
    }

    fn item_expr(it: &Item_) -> Expr {
        match it {
            Item_::Val(e) => e.clone(),
            Item_::Place(p, true) => parse_quote!(&mut #p),
            Item_::Place(p, false) => parse_quote!(&#p),
            Item_::View { base, off, len, .. } => parse_quote!(vx_slice(&#base, #off, #off + #len)),
            Item_::Tuple(v) => {
                let v: Vec<Expr> = v.iter().map(Self::item_expr).collect();
                parse_quote!((#(#v),*))
            }
        }
    }

    pub fn bind(&mut self, pat: &Pat, it: &Item_, out: &mut Vec<Stmt>) {
        match (strip_pat(pat), it) {
            (Pat::Wild(_), _) => {}
            (Pat::Ident(p), Item_::Place(pl, m)) if p.by_ref.is_none() => {
                self.used_rules.insert("ref-alias");
                self.set(&p.ident.to_string(), Bind::Place(pl.clone(), *m));
            }
            (Pat::Ident(p), Item_::View { base, off, len, m }) if p.by_ref.is_none() => {
                self.set(
                    &p.ident.to_string(),
                    Bind::View { base: base.clone(), off: off.clone(), len: len.clone(), m: *m },
                );
            }
            (Pat::Tuple(t), Item_::Tuple(v)) if t.elems.len() == v.len() => {
                for (p, i) in t.elems.iter().zip(v) {
                    self.bind(p, i, out);
                }
            }
            (Pat::Reference(r), Item_::Val(Expr::Reference(e))) => {
                self.bind(&r.pat, &Item_::Val((*e.expr).clone()), out);
            }
            (Pat::Reference(r), Item_::Val(e)) => {
                self.bind(&r.pat, &Item_::Val(parse_quote!(*#e)), out);
            }
            (Pat::Slice(s), Item_::Val(Expr::Reference(e))) => {
                let b = &e.expr;
                for (i, p) in s.elems.iter().enumerate() {
                    let i = LitInt::new(&i.to_string(), proc_macro2::Span::call_site());
                    self.bind(p, &Item_::Val(parse_quote!(&#b[#i])), out);
                }
            }
            (p @ (Pat::Ident(_) | Pat::Tuple(_) | Pat::TupleStruct(_) | Pat::Struct(_)), it) => {
                let e = Self::item_expr(it);
                let mut v = vec![];
                pat_idents(p, &mut v);
                let isref = matches!(&e, Expr::Reference(_));
                for (n, m) in &v {
                    self.declare(n);
                    if *m {
                        self.decls.push(n.clone());
                    }
                }
                if isref && v.len() == 1 {
                    self.set(&v[0].0, Bind::RefParam);
                }
                out.push(parse_quote!(let #p = #e;));
            }
            (p, _) => {
                let s = p.to_token_stream().to_string();
                self.unsup(format!("pattern {s}"));
            }
        }
    }

    fn index_loop(
        &mut self,
        p: Prod,
        extra_cond: Option<Expr>,
        body: &mut dyn FnMut(&mut Self, Item_) -> Vec<Stmt>,
    ) -> Vec<Stmt> {
        let n = self.loops;
        self.loops += 1;
        self.loop_muts.push(vec![]);
        let i = id(&format!("vx_i{n}"));
        let k = id(&format!("vx_k{n}"));
        let nn = id(&format!("vx_n{n}"));
        let len = p.len;
        let mut st = p.setup;
        st.push(parse_quote!(let #nn: usize = #len;));
        st.push(parse_quote!(let mut #i: usize = 0;));
        let ke: Expr = parse_quote!(#k);
        let declared: Vec<String> = self.decls.clone();
        let mut b = self.scoped(|s| body(s, (p.item)(&ke)));
        for s in b.iter_mut() {
            // the value of the body is not used
            if let Stmt::Expr(e, semi @ None) = s {
                if !matches!(e, Expr::If(_) | Expr::Match(_) | Expr::Block(_) | Expr::While(_) | Expr::Loop(_)) {
                    *semi = Some(Default::default());
                }
            }
        }
        let mut asg = Assigned(vec![]);
        for s in &b {
            syn::visit::Visit::visit_stmt(&mut asg, s);
        }
        let muts: Vec<String> = declared.iter().filter(|d| asg.0.contains(d)).cloned().collect();
        self.loop_muts[n] = muts;
        let nl = LitInt::new(&n.to_string(), proc_macro2::Span::call_site());
        let cond: Expr = match extra_cond {
            Some(c) => parse_quote!(#i < #nn && #c),
            None => parse_quote!(#i < #nn),
        };
        st.push(parse_quote!(vx_mark!(pre, #nl);));
        st.push(parse_quote!(while #cond {
            vx_mark!(inv, #nl);
            let #k: usize = #i;
            #i = #i + 1;
            vx_mark!(top, #nl);
            #(#b)*
            vx_mark!(bot, #nl);
        }));
        st.push(parse_quote!(vx_mark!(post, #nl);));
        st
    }

    /// Push-style fusion of an iterator expression: runs `body` for each item, in order.
    pub fn push(&mut self, e: &Expr, body: &mut dyn FnMut(&mut Self, Item_) -> Vec<Stmt>) -> Vec<Stmt> {
        if let Some(p) = self.prod(e) {
            return self.index_loop(p, None, body);
        }
        let e = strip(e).clone();
        if let Expr::MethodCall(m) = &e {
            let n = m.method.to_string();
            match n.as_str() {
                "map" => {
                    if let Some(c) = closure(&m.args[0]).cloned() {
                        return self.push(&m.receiver, &mut |s, it| {
                            let mut st = vec![];
                            s.bind(&c.inputs[0], &it, &mut st);
                            let (mut pre, v) = s.value_of(&c.body);
                            st.append(&mut pre);
                            st.extend(body(s, Item_::Val(v)));
                            st
                        });
                    }
                }
                "filter_map" => {
                    if let Some(c) = closure(&m.args[0]).cloned() {
                        return self.push(&m.receiver, &mut |s, it| {
                            let mut st = vec![];
                            s.bind(&c.inputs[0], &it, &mut st);
                            let (mut pre, v) = s.value_of(&c.body);
                            st.append(&mut pre);
                            let t = s.fresh("y");
                            let b = body(s, Item_::Val(parse_quote!(#t)));
                            st.push(parse_quote!(if let Some(#t) = #v { #(#b)* }));
                            st
                        });
                    }
                }
                "filter" => {
                    if let Some(c) = closure(&m.args[0]).cloned() {
                        return self.push(&m.receiver, &mut |s, it| {
                            let mut st = vec![];
                            let v = Self::item_expr(&it);
                            let t = s.fresh("y");
                            st.push(parse_quote!(let #t = #v;));
                            s.bind(&c.inputs[0], &Item_::Val(parse_quote!(&#t)), &mut st);
                            let (mut pre, v) = s.value_of(&c.body);
                            st.append(&mut pre);
                            let b = body(s, Item_::Val(parse_quote!(#t)));
                            st.push(parse_quote!(if #v { #(#b)* }));
                            st
                        });
                    }
                }
                "flat_map" => {
                    if let Some(c) = closure(&m.args[0]).cloned() {
                        self.used_rules.insert("flat_map");
                        return self.push(&m.receiver, &mut |s, it| {
                            let mut st = vec![];
                            s.bind(&c.inputs[0], &it, &mut st);
                            match strip(&c.body) {
                                Expr::Block(b) => {
                                    let k = b.block.stmts.len();
                                    for x in &b.block.stmts[..k.saturating_sub(1)] {
                                        s.stmt(x, &mut st);
                                    }
                                    if let Some(Stmt::Expr(t, None)) = b.block.stmts.last() {
                                        let t = t.clone();
                                        st.extend(s.push(&t, body));
                                    } else {
                                        s.unsup("flat_map body");
                                    }
                                }
                                x => {
                                    let x = x.clone();
                                    // |x| x.iter_mut() where x is an alias
                                    st.extend(s.push(&x, body));
                                }
                            }
                            st
                        });
                    }
                }
                "enumerate" => {
                    let c = self.fresh("cnt");
                    let mut st: Vec<Stmt> = vec![parse_quote!(let mut #c: usize = 0;)];
                    self.decls.push(c.to_string());
                    let k = self.fresh("ord");
                    st.extend(self.push(&m.receiver, &mut |s, it| {
                        let mut v: Vec<Stmt> =
                            vec![parse_quote!(let #k: usize = #c;), parse_quote!(#c = #c + 1;)];
                        v.extend(body(s, Item_::Tuple(vec![Item_::Val(parse_quote!(#k)), it])));
                        v
                    }));
                    return st;
                }
                "chain" => {
                    let mut st = self.push(&m.receiver, body);
                    st.extend(self.push(&m.args[0], body));
                    return st;
                }
                "flatten" => {
                    // OPT.into_iter().flatten() over an optional materialised iterator
                    if let Expr::MethodCall(m2) = strip(&m.receiver) {
                        if m2.method == "into_iter" {
                            if let Some(Bind::OptIter) = self.lookup_e(&m2.receiver) {
                                let o = &m2.receiver;
                                let t = self.fresh("inner");
                                self.scopes.push(HashMap::new());
                                self.set(&t.to_string(), Bind::IterVec);
                                let te: Expr = parse_quote!(#t);
                                let b = self.push(&te, body);
                                self.scopes.pop();
                                return vec![parse_quote!(if let Some(#t) = #o { #(#b)* })];
                            }
                        }
                    }
                }
                "take_while" => {
                    if let (Some(c), Some(p)) = (closure(&m.args[0]).cloned(), self.prod(&m.receiver)) {
                        return self.index_loop(p, None, &mut |s, it| {
                            let mut st = vec![];
                            let v = Self::item_expr(&it);
                            // the closure gets a reference to the item
                            s.bind(&c.inputs[0], &Item_::Val(parse_quote!(&(#v))), &mut st);
                            let (mut pre, v) = s.value_of(&c.body);
                            st.append(&mut pre);
                            st.push(parse_quote!(if !(#v) { break; }));
                            st.extend(body(s, it));
                            st
                        });
                    }
                }
                _ => {}
            }
        }
        let s = e.to_token_stream().to_string();
        self.unsup(format!("iterator {s}"));
        vec![]
    }

    /// A closure body as statements followed by a value.
    fn value_of(&mut self, e: &Expr) -> (Vec<Stmt>, Expr) {
        match strip(e) {
            Expr::Block(b) => {
                let mut st = vec![];
                let n = b.block.stmts.len();
                for (i, x) in b.block.stmts.iter().enumerate() {
                    if i + 1 == n {
                        if let Stmt::Expr(t, None) = x {
                            let v = self.expr(t);
                            return (st, v);
                        }
                    }
                    self.stmt(x, &mut st);
                }
                (st, parse_quote!(()))
            }
            x => {
                let v = self.expr(&x.clone());
                (vec![], v)
            }
        }
    }

    fn collect_vec(&mut self, e: &Expr) -> Expr {
        let o = self.fresh("out");
        self.decls.push(o.to_string());
        let b = self.push(e, &mut |_, it| {
            let v = Self::item_expr(&it);
            vec![parse_quote!(#o.push(#v);)]
        });
        parse_quote!({ let mut #o = Vec::new(); #(#b)* #o })
    }

    fn for_loop(&mut self, f: &ExprForLoop) -> Vec<Stmt> {
        let nested = self.is_nested(&f.expr);
        if nested && flow_block(&f.body).1 {
            self.unsup("break in a fused loop");
        }
        // a `for` over an owned mutable reference alias
        let b = f.body.clone();
        let pat = (*f.pat).clone();
        let src = (*f.expr).clone();
        self.push(&src, &mut |s, it| {
            let mut st = vec![];
            s.bind(&pat, &it, &mut st);
            let blk = s.block(&b);
            st.extend(blk.stmts);
            st
        })
    }
    fn is_nested(&self, e: &Expr) -> bool {
        let s = e.to_token_stream().to_string();
        s.contains("flat_map") || s.contains("chain") || s.contains("flatten")
    }

    // ---------------------------------------------------------------- expressions

    fn boxed_block(st: Vec<Stmt>) -> Expr {
        Expr::Block(ExprBlock { attrs: vec![], label: None, block: Block { brace_token: Default::default(), stmts: st } })
    }

    pub fn expr(&mut self, e: &Expr) -> Expr {
        match e {
            Expr::Paren(p) => {
                let i = self.expr(&p.expr);
                parse_quote!((#i))
            }
            Expr::Group(p) => self.expr(&p.expr),
            Expr::Lit(_) => e.clone(),
            Expr::Path(p) => {
                match self.lookup_e(e) {
                    Some(Bind::Place(p, true)) => return parse_quote!(&mut #p),
                    Some(Bind::Place(p, false)) => return parse_quote!(&#p),
                    Some(Bind::View { base, off, len, .. }) => {
                        return parse_quote!(vx_slice(&#base, #off, #off + #len))
                    }
                    Some(Bind::Const(c)) => return c,
                    _ => {}
                }
                let s = p.to_token_stream().to_string().replace(' ', "");
                match s.as_str() {
                    "f64::INFINITY" => parse_quote!(vx_inf()),
                    "f64::NEG_INFINITY" => parse_quote!(vx_neg(vx_inf())),
                    "f64::NAN" => parse_quote!(vx_nan()),
                    "f64::EPSILON" => parse_quote!(vx_epsilon()),
                    "std::f64::consts::PI" | "PI" => parse_quote!(vx_pi()),
                    "std::f64::consts::LN_10" => parse_quote!(vx_ln_10()),
                    _ => {
                        if s == "Self::CHANNELS" || s == "F::CHANNELS" {
                            let t: Ident = id(s.split("::").next().unwrap());
                            return parse_quote!(#t::vx_channels());
                        }
                        if s.ends_with("::MAX_AMPLITUDE") {
                            let t = &p.path.segments[0];
                            return parse_quote!(#t::vx_max_amplitude());
                        }
                        e.clone()
                    }
                }
            }
            Expr::Unary(u) => match u.op {
                UnOp::Deref(_) => self.place(e),
                UnOp::Neg(_) => {
                    if let Expr::Lit(_) = strip(&u.expr) {
                        return e.clone();
                    }
                    let i = self.expr(&u.expr);
                    parse_quote!(vx_neg(#i))
                }
                _ => {
                    let i = self.expr(&u.expr);
                    let op = &u.op;
                    parse_quote!(#op #i)
                }
            },
            Expr::Field(_) => self.place(e),
            Expr::Index(ix) => {
                let _ = ix;
                self.place(e)
            }
            Expr::Reference(r) => {
                // &*x, &X[a..b]
                if let Expr::Index(ix) = strip(&r.expr) {
                    if let Expr::Range(_) = strip(&ix.index) {
                        if let Some((mut st, b, o, n)) = self.view_of(&r.expr) {
                            if r.mutability.is_some() {
                                return self.unsup("mutable sub-slice as a value");
                            }
                            let hi: Expr = parse_quote!(#o + #n);
                            st.push(Stmt::Expr(parse_quote!(vx_slice(&#b, #o, #hi)), None));
                            return Self::boxed_block(st);
                        }
                    }
                }
                // &*(self.buf.get_unchecked(i) as *const T as *const [T; N])
                if let Expr::Unary(u) = strip(&r.expr) {
                    if matches!(u.op, UnOp::Deref(_)) {
                        if let Some((recv, i)) = ptr_window(strip(&u.expr)) {
                            self.used_rules.insert("ptr-window");
                            let b = self.place(&recv);
                            let i = self.expr(&i);
                            return parse_quote!(vx_window(&#b, #i));
                        }
                    }
                }
                let p = self.place(&r.expr);
                let m = &r.mutability;
                if let Expr::Unary(u) = &p {
                    if let UnOp::Deref(_) = u.op {
                        if let Expr::Call(c) = strip(&u.expr) {
                            if path_str(&c.func) == "vx_slice" {
                                return (*u.expr).clone();
                            }
                        }
                    }
                }
                parse_quote!(&#m #p)
            }
            Expr::Cast(c) => {
                let i = self.expr(&c.expr);
                let t = c.ty.to_token_stream().to_string();
                match t.as_str() {
                    "f64" => parse_quote!(vx_as_f64(#i)),
                    "f32" => parse_quote!(vx_as_f32(#i)),
                    "usize" => parse_quote!(vx_as_usize(#i)),
                    "u64" => parse_quote!(vx_as_u64(#i)),
                    "u32" => parse_quote!(vx_as_u32(#i)),
                    "u8" => parse_quote!(vx_as_u8(#i)),
                    _ => {
                        let ty = &c.ty;
                        parse_quote!((#i as #ty))
                    }
                }
            }
            Expr::Binary(b) => {
                use BinOp::*;
                let comp: Option<BinOp> = match b.op {
                    AddAssign(_) => Some(Add(Default::default())),
                    SubAssign(_) => Some(Sub(Default::default())),
                    MulAssign(_) => Some(Mul(Default::default())),
                    DivAssign(_) => Some(Div(Default::default())),
                    RemAssign(_) => Some(Rem(Default::default())),
                    BitOrAssign(_) => Some(BitOr(Default::default())),
                    BitAndAssign(_) => Some(BitAnd(Default::default())),
                    _ => None,
                };
                if let Some(op) = comp {
                    self.used_rules.insert("compound-assign");
                    let l = self.place(&b.left);
                    let r = self.expr(&b.right);
                    let r: Expr = if is_simple(&r) || matches!(r, Expr::Paren(_) | Expr::Call(_) | Expr::Index(_)) {
                        r
                    } else {
                        parse_quote!((#r))
                    };
                    return parse_quote!(#l = #l #op #r);
                }
                let l = self.expr(&b.left);
                let r = self.expr(&b.right);
                let op = &b.op;
                // flags: the operators are methods of the generated crate
                if is_flags(&l) || is_flags(&r) {
                    match op {
                        BitOr(_) => return parse_quote!(Mode::union(#l, #r)),
                        BitAnd(_) => return parse_quote!(Mode::intersection(#l, #r)),
                        _ => (),
                    }
                }
                // blocks on the left of an operator need parentheses
                let l: Expr = if matches!(l, Expr::Block(_) | Expr::If(_) | Expr::Match(_)) { parse_quote!((#l)) } else { l };
                Expr::Binary(ExprBinary { attrs: vec![], left: Box::new(l), op: op.clone(), right: Box::new(r) })
            }
            Expr::Assign(a) => {
                // x = Some(ITER) for an optional iterator variable
                if let Some(Bind::OptIter) = self.lookup_e(&a.left) {
                    if let Expr::Call(c) = strip(&a.right) {
                        if path_str(&c.func) == "Some" && self.iterish(&c.args[0]) {
                            let v = self.collect_vec(&c.args[0].clone());
                            self.used_rules.insert("materialise");
                            let l = &a.left;
                            return parse_quote!(#l = Some(#v));
                        }
                    }
                }
                let l = self.place(&a.left);
                let r = self.expr(&a.right);
                parse_quote!(#l = #r)
            }
            Expr::Block(b) => {
                let blk = self.block(&b.block);
                Expr::Block(ExprBlock { attrs: vec![], label: b.label.clone(), block: blk })
            }
            Expr::Unsafe(b) => {
                self.used_rules.insert("unsafe");
                let blk = self.block(&b.block);
                Expr::Block(ExprBlock { attrs: vec![], label: None, block: blk })
            }
            Expr::If(i) => {
                self.scopes.push(HashMap::new());
                let c = match strip(&i.cond) {
                    Expr::Let(l) => self.let_cond(l),
                    _ => self.expr(&i.cond),
                };
                let t = self.block(&i.then_branch);
                self.scopes.pop();
                match &i.else_branch {
                    Some((_, el)) => {
                        let el = self.expr(el);
                        parse_quote!(if #c #t else #el)
                    }
                    None => parse_quote!(if #c #t),
                }
            }
            Expr::Let(l) => self.let_cond(l),
            Expr::Match(m) => {
                let s = match strip(&m.expr) {
                    Expr::Path(_) => match self.lookup_e(&m.expr) {
                        Some(Bind::Place(p, true)) => parse_quote!(&mut #p),
                        Some(Bind::Place(p, false)) => parse_quote!(&#p),
                        _ => self.expr(&m.expr),
                    },
                    _ => self.expr(&m.expr),
                };
                let mut arms = vec![];
                for a in &m.arms {
                    self.scopes.push(HashMap::new());
                    self.declare_pat(&a.pat);
                    let p = a.pat.clone();
                    let b = self.expr(&a.body);
                    let g = a.guard.as_ref().map(|(_, g)| self.expr(g));
                    self.scopes.pop();
                    let arm: Arm = match g {
                        Some(g) => parse_quote!(#p if #g => { #b }),
                        None => parse_quote!(#p => { #b }),
                    };
                    arms.push(arm);
                }
                parse_quote!(match #s { #(#arms)* })
            }
            Expr::While(w) => {
                let n = self.loops;
                self.loops += 1;
                self.loop_muts.push(vec![]);
                let c = self.expr(&w.cond);
                let declared = self.decls.clone();
                let b = self.block(&w.body);
                let mut asg = Assigned(vec![]);
                syn::visit::Visit::visit_block(&mut asg, &b);
                self.loop_muts[n] = declared.iter().filter(|d| asg.0.contains(d)).cloned().collect();
                let nl = LitInt::new(&n.to_string(), proc_macro2::Span::call_site());
                let st = &b.stmts;
                parse_quote!({
                    vx_mark!(pre, #nl);
                    while #c {
                        vx_mark!(inv, #nl);
                        vx_mark!(top, #nl);
                        #(#st)*
                        vx_mark!(bot, #nl);
                    }
                    vx_mark!(post, #nl);
                })
            }
            Expr::Loop(w) => {
                let n = self.loops;
                self.loops += 1;
                self.loop_muts.push(vec![]);
                let declared = self.decls.clone();
                let b = self.block(&w.body);
                let mut asg = Assigned(vec![]);
                syn::visit::Visit::visit_block(&mut asg, &b);
                self.loop_muts[n] = declared.iter().filter(|d| asg.0.contains(d)).cloned().collect();
                let nl = LitInt::new(&n.to_string(), proc_macro2::Span::call_site());
                let st = &b.stmts;
                parse_quote!({
                    vx_mark!(pre, #nl);
                    loop {
                        vx_mark!(inv, #nl);
                        vx_mark!(top, #nl);
                        #(#st)*
                        vx_mark!(bot, #nl);
                    }
                    vx_mark!(post, #nl);
                })
            }
            Expr::ForLoop(f) => {
                let st = self.for_loop(f);
                Self::boxed_block(st)
            }
            Expr::Return(r) => match &r.expr {
                Some(x) => {
                    let x = self.expr(x);
                    parse_quote!(return #x)
                }
                None => e.clone(),
            },
            Expr::Break(_) | Expr::Continue(_) => e.clone(),
            Expr::Try(t) => {
                if let Expr::MethodCall(m) = strip(&t.expr) {
                    if m.method == "collect" {
                        if let Some(tf) = &m.turbofish {
                            if tf.to_token_stream().to_string().contains("Result") {
                                self.used_rules.insert("collect-result");
                                let o = self.fresh("out");
                                self.decls.push(o.to_string());
                                let b = self.push(&m.receiver.clone(), &mut |_, it| {
                                    let v = Self::item_expr(&it);
                                    vec![parse_quote!(match #v { Ok(vx_v) => { #o.push(vx_v); } Err(vx_e) => { return Err(vx_e); } })]
                                });
                                return parse_quote!({ let mut #o = Vec::new(); #(#b)* #o });
                            }
                        }
                    }
                }
                let i = self.expr(&t.expr);
                parse_quote!(#i?)
            }
            Expr::Tuple(t) => {
                let v: Vec<Expr> = t.elems.iter().map(|x| self.expr(x)).collect();
                if v.len() == 1 {
                    let x = &v[0];
                    return parse_quote!((#x,));
                }
                parse_quote!((#(#v),*))
            }
            Expr::Array(t) => {
                let v: Vec<Expr> = t.elems.iter().map(|x| self.expr(x)).collect();
                parse_quote!([#(#v),*])
            }
            Expr::Repeat(r) => {
                let v = self.expr(&r.expr);
                let n = self.expr(&r.len);
                parse_quote!([#v; #n])
            }
            Expr::Struct(s) => {
                let mut s2 = s.clone();
                for f in s2.fields.iter_mut() {
                    f.expr = self.expr(&f.expr);
                    if f.colon_token.is_none() {
                        f.colon_token = Some(Default::default());
                    }
                }
                Expr::Struct(s2)
            }
            Expr::Macro(m) => self.macro_expr(m),
            Expr::MethodCall(m) => self.method(m),
            Expr::Call(c) => self.call(c),
            Expr::Range(_) => self.unsup("range value"),
            Expr::Closure(_) => self.unsup("closure"),
            _ => {
                let s = e.to_token_stream().to_string();
                self.unsup(format!("expression {s}"))
            }
        }
    }

    fn let_cond(&mut self, l: &ExprLet) -> Expr {
        let v = match strip(&l.expr) {
            Expr::Field(_) | Expr::Path(_) => self.place(&l.expr),
            _ => self.expr(&l.expr),
        };
        self.declare_pat(&l.pat);
        let p = &l.pat;
        parse_quote!(let #p = #v)
    }

    fn macro_expr(&mut self, m: &ExprMacro) -> Expr {
        let name = m.mac.path.segments.last().unwrap().ident.to_string();
        let args = || {
            m.mac
                .parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated)
                .map(|p| p.into_iter().collect::<Vec<_>>())
        };
        match name.as_str() {
            "assert" | "debug_assert" => {
                if let Ok(a) = args() {
                    let c = self.expr(&a[0]);
                    return parse_quote!(vx_assert(#c));
                }
            }
            "assert_eq" | "debug_assert_eq" => {
                if let Ok(a) = args() {
                    let l = self.expr(&a[0]);
                    let r = self.expr(&a[1]);
                    return parse_quote!(vx_assert(#l == #r));
                }
            }
            "panic" | "unreachable" | "todo" | "unimplemented" => return parse_quote!(vx_unreachable()),
            "vec" | "smallvec" => {
                struct Rep(Expr, Expr);
                impl parse::Parse for Rep {
                    fn parse(i: parse::ParseStream) -> Result<Self> {
                        let a: Expr = i.parse()?;
                        i.parse::<Token![;]>()?;
                        let b: Expr = i.parse()?;
                        Ok(Rep(a, b))
                    }
                }
                if let Ok(Rep(a, b)) = m.mac.parse_body::<Rep>() {
                    let a = self.expr(&a);
                    let b = self.expr(&b);
                    return parse_quote!(vx_vec(#a, #b));
                }
                if let Ok(a) = args() {
                    let v: Vec<Expr> = a.iter().map(|x| self.expr(x)).collect();
                    return parse_quote!(vec![#(#v),*]);
                }
            }
            "vx_mark" => return Expr::Macro(m.clone()),
            _ => {
                let mac = self.macros.get(&name).cloned().or_else(|| self.file.macros.get(&name).cloned());
                if let Some(mac) = mac {
                    if self.macrofns.contains(&name) {
                        if let Ok(a) = args() {
                            return self.macrofn_call(&name, &a);
                        }
                    }
                    if let Some(x) = expand(&mac, &m.mac.tokens) {
                        self.used_rules.insert("macro-expand");
                        if let Ok(e) = parse2::<Expr>(x.clone()) {
                            return self.expr(&e);
                        }
                        if let Ok(b) = parse2::<Block>(quote!({ #x })) {
                            let b = self.block(&b);
                            return Expr::Block(ExprBlock { attrs: vec![], label: None, block: b });
                        }
                    }
                }
            }
        }
        self.unsup(format!("macro {name}"))
    }

    /// A local macro turned into a function: literal arguments become const generics, the rest is passed on along with
    /// the variables of the enclosing function the macro captures (given by the signature in the spec).
    fn macrofn_call(&mut self, name: &str, a: &[Expr]) -> Expr {
        self.used_rules.insert("macro-fn");
        let f = id(&format!("vx_{name}"));
        let vals: Vec<Expr> =
            a.iter().filter(|x| !matches!(x, Expr::Lit(_))).map(|x| self.expr(x)).collect();
        parse_quote!(#f(src, #(#vals,)* peaks))
    }

    fn method(&mut self, m: &ExprMethodCall) -> Expr {
        let n = m.method.to_string();
        let recv = &m.receiver;
        let iter_recv = self.iterish(recv);
        match n.as_str() {
            "foreach_sample" if closure(&m.args[1]).is_some() => {
                self.used_rules.insert("foreach");
                let c = closure(&m.args[1]).unwrap().clone();
                let ch = self.expr(&m.args[0]);
                let src = self.expr(recv);
                let cn = self.fresh("ch");
                let st0: Vec<Stmt> =
                    vec![parse_quote!(let #cn: usize = #ch;), parse_quote!(vx_assert(#cn < #src.channels());)];
                let src2 = src.clone();
                let p = Prod {
                    setup: st0,
                    len: parse_quote!(#src.frames()),
                    item: Box::new(move |k| Item_::Val(parse_quote!(#src2.vx_sample(#cn, #k)))),
                };
                let st = self.index_loop(p, None, &mut |s, it| s.closure_body(&c, &[it]));
                Self::boxed_block(st)
            }
            "foreach_sample_zipped" if closure(&m.args[2]).is_some() => {
                self.used_rules.insert("foreach");
                let c = closure(&m.args[2]).unwrap().clone();
                let ch = self.expr(&m.args[0]);
                let src = self.expr(recv);
                let cn = self.fresh("ch");
                let mut st0: Vec<Stmt> =
                    vec![parse_quote!(let #cn: usize = #ch;), parse_quote!(vx_assert(#cn < #src.channels());)];
                let Some(p2) = self.prod(&m.args[1].clone()) else {
                    return self.unsup("zipped iterator");
                };
                st0.extend(p2.setup);
                let l2 = p2.len;
                let i2 = p2.item;
                let src2 = src.clone();
                let p = Prod {
                    setup: st0,
                    len: parse_quote!(vx_min_usize(#src.frames(), #l2)),
                    item: Box::new(move |k| {
                        Item_::Tuple(vec![Item_::Val(parse_quote!(#src2.vx_sample(#cn, #k))), i2(k)])
                    }),
                };
                let st = self.index_loop(p, None, &mut |s, it| match it {
                    Item_::Tuple(v) => s.closure_body(&c, &v),
                    _ => unreachable!(),
                });
                Self::boxed_block(st)
            }
            "foreach_frame" if closure(&m.args[0]).is_some() => {
                self.used_rules.insert("foreach");
                let c = closure(&m.args[0]).unwrap().clone();
                let src = self.expr(recv);
                let src2 = src.clone();
                let p = Prod {
                    setup: vec![],
                    len: parse_quote!(#src.frames()),
                    item: Box::new(move |k| Item_::Val(parse_quote!(#src2.vx_frame(#k)))),
                };
                let st = self.index_loop(p, None, &mut |s, it| s.closure_body(&c, &[it]));
                Self::boxed_block(st)
            }
            "for_each" if iter_recv => {
                let a = m.args[0].clone();
                let r = (**recv).clone();
                let st = self.push(&r, &mut |s, it| {
                    if let Some(c) = closure(&a) {
                        let c = c.clone();
                        s.closure_body(&c, &[it])
                    } else {
                        // path of a method
                        let meth = match strip(&a) {
                            Expr::Path(p) => p.path.segments.last().unwrap().ident.clone(),
                            _ => {
                                s.unsup("for_each argument");
                                return vec![];
                            }
                        };
                        match it {
                            Item_::Place(p, _) => vec![parse_quote!(#p.#meth();)],
                            it => {
                                let v = Self::item_expr(&it);
                                vec![parse_quote!((#v).#meth();)]
                            }
                        }
                    }
                });
                Self::boxed_block(st)
            }
            "fold" if iter_recv && m.args.len() == 2 && closure(&m.args[1]).is_some() => {
                self.used_rules.insert("fold");
                let c = closure(&m.args[1]).unwrap().clone();
                let init = self.expr(&m.args[0]);
                let acc = id(&format!("vx_acc{}", self.accs));
                self.accs += 1;
                self.decls.push(acc.to_string());
                let r = (**recv).clone();
                if let Expr::Tuple(t) = strip(&init) {
                    // the parts of a tuple, each in a variable of its own
                    let parts: Vec<Ident> = (0..t.elems.len()).map(|k| id(&format!("{acc}_{k}"))).collect();
                    let inits: Vec<Expr> = t.elems.iter().cloned().collect();
                    for p in &parts {
                        self.decls.push(p.to_string());
                    }
                    let st = self.push(&r, &mut |s, it| {
                        let mut st = vec![];
                        s.bind(&c.inputs[0], &Item_::Val(parse_quote!((#(#parts),*))), &mut st);
                        s.bind(&c.inputs[1], &it, &mut st);
                        let (mut pre, v) = s.value_of(&c.body);
                        st.append(&mut pre);
                        st.push(parse_quote!(let vx_next = #v;));
                        for (k, p) in parts.iter().enumerate() {
                            let k = syn::Index::from(k);
                            st.push(parse_quote!(#p = vx_next.#k;));
                        }
                        st
                    });
                    return parse_quote!({ #(let mut #parts = #inits;)* #(#st)* (#(#parts),*) });
                }
                let r = (**recv).clone();
                let st = self.push(&r, &mut |s, it| {
                    let mut st = vec![];
                    s.bind(&c.inputs[0], &Item_::Val(parse_quote!(#acc)), &mut st);
                    s.bind(&c.inputs[1], &it, &mut st);
                    let (mut pre, v) = s.value_of(&c.body);
                    st.append(&mut pre);
                    st.push(parse_quote!(#acc = #v;));
                    st
                });
                parse_quote!({ let mut #acc = #init; #(#st)* #acc })
            }
            "sum" if iter_recv => {
                let tf = m.turbofish.as_ref().map(|t| t.to_token_stream().to_string()).unwrap_or_default();
                if let Expr::MethodCall(r) = strip(recv) {
                    if r.method == "iter" && tf.contains("f64") {
                        self.used_rules.insert("std-sum");
                        let mut setup = vec![];
                        let (b, o, l) = self.src_setup(&r.receiver, &mut setup);
                        if o.to_token_stream().to_string() == "0usize" && setup.is_empty() {
                            return parse_quote!(vx_sum_f64(&#b));
                        }
                        setup.push(Stmt::Expr(parse_quote!(vx_sum_f64(vx_slice(&#b, #o, #o + #l))), None));
                        return Self::boxed_block(setup);
                    }
                }
                self.unsup("sum")
            }
            "count" if iter_recv => {
                self.used_rules.insert("count");
                let acc = id(&format!("vx_acc{}", self.accs));
                self.accs += 1;
                self.decls.push(acc.to_string());
                let r = (**recv).clone();
                let st = self.push(&r, &mut |_, _| vec![parse_quote!(#acc = #acc + 1;)]);
                parse_quote!({ let mut #acc: usize = 0; #(#st)* #acc })
            }
            "any" | "all" if iter_recv && closure(&m.args[0]).is_some() => {
                self.used_rules.insert("any");
                let c = closure(&m.args[0]).unwrap().clone();
                let acc = id(&format!("vx_acc{}", self.accs));
                self.accs += 1;
                self.decls.push(acc.to_string());
                let any = n == "any";
                let r = (**recv).clone();
                let st = self.push(&r, &mut |s, it| {
                    let mut st = vec![];
                    s.bind(&c.inputs[0], &it, &mut st);
                    let (mut pre, v) = s.value_of(&c.body);
                    st.append(&mut pre);
                    if any {
                        st.push(parse_quote!(if #v { #acc = true; }));
                    } else {
                        st.push(parse_quote!(if !(#v) { #acc = false; }));
                    }
                    st
                });
                let init: Expr = if any { parse_quote!(false) } else { parse_quote!(true) };
                parse_quote!({ let mut #acc = #init; #(#st)* #acc })
            }
            "rposition" if iter_recv && closure(&m.args[0]).is_some() => {
                self.used_rules.insert("rposition");
                let c = closure(&m.args[0]).unwrap().clone();
                let acc = id(&format!("vx_acc{}", self.accs));
                self.accs += 1;
                self.decls.push(acc.to_string());
                let Some(p) = self.prod(&(**recv).clone()) else {
                    return self.unsup("rposition");
                };
                let ln = self.loops;
                let st = self.index_loop(p, None, &mut |s, it| {
                    let mut st = vec![];
                    s.bind(&c.inputs[0], &it, &mut st);
                    let (mut pre, v) = s.value_of(&c.body);
                    st.append(&mut pre);
                    let k = id(&format!("vx_k{ln}"));
                    st.push(parse_quote!(if #v { #acc = Some(#k); }));
                    st
                });
                parse_quote!({ let mut #acc: Option<usize> = None; #(#st)* #acc })
            }
            "collect" if iter_recv => self.collect_vec(&(**recv).clone()),
            "map" if !iter_recv && closure(&m.args[0]).is_some() => {
                // Option::map
                self.used_rules.insert("option-map");
                let c = closure(&m.args[0]).unwrap().clone();
                let r = self.expr(recv);
                let p = c.inputs[0].clone();
                let b = self.scoped(|s| {
                    s.declare_pat(&p);
                    let (st, v) = s.value_of(&c.body);
                    let mut st = st;
                    st.push(Stmt::Expr(parse_quote!(Some(#v)), None));
                    st
                });
                parse_quote!(match #r { Some(#p) => { #(#b)* } None => None })
            }
            "and_then" if !iter_recv && closure(&m.args[0]).is_some() => {
                self.used_rules.insert("and_then");
                let c = closure(&m.args[0]).unwrap().clone();
                if flow_expr(&c.body).0 {
                    return self.unsup("return in and_then");
                }
                let r = self.expr(recv);
                let p = c.inputs[0].clone();
                let b = self.scoped(|s| {
                    let mut v = vec![];
                    pat_idents(&p, &mut v);
                    for (n, _) in v {
                        // the argument is a materialised iterator if it is used as one
                        s.set(&n, Bind::IterVec);
                    }
                    let (st, v) = s.value_of(&c.body);
                    let mut st = st;
                    st.push(Stmt::Expr(v, None));
                    st
                });
                parse_quote!(match #r { Ok(#p) => { #(#b)* } Err(vx_e) => Err(vx_e) })
            }
            "fill" => {
                self.used_rules.insert("std-fill");
                let v = self.expr(&m.args[0]);
                if let Some(Bind::View { .. }) = self.lookup_e(recv) {
                    return self.unsup("fill of a view");
                }
                let p = self.place(recv);
                parse_quote!(#p.vx_fill(#v))
            }
            "copy_from_slice" => {
                self.used_rules.insert("std-copy");
                let a = self.expr(&m.args[0]);
                if let Some((mut st, b, o, l)) = self.view_of(recv) {
                    st.push(Stmt::Expr(parse_quote!(vx_copy_into(&mut #b, #o, #l, #a)), None));
                    return Self::boxed_block(st);
                }
                let p = self.place(recv);
                parse_quote!(vx_copy_from_slice(&mut #p, #a))
            }
            "extend_from_slice" => {
                let a = self.expr(&m.args[0]);
                let p = self.place(recv);
                parse_quote!(vx_extend_from_slice(&mut #p, #a))
            }
            "as_slices" => {
                let p = self.place(recv);
                parse_quote!(vx_as_slices(&#p))
            }
            "with_capacity" => Expr::MethodCall(m.clone()),
            "into" if matches!(strip(recv), Expr::Macro(mm) if mm.mac.path.is_ident("vec")) => {
                let r = self.expr(recv);
                parse_quote!(vx_into_boxed(#r))
            }
            "into_boxed_slice" => {
                let r = self.expr(recv);
                parse_quote!(vx_into_boxed(#r))
            }
            "binary_search" => {
                self.used_rules.insert("std-binary-search");
                let a = self.expr(&m.args[0]);
                if let Some((mut st, b, o, l)) = self.view_of(recv) {
                    st.push(Stmt::Expr(parse_quote!(vx_binary_search(vx_slice(&#b, #o, #o + #l), #a)), None));
                    return Self::boxed_block(st);
                }
                let p = self.place(recv);
                parse_quote!(vx_binary_search(&#p, #a))
            }
            "unwrap_or_else" if path_str(&m.args[0]).ends_with("identity") => {
                let r = self.expr(recv);
                parse_quote!(vx_ok_or_err(#r))
            }
            "contains" if matches!(strip(recv), Expr::Range(_)) => {
                self.used_rules.insert("range-contains");
                let Expr::Range(r) = strip(recv) else { unreachable!() };
                let x = match strip(&m.args[0]) {
                    Expr::Reference(r) => self.expr(&r.expr),
                    x => {
                        let x = self.expr(&x.clone());
                        parse_quote!(*#x)
                    }
                };
                let mut conds: Vec<Expr> = vec![];
                if let Some(s) = &r.start {
                    let s = self.expr(s);
                    conds.push(parse_quote!(#s <= #x));
                }
                if let Some(s) = &r.end {
                    let s = self.expr(s);
                    match r.limits {
                        RangeLimits::HalfOpen(_) => conds.push(parse_quote!(#x < #s)),
                        RangeLimits::Closed(_) => conds.push(parse_quote!(#x <= #s)),
                    }
                }
                parse_quote!((#(#conds)&&*))
            }
            "to_sample" => {
                let tf = m.turbofish.as_ref().map(|t| t.to_token_stream().to_string()).unwrap_or_default();
                let r = self.expr(recv);
                self.used_rules.insert("to_sample");
                if tf.contains("f64") {
                    parse_quote!(#r.vx_to_f64_())
                } else if tf.contains("f32") {
                    parse_quote!(#r.vx_to_f32_())
                } else {
                    self.unsup("to_sample")
                }
            }
            "sort_unstable_by" | "sort_by" => {
                if let Some(c) = closure(&m.args[0]) {
                    self.used_rules.insert("std-sort");
                    let c = c.clone();
                    return self.sort_by(recv, &c);
                }
                self.unsup("sort")
            }
            "abs" => {
                let r = match self.lookup_e(recv) {
                    Some(Bind::Place(..)) => self.place(recv),
                    _ => self.expr(recv),
                };
                parse_quote!(vx_abs(#r))
            }
            "is_nan" => {
                let r = self.expr(recv);
                parse_quote!(vx_is_nan(#r))
            }
            "partial_cmp" => {
                let r = self.expr(recv);
                let a = self.expr(&m.args[0]);
                parse_quote!(vx_partial_cmp(#r, #a))
            }
            "cmp" => {
                let r = self.expr(recv);
                let a = self.expr(&m.args[0]);
                parse_quote!(vx_cmp(#r, #a))
            }
            "mul_add" => {
                let r = self.expr(recv);
                let a = self.expr(&m.args[0]);
                let b = self.expr(&m.args[1]);
                parse_quote!((#r).vx_mul_add_(#a, #b))
            }
            "index_mut" => {
                let b = self.place(recv);
                let i = self.expr(&m.args[0]);
                parse_quote!(#b[#i])
            }
            "index" => {
                let b = self.place(recv);
                let i = self.expr(&m.args[0]);
                parse_quote!(&#b[#i])
            }
            "len" => {
                if let Some(Bind::View { len, .. }) = self.lookup_e(recv) {
                    return len;
                }
                let p = self.place(recv);
                parse_quote!(vx_len(&#p))
            }
            _ => {
                // helper of the same type without a contract: inline
                if path_ident(recv).as_deref() == Some("self") {
                    if let Some(x) = self.try_inline(&n, Some(recv), &m.args.iter().cloned().collect::<Vec<_>>()) {
                        return x;
                    }
                }
                if iter_recv {
                    let s = m.to_token_stream().to_string();
                    return self.unsup(format!("iterator method {n} in {s}"));
                }
                let r = match strip(recv) {
                    Expr::Path(_) | Expr::Field(_) | Expr::Index(_) | Expr::Unary(_) => {
                        let p = self.place(recv);
                        if let Expr::Unary(_) = p {
                            parse_quote!((#p))
                        } else {
                            p
                        }
                    }
                    _ => {
                        let r = self.expr(recv);
                        if matches!(r, Expr::Block(_) | Expr::If(_) | Expr::Match(_)) {
                            parse_quote!((#r))
                        } else {
                            r
                        }
                    }
                };
                let a: Vec<Expr> = m.args.iter().map(|x| self.expr(x)).collect();
                let meth = &m.method;
                let tf = &m.turbofish;
                parse_quote!(#r.#meth #tf(#(#a),*))
            }
        }
    }

    fn closure_body(&mut self, c: &ExprClosure, items: &[Item_]) -> Vec<Stmt> {
        if flow_expr(&c.body).0 {
            self.unsup("return in an inlined closure");
        }
        let mut st = vec![];
        for (p, i) in c.inputs.iter().zip(items) {
            self.bind(p, i, &mut st);
        }
        match strip(&c.body) {
            Expr::Block(b) => {
                let b = self.block(&b.block);
                st.extend(b.stmts);
            }
            x => {
                let v = self.expr(&x.clone());
                st.push(Stmt::Expr(v, Some(Default::default())));
            }
        }
        // the value of the body, if any, is ()
        if let Some(Stmt::Expr(_, semi @ None)) = st.last_mut() {
            *semi = Some(Default::default());
        }
        st
    }

    /// `v.sort_unstable_by(|a, b| ..)` with a comparator that may set one captured flag.
    fn sort_by(&mut self, recv: &Expr, c: &ExprClosure) -> Expr {
        let mut names = vec![];
        for p in &c.inputs {
            pat_idents(p, &mut names);
        }
        if names.len() != 2 {
            return self.unsup("comparator");
        }
        let (a, b) = (id(&names[0].0), id(&names[1].0));
        let body = self.scoped(|s| {
            s.declare(&a.to_string());
            s.declare(&b.to_string());
            s.expr(&c.body)
        });
        let mut asg = Assigned(vec![]);
        syn::visit::Visit::visit_expr(&mut asg, &body);
        let caps: Vec<String> = self.decls.iter().filter(|d| asg.0.contains(d)).cloned().collect();
        let p = self.place(recv);
        if caps.len() == 1 {
            let cap = id(&caps[0]);
            // lifted comparator, verified on its own against vx_cmp_contract
            let mut body2 = body.clone();
            struct Deref(Ident);
            impl VisitMut for Deref {
                fn visit_expr_mut(&mut self, e: &mut Expr) {
                    if path_ident(e).as_deref() == Some(self.0.to_string().as_str()) {
                        let i = &self.0;
                        *e = parse_quote!((*#i));
                        return;
                    }
                    syn::visit_mut::visit_expr_mut(self, e);
                }
            }
            Deref(cap.clone()).visit_expr_mut(&mut body2);
            self.lifted.push(
                quote!(pub fn vx_comparator(#a: &f64, #b: &f64, #cap: &mut bool) -> (vx_r: std::cmp::Ordering)
                    ensures vx_cmp_contract(*#a, *#b, *old(#cap), *final(#cap), vx_r)
                    #body2)
                .to_string(),
            );
            parse_quote!(vx_sort_flag(&mut #p, &mut #cap))
        } else {
            self.unsup("comparator captures")
        }
    }

    fn call(&mut self, c: &ExprCall) -> Expr {
        let f = path_str(&c.func);
        let args: Vec<Expr> = c.args.iter().cloned().collect();
        match f.as_str() {
            "std::cmp::min" | "cmp::min" => {
                let a = self.expr(&args[0]);
                let b = self.expr(&args[1]);
                return parse_quote!(vx_min(#a, #b));
            }
            "std::cmp::max" | "cmp::max" => {
                let a = self.expr(&args[0]);
                let b = self.expr(&args[1]);
                return parse_quote!(vx_max(#a, #b));
            }
            // lossless conversions are casts
            "f64::from" | "f32::from" | "u64::from" | "u32::from" | "usize::from" if args.len() == 1 => {
                let t: Type = parse_str(f.split("::").next().unwrap()).unwrap();
                let a = args[0].clone();
                self.used_rules.insert("conversion");
                return self.expr(&parse_quote!((#a) as #t));
            }
            "f64::tan" | "f64::powf" | "f64::cos" | "f64::sin" | "f64::log10" | "f64::ln" | "f64::sqrt" | "f64::abs"
            | "f64::powi" | "f64::exp" => {
                let g = id(&format!("vx_{}", &f[5..]));
                let a: Vec<Expr> = args.iter().map(|x| self.expr(x)).collect();
                return parse_quote!(#g(#(#a),*));
            }
            _ => {}
        }
        // transmute::<A, B>(x): a function of the prelude, named after the two types
        if let Expr::Path(p) = strip(&c.func) {
            let l = p.path.segments.last().unwrap();
            if l.ident == "transmute" {
                let names: Vec<String> = match &l.arguments {
                    PathArguments::AngleBracketed(a) => a
                        .args
                        .iter()
                        .map(|t| t.to_token_stream().to_string().rsplit("::").next().unwrap_or("").trim().to_string())
                        .collect(),
                    _ => vec![],
                };
                if names.len() == 2 && args.len() == 1 {
                    self.used_rules.insert("transmute");
                    let g = id(&format!("vx_transmute_{}_{}", names[0], names[1]));
                    let a = self.expr(&args[0]);
                    return parse_quote!(#g(#a));
                }
            }
        }
        // raw pointers of the C interface
        if f.ends_with("ptr::null_mut") && args.is_empty() {
            self.used_rules.insert("pointer");
            return parse_quote!(None);
        }
        if f.ends_with("Box::into_raw") && args.len() == 1 {
            self.used_rules.insert("pointer");
            let a = self.expr(&args[0]);
            return parse_quote!(vx_into_raw(#a));
        }
        if f.ends_with("with_ftz") && args.len() == 1 {
            if let Some(cl) = closure(&args[0]) {
                self.used_rules.insert("with_ftz");
                let cl = cl.clone();
                if flow_expr(&cl.body).0 {
                    return self.unsup("return in with_ftz");
                }
                let p = cl.inputs[0].clone();
                return self.scoped(|s| {
                    s.declare_pat(&p);
                    let (mut st, v) = s.value_of(&cl.body);
                    let mut out: Vec<Stmt> = vec![parse_quote!(let #p = vx_ftz();), parse_quote!(let vx_in_ftz = true;)];
                    out.append(&mut st);
                    if v.to_token_stream().to_string() != "()" {
                        out.push(Stmt::Expr(v, None));
                    }
                    Self::boxed_block(out)
                });
            }
        }
        if let Some(n) = path_ident(&c.func) {
            if let Some(Bind::FnMut) = self.lookup(&n) {
                let a: Vec<Expr> = args.iter().map(|x| self.expr(x)).collect();
                let i = id(&n);
                if a.len() > 1 {
                    return parse_quote!(#i.call((#(#a),*)));
                }
                return parse_quote!(#i.call(#(#a),*));
            }
        }
        // Ok(ITERATOR): materialise
        if (f == "Ok" || f == "Some") && args.len() == 1 && self.iterish(&args[0]) {
            self.used_rules.insert("materialise");
            let v = self.collect_vec(&args[0]);
            let g = id(&f);
            return parse_quote!(#g(#v));
        }
        // from_fn / Frame::map
        if f == "F::from_fn" || f.ends_with(">::from_fn") || f.starts_with("<[f32;") && f.ends_with("from_fn") {
            if let Some(cl) = closure(&args[0]) {
                return self.array_from_fn(&cl.clone());
            }
        }
        // Frame::from_samples(&mut SLICE.iter().copied())
        if f.ends_with("::from_samples") && args.len() == 1 {
            let mut x = strip(&args[0]).clone();
            if let Expr::Reference(r) = &x {
                x = strip(&r.expr).clone();
            }
            while let Expr::MethodCall(mc) = &x {
                if !matches!(mc.method.to_string().as_str(), "copied" | "cloned" | "iter" | "into_iter") {
                    break;
                }
                x = strip(&mc.receiver).clone();
            }
            self.used_rules.insert("from_samples");
            let mut st = vec![];
            let (b, o, n) = self.src_setup(&x, &mut st);
            st.push(Stmt::Expr(parse_quote!(vx_from_samples(&#b, #o, #n)), None));
            return if st.len() == 1 {
                let Stmt::Expr(e, _) = st.pop().unwrap() else { unreachable!() };
                e
            } else {
                Self::boxed_block(st)
            };
        }
        if f == "Frame::map" {
            if let Some(cl) = closure(&args[1]) {
                return self.frame_map(&args[0], &cl.clone());
            }
        }
        // helpers without a contract
        let last = f.rsplit("::").next().unwrap_or("").to_string();
        let is_self = f.starts_with("Self::")
            || self.self_name.as_ref().map(|s| f.starts_with(&format!("{s}::"))).unwrap_or(false);
        if is_self || !f.contains("::") {
            if let Some(x) = self.try_inline_key(
                &if is_self { format!("{}::{}", self.self_name.clone().unwrap_or_default(), last) } else { last.clone() },
                None,
                &args,
            ) {
                return x;
            }
        }
        let func = c.func.clone();
        let a: Vec<Expr> = args.iter().map(|x| self.expr(x)).collect();
        parse_quote!(#func(#(#a),*))
    }

    fn array_from_fn(&mut self, c: &ExprClosure) -> Expr {
        self.used_rules.insert("from_fn");
        let t = self.fresh("arr");
        let p = Prod {
            setup: vec![parse_quote!(let mut #t = vx_array_init();)],
            len: parse_quote!(vx_len(&#t)),
            item: Box::new(|k| Item_::Val(k.clone())),
        };
        let ln = self.loops;
        let c = c.clone();
        let mut st = self.index_loop(p, None, &mut |s, it| {
            let mut st = vec![];
            s.bind(&c.inputs[0], &it, &mut st);
            let (mut pre, v) = s.value_of(&c.body);
            st.append(&mut pre);
            let k = id(&format!("vx_k{ln}"));
            st.push(parse_quote!(#t[#k] = #v;));
            st
        });
        st.push(Stmt::Expr(parse_quote!(#t), None));
        Self::boxed_block(st)
    }

    fn frame_map(&mut self, src: &Expr, c: &ExprClosure) -> Expr {
        self.used_rules.insert("frame-map");
        let t = self.fresh("arr");
        let s0 = self.fresh("src");
        let e = self.expr(src);
        let s1 = s0.clone();
        let p = Prod {
            setup: vec![parse_quote!(let #s0 = #e;), parse_quote!(let mut #t = vx_array_like(&#s0);)],
            len: parse_quote!(vx_len(&#s0)),
            item: Box::new(move |k| Item_::Val(parse_quote!(#s1[#k]))),
        };
        let ln = self.loops;
        let c = c.clone();
        let mut st = self.index_loop(p, None, &mut |s, it| {
            let mut st = vec![];
            s.bind(&c.inputs[0], &it, &mut st);
            let (mut pre, v) = s.value_of(&c.body);
            st.append(&mut pre);
            let k = id(&format!("vx_k{ln}"));
            st.push(parse_quote!(#t[#k] = #v;));
            st
        });
        st.push(Stmt::Expr(parse_quote!(#t), None));
        Self::boxed_block(st)
    }

    fn try_inline(&mut self, meth: &str, recv: Option<&Expr>, args: &[Expr]) -> Option<Expr> {
        let key = format!("{}::{}", self.self_name.clone()?, meth);
        self.try_inline_key(&key, recv, args)
    }

    fn try_inline_key(&mut self, key: &str, recv: Option<&Expr>, args: &[Expr]) -> Option<Expr> {
        if self.contracted.contains(key) {
            return None;
        }
        let mut f = self.file.fns.get(key)?.clone();
        if self.inline_depth > 4 {
            self.unsup("inlining depth");
            return None;
        }
        let (ret, _) = flow_block(&f.block);
        if ret {
            let ty = match &f.sig.output {
                ReturnType::Type(_, t) => t.to_token_stream().to_string(),
                _ => String::new(),
            };
            let r = crate::returns::Returns { option: ty.starts_with("Option") };
            match r.stmts(&f.block.stmts) {
                Some(v) if !flow_block(&Block { brace_token: Default::default(), stmts: v.clone() }).0 => {
                    f.block.stmts = v;
                    self.used_rules.insert("helper-returns");
                }
                _ => return Some(self.unsup(format!("helper {key} with early return"))),
            }
        }
        self.inlined.push(key.to_string());
        self.inline_depth += 1;
        // evaluate the arguments in the caller's scope
        let mut pre: Vec<Stmt> = vec![];
        let mut binds: Vec<(String, Bind)> = vec![];
        let mut lets: Vec<(Pat, Expr)> = vec![];
        let params: Vec<FnArg> = f.sig.inputs.iter().cloned().collect();
        let mut ai = 0;
        for p in &params {
            match p {
                FnArg::Receiver(_) => {
                    if recv.is_none() {
                        ai += 1;
                    }
                }
                FnArg::Typed(t) => {
                    let a = args.get(ai)?.clone();
                    ai += 1;
                    let name = match strip_pat(&t.pat) {
                        Pat::Ident(i) => i.ident.to_string(),
                        _ => return Some(self.unsup("helper parameter pattern")),
                    };
                    let is_mut_ref = matches!(&*t.ty, Type::Reference(r) if r.mutability.is_some());
                    if is_mut_ref {
                        let b = match strip(&a) {
                            Expr::Reference(r) if r.mutability.is_some() => {
                                if let Some((mut st, b, o, n)) = self.view_of(&r.expr) {
                                    pre.append(&mut st);
                                    Bind::View { base: b, off: o, len: n, m: true }
                                } else {
                                    match self.stable_place(&r.expr, &mut pre) {
                                        Some(p) => Bind::Place(p, true),
                                        None => return Some(self.unsup("helper argument")),
                                    }
                                }
                            }
                            x => match self.lookup_e(x) {
                                Some(b @ (Bind::Place(..) | Bind::View { .. })) => b,
                                _ => match path_ident(x) {
                                    Some(n) => {
                                        let i = id(&n);
                                        Bind::Place(parse_quote!((*#i)), true)
                                    }
                                    None => return Some(self.unsup("helper argument")),
                                },
                            },
                        };
                        binds.push((name, b));
                    } else if let Some(b @ (Bind::View { .. } | Bind::FnMut)) = self.lookup_e(&a) {
                        binds.push((name, b));
                    } else {
                        let v = self.expr(&a);
                        let t0 = self.fresh("arg");
                        pre.push(parse_quote!(let #t0 = #v;));
                        let isref = matches!(&*t.ty, Type::Reference(_));
                        lets.push(((*t.pat).clone(), parse_quote!(#t0)));
                        binds.push((name, if isref { Bind::RefParam } else { Bind::Local }));
                    }
                }
            }
        }
        // a fresh environment: only self and the parameters are visible
        let saved = std::mem::replace(&mut self.scopes, vec![HashMap::new()]);
        if recv.is_some() {
            self.declare("self");
        }
        for (p, e) in &lets {
            pre.push(parse_quote!(let #p = #e;));
            let mut v = vec![];
            pat_idents(p, &mut v);
            for (n, m) in v {
                if m {
                    self.decls.push(n);
                }
            }
        }
        for (n, b) in binds {
            self.set(&n, b);
        }
        let b = self.block(&f.block);
        self.scopes = saved;
        self.inline_depth -= 1;
        self.used_rules.insert("inline-helper");
        pre.extend(b.stmts);
        Some(Self::boxed_block(pre))
    }
}

fn ptr_window(e: &Expr) -> Option<(Expr, Expr)> {
    // (X.get_unchecked(i) as *const T as *const [T; N])
    let mut x = e;
    let mut casts = vec![];
    while let Expr::Cast(c) = strip(x) {
        casts.push(c.ty.to_token_stream().to_string().replace(' ', ""));
        x = &c.expr;
    }
    if casts.len() == 2 && casts[0] == "*const[T;N]" && casts[1] == "*constT" {
        if let Expr::MethodCall(m) = strip(x) {
            if m.method == "get_unchecked" {
                return Some(((*m.receiver).clone(), m.args[0].clone()));
            }
        }
    }
    None
}

/// Expands a macro_rules macro with a single rule of comma separated `$x:expr` parameters.
pub fn expand(mac: &ItemMacro, args: &proc_macro2::TokenStream) -> Option<proc_macro2::TokenStream> {
    use proc_macro2::TokenTree as TT;
    let toks: Vec<TT> = mac.mac.tokens.clone().into_iter().collect();
    let pat = match &toks[0] {
        TT::Group(g) => g.stream(),
        _ => return None,
    };
    let body = match toks.get(3) {
        Some(TT::Group(g)) => g.stream(),
        _ => return None,
    };
    if toks.len() > 5 {
        return None;
    }
    let mut names = vec![];
    let mut prev_dollar = false;
    let pv: Vec<TT> = pat.into_iter().collect();
    for t in &pv {
        match t {
            TT::Punct(p) if p.as_char() == '$' => prev_dollar = true,
            TT::Ident(i) if prev_dollar => {
                names.push(i.to_string());
                prev_dollar = false;
            }
            _ => prev_dollar = false,
        }
    }
    let a: Vec<Expr> = parse::Parser::parse2(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated, args.clone())
        .ok()?
        .into_iter()
        .collect();
    if a.len() != names.len() {
        return None;
    }
    let map: HashMap<String, proc_macro2::TokenStream> =
        names.into_iter().zip(a.iter().map(|x| x.to_token_stream())).collect();
    Some(subst(body, &map))
}

pub fn subst(
    ts: proc_macro2::TokenStream,
    map: &HashMap<String, proc_macro2::TokenStream>,
) -> proc_macro2::TokenStream {
    use proc_macro2::TokenTree as TT;
    let mut out: Vec<TT> = vec![];
    let v: Vec<TT> = ts.into_iter().collect();
    let mut i = 0;
    while i < v.len() {
        match &v[i] {
            TT::Punct(p) if p.as_char() == '$' => {
                if let Some(TT::Ident(id)) = v.get(i + 1) {
                    if let Some(r) = map.get(&id.to_string()) {
                        out.extend(r.clone());
                        i += 2;
                        continue;
                    }
                }
                out.push(v[i].clone());
            }
            TT::Group(g) => {
                out.push(TT::Group(proc_macro2::Group::new(g.delimiter(), subst(g.stream(), map))));
            }
            t => out.push(t.clone()),
        }
        i += 1;
    }
    out.into_iter().collect()
}
