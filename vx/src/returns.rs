//! Early returns of a helper written as nested expressions, so that the helper can be inlined:
//! `if c { return x; } rest` becomes `if c { x } else { rest }`, `let p = e?; rest` a match on `e`.
//! Whatever has another form is refused.
use syn::*;

struct Flow(bool);
impl<'a> syn::visit::Visit<'a> for Flow {
    fn visit_expr(&mut self, e: &'a Expr) {
        match e {
            Expr::Return(_) | Expr::Try(_) => self.0 = true,
            Expr::Closure(_) => {}
            _ => syn::visit::visit_expr(self, e),
        }
    }
}
fn has(e: &Expr) -> bool {
    let mut f = Flow(false);
    syn::visit::Visit::visit_expr(&mut f, e);
    f.0
}
fn has_stmt(s: &Stmt) -> bool {
    let mut f = Flow(false);
    syn::visit::Visit::visit_stmt(&mut f, s);
    f.0
}
fn strip(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip(&p.expr),
        Expr::Group(p) => strip(&p.expr),
        _ => e,
    }
}
fn blk(v: Vec<Stmt>) -> Block {
    Block { brace_token: Default::default(), stmts: v }
}
fn stmts_of(e: &Expr) -> Vec<Stmt> {
    match e {
        Expr::Block(b) if b.label.is_none() => b.block.stmts.clone(),
        _ => vec![Stmt::Expr(e.clone(), None)],
    }
}
/// the last statement leaves the function
fn diverges(v: &[Stmt]) -> bool {
    match v.last() {
        Some(Stmt::Expr(e, _)) => diverges_e(e),
        _ => false,
    }
}
fn diverges_e(e: &Expr) -> bool {
    match strip(e) {
        Expr::Return(_) => true,
        Expr::Block(b) => diverges(&b.block.stmts),
        Expr::If(i) => diverges(&i.then_branch.stmts) && i.else_branch.as_ref().map_or(false, |x| diverges_e(&x.1)),
        Expr::Match(m) => m.arms.iter().all(|a| diverges_e(&a.body)),
        _ => false,
    }
}
/// `v` followed by `rest`, unless a local of `v` could shadow something in `rest`
fn join(v: &[Stmt], rest: &[Stmt]) -> Option<Vec<Stmt>> {
    if diverges(v) || rest.is_empty() {
        return Some(v.to_vec());
    }
    let words = |v: &[Stmt]| -> Vec<String> {
        let t: String = v.iter().map(|s| quote::ToTokens::to_token_stream(s).to_string() + " ").collect();
        t.split(|c: char| !c.is_alphanumeric() && c != '_').map(String::from).collect()
    };
    let used = words(rest);
    for s in v {
        if let Stmt::Local(l) = s {
            let p = quote::ToTokens::to_token_stream(&l.pat).to_string();
            if p.split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| !w.is_empty() && used.iter().any(|u| u == w)) {
                return None;
            }
        }
    }
    let mut o = v.to_vec();
    if let Some(Stmt::Expr(e, semi @ None)) = o.last_mut() {
        let _ = e;
        *semi = Some(Default::default());
    }
    o.extend(rest.to_vec());
    Some(o)
}

pub struct Returns {
    /// the function returns an Option, not a Result
    pub option: bool,
}
impl Returns {
    fn fail(&self) -> (Pat, Expr) {
        if self.option {
            (parse_quote!(None), parse_quote!(None))
        } else {
            (parse_quote!(Err(vx_err)), parse_quote!(Err(vx_err)))
        }
    }
    fn ok(&self, p: &Pat) -> Pat {
        if self.option {
            parse_quote!(Some(#p))
        } else {
            parse_quote!(Ok(#p))
        }
    }
    fn try_(&self, e: &Expr, p: &Pat, rest: Vec<Stmt>) -> Expr {
        let ok = self.ok(p);
        let (fp, fe) = self.fail();
        let b = blk(rest);
        parse_quote!(match #e { #ok => #b, #fp => #fe })
    }
    pub fn stmts(&self, v: &[Stmt]) -> Option<Vec<Stmt>> {
        let k = match v.iter().position(has_stmt) {
            None => return Some(v.to_vec()),
            Some(k) => k,
        };
        let mut out = v[..k].to_vec();
        let rest = &v[k + 1..];
        let tail = match &v[k] {
            Stmt::Local(l) => {
                let pat = &l.pat;
                let init = l.init.as_ref()?;
                if let Some((_, d)) = &init.diverge {
                    if has(&init.expr) {
                        return None;
                    }
                    let p0 = match pat {
                        Pat::Type(t) => &*t.pat,
                        p => p,
                    };
                    let e = &init.expr;
                    let yes = blk(self.stmts(rest)?);
                    let no = blk(self.stmts(&stmts_of(d))?);
                    parse_quote!(match #e { #p0 => #yes, _ => #no })
                } else {
                    match strip(&init.expr) {
                        Expr::Try(t) if !has(&t.expr) => {
                            let mut r: Vec<Stmt> = vec![];
                            if let Pat::Type(_) = pat {
                                r.push(parse_quote!(let #pat = vx_ok;));
                                r.extend(self.stmts(rest)?);
                                self.try_(&t.expr, &parse_quote!(vx_ok), r)
                            } else {
                                r.extend(self.stmts(rest)?);
                                self.try_(&t.expr, pat, r)
                            }
                        }
                        e => self.spread(e, &|v| {
                            let mut v = v.to_vec();
                            match v.pop()? {
                                Stmt::Expr(x, None) => {
                                    if v.iter().any(|s| matches!(s, Stmt::Local(_))) {
                                        let b = blk({ v.push(Stmt::Expr(x, None)); v });
                                        let mut o: Vec<Stmt> = vec![parse_quote!(let #pat = #b;)];
                                        o.extend(rest.to_vec());
                                        return Some(o);
                                    }
                                    v.push(parse_quote!(let #pat = #x;));
                                    v.extend(rest.to_vec());
                                    Some(v)
                                }
                                _ => None,
                            }
                        })?,
                    }
                }
            }
            Stmt::Expr(e, semi) => {
                let e = strip(e);
                match e {
                    Expr::Return(r) => match &r.expr {
                        Some(x) => return Some({ out.extend(self.stmts(&[Stmt::Expr((**x).clone(), None)])?); out }),
                        None => return Some(out),
                    },
                    Expr::Try(t) if !has(&t.expr) => {
                        if rest.is_empty() && semi.is_none() {
                            self.try_(&t.expr, &parse_quote!(vx_ok), vec![Stmt::Expr(parse_quote!(vx_ok), None)])
                        } else {
                            self.try_(&t.expr, &parse_quote!(_), self.stmts(rest)?)
                        }
                    }
                    // f(e?) as the last expression
                    Expr::Call(c) if rest.is_empty() && c.args.len() == 1 && !has(&c.func) => {
                        let x = match strip(&c.args[0]) {
                            Expr::Try(t) if !has(&t.expr) => &t.expr,
                            _ => return None,
                        };
                        let f = &c.func;
                        self.try_(x, &parse_quote!(vx_ok), vec![Stmt::Expr(parse_quote!(#f(vx_ok)), None)])
                    }
                    _ if rest.is_empty() && semi.is_none() => self.spread(e, &|v| Some(v.to_vec()))?,
                    _ => self.spread(e, &|v| join(v, rest))?,
                }
            }
            _ => return None,
        };
        out.push(Stmt::Expr(tail, None));
        Some(out)
    }
    /// an `if`, `match` or block with `k` applied to what its branches do when they do not leave
    fn spread(&self, e: &Expr, k: &dyn Fn(&[Stmt]) -> Option<Vec<Stmt>>) -> Option<Expr> {
        let go = |v: &[Stmt]| -> Option<Vec<Stmt>> {
            if diverges(v) {
                self.stmts(v)
            } else {
                self.stmts(&k(v)?)
            }
        };
        match strip(e) {
            Expr::If(i) if !has(&i.cond) => {
                let c = &i.cond;
                let t = blk(go(&i.then_branch.stmts)?);
                let f = blk(match &i.else_branch {
                    Some((_, x)) => go(&stmts_of(x))?,
                    None => go(&[])?,
                });
                Some(parse_quote!(if #c #t else #f))
            }
            Expr::Match(m) if !has(&m.expr) && m.arms.iter().all(|a| a.guard.is_none() || !has(&a.guard.as_ref().unwrap().1)) => {
                let mut m = m.clone();
                for a in &mut m.arms {
                    let b = blk(go(&stmts_of(&a.body))?);
                    *a.body = parse_quote!(#b);
                    a.comma = Some(Default::default());
                }
                Some(Expr::Match(m))
            }
            Expr::Block(b) if b.label.is_none() => {
                let v = blk(go(&b.block.stmts)?);
                Some(parse_quote!(#v))
            }
            _ => None,
        }
    }
}
