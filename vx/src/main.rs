//! vx: extracts the functions named in the contract files from the real sources, normalises their bodies into the
//! subset of Rust the verifier accepts, and writes one Verus crate with the contracts spliced in.
mod index;
mod norm;
mod print;
mod returns;
use index::*;
use norm::*;
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, HashMap, HashSet};
use syn::visit_mut::VisitMut;
use syn::*;

#[derive(Default, Clone)]
struct FnSpec {
    key: String,
    /// a cfg switched on for this copy of the function
    cfg: Option<String>,
    params: Vec<String>,
    ret: String,
    props: Vec<String>,
    sig: Option<String>,
    attrs: Vec<String>,
    implhdr: Option<String>,
    sect: BTreeMap<String, String>,
    subst: Vec<(String, String)>,
    tys: Vec<(String, String)>,
    macrofn: Option<String>,
    allow_missing: bool,
    dropty: Vec<(String, String)>,
    /// a line at the start of every function of the impl: ties the contracts of the trait to the specifications of the impl
    each: Option<String>,
}

enum Entry {
    Raw(String),
    /// name of the specification function, static array of the source: the bits of its literals
    Table(String, String, String, usize),
    /// name, properties and text of a proof by computation about tables
    Compute(String, Vec<String>, String),
    Item(String, Vec<String>),
    Fn(FnSpec),
    ImplOpen(String),
    ImplClose,
    Mode,
}

struct Module {
    name: String,
    file: String,
    entries: Vec<Entry>,
    vspec: String,
}

fn parse_specs(dir: &str) -> Vec<Module> {
    let mut files: Vec<_> = std::fs::read_dir(dir)
        .unwrap()
        .filter_map(|e| e.ok().map(|e| e.path()))
        .filter(|p| p.extension().map(|e| e == "vspec").unwrap_or(false))
        .collect();
    files.sort();
    let mut mods: Vec<Module> = vec![];
    for f in files {
        let text = std::fs::read_to_string(&f).unwrap();
        let fname = f.file_name().unwrap().to_string_lossy().to_string();
        let mut cur: Option<FnSpec> = None;
        let mut sect: Option<String> = None; // section of the current fn, or "raw"
        let mut buf = String::new();
        let mut pend_attrs: Vec<String> = vec![];
        let mut each: Option<String> = None;
        fn flush(mods: &mut Vec<Module>, cur: &mut Option<FnSpec>, sect: &mut Option<String>, buf: &mut String) {
            if let Some(s) = sect.take() {
                let t = std::mem::take(buf);
                if s == "raw" {
                    mods.last_mut().unwrap().entries.push(Entry::Raw(t));
                } else if let Some(r) = s.strip_prefix("compute ") {
                    let mut w = r.split_whitespace().map(|x| x.to_string());
                    let n = w.next().unwrap();
                    mods.last_mut().unwrap().entries.push(Entry::Compute(n, w.collect(), t));
                } else if let Some(c) = cur {
                    if s == "sig" {
                        c.sig = Some(t);
                    } else {
                        c.sect.entry(s).or_default().push_str(&t);
                    }
                }
            }
            buf.clear();
        }
        fn close(mods: &mut Vec<Module>, cur: &mut Option<FnSpec>) {
            if let Some(c) = cur.take() {
                mods.last_mut().unwrap().entries.push(Entry::Fn(c));
            }
        }
        for line in text.lines() {
            let t = line.trim_start();
            if !t.starts_with('@') {
                if sect.is_some() {
                    buf.push_str(line);
                    buf.push('\n');
                }
                continue;
            }
            flush(&mut mods, &mut cur, &mut sect, &mut buf);
            let (d, rest) = match t[1..].split_once(char::is_whitespace) {
                Some((a, b)) => (a.to_string(), b.trim().to_string()),
                None => (t[1..].to_string(), String::new()),
            };
            match d.as_str() {
                "module" => {
                    close(&mut mods, &mut cur);
                    let (a, b) = rest.split_once(' ').unwrap_or((&rest, ""));
                    mods.push(Module { name: a.into(), file: b.trim().into(), entries: vec![], vspec: fname.clone() });
                }
                "raw" => {
                    close(&mut mods, &mut cur);
                    sect = Some("raw".into());
                }
                "item" => {
                    close(&mut mods, &mut cur);
                    mods.last_mut().unwrap().entries.push(Entry::Item(rest, std::mem::take(&mut pend_attrs)));
                }
                "modeflags" => {
                    close(&mut mods, &mut cur);
                    mods.last_mut().unwrap().entries.push(Entry::Mode);
                }
                "table" => {
                    close(&mut mods, &mut cur);
                    let w: Vec<&str> = rest.split_whitespace().collect();
                    mods.last_mut().unwrap().entries.push(Entry::Table(w[0].into(), w[1].into(), w[2].into(), w[3].parse().unwrap()));
                }
                "compute" => {
                    close(&mut mods, &mut cur);
                    sect = Some(format!("compute {rest}"));
                }
                "impl" => {
                    close(&mut mods, &mut cur);
                    mods.last_mut().unwrap().entries.push(Entry::ImplOpen(rest));
                }
                "each" => each = Some(rest),
                "endimpl" => {
                    each = None;
                    close(&mut mods, &mut cur);
                    mods.last_mut().unwrap().entries.push(Entry::ImplClose);
                }
                "fn" | "macrofn" => {
                    close(&mut mods, &mut cur);
                    let mut f = FnSpec { ret: "r".into(), each: each.clone(), ..Default::default() };
                    let (head, ret) = match rest.split_once("->") {
                        Some((a, b)) => (a.trim().to_string(), b.trim().to_string()),
                        None => (rest.clone(), "r".into()),
                    };
                    f.ret = ret;
                    match head.split_once('(') {
                        Some((k, p)) => {
                            f.key = k.trim().into();
                            f.params = p
                                .trim_end_matches(')')
                                .split(',')
                                .map(|s| s.trim().to_string())
                                .filter(|s| !s.is_empty())
                                .collect();
                        }
                        None => f.key = head,
                    }
                    if d == "macrofn" {
                        // NAME in FN
                        let (m, k) = f.key.split_once(" in ").unwrap();
                        f.macrofn = Some(m.trim().to_string());
                        f.key = k.trim().to_string();
                    }
                    cur = Some(f);
                }
                "props" => {
                    if let Some(c) = &mut cur {
                        c.props = rest.split_whitespace().map(|s| s.to_string()).collect();
                    }
                }
                "attr" => match &mut cur {
                    Some(c) => c.attrs.push(rest),
                    None => pend_attrs.push(rest),
                },
                "itemattr" => {
                    close(&mut mods, &mut cur);
                    pend_attrs.push(rest)
                }
                "implhdr" => cur.as_mut().unwrap().implhdr = Some(rest),
                "dropty" => {
                    let (a, b) = rest.split_once(' ').unwrap();
                    cur.as_mut().unwrap().dropty.push((a.into(), b.trim().into()));
                }
                "cfg" => cur.as_mut().unwrap().cfg = Some(rest),
                "optional" => cur.as_mut().unwrap().allow_missing = true,
                "subst" => {
                    let (a, b) = rest.split_once("=>>").unwrap_or_else(|| panic!("{fname}: bad subst {rest}"));
                    cur.as_mut().unwrap().subst.push((a.trim().into(), b.trim().into()));
                }
                "ty" => {
                    let (a, b) = rest.split_once(' ').unwrap();
                    cur.as_mut().unwrap().tys.push((a.into(), b.trim().into()));
                }
                "sig" => sect = Some("sig".into()),
                "spec" | "entry" | "exit" => sect = Some(d),
                "loop" => sect = Some(format!("inv {rest}")),
                "pre" | "top" | "bot" | "post" => sect = Some(format!("{d} {rest}")),
                "#" => {}
                _ => panic!("{fname}: unknown directive @{d}"),
            }
        }
        flush(&mut mods, &mut cur, &mut sect, &mut buf);
        close(&mut mods, &mut cur);
    }
    mods
}

/// writes out the drop of a local made by `T::new(..)` at the end of its block
struct ScopeEnd {
    ty: String,
    arg: Expr,
    k: usize,
    bad: Vec<String>,
}
/// the expression inside of parentheses and of blocks that hold nothing else
fn peel(e: &Expr) -> &Expr {
    let b = match e {
        Expr::Paren(p) => return peel(&p.expr),
        Expr::Unsafe(u) => &u.block,
        Expr::Block(b) => &b.block,
        _ => return e,
    };
    match &b.stmts[..] {
        [Stmt::Expr(e, None)] => peel(e),
        _ => e,
    }
}
struct HasFlow(bool);
impl<'a> syn::visit::Visit<'a> for HasFlow {
    fn visit_expr(&mut self, e: &'a Expr) {
        match e {
            Expr::Return(_) | Expr::Try(_) | Expr::Break(_) | Expr::Continue(_) => self.0 = true,
            Expr::Closure(_) => {}
            _ => syn::visit::visit_expr(self, e),
        }
    }
}
impl VisitMut for ScopeEnd {
    fn visit_block_mut(&mut self, b: &mut Block) {
        syn::visit_mut::visit_block_mut(self, b);
        let mut names = vec![];
        for st in &b.stmts {
            if let Stmt::Local(l) = st {
                if let (Pat::Ident(p), Some(i)) = (&l.pat, &l.init) {
                    if let Expr::Call(c) = peel(&i.expr) {
                        let f = c.func.to_token_stream().to_string().replace(' ', "");
                        if f == format!("{}::new", self.ty) {
                            names.push(p.ident.clone());
                        }
                    }
                }
            }
        }
        if names.is_empty() {
            return;
        }
        let mut fl = HasFlow(false);
        syn::visit::Visit::visit_block(&mut fl, b);
        if fl.0 {
            self.bad.push("leaves a scope with something to drop".into());
        }
        let arg = self.arg.clone();
        // drop(x); in the block itself
        for st in b.stmts.iter_mut() {
            let named = match st {
                Stmt::Expr(Expr::Call(c), Some(_)) => {
                    let f = c.func.to_token_stream().to_string().replace(' ', "");
                    let a = c.args.first().map(|a| a.to_token_stream().to_string());
                    if (f == "drop" || f.ends_with("mem::drop")) && c.args.len() == 1 {
                        names.iter().position(|n| Some(n.to_string()) == a)
                    } else {
                        None
                    }
                }
                _ => None,
            };
            if let Some(i) = named {
                let n = names.remove(i);
                *st = parse_quote!(#n.drop(#arg););
            }
        }
        let tail = match b.stmts.last() {
            Some(Stmt::Expr(_, None)) => match b.stmts.pop() {
                Some(Stmt::Expr(e, None)) => Some(e),
                _ => None,
            },
            _ => None,
        };
        let v = Ident::new(&format!("vx_scope{}", self.k), proc_macro2::Span::call_site());
        self.k += 1;
        if let Some(e) = &tail {
            b.stmts.push(parse_quote!(let #v = #e;));
        }
        for n in names.iter().rev() {
            b.stmts.push(parse_quote!(#n.drop(#arg);));
        }
        if tail.is_some() {
            b.stmts.push(Stmt::Expr(parse_quote!(#v), None));
        }
    }
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jlist<'a>(v: impl Iterator<Item = &'a str>) -> String {
    format!("[{}]", v.map(jstr).collect::<Vec<_>>().join(","))
}

struct Ctx<'a> {
    idx: &'a FileIdx,
    contracted: &'a HashSet<String>,
    macrofns: &'a HashSet<String>,
}

struct Emitted {
    text: String,
    loops: usize,
    unsupported: Vec<String>,
    inlined: Vec<String>,
    rules: Vec<String>,
    lifted: Vec<String>,
    src_line: usize,
    src_text: String,
}

fn fix_types(ts: String) -> String {
    ts
}

fn emit_fn(cx: &Ctx, f: &FnSpec, assume: bool, impl_open: bool) -> std::result::Result<Emitted, String> {
    let before = CFGS.with(|c| c.borrow().clone());
    if let Some(n) = &f.cfg {
        CFGS.with(|c| c.borrow_mut().push(n.clone()));
    }
    let r = emit_fn_(cx, f, assume, impl_open);
    CFGS.with(|c| *c.borrow_mut() = before);
    r
}
fn emit_fn_(cx: &Ctx, f: &FnSpec, assume: bool, impl_open: bool) -> std::result::Result<Emitted, String> {
    let info = cx.idx.fns.get(&f.key).ok_or_else(|| format!("no function {} in the sources", f.key))?;
    let mut info = info.clone();
    let src_line = info.sig.ident.span().start().line;
    let src_text = format!("{} {}", info.sig.to_token_stream(), info.block.to_token_stream());
    Tables(cx.idx).visit_block_mut(&mut info.block);
    let mut macros: HashMap<String, ItemMacro> = HashMap::new();
    if let Some(m) = &f.macrofn {
        // a macro defined inside the function: its body becomes the body of a function
        let mut found = None;
        for st in &info.block.stmts {
            if let Stmt::Item(Item::Macro(im)) = st {
                if im.ident.as_ref().map(|i| i == m).unwrap_or(false) {
                    found = Some(im.clone());
                }
                if let Some(i) = &im.ident {
                    macros.insert(i.to_string(), im.clone());
                }
            }
        }
        let im = found.ok_or_else(|| format!("no macro {m} in {}", f.key))?;
        // parameters of the macro are replaced by the names given in the spec
        let names: Vec<Expr> = f.params.iter().map(|p| parse_str::<Expr>(p).unwrap()).collect();
        let args = quote!(#(#names),*);
        let x = expand(&im, &args).ok_or_else(|| format!("macro {m} not expandable"))?;
        let b: Block = parse2(quote!({ #x })).map_err(|e| format!("macro {m}: {e}"))?;
        info.block = b;
    }
    // canonical parameter names
    let mut ren: HashMap<String, Ident> = HashMap::new();
    let mut sig = info.sig.clone();
    if f.macrofn.is_none() {
        let typed: Vec<&mut PatType> = sig
            .inputs
            .iter_mut()
            .filter_map(|a| if let FnArg::Typed(t) = a { Some(t) } else { None })
            .collect();
        if !f.params.is_empty() {
            if typed.len() != f.params.len() {
                return Err(format!("{}: {} parameters, contract has {}", f.key, typed.len(), f.params.len()));
            }
            for (t, n) in typed.into_iter().zip(&f.params) {
                if let Pat::Ident(pi) = &mut *t.pat {
                    let new = Ident::new(n, pi.ident.span());
                    if pi.ident != new {
                        ren.insert(pi.ident.to_string(), new.clone());
                    }
                    pi.ident = new;
                }
            }
        }
    }
    if !ren.is_empty() {
        let mut r = Rename(&ren);
        r.visit_block_mut(&mut info.block);
    }
    let mut n = Norm {
        file: cx.idx,
        contracted: cx.contracted,
        macrofns: cx.macrofns,
        mutrefs: HashSet::new(),
        self_name: info.self_name.clone(),
        scopes: vec![HashMap::new()],
        decls: vec![],
        loops: 0,
        loop_muts: vec![],
        tmp: 0,
        accs: 0,
        macros,
        inlined: vec![],
        inline_depth: 0,
        unsupported: vec![],
        lifted: vec![],
        used_rules: HashSet::new(),
    };
    let mut shadow: Vec<Stmt> = vec![];
    for a in sig.inputs.iter_mut() {
        match a {
            FnArg::Receiver(_) => n.scopes[0].insert("self".into(), Bind::Local).map(|_| ()).unwrap_or(()),
            FnArg::Typed(t) => {
                if let Pat::Ident(pi) = &mut *t.pat {
                    let name = pi.ident.to_string();
                    let ts = t.ty.to_token_stream().to_string();
                    let b = if ts.contains("FnMut") || ts.contains("FnOnce") {
                        Bind::FnMut
                    } else if ts.contains("impl Iterator") || ts.contains("impl IntoIterator") || ts.contains("impl IntoIterator") {
                        Bind::IterVec
                    } else if matches!(&*t.ty, Type::Reference(_)) {
                        Bind::RefParam
                    } else {
                        Bind::Local
                    };
                    n.scopes[0].insert(name.clone(), b);
                    if matches!(&*t.ty, Type::Reference(r) if r.mutability.is_some()) {
                        n.mutrefs.insert(name.clone());
                    }
                    if pi.mutability.is_some() {
                        n.decls.push(name.clone());
                        if f.sig.is_none() {
                            pi.mutability = None;
                            let i = &pi.ident;
                            shadow.push(parse_quote!(let mut #i = #i;));
                        }
                    }
                }
            }
        }
    }
    let body = n.block_inner(&info.block);
    let mut body = Block { brace_token: Default::default(), stmts: body.stmts };
    for (t, a) in &f.dropty {
        let mut d = ScopeEnd { ty: t.clone(), arg: parse_str(a).unwrap(), k: 0, bad: vec![] };
        d.visit_block_mut(&mut body);
        n.used_rules.insert("drop-at-scope-end");
        n.unsupported.extend(d.bad);
    }
    if f.sect.contains_key("exit") {
        // the tail expression gets a name so that the proof can follow it
        match body.stmts.pop() {
            Some(Stmt::Expr(e, None)) if sig_has_ret(&info.sig) => {
                body.stmts.push(parse_quote!(let vx_ret = #e;));
                body.stmts.push(parse_quote!(vx_mark!(exit, 0);));
                body.stmts.push(Stmt::Expr(parse_quote!(vx_ret), None));
            }
            Some(s) => {
                let s = match s {
                    Stmt::Expr(e, None) => Stmt::Expr(e, Some(Default::default())),
                    s => s,
                };
                body.stmts.push(s);
                body.stmts.push(parse_quote!(vx_mark!(exit, 0);));
            }
            None => body.stmts.push(parse_quote!(vx_mark!(exit, 0);)),
        }
    }
    // signature
    let mut text = String::new();
    let auto_impl = f.implhdr.is_some() || (info.self_ty.is_some() && !impl_open && f.macrofn.is_none());
    if auto_impl {
        match &f.implhdr {
            Some(h) => text.push_str(&format!("{h} {{\n")),
            None => {
                let g = info.impl_generics.clone().unwrap_or_default();
                let (ig, _, wc) = g.split_for_impl();
                let st = info.self_ty.clone().unwrap();
                text.push_str(&print::print(quote!(impl #ig #st #wc), 0));
                text.push_str(" {\n");
            }
        }
    }
    for a in &f.attrs {
        text.push_str(a);
        text.push('\n');
    }
    if !f.attrs.iter().any(|a| a.contains("loop_isolation")) {
        text.push_str("#[verifier::loop_isolation(false)]\n");
    }
    if assume {
        text.push_str("#[verifier::external_body]\n");
    }
    match &f.sig {
        Some(s) => text.push_str(s),
        None => {
            let vis = if info.trait_.is_some() { "" } else { "pub " };
            let ident = &sig.ident;
            let (ig, _, wc) = sig.generics.split_for_impl();
            let inputs = &sig.inputs;
            text.push_str(vis);
            text.push_str(&print::print(quote!(fn #ident #ig (#inputs)), 0));
            if let ReturnType::Type(_, t) = &sig.output {
                text.push_str(&format!(" -> ({}: {})", f.ret, print::print(t.to_token_stream(), 0)));
            }
            if wc.is_some() {
                text.push_str(&format!(" {}", wc.to_token_stream()));
            }
            text.push('\n');
        }
    }
    if let Some(s) = f.sect.get("spec") {
        text.push_str(s);
    }
    text.push_str("{\n");
    if assume {
        text.push_str("unimplemented!()\n");
    } else {
        let shadow_ts = quote!(#(#shadow)*);
        text.push_str(&print::print(shadow_ts, 1));
        if let Some(s) = &f.each {
            text.push_str(&format!("    proof {{ {s} }}\n"));
        }
        if let Some(s) = f.sect.get("entry") {
            text.push_str(s);
        }
        let stmts = &body.stmts;
        let printed = print::print(quote!(#(#stmts)*), 1);
        let mut lines: Vec<String> = vec![];
        for l in printed.lines() {
            let tl = l.trim();
            if let Some(m) = tl.strip_prefix("//@@ ") {
                let (k, num) = m.split_once(' ').unwrap();
                let key = if k == "exit" { "exit".to_string() } else { format!("{k} {num}") };
                if let Some(s) = f.sect.get(&key) {
                    let mut s = s.trim_end().to_string();
                    if let Ok(i) = num.parse::<usize>() {
                        if let Some(ms) = n.loop_muts.get(i) {
                            for (j, v) in ms.iter().enumerate() {
                                s = s.replace(&format!("$m{}.{}", i, j), v);
                            }
                        }
                    }
                    if k == "inv" {
                        let last = lines.pop().unwrap();
                        lines.push(last.trim_end().trim_end_matches('{').trim_end().to_string());
                        lines.extend(s.lines().map(|x| x.to_string()));
                        lines.push("{".into());
                    } else {
                        lines.extend(s.lines().map(|x| x.to_string()));
                    }
                }
                continue;
            }
            lines.push(l.to_string());
        }
        let mut bt = lines.join("\n");
        // types of locals that the proof text mentions before inference would settle them
        for (a, t) in &f.tys {
            let mut a = a.clone();
            for (j, v) in n.loop_muts.iter().enumerate() {
                for (k, v) in v.iter().enumerate() {
                    if a == format!("$m{j}.{k}") {
                        a = v.clone();
                    }
                }
            }
            bt = bt.replace(&format!("let mut {a} = "), &format!("let mut {a}: {t} = "));
            bt = bt.replace(&format!("let {a} = "), &format!("let {a}: {t} = "));
        }
        for (a, b) in &f.subst {
            bt = bt.replace(a.as_str(), b.as_str());
        }
        text.push_str(&bt);
        text.push('\n');
    }
    text.push_str("}\n");
    if auto_impl {
        text.push_str("}\n");
    }
    for (j, v) in n.loop_muts.iter().enumerate() {
        for (k, v) in v.iter().enumerate() {
            text = text.replace(&format!("$m{}.{}", j, k), v);
        }
    }
    let mut rules: Vec<String> = n.used_rules.iter().map(|s| s.to_string()).collect();
    rules.sort();
    Ok(Emitted {
        text: fix_types(text),
        loops: n.loops,
        unsupported: n.unsupported,
        inlined: n.inlined,
        rules,
        lifted: n.lifted,
        src_line,
        src_text,
    })
}

fn sig_has_ret(s: &Signature) -> bool {
    matches!(s.output, ReturnType::Type(..))
}

/// the paths of the two tables, under whatever name they are imported
struct Tables<'a>(&'a FileIdx);
impl<'a> VisitMut for Tables<'a> {
    fn visit_path_mut(&mut self, p: &mut Path) {
        syn::visit_mut::visit_path_mut(self, p);
        let mut full = p.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::");
        let first = p.segments[0].ident.to_string();
        if let Some(u) = self.0.uses.get(&first) {
            full = full.replacen(&first, u, 1);
        }
        for t in ["ENERGIES", "BOUNDARIES"] {
            if full.ends_with(&format!("histogram_bins::{t}")) {
                let i = Ident::new(&format!("HISTOGRAM_{t}"), proc_macro2::Span::call_site());
                *p = parse_quote!(#i);
                return;
            }
        }
    }
}

/// the bits of the doubles of a table of literals
fn emit_table(idx: &FileIdx, name: &str, len: usize) -> std::result::Result<(String, String), String> {
    let e = match idx.items.get(name) {
        Some(Item::Static(s)) => &s.expr,
        Some(Item::Const(s)) => &s.expr,
        _ => return Err(format!("no table {name} in the sources")),
    };
    let a = match peel(e) {
        Expr::Array(a) => a,
        _ => return Err(format!("{name} is no array of literals")),
    };
    if a.elems.len() != len {
        return Err(format!("{name} has {} elements instead of {len}", a.elems.len()));
    }
    let (mut w, mut v) = (vec![], vec![]);
    for x in &a.elems {
        match peel(x) {
            Expr::Lit(ExprLit { lit: Lit::Float(l), .. }) if l.suffix().is_empty() || l.suffix() == "f64" => {
                let d: f64 = l.base10_digits().parse().map_err(|_| format!("{name}: literal {l}"))?;
                v.push(format!("{}u64", d.to_bits()));
                w.push(format!("{}f64", l.base10_digits()));
            }
            x => return Err(format!("{name}: not a literal: {}", x.to_token_stream())),
        }
    }
    Ok((w.join(", "), v.join(", ")))
}

fn emit_item(idx: &FileIdx, name: &str, attrs: &[String]) -> std::result::Result<String, String> {
    let it = idx.items.get(name).ok_or_else(|| format!("no item {name} in the sources"))?;
    let mut s = String::new();
    for a in attrs {
        s.push_str(a);
        s.push('\n');
    }
    fn publ(f: &mut Fields) {
        for x in f.iter_mut() {
            x.attrs.clear();
            x.vis = parse_quote!(pub);
            // an owning raw pointer
            if let Type::Ptr(p) = &x.ty {
                if p.mutability.is_some() {
                    let t = &p.elem;
                    x.ty = parse_quote!(Box<#t>);
                }
            }
        }
    }
    match it {
        Item::Struct(st) => {
            let mut st = st.clone();
            st.attrs.clear();
            st.vis = parse_quote!(pub);
            publ(&mut st.fields);
            s.push_str(&print::print(st.to_token_stream(), 0));
        }
        Item::Enum(en) => {
            let mut en = en.clone();
            let fieldless = en.variants.iter().all(|v| v.fields.is_empty());
            en.attrs.clear();
            en.vis = parse_quote!(pub);
            for v in en.variants.iter_mut() {
                v.attrs.clear();
                for x in v.fields.iter_mut() {
                    x.attrs.clear();
                }
            }
            if fieldless {
                s.push_str("#[derive(Clone, Copy, PartialEq, Eq, Structural, Debug)]\n");
            }
            s.push_str(&print::print(en.to_token_stream(), 0));
        }
        Item::Const(c) => {
            let mut c = c.clone();
            c.attrs.clear();
            c.vis = parse_quote!(pub);
            s.push_str(&print::print(c.to_token_stream(), 0));
        }
        _ => return Err(format!("item {name} of an unsupported kind")),
    }
    s.push('\n');
    Ok(s)
}

/// bitflags! { pub struct Mode: u8 { const M = ..; .. } }
fn emit_mode(idx: &FileIdx) -> std::result::Result<String, String> {
    use proc_macro2::TokenTree as TT;
    let inv = idx
        .invocations
        .iter()
        .find(|i| i.mac.path.is_ident("bitflags"))
        .ok_or("no bitflags! invocation")?;
    let toks: Vec<TT> = inv.mac.tokens.clone().into_iter().collect();
    let pos = toks.iter().position(|t| matches!(t, TT::Ident(i) if i == "struct")).ok_or("no struct in bitflags!")?;
    let name = toks[pos + 1].to_string();
    let ty = toks[pos + 3].to_string();
    let TT::Group(g) = &toks[pos + 4] else { return Err("bitflags! body".into()) };
    let body: Vec<TT> = g.stream().into_iter().collect();
    let mut s = format!("#[derive(Clone, Copy, PartialEq, Eq, Structural)]\npub struct {name} {{ pub bits: {ty} }}\nimpl {name} {{\n");
    let mut i = 0;
    let mut all = vec![];
    while i < body.len() {
        if let TT::Ident(id) = &body[i] {
            if id == "const" {
                let n = body[i + 1].to_string();
                let mut j = i + 3;
                let mut e = String::new();
                while j < body.len() {
                    if let TT::Punct(p) = &body[j] {
                        if p.as_char() == ';' {
                            break;
                        }
                    }
                    e.push_str(&body[j].to_string());
                    e.push(' ');
                    j += 1;
                }
                let e = e.replace(": :", "::").replace(" . ", ".").replace(" :: ", "::");
                s.push_str(&format!("  pub const {n}: {name} = {name} {{ bits: {e} }};\n"));
                all.push(n);
                i = j;
            }
        }
        i += 1;
    }
    let or: Vec<String> = all.iter().map(|n| format!("{name}::{n}.bits")).collect();
    s.push_str(&format!("  pub const VX_ALL: {name} = {name} {{ bits: {} }};\n}}\n", or.join(" | ")));
    Ok(s)
}

fn main() {
    let mut repo = "/repo".to_string();
    let mut specs = String::new();
    let mut out = String::new();
    let mut map = String::new();
    let mut assume: HashSet<String> = HashSet::new();
    let mut dump: Option<String> = None;
    let mut a = std::env::args().skip(1);
    while let Some(x) = a.next() {
        match x.as_str() {
            "--repo" => repo = a.next().unwrap(),
            "--specs" => specs = a.next().unwrap(),
            "--out" => out = a.next().unwrap(),
            "--map" => map = a.next().unwrap(),
            "--assume" => {
                assume.insert(a.next().unwrap());
            }
            "--cfg" => CFGS.with(|c| c.borrow_mut().push(a.next().unwrap())),
            "--dump" => dump = a.next(),
            _ => panic!("unknown argument {x}"),
        }
    }
    let mut cache: HashMap<String, FileIdx> = HashMap::new();
    let load = |f: &str| -> FileIdx {
        let mut idx = FileIdx::default();
        if f.is_empty() {
            return idx;
        }
        let p = format!("{repo}/src/{f}");
        match std::fs::read_to_string(&p).map_err(|e| e.to_string()).and_then(|t| parse_file(&t).map_err(|e| e.to_string())) {
            Ok(ast) => FileIdx::build(&ast.items, &mut idx),
            Err(e) => eprintln!("vx: {p}: {e}"),
        }
        idx
    };
    if let Some(f) = dump {
        let idx = load(&f);
        let mut k: Vec<_> = idx.fns.keys().cloned().collect();
        k.sort();
        println!("{}", k.join("\n"));
        return;
    }
    let mods = parse_specs(&specs);
    let mut o = String::new();
    let mut recs: Vec<String> = vec![];
    let mut errors: Vec<String> = vec![];
    o.push_str("#![feature(allocator_api)]\n#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_parens, non_snake_case, unused_assignments, unreachable_code, unused_braces, path_statements, unused_must_use)]\n");
    o.push_str("use vstd::prelude::*;\n");
    // the re-exports of lib.rs
    o.push_str("pub use crate::ebur128::*;\npub use crate::utils::{energy_to_loudness, Interleaved, Planar, Samples};\n");
    let mut contracted: HashMap<String, HashSet<String>> = HashMap::new();
    let mut macrofns: HashMap<String, HashSet<String>> = HashMap::new();
    for m in &mods {
        for e in &m.entries {
            if let Entry::Fn(f) = e {
                match &f.macrofn {
                    None => {
                        contracted.entry(m.file.clone()).or_default().insert(f.key.clone());
                    }
                    Some(n) => {
                        macrofns.entry(m.file.clone()).or_default().insert(n.clone());
                    }
                }
            }
        }
    }
    let empty = HashSet::new();
    for m in &mods {
        if !cache.contains_key(&m.file) {
            let mut i = load(&m.file);
            let emitted: HashSet<String> = mods
                .iter()
                .filter(|x| x.file == m.file)
                .flat_map(|x| x.entries.iter())
                .filter_map(|e| if let Entry::Item(n, _) = e { Some(n.clone()) } else { None })
                .collect();
            i.desugar(&emitted);
            cache.insert(m.file.clone(), i);
        }
        let idx = &cache[&m.file];
        let cx = Ctx {
            idx,
            contracted: contracted.get(&m.file).unwrap_or(&empty),
            macrofns: macrofns.get(&m.file).unwrap_or(&empty),
        };
        o.push_str(&format!("pub mod {} {{\nuse vstd::prelude::*;\nverus! {{\n", m.name));
        let mut impl_open = false;
        let mut table_err: Option<String> = None;
        for e in &m.entries {
            match e {
                Entry::Raw(t) => {
                    let l0 = o.lines().count() + 1;
                    o.push_str(t);
                    let l1 = o.lines().count();
                    recs.push(format!(
                        "{{\"kind\":\"raw\",\"module\":{},\"lines\":[{},{}]}}",
                        jstr(&m.name),
                        l0,
                        l1
                    ));
                }
                Entry::Table(n, t, c, len) => match emit_table(idx, t, *len) {
                    // the array itself, and a proof that its elements have the bits of the literals as read here
                    Ok((lits, bits)) => {
                        o.push_str(&format!("pub open spec fn {n}() -> Seq<u64> {{ seq![{bits}] }}\n"));
                        o.push_str(&format!("#[verifier::opaque]\npub const {c}: [f64; {len}] = [{lits}];\n"));
                        o.push_str(&format!("#[verifier::opaque]\npub open spec fn {n}_lits() -> Seq<f64> {{ seq![{lits}] }}\n"));
                        o.push_str(&format!("pub open spec fn {n}_from(i: int) -> bool\n    decreases {len} - i,\n{{\n    i >= {len} || (i >= 0 && {n}_lits()[i].to_bits_spec() == {n}()[i] && {n}_from(i + 1))\n}}\n"));
                        o.push_str(&format!("pub proof fn {n}_computed()\n    ensures {n}_from(0),\n{{\n    reveal({n}_lits);\n    assert({n}_from(0)) by (compute);\n}}\n"));
                        o.push_str(&format!("#[verifier::rlimit(1000)]\npub proof fn {n}_array()\n    ensures {c}@ =~= {n}_lits(),\n{{\n    reveal({c});\n    reveal({n}_lits);\n}}\n"));
                        o.push_str(&format!("pub proof fn {n}_at(i: int, j: int)\n    requires 0 <= i <= j < {len}, {n}_from(i),\n    ensures {n}_lits()[j].to_bits_spec() == {n}()[j],\n    decreases j - i,\n{{\n    if i < j {{ {n}_at(i + 1, j); }}\n}}\n"));
                        o.push_str(&format!("pub proof fn fl_{n}(i: int)\n    requires 0 <= i < {len},\n    ensures s_bits64({c}@[i]) == {n}()[i],\n{{\n    {n}_array();\n    {n}_computed();\n    {n}_at(0, i);\n    reveal(s_bits64);\n}}\n"));
                    }
                    Err(e) => {
                        o.push_str(&format!("pub uninterp spec fn {n}() -> Seq<u64>;\n#[verifier::external_body]\npub const {c}: [f64; {len}] = [0.0; {len}];\n"));
                        o.push_str(&format!("pub axiom fn fl_{n}(i: int) requires 0 <= i < {len} ensures s_bits64({c}@[i]) == {n}()[i];\n"));
                        table_err = Some(e);
                    }
                },
                Entry::Compute(n, props, t) => {
                    let full = format!("{}::{n}", m.name);
                    let forced = assume.contains(&full) || table_err.is_some();
                    let l0 = o.lines().count() + 1;
                    if forced {
                        o.push_str(&t.replace("assert(", "assume(").replace(" by (compute_only)", ""));
                    } else {
                        o.push_str(t);
                    }
                    let l1 = o.lines().count();
                    recs.push(format!(
                        "{{\"kind\":\"fn\",\"name\":{},\"module\":{},\"file\":{},\"src_line\":1,\"lines\":[{l0},{l1}],\"body_end\":{l1},\"loops\":0,\"assumed\":{forced},\"unsupported\":{},\"inlined\":[],\"rules\":[\"table\"],\"props\":{},\"src\":\"\"}}",
                        jstr(&full),
                        jstr(&m.name),
                        jstr(&m.file),
                        jlist(table_err.iter().map(|s| s.as_str())),
                        jlist(props.iter().map(|s| s.as_str())),
                    ));
                }
                Entry::Item(n, attrs) => match emit_item(idx, n, attrs) {
                    Ok(s) => o.push_str(&s),
                    Err(e) => errors.push(format!("{}: {e}", m.file)),
                },
                Entry::Mode => match emit_mode(idx) {
                    Ok(s) => o.push_str(&s),
                    Err(e) => errors.push(format!("{}: {e}", m.file)),
                },
                Entry::ImplOpen(h) => {
                    impl_open = true;
                    o.push_str(&format!("{h} {{\n"));
                }
                Entry::ImplClose => {
                    impl_open = false;
                    o.push_str("}\n");
                }
                Entry::Fn(f) => {
                    let full = match &f.macrofn {
                        Some(mm) => format!("{}::{}!{}", m.name, f.key, mm),
                        None => format!("{}::{}", m.name, f.key),
                    };
                    let forced = assume.contains(&full);
                    let r = emit_fn(&cx, f, forced, impl_open);
                    let r = match r {
                        Ok(e) if !e.unsupported.is_empty() && !forced => {
                            let u = e.unsupported.clone();
                            emit_fn(&cx, f, true, impl_open).map(|mut x| {
                                x.unsupported = u;
                                x
                            })
                        }
                        r => r,
                    };
                    match r {
                        Ok(em) => {
                            let l0 = o.lines().count() + 1;
                            o.push_str(&em.text);
                            let l1 = o.lines().count();
                            for l in &em.lifted {
                                // items lifted out of the body follow the impl block only when none is open
                                if !impl_open {
                                    o.push_str(l);
                                    o.push('\n');
                                }
                            }
                            let l2 = o.lines().count();
                            let assumed = forced || !em.unsupported.is_empty();
                            recs.push(format!(
                                "{{\"kind\":\"fn\",\"name\":{},\"module\":{},\"file\":{},\"src_line\":{},\"lines\":[{},{}],\"body_end\":{},\"loops\":{},\"assumed\":{},\"unsupported\":{},\"inlined\":{},\"rules\":{},\"props\":{},\"src\":{}}}",
                                jstr(&full),
                                jstr(&m.name),
                                jstr(&m.file),
                                em.src_line,
                                l0,
                                l2,
                                l1,
                                em.loops,
                                assumed,
                                jlist(em.unsupported.iter().map(|s| s.as_str())),
                                jlist(em.inlined.iter().map(|s| s.as_str())),
                                jlist(em.rules.iter().map(|s| s.as_str())),
                                jlist(f.props.iter().map(|s| s.as_str())),
                                jstr(&em.src_text),
                            ));
                        }
                        Err(e) => {
                            if !f.allow_missing {
                                errors.push(format!("{}: {e}", full));
                                recs.push(format!(
                                    "{{\"kind\":\"missing\",\"name\":{},\"module\":{},\"props\":{},\"error\":{}}}",
                                    jstr(&full),
                                    jstr(&m.name),
                                    jlist(f.props.iter().map(|s| s.as_str())),
                                    jstr(&e)
                                ));
                                // callers still see the contract when a signature is given
                                if let Some(s) = &f.sig {
                                    let l0 = o.lines().count() + 1;
                                    let h = f.implhdr.clone();
                                    if let Some(h) = &h {
                                        o.push_str(&format!("{h} {{\n"));
                                    }
                                    o.push_str(&format!(
                                        "#[verifier::external_body]\n{}{}{{ unimplemented!() }}\n",
                                        s,
                                        f.sect.get("spec").cloned().unwrap_or_default()
                                    ));
                                    if h.is_some() {
                                        o.push_str("}\n");
                                    }
                                    let _ = l0;
                                }
                            }
                        }
                    }
                }
            }
        }
        o.push_str("} // verus!\n}\n");
        let _ = &m.vspec;
    }
    o.push_str("fn main() {}\n");
    std::fs::write(&out, &o).unwrap();
    if !map.is_empty() {
        std::fs::write(
            &map,
            format!("{{\"errors\":{},\n\"entries\":[\n{}\n]}}\n", jlist(errors.iter().map(|s| s.as_str())), recs.join(",\n")),
        )
        .unwrap();
    }
    for e in &errors {
        eprintln!("vx: {e}");
    }
}
