//! vx: mechanical extraction of function bodies from /repo's current source into a Verus file.
//!
//! usage: vx TEMPLATE REPO OUT.rs REPORT.json [-D KEY=VALUE]...
//!
//! The template is a Verus file; every `/*@body ... @*/` block in it is replaced by the body of
//! a function (or closure) of the repository, copied character by character except for the
//! rewrites listed in the block and the fixed desugarings documented in DESIGN.md.  Everything
//! the tool does to the text is recorded in the report.

use proc_macro2::Span;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::ops::Range;
use syn::spanned::Spanned;
use syn::visit::Visit;

fn br(s: Span) -> Range<usize> {
    s.byte_range()
}

#[derive(Default, Debug, Clone)]
struct LoopSpec {
    kind: String,
    via: Option<String>,
    next_world: bool,
    inv: String,
    pre: String,
    top: String,
    bottom: String,
    after: String,
}

#[derive(Default, Debug, Clone)]
struct Spec {
    file: String,
    item: String,
    params: Vec<String>,
    locals: Vec<String>,
    world: Vec<String>,
    subs: Vec<(String, String, bool)>,
    start: String,
    end: String,
    prefix: bool,
    optmap: bool,
    pures: HashMap<usize, String>,
    resmap: bool,
    eq: bool,
    io: bool,
    stmts: Option<(String, String)>,
    loops: BTreeMap<usize, LoopSpec>,
    inline: bool,
    inserts: Vec<(String, String, bool)>,
    closures: BTreeMap<usize, String>,
    /// texts (up to the names of parameters) a closure replaced by its marker may have
    closure_texts: BTreeMap<usize, Vec<String>>,
    known: Vec<String>,
    types: HashMap<String, String>,
    deref: Vec<String>,
    lifts: Vec<(String, String, String)>,
}

fn parse_spec(text: &str) -> Spec {
    let mut sp = Spec { inline: true, ..Default::default() };
    let mut cur: Vec<(String, String, String)> = vec![]; // (key, args, body)
    for line in text.lines() {
        let t = line.trim_start();
        if let Some(rest) = t.strip_prefix('@') {
            let (k, a) = match rest.find(char::is_whitespace) {
                Some(i) => (rest[..i].to_string(), rest[i..].trim().to_string()),
                None => (rest.trim().to_string(), String::new()),
            };
            cur.push((k, a, String::new()));
        } else if let Some(l) = cur.last_mut() {
            l.2.push_str(line);
            l.2.push('\n');
        }
    }
    let words = |a: &str| a.split_whitespace().map(|s| s.to_string()).collect::<Vec<_>>();
    for (k, a, b) in cur {
        match k.as_str() {
            "file" => sp.file = a,
            "item" => sp.item = a,
            "params" => sp.params = words(&a),
            "locals" => sp.locals.extend(words(&(a + " " + &b))),
            "world" => sp.world.extend(words(&(a + " " + &b))),
            "known" => sp.known.extend(words(&(a + " " + &b))),
            "prefix" => sp.prefix = true,
            "optmap" => sp.optmap = true,
            "resmap" => sp.resmap = true,
            // @eq : `a == b` becomes vx_eq(&(a), &(b)) (types whose == Verus has no contract for)
            "eq" => sp.eq = true,
            // @io : println!/writeln! become calls that act on the world
            "io" => sp.io = true,
            "noinline" => sp.inline = false,
            "stmts" => {
                let v = words(&a);
                sp.stmts = Some((v[0].clone(), v[1].clone()))
            }
            "sub" | "sub?" => {
                let full = if b.trim().is_empty() { a } else { format!("{a}\n{b}") };
                let i = full.find("=>>").expect("@sub needs =>>");
                sp.subs.push((
                    full[..i].trim().to_string(),
                    full[i + 3..].trim().to_string(),
                    k == "sub?",
                ));
            }
            // @deref NAMES : captured variables that the lifted closure gets as `&mut`
            "deref" => sp.deref.extend(words(&(a + " " + &b))),
            // @lift NAME FN ARGS : a local closure verified as the function FN of the template;
            // its definition is dropped and NAME(..) becomes FN(.., ARGS)
            "lift" => {
                let full = a + " " + b.trim();
                let mut it = full.splitn(3, char::is_whitespace);
                let (n, f) = (it.next().unwrap().to_string(), it.next().unwrap().to_string());
                sp.lifts.push((n, f, it.next().unwrap_or("").trim().to_string()));
            }
            "ty" => {
                let (n, t) = a.split_once(char::is_whitespace).expect("@ty NAME TYPE");
                sp.types.insert(n.into(), t.trim().into());
            }
            "start" => sp.start.push_str(&b),
            "end" => sp.end.push_str(&b),
            // @before PATTERN =>> text : ghost text inserted before the matching source text
            "before" | "before?" => {
                let full = format!("{a}\n{b}");
                let i = full.find("=>>").expect("@before needs =>>");
                sp.inserts.push((full[..i].trim().into(), full[i + 3..].to_string(), k == "before?"));
            }
            // @pure N TYPE : a one-argument closure whose body is an expression; the expression is its contract
            "pure" => {
                let (n, t) = a.split_once(char::is_whitespace).expect("@pure N TYPE");
                sp.pures.insert(n.parse().unwrap(), t.trim().into());
            }
            "closure" => {
                let v = words(&a);
                let n: usize = v[0].parse().unwrap();
                sp.closures.insert(n, b.trim().to_string());
                if let Some((_, t)) = a.split_once("==") {
                    sp.closure_texts.insert(n, t.split(" OR ").map(|x| x.trim().to_string()).collect());
                }
            }
            "loop" => {
                let v = words(&a);
                let n: usize = v[0].parse().unwrap();
                let l = sp.loops.entry(n).or_default();
                l.kind = v[1].clone();
                let mut i = 2;
                while i < v.len() {
                    if v[i] == "via" {
                        l.via = Some(v[i + 1].clone());
                        i += 1;
                    } else if v[i] == "world" {
                        l.next_world = true;
                    }
                    i += 1;
                }
                l.inv = b;
            }
            "pre" | "top" | "bottom" | "after" => {
                let n: usize = words(&a)[0].parse().unwrap();
                let l = sp.loops.entry(n).or_default();
                match k.as_str() {
                    "pre" => l.pre = b,
                    "top" => l.top = b,
                    "bottom" => l.bottom = b,
                    _ => l.after = b,
                }
            }
            _ => panic!("unknown directive @{k}"),
        }
    }
    sp
}

// ---------------------------------------------------------------- finding items

enum Found<'a> {
    Fn { sig: &'a syn::Signature, block: &'a syn::Block },
}

fn type_name(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        syn::Type::Reference(r) => type_name(&r.elem),
        _ => String::new(),
    }
}

fn find_fn<'a>(items: &'a [syn::Item], path: &str) -> Option<Found<'a>> {
    let (tr, rest) = match path.find(" for ") {
        Some(i) => (Some(path[..i].trim()), path[i + 5..].trim()),
        None => (None, path),
    };
    let (ty, name) = match rest.rfind("::") {
        Some(i) => (Some(&rest[..i]), &rest[i + 2..]),
        None => (None, rest),
    };
    for it in items {
        match it {
            syn::Item::Fn(f) if ty.is_none() && f.sig.ident == name => {
                return Some(Found::Fn { sig: &f.sig, block: &f.block })
            }
            syn::Item::Impl(im) => {
                let Some(ty) = ty else { continue };
                if type_name(&im.self_ty) != ty {
                    continue;
                }
                let t = im.trait_.as_ref().map(|t| t.1.segments.last().unwrap().ident.to_string());
                if let Some(tr) = tr {
                    if t.as_deref() != Some(tr) {
                        continue;
                    }
                } else if t.is_some() {
                    continue;
                }
                for ii in &im.items {
                    if let syn::ImplItem::Fn(f) = ii {
                        if f.sig.ident == name {
                            return Some(Found::Fn { sig: &f.sig, block: &f.block });
                        }
                    }
                }
            }
            _ => {}
        }
    }
    None
}

fn pat_name(p: &syn::Pat) -> Option<String> {
    match p {
        syn::Pat::Ident(i) => Some(i.ident.to_string()),
        syn::Pat::Type(t) => pat_name(&t.pat),
        syn::Pat::Wild(_) => Some("_".into()),
        syn::Pat::Reference(r) => pat_name(&r.pat),
        _ => None,
    }
}

struct CallArgs<'a> {
    method: String,
    hits: Vec<Vec<&'a syn::Expr>>,
}
impl<'a> Visit<'a> for CallArgs<'a> {
    fn visit_expr_method_call(&mut self, m: &'a syn::ExprMethodCall) {
        if m.method == self.method {
            self.hits.push(m.args.iter().collect());
        }
        syn::visit::visit_expr_method_call(self, m);
    }
    fn visit_expr_call(&mut self, m: &'a syn::ExprCall) {
        if let syn::Expr::Path(p) = &*m.func {
            if p.path.segments.last().unwrap().ident == self.method {
                self.hits.push(m.args.iter().collect());
            }
        }
        syn::visit::visit_expr_call(self, m);
    }
}

struct LetClosures<'a>(Vec<(String, &'a syn::Expr)>);
impl<'a> Visit<'a> for LetClosures<'a> {
    fn visit_local(&mut self, l: &'a syn::Local) {
        if let (Some(n), Some(i)) = (pat_name(&l.pat), &l.init) {
            if matches!(&*i.expr, syn::Expr::Closure(_)) {
                self.0.push((n, &i.expr));
            }
        }
        syn::visit::visit_local(self, l);
    }
}

struct LetInit<'a> {
    name: String,
    /// only a binding that ends before this byte counts; the last one wins
    before: usize,
    hit: Option<&'a syn::Expr>,
}
impl<'a> Visit<'a> for LetInit<'a> {
    fn visit_local(&mut self, l: &'a syn::Local) {
        if pat_name(&l.pat).as_deref() == Some(&self.name) && br(l.span()).end <= self.before {
            if let Some(i) = &l.init {
                self.hit = Some(&i.expr);
            }
        }
        syn::visit::visit_local(self, l);
    }
}

/// The tokens of a closure, its parameters renamed by position.
fn closure_key(c: &syn::ExprClosure) -> String {
    let names: Vec<Option<String>> = c.inputs.iter().map(pat_name).collect();
    fn walk(ts: proc_macro2::TokenStream, names: &[Option<String>], out: &mut String) {
        for t in ts {
            match t {
                proc_macro2::TokenTree::Group(g) => {
                    let (a, b) = match g.delimiter() {
                        proc_macro2::Delimiter::Parenthesis => ("(", ")"),
                        proc_macro2::Delimiter::Brace => ("{", "}"),
                        proc_macro2::Delimiter::Bracket => ("[", "]"),
                        proc_macro2::Delimiter::None => ("", ""),
                    };
                    out.push_str(a);
                    walk(g.stream(), names, out);
                    out.push_str(b);
                }
                proc_macro2::TokenTree::Ident(i) => {
                    let i = i.to_string();
                    match names.iter().position(|n| n.as_deref() == Some(&i)) {
                        Some(k) => out.push_str(&format!(" #{k}")),
                        None => {
                            out.push(' ');
                            out.push_str(&i);
                        }
                    }
                }
                t => out.push_str(&t.to_string()),
            }
        }
    }
    let mut out = String::new();
    for p in &c.inputs {
        walk(quote::ToTokens::to_token_stream(p), &names, &mut out);
        out.push(',');
    }
    out.push('|');
    let mut body = &*c.body;
    // { e } is e
    while let syn::Expr::Block(b) = body {
        match b.block.stmts.as_slice() {
            [syn::Stmt::Expr(e, None)] => body = e,
            _ => break,
        }
    }
    walk(quote::ToTokens::to_token_stream(body), &names, &mut out);
    out
}

/// Range of the statements that precede the closure, and the closure.
fn dig_closure<'a>(e: &'a syn::Expr) -> Option<(Option<Range<usize>>, &'a [syn::Stmt], &'a syn::ExprClosure)> {
    match e {
        syn::Expr::Closure(c) => Some((None, &[], c)),
        syn::Expr::Paren(p) => dig_closure(&p.expr),
        syn::Expr::Block(b) => {
            let st = &b.block.stmts;
            let syn::Stmt::Expr(last, None) = st.last()? else { return None };
            let (_, _, c) = dig_closure(last)?;
            let r = if st.len() > 1 {
                Some(br(st[0].span()).start..br(st[st.len() - 2].span()).end)
            } else {
                None
            };
            Some((r, &st[..st.len() - 1], c))
        }
        _ => None,
    }
}

// ---------------------------------------------------------------- body rewriting

#[derive(Debug, Clone)]
struct Edit {
    start: usize,
    end: usize,
    text: String,
}

struct Rewriter<'s> {
    src: &'s str,
    spec: &'s Spec,
    edits: Vec<Edit>,
    rename: HashMap<String, String>,
    loops: Vec<(String, usize)>,
    notes: Vec<String>,
    calls: BTreeSet<String>,
    nclosures: usize,
    lost: Vec<String>,
    depth_inline: usize,
    helpers: &'s HashMap<String, (syn::Signature, syn::Block)>,
    inlined: BTreeSet<String>,
}

impl<'s> Rewriter<'s> {
    fn ins(&mut self, at: usize, t: impl Into<String>) {
        self.edits.push(Edit { start: at, end: at, text: t.into() })
    }
    fn rep(&mut self, r: Range<usize>, t: impl Into<String>) {
        self.edits.push(Edit { start: r.start, end: r.end, text: t.into() })
    }
    fn loop_spec(&mut self, kind: &str, line: usize) -> (usize, LoopSpec) {
        let n = self.loops.len();
        self.loops.push((kind.to_string(), line));
        (n, self.spec.loops.get(&n).cloned().unwrap_or_default())
    }
    fn body_hooks(&mut self, b: &syn::Block, l: &LoopSpec) {
        let r = br(b.span());
        if !l.top.is_empty() {
            self.ins(r.start + 1, format!("\n{}", l.top));
        }
        if !l.bottom.is_empty() {
            // a tail expression of type () becomes a statement
            let semi = matches!(b.stmts.last(), Some(syn::Stmt::Expr(_, None)));
            self.ins(r.end - 1, format!("{}\n{}", if semi { ";" } else { "" }, l.bottom));
        }
    }
    fn ren(&mut self, id: &syn::Ident) {
        if let Some(n) = self.rename.get(&id.to_string()) {
            let n = n.clone();
            self.rep(br(id.span()), n);
        }
    }
    fn world_arg(&mut self, paren: &syn::token::Paren, empty: bool, trailing: bool) {
        let close = br(paren.span.close()).start;
        self.ins(close, if empty { "w" } else if trailing { " w" } else { ", w" });
    }
}

impl<'a, 's> Visit<'a> for Rewriter<'s> {
    fn visit_item(&mut self, _: &'a syn::Item) {}

    fn visit_expr_for_loop(&mut self, f: &'a syn::ExprForLoop) {
        let (n, l) = self.loop_spec("for", f.span().start().line);
        let is_range = matches!(&*f.expr, syn::Expr::Range(_))
            || matches!(&*f.expr, syn::Expr::Paren(p) if matches!(&*p.expr, syn::Expr::Range(_)));
        match (&l.via, is_range) {
            (None, true) => {
                let at = br(f.expr.span()).end;
                if let syn::Pat::Wild(w) = &*f.pat {
                    self.rep(br(w.span()), format!("__i{n}"));
                }
                if !l.pre.is_empty() {
                    let pre = l.pre.clone();
                    self.ins(br(f.span()).start, pre);
                }
                self.ins(at, format!("\n{}", l.inv));
            }
            (via, _) => {
                let via = via.clone().unwrap_or_else(|| "vx_into_iter".into());
                let start = br(f.span()).start;
                let wa = if l.next_world { "w" } else { "" };
                // `for` PAT `in`  ->  { let mut it = via(
                self.rep(start..br(f.pat.span()).start, format!("{{ let mut __it{n} = {via}("));
                let pr = br(f.pat.span());
                let pat_text = self.src[pr.clone()].to_string();
                // apply renames inside the pattern text
                let pat_text = self.rename_text(&pat_text);
                self.rep(pr.start..br(f.expr.span()).start, "");
                let e = br(f.expr.span()).end;
                if let (syn::Expr::MethodCall(m), None) = (&*f.expr, &l.via) {
                    // `for p in X.iter()` is `for p in &X`
                    if m.method == "iter" && m.args.is_empty() {
                        self.rep(br(m.method.span()), "vx_ref");
                    }
                }
                self.ins(e, format!(
                    ");\n{} loop\n{}\n{{ match __it{n}.next({wa}) {{ None => break, Some({pat_text}) => ",
                    l.pre, l.inv
                ));
                let end = br(f.body.span()).end;
                self.ins(end, format!(" }} }}\n{} }}", l.after));
                self.notes.push(format!("R2 for loop {n} desugared through {via}"));
                self.body_hooks(&f.body, &l);
                self.visit_expr(&f.expr);
                self.visit_block(&f.body);
                return;
            }
        }
        self.body_hooks(&f.body, &l);
        if !l.after.is_empty() {
            self.ins(br(f.span()).end, format!("\n{}", l.after));
        }
        self.visit_pat(&f.pat);
        self.visit_expr(&f.expr);
        self.visit_block(&f.body);
    }

    fn visit_expr_while(&mut self, f: &'a syn::ExprWhile) {
        let (n, l) = self.loop_spec("while", f.span().start().line);
        let b = br(f.body.span());
        if let syn::Expr::Let(le) = &*f.cond {
            // while let PAT = E { B }  ->  loop inv { match E { PAT => B, _ => break } }
            let start = br(f.span()).start;
            let pr = br(le.pat.span());
            let pat = self.rename_text(&self.src[pr.clone()].to_string());
            self.rep(start..br(le.expr.span()).start, format!("{} loop\n{}\n{{ match ", l.pre, l.inv));
            self.ins(br(le.expr.span()).end, format!(" {{ {pat} => "));
            self.ins(b.end, format!(", _ => break }} }}\n{}", l.after));
            self.notes.push(format!("R2 while-let loop {n} desugared to loop/match"));
            self.body_hooks(&f.body, &l);
            self.visit_expr(&le.expr);
            self.visit_block(&f.body);
            return;
        }
        if !l.pre.is_empty() {
            let pre = l.pre.clone();
            self.ins(br(f.span()).start, pre);
        }
        self.ins(br(f.cond.span()).end, format!("\n{}", l.inv));
        if !l.after.is_empty() {
            self.ins(br(f.span()).end, format!("\n{}", l.after));
        }
        self.body_hooks(&f.body, &l);
        syn::visit::visit_expr_while(self, f);
    }

    fn visit_expr_loop(&mut self, f: &'a syn::ExprLoop) {
        let (_n, l) = self.loop_spec("loop", f.span().start().line);
        if !l.pre.is_empty() {
            let pre = l.pre.clone();
            self.ins(br(f.span()).start, pre);
        }
        self.ins(br(f.body.span()).start, format!("\n{}", l.inv));
        if !l.after.is_empty() {
            self.ins(br(f.span()).end, format!("\n{}", l.after));
        }
        self.body_hooks(&f.body, &l);
        syn::visit::visit_expr_loop(self, f);
    }

    fn visit_expr_method_call(&mut self, m: &'a syn::ExprMethodCall) {
        let name = m.method.to_string();
        self.calls.insert(format!(".{name}"));
        if (self.spec.optmap || self.spec.resmap) && name == "map" && m.args.len() == 1 {
            if let syn::Expr::Closure(c) = &m.args[0] {
                if c.inputs.len() == 1 {
                    // X.map(|p| B) -> match X { None => None, Some(p) => Some(B) }
                    let recv = br(m.receiver.span());
                    let p = self.rename_text(&self.src[br(c.inputs[0].span())].to_string());
                    self.ins(recv.start, "(match ");
                    let head = if self.spec.optmap {
                        format!(" {{ None => None, Some({p}) => Some(")
                    } else {
                        format!(" {{ Err(__e) => Err(__e), Ok({p}) => Ok(")
                    };
                    self.rep(recv.end..br(c.body.span()).start, head);
                    self.rep(br(c.body.span()).end..br(m.span()).end, ") })");
                    self.notes.push("R3 map(closure) on an Option/Result desugared to match".into());
                    self.visit_expr(&m.receiver);
                    self.visit_expr(&c.body);
                    return;
                }
            }
        }
        if (self.spec.optmap || self.spec.resmap)
            && matches!(name.as_str(), "or_else" | "and_then" | "unwrap_or_else")
            && m.args.len() == 1
        {
            if let syn::Expr::Closure(c) = &m.args[0] {
                let mut esc = HasEscape(false);
                esc.visit_expr(&c.body);
                let opt = self.spec.optmap;
                let head = match (name.as_str(), opt, c.inputs.len()) {
                    ("or_else", true, 0) => Some("Some(__v) => Some(__v), None => "),
                    ("or_else", false, 1) => Some("Ok(__v) => Ok(__v), Err(@) => "),
                    ("and_then", true, 1) => Some("None => None, Some(@) => "),
                    ("and_then", false, 1) => Some("Err(__e) => Err(__e), Ok(@) => "),
                    ("unwrap_or_else", true, 0) => Some("Some(__v) => __v, None => "),
                    ("unwrap_or_else", false, 1) => Some("Ok(__v) => __v, Err(@) => "),
                    _ => None,
                };
                if let (Some(head), false) = (head, esc.0) {
                    let recv = br(m.receiver.span());
                    let p = c.inputs.first().map(|p| self.rename_text(&self.src[br(p.span())].to_string())).unwrap_or_default();
                    self.ins(recv.start, "(match ");
                    self.rep(recv.end..br(c.body.span()).start, format!(" {{ {}", head.replace('@', &p)));
                    self.rep(br(c.body.span()).end..br(m.span()).end, " })");
                    self.notes.push(format!("R3 {name}(closure) on an Option/Result desugared to match"));
                    self.visit_expr(&m.receiver);
                    self.visit_expr(&c.body);
                    return;
                }
            }
        }
        if matches!(name.as_str(), "with_context" | "context" | "map_err" | "ok_or_else") && m.args.len() == 1 {
            // X.with_context(..) etc. only change the error value: vx_ctx(X)
            let recv = br(m.receiver.span());
            self.ins(recv.start, if name == "ok_or_else" { "vx_okor(" } else { "vx_ctx(" });
            self.rep(recv.end..br(m.span()).end, ")");
            self.notes.push(format!("R9 .{name}(..) replaced by vx_ctx (error payload dropped)"));
            self.visit_expr(&m.receiver);
            return;
        }
        // inline un-contracted helper methods called on self
        if self.try_inline(&name, &m.receiver, &m.args, br(m.span()), true) {
            return;
        }
        let dotted = match &*m.receiver {
            syn::Expr::Path(p) if p.path.segments.len() == 1 => {
                let id = p.path.segments[0].ident.to_string();
                format!("{}.{name}", self.rename.get(&id).cloned().unwrap_or(id))
            }
            _ => String::new(),
        };
        if self.spec.world.contains(&name) || self.spec.world.contains(&dotted) {
            let trailing = m.args.trailing_punct();
            self.world_arg(&m.paren_token, m.args.is_empty(), trailing);
        }
        syn::visit::visit_expr_method_call(self, m);
    }

    fn visit_expr_call(&mut self, m: &'a syn::ExprCall) {
        if let syn::Expr::Path(p) = &*m.func {
            let name = p.path.segments.last().unwrap().ident.to_string();
            let canon = self.rename.get(&name).cloned().unwrap_or(name.clone());
            if let Some((_, f, extra)) = self.spec.lifts.iter().find(|l| l.0 == canon) {
                let (f, extra) = (f.clone(), extra.clone());
                self.rep(br(p.span()), f);
                let close = br(m.paren_token.span.close()).start;
                let sep = if m.args.is_empty() || m.args.trailing_punct() { "" } else { ", " };
                self.ins(close, format!("{sep}{extra}"));
                for a in &m.args {
                    self.visit_expr(a);
                }
                return;
            }
            self.calls.insert(name.clone());
            if self.try_inline(&name, &m.func, &m.args, br(m.span()), false) {
                return;
            }
            let full = p.path.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::");
            if self.spec.world.contains(&name) && p.path.segments.len() == 1
                || self.spec.world.contains(&full) {
                let trailing = m.args.trailing_punct();
                self.world_arg(&m.paren_token, m.args.is_empty(), trailing);
            }
        }
        syn::visit::visit_expr_call(self, m);
    }

    fn visit_expr_binary(&mut self, b: &'a syn::ExprBinary) {
        let plain = |e: &syn::Expr| matches!(e, syn::Expr::Lit(l) if !matches!(l.lit, syn::Lit::Str(_) | syn::Lit::ByteStr(_)));
        if self.spec.eq && matches!(b.op, syn::BinOp::Eq(_) | syn::BinOp::Ne(_)) && !plain(&b.left) && !plain(&b.right) {
            let ne = matches!(b.op, syn::BinOp::Ne(_));
            let (l, r) = (br(b.left.span()), br(b.right.span()));
            self.ins(l.start, if ne { "(!vx_eq(&(" } else { "vx_eq(&(" });
            self.rep(l.end..r.start, "), &(");
            self.ins(r.end, if ne { ")))" } else { "))" });
            self.visit_expr(&b.left);
            self.visit_expr(&b.right);
            return;
        }
        syn::visit::visit_expr_binary(self, b);
    }

    fn visit_expr_closure(&mut self, c: &'a syn::ExprClosure) {
        let n = self.nclosures;
        self.nclosures += 1;
        if let Some(t) = self.spec.closures.get(&n) {
            if let Some(want) = self.spec.closure_texts.get(&n) {
                let have = closure_key(c);
                let ok = want.iter().any(|w| match syn::parse_str::<syn::ExprClosure>(w) {
                    Ok(w) => closure_key(&w) == have,
                    Err(_) => false,
                });
                if !ok {
                    self.lost.push(format!("closure {n} is not one of {want:?}"));
                }
            }
            let t = t.clone();
            self.rep(br(c.span()), t);
            self.notes.push(format!("R5 closure {n} lifted (replaced by its marker)"));
            return;
        }
        if let (Some(ty), 1) = (self.spec.pures.get(&n), c.inputs.len()) {
            let e: &syn::Expr = match &*c.body {
                syn::Expr::Block(b) if b.block.stmts.len() == 1 => match &b.block.stmts[0] {
                    syn::Stmt::Expr(e, None) => e,
                    _ => &c.body,
                },
                e => e,
            };
            let text = self.rename_text(&self.src[br(e.span())].to_string());
            let p = match &c.inputs[0] {
                syn::Pat::Type(t) => br(t.pat.span()),
                p => br(p.span()),
            };
            let p = self.src[p].to_string();
            self.rep(br(c.span()), format!("|{p}: {ty}| -> (__b: bool) ensures __b == ({text}) {{ {text} }}"));
            self.notes.push(format!("R5 closure {n} annotated with its own body as contract"));
            return;
        }
        syn::visit::visit_expr_closure(self, c);
    }

    fn visit_expr_path(&mut self, p: &'a syn::ExprPath) {
        if p.qself.is_none() && p.path.segments.len() == 1 && p.path.leading_colon.is_none() {
            let id = p.path.segments[0].ident.clone();
            let n = self.rename.get(&id.to_string()).cloned().unwrap_or(id.to_string());
            if self.spec.deref.contains(&n) {
                self.rep(br(id.span()), format!("(*{n})"));
            } else {
                self.ren(&id);
            }
        }
        syn::visit::visit_expr_path(self, p);
    }
    fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) {
        let id = p.ident.clone();
        self.ren(&id);
        syn::visit::visit_pat_ident(self, p);
    }
    fn visit_local(&mut self, l: &'a syn::Local) {
        if let syn::Pat::Ident(p) = &l.pat {
            let n = p.ident.to_string();
            let n = self.rename.get(&n).cloned().unwrap_or(n);
            if self.spec.lifts.iter().any(|x| x.0 == n)
                && matches!(&l.init, Some(i) if matches!(&*i.expr, syn::Expr::Closure(_)))
            {
                self.nclosures += 1;
                self.rep(br(l.span()), "");
                self.notes.push(format!("R5 local closure {n} lifted"));
                return;
            }
            if let Some(t) = self.spec.types.get(&n) {
                let t = format!(": {t}");
                self.ins(br(p.span()).end, t);
            }
        }
        syn::visit::visit_local(self, l);
    }
    fn visit_field_value(&mut self, f: &'a syn::FieldValue) {
        if f.colon_token.is_none() {
            if let syn::Member::Named(id) = &f.member {
                if let Some(n) = self.rename.get(&id.to_string()) {
                    let t = format!("{id}: {n}");
                    self.rep(br(f.span()), t);
                }
            }
            return;
        }
        syn::visit::visit_field_value(self, f);
    }
    fn visit_macro(&mut self, m: &'a syn::Macro) {
        let path = m.path.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::");
        self.calls.insert(format!("{path}!"));
        if path.starts_with("log::") {
            self.rep(br(m.span()), "()");
            self.notes.push(format!("R6 {path}! dropped"));
            return;
        }
        if self.spec.io && matches!(path.as_str(), "println" | "print" | "writeln" | "write" | "eprintln" | "eprint") {
            let text = self.src[br(m.tokens.span())].to_string();
            let sp = br(m.span());
            if path.starts_with("eprint") {
                self.rep(sp, "()");
                self.notes.push(format!("R10 {path}! dropped"));
                return;
            }
            let (target, rest) = if path.starts_with("write") {
                match text.find(',') {
                    Some(i) => (Some(text[..i].trim().to_string()), text[i + 1..].trim().to_string()),
                    None => (Some(text.trim().to_string()), "\"\"".to_string()),
                }
            } else {
                (None, text.trim().to_string())
            };
            // one value, formatted by Display and nothing around it: a result line
            let mut value = None;
            if path.ends_with("ln") {
                if let Some(r) = rest.strip_prefix("\"{}\"") {
                    value = r.trim().strip_prefix(',').map(|v| v.trim().trim_end_matches(',').to_string());
                } else if rest.starts_with("\"{") && rest.trim_end_matches(',').trim().ends_with("}\"") {
                    let v = rest.trim_end_matches(',').trim();
                    let v = &v[2..v.len() - 2];
                    if !v.is_empty() && v.chars().all(|c| c.is_alphanumeric() || c == '_') {
                        value = Some(v.to_string());
                    }
                }
            }
            let value = value.map(|v| self.rename_text(&v));
            let target = target.map(|t| self.rename_text(&t));
            let t = match (&target, &value) {
                (None, Some(v)) => format!("vx_print_line(&({v}), w)"),
                (None, None) => "vx_print_other(w)".to_string(),
                (Some(t), Some(v)) => format!("{t}.vx_write_line(&({v}), w)"),
                (Some(t), None) => format!("{t}.vx_write_other(w)"),
            };
            self.rep(sp, t);
            self.notes.push(format!("R10 {path}! made a call on the world"));
            return;
        }
        if self.spec.io && path == "format" {
            if let Some(t) = self.format_call(&self.src[br(m.tokens.span())].to_string()) {
                self.rep(br(m.span()), t);
                self.notes.push("R11 format! spelled out".into());
                return;
            }
        }
        // rename identifiers in macro arguments
        fn walk(ts: proc_macro2::TokenStream, out: &mut Vec<proc_macro2::Ident>) {
            for t in ts {
                match t {
                    proc_macro2::TokenTree::Group(g) => walk(g.stream(), out),
                    proc_macro2::TokenTree::Ident(i) => out.push(i),
                    _ => {}
                }
            }
        }
        let mut ids = vec![];
        walk(m.tokens.clone(), &mut ids);
        for i in ids {
            if let Some(n) = self.rename.get(&i.to_string()) {
                let n = n.clone();
                self.rep(br(i.span()), n);
            }
        }
    }
}

struct HasEscape(bool);
impl<'a> Visit<'a> for HasEscape {
    fn visit_expr_return(&mut self, _: &'a syn::ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_try(&mut self, _: &'a syn::ExprTry) {
        self.0 = true;
    }
    fn visit_macro(&mut self, m: &'a syn::Macro) {
        if m.path.segments.last().unwrap().ident == "bail" {
            self.0 = true;
        }
    }
}

impl<'s> Rewriter<'s> {
    /// format!("a{x}b{}", e)  ->  Fmt::new().lit("a").arg(&(x)).lit("b").arg(&(e)).done()
    fn format_call(&self, text: &str) -> Option<String> {
        let ts: proc_macro2::TokenStream = text.parse().ok()?;
        let mut parts: Vec<String> = vec![];
        let mut cur = String::new();
        for t in ts {
            match &t {
                proc_macro2::TokenTree::Punct(p) if p.as_char() == ',' => parts.push(std::mem::take(&mut cur)),
                proc_macro2::TokenTree::Punct(p) => cur.push(p.as_char()),
                t => {
                    if cur.chars().last().map(|c| c.is_alphanumeric()).unwrap_or(false) {
                        cur.push(' ');
                    }
                    cur.push_str(&t.to_string());
                }
            }
        }
        if !cur.trim().is_empty() {
            parts.push(cur);
        }
        let lit: syn::LitStr = syn::parse_str(parts.first()?.trim()).ok()?;
        let f = lit.value();
        let mut args = parts[1..].iter();
        let mut out = String::from("Fmt::new()");
        let mut buf = String::new();
        let mut it = f.chars().peekable();
        while let Some(c) = it.next() {
            match c {
                '{' if it.peek() == Some(&'{') => {
                    it.next();
                    buf.push('{');
                }
                '}' => {
                    it.next();
                    buf.push('}');
                }
                '{' => {
                    let mut inner = String::new();
                    for d in it.by_ref() {
                        if d == '}' {
                            break;
                        }
                        inner.push(d);
                    }
                    if !buf.is_empty() {
                        out.push_str(&format!(".lit({:?})", buf));
                        buf.clear();
                    }
                    let (name, style) = match inner.find(':') {
                        Some(i) => (inner[..i].to_string(), inner[i..].to_string()),
                        None => (inner.clone(), String::new()),
                    };
                    let v = if name.is_empty() { args.next()?.clone() } else { name };
                    let m = if style.is_empty() { "arg" } else { "styled" };
                    out.push_str(&format!(".{m}(&({}))", self.rename_text(&v)));
                }
                c => buf.push(c),
            }
        }
        if !buf.is_empty() {
            out.push_str(&format!(".lit({:?})", buf));
        }
        out.push_str(".done()");
        Some(out)
    }

    fn rename_text(&self, t: &str) -> String {
        if self.rename.is_empty() {
            return t.to_string();
        }
        let mut out = String::new();
        let mut word = String::new();
        let flush = |w: &mut String, o: &mut String| {
            if !w.is_empty() {
                o.push_str(self.rename.get(w.as_str()).map(|s| s.as_str()).unwrap_or(w));
                w.clear();
            }
        };
        for c in t.chars() {
            if c.is_alphanumeric() || c == '_' {
                word.push(c);
            } else {
                flush(&mut word, &mut out);
                out.push(c);
            }
        }
        flush(&mut word, &mut out);
        out
    }

    /// Calls to a helper that is defined in the same file but has no contract in the template
    /// are replaced by the helper's body (call-by-value lets for the arguments).
    fn try_inline(
        &mut self,
        name: &str,
        recv: &syn::Expr,
        args: &syn::punctuated::Punctuated<syn::Expr, syn::Token![,]>,
        span: Range<usize>,
        method: bool,
    ) -> bool {
        if !self.spec.inline || self.depth_inline > 3 {
            return false;
        }
        let Some((sig, block)) = self.helpers.get(name).cloned() else { return false };
        let has_self = sig.receiver().is_some();
        if method {
            if !has_self {
                return false;
            }
            match recv {
                syn::Expr::Path(p) if p.path.is_ident("self") => {}
                _ => return false,
            }
        } else if has_self {
            return false;
        }
        let mut esc = HasEscape(false);
        esc.visit_block(&block);
        if esc.0 {
            return false;
        }
        let params: Vec<&syn::PatType> = sig
            .inputs
            .iter()
            .filter_map(|a| if let syn::FnArg::Typed(t) = a { Some(t) } else { None })
            .collect();
        if params.len() != args.len() {
            return false;
        }
        let generic = !sig.generics.params.is_empty();
        // evaluate the arguments first, then bind them to the parameter names
        let k = span.start;
        let mut pre = String::from("{ ");
        let mut cursor: Vec<(usize, usize, String)> = vec![];
        for (i, a) in args.iter().enumerate() {
            let r = br(a.span());
            cursor.push((r.start, r.end, format!("__a{k}_{i}")));
        }
        let mut at = span.start;
        for (i, (s, e, n)) in cursor.iter().enumerate() {
            let lead = format!("{}let {} = ", if i == 0 { pre.as_str() } else { "; " }, n);
            self.rep(at..*s, lead);
            at = *e;
        }
        if cursor.is_empty() {
            pre.push(' ');
        } else {
            pre.clear();
        }
        let mut tail = String::new();
        tail.push_str(if cursor.is_empty() { &pre } else { "; " });
        for (i, p) in params.iter().enumerate() {
            let pt = &self.src[br(p.pat.span())];
            let ty = &self.src[br(p.ty.span())];
            if generic || ty.contains("impl ") {
                tail.push_str(&format!("let {pt} = __a{k}_{i}; "));
            } else {
                tail.push_str(&format!("let {pt}: {ty} = __a{k}_{i}; "));
            }
        }
        // the helper's own text, with the same rewrites applied
        let spec = Spec { loops: BTreeMap::new(), ..self.spec.clone() };
        let mut sub = Rewriter {
            src: self.src,
            spec: &spec,
            edits: vec![],
            rename: HashMap::new(),
            loops: vec![],
            notes: vec![],
            calls: BTreeSet::new(),
            nclosures: 1000,
            lost: vec![],
            depth_inline: self.depth_inline + 1,
            helpers: self.helpers,
            inlined: BTreeSet::new(),
        };
        for s in &block.stmts {
            sub.visit_stmt(s);
        }
        let r = br(block.span());
        let mut edits = sub.edits.clone();
        apply_subs(self.src, &spec, r.start + 1..r.end - 1, &mut edits, &mut vec![], true);
        let (text, _) = render(self.src, r.start + 1..r.end - 1, &edits);
        for (kd, l) in &sub.loops {
            self.loops.push((format!("inlined-{kd}"), *l));
        }
        self.notes.extend(sub.notes.clone());
        self.calls.extend(sub.calls.clone());
        self.inlined.extend(sub.inlined.clone());
        self.inlined.insert(name.to_string());
        self.notes.push(format!("R7 helper {name} inlined"));
        tail.push_str(&format!("{{ {text} }} }}"));
        self.rep(at..span.end, tail);
        for a in args {
            self.visit_expr(a);
        }
        true
    }
}

fn match_ws(src: &str, at: usize, pat: &[char]) -> Option<usize> {
    // match `pat` (no whitespace) at byte offset `at`, skipping whitespace in the source
    let mut i = at;
    let mut first = true;
    for &p in pat {
        loop {
            let c = src[i..].chars().next()?;
            if c.is_whitespace() {
                if first {
                    return None;
                }
                i += c.len_utf8();
                continue;
            }
            if c != p {
                return None;
            }
            i += c.len_utf8();
            first = false;
            break;
        }
    }
    Some(i)
}

fn word_char(c: Option<char>) -> bool {
    matches!(c, Some(c) if c.is_alphanumeric() || c == '_')
}

fn find_all(src: &str, range: &Range<usize>, a: &str) -> Vec<Range<usize>> {
    let pat: Vec<char> = a.chars().filter(|c| !c.is_whitespace()).collect();
    let mut out = vec![];
    let mut i = range.start;
    while i < range.end {
        if src.is_char_boundary(i) {
            let prev = src[..i].chars().last();
            let okb = !(word_char(prev) && word_char(pat.first().copied()));
            if okb {
                if let Some(e) = match_ws(src, i, &pat) {
                    let next = src[e..].chars().next();
                    if e <= range.end && !(word_char(next) && word_char(pat.last().copied())) {
                        out.push(i..e);
                        i = e;
                        continue;
                    }
                }
            }
        }
        i += 1;
    }
    out
}

fn apply_subs(
    src: &str,
    spec: &Spec,
    range: Range<usize>,
    edits: &mut Vec<Edit>,
    lost: &mut Vec<String>,
    lenient: bool,
) -> Vec<String> {
    let mut notes = vec![];
    for (a, b, opt) in &spec.subs {
        let hits = find_all(src, &range, a);
        if hits.is_empty() && !*opt && !lenient {
            lost.push(format!("text `{a}` not found"));
        }
        for h in &hits {
            // a substitution owns its range: other edits inside are dropped
            if edits.iter().any(|e| e.start <= h.start && h.end <= e.end && e.end > e.start) {
                continue;
            }
            edits.retain(|e| !(e.start >= h.start && e.end <= h.end && !(e.start == e.end && (e.start == h.start || e.start == h.end))));
            edits.push(Edit { start: h.start, end: h.end, text: b.clone() });
        }
        if !hits.is_empty() {
            notes.push(format!("R8 text `{}` -> `{}` x{}", a, b, hits.len()));
        }
    }
    for (a, b, opt) in &spec.inserts {
        let hits = find_all(src, &range, a);
        if hits.is_empty() && !*opt && !lenient {
            lost.push(format!("anchor `{a}` not found"));
        }
        for h in hits.iter().take(1) {
            edits.insert(0, Edit { start: h.start, end: h.start, text: b.clone() });
        }
    }
    notes
}

/// Apply edits to src[range]; returns the text and, per output line, the source line.
fn render(src: &str, range: Range<usize>, edits: &[Edit]) -> (String, Vec<usize>) {
    let mut es: Vec<(usize, &Edit)> = edits
        .iter()
        .enumerate()
        .filter(|(_, e)| e.start >= range.start && e.end <= range.end)
        .collect();
    es.sort_by_key(|(i, e)| (e.start, e.end.max(e.start) != e.start, *i));
    // insertions at a position come before replacements starting there
    let line_of = |off: usize| src[..off].matches('\n').count() + 1;
    let mut out = String::new();
    let mut lines: Vec<usize> = vec![];
    let mut pos = range.start;
    let push = |t: &str, off: usize, is_src: bool, out: &mut String, lines: &mut Vec<usize>| {
        let base = line_of(off);
        let mut k = 0;
        for c in t.chars() {
            let cur = out.matches('\n').count();
            let _ = cur;
            if c == '\n' {
                lines.push(if is_src { base + k } else { base });
                k += 1;
            }
            out.push(c);
        }
    };
    for (_, e) in es {
        if e.start < pos {
            continue; // overlapped by an earlier replacement
        }
        push(&src[pos..e.start], pos, true, &mut out, &mut lines);
        push(&e.text, e.start, false, &mut out, &mut lines);
        pos = e.end;
    }
    push(&src[pos..range.end], pos, true, &mut out, &mut lines);
    lines.push(line_of(range.end));
    (out, lines)
}

struct Lets(Vec<String>);
impl<'a> Visit<'a> for Lets {
    fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) {
        let n = p.ident.to_string();
        // constants / unit variants such as None look like identifiers
        if n.chars().next().map(|c| c.is_lowercase() || c == '_').unwrap_or(false) && !self.0.contains(&n) {
            self.0.push(n);
        }
        syn::visit::visit_pat_ident(self, p);
    }
    fn visit_item(&mut self, _: &'a syn::Item) {}
}

fn collect_helpers(items: &[syn::Item], contracted: &dyn Fn(&str) -> bool) -> HashMap<String, (syn::Signature, syn::Block)> {
    let mut m = HashMap::new();
    for it in items {
        match it {
            syn::Item::Fn(f) => {
                let n = f.sig.ident.to_string();
                if !contracted(&n) {
                    m.insert(n, (f.sig.clone(), (*f.block).clone()));
                }
            }
            syn::Item::Impl(im) => {
                for ii in &im.items {
                    if let syn::ImplItem::Fn(f) = ii {
                        let n = f.sig.ident.to_string();
                        if !contracted(&n) {
                            m.insert(n, (f.sig.clone(), f.block.clone()));
                        }
                    }
                }
            }
            _ => {}
        }
    }
    m
}

fn process(spec: &Spec, repo: &str, template_fns: &BTreeSet<String>) -> (String, Vec<usize>, Value) {
    let fail = |why: String| {
        (
            "  vx_lost_anchor!()  ".to_string(),
            vec![0],
            json!({"file": spec.file, "item": spec.item, "status": "lost", "why": [why]}),
        )
    };
    let path = format!("{repo}/{}", spec.file);
    let Ok(src) = std::fs::read_to_string(&path) else { return fail(format!("{path} not readable")) };
    let file = match syn::parse_file(&src) {
        Ok(f) => f,
        Err(e) => return fail(format!("{path}: {e}")),
    };
    let (fname, sel) = match spec.item.find('@') {
        Some(i) => (spec.item[..i].to_string(), Some(spec.item[i + 1..].to_string())),
        None => (spec.item.clone(), None),
    };
    let Some(Found::Fn { sig, block }) = find_fn(&file.items, &fname) else {
        return fail(format!("function {fname} not found in {}", spec.file));
    };
    let mut lost: Vec<String> = vec![];
    // ranges of source text to emit, in order
    let mut ranges: Vec<Range<usize>> = vec![];
    let mut names: Vec<Option<String>> = vec![];
    let mut stmt_sets: Vec<&[syn::Stmt]> = vec![];
    let mut tail_expr: Option<&syn::Expr> = None;
    let start_line;
    let end_line;
    match &sel {
        None => {
            let r = br(block.span());
            ranges.push(r.start + 1..r.end - 1);
            stmt_sets.push(&block.stmts);
            if let Some(syn::Stmt::Expr(e, None)) = block.stmts.last() {
                tail_expr = Some(e);
            }
            for a in &sig.inputs {
                match a {
                    syn::FnArg::Receiver(_) => names.push(Some("self".into())),
                    syn::FnArg::Typed(t) => names.push(pat_name(&t.pat)),
                }
            }
            start_line = sig.span().start().line;
            end_line = block.span().end().line;
        }
        Some(s) => {
            // METHOD#k.arg or let:NAME
            let mut e = if let Some(n) = s.strip_prefix("let:") {
                let mut l = LetInit { name: n.to_string(), before: usize::MAX, hit: None };
                l.visit_block(block);
                match l.hit {
                    Some(x) => x,
                    None => {
                        // renamed?  the only closure bound to a local
                        let mut lc = LetClosures(vec![]);
                        lc.visit_block(block);
                        if lc.0.len() != 1 {
                            return fail(format!("local {n} not found in {fname}"));
                        }
                        lc.0[0].1
                    }
                }
            } else {
                let (m, rest) = s.split_once('#').expect("item selector");
                let (k, arg) = rest.split_once('.').expect("item selector");
                let (k, arg): (usize, usize) = (k.parse().unwrap(), arg.parse().unwrap());
                let mut v = CallArgs { method: m.to_string(), hits: vec![] };
                v.visit_block(block);
                let Some(e) = v.hits.get(k).and_then(|h| h.get(arg)).copied() else {
                    return fail(format!("call {k} of {m} (argument {arg}) not found in {fname}"));
                };
                e
            };
            let (m, arg) = (s.as_str(), 0);
            for _ in 0..3 {
                if let syn::Expr::Path(p) = e {
                    let id = p.path.segments.last().unwrap().ident.to_string();
                    let mut l = LetInit { name: id, before: br(e.span()).start, hit: None };
                    l.visit_block(block);
                    match l.hit {
                        Some(x) => e = x,
                        None => break,
                    }
                }
            }
            let Some((pre, pre_stmts, c)) = dig_closure(e) else {
                return fail(format!("argument {arg} of {m} in {fname} is not a closure"));
            };
            if spec.prefix {
                if let Some(r) = pre {
                    ranges.push(r);
                    stmt_sets.push(pre_stmts);
                }
            }
            for p in &c.inputs {
                names.push(pat_name(p));
            }
            match &*c.body {
                syn::Expr::Block(b) => {
                    let r = br(b.block.span());
                    ranges.push(r.start + 1..r.end - 1);
                    stmt_sets.push(&b.block.stmts);
                    if let Some(syn::Stmt::Expr(e, None)) = b.block.stmts.last() {
                        tail_expr = Some(e);
                    }
                }
                other => {
                    ranges.push(br(other.span()));
                    tail_expr = Some(other);
                }
            }
            start_line = c.span().start().line;
            end_line = c.span().end().line;
        }
    }
    // optional slice of the top-level statements: @stmts FROM TO
    //   FROM/TO: start, end, call:NAME (first statement containing a call of NAME), after:NAME
    if let Some((from, to)) = &spec.stmts {
        let st = *stmt_sets.last().unwrap();
        let has = |s: &syn::Stmt, n: &str| {
            let mut v = CallArgs { method: n.to_string(), hits: vec![] };
            v.visit_stmt(s);
            !v.hits.is_empty()
        };
        let pos = |sel: &str| -> Option<usize> {
            if sel == "start" {
                return Some(0);
            }
            if sel == "end" {
                return Some(st.len());
            }
            let (k, n) = sel.split_once(':')?;
            let i = st.iter().position(|s| has(s, n))?;
            let j = st.iter().rposition(|s| has(s, n))?;
            match k {
                "call" => Some(i),
                "after" => Some(i + 1),
                "afterlast" => Some(j + 1),
                _ => None,
            }
        };
        match (pos(from), pos(to)) {
            (Some(i), Some(j)) if i < j => {
                let r = br(st[i].span()).start..br(st[j - 1].span()).end;
                *ranges.last_mut().unwrap() = r;
                *stmt_sets.last_mut().unwrap() = &st[i..j];
                tail_expr = match &st[j - 1] {
                    syn::Stmt::Expr(e, None) => Some(e),
                    _ => None,
                };
            }
            _ => return fail(format!("statement slice {from}..{to} not found in {fname}")),
        }
    }
    // parameter renaming (source name -> canonical name)
    let mut rename: HashMap<String, String> = HashMap::new();
    if !spec.params.is_empty() {
        if spec.params.len() != names.len() {
            lost.push(format!("{} parameters, expected {}", names.len(), spec.params.len()));
        }
        for (c, n) in spec.params.iter().zip(&names) {
            if let Some(n) = n {
                if n != c && n != "_" && c != "_" && n.trim_start_matches('_') != "" {
                    rename.insert(n.clone(), c.clone());
                }
            }
        }
    }
    // local renaming
    let mut lets = Lets(vec![]);
    for s in stmt_sets.iter() {
        for st in s.iter() {
            lets.visit_stmt(st);
        }
    }
    if stmt_sets.is_empty() {
        if let Some(e) = tail_expr {
            lets.visit_expr(e);
        }
    }
    let missing: Vec<&String> = spec.locals.iter().filter(|l| !lets.0.contains(l)).collect();
    let fresh: Vec<&String> = lets
        .0
        .iter()
        .filter(|l| !spec.locals.contains(l) && !spec.deref.contains(l) && !names.iter().any(|n| n.as_ref() == Some(l)))
        .collect();
    if !missing.is_empty() {
        if missing.len() == fresh.len() {
            for (m, f) in missing.iter().zip(&fresh) {
                rename.insert((*f).clone(), (*m).clone());
            }
        } else {
            lost.push(format!("locals {missing:?} not found"));
        }
    }
    let contracted = |n: &str| template_fns.contains(n) || spec.known.iter().any(|k| k == n) || n == fname.rsplit("::").next().unwrap();
    let helpers = collect_helpers(&file.items, &contracted);
    let mut rw = Rewriter {
        src: &src,
        spec,
        edits: vec![],
        rename: rename.clone(),
        loops: vec![],
        notes: vec![],
        calls: BTreeSet::new(),
        nclosures: 0,
        lost: vec![],
        depth_inline: 0,
        helpers: &helpers,
        inlined: BTreeSet::new(),
    };
    for s in &stmt_sets {
        for st in s.iter() {
            rw.visit_stmt(st);
        }
    }
    if stmt_sets.is_empty() || (stmt_sets.len() == 1 && sel.is_some() && spec.prefix && ranges.len() == 2) {
        if let Some(e) = tail_expr {
            rw.visit_expr(e);
        }
    }
    lost.extend(rw.lost.clone());
    // loop shape
    let kinds: Vec<String> = rw.loops.iter().map(|l| l.0.clone()).collect();
    let want: Vec<String> = spec.loops.values().map(|l| l.kind.clone()).collect();
    if kinds != want {
        lost.push(format!("loops {kinds:?}, expected {want:?}"));
    }
    if !spec.end.trim().is_empty() {
        match tail_expr {
            Some(e) => {
                let r = br(e.span());
                rw.edits.insert(0, Edit { start: r.start, end: r.start, text: "let __r = ".into() });
                rw.edits.push(Edit { start: r.end, end: r.end, text: format!(";\n{}\n__r", spec.end) });
            }
            None => {
                let at = ranges.last().unwrap().end;
                rw.edits.push(Edit { start: at, end: at, text: spec.end.clone() });
            }
        }
    }
    let mut edits = rw.edits.clone();
    let mut notes = rw.notes.clone();
    for r in &ranges {
        // a substitution must be found in one of the ranges
        let mut l = vec![];
        notes.extend(apply_subs(&src, spec, r.clone(), &mut edits, &mut l, ranges.len() > 1));
        lost.extend(l);
    }
    if ranges.len() > 1 {
        for (a, _, opt) in &spec.subs {
            if !*opt && ranges.iter().all(|r| find_all(&src, r, a).is_empty()) {
                lost.push(format!("text `{a}` not found"));
            }
        }
    }
    // callees defined in the same file, without contract, that could not be inlined
    let mut unresolved: Vec<String> = vec![];
    for c in &rw.calls {
        let n = c.trim_start_matches('.').trim_end_matches('!');
        if helpers.contains_key(n) && !rw.inlined.contains(n) && !c.ends_with('!') {
            unresolved.push(n.to_string());
        }
    }
    let mut text = String::new();
    let mut lines: Vec<usize> = vec![];
    text.push_str(&spec.start);
    for _ in 0..spec.start.matches('\n').count() {
        lines.push(start_line);
    }
    for r in &ranges {
        let (t, l) = render(&src, r.clone(), &edits);
        text.push_str(&t);
        text.push('\n');
        lines.extend(l);
    }
    lines.push(end_line);
    let status = if lost.is_empty() && unresolved.is_empty() { "ok" } else { "changed" };
    (
        text,
        lines,
        json!({
            "file": spec.file, "item": spec.item, "lines": [start_line, end_line],
            "status": status, "why": lost, "uncontracted_callees": unresolved,
            "inlined": rw.inlined, "rewrites": notes,
            "renamed": rename, "loops": kinds.len(),
        }),
    )
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let (tpl, repo, out, rep) = (&args[1], &args[2], &args[3], &args[4]);
    let mut text = std::fs::read_to_string(tpl).expect("template");
    // includes
    let dir = std::path::Path::new(tpl).parent().unwrap().to_path_buf();
    while let Some(i) = text.find("//@include ") {
        let e = text[i..].find('\n').map(|k| i + k).unwrap_or(text.len());
        let name = text[i + 11..e].trim().to_string();
        let inc = std::fs::read_to_string(dir.join(&name)).expect("include");
        text.replace_range(i..e, &inc);
    }
    let mut i = 5;
    let mut defs: Vec<(String, String)> = vec![];
    let mut skip: Vec<usize> = vec![]; // bodies left out (treated as unreachable, never as proved)
    let mut probe = false; // vacuity probe: every body gets an assertion that must fail
    while i < args.len() {
        if args[i] == "-D" {
            let (k, v) = args[i + 1].split_once('=').unwrap();
            defs.push((k.into(), v.into()));
            i += 1;
        }
        if args[i] == "--skip" {
            skip.extend(args[i + 1].split(',').filter_map(|x| x.parse::<usize>().ok()));
            i += 1;
        }
        if args[i] == "--probe" {
            probe = true;
        }
        i += 1;
    }
    // conditional blocks: //@if KEY=VALUE ... //@endif
    for (k, v) in &defs {
        text = text.replace(&format!("${{{k}}}"), v);
    }
    let mut kept = String::new();
    let mut keep = vec![true];
    for l in text.lines() {
        let t = l.trim();
        if let Some(c) = t.strip_prefix("//@if ") {
            let (k, v) = c.split_once('=').unwrap();
            let ok = defs.iter().any(|d| d.0 == k.trim() && d.1 == v.trim());
            keep.push(ok && *keep.last().unwrap());
        } else if t == "//@endif" {
            keep.pop();
        } else if *keep.last().unwrap() {
            kept.push_str(l);
            kept.push('\n');
        }
    }
    let text = kept;
    // functions the template gives contracts to
    let mut template_fns = BTreeSet::new();
    for (p, _) in text.match_indices("fn ") {
        let id: String = text[p + 3..].chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
        template_fns.insert(id);
    }
    let mut res = String::new();
    let mut bodies = vec![];
    let mut map: Vec<Value> = vec![];
    let mut rest = text.as_str();
    while let Some(i) = rest.find("/*@body") {
        res.push_str(&rest[..i]);
        let j = rest[i..].find("@*/").expect("unterminated @body") + i;
        let spec = parse_spec(&rest[i + 7..j]);
        let (mut t, lines, mut info) = process(&spec, repo, &template_fns);
        if skip.contains(&bodies.len()) {
            t = format!("assume(false); vx_unreached(){}", "\n".repeat(t.matches('\n').count()));
            info["skipped"] = json!(true);
        } else if probe {
            t = format!("if vx_nondet() {{ assert(false); }} {t}");
        }
        let first = res.matches('\n').count() + 1;
        for (k, l) in lines.iter().enumerate() {
            map.push(json!([first + k, l, bodies.len()]));
        }
        res.push_str(&t);
        bodies.push(info);
        rest = &rest[j + 3..];
    }
    res.push_str(rest);
    std::fs::write(out, res).unwrap();
    std::fs::write(rep, serde_json::to_string_pretty(&json!({"bodies": bodies, "map": map})).unwrap()).unwrap();
}
