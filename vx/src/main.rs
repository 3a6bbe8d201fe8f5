//! Extracts functions from the repository into a Verus file.
//!
//! usage: vx REPO TEMPLATE OUT.rs OUT.json
//!
//! The template is a Verus file with blocks `/*@ FILE :: PATH :: fn NAME ... @*/`. Each block is replaced by
//! the function as it stands in REPO, with the contract, invariants and ghost code of the block added and
//! the rewrites listed in the report applied. A block that cannot be applied is reported in OUT.json as "lost".
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use std::collections::BTreeMap;
use syn::visit_mut::{self, VisitMut};
use syn::*;

type Res<T> = std::result::Result<T, String>;

// ---------- tokens as normalized text ----------
fn flat(ts: TokenStream, out: &mut Vec<(String, bool)>) {
    for t in ts {
        match t {
            TokenTree::Group(g) => {
                let (a, b) = match g.delimiter() { Delimiter::Parenthesis => ("(", ")"), Delimiter::Brace => ("{", "}"), Delimiter::Bracket => ("[", "]"), Delimiter::None => ("", "") };
                if !a.is_empty() { out.push((a.into(), false)); }
                flat(g.stream(), out);
                if !b.is_empty() { out.push((b.into(), false)); }
            }
            TokenTree::Punct(p) => { let j = p.spacing() == Spacing::Joint; out.push((p.as_char().to_string(), j)); }
            t => out.push((t.to_string(), false)),
        }
    }
}
/// every token separated by one blank, multi-character operators kept together
fn norm(ts: TokenStream) -> String {
    let mut v = Vec::new();
    flat(ts, &mut v);
    let mut s = String::new();
    let mut joint = false;
    for (t, j) in v {
        if !joint && !s.is_empty() { s.push(' '); }
        s.push_str(&t);
        joint = j;
    }
    s
}
fn norm_str(s: &str) -> Res<String> { Ok(norm(s.parse::<TokenStream>().map_err(|e| format!("bad tokens `{}`: {}", s, e))?)) }
fn pretty(s: &str) -> String {
    let mut o = String::new();
    let mut ind = 1usize;
    let mut par = 0i32;
    let mut line = String::new();
    let flush = |o: &mut String, line: &mut String, ind: usize| { if !line.trim().is_empty() { for _ in 0..ind { o.push_str("    "); } o.push_str(line.trim()); o.push('\n'); } line.clear(); };
    let mut depth_at: Vec<i32> = vec![];
    for t in s.split(' ') {
        match t {
            "{" => { line.push_str(" {"); flush(&mut o, &mut line, ind); ind += 1; depth_at.push(par); par = 0; }
            "}" => { flush(&mut o, &mut line, ind); ind -= 1; par = depth_at.pop().unwrap_or(0); line.push('}'); flush(&mut o, &mut line, ind); }
            ";" if par == 0 => { line.push_str(" ;"); flush(&mut o, &mut line, ind); }
            _ => { if t == "(" || t == "[" { par += 1; } if t == ")" || t == "]" { par -= 1; } line.push(' '); line.push_str(t); }
        }
    }
    flush(&mut o, &mut line, ind);
    o
}

// ---------- directives ----------
#[derive(Default, Debug)]
struct Directive {
    file: String,
    path: Vec<String>,
    ret: Option<String>,
    sig: Option<String>,
    spec: String,
    substs: Vec<(String, String, bool)>,
    loops: BTreeMap<usize, BTreeMap<String, String>>,
    closures: BTreeMap<usize, (String, Vec<String>, String)>,
    /// the call a closure is an argument of
    hosts: BTreeMap<usize, String>,
    begin: String,
    end: String,
    ats: Vec<(String, String, String)>,
    tail: Option<(String, String)>,
    nodebug: bool,
    strict: bool,
    rtindex: bool,
    fmt: bool,
    fops: bool,
    attrs: Vec<(String, String)>,
    drops: Vec<String>,
    rename: Option<String>,
    raw: bool,
    macro_args: Vec<(String, String)>,
    nloops: Option<usize>,
    binds: Vec<(String, String, String)>,
    text: String,
}

fn ticks(s: &str) -> Vec<String> { s.split('`').enumerate().filter(|(i, _)| i % 2 == 1).map(|(_, x)| x.to_string()).collect() }

fn parse_directive(text: &str) -> Res<Directive> {
    let mut d = Directive::default();
    d.text = text.to_string();
    let mut lines = text.lines();
    let head = lines.next().unwrap_or("").trim();
    let parts: Vec<&str> = head.split(" :: ").map(|x| x.trim()).collect();
    d.file = parts[0].to_string();
    d.path = parts[1..].iter().map(|x| x.to_string()).collect();
    let mut items: Vec<(String, String)> = Vec::new();
    for l in lines {
        let t = l.trim_start();
        if t.starts_with('#') && !t.starts_with("#[") && !t.starts_with("#!") { items.push((t[1..].to_string(), String::new())); }
        else if let Some(x) = items.last_mut() { x.1.push_str(l); x.1.push('\n'); }
        else if !t.is_empty() { return Err(format!("text before first # in {}", head)); }
    }
    for (h, body) in items {
        let (cmd, rest) = match h.find(char::is_whitespace) { Some(i) => (h[..i].to_string(), h[i..].trim().to_string()), None => (h.clone(), String::new()) };
        match cmd.as_str() {
            "ret" => d.ret = Some(rest),
            "sig" => d.sig = Some(format!("{} {}", rest, body)),
            "spec" => d.spec = body,
            "subst" | "subst?" => { let t = ticks(&format!("{}\n{}", rest, body)); if t.len() != 2 { return Err(format!("bad subst in {}", head)); } d.substs.push((t[0].clone(), t[1].clone(), cmd == "subst?")); }
            // `$NAME` stands for the variable that is bound to the given expression, or for a fallback when there is none
            "bind" => { let t = ticks(&rest); if t.len() != 2 { return Err(format!("bad bind in {}", head)); } d.binds.push((rest.split_whitespace().next().unwrap().to_string(), t[0].clone(), t[1].clone())); }
            "macro" => { for p in rest.split(',') { let (a, b) = p.split_once('=').ok_or("bad macro")?; d.macro_args.push((a.trim().into(), b.trim().into())); } }
            "loop" => { let mut it = rest.split_whitespace(); let k: usize = it.next().ok_or("loop number")?.parse().map_err(|_| "loop number")?; let what = it.next().unwrap_or("inv").to_string(); d.loops.entry(k).or_default().insert(what, body); }
            "loops" => d.nloops = Some(rest.parse().map_err(|_| "loops")?),
            "closure" => { let rest = match rest.split_once(" in:") { Some((k, r)) => { let (h, r) = r.trim().split_once(char::is_whitespace).ok_or("closure host")?; d.hosts.insert(k.trim().parse().map_err(|_| "closure number")?, h.to_string()); format!("{} {}", k.trim(), r) } None => rest }; let (k, r) = rest.split_once(char::is_whitespace).ok_or("closure")?; let (ret, types) = match r.split_once("types:") { Some((a, b)) => (a.trim().to_string(), split_types(b)), None => (r.trim().to_string(), vec![]) }; d.closures.insert(k.parse().map_err(|_| "closure number")?, (ret, types, body)); }
            "begin" => d.begin = body,
            "end" => d.end = body,
            "at" => { let (w, _) = rest.split_once(char::is_whitespace).ok_or("at")?; let t = ticks(&rest); d.ats.push((w.to_string(), t.get(0).ok_or("at needs `stmt`")?.clone(), body)); }
            "tail" => d.tail = Some((rest, body)),
            "nodebug" => d.nodebug = true,
            "strict" => d.strict = true,
            "rtindex" => d.rtindex = true,
            "fmt" => d.fmt = true,
            "fops" => d.fops = true,
            "attr" => d.attrs.push((ticks(&rest).get(0).ok_or("attr needs `attribute`")?.clone(), body)),
            "drop" => d.drops.push(ticks(&rest).get(0).ok_or("drop needs `stmt`")?.clone()),
            "name" => d.rename = Some(rest),
            "raw" => d.raw = true,
            c => return Err(format!("unknown directive #{} in {}", c, head)),
        }
    }
    Ok(d)
}
fn split_types(s: &str) -> Vec<String> {
    let mut v = vec![]; let mut cur = String::new(); let mut depth = 0;
    for c in s.chars() { match c { '(' | '[' | '<' => { depth += 1; cur.push(c) } ')' | ']' | '>' => { depth -= 1; cur.push(c) } ';' if depth == 0 => { v.push(cur.trim().to_string()); cur.clear(); } c => cur.push(c) } }
    if !cur.trim().is_empty() { v.push(cur.trim().to_string()); }
    v
}

// ---------- locating items ----------
fn last_ident(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        Type::Reference(r) => format!("&{}", last_ident(&r.elem)),
        Type::Slice(s) => format!("[{}]", last_ident(&s.elem)),
        t => norm(t.to_token_stream()),
    }
}
/// what an expression calls
fn host(e: &Expr) -> String {
    match e {
        Expr::MethodCall(m) => m.method.to_string(),
        Expr::Call(c) => match &*c.func { Expr::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(), _ => "-".into() },
        _ => "-".into(),
    }
}
fn is_test(attrs: &[Attribute]) -> bool { attrs.iter().any(|a| { let s = norm(a.to_token_stream()); s.contains("cfg ( test )") }) }
/// items that are not compiled with the default features are skipped
fn is_off(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| { let s = norm(a.to_token_stream()); s.starts_with("# [ cfg ( feature = \"blas\"") || s.starts_with("# [ cfg ( feature = \"singlethreaded\"") || s.starts_with("# [ cfg ( granne_verif") }) || is_test(attrs)
}
fn find_items<'a>(items: &'a [Item], path: &[String]) -> Vec<TokenStream> {
    let head = &path[0];
    let rest = &path[1..];
    let mut out = vec![];
    for it in items {
        match it {
            Item::Impl(i) if head.starts_with("impl ") && !is_off(&i.attrs) => {
                let want = head[5..].trim();
                let ty = last_ident(&i.self_ty);
                let tr = i.trait_.as_ref().map(|(_, p, _)| p.segments.last().unwrap().ident.to_string());
                let trfull = i.trait_.as_ref().map(|(_, p, _)| norm(p.to_token_stream()).replace(' ', ""));
                let ok = match want.split_once(" for ") { Some((a, b)) => (tr.as_deref() == Some(a.trim()) || trfull.as_deref() == Some(a.trim())) && ty == b.trim(), None => tr.is_none() && ty == want };
                if !ok { continue; }
                for ii in &i.items {
                    if let ImplItem::Fn(f) = ii { if !is_off(&f.attrs) && rest[0] == format!("fn {}", f.sig.ident) {
                        if rest.len() == 1 { let mut f = f.clone(); f.attrs.clear(); f.vis = Visibility::Inherited; out.push(f.to_token_stream()); } else { out.extend(find_in_block(&f.block, &rest[1..])); }
                    } }
                    if let ImplItem::Const(f) = ii { if rest[0] == format!("const {}", f.ident) { let mut f = f.clone(); f.attrs.clear(); out.push(f.to_token_stream()); } }
                }
            }
            Item::Trait(t) if head == &format!("trait {}", t.ident) => {
                for ii in &t.items { if let TraitItem::Fn(f) = ii { if rest.len() == 1 && rest[0] == format!("fn {}", f.sig.ident) { let mut f = f.clone(); f.attrs.clear(); out.push(f.to_token_stream()); } } }
            }
            Item::Fn(f) if head == &format!("fn {}", f.sig.ident) && !is_off(&f.attrs) => {
                if rest.is_empty() { let mut f = f.clone(); f.attrs.clear(); f.vis = Visibility::Inherited; out.push(f.to_token_stream()); } else { out.extend(find_in_block(&f.block, rest)); }
            }
            Item::Struct(s) if head == &format!("struct {}", s.ident) => { let mut s = s.clone(); s.attrs.clear(); s.vis = Visibility::Inherited; for f in s.fields.iter_mut() { f.attrs.clear(); f.vis = Visibility::Inherited; } out.push(s.to_token_stream()); }
            Item::Enum(s) if head == &format!("enum {}", s.ident) => { let mut s = s.clone(); s.attrs.clear(); s.vis = Visibility::Inherited; out.push(s.to_token_stream()); }
            Item::Const(s) if head == &format!("const {}", s.ident) => { let mut s = s.clone(); s.attrs.clear(); s.vis = Visibility::Inherited; out.push(s.to_token_stream()); }
            Item::Type(s) if head == &format!("type {}", s.ident) => { let mut s = s.clone(); s.attrs.clear(); s.vis = Visibility::Inherited; out.push(s.to_token_stream()); }
            Item::Mod(m) if head == &format!("mod {}", m.ident) => { if let Some((_, items)) = &m.content { out.extend(find_items(items, rest)); } }
            Item::Macro(m) if m.ident.as_ref().map_or(false, |i| head == &format!("macro {}", i)) => { out.push(m.mac.tokens.clone()); }
            _ => {}
        }
    }
    out
}
fn find_in_block(b: &Block, path: &[String]) -> Vec<TokenStream> {
    let mut out = vec![];
    for s in &b.stmts { if let Stmt::Item(i) = s { out.extend(find_items(std::slice::from_ref(i), path)); } }
    out
}

// ---------- rewriting ----------
struct Rw<'d> {
    d: &'d Directive,
    nloop: usize,
    nclo: usize,
    hosts: Vec<String>,
    at_hits: Vec<usize>,
    drop_hits: Vec<usize>,
    log: Vec<String>,
    err: Vec<String>,
    soft: Vec<String>, lenient: bool,
    fresh: usize,
    /// what each closure is passed to, in order; `cmap` gives the closure of the annotations each one is, `auto` whether closures changed
    found: Vec<String>, cmap: Option<Vec<Option<usize>>>, auto: bool, autos: Vec<String>,
}
fn stmt_macro(name: &str, k: usize) -> Stmt { parse_str(&format!("{}!({});", name, k)).unwrap() }
fn is_loop(e: &Expr) -> bool { matches!(e, Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_)) }

/// `let` statements binding the variables of `pat` to parts of `e`
fn bind(pat: &Pat, e: TokenStream, ty: Option<&Type>, by_ref: bool, out: &mut Vec<Stmt>) -> Res<()> {
    match pat {
        Pat::Wild(_) => Ok(()),
        Pat::Ident(i) if i.subpat.is_none() => {
            let id = &i.ident;
            let m = &i.mutability;
            out.push(parse_quote_stmt(if i.by_ref.is_some() && m.is_some() { quote!(let #id = &mut #e;) } else if i.by_ref.is_some() || by_ref { quote!(let #m #id = & #e;) } else { quote!(let #m #id = #e;) })?);
            Ok(())
        }
        Pat::Reference(r) => { let inner = match ty { Some(Type::Reference(t)) => Some(&*t.elem), _ => None }; bind(&r.pat, quote!((*#e)), inner, false, out) }
        Pat::Tuple(t) => {
            let (br, tt) = match ty { Some(Type::Reference(x)) => (true, Some(&*x.elem)), x => (by_ref, x) };
            for (i, p) in t.elems.iter().enumerate() {
                let k = Index::from(i);
                let et = match tt { Some(Type::Tuple(x)) => x.elems.get(i), _ => None };
                bind(p, quote!(#e.#k), et, br && !matches!(et, Some(Type::Reference(_)) if matches!(p, Pat::Reference(_))), out)?;
            }
            Ok(())
        }
        Pat::TupleStruct(t) => { for (i, p) in t.elems.iter().enumerate() { let k = Index::from(i); bind(p, quote!(#e.#k), None, by_ref, out)?; } Ok(()) }
        Pat::Paren(p) => bind(&p.pat, e, ty, by_ref, out),
        Pat::Type(p) => bind(&p.pat, e, Some(&p.ty), by_ref, out),
        p => Err(format!("pattern `{}`", norm(p.to_token_stream()))),
    }
}
fn parse_quote_stmt(ts: TokenStream) -> Res<Stmt> { parse2(ts).map_err(|e| e.to_string()) }
fn has_mut(p: &Pat) -> bool { match p { Pat::Ident(i) => i.by_ref.is_some() && i.mutability.is_some(), Pat::Tuple(t) => t.elems.iter().any(has_mut), Pat::TupleStruct(t) => t.elems.iter().any(has_mut), Pat::Paren(p) => has_mut(&p.pat), Pat::Type(t) => has_mut(&t.pat), _ => false } }
fn has_ref(p: &Pat) -> bool { match p { Pat::Reference(_) => true, Pat::Ident(i) => i.by_ref.is_some(), Pat::Tuple(t) => t.elems.iter().any(has_ref), Pat::TupleStruct(t) => t.elems.iter().any(has_ref), Pat::Paren(p) => has_ref(&p.pat), Pat::Type(t) => has_ref(&t.pat), _ => false } }

impl<'d> Rw<'d> {
    fn macro_call(&mut self, m: &Macro) -> Option<TokenStream> {
        let name = m.path.segments.last().unwrap().ident.to_string();
        let args = || m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated);
        let (dbg, base) = match name.strip_prefix("debug_") { Some(b) => (true, b.to_string()), None => (false, name.clone()) };
        match base.as_str() {
            "assert" | "assert_eq" | "assert_ne" => {
                if dbg && self.d.nodebug { self.log.push(format!("{}! dropped", name)); return Some(quote!({})); }
                let a: Vec<Expr> = match args() { Ok(a) => a.into_iter().collect(), Err(e) => { self.err.push(format!("{}!: {}", name, e)); return None; } };
                let f = if dbg || self.d.strict { quote!(dbg_assert) } else { quote!(rt_assert) };
                let c = &a[0];
                let cond = match base.as_str() { "assert" => quote!(#c), "assert_eq" => { let b = &a[1]; quote!((#c) == (#b)) } _ => { let b = &a[1]; quote!((#c) != (#b)) } };
                self.log.push(format!("{}! -> {}()", name, f));
                Some(quote!(#f(#cond)))
            }
            "format" if self.d.fmt => {
                let a: Vec<Expr> = match args() { Ok(a) => a.into_iter().collect(), Err(_) => return None };
                let lit = match a.get(0) { Some(Expr::Lit(ExprLit { lit: Lit::Str(l), .. })) => l.value(), _ => return None };
                let parts: Vec<&str> = lit.split("{}").collect();
                if parts.len() != a.len() || parts.iter().any(|p| p.contains('{') || p.contains('}')) { return None; }
                let mut e = quote!(vx_fmt());
                for (i, p) in parts.iter().enumerate() {
                    if !p.is_empty() { e = quote!(#e.lit(#p)); }
                    if i + 1 < parts.len() { let x = &a[i + 1]; e = quote!(#e.arg(#x)); }
                }
                self.log.push("format!(\"..{}..\", x) -> vx_fmt().lit(..).arg(x)".into());
                Some(quote!(#e.done()))
            }
            "println" => { self.log.push("println! dropped".into()); Some(quote!({})) }
            "unreachable" => { self.log.push("unreachable! -> rt_unreachable()".into()); Some(quote!(rt_unreachable())) }
            _ => None,
        }
    }
    fn block(&mut self, b: &mut Block) {
        let stmts = std::mem::take(&mut b.stmts);
        let mut out: Vec<Stmt> = Vec::new();
        for mut s in stmts {
            let text = norm(s.to_token_stream());
            let mut dropped = false;
            for (i, p) in self.d.drops.iter().enumerate() {
                { let p = norm_str(p).unwrap_or(p.clone()); if text.starts_with(&p) { self.drop_hits[i] += 1; dropped = true; self.log.push(format!("dropped `{}`", text.chars().take(80).collect::<String>())); } }
            }
            if dropped { continue; }
            if let Stmt::Item(Item::Const(c)) = &s {
                let (n, t, e) = (&c.ident, &c.ty, &c.expr);
                self.log.push(format!("const {} -> let", n));
                match parse_quote_stmt(quote!(let #n : #t = #e;)) { Ok(x) => s = x, Err(e) => self.err.push(e) }
            }
            if let Stmt::Item(_) = s {
                // nested functions are extracted on their own
                if let Stmt::Item(Item::Fn(_)) | Stmt::Item(Item::Use(_)) = s { continue; }
            }
            let mut after: Vec<Stmt> = Vec::new();
            for (i, (w, p, _)) in self.d.ats.iter().enumerate() {
                { let p = norm_str(p).unwrap_or(p.clone()); if text.starts_with(&p) { self.at_hits[i] += 1; if w == "before" { out.push(stmt_macro("__vx_at", i)); } else { after.push(stmt_macro("__vx_at", i)); } } }
            }
            // loops
            let loop_here = match &s { Stmt::Expr(e, _) if is_loop(e) => Some(self.nloop), _ => None };
            if let Some(k) = loop_here { out.push(stmt_macro("__vx_before", k)); after.insert(0, stmt_macro("__vx_after", k)); }
            // reference patterns in let
            let mut extra: Vec<Stmt> = vec![];
            if let Stmt::Local(l) = &mut s {
                let pat = match &l.pat { Pat::Type(t) => (*t.pat).clone(), p => p.clone() };
                if has_ref(&pat) && l.init.as_ref().map_or(false, |i| i.diverge.is_none()) {
                    self.fresh += 1;
                    let v = quote::format_ident!("vx_l{}", self.fresh);
                    let ty = match &l.pat { Pat::Type(t) => Some((*t.ty).clone()), _ => None };
                    match bind(&pat, quote!(#v), ty.as_ref(), false, &mut extra) {
                        Ok(()) => { l.pat = Pat::Ident(PatIdent { attrs: vec![], by_ref: None, mutability: None, ident: v, subpat: None });
                            // a place behind a reference is not moved
                            if let Some(init) = &mut l.init { if let Expr::Unary(ExprUnary { op: UnOp::Deref(_), .. }) = &*init.expr { let e = &init.expr; let e: Expr = if has_mut(&pat) { parse_quote!(&mut #e) } else { parse_quote!(&#e) }; *init.expr = e; } }
                            self.log.push(format!("let pattern `{}` -> bindings", norm(pat.to_token_stream()))); }
                        Err(e) => { extra.clear(); let _ = e; }
                    }
                }
            }
            match &mut s {
                Stmt::Macro(m) => {
                    if let Some(ts) = self.macro_call(&m.mac) { match parse2::<Expr>(ts) { Ok(mut e) => { self.visit_expr_mut(&mut e); s = Stmt::Expr(e, Some(Default::default())); } Err(e) => self.err.push(e.to_string()) } }
                    else { visit_mut::visit_stmt_mut(self, &mut s); }
                }
                _ => visit_mut::visit_stmt_mut(self, &mut s),
            }
            out.push(s);
            out.extend(extra);
            out.extend(after);
        }
        b.stmts = out;
    }
    fn mark_body(&mut self, k: usize, body: &mut Block, pre: Vec<Stmt>) {
        self.visit_block_mut(body);
        let mut v = vec![stmt_macro("__vx_inv", k)];
        v.extend(pre);
        v.push(stmt_macro("__vx_lb", k));
        v.extend(std::mem::take(&mut body.stmts));
        v.push(stmt_macro("__vx_le", k));
        body.stmts = v;
    }
}
impl<'d> Rw<'d> {
    /// arithmetic operators, casts and float methods become calls of the shims' traits
    fn fop(&mut self, e: &mut Expr) {
        let new: Option<(Expr, String)> = match e {
            Expr::Binary(b) => {
                let (l, r) = (&b.left, &b.right);
                let (name, cmp, assign) = match b.op {
                    BinOp::Add(_) => ("vx_add", false, false), BinOp::Sub(_) => ("vx_sub", false, false), BinOp::Mul(_) => ("vx_mul", false, false), BinOp::Div(_) => ("vx_div", false, false),
                    BinOp::AddAssign(_) => ("vx_add", false, true), BinOp::SubAssign(_) => ("vx_sub", false, true), BinOp::MulAssign(_) => ("vx_mul", false, true), BinOp::DivAssign(_) => ("vx_div", false, true),
                    BinOp::Lt(_) => ("vx_lt", true, false), BinOp::Le(_) => ("vx_le", true, false), BinOp::Gt(_) => ("vx_gt", true, false), BinOp::Ge(_) => ("vx_ge", true, false),
                    _ => return,
                };
                let f = quote::format_ident!("{}", name);
                let _ = cmp;
                Some((if assign { parse_quote!(#l = (#l).#f(#r)) } else { parse_quote!((#l).#f(#r)) }, format!("operator -> .{}()", name)))
            }
            Expr::Cast(c) => {
                let x = &c.expr;
                let t = norm(c.ty.to_token_stream());
                if !matches!(t.as_str(), "f32" | "f64" | "i8" | "i16" | "i32" | "i64") { return; }
                let f = quote::format_ident!("vx_as_{}", t);
                Some((parse_quote!((#x).#f()), format!("as {} -> .vx_as_{}()", t, t)))
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                if !matches!(n.as_str(), "mul_add" | "sqrt" | "abs" | "powi" | "ln" | "max" | "min" | "is_nan" | "is_finite" | "clamp" | "round" | "recip") { return; }
                if (n == "max" || n == "min") && m.args.is_empty() { return; }
                m.method = syn::Ident::new(&format!("vx_{}", n), m.method.span());
                self.log.push(format!(".{}() -> .vx_{}()", n, n));
                return;
            }
            _ => return,
        };
        if let Some((x, l)) = new { self.log.push(l); *e = x; }
    }
}
fn strip(e: &Expr) -> &Expr { match e { Expr::Paren(p) => strip(&p.expr), Expr::Group(g) => strip(&g.expr), e => e } }

impl<'d> VisitMut for Rw<'d> {
    fn visit_block_mut(&mut self, b: &mut Block) { self.block(b); }
    fn visit_item_mut(&mut self, _: &mut Item) {}
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        self.hosts.push(host(e));
        self.rewrite_expr(e);
        self.hosts.pop();
    }
}
impl<'d> Rw<'d> {
    fn rewrite_expr(&mut self, e: &mut Expr) {
        // loops
        if let Expr::While(w) = e {
            if let Expr::Let(l) = &*w.cond {
                let (p, x, b, lb) = (&l.pat, &l.expr, &w.body, &w.label);
                let st = &b.stmts;
                let new: Expr = parse_quote!(#lb loop { match #x { #p => { #(#st)* } _ => { break; } } });
                self.log.push("while let -> loop { match .. _ => break }".into());
                *e = new;
            }
        }
        match e {
            Expr::While(w) => {
                let k = self.nloop; self.nloop += 1;
                self.visit_expr_mut(&mut w.cond);
                let mut body = std::mem::replace(&mut w.body, parse_quote!({}));
                self.mark_body(k, &mut body, vec![]);
                w.body = body;
                return;
            }
            Expr::Loop(w) => {
                let k = self.nloop; self.nloop += 1;
                let mut body = std::mem::replace(&mut w.body, parse_quote!({}));
                self.mark_body(k, &mut body, vec![]);
                w.body = body;
                return;
            }
            Expr::ForLoop(f) => {
                let k = self.nloop; self.nloop += 1;
                let kk = proc_macro2::Literal::usize_unsuffixed(k);
                let i = quote::format_ident!("vx_i{}", k);
                let v = quote::format_ident!("vx_v{}", k);
                let end = quote::format_ident!("vx_e{}", k);
                let mut iter = (*f.expr).clone();
                self.visit_expr_mut(&mut iter);
                let mut body = f.body.clone();
                let label = f.label.clone();
                let pat = (*f.pat).clone();
                let mut rev = false;
                let mut range = None;
                match strip(&iter) {
                    Expr::Range(r) => range = Some(r.clone()),
                    Expr::MethodCall(m) if m.method == "rev" && m.args.is_empty() => if let Expr::Range(r) = strip(&m.receiver) { range = Some(r.clone()); rev = true; },
                    _ => {}
                }
                let mut pre: Vec<Stmt> = vec![];
                let new: Res<TokenStream> = (|| {
                    match range {
                        Some(r) => {
                            let a = r.start.clone().ok_or("range without start")?;
                            let b = r.end.clone().ok_or("range without end")?;
                            let b = if matches!(r.limits, RangeLimits::Closed(_)) { quote!((#b) + 1) } else { quote!(#b) };
                            let p = bind(&pat, quote!(#i), None, false, &mut pre);
                            p?;
                            let body = &mut body;
                            if !rev {
                                pre.push(parse_quote_stmt(quote!(#i = #i + 1;))?);
                                self.mark_body(k, body, pre.clone());
                                Ok(quote!({ let #end = #b; let mut #i = #a; __vx_en!(#kk); #label while #i < #end #body }))
                            } else {
                                pre.insert(0, parse_quote_stmt(quote!(#i = #i - 1;))?);
                                self.mark_body(k, body, pre.clone());
                                Ok(quote!({ let #end = #a; let mut #i = #b; __vx_en!(#kk); #label while #i > #end #body }))
                            }
                        }
                        None => {
                            bind(&pat, quote!(#v.at(#i)), None, false, &mut pre)?;
                            // a tuple pattern is bound from one read
                            if matches!(pat, Pat::Tuple(_) | Pat::Reference(_)) {
                                pre.clear();
                                let x = quote::format_ident!("vx_x{}", k);
                                pre.push(parse_quote_stmt(quote!(let #x = #v.at(#i);))?);
                                let hint = self.d.loops.get(&k).and_then(|m| m.get("type")).map(|t| parse_str::<Type>(t.trim()));
                                let hint = match hint { Some(Ok(t)) => Some(t), Some(Err(e)) => return Err(e.to_string()), None => None };
                                bind(&pat, quote!(#x), hint.as_ref(), false, &mut pre)?;
                            }
                            pre.push(parse_quote_stmt(quote!(#i = #i + 1;))?);
                            let body = &mut body;
                            self.mark_body(k, body, pre.clone());
                            Ok(quote!({ let #v = (#iter).vx_iter(); let mut #i = 0usize; __vx_en!(#kk); #label while #i < #v.len() #body }))
                        }
                    }
                })();
                match new.and_then(|t| parse2::<Expr>(t).map_err(|e| e.to_string())) {
                    Ok(x) => { self.log.push(format!("for loop {} -> while", k)); *e = x; }
                    Err(m) => self.err.push(format!("for loop {}: {}", k, m)),
                }
                return;
            }
            _ => {}
        }
        if let Expr::Closure(c) = e {
            let at = self.nclo; self.nclo += 1;
            let k = match &self.cmap { None => at, Some(m) => m.get(at).copied().flatten().unwrap_or(usize::MAX) };
            let host = if self.hosts.len() >= 2 { self.hosts[self.hosts.len() - 2].clone() } else { "-".to_string() };
            self.found.push(host.clone());
            if let Some(want) = self.d.hosts.get(&k) { if *want != host {
                let m = format!("closure {} is passed to `{}`, not to `{}`", k, host, want);
                if !self.lenient { self.err.push(m); return; }
                // left without its contract
                self.soft.push(m);
                self.visit_expr_mut(&mut c.body);
                return;
            } }
            if let Some((_, types, spec)) = self.d.closures.get(&k) {
                let spec = spec.to_string();
                let mut lets: Vec<Stmt> = vec![];
                let mut ps: Vec<Pat> = vec![];
                for (i, p) in c.inputs.iter().enumerate() {
                    let (p, declared) = match p { Pat::Type(t) => ((*t.pat).clone(), Some((*t.ty).clone())), p => (p.clone(), None) };
                    let ty = match types.get(i) { Some(t) => match parse_str::<Type>(t) { Ok(t) => Some(t), Err(e) => { self.err.push(e.to_string()); None } }, None => declared };
                    let name = match &p { Pat::Ident(id) if id.by_ref.is_none() && !spec.contains(&format!("vx_p{}", i)) => id.ident.clone(), Pat::Ident(id) if id.by_ref.is_none() => { let n = quote::format_ident!("vx_p{}", i); lets.push(parse_quote!(let #id = #n;)); n } _ => { let n = quote::format_ident!("vx_p{}", i); if let Err(e) = bind(&p, quote!(#n), ty.as_ref(), false, &mut lets) { self.err.push(e); } self.log.push(format!("closure {} pattern `{}` -> bindings", k, norm(p.to_token_stream()))); n } };
                    let tt = match ty { Some(t) => quote!(#name : #t), None => quote!(#name) };
                    match Pat::parse_ty(tt) { Ok(p) => ps.push(p), Err(e) => self.err.push(e.to_string()) }
                }
                c.inputs = ps.into_iter().collect();
                self.visit_expr_mut(&mut c.body);
                let body = &c.body;
                let mark = stmt_macro("__vx_clo", k);
                let nb: Expr = parse_quote!({ #mark #(#lets)* #body });
                c.body = Box::new(nb);
            } else if self.auto && c.inputs.iter().all(|p| !matches!(p, Pat::Type(_))) {
                // a closure the annotations do not know: its parameters become variables, and a simple body is its own contract
                let mut lets: Vec<Stmt> = vec![];
                let mut ps: Vec<Pat> = vec![];
                for (i, p) in c.inputs.iter().enumerate() {
                    match p { Pat::Ident(id) if id.by_ref.is_none() => ps.push(p.clone()), _ => {
                        let n = quote::format_ident!("vx_q{}", i);
                        if !matches!(p, Pat::Wild(_)) { if let Err(e) = bind(p, quote!(#n), None, false, &mut lets) { self.err.push(e); } }
                        match Pat::parse_ty(quote!(#n)) { Ok(p) => ps.push(p), Err(e) => self.err.push(e.to_string()) }
                    } }
                }
                c.inputs = ps.into_iter().collect();
                let simple = plain(&c.body);
                let b0 = c.body.clone();
                self.visit_expr_mut(&mut c.body);
                let body = &c.body;
                let nb: Expr = if let Some(ty) = simple {
                    let i = self.autos.len();
                    let (l, b) = (quote!(#(#lets)*), norm(b0.to_token_stream()));
                    self.autos.push(format!("-> (vx_r: {}) ensures ({{ {} vx_r == ({}) }})", ty, norm(l), b));
                    self.log.push("a closure without annotations gets its body as its contract".into());
                    let mark = stmt_macro("__vx_auto", i);
                    parse_quote!({ #mark #(#lets)* #body })
                } else { parse_quote!({ #(#lets)* #body }) };
                c.body = Box::new(nb);
            } else {
                self.visit_expr_mut(&mut c.body);
            }
            return;
        }
        if let Expr::Macro(m) = e {
            if let Some(ts) = self.macro_call(&m.mac.clone()) { match parse2::<Expr>(ts) { Ok(mut x) => { self.visit_expr_mut(&mut x); *e = x; } Err(x) => self.err.push(x.to_string()) } return; }
            // vec![x; n] and vec![a, b]
            if m.mac.path.is_ident("vec") {
                let body = norm(m.mac.tokens.clone());
                if let Some((a, n)) = body.split_once(" ; ") {
                    if let (Ok(a), Ok(n)) = (parse_str::<Expr>(a), parse_str::<Expr>(n)) { self.log.push("vec![x; n] -> vec_repeat(x, n)".into()); *e = parse_quote!(vec_repeat(#a, #n)); self.visit_expr_mut(e); return; }
                }
            }
        }
        if let Expr::Reference(rf) = e {
            if self.d.rtindex && rf.mutability.is_some() { if let Expr::Index(ix) = strip(&rf.expr) { if let Expr::Range(r) = strip(&ix.index) { if matches!(r.limits, RangeLimits::HalfOpen(_)) {
                let x = &ix.expr;
                let a: Expr = match &r.start { Some(a) => (**a).clone(), None => parse_quote!(0) };
                let new: Expr = match &r.end { Some(b) => parse_quote!(#x.rt_slice_mut(#a, #b)), None => parse_quote!(#x.rt_slice_mut_from(#a)) };
                self.log.push("&mut x[a..b] -> x.rt_slice_mut(a, b) (may panic)".into());
                *e = new;
                self.visit_expr_mut(e);
                return;
            } } } }
        }
        if let Expr::Index(ix) = e {
            if let Expr::Range(r) = strip(&ix.index) { if self.d.rtindex || (r.start.is_none() && r.end.is_none()) {
                if let (RangeLimits::Closed(_), Some(a), Some(b)) = (&r.limits, &r.start, &r.end) {
                    let x = &ix.expr;
                    let new: Expr = parse_quote!((*rt_slice_incl(&#x, #a, #b)));
                    self.log.push("x[a..=b] -> rt_slice_incl(x, a, b) (may panic)".into());
                    *e = new;
                    self.visit_expr_mut(e);
                    return;
                }
                if matches!(r.limits, RangeLimits::HalfOpen(_)) {
                    let x = &ix.expr;
                    let new: Expr = match (&r.start, &r.end) {
                        (Some(a), Some(b)) => parse_quote!((*rt_slice(&#x, #a, #b))),
                        (Some(a), None) => parse_quote!((*rt_slice_from(&#x, #a))),
                        (None, Some(b)) => parse_quote!((*rt_slice_to(&#x, #b))),
                        (None, None) => parse_quote!((*rt_slice_full(&#x))),
                    };
                    self.log.push("x[a..b] -> rt_slice(x, a, b) (may panic)".into());
                    *e = new;
                    self.visit_expr_mut(e);
                    return;
                }
            } }
        }
        if let Expr::Call(c) = e {
            if norm(c.func.to_token_stream()) == "u64 :: from_le_bytes" { c.func = parse_quote!(u64_from_le_bytes); self.log.push("u64::from_le_bytes -> u64_from_le_bytes".into()); }
            if norm(c.func.to_token_stream()) == "u32 :: from_le_bytes" { c.func = parse_quote!(u32_from_le_bytes); self.log.push("u32::from_le_bytes -> u32_from_le_bytes".into()); }
        }
        if let Expr::MethodCall(m) = e {
            // a range used as an iterator
            if let Expr::Range(ExprRange { start: Some(a), end: Some(b), limits: RangeLimits::HalfOpen(_), .. }) = strip(&m.receiver) {
                let r: Expr = parse_quote!(vx_range(#a, #b));
                let n = m.method.to_string();
                if matches!(n.as_str(), "map" | "filter" | "collect" | "for_each" | "all" | "any" | "zip" | "into_iter" | "into_par_iter") {
                    self.log.push("(a..b) as an iterator -> vx_range(a, b)".into());
                    if n.starts_with("into") { *e = r; self.visit_expr_mut(e); return; }
                    m.receiver = Box::new(r);
                    if n == "collect" { m.turbofish = None; }
                }
            }
        }
        if let Expr::MethodCall(m) = e {
            let n = m.method.to_string();
            if n == "to_le_bytes" { m.method = syn::Ident::new("vx_le_bytes", m.method.span()); self.log.push(".to_le_bytes() -> .vx_le_bytes()".into()); }
            if n == "split_at_mut" && self.d.rtindex { m.method = syn::Ident::new("rt_split_at_mut", m.method.span()); self.log.push(".split_at_mut() -> .rt_split_at_mut() (may panic)".into()); }
            if n == "split_at" && self.d.rtindex { m.method = syn::Ident::new("rt_split_at", m.method.span()); self.log.push(".split_at() -> .rt_split_at() (may panic)".into()); }
            if matches!(n.as_str(), "chunks_exact" | "chunks" | "windows") { m.method = syn::Ident::new(&format!("vx_{}", n), m.method.span()); self.log.push(format!(".{}() -> .vx_{}()", n, n)); }
            if m.args.is_empty() && (n == "iter" || n == "into_iter") {
                m.method = syn::Ident::new(if n == "iter" { "it" } else { "into_it" }, m.method.span());
                self.log.push(format!(".{}() -> .{}()", n, m.method));
            }
        }
        visit_mut::visit_expr_mut(self, e);
        if self.d.fops { self.fop(e); }
    }
}
trait ParseTy { fn parse_ty(ts: TokenStream) -> Res<Pat>; }
impl ParseTy for Pat {
    fn parse_ty(ts: TokenStream) -> Res<Pat> {
        let c: ExprClosure = parse2(quote!(|#ts| {})).map_err(|e| e.to_string())?;
        Ok(c.inputs.into_iter().next().unwrap())
    }
}

struct Extracted { text: String, log: Vec<String>, soft: Vec<String>, closures: Vec<String>, hash: String, lines: (usize, usize), name: String }

fn hash(s: &str) -> String { let mut h = 0xcbf29ce484222325u64; for b in s.bytes() { h ^= b as u64; h = h.wrapping_mul(0x100000001b3); } format!("{:016x}", h) }

/// whether an expression means the same in a contract, and its type if that is bool
fn plain(e: &Expr) -> Option<&'static str> {
    fn ok(e: &Expr) -> bool { match e {
        Expr::Paren(p) => ok(&p.expr), Expr::Path(_) | Expr::Lit(_) => true, Expr::Field(f) => ok(&f.base),
        Expr::Unary(u) => matches!(u.op, UnOp::Deref(_) | UnOp::Not(_)) && ok(&u.expr),
        Expr::Reference(r) => r.mutability.is_none() && ok(&r.expr),
        Expr::Tuple(t) => t.elems.iter().all(ok),
        Expr::Binary(b) => matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_) | BinOp::Lt(_) | BinOp::Le(_) | BinOp::Gt(_) | BinOp::Ge(_) | BinOp::And(_) | BinOp::Or(_)) && ok(&b.left) && ok(&b.right),
        _ => false } }
    if !ok(e) { return None; }
    match e { Expr::Paren(p) => plain(&p.expr), Expr::Binary(_) => Some("bool"), Expr::Unary(u) if matches!(u.op, UnOp::Not(_)) => Some("bool"), _ => Some("_") }
}
/// pairs the closures found with the annotated ones: a longest common subsequence of what they are passed to
fn align(found: &[String], want: &[String]) -> Vec<Option<usize>> {
    let (n, m) = (found.len(), want.len());
    let mut t = vec![vec![0usize; m + 1]; n + 1];
    for i in (0..n).rev() { for j in (0..m).rev() { t[i][j] = if found[i] == want[j] { t[i + 1][j + 1] + 1 } else { t[i + 1][j].max(t[i][j + 1]) }; } }
    let mut r = vec![None; n];
    let (mut i, mut j) = (0, 0);
    while i < n && j < m { if found[i] == want[j] && t[i][j] == t[i + 1][j + 1] + 1 { r[i] = Some(j); i += 1; j += 1; } else if t[i + 1][j] >= t[i][j + 1] { i += 1; } else { j += 1; } }
    r
}

fn extract(repo: &str, d: &Directive, known: &BTreeMap<String, Vec<String>>) -> Res<Extracted> {
    let p = format!("{}/{}", repo, d.file);
    let src = std::fs::read_to_string(&p).map_err(|e| format!("{}: {}", p, e))?;
    let file = parse_file(&src).map_err(|e| format!("{}: {}", p, e))?;
    let mut path = d.path.clone();
    let mut log = vec![];
    let found: Vec<TokenStream>;
    let items: Vec<Item>;
    if path[0].starts_with("macro ") {
        // the body of the single rule of a macro, with its parameters replaced
        let mac = find_items(&file.items, &path[..1]);
        let ts = mac.into_iter().next().ok_or(format!("{} not found", path[0]))?;
        let body = ts.into_iter().filter_map(|t| match t { TokenTree::Group(g) => Some(g), _ => None }).nth(1).ok_or("macro body")?;
        // `$x` is two tokens
        let mut s = norm(body.stream());
        for (a, b) in &d.macro_args { s = s.replace(&format!("$ {} ", a), &format!("{} ", b)).replace(&format!("${} ", a), &format!("{} ", b)).replace(&format!("${}", a), b).replace(&format!("$ {}", a), b); log.push(format!("macro parameter ${} = {}", a, b)); }
        let f = parse_str::<File>(&s).map_err(|e| format!("macro body: {}", e))?;
        path.remove(0);
        found = find_items(&f.items, &path);
        items = f.items;
    } else {
        items = file.items.clone();
        found = find_items(&file.items, &path);
    }
    if found.len() != 1 { return Err(format!("{} matches for {} in {}", found.len(), d.path.join(" :: "), d.file)); }
    let ts = found.into_iter().next().unwrap();
    let mut attr_text = String::new();
    for (a, text) in &d.attrs {
        let want = norm_str(a)?;
        let has = items.iter().any(|it| { let (id, at) = match it { Item::Struct(x) => (x.ident.to_string(), &x.attrs), Item::Enum(x) => (x.ident.to_string(), &x.attrs), _ => return false }; path.last().unwrap().ends_with(&format!(" {}", id)) && at.iter().any(|x| norm(x.to_token_stream()).contains(&want)) });
        log.push(format!("attribute {} {}", want, if has { "present: its axiom is included" } else { "absent: its axiom is left out" }));
        if has { attr_text.push_str(text); }
    }
    let lines = { let v: Vec<_> = ts.clone().into_iter().collect(); (v.first().map_or(0, |t| t.span().start().line), v.last().map_or(0, |t| t.span().end().line)) };
    let mut s = norm(ts);
    let h = hash(&s);
    let bound;
    let d = if d.binds.is_empty() { d } else {
        let mut text = d.text.clone();
        for (name, init, fallback) in &d.binds {
            let want = format!(" = {} ;", norm_str(init)?);
            let var = s.match_indices(&want).next().and_then(|(i, _)| { let w: Vec<&str> = s[..i].split(' ').rev().take(3).collect(); if w.len() < 2 || w[0] == "_" { None } else if w[1] == "let" || (w[1] == "mut" && w.get(2) == Some(&"let")) { Some(w[0].to_string()) } else { None } });
            log.push(format!("${} is {}", name, var.clone().unwrap_or("not bound".into())));
            text = text.replace(&format!("${}", name), var.as_deref().unwrap_or(fallback));
        }
        bound = parse_directive(&text)?;
        &bound
    };
    // A function whose contract has a postcondition may lose a proof hint or a rewrite and still be decided: what its
    // body is checked against stays. Where it then fails, check.py reports that nothing was decided.
    let lenient = d.spec.contains("ensures") && d.path.last().unwrap().starts_with("fn ");
    let mut soft: Vec<String> = vec![];
    for (a, b, optional) in &d.substs {
        let a = norm_str(a).unwrap_or(a.split_whitespace().collect::<Vec<_>>().join(" "));
        let b = norm_str(b).unwrap_or(b.clone());
        let n = format!(" {} ", s).matches(&format!(" {} ", a)).count();
        if n == 0 { if *optional { continue; } let m = format!("`{}` not found in {}", a, d.path.join(" :: ")); if !lenient { return Err(m); } soft.push(m); continue; }
        // replace whole tokens only; neighbours share the blanks, so repeat
        let mut t = format!(" {} ", s);
        let from = format!(" {} ", a);
        let to = if b.is_empty() { " ".to_string() } else { format!(" {} ", b) };
        let mut pos = 0;
        while let Some(i) = t[pos..].find(&from) { let i = i + pos; t.replace_range(i..i + from.len(), &to); pos = i + to.len() - 1; }
        s = t.trim().to_string();
        log.push(format!("`{}` -> `{}` ({}x)", a, b, n));
    }
    for t in ["u8", "u16", "u32", "u64", "usize"] {
        let from = format!("{} :: max_value ( )", t);
        if s.contains(&from) { s = s.replace(&from, &format!("{} :: MAX", t)); log.push(format!("{} -> {}::MAX", from, t)); }
    }
    if s.contains("is_x86_feature_detected ! (") { s = s.replace("is_x86_feature_detected ! (", "vx_cpu_has ("); log.push("is_x86_feature_detected!(..) -> an arbitrary bool".into()); }
    { // Cow<'a, [T]> is the prelude's Cow<'a, T>
        let t: Vec<String> = s.split(' ').map(|x| x.to_string()).collect();
        let mut o: Vec<String> = vec![]; let mut i = 0; let mut n = 0;
        while i < t.len() {
            if t[i] == "Cow" && i + 1 < t.len() && t[i + 1] == "<" {
                let mut j = i + 2; o.push("Cow".into()); o.push("<".into());
                if t[j].starts_with('\'') { o.push(t[j].clone()); o.push(t[j + 1].clone()); j += 2; }
                if t[j] == "[" && t[j + 2] == "]" { o.push(t[j + 1].clone()); j += 3; n += 1; }
                i = j; continue;
            }
            o.push(t[i].clone()); i += 1;
        }
        if n > 0 { s = o.join(" "); log.push("Cow<'_, [T]> -> the prelude's Cow<'_, T>".into()); }
    }
    let name = d.path.last().unwrap().clone();
    if d.raw || !name.starts_with("fn ") {
        if let Some(r) = &d.rename { s = r.clone() + &s; }
        return Ok(Extracted { text: pretty(&s) + &attr_text, log, soft, closures: vec![], hash: h, lines, name });
    }
    let fixed = if s.contains("{") || true { s.clone() } else { s.clone() };
    let mut f: ItemFn = match parse_str::<ItemFn>(&fixed) { Ok(f) => f, Err(_) => { // methods with a receiver parse as ImplItemFn
        let m: ImplItemFn = parse_str(&fixed).map_err(|e| format!("{}: {}", name, e))?;
        ItemFn { attrs: vec![], vis: Visibility::Inherited, sig: m.sig, block: Box::new(m.block) } } };
    f.attrs.clear();
    let new_rw = |soft: Vec<String>| Rw { d, nloop: 0, nclo: 0, hosts: vec![], at_hits: vec![0; d.ats.len()], drop_hits: vec![0; d.drops.len()], log: vec![], err: vec![], soft, lenient, fresh: 0, found: vec![], cmap: None, auto: false, autos: vec![] };
    let mut rw = new_rw(vec![]);
    rw.block(&mut (*f.block).clone());
    let closures = rw.found.clone();
    let key = format!("{} :: {}", d.file, d.path.join(" :: "));
    let none = vec![];
    let want = known.get(&key).unwrap_or(&none);
    let mut rw = new_rw(vec![]);
    if !known.is_empty() && *want != closures {
        soft.push(format!("{}: its closures are passed to [{}], not [{}]", name, closures.join(", "), want.join(", ")));
        rw.cmap = Some(align(&closures, want)); rw.auto = true;
    }
    let mut block = (*f.block).clone();
    // `#at` anchors are matched against the original statements
    rw.block(&mut block);
    if !rw.err.is_empty() { return Err(format!("{}: {}", name, rw.err.join("; "))); }
    for (i, n) in rw.at_hits.iter().enumerate() { if *n != 1 { let m = format!("{}: statement `{}` found {} times", name, d.ats[i].1, n); if *n > 1 || !lenient { return Err(m); } soft.push(m); } }
    for (i, n) in rw.drop_hits.iter().enumerate() { if *n < 1 { let m = format!("{}: statement `{}` to drop not found", name, d.drops[i]); if !lenient { return Err(m); } soft.push(m); } }
    let want = d.nloops.unwrap_or(d.loops.len());
    if rw.nloop != want { let m = format!("{}: {} loops found, {} annotated", name, rw.nloop, want); if !lenient { return Err(m); } soft.push(m); }
    for k in d.closures.keys() { if match &rw.cmap { None => *k >= rw.nclo, Some(m) => !m.contains(&Some(*k)) } { let m = format!("{}: closure {} not found", name, k); if !lenient { return Err(m); } soft.push(m); } }
    soft.extend(rw.soft.iter().cloned());
    if !d.end.is_empty() {
        // a function without result: ghost code after its last statement
        if let Some(Stmt::Expr(_, semi)) = block.stmts.last_mut() { if semi.is_none() { *semi = Some(Default::default()); } }
        block.stmts.push(stmt_macro("__vx_end", 0));
    }
    if let Some((var, _)) = &d.tail {
        let id: syn::Ident = parse_str(var).map_err(|e| e.to_string())?;
        match block.stmts.pop() {
            Some(Stmt::Expr(e, None)) => {
                let st = match &f.sig.output { ReturnType::Type(_, t) if !norm(t.to_token_stream()).contains("impl ") => parse_quote!(let #id : #t = #e;), _ => parse_quote!(let #id = #e;) };
                block.stmts.push(st); block.stmts.push(stmt_macro("__vx_tail", 0)); block.stmts.push(Stmt::Expr(parse_quote!(#id), None)); rw.log.push(format!("result bound to {}", id)); }
            // the markers of a trailing ghost anchor
            _ => return Err(format!("{}: no tail expression", name)),
        }
    }
    log.extend({ let mut l = rw.log.clone(); l.dedup(); l });
    // signature
    let mut sig = match &d.sig { Some(s) => s.trim().to_string(), None => {
        let mut sg = f.sig.clone();
        if let Some(r) = &d.rename { sg.ident = parse_str(r).map_err(|e| e.to_string())?; }
        if let (Some(r), ReturnType::Type(_, t)) = (&d.ret, f.sig.output.clone()) {
            let wc = sg.generics.where_clause.take();
            sg.output = ReturnType::Default;
            format!("{} -> ({}: {}) {}", norm(sg.to_token_stream()), r, norm(t.to_token_stream()), wc.map_or(String::new(), |w| norm(w.to_token_stream())))
        } else { norm(sg.to_token_stream()) }
    } };
    if d.sig.is_some() { log.push(format!("signature `{}` -> `{}`", norm(f.sig.to_token_stream()), sig)); }
    if let Some(r) = &d.rename { if d.sig.is_none() { log.push(format!("{} renamed to {}", f.sig.ident, r)); } }
    sig = sig.replace("'static ", "'static ");
    let mut body = pretty(&norm(block.to_token_stream()));
    // ghost code
    let sub = |body: &mut String, mark: String, text: &str| { *body = body.replace(&mark, text); };
    sub(&mut body, "__VX".into(), "__VX");
    let all = |name: &str, k: usize| format!("{} ! ( {} ) ;", name, k);
    let all2 = |name: &str, k: usize| format!("{}! ( {} ) ;", name, k);
    for k in 0..rw.nloop {
        let e = BTreeMap::new();
        let l = d.loops.get(&k).unwrap_or(&e);
        let g = |w: &str| l.get(w).map_or("", |s| s.as_str());
        for f in [all, all2] {
            for (mark, w) in [("__vx_before", "before"), ("__vx_after", "after"), ("__vx_en", "enter"), ("__vx_lb", "begin"), ("__vx_le", "end")] { sub(&mut body, f(mark, k), g(w)); }
            // the invariant goes in front of the brace
            let m = f("__vx_inv", k);
            while let Some(i) = body.find(&m) {
                let b = body[..i].rfind('{').unwrap();
                let inv = g("inv").to_string();
                body.replace_range(b..i + m.len(), &format!("\n{}\n{{", inv));
            }
        }
    }
    for (k, (ret, _, spec)) in &d.closures {
        for f in [all, all2] {
            let m = f("__vx_clo", *k);
            while let Some(i) = body.find(&m) {
                let b = body[..i].rfind('{').unwrap();
                let t = if ret.is_empty() { format!("\n{}\n{{", spec) } else { format!("-> {}\n{}\n{{", ret, spec) };
                body.replace_range(b..i + m.len(), &t);
            }
        }
    }
    for (i, spec) in rw.autos.iter().enumerate() { for f in [all, all2] {
        let m = f("__vx_auto", i);
        while let Some(x) = body.find(&m) { let b = body[..x].rfind('{').unwrap(); body.replace_range(b..x + m.len(), &format!("{} {{", spec)); }
    } }
    for (i, (_, _, t)) in d.ats.iter().enumerate() { for f in [all, all2] { sub(&mut body, f("__vx_at", i), t); } }
    if let Some((_, t)) = &d.tail { for f in [all, all2] { sub(&mut body, f("__vx_tail", 0), t); } }
    for f in [all, all2] { sub(&mut body, f("__vx_end", 0), &d.end); }
    if !d.begin.is_empty() { let i = body.find('{').unwrap(); body.insert_str(i + 1, &format!("\n{}", d.begin)); }
    if let Some(i) = body.find('{') { body.insert_str(i + 1, " /*VXENTRY*/"); }
    if body.contains("__vx_") { return Err(format!("{}: unresolved marker in\n{}", name, body)); }
    Ok(Extracted { text: format!("    {}\n{}\n{}", sig, d.spec, body), log, soft, closures, hash: h, lines, name })
}

fn js(s: &str) -> String { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\t' => o.push_str("\\t"), c if (c as u32) < 32 => {} c => o.push(c) } } o.push('"'); o }

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (repo, tpl, out, map) = (&a[1], &a[2], &a[3], &a[4]);
    let dir = std::path::Path::new(tpl).parent().unwrap().to_path_buf();
    let mut t = std::fs::read_to_string(tpl).unwrap();
    // includes
    loop {
        let Some(i) = t.find("/*@include ") else { break };
        let e = i + t[i..].find("@*/").unwrap();
        let name = t[i + 11..e].trim().to_string();
        let mut w = name.split_whitespace();
        let fname = w.next().unwrap();
        let mut inc = std::fs::read_to_string(dir.join(fname)).unwrap_or_else(|_| panic!("include {}", name));
        for kv in w { let (k, v) = kv.split_once('=').expect("include parameter"); inc = inc.replace(&format!("@{}@", k), v); }
        t.replace_range(i..e + 3, &inc);
    }
    let mut known: BTreeMap<String, Vec<String>> = BTreeMap::new();
    if let Ok(t) = std::fs::read_to_string(dir.join("closures.txt")) { for l in t.lines() { if let Some((k, v)) = l.split_once('\t') { known.insert(k.into(), v.split(',').map(|x| x.to_string()).collect()); } } }
    let mut res = String::new();
    let mut fns: Vec<String> = vec![];
    let mut lost: Vec<String> = vec![];
    let mut rest = t.as_str();
    while let Some(i) = rest.find("/*@ ") {
        res.push_str(&rest[..i]);
        let e = i + rest[i..].find("@*/").expect("unterminated /*@");
        let text = &rest[i + 4..e];
        rest = &rest[e + 3..];
        let r = parse_directive(text).and_then(|d| extract(repo, &d, &known).map(|x| (d, x)));
        match r {
            Ok((d, x)) => {
                let begin = res.lines().count() + 1;
                res.push_str("// from the source: "); res.push_str(&d.file); res.push_str(" :: "); res.push_str(&d.path.join(" :: ")); res.push('\n');
                res.push_str(&x.text);
                let end = res.lines().count();
                fns.push(format!("{{\"file\":{},\"item\":{},\"name\":{},\"hash\":{},\"src_lines\":[{},{}],\"out_lines\":[{},{}],\"closures\":[{}],\"soft\":[{}],\"rewrites\":[{}]}}", js(&d.file), js(&d.path.join(" :: ")), js(&x.name), js(&x.hash), x.lines.0, x.lines.1, begin, end, x.closures.iter().map(|s| js(s)).collect::<Vec<_>>().join(","), x.soft.iter().map(|s| js(s)).collect::<Vec<_>>().join(","), x.log.iter().map(|s| js(s)).collect::<Vec<_>>().join(",")));
            }
            Err(m) => { eprintln!("LOST {}", m); lost.push(m); }
        }
    }
    res.push_str(rest);
    std::fs::write(out, res).unwrap();
    std::fs::write(map, format!("{{\"functions\":[{}],\"lost\":[{}]}}", fns.join(",\n"), lost.iter().map(|s| js(s)).collect::<Vec<_>>().join(","))).unwrap();
    std::process::exit(if lost.is_empty() { 0 } else { 3 });
}
