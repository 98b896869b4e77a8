//! vx: mechanical extraction of real functions from /repo into a Verus file.
//!
//! vx REPO TEMPLATE OUT [--canary start]
//!
//! The template is a Verus file with `//@` directives (see DESIGN.md, "The extractor").
//! Everything that is emitted for a `//@fn` comes from the current source text in REPO, after the
//! generic, meaning-preserving rewrites listed in DESIGN.md and the unit's own `//@rw` rules.
//! Exit codes: 0 ok; 3 lost anchor (a named item, loop or hint position is not there any more).
use proc_macro2::{Delimiter, Group, TokenStream, TokenTree};
use quote::{ToTokens, quote};
use std::collections::HashMap;
use std::io::Write;
use std::process::{Command, Stdio};
use syn::visit_mut::{self, VisitMut};
use syn::{Block, Expr, ImplItem, Item, Pat, Stmt};

fn lost(msg: String) -> ! {
    println!("LOST-ANCHOR: {msg}");
    std::process::exit(3)
}

fn norm(ts: &str) -> String {
    ts.chars().filter(|c| !c.is_whitespace()).collect()
}

// ---------------------------------------------------------------- source lookup
struct Source {
    file: syn::File,
}

fn substitute(ts: TokenStream, subst: &HashMap<String, TokenStream>) -> TokenStream {
    let mut out = vec![];
    let mut it = ts.into_iter().peekable();
    while let Some(t) = it.next() {
        match t {
            TokenTree::Punct(p) if p.as_char() == '$' => match it.peek() {
                Some(TokenTree::Ident(i)) => {
                    let n = i.to_string();
                    it.next();
                    if let Some(r) = subst.get(&n) {
                        out.extend(r.clone());
                    } else {
                        out.push(TokenTree::Ident(proc_macro2::Ident::new(
                            &format!("__meta_{n}"),
                            proc_macro2::Span::call_site(),
                        )));
                    }
                }
                Some(TokenTree::Group(_)) => {
                    // repetition: drop the group, separators and the operator
                    it.next();
                    while let Some(TokenTree::Punct(p)) = it.peek() {
                        let c = p.as_char();
                        it.next();
                        if c == '*' || c == '+' || c == '?' {
                            break;
                        }
                    }
                }
                _ => out.push(TokenTree::Punct(p)),
            },
            TokenTree::Group(g) => {
                let mut n = Group::new(g.delimiter(), substitute(g.stream(), subst));
                n.set_span(g.span());
                out.push(TokenTree::Group(n));
            }
            o => out.push(o),
        }
    }
    out.into_iter().collect()
}

/// Cut a token stream into things that start like items and parse what parses.
fn parse_items_leniently(ts: TokenStream) -> Vec<Item> {
    let toks: Vec<TokenTree> = ts.into_iter().collect();
    let mut items = vec![];
    let mut i = 0;
    while i < toks.len() {
        let is_start = match &toks[i] {
            TokenTree::Ident(id) => matches!(
                id.to_string().as_str(),
                "impl" | "fn" | "struct" | "enum" | "pub" | "type" | "const" | "unsafe" | "static"
            ),
            _ => false,
        };
        if !is_start {
            i += 1;
            continue;
        }
        let mut j = i;
        let mut done = false;
        while j < toks.len() {
            let end = match &toks[j] {
                TokenTree::Group(g) if g.delimiter() == Delimiter::Brace => true,
                TokenTree::Punct(p) if p.as_char() == ';' => true,
                _ => false,
            };
            j += 1;
            if end {
                done = true;
                break;
            }
        }
        if !done {
            break;
        }
        let part: TokenStream = toks[i..j].iter().cloned().collect();
        if let Ok(it) = syn::parse2::<Item>(part) {
            items.push(it);
            i = j;
        } else {
            i += 1;
        }
    }
    items
}

fn load(repo: &str, path: &str, macro_name: Option<&str>, subst: &HashMap<String, TokenStream>) -> Source {
    let p = format!("{repo}/{path}");
    let text = std::fs::read_to_string(&p).unwrap_or_else(|e| lost(format!("file {p}: {e}")));
    let file = syn::parse_file(&text).unwrap_or_else(|e| lost(format!("file {p} does not parse: {e}")));
    let Some(m) = macro_name else { return Source { file } };
    for it in &file.items {
        if let Item::Macro(im) = it {
            if im.ident.as_ref().is_some_and(|i| i == m) {
                let mut items = vec![];
                for t in im.mac.tokens.clone() {
                    if let TokenTree::Group(g) = t {
                        if g.delimiter() == Delimiter::Brace {
                            items.extend(parse_items_leniently(substitute(g.stream(), subst)));
                        }
                    }
                }
                return Source { file: syn::File { shebang: None, attrs: vec![], items } };
            }
        }
    }
    lost(format!("macro {m} in {path}"))
}

fn type_name(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        syn::Type::Reference(r) => type_name(&r.elem),
        _ => norm(&t.to_token_stream().to_string()),
    }
}

fn find_fn(items: &[Item], sel: &str) -> Option<(syn::Signature, Block)> {
    // "name", "Type::name", "Type:Trait::name"
    let (ty, name) = match sel.rsplit_once("::") {
        Some((a, b)) => (Some(a), b),
        None => (None, sel),
    };
    let (ty, tr) = match ty {
        Some(t) => match t.split_once(':') {
            Some((a, b)) => (Some(a), Some(b)),
            None => (Some(t), None),
        },
        None => (None, None),
    };
    for it in items {
        match it {
            Item::Fn(f) if ty.is_none() && f.sig.ident == name => {
                return Some((f.sig.clone(), (*f.block).clone()));
            }
            Item::Impl(im) if ty.is_some() => {
                if type_name(&im.self_ty) != ty.unwrap() {
                    continue;
                }
                if let Some(tr) = tr {
                    if im.trait_.as_ref().is_none_or(|(_, p, _)| p.segments.last().unwrap().ident != tr) {
                        continue;
                    }
                }
                for x in &im.items {
                    if let ImplItem::Fn(f) = x {
                        if f.sig.ident == name {
                            return Some((f.sig.clone(), f.block.clone()));
                        }
                    }
                }
            }
            Item::Trait(t) if ty.is_some() && t.ident == ty.unwrap() => {
                for x in &t.items {
                    if let syn::TraitItem::Fn(f) = x {
                        if f.sig.ident == name {
                            if let Some(b) = &f.default {
                                return Some((f.sig.clone(), b.clone()));
                            }
                        }
                    }
                }
            }
            Item::Mod(m) => {
                if let Some((_, its)) = &m.content {
                    if m.ident != "tests" {
                        if let Some(r) = find_fn(its, sel) {
                            return Some(r);
                        }
                    }
                }
            }
            _ => {}
        }
    }
    None
}

fn find_item(items: &[Item], kind: &str, name: &str) -> Option<Item> {
    for it in items {
        let hit = match it {
            Item::Struct(s) => kind == "struct" && s.ident == name,
            Item::Enum(s) => kind == "enum" && s.ident == name,
            Item::Const(s) => kind == "const" && s.ident == name,
            Item::Type(s) => kind == "type" && s.ident == name,
            Item::Impl(im) => {
                for x in &im.items {
                    if let ImplItem::Const(c) = x {
                        if kind == "const" && c.ident == name {
                            let (i, t, e) = (&c.ident, &c.ty, &c.expr);
                            return Some(syn::parse_quote!(const #i: #t = #e;));
                        }
                    }
                }
                false
            }
            Item::Mod(m) => {
                if let Some((_, its)) = &m.content {
                    if let Some(r) = find_item(its, kind, name) {
                        return Some(r);
                    }
                }
                false
            }
            _ => false,
        };
        if hit {
            return Some(it.clone());
        }
    }
    None
}

/// The value of a constant expression (integers, shifts, bit operations, casts, other constants of
/// the file, discriminants of its enums).
fn fold(items: &[Item], e: &Expr, bits: u32) -> Option<i128> {
    let mask = |v: i128| if bits >= 127 { v } else { v & ((1i128 << bits) - 1) };
    Some(match strip_paren(e) {
        Expr::Lit(l) => match &l.lit {
            syn::Lit::Int(i) => i.base10_parse().ok()?,
            syn::Lit::Byte(b) => b.value() as i128,
            _ => return None,
        },
        Expr::Cast(c) => fold(items, &c.expr, bits)?,
        Expr::Unary(u) => match u.op {
            syn::UnOp::Not(_) => mask(!fold(items, &u.expr, bits)?),
            _ => return None,
        },
        Expr::Binary(b) => {
            let (x, y) = (fold(items, &b.left, bits)?, fold(items, &b.right, bits)?);
            use syn::BinOp::*;
            match b.op {
                Add(_) => x.checked_add(y)?,
                Sub(_) => x.checked_sub(y)?,
                Mul(_) => x.checked_mul(y)?,
                Shl(_) => mask(x.checked_shl(y.try_into().ok()?)?),
                Shr(_) => x.checked_shr(y.try_into().ok()?)?,
                BitAnd(_) => x & y,
                BitOr(_) => x | y,
                BitXor(_) => x ^ y,
                _ => return None,
            }
        }
        Expr::Path(p) => {
            let s: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
            match &s[..] {
                [n] => match find_item(items, "const", n)? {
                    Item::Const(c) => fold(items, &c.expr, bits_of(&c.ty))?,
                    _ => return None,
                },
                [en, v] => match find_item(items, "enum", en)? {
                    Item::Enum(x) => {
                        let mut d = -1;
                        for w in &x.variants {
                            d = match &w.discriminant {
                                Some((_, e)) => fold(items, e, 127)?,
                                None => d + 1,
                            };
                            if w.ident == v {
                                return Some(d);
                            }
                        }
                        return None;
                    }
                    _ => return None,
                },
                _ => return None,
            }
        }
        _ => return None,
    })
}
fn bits_of(t: &syn::Type) -> u32 {
    match norm(&t.to_token_stream().to_string()).as_str() {
        "u8" => 8,
        "u16" => 16,
        "u32" => 32,
        "u64" | "usize" => 64,
        _ => 127,
    }
}

// ---------------------------------------------------------------- pattern rules
#[derive(Clone)]
struct Rule {
    pat: Expr,
    repl: TokenStream,
    required: bool,
    text: String,
}

fn meta(ts: TokenStream) -> TokenStream {
    // $x -> __m_x
    let mut out = vec![];
    let mut it = ts.into_iter().peekable();
    while let Some(t) = it.next() {
        match t {
            TokenTree::Punct(p) if p.as_char() == '$' => {
                if let Some(TokenTree::Ident(i)) = it.next() {
                    out.push(TokenTree::Ident(proc_macro2::Ident::new(
                        &format!("__m_{i}"),
                        proc_macro2::Span::call_site(),
                    )));
                }
            }
            TokenTree::Group(g) => out.push(TokenTree::Group(Group::new(g.delimiter(), meta(g.stream())))),
            o => out.push(o),
        }
    }
    out.into_iter().collect()
}

fn parse_rule(s: &str) -> Rule {
    let (s, required) = match s.strip_prefix('!') {
        Some(r) => (r, true),
        None => (s, false),
    };
    let (a, b) = s.split_once("==>").unwrap_or_else(|| panic!("bad rule {s}"));
    let pat: Expr = syn::parse2(meta(a.parse().unwrap())).unwrap_or_else(|e| panic!("rule pattern {a}: {e}"));
    Rule { pat, repl: meta(b.parse().unwrap()), required, text: s.to_string() }
}

type Binds = HashMap<String, Expr>;

fn strip_paren(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip_paren(&p.expr),
        Expr::Group(p) => strip_paren(&p.expr),
        _ => e,
    }
}

fn m(p: &Expr, e: &Expr, b: &mut Binds) -> bool {
    let p = strip_paren(p);
    let e = strip_paren(e);
    if let Expr::Path(pp) = p {
        if let Some(id) = pp.path.get_ident() {
            let id = id.to_string();
            if let Some(n) = id.strip_prefix("__m_") {
                if let Some(old) = b.get(n) {
                    return norm(&old.to_token_stream().to_string()) == norm(&e.to_token_stream().to_string());
                }
                b.insert(n.to_string(), e.clone());
                return true;
            }
        }
    }
    macro_rules! all {
        ($x:expr, $y:expr) => {
            $x.len() == $y.len() && $x.iter().zip($y.iter()).all(|(q, f)| m(q, f, b))
        };
    }
    match (p, e) {
        (Expr::MethodCall(q), Expr::MethodCall(f)) => {
            q.method == f.method && m(&q.receiver, &f.receiver, b) && all!(q.args, f.args)
        }
        (Expr::Call(q), Expr::Call(f)) => m(&q.func, &f.func, b) && all!(q.args, f.args),
        (Expr::Field(q), Expr::Field(f)) => q.member == f.member && m(&q.base, &f.base, b),
        (Expr::Index(q), Expr::Index(f)) => m(&q.expr, &f.expr, b) && m(&q.index, &f.index, b),
        (Expr::Reference(q), Expr::Reference(f)) => {
            q.mutability.is_some() == f.mutability.is_some() && m(&q.expr, &f.expr, b)
        }
        (Expr::Unary(q), Expr::Unary(f)) => q.op == f.op && m(&q.expr, &f.expr, b),
        (Expr::Binary(q), Expr::Binary(f)) => q.op == f.op && m(&q.left, &f.left, b) && m(&q.right, &f.right, b),
        (Expr::Assign(q), Expr::Assign(f)) => m(&q.left, &f.left, b) && m(&q.right, &f.right, b),
        (Expr::Cast(q), Expr::Cast(f)) => q.ty == f.ty && m(&q.expr, &f.expr, b),
        (Expr::Try(q), Expr::Try(f)) => m(&q.expr, &f.expr, b),
        (Expr::Tuple(q), Expr::Tuple(f)) => all!(q.elems, f.elems),
        (Expr::Array(q), Expr::Array(f)) => all!(q.elems, f.elems),
        (Expr::Range(q), Expr::Range(f)) => {
            let o = |x: &Option<Box<Expr>>, y: &Option<Box<Expr>>, b: &mut Binds| match (x, y) {
                (None, None) => true,
                (Some(x), Some(y)) => m(x, y, b),
                _ => false,
            };
            std::mem::discriminant(&q.limits) == std::mem::discriminant(&f.limits)
                && o(&q.start, &f.start, b)
                && o(&q.end, &f.end, b)
        }
        (Expr::Closure(q), Expr::Closure(f)) => {
            q.inputs.len() == f.inputs.len()
                && q.inputs.iter().zip(f.inputs.iter()).all(|(x, y)| {
                    if let Pat::Ident(i) = x {
                        if let Some(n) = i.ident.to_string().strip_prefix("__m_") {
                            b.insert(n.to_string(), Expr::Verbatim(y.to_token_stream()));
                            return true;
                        }
                    }
                    norm(&x.to_token_stream().to_string()) == norm(&y.to_token_stream().to_string())
                })
                && m(&q.body, &f.body, b)
        }
        (Expr::Match(q), Expr::Match(f)) => {
            let t = |x: &dyn ToTokens| norm(&x.to_token_stream().to_string());
            q.arms.len() == f.arms.len()
                && m(&q.expr, &f.expr, b)
                && q.arms.iter().zip(f.arms.iter()).all(|(x, y)| x.guard.is_none() && y.guard.is_none() && t(&x.pat) == t(&y.pat) && m(&x.body, &y.body, b))
        }
        (Expr::Return(q), Expr::Return(f)) => match (&q.expr, &f.expr) {
            (None, None) => true,
            (Some(x), Some(y)) => m(x, y, b),
            _ => false,
        },
        (Expr::Block(q), Expr::Block(f)) if q.block.stmts.len() == 1 && f.block.stmts.len() == 1 => {
            match (&q.block.stmts[0], &f.block.stmts[0]) {
                (Stmt::Expr(x, s1), Stmt::Expr(y, s2)) => s1.is_some() == s2.is_some() && m(x, y, b),
                (x, y) => norm(&x.to_token_stream().to_string()) == norm(&y.to_token_stream().to_string()),
            }
        }
        _ => {
            std::mem::discriminant(p) == std::mem::discriminant(e)
                && norm(&p.to_token_stream().to_string()) == norm(&e.to_token_stream().to_string())
        }
    }
}

fn apply_binds(ts: TokenStream, b: &Binds) -> TokenStream {
    let mut out = vec![];
    for t in ts {
        match t {
            TokenTree::Ident(i) => {
                let s = i.to_string();
                match s.strip_prefix("__m_").and_then(|n| b.get(n)) {
                    Some(e) => {
                        let simple = matches!(
                            e,
                            Expr::Path(_) | Expr::Lit(_) | Expr::Field(_) | Expr::Call(_) | Expr::MethodCall(_) | Expr::Index(_) | Expr::Block(_) | Expr::Macro(_) | Expr::Verbatim(_)
                        );
                        if simple {
                            out.extend(e.to_token_stream());
                        } else {
                            out.extend(quote!((#e)));
                        }
                    }
                    None => out.push(TokenTree::Ident(i)),
                }
            }
            TokenTree::Group(g) => out.push(TokenTree::Group(Group::new(g.delimiter(), apply_binds(g.stream(), b)))),
            o => out.push(o),
        }
    }
    out.into_iter().collect()
}

struct Rewriter<'a> {
    rules: &'a [Rule],
    hits: Vec<usize>,
}
impl VisitMut for Rewriter<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // outermost first, so that long chains can be named as a whole; then children
        for round in 0..4 {
            let mut changed = false;
            for (i, r) in self.rules.iter().enumerate() {
                let mut b = Binds::new();
                if m(&r.pat, e, &mut b) {
                    let ts = apply_binds(r.repl.clone(), &b);
                    let new: Expr = syn::parse2(ts.clone()).unwrap_or_else(|x| panic!("rule result {ts}: {x}"));
                    if new == *e {
                        continue;
                    }
                    *e = new;
                    self.hits[i] += 1;
                    changed = true;
                    break;
                }
            }
            if !changed || round == 3 {
                break;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(sm) = s {
            let mac = sm.mac.clone();
            let semi = sm.semi_token;
            let mut e = Expr::Macro(syn::ExprMacro { attrs: vec![], mac: mac.clone() });
            self.visit_expr_mut(&mut e);
            if let Expr::Macro(x) = &e {
                if x.mac == mac {
                    return;
                }
            }
            *s = Stmt::Expr(e, Some(semi.unwrap_or_default()));
            return;
        }
        visit_mut::visit_stmt_mut(self, s);
    }
}

// ---------------------------------------------------------------- generic normalisation
fn is_noop_expr(e: &Expr) -> bool {
    match strip_paren(e) {
        Expr::Tuple(t) => t.elems.is_empty(),
        Expr::Lit(_) => true,
        Expr::Path(p) => p.path.get_ident().is_some(),
        Expr::Block(b) => b.label.is_none() && b.block.stmts.iter().all(is_noop),
        Expr::Reference(r) => is_noop_expr(&r.expr),
        Expr::Field(f) => is_noop_expr(&f.base),
        Expr::Call(c) => {
            // std::hint::black_box(x), drop(()), std::mem::drop(())
            let f = norm(&c.func.to_token_stream().to_string());
            (f.ends_with("black_box") || f.ends_with("drop")) && c.args.iter().all(|a| match strip_paren(a) {
                Expr::Tuple(t) => t.elems.is_empty(),
                Expr::Lit(_) => true,
                _ => false,
            })
        }
        Expr::Binary(b) => {
            !matches!(
                b.op,
                syn::BinOp::AddAssign(_) | syn::BinOp::SubAssign(_) | syn::BinOp::MulAssign(_) | syn::BinOp::DivAssign(_)
                    | syn::BinOp::RemAssign(_) | syn::BinOp::BitXorAssign(_) | syn::BinOp::BitAndAssign(_)
                    | syn::BinOp::BitOrAssign(_) | syn::BinOp::ShlAssign(_) | syn::BinOp::ShrAssign(_)
            ) && matches!(strip_paren(&b.left), Expr::Lit(_))
                && matches!(strip_paren(&b.right), Expr::Lit(_))
        }
        Expr::If(i) => {
            matches!(strip_paren(&i.cond), Expr::Lit(syn::ExprLit { lit: syn::Lit::Bool(b), .. }) if !b.value)
                && i.else_branch.is_none()
        }
        _ => false,
    }
}
fn is_noop(s: &Stmt) -> bool {
    match s {
        Stmt::Expr(e, Some(_)) => is_noop_expr(e),
        Stmt::Expr(e, None) => matches!(e, Expr::Block(_) | Expr::If(_)) && is_noop_expr(e),
        Stmt::Local(l) => {
            let wild = match &l.pat {
                Pat::Wild(_) => true,
                Pat::Ident(i) => i.ident.to_string().starts_with('_') && i.subpat.is_none(),
                Pat::Type(t) => matches!(&*t.pat, Pat::Wild(_)),
                _ => false,
            };
            wild && l.init.as_ref().is_some_and(|i| i.diverge.is_none() && is_noop_expr(&i.expr))
        }
        _ => false,
    }
}

fn uses_ident(block: &Block, skip: usize, name: &str) -> bool {
    fn walk(ts: TokenStream, n: &str) -> bool {
        ts.into_iter().any(|t| match t {
            TokenTree::Ident(i) => i == n,
            TokenTree::Group(g) => walk(g.stream(), n),
            _ => false,
        })
    }
    block.stmts.iter().enumerate().any(|(i, s)| i != skip && walk(s.to_token_stream(), name))
}

struct Normalise {
    loops: usize,
    fresh: usize,
    /// iterated expressions whose loops become index loops
    forix: Vec<String>,
    /// local closures that are replaced by their body where they are called
    inline: Vec<String>,
    derefmatch: Vec<String>,
}
/// { let p = x?; rest } where rest does not leave the block
fn let_try(e: &Expr) -> Option<(Pat, Expr, Vec<Stmt>)> {
    let Expr::Block(b) = strip_paren(e) else { return None };
    let (Stmt::Local(l), rest) = b.block.stmts.split_first()? else { return None };
    let init = l.init.as_ref()?;
    let Expr::Try(t) = strip_paren(&init.expr) else { return None };
    let tail = Expr::Block(syn::ExprBlock { attrs: vec![], label: None, block: Block { brace_token: Default::default(), stmts: rest.to_vec() } });
    if init.diverge.is_some() || leaves(&t.expr) || leaves(&tail) {
        return None;
    }
    Some((l.pat.clone(), (*t.expr).clone(), rest.to_vec()))
}
fn lit_pat(p: &Pat) -> bool {
    match p {
        Pat::Lit(_) | Pat::Range(_) => true,
        Pat::Or(o) => o.cases.iter().any(lit_pat),
        _ => false,
    }
}
struct InlineCalls<'a> {
    name: &'a str,
    closure: &'a syn::ExprClosure,
}
impl VisitMut for InlineCalls<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Call(c) = e
            && let Expr::Path(p) = &*c.func
            && p.path.is_ident(self.name)
        {
            // a parameter that is called like its argument needs no binding
            let (pats, args): (Vec<_>, Vec<_>) = self
                .closure
                .inputs
                .iter()
                .map(|p| match p { Pat::Type(t) => (*t.pat).clone(), o => o.clone() })
                .zip(c.args.iter())
                .filter(|(p, a)| !(matches!(p, Pat::Ident(i) if i.subpat.is_none()) && p.to_token_stream().to_string() == a.to_token_stream().to_string()))
                .unzip();
            let body = &self.closure.body;
            *e = match (pats.len(), args.len()) {
                (0, 0) => syn::parse_quote!({ #body }),
                (1, 1) => { let (p, a) = (&pats[0], &args[0]); syn::parse_quote!({ let #p = #a; #body }) }
                _ => syn::parse_quote!({ let (#(#pats),*) = (#(#args),*); #body }),
            };
        }
    }
}
fn inline_closure(b: &mut Block, name: &str) -> bool {
    let Some(k) = b.stmts.iter().position(|s| matches!(s, Stmt::Local(l) if matches!(&l.pat, Pat::Ident(i) if i.ident == name) && matches!(&l.init, Some(i) if matches!(&*i.expr, Expr::Closure(_))))) else { return false };
    let Stmt::Local(l) = b.stmts.remove(k) else { unreachable!() };
    let Expr::Closure(c) = *l.init.unwrap().expr else { unreachable!() };
    let mut v = InlineCalls { name, closure: &c };
    for s in &mut b.stmts[k..] {
        v.visit_stmt_mut(s);
    }
    true
}
fn replace_ident(ts: TokenStream, name: &syn::Ident, by: &TokenStream) -> TokenStream {
    // Not the names of fields and methods: they follow a dot (of which there is one).
    let mut dot = false;
    let mut prev_dot = false;
    ts.into_iter()
        .flat_map(|t| {
            let after_dot = dot && !prev_dot;
            prev_dot = dot;
            dot = matches!(&t, TokenTree::Punct(p) if p.as_char() == '.');
            match t {
                TokenTree::Ident(i) if i == *name && !after_dot => by.clone(),
                TokenTree::Group(g) => TokenTree::Group(Group::new(g.delimiter(), replace_ident(g.stream(), name, by))).into(),
                o => o.into(),
            }
        })
        .collect()
}
impl Normalise {
    fn fresh(&mut self, p: &str) -> syn::Ident {
        self.fresh += 1;
        quote::format_ident!("{}{}", p, self.fresh)
    }
    /// `&x` sub-patterns become `x__r`, and the returned statements bind `x = *x__r`.
    fn deref_pats(&mut self, p: &mut Pat, out: &mut Vec<Stmt>) {
        match p {
            Pat::Reference(r) => {
                if let Pat::Ident(i) = &*r.pat {
                    let id = i.ident.clone();
                    let f = quote::format_ident!("{}__r", id);
                    out.push(syn::parse_quote!(let #id = *#f;));
                    *p = Pat::Ident(syn::PatIdent { attrs: vec![], by_ref: None, mutability: None, ident: f, subpat: None });
                } else if let Pat::Tuple(_) = &*r.pat {
                    let f = self.fresh("tup__r");
                    let inner = (*r.pat).clone();
                    out.push(syn::parse_quote!(let #inner = *#f;));
                    *p = Pat::Ident(syn::PatIdent { attrs: vec![], by_ref: None, mutability: None, ident: f, subpat: None });
                }
            }
            Pat::Tuple(t) => t.elems.iter_mut().for_each(|x| self.deref_pats(x, out)),
            Pat::TupleStruct(t) => t.elems.iter_mut().for_each(|x| self.deref_pats(x, out)),
            Pat::Ident(i) => {
                if let Some((_, s)) = &mut i.subpat {
                    self.deref_pats(s, out)
                }
            }
            Pat::Paren(x) => self.deref_pats(&mut x.pat, out),
            Pat::Struct(s) => s.fields.iter_mut().for_each(|f| self.deref_pats(&mut f.pat, out)),
            _ => {}
        }
    }
    fn chain(cond: Expr, out: &mut Vec<Expr>) {
        match cond {
            Expr::Binary(b) if matches!(b.op, syn::BinOp::And(_)) => {
                Self::chain(*b.left, out);
                Self::chain(*b.right, out);
            }
            Expr::Paren(p) => Self::chain(*p.expr, out),
            o => out.push(o),
        }
    }
    fn has_let(e: &Expr) -> bool {
        match e {
            Expr::Let(_) => true,
            Expr::Binary(b) if matches!(b.op, syn::BinOp::And(_)) => Self::has_let(&b.left) || Self::has_let(&b.right),
            _ => false,
        }
    }
    fn mark_loop(&mut self, body: &mut Block) {
        let k = self.loops;
        self.loops += 1;
        let lit = proc_macro2::Literal::usize_unsuffixed(k);
        if let Some(Stmt::Expr(_, semi)) = body.stmts.last_mut() {
            *semi = Some(Default::default());
        }
        body.stmts.insert(0, syn::parse_quote!(__vx_loop!(#lit);));
        body.stmts.push(syn::parse_quote!(__vx_loopend!(#lit);));
    }
}
impl VisitMut for Normalise {
    fn visit_block_mut(&mut self, b: &mut Block) {
        for n in self.inline.clone() {
            inline_closure(b, &n);
        }
        // let-statements with `&x` patterns, no-op statements
        let mut i = 0;
        while i < b.stmts.len() {
            let drop = is_noop(&b.stmts[i])
                && match &b.stmts[i] {
                    Stmt::Local(l) => match &l.pat {
                        Pat::Ident(p) => !uses_ident(b, i, &p.ident.to_string()),
                        _ => true,
                    },
                    Stmt::Expr(_, None) => i + 1 < b.stmts.len(),
                    _ => true,
                };
            if drop {
                b.stmts.remove(i);
                continue;
            }
            if let Stmt::Local(l) = &mut b.stmts[i] {
                let mut extra = vec![];
                self.deref_pats(&mut l.pat, &mut extra);
                for (k, s) in extra.into_iter().enumerate() {
                    b.stmts.insert(i + 1 + k, s);
                }
            }
            i += 1;
        }
        // a trailing `return e;` is the block's value
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_arm_mut(&mut self, a: &mut syn::Arm) {
        let mut extra = vec![];
        self.deref_pats(&mut a.pat, &mut extra);
        if !extra.is_empty() {
            let body = &a.body;
            *a.body = syn::parse_quote!({ #(#extra)* #body });
        }
        visit_mut::visit_arm_mut(self, a);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Unsafe(u) => {
                let b = &u.block;
                *e = if b.stmts.len() == 1 && matches!(b.stmts[0], Stmt::Expr(_, None)) {
                    let Stmt::Expr(x, _) = &b.stmts[0] else { unreachable!() };
                    syn::parse_quote!((#x))
                } else {
                    syn::parse_quote!(#b)
                };
                self.visit_expr_mut(e);
                return;
            }
            Expr::While(w) => {
                let mut pre = vec![];
                if let Expr::Let(l) = &mut *w.cond {
                    self.deref_pats(&mut l.pat, &mut pre);
                }
                for (k, s) in pre.into_iter().enumerate() {
                    w.body.stmts.insert(k, s);
                }
                if Self::has_let(&w.cond) && !matches!(&*w.cond, Expr::Let(_)) {
                    // while-let chain -> loop { if chain { body } else { break } }
                    let (c, b, l) = (&w.cond, &w.body, &w.label);
                    *e = syn::parse_quote!(#l loop { if #c #b else { break; } });
                    self.visit_expr_mut(e);
                    return;
                }
                // while let P = x {..}  ->  loop { match x { P => {..}, _ => break } }
                if let Expr::Let(l) = &*w.cond {
                    let (p, x, b, lab) = (&l.pat, &l.expr, &w.body, &w.label);
                    *e = syn::parse_quote!(#lab loop { match #x { #p => #b, _ => { break; } } });
                    self.visit_expr_mut(e);
                    return;
                }
                self.mark_loop(&mut w.body);
            }
            Expr::Loop(l) => self.mark_loop(&mut l.body),
            Expr::ForLoop(f) => {
                let (pat, iter, body, label) = (f.pat.clone(), (*f.expr).clone(), f.body.clone(), f.label.clone());
                let mut iter_s = iter.clone();
                if let Expr::Paren(p) = &iter_s {
                    iter_s = (*p.expr).clone();
                }
                let ix = self.forix.contains(&norm(&iter_s.to_token_stream().to_string()));
                let new: Expr = match iter_s {
                    Expr::MethodCall(c) if ix && c.method == "iter" && c.args.is_empty() && matches!(&*pat, Pat::Ident(_)) => {
                        // for x in v.iter() { .. x .. }  ->  for i in 0..v.len() { .. v[i] .. }
                        let Pat::Ident(p) = &*pat else { unreachable!() };
                        let k = quote::format_ident!("k__{}", self.loops);
                        let v = &c.receiver;
                        let b: Block = syn::parse2(replace_ident(body.to_token_stream(), &p.ident, &quote!(#v[#k]))).unwrap_or_else(|e| lost(format!("indexed loop: {e}")));
                        syn::parse_quote!(#label for #k in 0..#v.len() #b)
                    }
                    Expr::Reference(r) if ix && matches!(&*pat, Pat::Ident(_)) => {
                        // for x in &v { .. x .. }  ->  for i in 0..v.len() { .. v[i] .. }
                        let Pat::Ident(p) = &*pat else { unreachable!() };
                        let k = quote::format_ident!("k__{}", self.loops);
                        let v = &r.expr;
                        let b: Block = syn::parse2(replace_ident(body.to_token_stream(), &p.ident, &quote!(#v[#k]))).unwrap_or_else(|e| lost(format!("indexed loop: {e}")));
                        syn::parse_quote!(#label for #k in 0..#v.len() #b)
                    }
                    Expr::Range(syn::ExprRange { start: Some(a), end: Some(z), limits: syn::RangeLimits::HalfOpen(_), .. }) => {
                        let i = quote::format_ident!("i__{}", self.loops);
                        let n = quote::format_ident!("n__{}", self.loops);
                        let pre: Vec<Stmt> = match &*pat {
                            Pat::Wild(_) => vec![],
                            p => vec![syn::parse_quote!(let #p = #i;)],
                        };
                        let st = &body.stmts;
                        syn::parse_quote!({
                            let mut #i = #a;
                            let #n = #z;
                            #label while #i < #n { #(#pre)* #i += 1; #(#st)* }
                        })
                    }
                    Expr::MethodCall(c) if c.method == "by_ref" && matches!(strip_paren(&c.receiver), Expr::Path(_)) => {
                        // for p in it.by_ref() { .. }  ->  loop { let p = match it.vx_next() { .. } .. }
                        let i = &c.receiver;
                        let st = &body.stmts;
                        let mut pat = pat;
                        let mut extra = vec![];
                        self.deref_pats(&mut pat, &mut extra);
                        syn::parse_quote!(#label loop {
                            let #pat = match #i.vx_next() { Some(x__) => x__, None => { break; } };
                            #(#extra)*
                            #(#st)*
                        })
                    }
                    it => {
                        let i = quote::format_ident!("it__{}", self.loops);
                        let st = &body.stmts;
                        let mut pat = pat;
                        let mut extra = vec![];
                        self.deref_pats(&mut pat, &mut extra);
                        syn::parse_quote!({
                            let mut #i = vx_into_iter(#it);
                            #label loop {
                                let #pat = match #i.vx_next() { Some(x__) => x__, None => { break; } };
                                #(#extra)*
                                #(#st)*
                            }
                        })
                    }
                };
                *e = new;
                self.visit_expr_mut(e);
                return;
            }
            Expr::If(i) if never(&i.cond) => {
                *e = match &i.else_branch {
                    Some((_, x)) => (**x).clone(),
                    None => syn::parse_quote!({}),
                };
                self.visit_expr_mut(e);
                return;
            }
            Expr::If(i) => {
                if Self::has_let(&i.cond) && !matches!(&*i.cond, Expr::Let(_)) {
                    let mut parts = vec![];
                    Self::chain((*i.cond).clone(), &mut parts);
                    let els = i.else_branch.clone().map(|(_, e)| e);
                    let then = i.then_branch.clone();
                    let mut cur: Expr = syn::parse_quote!(#then);
                    let mut first = true;
                    // merge neighbouring boolean conjuncts
                    let mut groups: Vec<Expr> = vec![];
                    for p in parts {
                        match (groups.last_mut(), &p) {
                            (Some(l), x) if !matches!(l, Expr::Let(_)) && !matches!(x, Expr::Let(_)) => {
                                let old = l.clone();
                                *l = syn::parse_quote!(#old && #x);
                            }
                            _ => groups.push(p),
                        }
                    }
                    for p in groups.into_iter().rev() {
                        let blk: Block = if first { then.clone() } else { syn::parse_quote!({ #cur }) };
                        first = false;
                        if let Expr::Let(l) = &p
                            && matches!(&*l.pat, Pat::Ident(i) if i.subpat.is_none() && i.by_ref.is_none() && i.ident.to_string().starts_with(|c: char| c.is_lowercase()))
                        {
                            // always matches
                            let (pat, x) = (&l.pat, &l.expr);
                            cur = syn::parse_quote!({ let #pat = #x; #blk });
                            continue;
                        }
                        cur = match &els {
                            None => syn::parse_quote!(if #p #blk),
                            Some(el) => match &**el {
                                Expr::Block(_) | Expr::If(_) => syn::parse_quote!(if #p #blk else #el),
                                _ => syn::parse_quote!(if #p #blk else { #el }),
                            },
                        };
                    }
                    *e = cur;
                    self.visit_expr_mut(e);
                    return;
                }
                let mut pre = vec![];
                if let Expr::Let(l) = &mut *i.cond {
                    self.deref_pats(&mut l.pat, &mut pre);
                }
                for (k, s) in pre.into_iter().enumerate() {
                    i.then_branch.stmts.insert(k, s);
                }
            }
            Expr::Match(m) if matches!(strip_paren(&m.expr), Expr::Path(p) if p.path.get_ident().is_some_and(|i| self.derefmatch.contains(&i.to_string()))) && m.arms.iter().any(|a| lit_pat(&a.pat)) => {
                // match on a reference to a number: literal patterns see through it
                let x = &m.expr;
                *m.expr = syn::parse_quote!(*#x);
            }
            Expr::MethodCall(c) if c.method == "collect" && map_over_iter(&c.receiver).is_some() => {
                // v.iter().map(|p| b).collect()  ->  { let mut c__ = Vec::new(); for p in v { c__.push(b) } c__ }
                let (v, p, b) = map_over_iter(&c.receiver).unwrap();
                *e = syn::parse_quote!({ let mut c__ = Vec::new(); for #p in #v { c__.push(#b); } c__ });
                self.visit_expr_mut(e);
                return;
            }
            Expr::MethodCall(c) if c.method == "partition_point" && c.args.len() == 1 && matches!(strip_paren(&c.receiver), Expr::Path(_) | Expr::Field(_)) && matches!(&c.args[0], Expr::Closure(k) if k.inputs.len() == 1 && !leaves(&k.body)) => {
                // v.partition_point(|p| b)  ->  the index of the first element for which b is false
                let Expr::Closure(k) = &c.args[0] else { unreachable!() };
                let (v, p, b) = (&c.receiver, &k.inputs[0], &k.body);
                *e = syn::parse_quote!({ let mut c__ = 0usize; while c__ < #v.len() { let #p = &#v[c__]; if !(#b) { break; } c__ = c__ + 1; } c__ });
                self.visit_expr_mut(e);
                return;
            }
            Expr::MethodCall(c) if c.method == "or_else" && c.args.len() == 1 && matches!(&c.args[0], Expr::Closure(k) if k.inputs.is_empty() && let_try(&k.body).is_some()) => {
                // a.or_else(|| { let p = x?; b }) on an Option  ->  match a { Some(o__) => Some(o__), None => match x { None => None, Some(p) => { b } } }
                let Expr::Closure(k) = &c.args[0] else { unreachable!() };
                let (p, x, b) = let_try(&k.body).unwrap();
                let a = &c.receiver;
                *e = syn::parse_quote!(match #a { Some(o__) => Some(o__), None => match #x { None => None, Some(#p) => { #(#b)* } } });
                self.visit_expr_mut(e);
                return;
            }
            Expr::MethodCall(c) if c.method == "or_else" && c.args.len() == 1 && matches!(&c.args[0], Expr::Closure(k) if k.inputs.is_empty() && !leaves(&k.body)) => {
                // a.or_else(|| b) on an Option  ->  match a { Some(o__) => Some(o__), None => b }
                let Expr::Closure(k) = &c.args[0] else { unreachable!() };
                let (a, b) = (&c.receiver, &k.body);
                *e = syn::parse_quote!(match #a { Some(o__) => Some(o__), None => { #b } });
                self.visit_expr_mut(e);
                return;
            }
            Expr::MethodCall(c) if c.method == "then" && c.args.len() == 1 && matches!(&c.args[0], Expr::Closure(k) if k.inputs.is_empty() && !leaves(&k.body)) => {
                // c.then(|| b)  ->  if c { Some(b) } else { None }
                let Expr::Closure(k) = &c.args[0] else { unreachable!() };
                let (a, b) = (&c.receiver, &k.body);
                *e = syn::parse_quote!(if #a { Some(#b) } else { None });
                self.visit_expr_mut(e);
                return;
            }
            Expr::MethodCall(c) if c.method == "concat" && c.args.is_empty() && matches!(strip_paren(&c.receiver), Expr::Array(_)) => {
                // [a, b, ..].concat()  ->  vx_cat(vx_cat(vx_empty(), a), b)
                let Expr::Array(a) = strip_paren(&c.receiver) else { unreachable!() };
                let mut x: Expr = syn::parse_quote!(vx_empty());
                for y in &a.elems {
                    x = syn::parse_quote!(vx_cat(#x, #y));
                }
                *e = x;
                self.visit_expr_mut(e);
                return;
            }
            Expr::Macro(mac) => {
                if let Some(x) = lower_macro(&mac.mac) {
                    *e = x;
                    self.visit_expr_mut(e);
                    return;
                }
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(sm) = s {
            if let Some(x) = lower_macro(&sm.mac) {
                *s = if sm.semi_token.is_some() { Stmt::Expr(x, Some(Default::default())) } else { Stmt::Expr(x, None) };
            }
        }
        visit_mut::visit_stmt_mut(self, s);
    }
}

/// `return` or `?` inside, which would leave a closure only
fn leaves(e: &Expr) -> bool {
    struct L(bool);
    impl<'a> syn::visit::Visit<'a> for L {
        fn visit_expr_return(&mut self, _: &'a syn::ExprReturn) {
            self.0 = true;
        }
        fn visit_expr_try(&mut self, _: &'a syn::ExprTry) {
            self.0 = true;
        }
    }
    let mut l = L(false);
    syn::visit::Visit::visit_expr(&mut l, e);
    l.0
}
/// v.iter().map(|p| b) without a return inside b
fn map_over_iter(e: &Expr) -> Option<(Expr, Pat, Expr)> {
    let Expr::MethodCall(m) = strip_paren(e) else { return None };
    if m.method != "map" || m.args.len() != 1 {
        return None;
    }
    let Expr::Closure(c) = &m.args[0] else { return None };
    let Expr::MethodCall(it) = strip_paren(&m.receiver) else { return None };
    if it.method != "iter" || c.inputs.len() != 1 {
        return None;
    }
    let text = c.body.to_token_stream().to_string();
    if text.contains("return") || text.contains('?') || text.contains("break") || text.contains("continue") {
        return None;
    }
    Some(((*it.receiver).clone(), c.inputs[0].clone(), (*c.body).clone()))
}
/// cfg!(windows), cfg!(target_os = "windows"): false where this is verified.
fn not_here(mac: &syn::Macro) -> bool {
    mac.path.is_ident("cfg") && matches!(norm(&mac.tokens.to_string()).as_str(), "windows" | "target_os = \"windows\"" | "target_os=\"windows\"")
}
fn never(e: &Expr) -> bool {
    match strip_paren(e) {
        Expr::Macro(m) => not_here(&m.mac),
        Expr::Binary(b) if matches!(b.op, syn::BinOp::And(_)) => never(&b.left),
        _ => false,
    }
}

fn lower_macro(mac: &syn::Macro) -> Option<Expr> {
    let n = mac.path.segments.last()?.ident.to_string();
    use syn::parse::Parser;
    let args = || {
        syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated
            .parse2(mac.tokens.clone())
            .ok()
    };
    Some(match n.as_str() {
        "vec" if mac.tokens.is_empty() => syn::parse_quote!(Vec::new()),
        "vec" => {
            // vec![x; n]
            let t = &mac.tokens;
            let a: syn::ExprRepeat = syn::parse2(quote!([#t])).ok()?;
            let (x, k) = (&a.expr, &a.len);
            syn::parse_quote!(vx_vec(#x, #k))
        }
        "assert" | "debug_assert" => {
            let a = args()?;
            let c = a.first()?;
            syn::parse_quote!(vx_assert(#c))
        }
        "assert_eq" | "debug_assert_eq" => {
            let a = args()?;
            let (x, y) = (a.get(0)?, a.get(1)?);
            syn::parse_quote!(vx_assert(#x == #y))
        }
        "assert_ne" | "debug_assert_ne" => {
            let a = args()?;
            let (x, y) = (a.get(0)?, a.get(1)?);
            syn::parse_quote!(vx_assert(#x != #y))
        }
        "bail" => syn::parse_quote!(return Err(vx_err())),
        "anyhow" => syn::parse_quote!(vx_err()),
        "cfg" if not_here(mac) => syn::parse_quote!(false),
        "panic" | "unreachable" | "todo" | "unimplemented" => syn::parse_quote!(vx_unreachable()),
        "error" | "warn" | "info" | "debug" | "trace" if mac.path.segments.len() == 2 && mac.path.segments[0].ident == "tracing" => {
            syn::parse_quote!(vx_log())
        }
        "matches" => {
            // matches!(e, pat [if guard])
            use syn::parse::{ParseStream, Result};
            let f = |input: ParseStream| -> Result<(Expr, Pat, Option<Expr>)> {
                let e: Expr = input.parse()?;
                input.parse::<syn::Token![,]>()?;
                let p = Pat::parse_multi_with_leading_vert(input)?;
                let g = if input.peek(syn::Token![if]) {
                    input.parse::<syn::Token![if]>()?;
                    Some(input.parse()?)
                } else {
                    None
                };
                let _ = input.parse::<Option<syn::Token![,]>>();
                Ok((e, p, g))
            };
            let (e, p, g) = f.parse2(mac.tokens.clone()).ok()?;
            match g {
                None => syn::parse_quote!((match #e { #p => true, _ => false })),
                Some(g) => syn::parse_quote!((match #e { #p if #g => true, _ => false })),
            }
        }
        _ => return None,
    })
}

/// Insert hints before/after the first statement whose text contains a pattern.
struct Hints {
    hints: Vec<(bool, String, usize, usize, bool)>, // before?, normalised pattern, id, occurrence, done
}
impl VisitMut for Hints {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut i = 0;
        while i < b.stmts.len() {
            let text = norm(&b.stmts[i].to_token_stream().to_string());
            for h in 0..self.hints.len() {
                let (before, pat, id, occ, done) = self.hints[h].clone();
                if (done && occ != usize::MAX) || !text.contains(&pat) || text.contains("__vx_hint") && text.starts_with("__vx_hint") {
                    continue;
                }
                // innermost: does a nested block contain it?
                let mut inner = Contains { pat: pat.clone(), found: false };
                syn::visit::Visit::visit_stmt(&mut inner, &b.stmts[i]);
                if inner.found {
                    continue;
                }
                if occ > 0 && occ != usize::MAX {
                    self.hints[h].3 -= 1;
                    continue;
                }
                self.hints[h].4 = true;
                let lit = proc_macro2::Literal::usize_unsuffixed(id);
                let st: Stmt = syn::parse_quote!(__vx_hint!(#lit););
                if before {
                    b.stmts.insert(i, st);
                    i += 1;
                } else {
                    b.stmts.insert(i + 1, st);
                }
            }
            i += 1;
        }
        visit_mut::visit_block_mut(self, b);
    }
}
struct Contains {
    pat: String,
    found: bool,
}
impl<'ast> syn::visit::Visit<'ast> for Contains {
    fn visit_block(&mut self, b: &'ast Block) {
        for s in &b.stmts {
            if norm(&s.to_token_stream().to_string()).contains(&self.pat) {
                self.found = true;
            }
        }
    }
}

// ---------------------------------------------------------------- output
fn rustfmt(src: &str) -> String {
    let mut c = Command::new("rustfmt")
        .args(["--edition", "2024", "--config", "max_width=110", "--emit", "stdout"])
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .expect("rustfmt");
    c.stdin.take().unwrap().write_all(src.as_bytes()).unwrap();
    let o = c.wait_with_output().unwrap();
    if !o.status.success() {
        eprintln!("{src}");
        panic!("rustfmt failed: {}", String::from_utf8_lossy(&o.stderr));
    }
    String::from_utf8(o.stdout).unwrap()
}

#[derive(Default, Debug)]
struct FnSpec {
    sel: String,
    ret: String,
    name: Option<String>,
    sig: Option<String>,
    contract: String,
    loops: HashMap<usize, String>,
    loopbegin: HashMap<usize, String>,
    loopend: HashMap<usize, String>,
    begin: String,
    hints: Vec<(bool, String, String, usize)>,
    rules: Vec<String>,
    tyrw: Vec<(String, String)>,
    nloops: Option<usize>,
    drop: Vec<String>,
    /// the function is the body of the closure whose text starts like this
    only: Option<String>,
    /// locals that are changed through a lock or cell, which the verified text has in place
    letmut: Vec<String>,
    inline: Vec<String>,
    derefmatch: Vec<String>,
    forix: Vec<String>,
    attrs: String,
    tail: String,
}

fn tok_replace(ts: TokenStream, from: &[String], to: &TokenStream, hits: &mut usize) -> TokenStream {
    fn flat(t: &TokenTree) -> String {
        norm(&t.to_string())
    }
    let toks: Vec<TokenTree> = ts
        .into_iter()
        .map(|t| match t {
            TokenTree::Group(g) => {
                let mut n = Group::new(g.delimiter(), tok_replace(g.stream(), from, to, hits));
                n.set_span(g.span());
                TokenTree::Group(n)
            }
            o => o,
        })
        .collect();
    let mut out: Vec<TokenTree> = vec![];
    let mut i = 0;
    while i < toks.len() {
        if i + from.len() <= toks.len() && (0..from.len()).all(|k| flat(&toks[i + k]) == from[k]) {
            out.extend(to.clone());
            *hits += 1;
            i += from.len();
        } else {
            out.push(toks[i].clone());
            i += 1;
        }
    }
    out.into_iter().collect()
}

fn label(spec: &FnSpec) -> String {
    match &spec.only {
        Some(_) => format!("{} (one closure in it)", spec.sel),
        None => spec.sel.clone(),
    }
}
fn emit_fn(src: &Source, spec: &FnSpec, unit_rules: &[Rule], unit_ty: &[(String, String)], canary: bool) -> String {
    let (fsel, csel) = spec.sel.split_once('/').map_or((spec.sel.as_str(), None), |(a, b)| (a, Some(b)));
    let (mut sig, mut body) = find_fn(&src.file.items, fsel).unwrap_or_else(|| lost(format!("function {}", spec.sel)));
    // local constants that stand for a literal
    while let Some(k) = body.stmts.iter().position(|s| matches!(s, Stmt::Item(Item::Const(c)) if matches!(&*c.expr, Expr::Lit(_)))) {
        let Stmt::Item(Item::Const(c)) = body.stmts.remove(k) else { unreachable!() };
        let e = c.expr.to_token_stream();
        body = syn::parse2(replace_ident(body.to_token_stream(), &c.ident, &e)).unwrap_or_else(|e| lost(format!("{}: const {}: {e}", spec.sel, c.ident)));
    }
    if let Some(c) = csel {
        // the body of a closure bound to a local name
        struct Find<'a>(&'a str, Option<syn::ExprClosure>);
        impl VisitMut for Find<'_> {
            fn visit_local_mut(&mut self, l: &mut syn::Local) {
                if let Pat::Ident(i) = &l.pat
                    && i.ident == self.0
                    && let Some(init) = &l.init
                    && let Expr::Closure(c) = &*init.expr
                {
                    self.1 = Some(c.clone());
                }
                visit_mut::visit_local_mut(self, l);
            }
        }
        // or a function defined inside
        struct FindFn<'a>(&'a str, Option<syn::ItemFn>);
        impl VisitMut for FindFn<'_> {
            fn visit_item_fn_mut(&mut self, f: &mut syn::ItemFn) {
                if f.sig.ident == self.0 {
                    self.1 = Some(f.clone());
                }
                visit_mut::visit_item_fn_mut(self, f);
            }
        }
        let mut g = FindFn(c, None);
        g.visit_block_mut(&mut body);
        if let Some(g) = g.1 {
            sig = g.sig;
            body = *g.block;
        } else {
            let mut f = Find(c, None);
            f.visit_block_mut(&mut body);
            let Some(c) = f.1 else { lost(format!("closure {}", spec.sel)) };
            body = match *c.body {
                Expr::Block(b) => b.block,
                e => syn::parse_quote!({ #e }),
            };
        }
    }
    if let Some(only) = &spec.only {
        struct Only<'a>(&'a str, Vec<Expr>);
        impl<'b> syn::visit::Visit<'b> for Only<'_> {
            fn visit_expr_closure(&mut self, c: &'b syn::ExprClosure) {
                if norm(&c.to_token_stream().to_string()).starts_with(self.0) {
                    self.1.push((*c.body).clone());
                }
                syn::visit::visit_expr_closure(self, c);
            }
        }
        let mut o = Only(only, vec![]);
        syn::visit::Visit::visit_block(&mut o, &body);
        match &o.1[..] {
            [Expr::Block(b)] => body = b.block.clone(),
            [e] => body = syn::parse_quote!({ #e }),
            x => lost(format!("{}: {} closures start with {only}", spec.sel, x.len())),
        }
    }
    if !spec.drop.is_empty() {
        struct Drop<'a>(&'a [String]);
        impl VisitMut for Drop<'_> {
            fn visit_block_mut(&mut self, b: &mut Block) {
                b.stmts.retain(|s| !matches!(s, Stmt::Item(Item::Fn(f)) if self.0.contains(&f.sig.ident.to_string())));
                b.stmts.retain(|s| !matches!(s, Stmt::Local(l) if matches!(&l.pat, Pat::Ident(i) if self.0.contains(&i.ident.to_string())) && matches!(&l.init, Some(i) if matches!(&*i.expr, Expr::Closure(_)))));
                visit_mut::visit_block_mut(self, b);
            }
        }
        Drop(&spec.drop).visit_block_mut(&mut body);
    }
    if !spec.letmut.is_empty() {
        struct LetMut<'a>(&'a [String]);
        impl VisitMut for LetMut<'_> {
            fn visit_local_mut(&mut self, l: &mut syn::Local) {
                if let Pat::Ident(i) = &mut l.pat {
                    if self.0.contains(&i.ident.to_string()) {
                        i.mutability = Some(Default::default());
                    }
                }
                visit_mut::visit_local_mut(self, l);
            }
        }
        LetMut(&spec.letmut).visit_block_mut(&mut body);
    }
    sig.unsafety = None;
    sig.constness = None;
    // `mut self` -> `self`, with a mutable copy in the body
    let mut by_value_mut = false;
    for a in sig.inputs.iter_mut() {
        if let syn::FnArg::Receiver(r) = a {
            if r.reference.is_none() && r.mutability.is_some() {
                r.mutability = None;
                by_value_mut = true;
            }
        }
    }
    if by_value_mut {
        let id: syn::Ident = syn::parse_str("self").unwrap_or_else(|_| syn::Ident::new("self", proc_macro2::Span::call_site()));
        body = syn::parse2(replace_ident(body.to_token_stream(), &id, &quote!(self__))).unwrap_or_else(|e| lost(format!("{}: mut self: {e}", spec.sel)));
        body.stmts.insert(0, syn::parse_quote!(let mut self__ = self;));
    }
    // rules
    let mut rules: Vec<Rule> = spec.rules.iter().map(|r| parse_rule(r)).collect();
    rules.extend(unit_rules.iter().cloned());
    let mut rw = Rewriter { hits: vec![0; rules.len()], rules: &rules };
    rw.visit_block_mut(&mut body);
    for (r, h) in rules.iter().zip(&rw.hits) {
        if r.required && *h == 0 {
            lost(format!("{}: expected expression not found: {}", spec.sel, r.text));
        }
    }
    let mut n = Normalise { loops: 0, fresh: 0, forix: spec.forix.clone(), inline: spec.inline.clone(), derefmatch: spec.derefmatch.clone() };
    n.visit_block_mut(&mut body);
    if let Some(k) = spec.nloops {
        if k != n.loops {
            lost(format!("{}: {} loops, contract written for {k}", spec.sel, n.loops));
        }
    } else {
        let want = spec.loops.keys().map(|k| k + 1).max().unwrap_or(0);
        if n.loops != want {
            lost(format!("{}: {} loops, contract written for {want}", spec.sel, n.loops));
        }
    }
    // second pass of rules over desugared code
    let mut rw = Rewriter { hits: vec![0; rules.len()], rules: &rules };
    rw.visit_block_mut(&mut body);
    let mut h = Hints {
        hints: spec.hints.iter().enumerate().map(|(i, (b, p, _, o))| (*b, norm(p), i, *o, false)).collect(),
    };
    h.visit_block_mut(&mut body);
    for x in &h.hints {
        if !x.4 {
            lost(format!("{}: hint position not found: {}", spec.sel, x.1));
        }
    }
    let out_ty = match &sig.output {
        syn::ReturnType::Default => None,
        syn::ReturnType::Type(_, t) => Some(t.to_token_stream()),
    };
    sig.output = syn::ReturnType::Default;
    if let Some(n) = &spec.name {
        sig.ident = quote::format_ident!("{}", n);
    }
    let stmts = &body.stmts;
    let canary_stmt = if canary { quote!(__vx_canary!();) } else { quote!() };
    let mut whole = match (&out_ty, &spec.sig) {
        (_, Some(_)) => quote!(fn __vx_sig() { __vx_contract!(); #canary_stmt #(#stmts)* }),
        (None, _) => quote!(#sig { __vx_contract!(); #canary_stmt #(#stmts)* }),
        (Some(t), _) => {
            let (g, wh) = (&sig.generics, &sig.generics.where_clause);
            let id = &sig.ident;
            let inputs = &sig.inputs;
            let mut g2 = g.clone();
            g2.where_clause = None;
            quote!(fn #id #g2 (#inputs) -> __VxRet<#t> #wh { __vx_contract!(); #canary_stmt #(#stmts)* })
        }
    };
    for (a, b) in spec.tyrw.iter().chain(unit_ty) {
        let from: Vec<String> = a.parse::<TokenStream>().unwrap().into_iter().map(|t| norm(&t.to_string())).collect();
        let to: TokenStream = b.parse().unwrap();
        let mut hits = 0;
        whole = tok_replace(whole, &from, &to, &mut hits);
    }
    let f = rustfmt(&format!("impl X {{ {whole} }}"));
    let lines: Vec<&str> = f.lines().collect();
    let mut t = lines[1..lines.len() - 1].join("\n");
    // return type
    if let Some(p) = t.find("__VxRet<") {
        let s = p + "__VxRet<".len();
        let mut d = 1;
        let mut q = s;
        let bytes = t.as_bytes();
        while d > 0 {
            match bytes[q] {
                b'<' => d += 1,
                b'>' if bytes[q - 1] != b'-' => d -= 1,
                _ => {}
            }
            q += 1;
        }
        t = format!("{}({}: {}){}", &t[..p], spec.ret, &t[s..q - 1], &t[q..]);
    }
    if let Some(s) = &spec.sig {
        let p = t.find("fn __vx_sig()").unwrap();
        t = format!("{}{}{}", &t[..p], s, &t[p + "fn __vx_sig()".len()..]);
    }
    let place = |t: String, mark: &str, text: &str| -> String {
        // "{ <ws> mark"  ->  text { ; mark is unique
        let Some(p) = t.find(mark) else { return t };
        let brace = t[..p].rfind('{').unwrap();
        format!("{}\n{}\n{{{}", t[..brace].trim_end(), text.trim_end(), &t[p + mark.len()..])
    };
    t = place(t, "__vx_contract!();", &spec.contract);
    for k in 0..n.loops {
        let text = spec.loops.get(&k).cloned().unwrap_or_default();
        let lb = spec.loopbegin.get(&k).cloned().unwrap_or_default();
        let le = spec.loopend.get(&k).cloned().unwrap_or_default();
        while t.contains(&format!("__vx_loop!({k});")) {
            t = place(t, &format!("__vx_loop!({k});"), &text);
            // put loop-begin text right after the brace we just wrote
            if !lb.trim().is_empty() {
                let marker = format!("{}\n{{", text.trim_end());
                let p = t.find(&marker).unwrap() + marker.len();
                t.insert_str(p, &format!("\n{}", lb.trim_end()));
            }
            t = t.replacen(&format!("__vx_loopend!({k});"), le.trim(), 1);
        }
    }
    for (i, (_, _, text, _)) in spec.hints.iter().enumerate() {
        t = t.replace(&format!("__vx_hint!({i});"), text.trim());
    }
    if !spec.begin.is_empty() {
        // right after the contract's brace
        let marker = format!("{}\n{{", spec.contract.trim_end());
        let p = t.find(&marker).unwrap() + marker.len();
        t.insert_str(p, &format!("\n{}", spec.begin.trim_end()));
    }
    t = t.replace("__vx_canary!();", "proof { assert(false); }");
    let _ = &spec.tail;
    format!("// >>> extracted: {}\n{}{}\n// <<<", label(spec), spec.attrs, t)
}

fn strip_vis(it: &mut Item) {
    struct V;
    impl VisitMut for V {
        fn visit_visibility_mut(&mut self, v: &mut syn::Visibility) {
            *v = syn::Visibility::Inherited;
        }
        fn visit_attributes_mut(&mut self, a: &mut Vec<syn::Attribute>) {
            a.clear();
        }
    }
    V.visit_item_mut(it);
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let (repo, template, out) = (&args[1], &args[2], &args[3]);
    let canary = args.iter().any(|a| a == "--canary");
    fn read(p: &std::path::Path) -> String {
        let t = std::fs::read_to_string(p).unwrap_or_else(|e| panic!("{}: {e}", p.display()));
        t.lines()
            .map(|l| match l.strip_prefix("//@include ") {
                Some(x) => read(&p.with_file_name(x.trim())),
                None => format!("{l}\n"),
            })
            .collect()
    }
    let text = read(std::path::Path::new(template));
    let mut result = String::new();
    let mut src: Option<Source> = None;
    let mut rules: Vec<Rule> = vec![];
    let mut tyrw: Vec<(String, String)> = vec![];
    let mut fns = vec![];
    let mut lines = text.lines().peekable();
    while let Some(line) = lines.next() {
        let l = line.trim_start();
        let Some(d) = l.strip_prefix("//@") else {
            result.push_str(line);
            result.push('\n');
            continue;
        };
        let d = d.trim();
        let (cmd, rest) = d.split_once(' ').unwrap_or((d, ""));
        let rest = rest.trim();
        match cmd {
            "file" => {
                let mut parts = rest.split_whitespace();
                let path = parts.next().unwrap();
                let mut mac = None;
                let mut subst = HashMap::new();
                for p in parts {
                    let (k, v) = p.split_once('=').unwrap();
                    if k == "macro" {
                        mac = Some(v.to_string());
                    } else {
                        subst.insert(k.trim_start_matches('$').to_string(), v.parse().unwrap());
                    }
                }
                src = Some(load(repo, path, mac.as_deref(), &subst));
            }
            "rw" => rules.push(parse_rule(rest)),
            "rwclear" => rules.clear(),
            "tyrw" => {
                let (a, b) = rest.split_once("==>").unwrap();
                tyrw.push((a.trim().into(), b.trim().into()));
            }
            "expect" => {
                // the file has to contain these tokens (a trusted contract was written for them)
                let want = norm(&rest.parse::<TokenStream>().map_or(rest.to_string(), |t| t.to_string()));
                let have = norm(&src.as_ref().unwrap().file.to_token_stream().to_string());
                if !have.contains(&want) {
                    lost(format!("expected text: {rest}"));
                }
            }
            "macrolist" => {
                // MACRO SECTION TEMPLATE: the identifiers listed in `MACRO![ .. SECTION { A, B } .. ]`
                let mut p = rest.splitn(3, ' ');
                let (mac, section, tmpl) = (p.next().unwrap(), p.next().unwrap(), p.next().unwrap());
                let m = src.as_ref().unwrap().file.items.iter().find_map(|i| match i {
                    Item::Macro(m) if m.ident.is_none() && m.mac.path.is_ident(mac) => Some(m.mac.tokens.clone()),
                    _ => None,
                });
                let Some(m) = m else { lost(format!("macro call {mac}")) };
                let mut names = vec![];
                let mut hit = false;
                for t in m {
                    match t {
                        TokenTree::Ident(i) => hit = i == section,
                        TokenTree::Group(g) if hit => names.extend(g.stream().into_iter().filter_map(|t| match t { TokenTree::Ident(i) => Some(i.to_string()), _ => None })),
                        _ => {}
                    }
                }
                if names.is_empty() { lost(format!("{mac}: section {section}")) }
                let mut t = tmpl.to_string();
                while let Some(a) = t.find("$LIST(") {
                    let z = a + t[a..].find(')').unwrap();
                    let pre = t[a + 6..z].to_string();
                    let l: Vec<String> = names.iter().map(|n| format!("{pre}{n}")).collect();
                    t = format!("{}{}{}", &t[..a], l.join(", "), &t[z + 1..]);
                }
                result.push_str(&format!("// >>> extracted: {mac}\n{t}\n// <<<\n"));
            }
            "constfold" => {
                for name in rest.split_whitespace() {
                    let items = &src.as_ref().unwrap().file.items;
                    let Some(Item::Const(c)) = find_item(items, "const", name) else { lost(format!("const {name}")) };
                    let v = fold(items, &c.expr, bits_of(&c.ty)).unwrap_or_else(|| lost(format!("const {name} is not a constant expression")));
                    let ty = &c.ty;
                    result.push_str(&format!("// >>> extracted: const {name}\nconst {name}: {} = {v};\n// <<<\n", ty.to_token_stream()));
                }
            }
            "struct" | "enum" | "const" | "type" => {
                let (name, attrs) = rest.split_once(' ').unwrap_or((rest, ""));
                let mut it = find_item(&src.as_ref().unwrap().file.items, cmd, name)
                    .unwrap_or_else(|| lost(format!("{cmd} {name}")));
                strip_vis(&mut it);
                let mut ts = it.to_token_stream();
                for (a, b) in &tyrw {
                    let from: Vec<String> =
                        a.parse::<TokenStream>().unwrap().into_iter().map(|t| norm(&t.to_string())).collect();
                    let mut hits = 0;
                    ts = tok_replace(ts, &from, &b.parse().unwrap(), &mut hits);
                }
                result.push_str(&format!("// >>> extracted: {cmd} {name}\n{attrs}\n{}// <<<\n", rustfmt(&ts.to_string())));
            }
            "fn" => {
                let mut spec = FnSpec { ret: "r".into(), ..Default::default() };
                let mut p = rest.split_whitespace();
                spec.sel = p.next().unwrap().to_string();
                for o in p {
                    let (k, v) = o.split_once('=').unwrap();
                    match k {
                        "ret" => spec.ret = v.into(),
                        "name" => spec.name = Some(v.into()),
                        "nloops" => spec.nloops = Some(v.parse().unwrap()),
                        "attr" => spec.attrs.push_str(&format!("#[{v}]\n")),
                        _ => panic!("option {k}"),
                    }
                }
                enum S {
                    Contract,
                    Loop(usize),
                    LoopBegin(usize),
                    LoopEnd(usize),
                    Begin,
                    Hint,
                }
                let mut s = S::Contract;
                loop {
                    let line = lines.next().expect("unterminated //@fn");
                    let l = line.trim_start();
                    if let Some(d) = l.strip_prefix("//@") {
                        let d = d.trim();
                        let (c, r) = d.split_once(' ').unwrap_or((d, ""));
                        match c {
                            "end" => break,
                            "loop" => s = S::Loop(r.trim().parse().unwrap()),
                            "loopbegin" => s = S::LoopBegin(r.trim().parse().unwrap()),
                            "loopend" => s = S::LoopEnd(r.trim().parse().unwrap()),
                            "begin" => s = S::Begin,
                            "rw" => spec.rules.push(r.trim().to_string()),
                            "only" => spec.only = Some(norm(r)),
                            "letmut" => spec.letmut.extend(r.split_whitespace().map(|x| x.to_string())),
                            "drop" => spec.drop.extend(r.split_whitespace().map(|x| x.to_string())),
                            "inline" => spec.inline.extend(r.split_whitespace().map(|x| x.to_string())),
                            "derefmatch" => spec.derefmatch.extend(r.split_whitespace().map(|x| x.to_string())),
                            "forix" => spec.forix.push(norm(r)),
                            "sig" => spec.sig = Some(r.trim().to_string()),
                            "tyrw" => {
                                let (a, b) = r.split_once("==>").unwrap();
                                spec.tyrw.push((a.trim().into(), b.trim().into()));
                            }
                            "before" | "after" => {
                                let (occ, pat) = match r.trim().strip_prefix('#') {
                                    Some(x) => {
                                        let (n, p) = x.split_once(' ').unwrap();
                                        (if n == "*" { usize::MAX } else { n.parse().unwrap() }, p.to_string())
                                    }
                                    None => (0, r.trim().to_string()),
                                };
                                spec.hints.push((c == "before", pat, String::new(), occ));
                                s = S::Hint;
                            }
                            _ => panic!("directive {c} in fn {}", spec.sel),
                        }
                        continue;
                    }
                    let dst = match &s {
                        S::Contract => &mut spec.contract,
                        S::Loop(k) => spec.loops.entry(*k).or_default(),
                        S::LoopBegin(k) => spec.loopbegin.entry(*k).or_default(),
                        S::LoopEnd(k) => spec.loopend.entry(*k).or_default(),
                        S::Begin => &mut spec.begin,
                        S::Hint => &mut spec.hints.last_mut().unwrap().2,
                    };
                    dst.push_str(line);
                    dst.push('\n');
                }
                fns.push(label(&spec));
                result.push_str(&emit_fn(src.as_ref().unwrap(), &spec, &rules, &tyrw, canary));
                result.push('\n');
            }
            _ => panic!("directive {cmd}"),
        }
    }
    std::fs::write(out, result).unwrap();
    for f in fns {
        println!("FN {f}");
    }
}
