//! Before anything else: calls of functions that have no contract are replaced by their bodies,
//! within a module, where that does not change the meaning. (A helper that a later version of
//! the code extracts is verified where it is called, in the context it is called from.)
use crate::contracts::ModuleC;
use crate::edit::Edits;
use crate::rewrite::{item_attrs, self_name};
use proc_macro2::{TokenStream, TokenTree};
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet};
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

struct Helper {
    ty: Option<String>,
    sig: syn::Signature,
    block: syn::Block,
    whole: std::ops::Range<usize>,
}

/// The text with what could be inlined inlined, how many calls that were, and in which functions.
pub fn inline(text: &str, ast: &syn::File, mc: &ModuleC) -> Option<(String, usize, BTreeMap<String, bool>)> {
    let mut text = text.to_string();
    let mut ast = ast.clone();
    let mut total = 0;
    let mut into: BTreeMap<String, bool> = BTreeMap::new();
    for round in 0..6 {
        let helpers = helpers(&ast, mc);
        if helpers.is_empty() {
            break;
        }
        let mut ed = Edits::new(&text);
        let mut count = 0;
        for item in &ast.items {
            if crate::is_test_item(item_attrs(item)) {
                continue;
            }
            match item {
                syn::Item::Fn(f) => {
                    let n = f.sig.ident.to_string();
                    if !mc.external.contains(&n) {
                        count += one(&text, &helpers, None, &n, &f.sig, &f.block, round, &mut ed, &mut into);
                    }
                }
                syn::Item::Impl(i) => {
                    let ty = self_name(i);
                    if mc.external.contains(&format!("impl {}", ty)) || crate::attr_has(&i.attrs, "async_trait") {
                        continue;
                    }
                    for it in &i.items {
                        if let syn::ImplItem::Fn(f) = it {
                            let n = format!("{}::{}", ty, f.sig.ident);
                            if !mc.external.contains(&n) && !mc.external.contains(&f.sig.ident.to_string()) {
                                count += one(&text, &helpers, Some(&ty), &n, &f.sig, &f.block, round, &mut ed, &mut into);
                            }
                        }
                    }
                }
                _ => {}
            }
        }
        if count == 0 {
            break;
        }
        let new = ed.apply();
        let Ok(parsed) = syn::parse_file(&new) else {
            return if total > 0 { Some((text, total, into)) } else { None };
        };
        text = new;
        ast = parsed;
        total += count;
    }
    if total == 0 {
        return None;
    }
    // helpers nobody calls any more
    let mut ed = Edits::new(&text);
    for h in helpers(&ast, mc).values() {
        let name = h.sig.ident.to_string();
        let mut uses = 0;
        for item in &ast.items {
            if !crate::is_test_item(item_attrs(item)) {
                uses += count_ident(item.to_token_stream(), &name);
            }
        }
        if uses == 1 {
            ed.delete(h.whole.clone());
        }
    }
    let new = ed.apply();
    if syn::parse_file(&new).is_ok() {
        text = new;
    }
    Some((text, total, into))
}

fn count_ident(t: TokenStream, name: &str) -> usize {
    t.into_iter()
        .map(|x| match x {
            TokenTree::Ident(i) => (i == name) as usize,
            TokenTree::Group(g) => count_ident(g.stream(), name),
            _ => 0,
        })
        .sum()
}

fn helpers(ast: &syn::File, mc: &ModuleC) -> BTreeMap<String, Helper> {
    let mut v = BTreeMap::new();
    let mut add = |ty: Option<String>, attrs: &[syn::Attribute], sig: &syn::Signature, block: &syn::Block, whole: std::ops::Range<usize>| {
        let short = sig.ident.to_string();
        let name = ty.as_ref().map_or(short.clone(), |t| format!("{}::{}", t, short));
        // what is generic in a type is so only in its signature
        let generic = sig.generics.params.iter().any(|p| match p {
            syn::GenericParam::Lifetime(_) => false,
            syn::GenericParam::Type(t) => count_ident(block.to_token_stream(), &t.ident.to_string()) > 0,
            syn::GenericParam::Const(_) => true,
        });
        if mc.fns.contains_key(&name) || mc.external.contains(&name) || mc.external.contains(&short) || generic || short == "main" {
            return;
        }
        if crate::is_test_item(attrs) || count_ident(block.to_token_stream(), &short) > 0 {
            return;
        }
        let simple = sig.inputs.iter().all(|a| match a {
            syn::FnArg::Receiver(r) => r.colon_token.is_none(),
            syn::FnArg::Typed(t) => matches!(&*t.pat, syn::Pat::Ident(p) if p.by_ref.is_none() && p.subpat.is_none()) && !has_impl(t.ty.to_token_stream()),
        });
        if !simple || has_impl(sig.output.to_token_stream()) {
            return;
        }
        v.insert(name, Helper { ty, sig: sig.clone(), block: block.clone(), whole });
    };
    for item in &ast.items {
        if crate::is_test_item(item_attrs(item)) {
            continue;
        }
        match item {
            syn::Item::Fn(f) => add(None, &f.attrs, &f.sig, &f.block, item.span().byte_range()),
            syn::Item::Impl(i) if i.trait_.is_none() && i.generics.params.is_empty() => {
                let ty = self_name(i);
                if mc.external.contains(&format!("impl {}", ty)) {
                    continue;
                }
                for it in &i.items {
                    if let syn::ImplItem::Fn(f) = it {
                        add(Some(ty.clone()), &f.attrs, &f.sig, &f.block, it.span().byte_range());
                    }
                }
            }
            _ => {}
        }
    }
    v
}

fn mentions_generic(h: &Helper, t: &syn::Type) -> bool {
    h.sig.generics.type_params().any(|g| count_ident(t.to_token_stream(), &g.ident.to_string()) > 0)
}

fn has_impl(t: TokenStream) -> bool {
    t.into_iter().any(|x| match x {
        TokenTree::Ident(i) => i == "impl" || i == "dyn",
        TokenTree::Group(g) => has_impl(g.stream()),
        _ => false,
    })
}

/// Inlines the calls in one function. A function that takes part as a helper is left alone (its
/// own calls are dealt with once it has been inlined).
#[allow(clippy::too_many_arguments)]
fn one<'t>(text: &'t str, helpers: &BTreeMap<String, Helper>, ty: Option<&str>, name: &str, sig: &syn::Signature, block: &syn::Block, round: usize, ed: &mut Edits<'t>, into: &mut BTreeMap<String, bool>) -> usize {
    if helpers.contains_key(name) {
        return 0;
    }
    let mut tails = BTreeSet::new();
    tail_block(block, &mut tails);
    struct Returns<'a>(&'a mut BTreeSet<usize>);
    impl<'ast, 'a> Visit<'ast> for Returns<'a> {
        fn visit_expr_return(&mut self, r: &'ast syn::ExprReturn) {
            if let Some(e) = &r.expr {
                tail_expr(e, self.0);
            }
            visit::visit_expr_return(self, r);
        }
        fn visit_expr_closure(&mut self, _: &'ast syn::ExprClosure) {}
        fn visit_expr_async(&mut self, _: &'ast syn::ExprAsync) {}
        fn visit_item(&mut self, _: &'ast syn::Item) {}
    }
    Returns(&mut tails).visit_block(block);
    let mut v = Sites { text, helpers, ty, sig, tails, round, n: 0, ed, quiet: 0, loops: false };
    v.visit_block(block);
    if v.n > 0 {
        let l = v.loops;
        *into.entry(name.to_string()).or_insert(false) |= l;
    }
    v.n
}

/// The expressions whose value is the value of the function, by position and length.
fn tail_block(b: &syn::Block, out: &mut BTreeSet<usize>) {
    if let Some(syn::Stmt::Expr(e, None)) = b.stmts.last() {
        tail_expr(e, out);
    }
}

fn key(e: &syn::Expr) -> usize {
    let r = e.span().byte_range();
    r.start * 100_000 + (r.end - r.start).min(99_999)
}

fn tail_expr(e: &syn::Expr, out: &mut BTreeSet<usize>) {
    out.insert(key(e));
    match e {
        syn::Expr::If(i) => {
            tail_block(&i.then_branch, out);
            if let Some((_, e)) = &i.else_branch {
                tail_expr(e, out);
            }
        }
        syn::Expr::Match(m) => m.arms.iter().for_each(|a| tail_expr(&a.body, out)),
        syn::Expr::Block(b) if b.label.is_none() => tail_block(&b.block, out),
        syn::Expr::Paren(p) => tail_expr(&p.expr, out),
        _ => {}
    }
}

struct Sites<'a, 'e, 't> {
    text: &'t str,
    helpers: &'a BTreeMap<String, Helper>,
    ty: Option<&'a str>,
    sig: &'a syn::Signature,
    tails: BTreeSet<usize>,
    round: usize,
    n: usize,
    ed: &'e mut Edits<'t>,
    quiet: usize,
    loops: bool,
}

impl<'ast, 'a, 'e, 't> Visit<'ast> for Sites<'a, 'e, 't> {
    fn visit_expr_closure(&mut self, c: &'ast syn::ExprClosure) {
        self.quiet += 1;
        visit::visit_expr_closure(self, c);
        self.quiet -= 1;
    }
    fn visit_expr_async(&mut self, _: &'ast syn::ExprAsync) {}
    fn visit_item(&mut self, _: &'ast syn::Item) {}
    fn visit_macro(&mut self, m: &'ast syn::Macro) {
        if m.path.segments.last().is_some_and(|s| s.ident == "select") {
            if let Ok(s) = syn::parse2::<crate::rewrite::Select>(m.tokens.clone()) {
                for a in &s.arms {
                    Visit::visit_expr(self, &a.body);
                }
            }
        }
    }
    fn visit_expr(&mut self, e: &'ast syn::Expr) {
        if self.site(e) {
            return; // what is inside comes with the next round
        }
        visit::visit_expr(self, e);
    }
}

impl<'a, 'e, 't> Sites<'a, 'e, 't> {
    fn site(&mut self, e: &syn::Expr) -> bool {
        let (e1, tried) = match e {
            syn::Expr::Try(t) => (&*t.expr, true),
            _ => (e, false),
        };
        let (e2, awaited) = match e1 {
            syn::Expr::Await(a) => (&*a.base, true),
            _ => (e1, false),
        };
        let (h, recv, args): (&Helper, Option<&syn::Expr>, _) = match e2 {
            syn::Expr::Call(c) => {
                let syn::Expr::Path(p) = &*c.func else { return false };
                let seg: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                let name = match seg.as_slice() {
                    [f] => f.clone(),
                    [t, f] if t == "Self" => match self.ty {
                        Some(ty) => format!("{}::{}", ty, f),
                        None => return false,
                    },
                    [t, f] => format!("{}::{}", t, f),
                    _ => return false,
                };
                let Some(h) = self.helpers.get(&name) else { return false };
                if h.sig.receiver().is_some() {
                    return false;
                }
                (h, None, &c.args)
            }
            syn::Expr::MethodCall(m) => {
                let me = matches!(&*m.receiver, syn::Expr::Path(p) if p.path.is_ident("self"));
                let short = m.method.to_string();
                let found = if me {
                    self.ty.and_then(|t| self.helpers.get(&format!("{}::{}", t, short)))
                } else {
                    None
                };
                let Some(h) = found else { return false };
                if h.sig.receiver().is_none() {
                    return false;
                }
                (h, Some(&*m.receiver), &m.args)
            }
            _ => return false,
        };
        let _ = recv;
        if awaited != h.sig.asyncness.is_some() || (awaited && self.sig.asyncness.is_none()) || (self.quiet > 0 && awaited) {
            return false;
        }
        let params: Vec<&syn::PatType> = h.sig.inputs.iter().filter_map(|a| match a { syn::FnArg::Typed(t) => Some(t), _ => None }).collect();
        if params.len() != args.len() {
            return false;
        }
        // leaving the helper early
        let tail = self.quiet == 0 && self.tails.contains(&key(e));
        let same_output = plain(&self.sig.output, self.ty) == plain(&h.sig.output, h.ty.as_deref());
        let esc = escapes(&h.block);
        let body = if tail && !tried && same_output {
            Some(self.copy(h, false))
        } else if esc.question && !(tried && self.quiet == 0 && error_type(&self.sig.output).is_some() && error_type(&self.sig.output) == error_type(&h.sig.output)) {
            None
        } else if esc.returns {
            Some(self.copy(h, true))
        } else {
            Some(self.copy(h, false))
        };
        let Some(Some(mut body)) = body else { return false };
        // parameters
        let mut lets = String::new();
        let mut later = String::new();
        for (k, (p, a)) in params.iter().zip(args.iter()).enumerate() {
            let syn::Pat::Ident(pi) = &*p.pat else { return false };
            let pname = pi.ident.to_string();
            let arg = &self.text[a.span().byte_range()];
            let ident = match a {
                syn::Expr::Path(x) if x.path.segments.len() == 1 && x.qself.is_none() => Some(x.path.segments[0].ident.to_string()),
                _ => None,
            };
            if let (Some(i), None) = (&ident, &pi.mutability) {
                if *i == pname {
                    continue;
                }
                if count_ident(h.block.to_token_stream(), i) == 0 && !params.iter().any(|q| matches!(&*q.pat, syn::Pat::Ident(x) if x.ident == i.as_str())) && !shadowed(&h.block, &pname) {
                    body = rename(&body, &pname, i);
                    continue;
                }
            }
            let t = if mentions_generic(h, &p.ty) { String::new() } else { format!(": {}", type_text(&p.ty, h.ty.as_deref())) };
            let tmp = format!("vx_i{}_{}_{}", self.round, self.n, k);
            lets.push_str(&format!("let {}{} = {};\n", tmp, t, arg));
            later.push_str(&format!("let {}{} = {};\n", if pi.mutability.is_some() { "mut " } else { "" }, pname, tmp));
        }
        let out = match &h.sig.output {
            syn::ReturnType::Default => format!("{}{}{}", lets, later, body),
            syn::ReturnType::Type(_, t) if matches!(&**t, syn::Type::Reference(_)) => format!("{}{}{}", lets, later, body),
            syn::ReturnType::Type(_, t) => {
                let r = format!("vx_r{}_{}", self.round, self.n);
                let ty = if mentions_generic(h, t) { String::new() } else { format!(": {}", type_text(t, h.ty.as_deref())) };
                format!("{}{}let {}{} = {{ {} }};\n{}", lets, later, r, ty, body, r)
            }
        };
        // a tail call is best left a plain block; elsewhere the block must be an operand
        let text = if tail && !tried { format!("{{ {} }}", out) } else { format!("({{ {} }}){}", out, if tried { "?" } else { "" }) };
        self.ed.replace(e.span().byte_range(), &text);
        self.n += 1;
        self.loops |= has_loop(&h.block);
        true
    }

    /// The text of the helper's body, if need be with early returns turned into values.
    fn copy(&self, h: &Helper, unreturn: bool) -> Option<String> {
        let mut s = if unreturn { value_of(self.text, &h.block.stmts)? } else {
            let r = h.block.brace_token.span;
            self.text[r.open().byte_range().end..r.close().byte_range().start].to_string()
        };
        if let Some(t) = &h.ty {
            s = rename(&s, "Self", t);
        }
        Some(s)
    }
}

/// Statements that may leave by `return`, as a block that has the returned value instead.
fn value_of(text: &str, stmts: &[syn::Stmt]) -> Option<String> {
    let Some(first) = stmts.first() else { return Some(String::new()) };
    let src = |r: proc_macro2::Span| text[r.byte_range()].to_string();
    let rest = &stmts[1..];
    if let syn::Stmt::Expr(e, _) = first {
        if let syn::Expr::Return(r) = e {
            return match &r.expr {
                Some(x) if !escapes_expr(x).returns => Some(src(x.span())),
                Some(_) => None,
                None => Some("()".into()),
            };
        }
        if escapes_expr(e).returns {
            // a branch that is left by `return` has that value, the others go on with the rest
            return branch(text, e, rest, matches!(first, syn::Stmt::Expr(_, Some(_))));
        }
    }
    if let syn::Stmt::Local(l) = first {
        if let Some(init) = &l.init {
            if let Some((_, d)) = &init.diverge {
                // let P = e else { return v; };
                let syn::Expr::Block(b) = &**d else { return None };
                if escapes_expr(&init.expr).returns {
                    return None;
                }
                let other = value_of(text, &b.block.stmts)?;
                return Some(format!("if let {} = {} {{ {} }} else {{ {} }}", src(l.pat.span()), src(init.expr.span()), value_of(text, rest)?, other));
            }
            if escapes_expr(&init.expr).returns {
                // let P = match e { A => a, B => return v };
                let syn::Expr::Match(m) = &*init.expr else { return None };
                if escapes_expr(&m.expr).returns {
                    return None;
                }
                let goes_on: Vec<bool> = m.arms.iter().map(|a| !leaves(&a.body)).collect();
                if goes_on.iter().filter(|x| **x).count() > 1 {
                    return None;
                }
                let mut s = format!("match {} {{\n", src(m.expr.span()));
                for (a, on) in m.arms.iter().zip(goes_on) {
                    let guard = a.guard.as_ref().map_or(String::new(), |g| format!(" if {}", src(g.1.span())));
                    let body = if on {
                        if escapes_expr(&a.body).returns {
                            return None;
                        }
                        format!("let {} = {};\n{}", src(l.pat.span()), src(a.body.span()), value_of(text, rest)?)
                    } else {
                        as_value(text, &a.body)?
                    };
                    s.push_str(&format!("{}{} => {{ {} }}\n", src(a.pat.span()), guard, body));
                }
                s.push('}');
                return Some(s);
            }
        }
    }
    if escapes_stmt(first).returns {
        return None;
    }
    Some(format!("{}\n{}", src(first.span()), value_of(text, rest)?))
}

/// Does control never get past this expression?
fn leaves(e: &syn::Expr) -> bool {
    match e {
        syn::Expr::Return(_) => true,
        syn::Expr::Block(b) => leaves_block(&b.block),
        syn::Expr::If(i) => leaves_block(&i.then_branch) && i.else_branch.as_ref().is_some_and(|(_, e)| leaves(e)),
        syn::Expr::Match(m) => m.arms.iter().all(|a| leaves(&a.body)),
        _ => false,
    }
}

fn leaves_block(b: &syn::Block) -> bool {
    matches!(b.stmts.last(), Some(syn::Stmt::Expr(e, _)) if leaves(e))
}

fn as_value(text: &str, e: &syn::Expr) -> Option<String> {
    match e {
        syn::Expr::Block(b) if b.label.is_none() => value_of(text, &b.block.stmts),
        _ => {
            let s = syn::Stmt::Expr(e.clone(), None);
            value_of(text, std::slice::from_ref(&s))
        }
    }
}

/// An `if` or `match` some of whose branches return, followed by `rest`.
fn branch(text: &str, e: &syn::Expr, rest: &[syn::Stmt], semi: bool) -> Option<String> {
    let src = |r: proc_macro2::Span| text[r.byte_range()].to_string();
    let mut on = 0; // branches that go on with the rest
    let mut arm = |b: &syn::Expr| -> Option<String> {
        if leaves(b) {
            return as_value(text, b);
        }
        if escapes_expr(b).returns {
            // nested: only if nothing follows
            if !rest.is_empty() {
                return None;
            }
            return as_value(text, b);
        }
        on += 1;
        if rest.is_empty() && !semi {
            return Some(src(b.span()));
        }
        Some(format!("{};\n{}", src(b.span()), value_of(text, rest)?))
    };
    let s = match e {
        syn::Expr::If(i) => {
            if escapes_expr(&i.cond).returns {
                return None;
            }
            let then = syn::Expr::Block(syn::ExprBlock { attrs: vec![], label: None, block: i.then_branch.clone() });
            let a = arm(&then)?;
            let b = match &i.else_branch {
                Some((_, e)) => arm(e)?,
                None => {
                    on += 1;
                    value_of(text, rest)?
                }
            };
            format!("if {} {{ {} }} else {{ {} }}", src(i.cond.span()), a, b)
        }
        syn::Expr::Match(m) => {
            if escapes_expr(&m.expr).returns {
                return None;
            }
            let mut s = format!("match {} {{\n", src(m.expr.span()));
            for a in &m.arms {
                let guard = a.guard.as_ref().map_or(String::new(), |g| format!(" if {}", src(g.1.span())));
                s.push_str(&format!("{}{} => {{ {} }}\n", src(a.pat.span()), guard, arm(&a.body)?));
            }
            s + "}"
        }
        _ => return None,
    };
    if on > 1 && !rest.is_empty() {
        return None; // the rest would be there twice
    }
    Some(s)
}

#[derive(Default, Clone, Copy)]
struct Escapes {
    returns: bool,
    question: bool,
}

impl<'ast> Visit<'ast> for Escapes {
    fn visit_expr_return(&mut self, r: &'ast syn::ExprReturn) {
        self.returns = true;
        visit::visit_expr_return(self, r);
    }
    fn visit_expr_try(&mut self, t: &'ast syn::ExprTry) {
        self.question = true;
        visit::visit_expr_try(self, t);
    }
    fn visit_expr_closure(&mut self, _: &'ast syn::ExprClosure) {}
    fn visit_expr_async(&mut self, _: &'ast syn::ExprAsync) {}
    fn visit_item(&mut self, _: &'ast syn::Item) {}
    fn visit_macro(&mut self, m: &'ast syn::Macro) {
        if count_ident(m.tokens.clone(), "return") > 0 {
            self.returns = true;
        }
    }
}

fn escapes(b: &syn::Block) -> Escapes {
    let mut e = Escapes::default();
    e.visit_block(b);
    e
}

fn escapes_expr(x: &syn::Expr) -> Escapes {
    let mut e = Escapes::default();
    e.visit_expr(x);
    e
}

fn escapes_stmt(x: &syn::Stmt) -> Escapes {
    let mut e = Escapes::default();
    e.visit_stmt(x);
    e
}

fn has_loop(b: &syn::Block) -> bool {
    struct L(bool);
    impl<'ast> Visit<'ast> for L {
        fn visit_expr_loop(&mut self, _: &'ast syn::ExprLoop) { self.0 = true }
        fn visit_expr_while(&mut self, _: &'ast syn::ExprWhile) { self.0 = true }
        fn visit_expr_for_loop(&mut self, _: &'ast syn::ExprForLoop) { self.0 = true }
        fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) {
            if m.method == "for_each" || m.method == "collect" {
                self.0 = true;
            }
            visit::visit_expr_method_call(self, m);
        }
    }
    let mut l = L(false);
    l.visit_block(b);
    l.0
}

/// Is the name bound anew anywhere in the block?
fn shadowed(b: &syn::Block, name: &str) -> bool {
    struct S<'a>(&'a str, bool);
    impl<'ast, 'a> Visit<'ast> for S<'a> {
        fn visit_pat_ident(&mut self, p: &'ast syn::PatIdent) {
            self.1 |= p.ident == self.0;
            visit::visit_pat_ident(self, p);
        }
        fn visit_field_value(&mut self, f: &'ast syn::FieldValue) {
            // `T { name }` would have to become `T { name: other }`
            self.1 |= f.colon_token.is_none() && matches!(&f.member, syn::Member::Named(n) if n == self.0);
            visit::visit_field_value(self, f);
        }
        fn visit_field_pat(&mut self, f: &'ast syn::FieldPat) {
            self.1 |= matches!(&f.member, syn::Member::Named(n) if n == self.0);
            visit::visit_field_pat(self, f);
        }
        fn visit_macro(&mut self, m: &'ast syn::Macro) {
            // inline arguments of format strings
            let t = m.tokens.to_string();
            self.1 |= t.contains(&format!("{{{}", self.0));
        }
    }
    let mut s = S(name, false);
    s.visit_block(b);
    s.1
}

/// Replaces a variable (or `Self`): the identifier where it is not a field, method or path part.
fn rename(text: &str, from: &str, to: &str) -> String {
    let Ok(t) = text.parse::<TokenStream>() else { return text.to_string() };
    // positions are those in the parsed string
    fn walk(t: TokenStream, from: &str, out: &mut Vec<std::ops::Range<usize>>) {
        let v: Vec<TokenTree> = t.into_iter().collect();
        for (i, x) in v.iter().enumerate() {
            match x {
                TokenTree::Ident(id) if id == from => {
                    let punct = |k: Option<&TokenTree>, c: char| matches!(k, Some(TokenTree::Punct(p)) if p.as_char() == c);
                    let prev = if i > 0 { v.get(i - 1) } else { None };
                    let prev2 = if i > 1 { v.get(i - 2) } else { None };
                    let field = punct(prev, '.') && !punct(prev2, '.');
                    let path = punct(prev, ':') && punct(prev2, ':');
                    // `name: value` in a struct expression
                    let init = punct(v.get(i + 1), ':') && !punct(v.get(i + 2), ':') && from != "Self";
                    if !field && !path && !init {
                        out.push(id.span().byte_range());
                    }
                }
                TokenTree::Group(g) => walk(g.stream(), from, out),
                _ => {}
            }
        }
    }
    let mut places = Vec::new();
    walk(t, from, &mut places);
    places.sort_by_key(|r| r.start);
    let mut s = String::new();
    let mut at = 0;
    for r in places {
        s.push_str(&text[at..r.start]);
        s.push_str(to);
        at = r.end;
    }
    s.push_str(&text[at..]);
    s
}

/// A type without its lifetimes and `Self`.
fn type_text(t: &syn::Type, me: Option<&str>) -> String {
    strip(t.to_token_stream(), me).to_string()
}

fn strip(t: TokenStream, me: Option<&str>) -> TokenStream {
    let v: Vec<TokenTree> = t.into_iter().collect();
    let mut out: Vec<TokenTree> = Vec::new();
    let mut i = 0;
    while i < v.len() {
        match &v[i] {
            TokenTree::Punct(p) if p.as_char() == '\'' => {
                let is_static = matches!(v.get(i + 1), Some(TokenTree::Ident(x)) if x == "static");
                let after_ref = matches!(out.last(), Some(TokenTree::Punct(q)) if q.as_char() == '&');
                if is_static || !after_ref {
                    // `T<'a>` becomes `T<'_>`
                    out.push(v[i].clone());
                    if is_static {
                        out.push(v[i + 1].clone());
                    } else {
                        out.push(TokenTree::Ident(proc_macro2::Ident::new("_", proc_macro2::Span::call_site())));
                    }
                }
                i += 2;
                continue;
            }
            TokenTree::Ident(x) if x == "Self" && me.is_some() => {
                out.push(TokenTree::Ident(proc_macro2::Ident::new(me.unwrap(), x.span())));
            }
            TokenTree::Group(g) => {
                out.push(TokenTree::Group(proc_macro2::Group::new(g.delimiter(), strip(g.stream(), me))));
            }
            x => out.push(x.clone()),
        }
        i += 1;
    }
    out.into_iter().collect()
}

fn plain(o: &syn::ReturnType, me: Option<&str>) -> String {
    match o {
        syn::ReturnType::Default => String::new(),
        syn::ReturnType::Type(_, t) => type_text(t, me),
    }
}

/// The error type of a `Result<_, E>`.
fn error_type(o: &syn::ReturnType) -> Option<String> {
    let syn::ReturnType::Type(_, t) = o else { return None };
    let syn::Type::Path(p) = &**t else { return None };
    let last = p.path.segments.last()?;
    if last.ident != "Result" {
        return None;
    }
    let syn::PathArguments::AngleBracketed(a) = &last.arguments else { return None };
    let e = a.args.iter().nth(1).map(|e| e.to_token_stream().to_string());
    Some(e.unwrap_or_else(|| p.to_token_stream().to_string()))
}
