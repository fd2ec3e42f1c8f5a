//! Closures of which the verifier would know nothing, written out: the combinators of `Option` and
//! `Result` become `match`, a few idioms over vectors become the form the contracts know.
use crate::contracts::ModuleC;
use crate::edit::Edits;
use crate::rewrite::{functions_of, item_attrs};
use quote::ToTokens;
use std::collections::BTreeMap;
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Opt,
    Res,
    Other,
}

/// What the functions of the crate return, by name, where all of that name agree.
pub fn returns<'a>(files: impl Iterator<Item = &'a syn::File>) -> BTreeMap<String, Kind> {
    struct S(BTreeMap<String, Kind>);
    impl<'ast> Visit<'ast> for S {
        fn visit_signature(&mut self, s: &'ast syn::Signature) {
            let k = match &s.output {
                syn::ReturnType::Type(_, t) => type_kind(t),
                _ => Kind::Other,
            };
            let e = self.0.entry(s.ident.to_string()).or_insert(k);
            if *e != k {
                *e = Kind::Other;
            }
        }
    }
    let mut s = S(BTreeMap::new());
    for f in files {
        s.visit_file(f);
    }
    s.0
}

fn type_kind(t: &syn::Type) -> Kind {
    match t {
        syn::Type::Path(p) => match p.path.segments.last().unwrap().ident.to_string().as_str() {
            "Option" => Kind::Opt,
            "Result" => Kind::Res,
            _ => Kind::Other,
        },
        syn::Type::Paren(p) => type_kind(&p.elem),
        _ => Kind::Other,
    }
}

pub fn normalise(text: &str, ast: &syn::File, mc: &ModuleC, returns: &BTreeMap<String, Kind>) -> Option<(String, usize)> {
    let mut text = text.to_string();
    let mut ast = ast.clone();
    let mut total = 0;
    for round in 0..8 {
        let mut ed = Edits::new(&text);
        let mut n = 0;
        let fns: Vec<(String, syn::Block)> = functions_of(&ast).iter().map(|f| (f.name.clone(), f.block.clone())).collect();
        for item in &ast.items {
            if crate::is_test_item(item_attrs(item)) {
                continue;
            }
            let mut v = V { text: &text, ed: &mut ed, n: 0, round, base: n, returns, vars: vec![], mc, split: false };
            v.visit_item(item);
            n += v.n;
        }
        let _ = fns;
        if n == 0 {
            break;
        }
        let new = ed.apply();
        let Ok(parsed) = syn::parse_file(&new) else { break };
        text = new;
        ast = parsed;
        total += n;
    }
    if total == 0 { None } else { Some((text, total)) }
}

struct V<'a, 'e, 't> {
    text: &'t str,
    ed: &'e mut Edits<'t>,
    n: usize,
    round: usize,
    base: usize,
    returns: &'a BTreeMap<String, Kind>,
    vars: Vec<(String, Kind)>,
    mc: &'a ModuleC,
    /// the contract expects the pieces of a split in a variable, and there is none
    split: bool,
}

impl<'ast, 'a, 'e, 't> Visit<'ast> for V<'a, 'e, 't> {
    fn visit_item_impl(&mut self, i: &'ast syn::ItemImpl) {
        let ty = crate::rewrite::self_name(i);
        if self.mc.external.contains(&format!("impl {}", ty)) {
            return;
        }
        for it in &i.items {
            if let syn::ImplItem::Fn(f) = it {
                self.function(&format!("{}::{}", ty, f.sig.ident), &f.attrs, &f.sig, &f.block);
            }
        }
    }
    fn visit_item_fn(&mut self, f: &'ast syn::ItemFn) {
        self.function(&f.sig.ident.to_string(), &f.attrs, &f.sig, &f.block);
    }
    fn visit_item_mod(&mut self, _: &'ast syn::ItemMod) {}
    fn visit_local(&mut self, l: &'ast syn::Local) {
        visit::visit_local(self, l);
        match &l.pat {
            syn::Pat::Type(t) => {
                if let syn::Pat::Ident(p) = &*t.pat {
                    self.vars.push((p.ident.to_string(), type_kind(&t.ty)));
                }
            }
            syn::Pat::Ident(p) => {
                let k = l.init.as_ref().map_or(Kind::Other, |i| self.kind(&i.expr));
                self.vars.push((p.ident.to_string(), k));
            }
            _ => {}
        }
    }
    fn visit_expr_binary(&mut self, b: &'ast syn::ExprBinary) {
        // bits of literals: a literal
        if matches!(b.op, syn::BinOp::Shl(_) | syn::BinOp::Shr(_) | syn::BinOp::BitOr(_) | syn::BinOp::BitAnd(_)) {
            if let Some((n, suffix)) = folded(&syn::Expr::Binary(b.clone())) {
                self.ed.replace(b.span().byte_range(), &format!("{}{}", n, suffix));
                self.n += 1;
                return;
            }
        }
        visit::visit_expr_binary(self, b);
    }
    fn visit_expr_for_loop(&mut self, l: &'ast syn::ExprForLoop) {
        if let Some(s) = self.unrolled(l) {
            self.ed.replace(l.span().byte_range(), &s);
            self.n += 1;
            return;
        }
        if !self.continues(&l.body, &l.label) {
            visit::visit_expr_for_loop(self, l);
        }
    }
    fn visit_expr_while(&mut self, l: &'ast syn::ExprWhile) {
        if !self.continues(&l.body, &l.label) {
            visit::visit_expr_while(self, l);
        }
    }
    fn visit_expr_loop(&mut self, l: &'ast syn::ExprLoop) {
        if let Some(s) = self.while_let(l) {
            self.ed.replace(l.span().byte_range(), &s);
            self.n += 1;
            return;
        }
        if !self.continues(&l.body, &l.label) {
            visit::visit_expr_loop(self, l);
        }
    }
    fn visit_stmt(&mut self, s: &'ast syn::Stmt) {
        if let syn::Stmt::Expr(e, semi) = s {
            if self.statement(e, s, semi.is_some()) {
                self.n += 1;
                return;
            }
        }
        visit::visit_stmt(self, s);
    }
    fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) {
        if let Some(t) = self.call(m) {
            self.ed.replace(m.span().byte_range(), &t);
            self.n += 1;
            return;
        }
        visit::visit_expr_method_call(self, m);
    }
}

impl<'a, 'e, 't> V<'a, 'e, 't> {
    fn src(&self, e: &impl Spanned) -> String {
        self.text[e.span().byte_range()].to_string()
    }

    fn function(&mut self, name: &str, attrs: &[syn::Attribute], sig: &syn::Signature, block: &syn::Block) {
        if crate::is_test_item(attrs) || self.mc.external.contains(name) || self.mc.external.contains(&sig.ident.to_string()) {
            return;
        }
        self.vars.clear();
        for a in &sig.inputs {
            if let syn::FnArg::Typed(t) = a {
                if let syn::Pat::Ident(p) = &*t.pat {
                    self.vars.push((p.ident.to_string(), type_kind(&t.ty)));
                }
            }
        }
        self.split = self.mc.fns.get(name).is_some_and(|f| f.locals.iter().any(|(_, i)| i == ".split(")) && {
            struct L<'b>(bool, &'b str);
            impl<'ast, 'b> Visit<'ast> for L<'b> {
                fn visit_local(&mut self, l: &'ast syn::Local) {
                    if l.init.as_ref().is_some_and(|i| self.1[i.expr.span().byte_range()].contains(".split(")) {
                        self.0 = true;
                    }
                    visit::visit_local(self, l);
                }
            }
            let mut l = L(false, self.text);
            l.visit_block(block);
            !l.0
        };
        self.visit_block(block);
    }

    /// Is it an `Option` or a `Result`? Only where that is plain from the text.
    fn kind(&self, e: &syn::Expr) -> Kind {
        match e {
            syn::Expr::Paren(p) => self.kind(&p.expr),
            syn::Expr::Await(a) => match &*a.base {
                // the answer of a oneshot channel
                syn::Expr::Path(_) => Kind::Res,
                b => self.kind(b),
            },
            syn::Expr::Path(p) => match p.path.get_ident() {
                Some(i) if i == "None" => Kind::Opt,
                Some(i) => self.vars.iter().rev().find(|(n, _)| i == n.as_str()).map_or(Kind::Other, |(_, k)| *k),
                None => Kind::Other,
            },
            syn::Expr::Call(c) => {
                let syn::Expr::Path(p) = &*c.func else { return Kind::Other };
                let last = p.path.segments.last().unwrap().ident.to_string();
                match last.as_str() {
                    "Some" => Kind::Opt,
                    "Ok" | "Err" => Kind::Res,
                    "from_utf8" | "read_to_string" | "try_from" => Kind::Res,
                    _ if p.path.segments.len() == 1 || p.path.segments[0].ident == "Self" => self.returns.get(&last).copied().unwrap_or(Kind::Other),
                    _ => Kind::Other,
                }
            }
            syn::Expr::MethodCall(m) => {
                let n = m.method.to_string();
                match (n.as_str(), m.args.len()) {
                    ("as_ref" | "as_mut" | "cloned" | "copied" | "as_deref" | "as_deref_mut", 0) => self.kind(&m.receiver),
                    ("map" | "and_then" | "or_else" | "filter" | "or" | "and", 1) => self.kind(&m.receiver),
                    ("ok" | "err" | "take", 0) if self.kind(&m.receiver) != Kind::Other => Kind::Opt,
                    ("ok_or_else" | "ok_or" | "map_err", 1) => Kind::Res,
                    ("split_once" | "rsplit_once" | "strip_prefix" | "strip_suffix", 1) => Kind::Opt,
                    ("checked_add" | "checked_sub" | "checked_mul" | "checked_div" | "checked_rem", 1) => Kind::Opt,
                    ("parse", 0) => Kind::Res,
                    ("position" | "find" | "find_map", 1) => Kind::Opt,
                    ("first" | "last" | "pop" | "next", 0) => Kind::Opt,
                    // a map's or a slice's
                    ("get" | "get_mut", 1) if self.returns.get(&n) != Some(&Kind::Res) => Kind::Opt,
                    ("send", 1) => Kind::Res,
                    ("recv", 0) => Kind::Opt,
                    _ => self.returns.get(&n).copied().unwrap_or(Kind::Other),
                }
            }
            _ => Kind::Other,
        }
    }

    /// `f` applied to a variable: (pattern, expression).
    fn apply(&self, f: &syn::Expr, arity: usize) -> Option<(Vec<String>, String)> {
        match f {
            syn::Expr::Closure(c) if c.inputs.len() == arity && c.asyncness.is_none() => {
                if escapes(&c.body) {
                    return None;
                }
                let pats = c.inputs.iter().map(|p| match p {
                    syn::Pat::Type(t) => self.src(&t.pat),
                    p => self.src(p),
                });
                Some((pats.collect(), format!("({})", self.src(&*c.body))))
            }
            syn::Expr::Path(p) => {
                if arity == 0 {
                    return Some((vec![], format!("{}()", self.src(p))));
                }
                // a local could be a closure; a name with a path or a capital is a function or a variant
                let v = format!("vx_v{}_{}", self.round, self.base + self.n);
                Some((vec![v.clone()], format!("{}({})", self.src(p), v)))
            }
            _ => None,
        }
    }

    fn call(&self, m: &syn::ExprMethodCall) -> Option<String> {
        let n = m.method.to_string();
        let x = &*m.receiver;
        let args: Vec<&syn::Expr> = m.args.iter().collect();
        let closure = |k: usize| matches!(args.get(k), Some(syn::Expr::Closure(_)));
        let arity = |k: usize| match args.get(k) {
            Some(syn::Expr::Closure(c)) => Some(c.inputs.len()),
            _ => None,
        };
        let s = self.src(x);
        // x.iter().any(|c| c == y)
        if n == "any" && closure(0) {
            let syn::Expr::Closure(c) = args[0] else { return None };
            let syn::Expr::MethodCall(it) = x else { return None };
            if it.method != "iter" || !it.args.is_empty() || c.inputs.len() != 1 {
                return None;
            }
            let syn::Pat::Ident(p) = &c.inputs[0] else { return None };
            let syn::Expr::Binary(b) = &*c.body else { return None };
            if !matches!(b.op, syn::BinOp::Eq(_)) {
                return None;
            }
            let var = |e: &syn::Expr| matches!(e, syn::Expr::Path(q) if q.path.is_ident(&p.ident));
            let deref = |e: &syn::Expr| matches!(e, syn::Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) && var(&u.expr));
            let (l, r) = (&*b.left, &*b.right);
            let v = self.src(&*it.receiver);
            return if var(l) && plain_ref(r) {
                Some(format!("{}.contains({})", v, self.src(r)))
            } else if var(r) && plain_ref(l) {
                Some(format!("{}.contains({})", v, self.src(l)))
            } else if deref(l) && !mentions(r, &p.ident) {
                Some(format!("{}.contains({})", v, amp(&self.src(r))))
            } else if deref(r) && !mentions(l, &p.ident) {
                Some(format!("{}.contains({})", v, amp(&self.src(l))))
            } else {
                None
            };
        }
        // m.entry(k).or_insert_with(T::new): what is made and not used has no effect
        if n == "or_insert_with" && args.len() == 1 {
            let made = match args[0] {
                syn::Expr::Path(p) if p.path.segments.last().unwrap().ident == "new" => Some(format!("{}()", self.src(p))),
                syn::Expr::Closure(c) if c.inputs.is_empty() => match &*c.body {
                    syn::Expr::Call(k) if k.args.is_empty() && matches!(&*k.func, syn::Expr::Path(p) if p.path.segments.last().unwrap().ident == "new") => Some(self.src(k)),
                    _ => None,
                },
                _ => None,
            };
            return made.map(|c| format!("{}.or_insert({})", s, c));
        }
        if n == "then" && arity(0) == Some(0) {
            let (_, b) = self.apply(args[0], 0)?;
            return Some(format!("(if {} {{ Some({}) }} else {{ None }})", s, b));
        }
        let k = self.kind(x);
        let k = match (n.as_str(), args.len()) {
            ("ok_or_else" | "is_some_and" | "is_none_or", 1) => Kind::Opt,
            ("map_err" | "is_ok_and" | "is_err_and", 1) => Kind::Res,
            ("unwrap_or_else" | "or_else", 1) if arity(0) == Some(0) => Kind::Opt,
            ("unwrap_or_else", 1) if arity(0) == Some(1) => Kind::Res,
            ("map_or_else", 2) if arity(0) == Some(0) => Kind::Opt,
            ("map_or_else", 2) if arity(0) == Some(1) => Kind::Res,
            _ => k,
        };
        if k == Kind::Other {
            return None;
        }
        let other = format!("vx_o{}_{}", self.round, self.base + self.n);
        let t = match (n.as_str(), args.len(), k) {
            ("map", 1, Kind::Opt) => {
                let (p, b) = self.apply(args[0], 1)?;
                format!("Some({}) => Some({}), None => None", p[0], b)
            }
            ("map", 1, Kind::Res) => {
                let (p, b) = self.apply(args[0], 1)?;
                format!("Ok({}) => Ok({}), Err({o}) => Err({o})", p[0], b, o = other)
            }
            ("and_then", 1, Kind::Opt) => {
                let (p, b) = self.apply(args[0], 1)?;
                format!("Some({}) => {}, None => None", p[0], b)
            }
            ("and_then", 1, Kind::Res) => {
                let (p, b) = self.apply(args[0], 1)?;
                format!("Ok({}) => {}, Err({o}) => Err({o})", p[0], b, o = other)
            }
            ("map_err", 1, _) => {
                let (p, b) = self.apply(args[0], 1)?;
                format!("Ok({o}) => Ok({o}), Err({}) => Err({})", p[0], b, o = other)
            }
            ("ok_or_else", 1, _) => {
                let (_, b) = self.apply(args[0], 0)?;
                format!("Some({o}) => Ok({o}), None => Err({})", b, o = other)
            }
            ("or_else", 1, Kind::Opt) => {
                let (_, b) = self.apply(args[0], 0)?;
                format!("Some({o}) => Some({o}), None => {}", b, o = other)
            }
            ("unwrap_or_else", 1, Kind::Opt) => {
                let (_, b) = self.apply(args[0], 0)?;
                format!("Some({o}) => {o}, None => {}", b, o = other)
            }
            ("unwrap_or_else", 1, Kind::Res) => {
                let (p, b) = self.apply(args[0], 1)?;
                format!("Ok({o}) => {o}, Err({}) => {}", p[0], b, o = other)
            }
            ("map_or", 2, _) => {
                if !constant(args[0]) {
                    return None;
                }
                let (p, b) = self.apply(args[1], 1)?;
                let d = self.src(args[0]);
                if k == Kind::Opt {
                    format!("Some({}) => {}, None => {}", p[0], b, d)
                } else {
                    format!("Ok({}) => {}, Err(_) => {}", p[0], b, d)
                }
            }
            ("map_or_else", 2, Kind::Opt) => {
                let (_, d) = self.apply(args[0], 0)?;
                let (p, b) = self.apply(args[1], 1)?;
                format!("Some({}) => {}, None => {}", p[0], b, d)
            }
            ("map_or_else", 2, Kind::Res) => {
                let (q, d) = self.apply(args[0], 1)?;
                let (p, b) = self.apply(args[1], 1)?;
                format!("Ok({}) => {}, Err({}) => {}", p[0], b, q[0], d)
            }
            ("is_some_and", 1, _) => {
                let (p, b) = self.apply(args[0], 1)?;
                format!("Some({}) => {}, None => false", p[0], b)
            }
            ("is_none_or", 1, _) => {
                let (p, b) = self.apply(args[0], 1)?;
                format!("Some({}) => {}, None => true", p[0], b)
            }
            ("is_ok_and", 1, _) => {
                let (p, b) = self.apply(args[0], 1)?;
                format!("Ok({}) => {}, Err(_) => false", p[0], b)
            }
            ("is_err_and", 1, _) => {
                let (p, b) = self.apply(args[0], 1)?;
                format!("Err({}) => {}, Ok(_) => false", p[0], b)
            }
            ("filter", 1, Kind::Opt) => {
                let (p, b) = self.apply(args[0], 1)?;
                format!("Some({o}) => {{ let vx_keep = {{ let {} = &{o}; {} }}; if vx_keep {{ Some({o}) }} else {{ None }} }}, None => None", p[0], b, o = other)
            }
            _ => return None,
        };
        // `x.map(..)` as a statement or for its effect keeps its own rewrite
        Some(format!("(match {} {{ {} }})", s, t))
    }

    fn statement(&mut self, e: &syn::Expr, whole: &syn::Stmt, semi: bool) -> bool {
        // opt.map(|p| effect); has a rewrite of its own, which the annotations know
        if let syn::Expr::MethodCall(m) = e {
            if m.method == "map" && semi {
                return false;
            }
            // v.extend(x.iter().cloned()), v.extend_from_slice(&x)
            if m.args.len() == 1 && (m.method == "extend" || m.method == "extend_from_slice") {
                let from = match (&m.args[0], m.method == "extend") {
                    (syn::Expr::MethodCall(c), true) if (c.method == "cloned" || c.method == "copied") && c.args.is_empty() => match &*c.receiver {
                        syn::Expr::MethodCall(i) if i.method == "iter" && i.args.is_empty() => Some(self.src(&*c.receiver)),
                        _ => None,
                    },
                    (syn::Expr::Reference(r), false) if r.mutability.is_none() => Some(format!("{}.iter()", self.src(&*r.expr))),
                    _ => None,
                };
                if let Some(f) = from {
                    let t = format!("{f}.for_each(|vx_x{r}_{n}| {v}.push(vx_x{r}_{n}.clone()));", v = self.src(&*m.receiver), r = self.round, n = self.base + self.n);
                    self.ed.replace(whole.span().byte_range(), &t);
                    return true;
                }
            }
        }
        // for p in s.split(..) { .. } where the contract expects the pieces in a variable
        if let (true, syn::Expr::ForLoop(f)) = (self.split, e) {
            if f.label.is_none() {
                if let syn::Expr::MethodCall(m) = &*f.expr {
                    if m.method == "split" && m.args.len() == 1 {
                        let v = format!("vx_pieces{}_{}", self.round, self.base + self.n);
                        let r = f.expr.span().byte_range();
                        self.ed.insert(whole.span().byte_range().start, &format!("let {}: Vec<&str> = {}.collect();\n", v, self.src(&*f.expr)));
                        self.ed.replace(r, &v);
                        self.split = false;
                        return true;
                    }
                }
            }
        }
        false
    }
}

fn amp(s: &str) -> String {
    match s.strip_prefix('*') {
        Some(r) => r.to_string(),
        None => format!("&{}", s),
    }
}

/// A name, or a field of one.
fn plain_ref(e: &syn::Expr) -> bool {
    match e {
        syn::Expr::Path(_) => true,
        syn::Expr::Reference(r) => plain_ref(&r.expr),
        syn::Expr::Field(f) => plain_ref(&f.base),
        syn::Expr::Paren(p) => plain_ref(&p.expr),
        _ => false,
    }
}

fn mentions(e: &syn::Expr, id: &syn::Ident) -> bool {
    e.to_token_stream().to_string().split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| *id == w)
}

fn constant(e: &syn::Expr) -> bool {
    match e {
        syn::Expr::Lit(_) | syn::Expr::Path(_) => true,
        syn::Expr::Unary(u) => constant(&u.expr),
        syn::Expr::Call(c) => matches!(&*c.func, syn::Expr::Path(p) if p.path.segments.last().unwrap().ident.to_string().starts_with(char::is_uppercase)) && c.args.iter().all(constant),
        syn::Expr::Paren(p) => constant(&p.expr),
        _ => false,
    }
}

/// Would the body mean something else outside of its closure?
fn escapes(e: &syn::Expr) -> bool {
    struct E(bool);
    impl<'ast> Visit<'ast> for E {
        fn visit_expr_return(&mut self, _: &'ast syn::ExprReturn) { self.0 = true }
        fn visit_expr_try(&mut self, _: &'ast syn::ExprTry) { self.0 = true }
        fn visit_expr_closure(&mut self, _: &'ast syn::ExprClosure) {}
        fn visit_macro(&mut self, m: &'ast syn::Macro) {
            if m.tokens.to_string().contains("return") {
                self.0 = true;
            }
        }
    }
    let mut v = E(false);
    v.visit_expr(e);
    v.0
}

// ------------------------------------------------------------------ continue

/// Whether a loop's own `continue` occurs here.
fn has_continue<T>(x: &T, visit: impl Fn(&mut Continues, &T)) -> bool {
    let mut c = Continues(false);
    visit(&mut c, x);
    c.0
}

struct Continues(bool);

impl<'ast> Visit<'ast> for Continues {
    fn visit_expr_continue(&mut self, _: &'ast syn::ExprContinue) {
        self.0 = true;
    }
    fn visit_expr_for_loop(&mut self, l: &'ast syn::ExprForLoop) {
        self.visit_expr(&l.expr);
    }
    fn visit_expr_while(&mut self, _: &'ast syn::ExprWhile) {}
    fn visit_expr_loop(&mut self, _: &'ast syn::ExprLoop) {}
    fn visit_expr_closure(&mut self, _: &'ast syn::ExprClosure) {}
    fn visit_expr_async(&mut self, _: &'ast syn::ExprAsync) {}
    fn visit_item(&mut self, _: &'ast syn::Item) {}
}

/// A labelled `continue` anywhere.
struct Labelled(bool);

impl<'ast> Visit<'ast> for Labelled {
    fn visit_expr_continue(&mut self, c: &'ast syn::ExprContinue) {
        self.0 |= c.label.is_some();
    }
}

fn stmt_continues(s: &syn::Stmt) -> bool {
    has_continue(s, |c, s| c.visit_stmt(s))
}

fn block_continues(b: &syn::Block) -> bool {
    has_continue(b, |c, b| c.visit_block(b))
}

fn expr_continues(e: &syn::Expr) -> bool {
    has_continue(e, |c, e| c.visit_expr(e))
}

fn just_breaks(e: &syn::Expr) -> bool {
    match e {
        syn::Expr::Break(b) => b.label.is_none() && b.expr.is_none(),
        syn::Expr::Block(b) => b.label.is_none() && matches!(b.block.stmts.as_slice(), [syn::Stmt::Expr(e, _)] if just_breaks(e)),
        _ => false,
    }
}

/// A `break` with a value or a label.
fn valued_break(b: &syn::Block) -> bool {
    struct B(bool);
    impl<'ast> Visit<'ast> for B {
        fn visit_expr_break(&mut self, b: &'ast syn::ExprBreak) {
            self.0 |= b.expr.is_some() || b.label.is_some();
        }
    }
    let mut v = B(false);
    v.visit_block(b);
    v.0
}

fn has_break_or_loop(b: &syn::Block) -> bool {
    struct B(bool);
    impl<'ast> Visit<'ast> for B {
        fn visit_expr_break(&mut self, _: &'ast syn::ExprBreak) { self.0 = true }
        fn visit_expr_continue(&mut self, _: &'ast syn::ExprContinue) { self.0 = true }
        fn visit_expr_for_loop(&mut self, _: &'ast syn::ExprForLoop) { self.0 = true }
        fn visit_expr_while(&mut self, _: &'ast syn::ExprWhile) { self.0 = true }
        fn visit_expr_loop(&mut self, _: &'ast syn::ExprLoop) { self.0 = true }
        fn visit_macro(&mut self, m: &'ast syn::Macro) {
            self.0 |= m.path.is_ident("select");
        }
    }
    let mut v = B(false);
    v.visit_block(b);
    v.0
}

fn is_continue(s: &syn::Stmt) -> bool {
    matches!(s, syn::Stmt::Expr(syn::Expr::Continue(_), _))
}

/// Names bound by a pattern.
fn bound(p: &syn::Pat) -> Vec<String> {
    struct B(Vec<String>);
    impl<'ast> Visit<'ast> for B {
        fn visit_pat_ident(&mut self, p: &'ast syn::PatIdent) {
            if p.ident.to_string().starts_with(char::is_lowercase) || p.ident.to_string().starts_with('_') {
                self.0.push(p.ident.to_string());
            }
        }
    }
    let mut b = B(vec![]);
    b.visit_pat(p);
    b.0
}

fn names_in(stmts: &[syn::Stmt], names: &[String]) -> bool {
    fn tokens(t: proc_macro2::TokenStream, names: &[String]) -> bool {
        t.into_iter().any(|t| match t {
            proc_macro2::TokenTree::Ident(i) => names.contains(&i.to_string()),
            proc_macro2::TokenTree::Group(g) => tokens(g.stream(), names),
            // {name} in a format string
            proc_macro2::TokenTree::Literal(l) => names.iter().any(|n| l.to_string().contains(&format!("{{{}", n))),
            _ => false,
        })
    }
    stmts.iter().any(|s| tokens(s.to_token_stream(), names))
}

impl V<'_, '_, '_> {
    /// `if c { a; continue; } b` becomes `if c { a } else { b }`
    fn continues(&mut self, body: &syn::Block, label: &Option<syn::Label>) -> bool {
        if !block_continues(body) || label.is_some() {
            return false;
        }
        let mut l = Labelled(false);
        l.visit_block(body);
        if l.0 {
            return false;
        }
        let Some(t) = self.to_the_end(&body.stmts) else { return false };
        let (a, b) = (body.brace_token.span.open().byte_range().end, body.brace_token.span.close().byte_range().start);
        self.ed.replace(a..b, &format!(" {} ", t));
        self.n += 1;
        true
    }

    fn text_of(&self, stmts: &[syn::Stmt]) -> String {
        match (stmts.first(), stmts.last()) {
            (Some(a), Some(b)) => self.text[a.span().byte_range().start..b.span().byte_range().end].to_string(),
            _ => String::new(),
        }
    }

    /// What is left of a block that ends with `continue`; None if it goes on otherwise.
    fn ends(&self, b: &syn::Block) -> Option<String> {
        let (last, before) = b.stmts.split_last()?;
        if !is_continue(last) || before.iter().any(stmt_continues) {
            return None;
        }
        Some(self.text_of(before))
    }

    fn ends_expr(&self, e: &syn::Expr) -> Option<String> {
        match e {
            syn::Expr::Continue(_) => Some(String::new()),
            syn::Expr::Block(b) if b.label.is_none() => self.ends(&b.block),
            _ => None,
        }
    }

    /// A `loop` that begins by taking something apart, and ends if it cannot: a `while let`.
    fn while_let(&self, l: &syn::ExprLoop) -> Option<String> {
        if l.label.is_some() || valued_break(&l.body) {
            return None;
        }
        let src = |s: proc_macro2::Span| &self.text[s.byte_range()];
        let first = l.body.stmts.first()?;
        let rest = self.text_of(&l.body.stmts[1..]);
        let two = |m: &syn::ExprMatch| -> Option<(syn::Pat, syn::Expr)> {
            let [a, b] = m.arms.as_slice() else { return None };
            if a.guard.is_some() || b.guard.is_some() {
                return None;
            }
            let (on, off) = if just_breaks(&b.body) { (a, b) } else { (b, a) };
            if !just_breaks(&off.body) || !matches!(&on.pat, syn::Pat::TupleStruct(_)) {
                return None;
            }
            // the other arm must not come first and take everything
            if std::ptr::eq(off, a) && !matches!(&off.pat, syn::Pat::Ident(i) if i.ident == "None") && !matches!(&off.pat, syn::Pat::TupleStruct(t) if t.path.is_ident("Err")) {
                return None;
            }
            Some((on.pat.clone(), (*on.body).clone()))
        };
        match first {
            syn::Stmt::Local(x) => {
                let init = x.init.as_ref()?;
                if let Some((_, d)) = &init.diverge {
                    if !just_breaks(d) {
                        return None;
                    }
                    return Some(format!("while let {} = {} {{ {} }}", src(x.pat.span()), src(init.expr.span()), rest));
                }
                let syn::Expr::Match(m) = &*init.expr else { return None };
                let (p, body) = two(m)?;
                let same = match (&x.pat, &body, bound(&p).as_slice()) {
                    (syn::Pat::Ident(i), syn::Expr::Path(q), [n]) => i.mutability.is_none() && q.path.is_ident(n) && i.ident == n.as_str(),
                    _ => false,
                };
                let again = if same { String::new() } else { format!("let {} = {};", src(x.pat.span()), src(body.span())) };
                Some(format!("while let {} = {} {{ {} {} }}", src(p.span()), src(m.expr.span()), again, rest))
            }
            syn::Stmt::Expr(syn::Expr::Match(m), _) if l.body.stmts.len() == 1 => {
                let (p, body) = two(m)?;
                let body = match &body {
                    syn::Expr::Block(b) if b.label.is_none() => self.text_of(&b.block.stmts),
                    e => format!("{};", src(e.span())),
                };
                Some(format!("while let {} = {} {{ {} }}", src(p.span()), src(m.expr.span()), body))
            }
            syn::Stmt::Expr(syn::Expr::If(i), _) if l.body.stmts.len() == 1 => {
                let syn::Expr::Let(c) = &*i.cond else { return None };
                let (_, e) = i.else_branch.as_ref()?;
                if !just_breaks(e) {
                    return None;
                }
                Some(format!("while let {} = {} {{ {} }}", src(c.pat.span()), src(c.expr.span()), self.text_of(&i.then_branch.stmts)))
            }
            _ => None,
        }
    }

    /// A loop over a few elements that are written down.
    fn unrolled(&self, l: &syn::ExprForLoop) -> Option<String> {
        let syn::Expr::Array(a) = &*l.expr else { return None };
        let plain = a.elems.iter().all(|e| matches!(e, syn::Expr::Lit(_)) || matches!(e, syn::Expr::Path(p) if p.path.get_ident().is_some()));
        if l.label.is_some() || a.elems.is_empty() || a.elems.len() > 4 || !plain || block_continues(&l.body) || has_break_or_loop(&l.body) {
            return None;
        }
        let src = |s: proc_macro2::Span| &self.text[s.byte_range()];
        let mut s = String::from("{ ");
        for e in &a.elems {
            s.push_str(&format!("{{ let {} = {}; {} }} ", src(l.pat.span()), src(e.span()), self.text_of(&l.body.stmts)));
        }
        Some(s + "}")
    }

    /// Statements whose `continue` is the same as reaching their end.
    fn to_the_end(&self, stmts: &[syn::Stmt]) -> Option<String> {
        let Some(i) = stmts.iter().position(stmt_continues) else { return Some(self.text_of(stmts)) };
        let before = self.text_of(&stmts[..i]);
        let after = &stmts[i + 1..];
        let rest = || self.to_the_end(after);
        let sl = |r: std::ops::Range<usize>| &self.text[r];
        let here = match &stmts[i] {
            s if is_continue(s) => String::new(),
            syn::Stmt::Expr(syn::Expr::If(c), _) => {
                if expr_continues(&c.cond) {
                    return None;
                }
                let cond = sl(c.cond.span().byte_range());
                let other = c.else_branch.as_ref().map(|e| &*e.1);
                if let (Some(a), false) = (self.ends(&c.then_branch), other.is_some_and(expr_continues)) {
                    let b = other.map_or(String::new(), |e| format!("{{ {} }} ", sl(e.span().byte_range())));
                    format!("if {} {{ {} }} else {{ {}{} }}", cond, a, b, rest()?)
                } else if let (Some(b), false, false) = (other.and_then(|e| self.ends_expr(e)), block_continues(&c.then_branch), matches!(&*c.cond, syn::Expr::Let(_)) || cond.contains("let ")) {
                    format!("if {} {{ {} {} }} else {{ {} }}", cond, sl(c.then_branch.span().byte_range()), rest()?, b)
                } else if after.is_empty() && other.is_none() {
                    format!("if {} {{ {} }}", cond, self.to_the_end(&c.then_branch.stmts)?)
                } else {
                    return None;
                }
            }
            syn::Stmt::Local(l) => {
                let init = l.init.as_ref()?;
                if let Some((_, d)) = &init.diverge {
                    if expr_continues(&init.expr) {
                        return None;
                    }
                    let x = self.ends_expr(d)?;
                    let syn::Pat::TupleStruct(_) = &l.pat else { return None };
                    format!("match {} {{ {} => {{ {} }} _ => {{ {} }} }}", sl(init.expr.span().byte_range()), sl(l.pat.span().byte_range()), rest()?, x)
                } else {
                    let syn::Expr::Match(m) = &*init.expr else { return None };
                    if expr_continues(&m.expr) || m.arms.iter().any(|a| a.guard.is_some()) {
                        return None;
                    }
                    let mut going = m.arms.iter().filter(|a| !expr_continues(&a.body));
                    let one = going.next()?;
                    if going.next().is_some() {
                        return None;
                    }
                    let mut names = bound(&one.pat);
                    let own = bound(&l.pat);
                    names.retain(|n| !own.contains(n));
                    if names_in(after, &names) {
                        return None;
                    }
                    let mut arms = String::new();
                    for a in &m.arms {
                        let p = sl(a.pat.span().byte_range());
                        if expr_continues(&a.body) {
                            arms.push_str(&format!("{} => {{ {} }} ", p, self.ends_expr(&a.body)?));
                        } else {
                            arms.push_str(&format!("{} => {{ let {} = {}; {} }} ", p, sl(l.pat.span().byte_range()), sl(a.body.span().byte_range()), rest()?));
                        }
                    }
                    format!("match {} {{ {} }}", sl(m.expr.span().byte_range()), arms)
                }
            }
            syn::Stmt::Expr(syn::Expr::Match(m), _) => {
                if expr_continues(&m.expr) || m.arms.iter().any(|a| a.guard.is_some()) {
                    return None;
                }
                if !after.is_empty() && m.arms.iter().filter(|a| !expr_continues(&a.body)).count() > 1 {
                    return None;
                }
                let mut arms = String::new();
                for a in &m.arms {
                    let p = sl(a.pat.span().byte_range());
                    if expr_continues(&a.body) {
                        arms.push_str(&format!("{} => {{ {} }} ", p, self.ends_expr(&a.body)?));
                    } else {
                        if names_in(after, &bound(&a.pat)) {
                            return None;
                        }
                        arms.push_str(&format!("{} => {{ {{ {}; }} {} }} ", p, sl(a.body.span().byte_range()), rest()?));
                    }
                }
                format!("match {} {{ {} }}", sl(m.expr.span().byte_range()), arms)
            }
            _ => return None,
        };
        Some(format!("{} {}", before, here))
    }
}

fn folded(e: &syn::Expr) -> Option<(u128, String)> {
    match e {
        syn::Expr::Lit(l) => match &l.lit {
            syn::Lit::Int(i) => Some((i.base10_parse().ok()?, i.suffix().to_string())),
            _ => None,
        },
        syn::Expr::Paren(p) => folded(&p.expr),
        syn::Expr::Binary(b) => {
            let ((x, s), (y, t)) = (folded(&b.left)?, folded(&b.right)?);
            let n = match b.op {
                syn::BinOp::Shl(_) if y < 64 => x.checked_mul(1 << y)?,
                syn::BinOp::Shr(_) if y < 64 => return Some((x >> y, s)),
                syn::BinOp::BitOr(_) => x | y,
                syn::BinOp::BitAnd(_) => x & y,
                _ => return None,
            };
            let s = if s.is_empty() && !matches!(b.op, syn::BinOp::Shl(_)) { t } else { s };
            (n <= u64::MAX as u128).then_some((n, s))
        }
        _ => None,
    }
}
