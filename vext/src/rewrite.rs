//! The mechanical rewrites. Every one of them is listed in DESIGN.md, "What the extraction does".
use crate::contracts::{FnC, LoopC, ModuleC};
use crate::edit::Edits;
use crate::Report;
use proc_macro2::TokenStream;
use quote::ToTokens;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use syn::parse::{Parse, ParseStream};
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

pub const P: &str = "crate::vx_prelude";

pub struct FnInfo<'a> {
    pub name: String,
    pub short: String,
    pub outer: Option<String>,
    pub block: &'a syn::Block,
}

pub fn item_attrs(i: &syn::Item) -> &[syn::Attribute] {
    use syn::Item::*;
    match i {
        Const(x) => &x.attrs,
        Enum(x) => &x.attrs,
        ExternCrate(x) => &x.attrs,
        Fn(x) => &x.attrs,
        Impl(x) => &x.attrs,
        Macro(x) => &x.attrs,
        Mod(x) => &x.attrs,
        Static(x) => &x.attrs,
        Struct(x) => &x.attrs,
        Trait(x) => &x.attrs,
        Type(x) => &x.attrs,
        Use(x) => &x.attrs,
        _ => &[],
    }
}

pub fn self_name(i: &syn::ItemImpl) -> String {
    if let syn::Type::Path(p) = &*i.self_ty {
        p.path.segments.last().unwrap().ident.to_string()
    } else {
        i.self_ty.to_token_stream().to_string()
    }
}

pub fn functions_of(ast: &syn::File) -> Vec<FnInfo<'_>> {
    let mut v = Vec::new();
    for item in &ast.items {
        if crate::is_test_item(item_attrs(item)) {
            continue;
        }
        match item {
            syn::Item::Fn(f) => v.push(FnInfo {
                name: f.sig.ident.to_string(),
                short: f.sig.ident.to_string(),
                outer: None,
                block: &f.block,
            }),
            syn::Item::Impl(i) => {
                if crate::attr_has(&i.attrs, "async_trait") {
                    continue;
                }
                let ty = self_name(i);
                for it in &i.items {
                    if let syn::ImplItem::Fn(f) = it {
                        v.push(FnInfo {
                            name: format!("{}::{}", ty, f.sig.ident),
                            short: f.sig.ident.to_string(),
                            outer: Some(format!("impl {}", ty)),
                            block: &f.block,
                        });
                    }
                }
            }
            _ => {}
        }
    }
    v
}

// ------------------------------------------------------------------ effects

pub fn uses_effects(b: &syn::Block, effectful: &BTreeSet<(String, String)>, module: &str, mc: &ModuleC) -> bool {
    struct V<'a> {
        found: bool,
        mc: &'a ModuleC,
        eff: &'a BTreeSet<(String, String)>,
        module: &'a str,
    }
    impl<'ast, 'a> Visit<'ast> for V<'a> {
        fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) {
            let n = m.method.to_string();
            if ((n == "send" || n == "try_send") && m.args.len() == 1) || ((n == "recv" || n == "accept") && m.args.is_empty()) {
                self.found = true;
            }
            if is_self(&m.receiver) && self.eff.contains(&(self.module.to_string(), n)) {
                self.found = true;
            }
            visit::visit_expr_method_call(self, m);
        }
        fn visit_expr_call(&mut self, c: &'ast syn::ExprCall) {
            if let syn::Expr::Path(p) = &*c.func {
                let n = p.path.segments.last().unwrap().ident.to_string();
                let head = p.path.segments.first().unwrap().ident.to_string();
                if (p.path.segments.len() == 1 || p.path.segments.len() == 2 && head.starts_with(char::is_uppercase))
                    && self.eff.contains(&(self.module.to_string(), n))
                {
                    self.found = true;
                }
                let (a, b) = last2(&p.path);
                if b == "spawn" && (a == "tokio" || a == "task") {
                    self.found = true;
                }
                if self.mc.effects.contains(&format!("{}::{}", a, b)) {
                    self.found = true;
                }
            }
            visit::visit_expr_call(self, c);
        }
        fn visit_expr_await(&mut self, a: &'ast syn::ExprAwait) {
            if matches!(&*a.base, syn::Expr::Path(_)) {
                self.found = true;
            }
            visit::visit_expr_await(self, a);
        }
        fn visit_macro(&mut self, m: &'ast syn::Macro) {
            if mac_name(m) == "select" {
                self.found = true;
            }
        }
    }
    let mut v = V { found: false, mc, eff: effectful, module };
    v.visit_block(b);
    v.found
}

/// Whether a block can be left early.
fn leaves(b: &syn::Block) -> bool {
    struct V(bool);
    impl<'ast> Visit<'ast> for V {
        fn visit_expr_return(&mut self, _: &'ast syn::ExprReturn) {
            self.0 = true;
        }
        fn visit_expr_try(&mut self, _: &'ast syn::ExprTry) {
            self.0 = true;
        }
        fn visit_expr_closure(&mut self, _: &'ast syn::ExprClosure) {}
    }
    let mut v = V(false);
    v.visit_block(b);
    v.0
}

fn is_self(e: &syn::Expr) -> bool {
    matches!(e, syn::Expr::Path(p) if p.path.is_ident("self"))
}

fn mac_name(m: &syn::Macro) -> String {
    m.path.segments.last().unwrap().ident.to_string()
}

// ------------------------------------------------------------------ Clone

fn derives_clone(attrs: &[syn::Attribute]) -> Option<(&syn::Attribute, Vec<String>)> {
    for a in attrs {
        if a.path().is_ident("derive") {
            if let syn::Meta::List(l) = &a.meta {
                let names: Vec<String> =
                    l.tokens.to_string().split(',').map(|s| s.trim().to_string()).filter(|s| !s.is_empty()).collect();
                if names.iter().any(|n| n == "Clone") {
                    return Some((a, names));
                }
            }
        }
    }
    None
}

pub fn strip_clone(attrs: &[syn::Attribute], ed: &mut Edits) -> bool {
    if let Some((a, names)) = derives_clone(attrs) {
        let rest: Vec<String> = names.into_iter().filter(|n| n != "Clone").collect();
        ed.replace(a.span().byte_range(), &format!("#[derive({})]", rest.join(", ")));
        true
    } else {
        false
    }
}

fn clone_impl(name: &str, body: &str, same: &str) -> String {
    format!("verus! {{ impl Clone for {name} {{\n/*@fn {name}::clone@*/\nfn clone(&self) -> (vx_r: Self) ensures {same} {{ {body} }} }} }}\n")
}

/// What a derived clone does, with its contract.
pub fn clone_struct(s: &syn::ItemStruct, same: &str) -> String {
    if derives_clone(&s.attrs).is_none() {
        return String::new();
    }
    let n = s.ident.to_string();
    let fs: Vec<String> = s
        .fields
        .iter()
        .enumerate()
        .map(|(i, f)| {
            let k = f.ident.as_ref().map(|i| i.to_string()).unwrap_or(i.to_string());
            format!("{k}: Clone::clone(&self.{k})")
        })
        .collect();
    clone_impl(&n, &format!("{} {{ {} }}", n, fs.join(", ")), same)
}

pub fn clone_enum(e: &syn::ItemEnum, same: &str) -> String {
    if derives_clone(&e.attrs).is_none() {
        return String::new();
    }
    let n = e.ident.to_string();
    let mut arms = String::new();
    for v in &e.variants {
        let k = v.fields.len();
        let names: Vec<String> = (0..k).map(|i| format!("x{}", i)).collect();
        match &v.fields {
            syn::Fields::Unit => arms.push_str(&format!("{n}::{v} => {n}::{v}, ", v = v.ident)),
            syn::Fields::Unnamed(_) => {
                let cl: Vec<String> = names.iter().map(|x| format!("Clone::clone({})", x)).collect();
                arms.push_str(&format!("{n}::{v}({}) => {n}::{v}({}), ", names.join(", "), cl.join(", "), v = v.ident));
            }
            syn::Fields::Named(f) => {
                let ks: Vec<String> = f.named.iter().map(|f| f.ident.as_ref().unwrap().to_string()).collect();
                let cl: Vec<String> = ks.iter().map(|x| format!("{x}: Clone::clone({x})")).collect();
                arms.push_str(&format!("{n}::{v} {{ {} }} => {n}::{v} {{ {} }}, ", ks.join(", "), cl.join(", "), v = v.ident));
            }
        }
    }
    clone_impl(&n, &format!("match self {{ {} }}", arms), same)
}

// ------------------------------------------------------------------ serde

/// `#[derive(Deserialize)]` and `#[serde(..)]` are dropped; what the derived code does is assumed.
pub fn strip_serde<'f>(name: &str, attrs: &[syn::Attribute], fields: impl Iterator<Item = &'f syn::Field>, ed: &mut Edits) -> Option<String> {
    let mut found = false;
    for a in attrs {
        if let (true, syn::Meta::List(l)) = (a.path().is_ident("derive"), &a.meta) {
            let names: Vec<String> = l.tokens.to_string().split(',').map(|s| s.trim().to_string()).filter(|s| !s.is_empty()).collect();
            if names.iter().any(|n| n == "Deserialize" || n.ends_with(":: Deserialize")) {
                let rest: Vec<String> = names.into_iter().filter(|n| !n.ends_with("Deserialize")).collect();
                ed.replace(a.span().byte_range(), &format!("#[derive({})]", rest.join(", ")));
                found = true;
            }
        }
    }
    if !found {
        return None;
    }
    for a in attrs.iter().chain(fields.flat_map(|f| f.attrs.iter())) {
        if a.path().is_ident("serde") {
            ed.delete(a.span().byte_range());
        }
    }
    Some(format!("impl<'de> serde::Deserialize<'de> for {name} {{ fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {{ unimplemented!() }} }}\n"))
}

// ------------------------------------------------------------------ dyn types

pub struct DynTypes<'r, 'e, 't> {
    pub ed: &'e mut Edits<'t>,
    pub report: &'r mut Report,
}

impl<'ast, 'r, 'e, 't> Visit<'ast> for DynTypes<'r, 'e, 't> {
    fn visit_type_trait_object(&mut self, t: &'ast syn::TypeTraitObject) {
        let mut it = t.bounds.iter();
        let first = it.next().unwrap();
        let rest_auto = t.bounds.iter().skip(1).all(|b| {
            let s = b.to_token_stream().to_string();
            s == "Send" || s == "Sync"
        });
        if t.bounds.len() > 1 && rest_auto {
            let start = first.span().byte_range().end;
            let end = t.span().byte_range().end;
            self.ed.delete(start..end);
            *self.report.rewrites.entry("dyn-auto-traits".into()).or_default() += 1;
        }
        visit::visit_type_trait_object(self, t);
    }
}

// ------------------------------------------------------------------ identifier substitution

/// Replaces whole identifiers in contract text (not after `.` and not as part of a path segment).
pub fn subst(text: &str, map: &BTreeMap<String, String>) -> String {
    if map.is_empty() {
        return text.to_string();
    }
    let b: Vec<char> = text.chars().collect();
    let mut out = String::new();
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        if c.is_alphabetic() || c == '_' {
            let mut j = i;
            while j < b.len() && (b[j].is_alphanumeric() || b[j] == '_') {
                j += 1;
            }
            let w: String = b[i..j].iter().collect();
            let prev = out.trim_end().chars().last();
            let prev2 = out.trim_end().chars().rev().nth(1);
            let after_dot = prev == Some('.') && prev2 != Some('.');
            let after_path = prev == Some(':') && prev2 == Some(':');
            match map.get(&w) {
                Some(n) if !after_dot && !after_path => out.push_str(n),
                _ => out.push_str(&w),
            }
            i = j;
        } else if c.is_ascii_digit() {
            let mut j = i;
            while j < b.len() && (b[j].is_alphanumeric() || b[j] == '_') {
                j += 1;
            }
            out.extend(&b[i..j]);
            i = j;
        } else {
            out.push(c);
            i += 1;
        }
    }
    out
}

fn squash(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

// ------------------------------------------------------------------ functions

fn param_name(p: &syn::Pat) -> Option<(String, bool)> {
    match p {
        syn::Pat::Ident(i) => Some((i.ident.to_string(), i.mutability.is_some())),
        _ => None,
    }
}

#[allow(clippy::too_many_arguments)]
pub fn edit_fn(
    module: &str,
    mc: &ModuleC,
    verify: bool,
    name: &str,
    short: &str,
    attrs: &[syn::Attribute],
    sig: &syn::Signature,
    block: &syn::Block,
    ed: &mut Edits,
    effectful: &BTreeSet<(String, String)>,
    seen: &mut BTreeSet<String>,
    hoisted: &mut String,
    report: &mut Report,
) {
    let _ = attrs;
    let start = sig.span().byte_range().start;
    let start = match first_token_start(sig, ed.text()) {
        Some(s) => s,
        None => start,
    };
    if mc.external.contains(name) || mc.external.contains(short) {
        // the attribute goes in front of the visibility
        let at = line_start(ed.text(), start);
        ed.insert(at, "#[verifier::external]\n");
        // its text is not looked at, and may call functions that have got ghost parameters
        ed.replace(block.span().byte_range(), "{ unimplemented!() }");
        report.external.push(json!({"module": module, "item": name}));
        return;
    }
    let mut owned = mc.fns.get(name).cloned();
    let mut maybe = BTreeMap::new();
    if let Some(f) = &mut owned {
        let mut lets = Vec::new();
        OuterLets(&mut lets, ed.text()).visit_block(block);
        for (n, init) in f.maybes.clone() {
            match lets.iter().find(|(k, _)| *k == n).or_else(|| lets.iter().find(|(_, i)| squash(i) == squash(&init))) {
                Some((k, _)) => {
                    maybe.insert(n, k.clone());
                }
                None => f.forget(&n),
            }
        }
    }
    let fc = owned.as_ref();
    if fc.is_some() {
        seen.insert(name.to_string());
    }
    let at = line_start(ed.text(), start);
    ed.insert(at, &format!("/*@fn {}@*/\n", name));
    if !verify {
        ed.insert(at, "#[verifier::external_body]\n");
    }
    if let Some(f) = fc {
        if verify {
            ed.insert(at, &f.attrs);
        }
    }
    // parameters
    let mut actual = Vec::new();
    let mut mut_self = false;
    for a in &sig.inputs {
        if let syn::FnArg::Receiver(r) = a {
            if let (None, Some(m)) = (&r.reference, &r.mutability) {
                // `mut self` becomes `self` and `let mut vx_self = self;`
                ed.delete(m.span().byte_range());
                mut_self = verify;
            }
        }
        if let syn::FnArg::Typed(t) = a {
            let by_value = !matches!(&*t.ty, syn::Type::Reference(_));
            match param_name(&t.pat) {
                Some((n, m)) => {
                    if m && by_value && verify {
                        // `mut p: T` becomes `p: T` and `let mut p = p;`
                        ed.replace(t.pat.span().byte_range(), &n);
                    }
                    actual.push((n, m, by_value))
                }
                None => {
                    let n = format!("vx_p{}", actual.len());
                    ed.replace(t.pat.span().byte_range(), &n);
                    actual.push((n, false, by_value));
                }
            }
            DynTypes { ed, report }.visit_pat_type(t);
        }
    }
    let mut map = BTreeMap::new();
    let mut lost: Vec<String> = Vec::new();
    if let Some(f) = fc {
        if !f.params.is_empty() || !actual.is_empty() {
            if f.params.len() != actual.len() {
                lost.push(format!("{} parameters, contract has {}", actual.len(), f.params.len()));
            }
            for (c, a) in f.params.iter().zip(actual.iter()) {
                if c != &a.0 {
                    map.insert(c.clone(), a.0.clone());
                }
            }
        }
    }
    let eff = effectful.contains(&(module.to_string(), short.to_string()));
    if eff {
        // opening parenthesis of the parameter list
        let close = sig.paren_token.span.close().byte_range().start;
        let sep = if sig.inputs.is_empty() || sig.inputs.trailing_punct() { "" } else { ", " };
        let world = if mc.world.is_empty() { format!("{}::VxWorld", P) } else { mc.world.clone() };
        ed.insert(close, &format!("{}Tracked(vx_w): Tracked<&mut {}>", sep, world));
    }
    // return value
    if let Some(f) = fc {
        // the postcondition of an async function is only known to callers when the result has a name
        let ret = if f.ret.is_empty() && sig.asyncness.is_some() { "vx_r" } else { f.ret.as_str() };
        if !ret.is_empty() {
            match &sig.output {
                syn::ReturnType::Type(_, t) => {
                    let r = t.span().byte_range();
                    ed.insert(r.start, &format!("({}: ", ret));
                    ed.insert(r.end, ")");
                }
                syn::ReturnType::Default => {
                    let close = sig.paren_token.span.close().byte_range().end;
                    ed.insert(close, &format!(" -> ({}: ())", ret));
                }
            }
        }
    }
    // locals
    let mut lmap = map.clone();
    lmap.extend(maybe);
    if let Some(f) = fc {
        let mut lets = Vec::new();
        Lets(&mut lets, ed.text()).visit_block(block);
        let mut used: BTreeSet<String> = BTreeSet::new();
        for (n, init) in &f.locals {
            if lets.iter().any(|(k, _)| k == n) {
                continue;
            }
            let want = squash(init);
            match lets.iter().find(|(k, i)| !used.contains(k) && squash(i).contains(&want)) {
                Some((k, _)) => {
                    used.insert(k.clone());
                    lmap.insert(n.clone(), k.clone());
                }
                None => {
                    if verify {
                        lost.push(format!("local {} (initialised from {})", n, init));
                    }
                }
            }
        }
    }
    if let Some(f) = fc {
        let spec = subst(&f.spec, &map);
        let open = block.brace_token.span.open().byte_range();
        ed.insert(open.start, &format!("\n{}\n", spec));
        if verify {
            let mut enter = String::new();
            for (c, a) in f.params.iter().zip(actual.iter()) {
                if a.2 {
                    enter.push_str(&format!("let ghost vx0_{} = {};\n", c, a.0));
                }
            }
            enter.push_str(&subst(&f.enter, &lmap));
            ed.insert(open.end, &format!("\n{}", enter));
        }
    }
    if verify {
        let open = block.brace_token.span.open().byte_range();
        for a in actual.iter().filter(|a| a.1 && a.2) {
            ed.insert(open.end, &format!("\nlet mut {n} = {n};\n", n = a.0));
        }
    }
    if mut_self {
        let open = block.brace_token.span.open().byte_range();
        ed.insert(open.end, "\nlet mut vx_self = self;\n");
        lmap.insert("self".into(), "vx_self".into());
    }
    let mut rw = Rw {
        mc,
        ed,
        mut_self,
        module,
        fname: name,
        fc: if verify { fc } else { None },
        lmap,
        effectful,
        report,
        hoisted,
        loops: 0,
        flags: BTreeMap::new(),
        lost: &mut lost,
        calls: BTreeSet::new(),
        closures: 0,
        bitops: 0,
        shifted: Vec::new(),
        unterminated: false,
        bare: 0,
        protected: Vec::new(),
    };
    if verify {
        rw.visit_block(block);
    } else {
        // the body is not looked at by the verifier
        for s in &block.stmts {
            rw.inner_type(s);
        }
        let r = block.span().byte_range();
        rw.ed.replace(r.start + 1..r.end - 1, " unimplemented!() ");
    }
    let n = rw.loops;
    let bare = rw.bare;
    if verify && (bare > 0 || rw.unterminated) {
        if rw.unterminated && !fc.is_some_and(|f| f.attrs.contains("exec_allows_no_decreases_clause")) {
            // its termination is not claimed
            rw.ed.insert(at, "#[verifier::exec_allows_no_decreases_clause]\n");
        }
        if fc.is_some() && bare > 0 {
            if rw.unterminated {
                rw.lost.push(format!("{} of its loops have no invariant", bare));
            } else {
                rw.shifted.push(format!("{} of its loops have no invariant", bare));
            }
        }
    }
    if report_inlined_loops(rw.report, module, name) {
        rw.shifted.push("a function with loops and without contract was inlined".into());
    }
    let shifted = rw.shifted.clone();
    let calls: Vec<String> = rw.calls.iter().cloned().collect();
    let (closures, bitops) = (rw.closures, rw.bitops);
    if let Some(f) = fc {
        if verify {
            for k in f.loops.keys() {
                if *k > n {
                    lost.push(format!("loop {}", k));
                }
            }
        }
    }
    for l in lost {
        report.lost.push(json!({"module": module, "fn": name, "why": l, "area": mc.area,
            "props": fc.map(|f| f.props.clone()).unwrap_or_default()}));
    }
    report.functions.push(json!({"module": module, "fn": name, "area": mc.area, "verified": verify,
        "contract": fc.is_some(), "props": fc.map(|f| f.props.clone()).unwrap_or_default(),
        "calls": calls, "effects": eff, "async": sig.asyncness.is_some(), "loops": n, "bare_loops": bare, "closures": closures, "bitops": bitops, "shifted": shifted}));
}

fn report_inlined_loops(report: &Report, module: &str, name: &str) -> bool {
    report.inlined.get(&(module.to_string(), name.to_string())).copied().unwrap_or(false)
}

pub fn edit_trait_fn(mc: &ModuleC, name: &str, f: &syn::TraitItemFn, ed: &mut Edits, seen: &mut BTreeSet<String>) {
    let Some(c) = mc.fns.get(name) else { return };
    seen.insert(name.to_string());
    let mut map = BTreeMap::new();
    let mut i = 0;
    for a in &f.sig.inputs {
        if let syn::FnArg::Typed(t) = a {
            if let Some((n, _)) = param_name(&t.pat) {
                if let Some(cn) = c.params.get(i) {
                    if *cn != n {
                        map.insert(cn.clone(), n);
                    }
                }
            }
            i += 1;
        }
    }
    if !c.ret.is_empty() {
        if let syn::ReturnType::Type(_, t) = &f.sig.output {
            let r = t.span().byte_range();
            ed.insert(r.start, &format!("({}: ", c.ret));
            ed.insert(r.end, ")");
        }
    }
    let at = match (&f.default, &f.semi_token) {
        (Some(b), _) => b.brace_token.span.open().byte_range().start,
        (None, Some(s)) => s.span().byte_range().start,
        _ => return,
    };
    ed.insert(at, &format!("\n{}\n", subst(&c.spec, &map)));
}

fn first_token_start(sig: &syn::Signature, _text: &str) -> Option<usize> {
    sig.to_token_stream().into_iter().next().map(|t| t.span().byte_range().start)
}

/// Start of the line holding `at`, provided only visibility stands in between.
fn line_start(text: &str, at: usize) -> usize {
    match text[..at].rfind('\n') {
        Some(i) => i + 1,
        None => 0,
    }
}

struct Lets<'a>(&'a mut Vec<(String, String)>, &'a str);
impl<'ast, 'a> Visit<'ast> for Lets<'a> {
    fn visit_local(&mut self, l: &'ast syn::Local) {
        let pat = match &l.pat {
            syn::Pat::Type(t) => &*t.pat,
            p => p,
        };
        if let syn::Pat::Ident(i) = pat {
            let init = l.init.as_ref().map(|x| self.1[x.expr.span().byte_range()].to_string()).unwrap_or_default();
            self.0.push((i.ident.to_string(), init));
        }
        visit::visit_local(self, l);
    }
}

/// Locals that are not declared within a loop.
struct OuterLets<'a>(&'a mut Vec<(String, String)>, &'a str);
impl<'ast, 'a> Visit<'ast> for OuterLets<'a> {
    fn visit_local(&mut self, l: &'ast syn::Local) {
        Lets(self.0, self.1).visit_local(l);
    }
    fn visit_expr_loop(&mut self, _: &'ast syn::ExprLoop) {}
    fn visit_expr_while(&mut self, _: &'ast syn::ExprWhile) {}
    fn visit_expr_for_loop(&mut self, _: &'ast syn::ExprForLoop) {}
    fn visit_expr_closure(&mut self, _: &'ast syn::ExprClosure) {}
}

// ------------------------------------------------------------------ bodies

struct Rw<'a, 'e, 't> {
    mc: &'a ModuleC,
    ed: &'e mut Edits<'t>,
    mut_self: bool,
    module: &'a str,
    fname: &'a str,
    fc: Option<&'a FnC>,
    lmap: BTreeMap<String, String>,
    effectful: &'a BTreeSet<(String, String)>,
    report: &'e mut Report,
    hoisted: &'e mut String,
    loops: usize,
    flags: BTreeMap<String, String>,
    lost: &'e mut Vec<String>,
    calls: BTreeSet<String>,
    closures: usize,
    bitops: usize,
    /// what may make a proof fail although nothing is wrong
    shifted: Vec<String>,
    unterminated: bool,
    bare: usize,
    protected: Vec<std::ops::Range<usize>>,
}

impl<'a, 'e, 't> Rw<'a, 'e, 't> {
    fn count(&mut self, what: &str) {
        *self.report.rewrites.entry(what.to_string()).or_default() += 1;
    }
    fn inner_type(&mut self, s: &syn::Stmt) -> bool {
        if let syn::Stmt::Item(i @ (syn::Item::Struct(_) | syn::Item::Enum(_))) = s {
            // a type declared inside a function moves out of it
            let r = i.span().byte_range();
            let mut ed = Edits::new(self.ed.text());
            let (name, h) = match i {
                syn::Item::Struct(s) => (s.ident.to_string(), strip_serde(&s.ident.to_string(), &s.attrs, s.fields.iter(), &mut ed)),
                syn::Item::Enum(e) => (e.ident.to_string(), strip_serde(&e.ident.to_string(), &e.attrs, e.variants.iter().flat_map(|v| v.fields.iter()), &mut ed)),
                _ => unreachable!(),
            };
            crate::shape(self.module, self.mc, &name, &self.ed.text()[r.clone()], self.report);
            self.hoisted.push_str(&format!("verus! {{\n{}\n}} // verus!\n{}", ed.apply_range(r.clone()), h.unwrap_or_default()));
            self.ed.delete(r);
            self.count("inner-type");
            return true;
        }
        false
    }
    fn src(&self, s: proc_macro2::Span) -> &'t str {
        &self.ed.text()[s.byte_range()]
    }

    fn mac(&mut self, m: &syn::Macro, whole: std::ops::Range<usize>, is_stmt: bool) {
        match mac_name(m).as_str() {
            "trace" | "debug" | "info" | "warn" | "error" | "println" | "eprintln" | "print" | "eprint" => {
                if harmless(&m.tokens) {
                    let s = if is_stmt { "" } else { "()" };
                    self.ed.replace(whole, s);
                    self.count("logging");
                }
            }
            "format" => match syn::parse2::<Format>(m.tokens.clone()).ok().and_then(|f| f.parts()) {
                Some(parts) => {
                    let mut open = String::new();
                    for _ in 1..parts.len() {
                        open.push_str(&format!("{}::vx_cat(", P));
                    }
                    let mut text = open;
                    for (k, x) in parts.iter().enumerate() {
                        if k > 0 {
                            text.push_str(", ");
                        }
                        match x {
                            Ok(lit) => text.push_str(&format!("{}::vx_shown({:?})", P, lit)),
                            Err(e) => text.push_str(&format!("{}::vx_shown(&{})", P, self.format_arg(e))),
                        }
                        if k > 0 {
                            text.push(')');
                        }
                    }
                    self.ed.replace(whole, &text);
                    self.count("format");
                }
                None => {}
            },
            "panic" | "unimplemented" | "todo" | "unreachable" => {
                self.ed.replace(whole, "panic!()");
                self.count("panic");
            }
            "bitflags" => {
                let text = self.bitflags(m);
                match text {
                    Some(t) => {
                        self.hoisted.push_str(&t);
                        self.ed.replace(whole, "");
                        self.count("bitflags");
                    }
                    None => self.lost.push("bitflags! of an unknown form".into()),
                }
            }
            "select" => match syn::parse2::<Select>(m.tokens.clone()) {
                Ok(s) => {
                    // `select! {` ... `}`  ->  match vx_choice() { 0 => { let PAT = FUT.await; BODY } ... }
                    self.ed.insert(whole.start, &format!("match {}::vx_choice() {{\n", P));
                    let mut pos = whole.start;
                    let n = s.arms.len();
                    for (k, arm) in s.arms.iter().enumerate() {
                        let fut = arm.fut.span().byte_range();
                        let body = arm.body.span().byte_range();
                        let pat = arm.pat.span().byte_range();
                        let label = if k + 1 == n { "_".to_string() } else { format!("{}", k) };
                        self.ed.replace(pos..pat.start, &format!("{} => {{ let ", label));
                        self.ed.replace(pat.end..fut.start, " = ");
                        let recv = self.effect_await(&arm.fut, fut.clone());
                        if !recv {
                            self.visit_expr(&arm.fut);
                            self.ed.insert(fut.end, ".await");
                        }
                        self.ed.replace(fut.end..body.start, "; ");
                        self.visit_expr(&arm.body);
                        self.ed.insert(body.end, " }\n");
                        pos = body.end;
                    }
                    self.ed.replace(pos..whole.end, "}");
                    self.count("select");
                }
                Err(_) => self.lost.push("select! of an unknown form".into()),
            },
            _ => {}
        }
    }

    /// The text of an argument of format!, with its rewrites
    fn format_arg(&mut self, e: &syn::Expr) -> String {
        let r = e.span().byte_range();
        let text = self.ed.text();
        let mut inner = Edits::new(text);
        std::mem::swap(self.ed, &mut inner);
        self.visit_expr(e);
        let out = self.ed.apply_range(r);
        std::mem::swap(self.ed, &mut inner);
        out
    }

    fn bitflags(&mut self, m: &syn::Macro) -> Option<String> {
        let f: Flags = syn::parse2(m.tokens.clone()).ok()?;
        let short = self.fname.replace("::", "_");
        let new = format!("Vx_{}_{}", short, f.name);
        let mut vals: BTreeMap<String, u64> = BTreeMap::new();
        for (n, e) in &f.consts {
            let v = eval(e, &vals)?;
            vals.insert(n.clone(), v);
        }
        let all = vals.values().fold(0, |a, b| a | b);
        let ty = &f.ty;
        let mut consts = String::new();
        for (n, _) in &f.consts {
            consts.push_str(&format!("    pub const {n}: {new} = {new} {{ bits: {}{ty} }};\n", vals[n]));
        }
        self.flags.insert(f.name.clone(), new.clone());
        let mut ops = String::new();
        for (tr, f, op) in [("BitAnd", "bitand", "&"), ("BitOr", "bitor", "|"), ("BitXor", "bitxor", "^")] {
            ops.push_str(&format!(
                "impl core::ops::{tr} for {new} {{ type Output = {new}; fn {f}(self, o: {new}) -> (r: {new}) {{ {new} {{ bits: self.bits {op} o.bits }} }} }}\n\
                 impl vstd::std_specs::ops::{tr}SpecImpl for {new} {{\n  open spec fn obeys_{f}_spec() -> bool {{ true }}\n  open spec fn {f}_req(self, o: {new}) -> bool {{ true }}\n  open spec fn {f}_spec(self, o: {new}) -> {new} {{ {new} {{ bits: self.bits {op} o.bits }} }}\n}}\n"
            ));
        }
        Some(format!(
            "verus! {{\n#[derive(Clone, Copy)]\npub struct {new} {{ pub bits: {ty} }}\nimpl {new} {{\n{consts}\n\
    pub fn bits(&self) -> (r: {ty}) ensures r == self.bits {{ self.bits }}\n\
    pub fn contains(&self, o: {new}) -> (r: bool) ensures r == (self.bits & o.bits == o.bits) {{ self.bits & o.bits == o.bits }}\n\
    pub fn intersects(&self, o: {new}) -> (r: bool) ensures r == (self.bits & o.bits != 0) {{ self.bits & o.bits != 0 }}\n\
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.bits == 0) {{ self.bits == 0 }}\n\
    pub fn empty() -> (r: {new}) ensures r.bits == 0 {{ {new} {{ bits: 0 }} }}\n\
    pub fn from_bits_truncate(b: {ty}) -> (r: {new}) ensures r.bits == b & {all}{ty} {{ {new} {{ bits: b & {all}{ty} }} }}\n}}\n{ops}}} // verus!\n"
        ))
    }

    /// `X.recv()` / `X.send(e)` followed by `.await`, where `whole` covers it with the await
    fn effect_await(&mut self, base: &syn::Expr, whole: std::ops::Range<usize>) -> bool {
        let syn::Expr::MethodCall(m) = base else { return false };
        let n = m.method.to_string();
        let recv = m.receiver.span().byte_range();
        if n == "recv" && m.args.is_empty() {
            self.ed.insert(recv.start, &format!("{}::vx_recv(&mut ", P));
            self.visit_expr(&m.receiver);
            self.ed.replace(recv.end..whole.end, ", Tracked(vx_w)).await");
            self.count("recv");
            return true;
        }
        if n == "send" && m.args.len() == 1 {
            self.ed.insert(recv.start, &format!("{}::vx_send(&", P));
            self.visit_expr(&m.receiver);
            let a = m.args[0].span().byte_range();
            self.ed.replace(recv.end..a.start, ", ");
            self.visit_expr(&m.args[0]);
            self.ed.replace(a.end..whole.end, ", Tracked(vx_w)).await");
            self.count("send");
            return true;
        }
        false
    }

    fn io_await(&mut self, base: &syn::Expr, whole: std::ops::Range<usize>) -> bool {
        let syn::Expr::MethodCall(m) = base else { return false };
        let n = m.method.to_string();
        if n == "accept" && m.args.is_empty() {
            let recv = m.receiver.span().byte_range();
            self.ed.insert(recv.start, &format!("{}::vx_accept(&", P));
            self.visit_expr(&m.receiver);
            self.ed.replace(recv.end..whole.end, ", Tracked(vx_w)).await");
            self.count("socket-io");
            return true;
        }
        if m.args.len() != 1 || !["read_buf", "write_buf", "write_all_buf"].contains(&n.as_str()) {
            return false;
        }
        let recv = m.receiver.span().byte_range();
        self.ed.insert(recv.start, &format!("{}::vx_{}(&mut ", P, n));
        self.visit_expr(&m.receiver);
        let a = m.args[0].span().byte_range();
        self.ed.replace(recv.end..a.start, ", ");
        self.visit_expr(&m.args[0]);
        self.ed.replace(a.end..whole.end, ").await");
        self.count("socket-io");
        true
    }

    /// The names the annotations of loop N use for its variables, mapped to those of the code.
    fn loop_vars(&mut self, l: &LoopC, pat: Option<&syn::Pat>) {
        let Some(p) = pat else { return };
        struct Ids(Vec<String>);
        impl<'a> Visit<'a> for Ids {
            fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) {
                self.0.push(p.ident.to_string());
                visit::visit_pat_ident(self, p);
            }
        }
        let mut ids = Ids(vec![]);
        ids.visit_pat(p);
        for (c, a) in l.vars.iter().zip(ids.0.iter()) {
            if c != a {
                self.lmap.insert(c.clone(), a.clone());
            }
        }
    }

    /// What a for loop goes over, as a place.
    fn over(&self, r: std::ops::Range<usize>) -> String {
        let mut t = self.ed.text()[r].trim();
        t = t.trim_start_matches('&').trim_start_matches("mut ").trim();
        for e in [".iter()", ".into_iter()", ".iter_mut()"] {
            t = t.strip_suffix(e).unwrap_or(t).trim();
        }
        format!("({})", t)
    }

    fn loop_edit(&mut self, kind: &str, whole: std::ops::Range<usize>, body: &syn::Block, for_expr: Option<&syn::Expr>, pat: Option<&syn::Pat>) {
        self.loops += 1;
        let n = self.loops;
        let Some(l) = self.fc.and_then(|f| f.loops.get(&n)) else {
            self.bare += 1;
            self.unterminated |= kind != "for";
            return;
        };
        let l: LoopC = l.clone();
        self.loop_vars(&l, pat);
        let num = self.loops;
        if !l.kind.is_empty() && l.kind != kind {
            let why = format!("loop {} is a {}, contract expects a {}", self.loops, kind, l.kind);
            if kind == "for" || l.kind == "for" {
                self.unterminated |= kind != "for";
                self.lost.push(why);
                return;
            }
            // its annotations may do all the same
            self.shifted.push(why);
        }
        let open = body.brace_token.span.open().byte_range();
        let close = body.brace_token.span.close().byte_range();
        let over = for_expr.map(|e| self.over(e.span().byte_range()));
        let s = |t: &str| named(subst(t, &self.lmap), num, &over);
        if !l.before.is_empty() {
            self.ed.insert(whole.start, &s(&l.before));
        }
        self.ed.insert(open.start, &format!("\n{}\n", s(&l.text)));
        if !l.top.is_empty() {
            self.ed.insert(open.end, &format!("\n{}", s(&l.top)));
        }
        if !l.bottom.is_empty() {
            // a block ending in an expression of type () may lack its semicolon
            let semi = match body.stmts.last() {
                Some(syn::Stmt::Expr(_, None)) => ";",
                _ => "",
            };
            self.ed.insert(close.start, &format!("{}\n{}", semi, s(&l.bottom)));
        }
        if !l.after.is_empty() {
            self.ed.insert(whole.end, &format!("\n{}", s(&l.after)));
        }
        if let Some(e) = for_expr {
            self.ed.insert(e.span().byte_range().start, &format!("vx_it{}: ", num));
        }
    }
}

/// `vx_overN` in an annotation stands for what loop N goes over.
fn named(t: String, n: usize, over: &Option<String>) -> String {
    match over {
        Some(o) => t.replace(&format!("vx_over{}", n), o),
        None => t,
    }
}

/// Arguments of a logging macro that only look at values.
fn harmless(t: &TokenStream) -> bool {
    struct Args(syn::punctuated::Punctuated<syn::Expr, syn::Token![,]>);
    impl Parse for Args {
        fn parse(i: ParseStream) -> syn::Result<Self> {
            Ok(Args(syn::punctuated::Punctuated::parse_terminated(i)?))
        }
    }
    let Ok(a) = syn::parse2::<Args>(t.clone()) else { return false };
    a.0.iter().all(harmless_expr)
}

/// An expression that only looks at a value and cannot fail.
fn harmless_expr(e: &syn::Expr) -> bool {
    match e {
        syn::Expr::Lit(_) | syn::Expr::Path(_) => true,
        syn::Expr::Reference(r) => r.mutability.is_none() && harmless_expr(&r.expr),
        syn::Expr::Field(f) => harmless_expr(&f.base),
        syn::Expr::Paren(p) => harmless_expr(&p.expr),
        syn::Expr::Unary(u) => harmless_expr(&u.expr),
        syn::Expr::Cast(c) => harmless_expr(&c.expr),
        // the hash of a commit is longer
        syn::Expr::Index(_) => quote::quote!(#e).to_string().replace(' ', "") == "BUILD_INFO.commit_hash[..10]",
        syn::Expr::MethodCall(m) => {
            let n = m.method.to_string();
            harmless_expr(&m.receiver)
                && m.args.is_empty()
                && ["len", "is_empty", "as_str", "capacity", "client_id", "topic", "session_count", "ip", "to_string", "clone", "sender", "valid_up_to"]
                    .contains(&n.as_str())
        }
        syn::Expr::Assign(a) => matches!(&*a.left, syn::Expr::Path(_)) && harmless_expr(&a.right), // name = value
        // a position in a text, or the length of something in memory, plus a small number
        syn::Expr::Binary(b) => matches!(b.op, syn::BinOp::Add(_)) && lengthy(&b.left) && is_small(&b.right),
        syn::Expr::Macro(m) => mac_name(&m.mac) == "format" && harmless(&m.mac.tokens),
        _ => false,
    }
}

/// Whether showing a value (`Display`, `Debug`) does anything but write its parts: the text is
/// dropped with the log messages it is for.
pub struct Shows(pub bool);

impl<'ast> Visit<'ast> for Shows {
    fn visit_expr(&mut self, e: &'ast syn::Expr) {
        match e {
            syn::Expr::Index(_) | syn::Expr::Loop(_) | syn::Expr::While(_) | syn::Expr::Unsafe(_) => self.0 = false,
            syn::Expr::Binary(b) => {
                use syn::BinOp::*;
                if !matches!(b.op, And(_) | Or(_) | Eq(_) | Ne(_) | Lt(_) | Le(_) | Gt(_) | Ge(_)) {
                    self.0 = false;
                }
            }
            syn::Expr::MethodCall(m) => {
                let n = m.method.to_string();
                if ["unwrap", "expect", "unwrap_err", "expect_err", "split_at", "remove", "swap_remove", "drain", "split_off", "block_on"].contains(&n.as_str())
                    || n.ends_with("send")
                {
                    self.0 = false;
                }
            }
            _ => {}
        }
        visit::visit_expr(self, e);
    }

    fn visit_macro(&mut self, m: &'ast syn::Macro) {
        if !(["write", "writeln", "format"].contains(&mac_name(m).as_str()) && harmless(&m.tokens)) {
            self.0 = false;
        }
    }
}

/// `x.f(a)`, or a task that is nothing but that
fn task_of(e: &syn::Expr) -> Option<&syn::ExprMethodCall> {
    match e {
        syn::Expr::MethodCall(m) => Some(m),
        syn::Expr::Async(k) if k.block.stmts.len() == 1 => match &k.block.stmts[0] {
            syn::Stmt::Expr(syn::Expr::Await(w), _) => match &*w.base {
                syn::Expr::MethodCall(m) => Some(m),
                _ => None,
            },
            _ => None,
        },
        _ => None,
    }
}

/// Where the part of a function begins that only runs once something it waits for has happened.
pub fn until(b: &syn::Block, what: &str) -> Option<usize> {
    struct Calls<'a>(&'a str, bool);
    impl<'ast> Visit<'ast> for Calls<'_> {
        fn visit_expr_call(&mut self, c: &'ast syn::ExprCall) {
            if let syn::Expr::Path(p) = &*c.func {
                if p.path.segments.last().unwrap().ident == self.0 {
                    self.1 = true;
                }
            }
            visit::visit_expr_call(self, c);
        }
    }
    b.stmts.iter().find(|s| {
        let mut v = Calls(what, false);
        v.visit_stmt(s);
        v.1
    }).map(|s| s.span().byte_range().start)
}

/// the time after which something is given up (it does not matter how long it is)
fn duration_expr(e: &syn::Expr) -> bool {
    match e {
        syn::Expr::Call(c) => {
            matches!(&*c.func, syn::Expr::Path(p) if last2(&p.path).0 == "Duration" || last2(&p.path).0 == "u64") && c.args.iter().all(duration_expr)
        }
        syn::Expr::Binary(b) => duration_expr(&b.left) && duration_expr(&b.right),
        syn::Expr::Paren(p) => duration_expr(&p.expr),
        _ => harmless_expr(e),
    }
}

fn lengthy(e: &syn::Expr) -> bool {
    matches!(e, syn::Expr::MethodCall(m) if (m.method == "len" || m.method == "valid_up_to") && harmless_expr(e))
}

fn is_small(e: &syn::Expr) -> bool {
    matches!(e, syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Int(i), .. }) if i.base10_parse::<u64>().map_or(false, |n| n < 256))
}

/// A character or text written out.
fn is_text(e: &syn::Expr) -> bool {
    match e {
        syn::Expr::Lit(l) => matches!(l.lit, syn::Lit::Str(_) | syn::Lit::Char(_)),
        syn::Expr::Reference(r) => matches!(&*r.expr, syn::Expr::Macro(m) if mac_name(&m.mac) == "format"),
        _ => false,
    }
}

fn is_mut_path(e: &syn::Expr) -> bool {
    matches!(e, syn::Expr::Reference(r) if matches!(&*r.expr, syn::Expr::Path(_)))
}

/// `(N as f32 * L) as T` or `(L * N as f32) as T` with an integer type T and L = num / den, den a
/// power of two, both small: N, num, den, and "" for f32 or "_wide" for f64.
fn scaled(c: &syn::ExprCast) -> Option<(&syn::Expr, u64, u64, &'static str)> {
    fn bare(e: &syn::Expr) -> &syn::Expr {
        match e {
            syn::Expr::Paren(p) => bare(&p.expr),
            _ => e,
        }
    }
    fn ty(t: &syn::Type) -> String {
        t.to_token_stream().to_string()
    }
    if !["u8", "u16", "u32", "u64", "usize", "i32", "i64", "i128", "u128"].contains(&ty(&c.ty).as_str()) {
        return None;
    }
    let syn::Expr::Binary(b) = bare(&c.expr) else { return None };
    if !matches!(b.op, syn::BinOp::Mul(_)) {
        return None;
    }
    for (x, l) in [(&b.left, &b.right), (&b.right, &b.left)] {
        let (syn::Expr::Cast(x), syn::Expr::Lit(l)) = (bare(x), bare(l)) else { continue };
        let wide = match ty(&x.ty).as_str() {
            "f32" => "",
            "f64" => "_wide",
            _ => continue,
        };
        let syn::Lit::Float(f) = &l.lit else { continue };
        let mut v: f64 = f.base10_digits().parse().ok()?;
        let mut den = 1u64;
        while v.fract() != 0.0 && den < 64 {
            v *= 2.0;
            den *= 2;
        }
        if v.fract() != 0.0 || !(0.0..256.0).contains(&v) {
            return None;
        }
        return Some((&x.expr, v as u64, den, wide));
    }
    None
}

fn last2(p: &syn::Path) -> (String, String) {
    let n = p.segments.len();
    let a = if n >= 2 { p.segments[n - 2].ident.to_string() } else { String::new() };
    (a, p.segments[n - 1].ident.to_string())
}

impl<'ast, 'a, 'e, 't> Visit<'ast> for Rw<'a, 'e, 't> {
    fn visit_stmt(&mut self, s: &'ast syn::Stmt) {
        if self.inner_type(s) {
            return;
        }
        if let syn::Stmt::Macro(m) = s {
            let whole = s.span().byte_range();
            let n = mac_name(&m.mac);
            let r = if n == "select" || n == "panic" || n == "unimplemented" || n == "todo" || n == "unreachable" {
                m.mac.span().byte_range()
            } else {
                whole
            };
            self.mac(&m.mac, r, true);
            return;
        }
        // `opt.map(|p| effect);` as a statement
        if let syn::Stmt::Expr(syn::Expr::MethodCall(m), Some(_)) = s {
            if m.method == "map" && m.args.len() == 1 {
                if let syn::Expr::Closure(c) = &m.args[0] {
                    if c.inputs.len() == 1 {
                        let recv = m.receiver.span().byte_range();
                        let pat = c.inputs[0].span().byte_range();
                        let body = c.body.span().byte_range();
                        let whole = s.span().byte_range();
                        self.ed.insert(recv.start, &format!("if let Some({}) = ", self.src(c.inputs[0].span())));
                        let _ = pat;
                        self.visit_expr(&m.receiver);
                        self.ed.replace(recv.end..body.start, " { ");
                        self.visit_expr(&c.body);
                        self.ed.replace(body.end..whole.end, "; }");
                        self.count("map-statement");
                        return;
                    }
                }
            }
            if m.method == "for_each" && m.args.len() == 1 {
                if let syn::Expr::Closure(c) = &m.args[0] {
                    if self.for_each(m, c, s.span().byte_range()) {
                        return;
                    }
                }
            }
        }
        if let syn::Stmt::Expr(syn::Expr::MethodCall(m), None) = s {
            if m.method == "for_each" && m.args.len() == 1 {
                if let syn::Expr::Closure(c) = &m.args[0] {
                    if self.for_each(m, c, s.span().byte_range()) {
                        return;
                    }
                }
            }
        }
        visit::visit_stmt(self, s);
    }

    fn visit_expr_macro(&mut self, m: &'ast syn::ExprMacro) {
        self.mac(&m.mac, m.span().byte_range(), false);
    }

    fn visit_expr_await(&mut self, a: &'ast syn::ExprAwait) {
        let whole = a.span().byte_range();
        if self.effect_await(&a.base, whole.clone()) || self.io_await(&a.base, whole.clone()) {
            return;
        }
        if let syn::Expr::Call(c) = &*a.base {
            if matches!(&*c.func, syn::Expr::Path(p) if last2(&p.path).1 == "timeout") && c.args.len() == 2 && duration_expr(&c.args[0]) {
                // it is given up before it has begun, or not
                let f = c.args[1].span().byte_range();
                self.ed.replace(whole.start..f.start, &format!("(if {}::vx_bool() {{ Ok(", P));
                if !self.effect_await(&c.args[1], f.clone()) && !self.io_await(&c.args[1], f.clone()) {
                    self.visit_expr(&c.args[1]);
                    self.ed.insert(f.end, ".await");
                }
                self.ed.replace(f.end..whole.end, &format!(") }} else {{ Err({}::vx_elapsed()) }})", P));
                self.count("timeout");
                return;
            }
        }
        if let syn::Expr::Path(_) = &*a.base {
            // the answer to a request
            let b = a.base.span().byte_range();
            self.ed.insert(b.start, &format!("{}::vx_answer(", P));
            self.ed.replace(b.end..whole.end, ", Tracked(vx_w)).await");
            self.count("answer");
            return;
        }
        visit::visit_expr_await(self, a);
    }

    fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) {
        let n = m.method.to_string();
        self.calls.insert(format!(".{}", n));
        let whole = m.span().byte_range();
        let recv = m.receiver.span().byte_range();
        if n == "try_send" && m.args.len() == 1 {
            self.ed.insert(recv.start, &format!("{}::vx_try_send(&", P));
            self.visit_expr(&m.receiver);
            let a = m.args[0].span().byte_range();
            self.ed.replace(recv.end..a.start, ", ");
            self.visit_expr(&m.args[0]);
            self.ed.replace(a.end..whole.end, ", Tracked(vx_w))");
            self.count("send");
            return;
        }
        if n == "send" && m.args.len() == 1 {
            // a oneshot responder
            self.ed.insert(recv.start, &format!("{}::vx_reply(", P));
            self.visit_expr(&m.receiver);
            let a = m.args[0].span().byte_range();
            self.ed.replace(recv.end..a.start, ", ");
            self.visit_expr(&m.args[0]);
            self.ed.replace(a.end..whole.end, ", Tracked(vx_w))");
            self.count("reply");
            return;
        }
        if let Some(to) = self.mc.methods.get(&format!("{}/{}", n, m.args.len())).cloned() {
            let id = m.method.span().byte_range();
            visit::visit_expr_method_call(self, m);
            self.ed.replace(id, &to);
            self.count("shim");
            return;
        }
        if let Some(r) = self.chain(m) {
            self.count(r);
            return;
        }
        if is_self(&m.receiver) && self.effectful.contains(&(self.module.to_string(), n)) {
            let close = m.paren_token.span.close().byte_range().start;
            let sep = if m.args.is_empty() || m.args.trailing_punct() { "" } else { ", " };
            visit::visit_expr_method_call(self, m);
            self.ed.insert(close, &format!("{}Tracked(vx_w)", sep));
            return;
        }
        visit::visit_expr_method_call(self, m);
    }

    fn visit_expr_call(&mut self, c: &'ast syn::ExprCall) {
        if let syn::Expr::Path(p) = &*c.func {
            let (a, b) = last2(&p.path);
            self.calls.insert(match a.as_str() {
                "Self" => format!("{}::{}", self.fname.split("::").next().unwrap_or(""), b),
                _ if a.starts_with(char::is_uppercase) => format!("{}::{}", a, b),
                _ => b.clone(),
            });
            let whole = c.span().byte_range();
            let full = format!("{}::{}", a, b);
            if let Some(to) = self.mc.shims.get(&full).cloned() {
                self.count("shim");
                if to == "-" && c.args.iter().all(harmless_expr) {
                    self.ed.replace(whole, "()");
                    return;
                }
                if to.ends_with("!") && c.args.iter().all(|a| harmless_expr(a) || is_mut_path(a)) {
                    // the arguments do not matter
                    let open = c.paren_token.span.open().byte_range().end;
                    let close = c.paren_token.span.close().byte_range().start;
                    self.ed.replace(p.span().byte_range(), to.trim_end_matches('!'));
                    self.ed.replace(open..close, "");
                    return;
                }
                self.ed.replace(p.span().byte_range(), &to);
                for x in &c.args {
                    self.visit_expr(x);
                }
                if self.mc.effects.contains(&full) {
                    let close = c.paren_token.span.close().byte_range().start;
                    let sep = if c.args.is_empty() || c.args.trailing_punct() { "" } else { ", " };
                    self.ed.insert(close, &format!("{}Tracked(vx_w)", sep));
                }
                return;
            }
            if a == "cmp" && (b == "min" || b == "max") && c.args.len() == 2 {
                let (x, y) = (c.args[0].span().byte_range(), c.args[1].span().byte_range());
                self.ed.replace(whole.start..x.start, "(");
                self.visit_expr(&c.args[0]);
                self.ed.replace(x.end..y.start, &format!(").{}(", b));
                self.visit_expr(&c.args[1]);
                self.ed.replace(y.end..whole.end, ")");
                self.count("min-max");
                return;
            }
            if b == "spawn" && (a == "tokio" || a == "task") && c.args.len() == 1 && self.fc.is_some_and(|f| f.tasks) {
                if let Some(m) = task_of(&c.args[0]) {
                    // the task of which this method is the body
                    let r = m.receiver.span().byte_range();
                    self.ed.replace(whole.start..r.start, &format!("crate::vx_app::vx_start_{}{}(", m.method, m.args.len()));
                    self.visit_expr(&m.receiver);
                    let mut last = r.end;
                    for x in &m.args {
                        let y = x.span().byte_range();
                        self.ed.replace(last..y.start, ", ");
                        self.visit_expr(x);
                        last = y.end;
                    }
                    self.ed.replace(last..whole.end, ", Tracked(vx_w))");
                    self.count("task");
                    return;
                }
            }
            if b == "spawn" && (a == "tokio" || a == "task") && c.args.len() == 1 {
                if let syn::Expr::Async(k) = &c.args[0] {
                    if !self.fc.is_some_and(|f| f.spawns) {
                        // it runs at any time: nothing is known of the world from here on
                        let body = k.block.span().byte_range();
                        self.ed.replace(whole.start..body.start, &format!("{{ {}::vx_at_any_time(Tracked(vx_w)); ", P));
                        self.visit_block(&k.block);
                        self.ed.replace(body.end..whole.end, "}");
                        self.count("spawn");
                        return;
                    }
                    if !leaves(&k.block) {
                        // the task is verified where it is started
                        let body = k.block.span().byte_range();
                        self.ed.replace(whole.start..body.start, "");
                        self.visit_block(&k.block);
                        self.ed.replace(body.end..whole.end, "");
                        self.count("spawn");
                        return;
                    }
                }
            }
            if a == "Error" && b == "new" && c.args.len() == 2 && harmless_expr(&c.args[0]) {
                self.count("io-error");
                if harmless_expr(&c.args[1]) {
                    self.ed.replace(whole, &format!("{}::vx_io_error()", P));
                } else {
                    // the text is computed: that has to be verified as well
                    self.ed.replace(whole.start..c.args[1].span().byte_range().start, &format!("{}::vx_io_error_of(", P));
                    self.visit_expr(&c.args[1]);
                }
                return;
            }
            if a == "BytesMut" && b == "from" {
                self.ed.replace(p.span().byte_range(), &format!("{}::vx_bytes_from_slice", P));
                self.count("bytes-from");
            } else if a == "File" && (b == "with_name" || b == "new") && self.module == "settings" {
                self.ed.replace(p.span().byte_range(), &format!("{}::VxFile::{}", P, b));
                self.count("config");
            } else if a == "fs" && b == "read_to_string" {
                self.ed.replace(p.span().byte_range(), &format!("{}::vx_read_to_string", P));
                self.count("read-to-string");
            } else if a == "u16" && b == "from_be_bytes" {
                self.ed.replace(p.span().byte_range(), &format!("{}::vx_u16_from_be_bytes", P));
                self.count("be-bytes");
            } else if a == "String" && b == "from" {
                self.ed.replace(p.span().byte_range(), &format!("{}::vx_string_from", P));
                self.count("string-from");
            } else if (p.path.segments.len() == 1 || p.path.segments.len() == 2 && a.starts_with(char::is_uppercase))
                && self.effectful.contains(&(self.module.to_string(), b.clone()))
            {
                let close = c.paren_token.span.close().byte_range().start;
                let sep = if c.args.is_empty() || c.args.trailing_punct() { "" } else { ", " };
                visit::visit_expr_call(self, c);
                self.ed.insert(close, &format!("{}Tracked(vx_w)", sep));
                return;
            } else {
                for x in &c.args {
                    self.visit_expr(x);
                }
                self.visit_expr(&c.func);
                return;
            }
            for x in &c.args {
                self.visit_expr(x);
            }
            return;
        }
        visit::visit_expr_call(self, c);
    }

    fn visit_expr_binary(&mut self, b: &'ast syn::ExprBinary) {
        if self.mc.adds && matches!(b.op, syn::BinOp::Add(_)) {
            let (l, r) = (b.left.span().byte_range(), b.right.span().byte_range());
            self.ed.insert(l.start, &format!("{}::vx_sum(", P));
            self.visit_expr(&b.left);
            self.ed.replace(l.end..r.start, ", ");
            self.visit_expr(&b.right);
            self.ed.insert(r.end, ")");
            self.count("sum");
            return;
        }
        use syn::BinOp::*;
        if matches!(b.op, BitAnd(_) | BitOr(_) | BitXor(_) | Shl(_) | Shr(_) | BitAndAssign(_) | BitOrAssign(_) | BitXorAssign(_) | ShlAssign(_) | ShrAssign(_)) {
            self.bitops += 1;
        }
        visit::visit_expr_binary(self, b);
    }

    fn visit_local(&mut self, l: &'ast syn::Local) {
        if let (Some(f), Some(i)) = (self.fc, &l.init) {
            let t = squash(self.src(i.expr.span()));
            if f.opaque.iter().any(|o| t.contains(&squash(o))) {
                self.ed.replace(i.expr.span().byte_range(), &format!("{}::vx_some_value()", P));
                self.count("opaque");
                return;
            }
        }
        visit::visit_local(self, l);
    }

    fn visit_expr_closure(&mut self, c: &'ast syn::ExprClosure) {
        // nothing is known of what it returns
        self.closures += 1;
        for p in &c.inputs {
            if let syn::Pat::Wild(w) = p {
                let n = format!("_vx_x{}", self.closures);
                self.ed.replace(w.span().byte_range(), &n);
            }
        }
        visit::visit_expr_closure(self, c);
    }

    fn visit_expr_cast(&mut self, c: &'ast syn::ExprCast) {
        // (N as f32 * LITERAL) as INT
        if let Some((n, num, den, wide)) = scaled(c) {
            let r = n.span().byte_range();
            let whole = c.expr.span().byte_range();
            self.ed.replace(whole.start..r.start, &format!("{}::vx_scaled{}((", P, wide));
            self.visit_expr(n);
            self.ed.replace(r.end..whole.end, &format!(") as i64, {}, {})", num, den));
            self.count("scaled");
            return;
        }
        visit::visit_expr_cast(self, c);
    }

    fn visit_path(&mut self, p: &'ast syn::Path) {
        if self.mut_self && p.is_ident("self") {
            self.ed.replace(p.span().byte_range(), "vx_self");
        }
        if let Some(f) = p.segments.first() {
            if let Some(n) = self.flags.get(&f.ident.to_string()) {
                let n = n.clone();
                self.ed.replace(f.ident.span().byte_range(), &n);
            }
        }
        visit::visit_path(self, p);
    }

    fn visit_expr_loop(&mut self, l: &'ast syn::ExprLoop) {
        self.loop_edit("loop", l.span().byte_range(), &l.body, None, None);
        visit::visit_expr_loop(self, l);
    }
    fn visit_expr_while(&mut self, l: &'ast syn::ExprWhile) {
        self.loop_edit("while", l.span().byte_range(), &l.body, None, match &*l.cond { syn::Expr::Let(e) => Some(&*e.pat), _ => None });
        visit::visit_expr_while(self, l);
    }
    fn visit_expr_for_loop(&mut self, l: &'ast syn::ExprForLoop) {
        self.loop_edit("for", l.span().byte_range(), &l.body, Some(&l.expr), Some(&*l.pat));
        visit::visit_expr_for_loop(self, l);
    }
    fn visit_type_trait_object(&mut self, t: &'ast syn::TypeTraitObject) {
        DynTypes { ed: self.ed, report: self.report }.visit_type_trait_object(t);
    }
}

impl<'a, 'e, 't> Rw<'a, 'e, 't> {
    /// ITER.for_each(|x| BODY)  ->  for x in ITER { BODY; }
    /// ITER.flat_map(|y| E).for_each(|x| BODY)  ->  for y in ITER { for x in E { BODY; } }
    fn for_each(&mut self, m: &syn::ExprMethodCall, c: &syn::ExprClosure, whole: std::ops::Range<usize>) -> bool {
        if c.inputs.len() != 1 {
            return false;
        }
        if let syn::Expr::MethodCall(fm) = &*m.receiver {
            if fm.method == "flat_map" && fm.args.len() == 1 {
                if let syn::Expr::Closure(fc) = &fm.args[0] {
                    if fc.inputs.len() == 1 {
                        let outer = self.open_for(&fc.inputs[0], fm.receiver.span().byte_range(), whole.start);
                        self.visit_expr(&fm.receiver);
                        let e = fc.body.span().byte_range();
                        self.ed.replace(fm.receiver.span().byte_range().end..e.start, &outer.0);
                        let inner = self.open_for(&c.inputs[0], e.clone(), e.start);
                        self.visit_expr(&fc.body);
                        let body = c.body.span().byte_range();
                        self.ed.replace(e.end..body.start, &inner.0);
                        self.visit_expr(&c.body);
                        self.ed.replace(body.end..whole.end, &format!("; {} }} {} {} }} {}", inner.1, inner.2, outer.1, outer.2));
                        self.count("flat-map-for-each");
                        return true;
                    }
                }
            }
        }
        let recv = m.receiver.span().byte_range();
        let body = c.body.span().byte_range();
        let t = self.open_for(&c.inputs[0], recv.clone(), whole.start);
        self.visit_expr(&m.receiver);
        self.ed.replace(recv.end..body.start, &t.0);
        self.visit_expr(&c.body);
        self.ed.replace(body.end..whole.end, &format!("; {} }} {}", t.1, t.2));
        self.count("for-each");
        true
    }

    /// Inserts `for PAT in ` before the iterated expression; returns what goes after it and what closes the body.
    fn open_for(&mut self, pat: &syn::Pat, expr: std::ops::Range<usize>, before: usize) -> (String, String, String) {
        self.open_for_named(pat, None, expr, before)
    }

    fn open_for_named(&mut self, pat: &syn::Pat, item: Option<&str>, expr: std::ops::Range<usize>, before: usize) -> (String, String, String) {
        self.loops += 1;
        let n = self.loops;
        let l: LoopC = self.fc.and_then(|f| f.loops.get(&n)).cloned().unwrap_or_default();
        self.bare += (l.text.is_empty() && l.top.is_empty()) as usize;
        self.loop_vars(&l, Some(pat));
        let over = Some(self.over(expr.clone()));
        let s = |t: &str| named(subst(t, &self.lmap), n, &over);
        let it = if l.text.is_empty() { String::new() } else { format!("vx_it{}: ", n) };
        // `&x` binds a copy of a reference
        let (var, bind) = match pat {
            _ if item.is_some() => (item.unwrap().to_string(), format!("let {} = &{};", &self.ed.text()[pat.span().byte_range()], item.unwrap())),
            syn::Pat::Reference(r) => (format!("vx_e{}", n), format!("let {} = *vx_e{};", &self.ed.text()[r.pat.span().byte_range()], n)),
            _ => (self.ed.text()[pat.span().byte_range()].to_string(), String::new()),
        };
        self.ed.insert(before, &s(&l.before));
        self.ed.insert(expr.start, &format!("for {} in {}", var, it));
        (format!("\n{}\n {{ {} {} ", s(&l.text), bind, s(&l.top)), s(&l.bottom), s(&l.after))
    }

    /// Adaptor chains with a contract of their own.
    fn chain(&mut self, m: &syn::ExprMethodCall) -> Option<&'static str> {
        let n = m.method.to_string();
        let whole = m.span().byte_range();
        if n == "to_be_bytes" && m.args.is_empty() {
            let id = m.method.span().byte_range();
            visit::visit_expr_method_call(self, m);
            self.ed.replace(id, "vx_to_be_bytes");
            return Some("be-bytes");
        }
        // X.split(P), X.split(P).collect()
        if ["split", "split_once", "rsplit_once"].contains(&n.as_str()) && m.args.len() == 1 || n == "lines" && m.args.is_empty() {
            let id = m.method.span().byte_range();
            visit::visit_expr_method_call(self, m);
            self.ed.replace(id, &format!("vx_{}", n));
            return Some("split");
        }
        // X.starts_with(TEXT)
        if ["starts_with", "ends_with", "contains", "strip_prefix", "strip_suffix"].contains(&n.as_str()) && m.args.len() == 1 && is_text(&m.args[0]) {
            let id = m.method.span().byte_range();
            visit::visit_expr_method_call(self, m);
            self.ed.replace(id, &format!("vx_{}", n));
            return Some("split");
        }
        if n == "count" && m.args.is_empty() {
            if let syn::Expr::MethodCall(b) = &*m.receiver {
                if b.method == "chars" && b.args.is_empty() {
                    let base = b.receiver.span().byte_range();
                    self.visit_expr(&b.receiver);
                    self.ed.replace(base.end..whole.end, ".vx_char_count()");
                    return Some("split");
                }
                if b.method == "split" || b.method == "lines" {
                    let id = m.method.span().byte_range();
                    visit::visit_expr_method_call(self, m);
                    self.ed.replace(id, "len");
                    return Some("split");
                }
            }
            return None;
        }
        if n == "merge" && m.args.len() == 1 {
            let base = m.receiver.span().byte_range();
            self.ed.insert(base.start, &format!("{}::vx_merge(&mut ", P));
            self.visit_expr(&m.receiver);
            let a = m.args[0].span().byte_range();
            self.ed.replace(base.end..a.start, ", ");
            self.visit_expr(&m.args[0]);
            return Some("config");
        }
        if n == "verify_password" && m.args.len() == 2 {
            let base = m.receiver.span().byte_range();
            self.ed.insert(base.start, &format!("{}::vx_verify_password(&", P));
            self.visit_expr(&m.receiver);
            let a = m.args[0].span().byte_range();
            self.ed.replace(base.end..a.start, ", ");
            for x in &m.args {
                self.visit_expr(x);
            }
            return Some("verify-password");
        }
        if n == "collect" && m.args.is_empty() {
            if let syn::Expr::MethodCall(b) = &*m.receiver {
                // ITER.map(|x| E).collect()  ->  { let mut v = Vec::new(); for x in ITER { v.push(E); } v }
                // with filter_map: if let Some(y) = E { v.push(y); }; with filter: { let x = &y; if E { v.push(y); } }
                let kind = b.method.to_string();
                if ["map", "filter_map", "filter"].contains(&kind.as_str()) && b.args.len() == 1 {
                    if let syn::Expr::Closure(c) = &b.args[0] {
                        if c.inputs.len() == 1 {
                            let recv = b.receiver.span().byte_range();
                            let body = c.body.span().byte_range();
                            let k = self.loops + 1;
                            let ty = self.fc.and_then(|f| f.loops.get(&k)).map(|l| l.collect.clone()).filter(|c| !c.is_empty());
                            let ty = ty.map(|t| format!(": {}", t)).unwrap_or_default();
                            self.ed.insert(whole.start, &format!("{{ let mut vx_c{}{} = Vec::new(); ", k, ty));
                            let t = if kind == "filter" {
                                self.open_for_named(&c.inputs[0], Some("vx_y"), recv.clone(), whole.start)
                            } else {
                                self.open_for(&c.inputs[0], recv.clone(), whole.start)
                            };
                            self.visit_expr(&b.receiver);
                            let (open, close) = match kind.as_str() {
                                "map" => (format!("vx_c{}.push(", k), ");".to_string()),
                                "filter_map" => ("if let Some(vx_y) = ".to_string(), format!(" {{ vx_c{}.push(vx_y); }}", k)),
                                _ => ("if ".to_string(), format!(" {{ vx_c{}.push(vx_y); }}", k)),
                            };
                            self.ed.replace(recv.end..body.start, &format!("{} {}", t.0, open));
                            self.visit_expr(&c.body);
                            self.ed.replace(body.end..whole.end, &format!("{} {} }} {} vx_c{} }}", close, t.1, t.2, k));
                            return Some("map-collect");
                        }
                    }
                }
                if b.method == "split" || b.method == "lines" {
                    self.visit_expr(&m.receiver);
                    self.ed.replace(m.receiver.span().byte_range().end..whole.end, "");
                    return Some("split-collect");
                }
            }
            return None;
        }
        // M.entry(K).or_insert(V)
        if ["or_insert", "or_insert_with", "or_default"].contains(&n.as_str()) {
            if let syn::Expr::MethodCall(b) = &*m.receiver {
                if b.method == "entry" && b.args.len() == 1 {
                    let base = b.receiver.span().byte_range();
                    self.ed.insert(base.start, &format!("{}::vx_entry_{}(&mut ", P, n));
                    self.visit_expr(&b.receiver);
                    let k = b.args[0].span().byte_range();
                    self.ed.replace(base.end..k.start, ", ");
                    self.visit_expr(&b.args[0]);
                    match m.args.first() {
                        Some(v) => {
                            let v0 = v.span().byte_range();
                            self.ed.replace(k.end..v0.start, ", ");
                            self.visit_expr(v);
                            self.ed.replace(v0.end..whole.end, ")");
                        }
                        None => self.ed.replace(k.end..whole.end, ")"),
                    }
                    return Some("entry");
                }
            }
            return None;
        }
        // M.values_mut(), V.extend(M.values_mut())
        if n == "values_mut" && m.args.is_empty() {
            let base = m.receiver.span().byte_range();
            self.ed.insert(base.start, &format!("{}::vx_values_mut(&mut ", P));
            self.visit_expr(&m.receiver);
            self.ed.replace(base.end..whole.end, ")");
            return Some("values-mut");
        }
        if n == "extend" && m.args.len() == 1 {
            if let syn::Expr::MethodCall(b) = &m.args[0] {
                if b.method == "values_mut" {
                    let base = m.receiver.span().byte_range();
                    let a = m.args[0].span().byte_range();
                    self.ed.insert(base.start, &format!("{}::vx_extend(&mut ", P));
                    self.visit_expr(&m.receiver);
                    self.ed.replace(base.end..a.start, ", ");
                    self.visit_expr(&m.args[0]);
                    self.ed.replace(a.end..whole.end, ")");
                    return Some("extend");
                }
            }
            return None;
        }
        // X.retain(|c| c != Y)
        if n == "retain" && m.args.len() == 1 {
            let (deref, other) = compared_with(&m.args[0], |o| matches!(o, syn::BinOp::Ne(_)))?;
            let base = m.receiver.span().byte_range();
            self.ed.insert(base.start, &format!("{}::vx_retain_other(&mut ", P));
            self.visit_expr(&m.receiver);
            let o = other.span().byte_range();
            self.ed.replace(base.end..o.start, if deref { ", &" } else { ", " });
            self.visit_expr(other);
            self.ed.replace(o.end..whole.end, ")");
            return Some("retain");
        }
        // X.iter().position(|c| c == Y)
        if n == "position" && m.args.len() == 1 {
            let syn::Expr::MethodCall(it) = &*m.receiver else { return None };
            if it.method != "iter" || !it.args.is_empty() {
                return None;
            }
            let (deref, other) = compared_with(&m.args[0], |o| matches!(o, syn::BinOp::Eq(_)))?;
            let base = it.receiver.span().byte_range();
            let whole = m.span().byte_range();
            self.ed.insert(base.start, &format!("{}::vx_position(&", P));
            self.visit_expr(&it.receiver);
            let o = other.span().byte_range();
            self.ed.replace(base.end..o.start, if deref { ", &" } else { ", " });
            self.ed.replace(o.end..whole.end, ")");
            return Some("position");
        }
        None
    }
}

/// `|c| c OP Y`: Y, and whether c is dereferenced
fn compared_with(e: &syn::Expr, is_op: impl Fn(&syn::BinOp) -> bool) -> Option<(bool, &syn::Expr)> {
    let syn::Expr::Closure(c) = e else { return None };
    if c.inputs.len() != 1 {
        return None;
    }
    let syn::Pat::Ident(p) = c.inputs.first()? else { return None };
    let syn::Expr::Binary(b) = &*c.body else { return None };
    if !is_op(&b.op) {
        return None;
    }
    let is_p = |e: &syn::Expr| match e {
        syn::Expr::Path(x) => x.path.is_ident(&p.ident),
        syn::Expr::Unary(u) => matches!(&*u.expr, syn::Expr::Path(x) if x.path.is_ident(&p.ident)),
        _ => false,
    };
    if is_p(&b.left) {
        Some((matches!(&*b.left, syn::Expr::Unary(_)), &b.right))
    } else if is_p(&b.right) {
        Some((matches!(&*b.right, syn::Expr::Unary(_)), &b.left))
    } else {
        None
    }
}

// ------------------------------------------------------------------ select!, bitflags!

pub struct Arm {
    pub pat: syn::Pat,
    pub fut: syn::Expr,
    pub body: syn::Expr,
}
pub struct Select {
    pub arms: Vec<Arm>,
}
impl Parse for Select {
    fn parse(i: ParseStream) -> syn::Result<Self> {
        let mut arms = Vec::new();
        while !i.is_empty() {
            let pat = syn::Pat::parse_single(i)?;
            i.parse::<syn::Token![=]>()?;
            let fut: syn::Expr = i.parse()?;
            i.parse::<syn::Token![=>]>()?;
            let body: syn::Expr = if i.peek(syn::token::Brace) {
                let b: syn::ExprBlock = i.parse()?;
                syn::Expr::Block(b)
            } else {
                i.parse()?
            };
            let _ = i.parse::<Option<syn::Token![,]>>()?;
            arms.push(Arm { pat, fut, body });
        }
        Ok(Select { arms })
    }
}

struct Flags {
    name: String,
    ty: String,
    consts: Vec<(String, syn::Expr)>,
}
impl Parse for Flags {
    fn parse(i: ParseStream) -> syn::Result<Self> {
        let _ = i.call(syn::Attribute::parse_outer)?;
        let _: syn::Visibility = i.parse()?;
        i.parse::<syn::Token![struct]>()?;
        let name: syn::Ident = i.parse()?;
        i.parse::<syn::Token![:]>()?;
        let ty: syn::Type = i.parse()?;
        let c;
        syn::braced!(c in i);
        let mut consts = Vec::new();
        while !c.is_empty() {
            let _ = c.call(syn::Attribute::parse_outer)?;
            c.parse::<syn::Token![const]>()?;
            let n: syn::Ident = c.parse()?;
            c.parse::<syn::Token![=]>()?;
            let e: syn::Expr = c.parse()?;
            c.parse::<syn::Token![;]>()?;
            consts.push((n.to_string(), e));
        }
        Ok(Flags { name: name.to_string(), ty: ty.to_token_stream().to_string(), consts })
    }
}

fn eval(e: &syn::Expr, vals: &BTreeMap<String, u64>) -> Option<u64> {
    match e {
        syn::Expr::Lit(l) => match &l.lit {
            syn::Lit::Int(i) => i.base10_parse().ok(),
            _ => None,
        },
        syn::Expr::Paren(p) => eval(&p.expr, vals),
        syn::Expr::Field(f) => eval(&f.base, vals),
        syn::Expr::MethodCall(m) if m.method == "bits" => eval(&m.receiver, vals),
        syn::Expr::Path(p) => vals.get(&p.path.segments.last()?.ident.to_string()).copied(),
        syn::Expr::Binary(b) => {
            let (x, y) = (eval(&b.left, vals)?, eval(&b.right, vals)?);
            match b.op {
                syn::BinOp::BitOr(_) => Some(x | y),
                syn::BinOp::BitAnd(_) => Some(x & y),
                syn::BinOp::BitXor(_) => Some(x ^ y),
                syn::BinOp::Shl(_) => Some(x << y),
                syn::BinOp::Add(_) => Some(x + y),
                _ => None,
            }
        }
        _ => None,
    }
}

/// The arguments of a format! with nothing but `{}`, `{name}`, `{0}` in it.
struct Format {
    text: String,
    args: Vec<syn::Expr>,
    names: BTreeMap<String, syn::Expr>,
}
impl Parse for Format {
    fn parse(i: ParseStream) -> syn::Result<Self> {
        let text: syn::LitStr = i.parse()?;
        let mut f = Format { text: text.value(), args: vec![], names: BTreeMap::new() };
        while !i.is_empty() {
            i.parse::<syn::Token![,]>()?;
            if i.is_empty() {
                break;
            }
            if i.peek(syn::Ident) && i.peek2(syn::Token![=]) && !i.peek2(syn::Token![==]) {
                let n: syn::Ident = i.parse()?;
                i.parse::<syn::Token![=]>()?;
                f.names.insert(n.to_string(), i.parse()?);
            } else {
                f.args.push(i.parse()?);
            }
        }
        Ok(f)
    }
}
impl Format {
    fn parts(&self) -> Option<Vec<Result<String, syn::Expr>>> {
        let mut out = Vec::new();
        let mut lit = String::new();
        let mut next = 0;
        let mut it = self.text.chars().peekable();
        while let Some(c) = it.next() {
            match c {
                '{' if it.peek() == Some(&'{') => {
                    it.next();
                    lit.push('{');
                }
                '}' if it.peek() == Some(&'}') => {
                    it.next();
                    lit.push('}');
                }
                '{' => {
                    let mut name = String::new();
                    loop {
                        match it.next()? {
                            '}' => break,
                            c => name.push(c),
                        }
                    }
                    if !lit.is_empty() {
                        out.push(Ok(std::mem::take(&mut lit)));
                    }
                    let e = if name.is_empty() {
                        next += 1;
                        self.args.get(next - 1)?.clone()
                    } else if let Ok(k) = name.parse::<usize>() {
                        self.args.get(k)?.clone()
                    } else if let Some(e) = self.names.get(&name) {
                        e.clone()
                    } else if name.chars().all(|c| c.is_alphanumeric() || c == '_') {
                        return None; // captured: no span to copy from
                    } else {
                        return None;
                    };
                    out.push(Err(e));
                }
                c => lit.push(c),
            }
        }
        if !lit.is_empty() || out.is_empty() {
            out.push(Ok(lit));
        }
        Some(out)
    }
}
