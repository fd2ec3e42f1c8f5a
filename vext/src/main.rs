//! Extracts the code of a crate mechanically and inserts the contracts, producing the text that
//! Verus verifies. See DESIGN.md, "What the extraction does", for the list of rewrites.
mod contracts;
mod edit;
mod inline;
mod normalise;
mod rewrite;

use contracts::{Contracts, FnC, ModuleC};
use edit::Edits;
use rewrite::*;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use syn::spanned::Spanned;
use syn::visit::Visit;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| -> Option<String> {
        args.iter().position(|a| a == k).map(|i| args[i + 1].clone())
    };
    let src = PathBuf::from(get("--src").expect("--src"));
    let out = PathBuf::from(get("--out").expect("--out"));
    let root = get("--root").unwrap_or("lib.rs".into());
    let skip: BTreeSet<String> =
        get("--skip").unwrap_or_default().split(',').map(|s| s.to_string()).collect();
    let areas: BTreeSet<String> =
        get("--areas").unwrap_or_default().split(',').map(|s| s.to_string()).collect();
    let files: Vec<String> =
        get("--contracts").expect("--contracts").split(',').map(|s| s.to_string()).collect();
    let contracts = Contracts::load(&files);
    let mut report = Report::default();
    let mut modules = Vec::new();
    if let Err(e) = collect_modules(&src, &src.join(&root), "", &skip, &mut modules) {
        println!("{}", json!({"fatal": e}));
        std::process::exit(3);
    }
    // a file of another crate, as a module of this one
    let mut extra = String::new();
    if let Some(e) = get("--extra") {
        // name=file=crate name to be read as `crate`
        let w: Vec<&str> = e.split('=').collect();
        let file = PathBuf::from(w[1]);
        match std::fs::read_to_string(&file).map_err(|e| e.to_string()).and_then(|t| {
            let t = t.replace(&format!("use {}::", w[2]), "use crate::");
            syn::parse_file(&t).map(|a| (t, a)).map_err(|e| e.to_string())
        }) {
            Ok((t, a)) => modules.push((w[0].to_string(), src.join(format!("{}.rs", w[0])), t, a)),
            Err(e) => {
                println!("{}", json!({"fatal": format!("{}: {}", file.display(), e)}));
                std::process::exit(3);
            }
        }
        extra = format!("pub mod {};\n", w[0]);
    }
    // which functions carry the ghost world: those that use a channel, or call one that does
    let mut effectful: BTreeSet<(String, String)> = BTreeSet::new();
    let mut parsed: Vec<(String, PathBuf, String, syn::File)> = modules;
    for (m, _, text, ast) in &mut parsed {
        let Some(mc) = contracts.modules.get(m) else { continue };
        for (name, f) in mc.fns.iter().filter(|(_, f)| !f.until.is_empty()) {
            let cut = functions_of(ast).into_iter().find(|x| x.name == *name || x.short == *name).and_then(|x| {
                until(&x.block, &f.until).map(|a| (a, x.block.brace_token.span.close().byte_range().start))
            });
            match cut {
                Some((a, b)) => {
                    text.replace_range(a..b, "\n");
                    *ast = syn::parse_file(text).unwrap();
                    *report.rewrites.entry("until".into()).or_default() += 1;
                }
                None => report.lost.push(json!({"module": m, "fn": name, "why": format!("it does not wait for {}", f.until), "area": mc.area, "props": f.props})),
            }
        }
    }
    let returns = normalise::returns(parsed.iter().map(|p| &p.3));
    for (m, _, text, ast) in &mut parsed {
        let Some(mc) = contracts.modules.get(m) else { continue };
        if !areas.contains(&mc.area) { continue }
        if let Some((t, n)) = normalise::normalise(text, ast, mc, &returns) {
            if let Ok(a) = syn::parse_file(&t) {
                *text = t;
                *ast = a;
                *report.rewrites.entry("combinators".into()).or_default() += n;
            }
        }
        if let Some((t, n, into)) = inline::inline(text, ast, mc) {
            if let Ok(a) = syn::parse_file(&t) {
                *text = t;
                *ast = a;
                *report.rewrites.entry("inline".into()).or_default() += n;
                for (f, loops) in into {
                    report.inlined.insert((m.clone(), f), loops);
                }
            }
            if let Some((t, n)) = normalise::normalise(text, ast, mc, &returns) {
                if let Ok(a) = syn::parse_file(&t) {
                    *text = t;
                    *ast = a;
                    *report.rewrites.entry("combinators".into()).or_default() += n;
                }
            }
        }
    }
    let parsed = parsed;
    loop {
        let mut changed = false;
        for (m, _, _, ast) in &parsed {
            let Some(mc) = contracts.modules.get(m) else { continue };
            for f in functions_of(ast) {
                if mc.external.contains(&f.name) || f.outer.as_ref().is_some_and(|o| mc.external.contains(o)) {
                    continue;
                }
                if contracts.pure_fns.contains(&f.name) { continue }
                let key = (m.clone(), f.short.clone());
                if !effectful.contains(&key) && uses_effects(&f.block, &effectful, m, mc) {
                    effectful.insert(key);
                    changed = true;
                }
            }
        }
        if !changed {
            break;
        }
    }
    for (m, path, text, ast) in &parsed {
        let rel = path.strip_prefix(&src).unwrap();
        let dst = out.join(rel);
        std::fs::create_dir_all(dst.parent().unwrap()).unwrap();
        let mut gen = generate(m, text, ast, contracts.modules.get(m), &areas, &effectful, &skip, &contracts, &mut report);
        if m.is_empty() {
            gen.push_str(&extra);
        }
        std::fs::write(&dst, gen).unwrap();
    }
    // anchors that were not found
    for (m, mc) in &contracts.modules {
        if !parsed.iter().any(|(n, ..)| n == m) {
            report.lost.push(json!({"module": m, "fn": null, "why": "module not found", "area": mc.area}));
        }
    }
    println!("{}", serde_json::to_string(&report.json()).unwrap());
}

#[derive(Default)]
pub struct Report {
    pub lost: Vec<serde_json::Value>,
    pub functions: Vec<serde_json::Value>,
    pub rewrites: BTreeMap<String, usize>,
    pub external: Vec<serde_json::Value>,
    /// functions into which others were inlined, and whether those have loops
    pub inlined: BTreeMap<(String, String), bool>,
}

impl Report {
    fn json(&self) -> serde_json::Value {
        json!({"lost": self.lost, "functions": self.functions, "rewrites": self.rewrites, "external": self.external})
    }
}

fn collect_modules(
    src: &Path,
    file: &Path,
    module: &str,
    skip: &BTreeSet<String>,
    out: &mut Vec<(String, PathBuf, String, syn::File)>,
) -> Result<(), String> {
    let text = std::fs::read_to_string(file).map_err(|e| format!("{}: {}", file.display(), e))?;
    let ast = syn::parse_file(&text).map_err(|e| format!("{}: {}", file.display(), e))?;
    let stem = file.file_stem().unwrap().to_str().unwrap();
    let dir = if stem == "mod" || stem == "lib" || stem == "main" {
        file.parent().unwrap().to_path_buf()
    } else {
        file.parent().unwrap().join(stem)
    };
    let mut subs = Vec::new();
    for item in &ast.items {
        if let syn::Item::Mod(m) = item {
            if m.content.is_none() {
                let name = m.ident.to_string();
                let p = if module.is_empty() { name.clone() } else { format!("{}::{}", module, name) };
                if skip.contains(&p) {
                    continue;
                }
                let a = dir.join(format!("{}.rs", name));
                let b = dir.join(&name).join("mod.rs");
                subs.push((p, if a.exists() { a } else { b }));
            }
        }
    }
    out.push((module.to_string(), file.to_path_buf(), text, ast));
    for (p, f) in subs {
        collect_modules(src, &f, &p, skip, out)?;
    }
    Ok(())
}

pub fn is_test_item(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        let s = quote::quote!(#a).to_string().replace(' ', "");
        s.contains("cfg(test)") || s.contains("#[test]")
    })
}

pub fn attr_has(attrs: &[syn::Attribute], what: &str) -> bool {
    attrs.iter().any(|a| a.path().segments.last().is_some_and(|s| s.ident == what))
}

fn generate(
    module: &str,
    text: &str,
    ast: &syn::File,
    mc: Option<&ModuleC>,
    areas: &BTreeSet<String>,
    effectful: &BTreeSet<(String, String)>,
    skip: &BTreeSet<String>,
    contracts: &Contracts,
    report: &mut Report,
) -> String {
    let mut out = String::new();
    if module.is_empty() {
        out.push_str("#![feature(allocator_api)]\n#![allow(inconsistent_fields, unused_imports, unused_variables, dead_code, unused_mut, unused_assignments, unused_must_use, non_camel_case_types, mismatched_lifetime_syntaxes)]\n");
        out.push_str("#![verifier::allow(autoderive_clone_without_spec)]\n#![verifier::loop_isolation(false)]\n");
    }
    let spec_modules: String = contracts.spec_modules.iter().map(|m| format!("#[path = \"{}\"]\npub mod {};\n", m.1, m.0)).collect();
    let Some(mc) = mc else {
        // module without contracts: plain Rust, ignored by the verifier
        let mut ed = Edits::new(text);
        for item in &ast.items {
            if is_test_item(item_attrs(item)) {
                ed.delete(item.span().byte_range());
            }
            if let syn::Item::Fn(f) = item {
                if module.is_empty() && skip.contains(&format!("fn:{}", f.sig.ident)) {
                    ed.delete(item.span().byte_range());
                }
            }
            if let syn::Item::Mod(m) = item {
                let p = if module.is_empty() { m.ident.to_string() } else { format!("{}::{}", module, m.ident) };
                if skip.contains(&p) {
                    ed.delete(item.span().byte_range());
                }
            }
        }
        out.push_str(&ed.apply());
        if module.is_empty() {
            out.push_str("\nuse vstd::prelude::*;\n");
            out.push_str(&spec_modules);
        }
        return out;
    };
    let verify = areas.contains(&mc.area);
    let mut seen = BTreeSet::new();
    out.push_str("use vstd::prelude::*;\n");
    for u in &mc.uses {
        out.push_str(u);
        out.push('\n');
    }
    if module.is_empty() {
        out.push_str(&spec_modules);
    }
    let mut hoisted = String::new();
    for item in &ast.items {
        let attrs = item_attrs(item);
        if is_test_item(attrs) {
            continue;
        }
        let r = item.span().byte_range();
        let raw = &text[r.clone()];
        let plain = match item {
            syn::Item::Use(_) | syn::Item::ExternCrate(_) | syn::Item::Macro(_) | syn::Item::Mod(_) => true,
            syn::Item::Impl(i) => {
                attr_has(attrs, "async_trait")
                    || i.trait_.as_ref().is_some_and(|t| {
                        let n = t.1.segments.last().unwrap().ident.to_string();
                        n == "Display" || n == "Debug" || mc.external.contains(&format!("impl {}", n))
                    })
                    || mc.external.contains(&format!("impl {}", self_name(i)))
            }
            syn::Item::Trait(t) => {
                attr_has(attrs, "async_trait") || mc.external.contains(&t.ident.to_string())
            }
            syn::Item::Struct(s) => mc.external.contains(&s.ident.to_string()),
            syn::Item::Enum(s) => mc.external.contains(&s.ident.to_string()),
            syn::Item::Fn(f) => mc.external.contains(&f.sig.ident.to_string()),
            _ => false,
        };
        if plain {
            let mut shows = Shows(true);
            match item {
                syn::Item::Impl(i) if i.trait_.as_ref().is_some_and(|t| {
                    let n = t.1.segments.last().unwrap().ident.to_string();
                    n == "Display" || n == "Debug"
                }) => shows.visit_item(item),
                // a macro of one's own in place of those that only log
                syn::Item::Macro(m) if m.ident.as_ref().is_some_and(|i| ["trace", "debug", "info", "warn", "error", "format", "write"].contains(&i.to_string().as_str())) => shows.0 = false,
                _ => {}
            }
            if !shows.0 {
                report.lost.push(json!({"module": module, "fn": null, "why": format!("{} may do more than show a value", first_line(raw)), "area": mc.area}));
            }
            if matches!(item, syn::Item::Impl(_) | syn::Item::Fn(_)) {
                report.external.push(json!({"module": module, "item": first_line(raw)}));
            }
            out.push_str(raw);
            out.push('\n');
            continue;
        }
        let mut ed = Edits::new(text);
        match item {
            syn::Item::Fn(f) => {
                let name = f.sig.ident.to_string();
                shape(module, mc, &name, raw, report);
                edit_fn(module, mc, verify, &name, &name, &f.attrs, &f.sig, &f.block, &mut ed, effectful, &mut seen, &mut hoisted, report);
            }
            syn::Item::Impl(i) => {
                let ty = self_name(i);
                if let Some(t) = i.trait_.as_ref() {
                    let key = format!("impl {} for {}", t.1.segments.last().unwrap().ident, ty);
                    if let Some(extra) = mc.inside.get(&key) {
                        let open = i.brace_token.span.open().byte_range().end;
                        ed.insert(open, &format!("\n{}\n", extra));
                    }
                }
                let tr = i.trait_.as_ref().map(|t| t.1.segments.last().unwrap().ident.to_string());
                // a clone that is written out instead of derived is the same, too
                let with_clone = match (tr.as_deref(), mc.clones.get(&ty)) {
                    (Some("Clone"), Some((props, same))) => {
                        let mut m = mc.clone();
                        m.fns.insert(
                            format!("{}::clone", ty),
                            FnC { ret: "vx_r".into(), spec: format!("    ensures {},\n", same), props: props.clone(), ..Default::default() },
                        );
                        Some(m)
                    }
                    _ => None,
                };
                let mc = with_clone.as_ref().unwrap_or(mc);
                for it in &i.items {
                    if let syn::ImplItem::Fn(f) = it {
                        let short = f.sig.ident.to_string();
                        let name = format!("{}::{}", ty, short);
                        if is_test_item(&f.attrs) {
                            continue;
                        }
                        let before = report.functions.len();
                        edit_fn(module, mc, verify, &name, &short, &f.attrs, &f.sig, &f.block, &mut ed, effectful, &mut seen, &mut hoisted, report);
                        // a method of a trait is under the trait's contract
                        if let Some(c) = tr.as_ref().and_then(|t| mc.fns.get(&format!("{}::{}", t, short))) {
                            for r in &mut report.functions[before..] {
                                if r["contract"] == json!(false) {
                                    r["contract"] = json!(true);
                                    r["props"] = json!(c.props);
                                }
                            }
                        }
                    }
                }
            }
            syn::Item::Trait(t) => {
                for it in &t.items {
                    if let syn::TraitItem::Fn(f) = it {
                        let short = f.sig.ident.to_string();
                        let name = format!("{}::{}", t.ident, short);
                        edit_trait_fn(mc, &name, f, &mut ed, &mut seen);
                    }
                }
                let key = format!("trait {}", t.ident);
                if let Some(extra) = mc.inside.get(&key) {
                    let open = t.brace_token.span.open().byte_range().end;
                    ed.insert(open, &format!("\n{}\n", extra));
                }
            }
            syn::Item::Struct(s) => {
                shape(module, mc, &s.ident.to_string(), raw, report);
                if let Some(h) = strip_serde(&s.ident.to_string(), &s.attrs, s.fields.iter(), &mut ed) {
                    hoisted.push_str(&h);
                }
                if mc.clones.contains_key(&s.ident.to_string()) {
                    strip_clone(&s.attrs, &mut ed);
                    hoisted.push_str(&clone_struct(s, &mc.clones[&s.ident.to_string()].1));
                }
                DynTypes { ed: &mut ed, report }.visit_item(item);
            }
            syn::Item::Enum(e) => {
                shape(module, mc, &e.ident.to_string(), raw, report);
                if let Some(h) = strip_serde(&e.ident.to_string(), &e.attrs, e.variants.iter().flat_map(|v| v.fields.iter()), &mut ed) {
                    hoisted.push_str(&h);
                }
                if mc.clones.contains_key(&e.ident.to_string()) {
                    strip_clone(&e.attrs, &mut ed);
                    hoisted.push_str(&clone_enum(e, &mc.clones[&e.ident.to_string()].1));
                }
            }
            syn::Item::Static(s) if matches!(s.mutability, syn::StaticMutability::None) => {
                // nothing is known about what it holds
                let semi = s.semi_token.span.byte_range();
                ed.insert(s.static_token.span.byte_range().start, "exec ");
                ed.replace(s.eq_token.span.byte_range(), "ensures true {");
                ed.replace(semi, "}");
            }
            syn::Item::Const(c) => {
                if let syn::Type::Reference(t) = &*c.ty {
                    if t.lifetime.is_none() {
                        ed.insert(t.and_token.span.byte_range().end, "'static ");
                    }
                }
            }
            _ => {}
        }
        out.push_str("verus! {\n");
        out.push_str(&ed.apply_range(r));
        out.push_str("\n} // verus!\n");
    }
    out.push_str(&hoisted);
    if !mc.append.is_empty() {
        out.push_str("verus! {\n");
        out.push_str(&mc.append);
        out.push_str("\n} // verus!\n");
    }
    for (name, f) in &mc.fns {
        if !seen.contains(name) {
            report.lost.push(json!({"module": module, "fn": name, "why": "function not found", "area": mc.area, "props": f.props}));
        }
    }
    out
}

/// Contracts that depend on how a type is declared (serde attributes) say so.
pub fn shape(module: &str, mc: &ModuleC, name: &str, raw: &str, report: &mut Report) {
    if let Some(want) = mc.shapes.get(name) {
        let plain: String = raw.lines().filter(|l| !l.trim_start().starts_with("//")).flat_map(|l| l.chars()).filter(|c| !c.is_whitespace()).collect();
        let want: String = want.chars().filter(|c| !c.is_whitespace()).collect();
        if plain != want {
            report.lost.push(json!({"module": module, "fn": null, "why": format!("{} is declared differently", name), "area": mc.area}));
        }
    }
}

fn first_line(s: &str) -> String {
    s.lines().find(|l| !l.trim_start().starts_with("#[") && !l.trim_start().starts_with("//")).unwrap_or("").trim().to_string()
}
