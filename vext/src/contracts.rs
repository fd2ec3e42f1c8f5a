use std::collections::{BTreeMap, BTreeSet};

#[derive(Default, Clone, Debug)]
pub struct LoopC {
    pub collect: String,
    pub kind: String,
    pub text: String,
    pub before: String,
    pub top: String,
    pub bottom: String,
    pub after: String,
    pub vars: Vec<String>,
}

#[derive(Default, Clone, Debug)]
pub struct FnC {
    pub params: Vec<String>,
    pub ret: String,
    pub spec: String,
    pub enter: String,
    pub loops: BTreeMap<usize, LoopC>,
    pub locals: Vec<(String, String)>,
    /// locals that need not be there; without them, the lines that speak of them go
    pub maybes: Vec<(String, String)>,
    /// locals whose value does not matter, and part of what they are initialised from
    pub opaque: Vec<String>,
    pub props: Vec<String>,
    pub attrs: String,
    /// tasks it starts may be verified where they are started
    pub spawns: bool,
    /// starts the tasks of the application
    pub tasks: bool,
    /// only what comes before the statement that calls this
    pub until: String,
}

impl FnC {
    /// Drops the annotation lines that mention a name.
    pub fn forget(&mut self, name: &str) {
        let keep = |t: &str| -> String {
            t.lines().filter(|l| !l.split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| w == name)).map(|l| format!("{}\n", l)).collect()
        };
        self.enter = keep(&self.enter);
        for l in self.loops.values_mut() {
            for t in [&mut l.text, &mut l.before, &mut l.top, &mut l.bottom, &mut l.after] {
                *t = keep(t);
            }
        }
    }
}

#[derive(Default, Clone, Debug)]
pub struct ModuleC {
    pub area: String,
    pub uses: Vec<String>,
    pub external: BTreeSet<String>,
    /// types whose clones are the same (in what way), and the properties that rest on it
    pub clones: BTreeMap<String, (Vec<String>, String)>,
    pub append: String,
    pub inside: BTreeMap<String, String>,
    pub fns: BTreeMap<String, FnC>,
    /// the text a type must have (white space aside) for the contract to apply
    pub shapes: BTreeMap<String, String>,
    /// the ghost world threaded through effectful functions, if not the usual one
    pub world: String,
    /// function or type paths to replace by ones with a contract: `fs::write` -> `crate::x::vx_write`
    pub shims: BTreeMap<String, String>,
    /// likewise methods
    pub methods: BTreeMap<String, String>,
    /// calls that take the ghost world
    pub effects: BTreeSet<String>,
    pub adds: bool,
}

#[derive(Default)]
pub struct Contracts {
    pub modules: BTreeMap<String, ModuleC>,
    pub spec_modules: Vec<(String, String)>,
    pub pure_fns: BTreeSet<String>,
}

fn tag_line(l: &str) -> String {
    // `clause, //@ C01 C02`  ->  `clause, /*@C01,C02@*/`
    if let Some(i) = l.find("//@") {
        let tags: Vec<&str> = l[i + 3..].split_whitespace().collect();
        format!("{} /*@{}@*/", l[..i].trim_end(), tags.join(","))
    } else {
        l.to_string()
    }
}

impl Contracts {
    pub fn load(files: &[String]) -> Contracts {
        let mut c = Contracts::default();
        for f in files {
            let text = std::fs::read_to_string(f).unwrap_or_else(|e| panic!("{}: {}", f, e));
            c.parse(&text);
        }
        c
    }

    fn parse(&mut self, text: &str) {
        let mut area = String::new();
        let mut module = String::new();
        let mut func: Option<String> = None;
        #[derive(Clone)]
        enum Sec {
            None,
            Spec,
            Enter,
            Loop(usize),
            LoopBefore(usize),
            LoopTop(usize),
            LoopBottom(usize),
            LoopAfter(usize),
            Append,
            Inside(String),
        }
        let mut sec = Sec::None;
        for l in text.lines() {
            let t = l.trim_start();
            if t.starts_with('@') {
                let (kw, rest) = match t.find(char::is_whitespace) {
                    Some(i) => (&t[..i], t[i..].trim()),
                    None => (t, ""),
                };
                match kw {
                    "@area" => area = rest.to_string(),
                    "@spec" => {
                        let mut it = rest.split_whitespace();
                        self.spec_modules.push((it.next().unwrap().into(), it.next().unwrap().into()));
                    }
                    "@pure" => self.pure_fns.extend(rest.split_whitespace().map(|s| s.to_string())),
                    "@module" => {
                        module = rest.to_string();
                        if module == "crate" { module = String::new(); }
                        func = None;
                        sec = Sec::None;
                        self.modules.entry(module.clone()).or_default().area = area.clone();
                    }
                    _ => {
                        let m = self.modules.get_mut(&module).expect("@module first");
                        match kw {
                            "@use" => m.uses.push(format!("use {};", rest)),
                            "@external" => { m.external.insert(rest.to_string()); }
                            "@clone" => {
                                let (head, same) = rest.split_once(" :: ").unwrap_or((rest, "vx_r == *self"));
                                let mut w = head.split_whitespace().map(|s| s.to_string());
                                let n = w.next().expect("@clone");
                                m.clones.insert(n, (w.collect(), same.to_string()));
                            }
                            "@world" => m.world = rest.to_string(),
                            "@adds" => m.adds = true,
                            "@shim" => {
                                // @shim fs::write crate::x::vx_write [world]
                                let w: Vec<&str> = rest.split_whitespace().collect();
                                m.shims.insert(w[0].into(), w[1].into());
                                if w.len() > 2 { m.effects.insert(w[0].into()); }
                            }
                            "@method" => {
                                // @method name/args vx_name
                                let w: Vec<&str> = rest.split_whitespace().collect();
                                m.methods.insert(w[0].into(), w[1].into());
                            }
                            "@append" => { func = None; sec = Sec::Append }
                            "@shape" => {
                                let (n, s) = rest.split_once(char::is_whitespace).expect("@shape name text");
                                m.shapes.insert(n.to_string(), s.to_string());
                            }
                            "@inside" => sec = Sec::Inside(rest.to_string()),
                            "@fn" => {
                                // @fn Type::name(a, b) -> r
                                let (head, ret) = match rest.split_once("->") {
                                    Some((h, r)) => (h.trim(), r.trim().to_string()),
                                    None => (rest, String::new()),
                                };
                                let (name, ps) = head.split_once('(').unwrap_or((head, ")"));
                                let params: Vec<String> = ps
                                    .trim_end_matches(')')
                                    .split(',')
                                    .map(|s| s.trim().to_string())
                                    .filter(|s| !s.is_empty())
                                    .collect();
                                m.fns.insert(name.trim().to_string(), FnC { params, ret, ..Default::default() });
                                func = Some(name.trim().to_string());
                                sec = Sec::Spec;
                            }
                            _ => {
                                let f = m.fns.get_mut(func.as_ref().expect("@fn first")).unwrap();
                                match kw {
                                    "@props" => f.props = rest.split_whitespace().map(|s| s.to_string()).collect(),
                                    "@spawns" => f.spawns = true,
                                    "@tasks" => f.tasks = true,
                                    "@until" => f.until = rest.to_string(),
                                    "@attr" => f.attrs.push_str(&format!("{}\n", rest)),
                                    "@enter" => sec = Sec::Enter,
                                    "@loop" => {
                                        let mut it = rest.split_whitespace();
                                        let n: usize = it.next().unwrap().parse().unwrap();
                                        f.loops.entry(n).or_default().kind = it.next().unwrap_or("").to_string();
                                        sec = Sec::Loop(n);
                                    }
                                    "@before" => {
                                        let n: usize = rest.parse().unwrap();
                                        f.loops.entry(n).or_default();
                                        sec = Sec::LoopBefore(n);
                                    }
                                    "@top" => {
                                        let n: usize = rest.parse().unwrap();
                                        f.loops.entry(n).or_default();
                                        sec = Sec::LoopTop(n);
                                    }
                                    "@bottom" => {
                                        let n: usize = rest.parse().unwrap();
                                        f.loops.entry(n).or_default();
                                        sec = Sec::LoopBottom(n);
                                    }
                                    "@after" => {
                                        let n: usize = rest.parse().unwrap();
                                        f.loops.entry(n).or_default();
                                        sec = Sec::LoopAfter(n);
                                    }
                                    "@vars" => {
                                        // @vars N a b: the names bound by the pattern of loop N, in order
                                        let mut it = rest.split_whitespace();
                                        let n: usize = it.next().unwrap().parse().unwrap();
                                        f.loops.entry(n).or_default().vars = it.map(|s| s.to_string()).collect();
                                    }
                                    "@collect" => {
                                        // @collect N T: what the chain turned into loop N collects into
                                        let (n, ty) = rest.split_once(char::is_whitespace).unwrap();
                                        f.loops.entry(n.parse().unwrap()).or_default().collect = ty.to_string();
                                    }
                                    "@opaque" => f.opaque.push(rest.to_string()),
                                    "@maybe" => {
                                        let (a, b) = rest.split_once('~').expect("@maybe name ~ text");
                                        f.maybes.push((a.trim().to_string(), b.trim().to_string()));
                                    }
                                    "@local" => {
                                        let (a, b) = rest.split_once('~').expect("@local name ~ text");
                                        f.locals.push((a.trim().to_string(), b.trim().to_string()));
                                    }
                                    "@spec" => sec = Sec::Spec,
                                    _ => panic!("unknown directive {}", kw),
                                }
                            }
                        }
                    }
                }
                continue;
            }
            if let Sec::None = sec { continue }
            let m = self.modules.get_mut(&module).unwrap();
            let line = format!("{}\n", tag_line(l));
            match &sec {
                Sec::None => {}
                Sec::Append => m.append.push_str(&line),
                Sec::Inside(k) => m.inside.entry(k.clone()).or_default().push_str(&line),
                _ => {
                    let f = m.fns.get_mut(func.as_ref().unwrap()).unwrap();
                    match &sec {
                        Sec::Spec => f.spec.push_str(&line),
                        Sec::Enter => f.enter.push_str(&line),
                        Sec::Loop(n) => f.loops.get_mut(n).unwrap().text.push_str(&line),
                        Sec::LoopBefore(n) => f.loops.get_mut(n).unwrap().before.push_str(&line),
                        Sec::LoopBottom(n) => f.loops.get_mut(n).unwrap().bottom.push_str(&line),
                        Sec::LoopAfter(n) => f.loops.get_mut(n).unwrap().after.push_str(&line),
                        Sec::LoopTop(n) => f.loops.get_mut(n).unwrap().top.push_str(&line),
                        _ => {}
                    }
                }
            }
        }
    }
}
