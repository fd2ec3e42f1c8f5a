#![allow(dead_code, unused_mut, unused_variables, unused_imports)]
//! Bounded concrete searches for a violation of a property, on the real crate, and the replay of
//! one. `search PROPERTY SECONDS SEED OUT.json` / `replay FILE`.
//!
//! Exit: 0 nothing found, 1 violation (OUT.json holds the case), 3 the harness itself failed.

#[cfg(feature = "app")]
mod app;
#[cfg(feature = "direct")]
mod direct;
#[cfg(feature = "handler")]
mod handler;
mod hash;
#[cfg(feature = "keepalive")]
mod keepalive;
#[cfg(feature = "listener")]
mod listener;
#[cfg(any(feature = "direct", feature = "queue", feature = "handler"))]
mod model;
#[cfg(feature = "passwd")]
mod passwd;
#[cfg(feature = "queue")]
mod queue;
mod rng;
#[cfg(feature = "settings")]
mod settings;
#[cfg(feature = "transport")]
mod transport;
#[cfg(feature = "users")]
mod users;
#[cfg(any(feature = "transport", feature = "listener", feature = "queue", feature = "handler"))]
mod wire;

use rng::Rng;
use serde_json::{json, Value};
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::path::PathBuf;
use std::sync::{Mutex, OnceLock};
use std::time::{Duration, Instant};

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push_str(&format!("{x:02x}"));
    }
    s
}

pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

pub fn harness_failure(e: &str) -> ! {
    eprintln!("harness: {e}");
    std::fs::remove_dir_all(scratch()).ok();
    std::process::exit(3)
}

pub fn scratch() -> &'static PathBuf {
    static DIR: OnceLock<PathBuf> = OnceLock::new();
    DIR.get_or_init(|| {
        let d = std::env::temp_dir().join(format!("ratelmq-replay-{}", std::process::id()));
        std::fs::create_dir_all(&d).unwrap();
        d
    })
}

static PANIC: Mutex<Option<String>> = Mutex::new(None);

pub fn last_panic() -> String {
    PANIC.lock().unwrap().clone().unwrap_or_default()
}

fn generate(prop: &str, r: &mut Rng) -> Value {
    let mut v = match prop {
        #[cfg(feature = "transport")]
        "C01" | "C02" | "C03" => transport::gen_read(prop, r),
        #[cfg(feature = "transport")]
        "C04" => transport::gen_stream(r),
        #[cfg(feature = "transport")]
        "C05" | "C06" | "C07" => transport::gen_write(prop, r),
        #[cfg(feature = "direct")]
        "C08" | "C09" | "C10" | "C11" | "C13" if prop == "C08" || !cfg!(feature = "queue") || r.chance(85) => direct::gen_direct(prop, r),
        #[cfg(feature = "queue")]
        "C08" | "C09" | "C10" | "C11" | "C12" | "C13" => queue::gen_queue(r),
        #[cfg(feature = "handler")]
        "C14" | "C15" | "C16" | "C17" | "C21" => handler::gen_handler(prop, r),
        #[cfg(feature = "users")]
        "C18" => users::gen_file(r),
        #[cfg(feature = "listener")]
        "C19" => listener::gen_read(r),
        #[cfg(feature = "listener")]
        "C20" => listener::gen_write(r),
        #[cfg(feature = "keepalive")]
        "C22" => keepalive::gen_keep_alive(r),
        #[cfg(feature = "passwd")]
        "C23" | "C24" => passwd::gen(r),
        #[cfg(feature = "settings")]
        "C25" => settings::gen_settings(r),
        #[cfg(feature = "app")]
        "C28" => app::gen(r),
        _ => harness_failure("unknown property, or built without the feature it needs"),
    };
    if prop == "C01" {
        v["drain"] = json!(r.chance(50));
    }
    v["property"] = json!(prop);
    v
}

/// One case on the real code, on a stack as large as the ones it runs on in the broker.
fn run_case(v: &Value) -> Result<(), String> {
    *PANIC.lock().unwrap() = None;
    let case = v.clone();
    let t = std::thread::Builder::new()
        .stack_size(2 << 20)
        .spawn(move || {
            let v = &case;
            let kind = v["kind"].as_str().unwrap().to_string();
            match kind.as_str() {
                #[cfg(feature = "direct")]
                "direct" => return direct::run_direct(v),
                #[cfg(feature = "users")]
                "users" => return users::run_file(v),
                #[cfg(feature = "keepalive")]
                "keepalive" => return keepalive::run_keep_alive(v),
                #[cfg(feature = "settings")]
                "settings" => return settings::run_settings(v),
                #[cfg(feature = "passwd")]
                "passwd" => return passwd::run(v),
                #[cfg(feature = "app")]
                "app" => return app::run(v),
                _ => {}
            }
            let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
            let r = rt.block_on(async {
                match kind.as_str() {
                    #[cfg(feature = "transport")]
                    "read" => transport::run_read(v).await,
                    #[cfg(feature = "transport")]
                    "stream" => transport::run_stream_or_read(v).await,
                    #[cfg(feature = "transport")]
                    "write" => transport::run_write(v).await,
                    #[cfg(feature = "transport")]
                    "round" => transport::run_round(v).await,
                    #[cfg(feature = "queue")]
                    "queue" => queue::run_queue(v).await,
                    #[cfg(feature = "handler")]
                    "handler" => handler::run_handler(v).await,
                    #[cfg(feature = "listener")]
                    "input" => listener::run_read(v).await,
                    #[cfg(feature = "listener")]
                    "many" => listener::run_many(v).await,
                    #[cfg(feature = "listener")]
                    "output" => listener::run_write(v).await,
                    _ => harness_failure("unknown kind of case"),
                }
            });
            r
        })
        .unwrap();
    let r = match t.join() {
        Ok(r) => r,
        Err(_) => Err(format!("panic: {}", last_panic())),
    };
    let p = PANIC.lock().unwrap().clone();
    match (r, p) {
        (Ok(()), Some(p)) => Err(format!("panic: {p}")),
        (r, _) => r,
    }
}

static CURRENT: Mutex<Option<(Instant, Value)>> = Mutex::new(None);

fn main() {
    std::panic::set_hook(Box::new(|i| {
        let s = i.to_string();
        let mut p = PANIC.lock().unwrap();
        if p.is_none() {
            *p = Some(s.chars().take(600).collect());
        }
    }));
    let args: Vec<String> = std::env::args().collect();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("search") => search(&args[2], args[3].parse().unwrap(), args[4].parse().unwrap(), &args[5]),
        Some("replay") => replay(&args[2]),
        _ => harness_failure("usage: replay search PROPERTY SECONDS SEED OUT | replay replay FILE"),
    };
    std::fs::remove_dir_all(scratch()).ok();
    std::process::exit(code)
}

fn replay(file: &str) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(file).unwrap()).unwrap();
    let case = if v["case"].is_object() { v["case"].clone() } else { v };
    std::thread::spawn(|| {
        std::thread::sleep(Duration::from_secs(60));
        println!("VIOLATED: the case does not end");
        std::fs::remove_dir_all(scratch()).ok();
        std::process::exit(1);
    });
    match run_case(&case) {
        Ok(()) => {
            println!("holds");
            0
        }
        Err(e) => {
            println!("VIOLATED: {e}");
            1
        }
    }
}

fn search(prop: &str, seconds: f64, seed: u64, out: &str) -> i32 {
    let journal = format!("{out}.case");
    let out_path = out.to_string();
    let started = Instant::now();
    // a case that does not end is a violation as well
    {
        let out = out_path.clone();
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            let c = CURRENT.lock().unwrap().clone();
            if let Some((at, v)) = c {
                if at.elapsed() > Duration::from_secs(40) {
                    std::fs::write(&out, json!({"violation": "the case does not end", "case": v}).to_string()).ok();
                    std::fs::remove_dir_all(scratch()).ok();
                    std::process::exit(1);
                }
            }
        });
    }
    let mut r = Rng::new(seed ^ prop.bytes().fold(0u64, |a, b| a * 131 + b as u64));
    let mut seen = HashSet::new();
    let mut evaluations = 0u64;
    let mut samples = vec![];
    let mut list: Vec<Value> = vec![];
    #[cfg(feature = "keepalive")]
    if prop == "C22" {
        keepalive::all_keep_alive(&mut list);
    }
    let fixed = list.len();
    let mut fixed_cases = list.into_iter();
    loop {
        let v = match fixed_cases.next() {
            Some(mut v) => {
                v["property"] = json!(prop);
                v
            }
            None => {
                if started.elapsed().as_secs_f64() > seconds {
                    break;
                }
                generate(prop, &mut r)
            }
        };
        let text = v.to_string();
        let mut h = std::collections::hash_map::DefaultHasher::new();
        text.hash(&mut h);
        if seen.insert(h.finish()) && samples.len() < 4 && text.len() < 1500 && evaluations % 7 == 3 {
            samples.push(v.clone());
        }
        if evaluations < fixed as u64 {
            // tens of thousands of tiny cases: no journal, no thread each
            #[cfg(feature = "keepalive")]
            let e = keepalive::run_keep_alive(&v);
            #[cfg(not(feature = "keepalive"))]
            let e: Result<(), String> = Ok(());
            evaluations += 1;
            if let Err(e) = e {
                std::fs::write(out, json!({"violation": e, "case": v}).to_string()).unwrap();
                return 1;
            }
            continue;
        }
        std::fs::write(&journal, &text).ok();
        *CURRENT.lock().unwrap() = Some((Instant::now(), v.clone()));
        let result = run_case(&v);
        *CURRENT.lock().unwrap() = None;
        evaluations += 1;
        if let Err(e) = result {
            let (v, e) = shrink(v, e);
            std::fs::write(out, json!({"violation": e, "case": v, "evaluations": evaluations}).to_string()).unwrap();
            return 1;
        }
    }
    std::fs::remove_file(&journal).ok();
    let report = json!({
        "evaluations": evaluations, "distinct": seen.len(), "enumerated": fixed, "samples": samples, "seconds": started.elapsed().as_secs_f64(),
    });
    std::fs::write(out, report.to_string()).unwrap();
    0
}

/// Leaves out steps while the case still fails.
fn shrink(mut v: Value, mut e: String) -> (Value, String) {
    let started = Instant::now();
    for key in ["ops", "actions", "packets", "pieces", "reads"] {
        let mut i = 0;
        while let Some(a) = v[key].as_array() {
            if i >= a.len() || started.elapsed().as_secs() > 20 {
                break;
            }
            let mut w = v.clone();
            let i2 = a.len() - 1 - i;
            w[key].as_array_mut().unwrap().remove(i2);
            if w["kind"] == "output" && key == "packets" {
                break;
            }
            match run_case(&w) {
                Err(x) => {
                    v = w;
                    e = x;
                }
                Ok(()) => i += 1,
            }
        }
    }
    (v, e)
}
