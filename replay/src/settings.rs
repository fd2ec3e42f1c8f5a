//! Settings: C25.

use crate::rng::Rng;
use ratelmq::settings::Settings;
use serde_json::{json, Value};

const LISTEN: &str = "RATELMQ_MQTT__LISTENERS_TCP";
const PASSWD: &str = "RATELMQ_AUTHENTICATION__PASSWORD_FILE";

pub fn gen_settings(r: &mut Rng) -> Value {
    let names = ["/etc/ratelmq/passwd", "/x", "", "a b", "é", "1", "true", "x__y", "/p=1", "0.5"];
    let lists: [&[&str]; 5] = [&["0.0.0.0:1883"], &["127.0.0.1:1", "[::1]:2"], &[], &["a"], &["x:1", "y:2", "z:3"]];
    let opt = |r: &mut Rng, v: Value, p: usize| if r.chance(p) { v } else { Value::Null };
    let a = json!(r.word().unwrap_or(r.pick(&names).to_string()));
    let b = json!(r.word().unwrap_or(r.pick(&names).to_string()));
    let c = json!(*r.pick(&lists));
    let d = json!(r.pick(&lists[..4].iter().filter(|l| !l.is_empty()).collect::<Vec<_>>()));
    json!({
        "kind": "settings",
        "file": r.chance(93),
        "file_password": opt(r, a, 75), "env_password": opt(r, b, 50),
        "file_listeners": opt(r, c, 75), "env_listeners": opt(r, d, 40),
        "noise": r.chance(40), "lower": r.chance(0), "broken": r.chance(4), "extension": *r.pick(&["toml", "conf", ""]),
    })
}

pub fn run_settings(v: &Value) -> Result<(), String> {
    for k in [LISTEN, PASSWD, "RATELMQ_MQTT_LISTENERS_TCP", "MQTT__LISTENERS_TCP", "AUTHENTICATION__PASSWORD_FILE", "XRATELMQ_AUTHENTICATION__PASSWORD_FILE", "RATELMQ_PASSWORD_FILE", "RATELMQ_AUTHENTICATION_PASSWORD_FILE"] {
        std::env::remove_var(k);
    }
    let ext = v["extension"].as_str().unwrap();
    let path = crate::scratch().join(if ext.is_empty() { "settings".to_string() } else { format!("settings.{ext}") });
    for e in ["", ".toml", ".conf"] {
        std::fs::remove_file(crate::scratch().join(format!("settings{e}"))).ok();
    }
    let list = |x: &Value| x.as_array().map(|a| a.iter().map(|s| s.as_str().unwrap().to_string()).collect::<Vec<_>>());
    let text = |x: &Value| x.as_str().map(|s| s.to_string());
    let present = v["file"].as_bool().unwrap();
    let broken = v["broken"].as_bool().unwrap();
    if present {
        let mut t = String::new();
        if let Some(l) = list(&v["file_listeners"]) {
            t.push_str(&format!("[mqtt]\nlisteners_tcp = {}\n", serde_json::to_string(&l).unwrap()));
        }
        if let Some(p) = text(&v["file_password"]) {
            t.push_str(&format!("[authentication]\npassword_file = {}\n", serde_json::to_string(&p).unwrap()));
        }
        if broken {
            t.push_str("= [\n");
        }
        std::fs::write(&path, t).unwrap();
    }
    if let Some(p) = text(&v["env_password"]) {
        std::env::set_var(PASSWD, p);
    }
    if let Some(l) = list(&v["env_listeners"]) {
        std::env::set_var(LISTEN, l.join(","));
    }
    if v["noise"].as_bool().unwrap() {
        // not the names of settings
        std::env::set_var("AUTHENTICATION__PASSWORD_FILE", "/noise");
        std::env::set_var("MQTT__LISTENERS_TCP", "noise");
        std::env::set_var("XRATELMQ_AUTHENTICATION__PASSWORD_FILE", "/noise");
        std::env::set_var("RATELMQ_PASSWORD_FILE", "/noise");
        std::env::set_var("RATELMQ_AUTHENTICATION_PASSWORD_FILE", "/noise");
    }
    let password = text(&v["env_password"]).or(if present { text(&v["file_password"]) } else { None });
    let listeners = list(&v["env_listeners"]).or(if present { list(&v["file_listeners"]) } else { None });
    let want = if !present || broken { None } else { password.zip(listeners) };
    let got = Settings::new(path.to_str().unwrap()).ok().map(|s| (s.authentication.password_file, s.mqtt.listeners_tcp));
    if got != want {
        return Err(format!("effective (password file, listeners) {got:?}, expected {want:?}"));
    }
    Ok(())
}
