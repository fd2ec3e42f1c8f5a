//! The password file: C18.

use crate::hash::hash;
use crate::rng::{near, Rng};
use ratelmq::broker::authentication::{FileIdentityManager, IdentityProvider};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::sync::OnceLock;

const PASSWORDS: [&str; 6] = ["pw", "pw1", "", "a:b", "pä$$", "p w"];

fn hashes() -> &'static Vec<String> {
    static H: OnceLock<Vec<String>> = OnceLock::new();
    H.get_or_init(|| PASSWORDS.iter().map(|p| hash(p)).collect())
}

const USERS: [&str; 9] = ["u", "u1", "U", "user", "", "ü", "u ", "u.1", "$u"];

pub fn gen_file(r: &mut Rng) -> Value {
    let n = if r.chance(3) { r.range(20, 150) } else { r.below(7) };
    let mut used: Vec<String> = vec![];
    let mut text = String::new();
    for i in 0..n {
        let user = r.pick(&USERS).to_string();
        let user = if r.chance(20) { near(r, &user) } else { user };
        let user = r.word().filter(|w| !w.contains(':') && !w.contains('\n')).unwrap_or(user);
        used.push(user.clone());
        let h = match r.below(9) {
            0 => r.pick(&["", "x", "$argon2id$", "$argon2id$v=19$m=8,t=1,p=1$c2FsdA", "a:b", "plain"]).to_string(),
            1 => {
                let mut h = r.pick(hashes()).clone();
                h.truncate(r.below(h.len()));
                h
            }
            _ => r.pick(hashes()).clone(),
        };
        match r.below(30) {
            0 => text.push_str(&user),                        // no colon
            1 => {}                                          // an empty line
            _ => text.push_str(&format!("{user}:{h}")),
        }
        if i + 1 < n || r.chance(70) {
            text.push_str(if r.chance(8) { "\r\n" } else { "\n" });
        }
    }
    let mut bytes = text.into_bytes();
    if r.chance(4) {
        bytes.push(0xff);
    }
    let mut probes: Vec<Value> = vec![];
    for _ in 0..8 {
        let u = if used.is_empty() || r.chance(20) { r.pick(&USERS).to_string() } else { r.pick(&used).clone() };
        let u = if r.chance(50) { near(r, &u) } else { u };
        let p = r.pick(&PASSWORDS).to_string();
        let p = if r.chance(60) { near(r, &p) } else { p };
        let p = r.word().unwrap_or(p);
        probes.push(json!([u, p]));
    }
    json!({"kind": "users", "probes": probes, "file": if r.chance(3) { Value::Null } else { json!(crate::hex(&bytes)) }})
}

pub fn run_file(v: &Value) -> Result<(), String> {
    let path = crate::scratch().join("users");
    std::fs::remove_file(&path).ok();
    let mut want: Option<HashMap<String, String>> = None;
    if let Some(h) = v["file"].as_str() {
        let bytes = crate::unhex(h);
        std::fs::write(&path, &bytes).unwrap();
        if let Ok(text) = String::from_utf8(bytes) {
            let mut m = HashMap::new();
            let ok = text.lines().all(|l| match l.find(':') {
                Some(i) => {
                    m.insert(l[..i].to_string(), l[i + 1..].to_string());
                    true
                }
                None => false,
            });
            if ok {
                want = Some(m);
            }
        }
    }
    let got = FileIdentityManager::new(path.to_str().unwrap());
    match (&want, &got) {
        (None, Ok(_)) => return Err("a file that is not readable, or not made of 'user:hash' lines, is loaded".into()),
        (Some(_), Err(e)) => return Err(format!("a good file is refused: {e:?}")),
        (None, Err(_)) => return Ok(()),
        _ => {}
    }
    let (want, got) = (want.unwrap(), got.unwrap());
    let mut asked: Vec<(String, String)> = vec![];
    for user in USERS.iter().chain(["nobody"].iter()) {
        for password in PASSWORDS {
            asked.push((user.to_string(), password.to_string()));
        }
    }
    for p in v["probes"].as_array().into_iter().flatten() {
        asked.push((p[0].as_str().unwrap().to_string(), p[1].as_str().unwrap().to_string()));
    }
    for user in want.keys().take(12) {
        for password in PASSWORDS {
            asked.push((user.clone(), password.to_string()));
        }
    }
    for (user, password) in asked {
        // a hash made here verifies exactly the password it was made for
        let expected = match (want.get(&user), PASSWORDS.iter().position(|p| *p == password)) {
            (Some(h), Some(i)) => *h == hashes()[i],
            _ => false,
        };
        let accepted = got.authenticate(&user, &password).is_ok();
        if accepted != expected {
            return Err(format!("user {user:?} with password {password:?} is {}accepted; entry {:?}", if accepted { "" } else { "not " }, want.get(&user)));
        }
    }
    Ok(())
}
