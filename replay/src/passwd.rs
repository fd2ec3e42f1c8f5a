//! The password tool, as its real binary: C23, C24.

use crate::rng::Rng;
use argon2::password_hash::{PasswordHash, PasswordVerifier};
use argon2::Argon2;
use ratelmq::broker::authentication::{FileIdentityManager, IdentityProvider};
use serde_json::{json, Value};
use std::process::Command;

const USERS: [&str; 24] = [
    "u", "u1", "user", "us", "ser", "u.r", "u+", "(u)", "[u]", "u|v", "^u", "u$", "$1", "${0}", "\\d", "ü", "u ser", "*", "?u", "{2}", "a-b", "U", "#u", "u\\",
];
const PASSWORDS: [&str; 8] = ["pw", "p:w", "$0", "${1}", "pä ß", "x y", "\\", "$$"];

/// A file of 'user:hash' lines, at most one per user.
pub fn gen(r: &mut Rng) -> Value {
    let mut users: Vec<&str> = vec![];
    for _ in 0..r.below(5) {
        let u = *r.pick(&USERS);
        if !users.contains(&u) {
            users.push(u);
        }
    }
    let loadable = r.chance(60);
    let lines: Vec<String> = users
        .iter()
        .map(|u| {
            let h = if loadable || r.chance(60) {
                crate::hash::hash(*r.pick(&PASSWORDS))
            } else {
                r.pick(&["", "x", "a:b", "$argon2id$x", "u:u1:", ":"]).to_string()
            };
            format!("{u}:{h}")
        })
        .collect();
    let mut text = lines.join("\n");
    if !text.is_empty() && r.chance(70) {
        text.push('\n');
    }
    let pick = |r: &mut Rng| if !users.is_empty() && r.chance(55) { *r.pick(&users) } else { *r.pick(&USERS) };
    let n = r.range(1, 2);
    let plain = |s: String| if s.is_empty() || s.contains(':') { "plain".to_string() } else { s };
    let near = |r: &mut Rng, s: &str| plain(crate::rng::near(r, s));
    let acts: Vec<Value> = (0..n)
        .map(|_| {
            let u = pick(r);
            let u = if r.chance(15) { near(r, u) } else { r.word().map(plain).unwrap_or(u.to_string()) };
            if r.chance(35) {
                json!(["delete", u])
            } else {
                let p = r.pick(&PASSWORDS).to_string();
                let p = if r.chance(50) { near(r, &p) } else { r.word().map(plain).unwrap_or(p) };
                let q = near(r, &p);
                json!(["set", u, p, q])
            }
        })
        .collect();
    json!({"kind": "passwd", "file": text, "actions": acts})
}

fn split(text: &str) -> Vec<String> {
    let mut v: Vec<String> = text.split('\n').map(|s| s.to_string()).collect();
    if v.last().map(|s| s.is_empty()).unwrap_or(false) {
        v.pop();
    }
    v
}

fn user_of(line: &str) -> &str {
    line.split_once(':').map(|x| x.0).unwrap_or("")
}

fn verifies(hash: &str, password: &str) -> bool {
    PasswordHash::new(hash).map(|h| Argon2::default().verify_password(password.as_bytes(), &h).is_ok()).unwrap_or(false)
}

pub fn run(v: &Value) -> Result<(), String> {
    let tool = std::env::var("PASSWD_TOOL").unwrap_or_default();
    if tool.is_empty() {
        crate::harness_failure("PASSWD_TOOL is not set");
    }
    let path = crate::scratch().join("passwd");
    let mut text = v["file"].as_str().unwrap().to_string();
    std::fs::write(&path, &text).unwrap();
    for (n, a) in v["actions"].as_array().unwrap().iter().enumerate() {
        let user = a[1].as_str().unwrap();
        let mut c = Command::new(&tool);
        c.arg("-f").arg(&path).arg(format!("--user={user}"));
        let password = a[2].as_str();
        match password {
            Some(p) => c.arg(format!("--password={p}")),
            None => c.arg("--delete"),
        };
        let out = c.output().map_err(|e| e.to_string()).unwrap_or_else(|e| crate::harness_failure(&e));
        let at = |e: String| format!("action {n} {a} on file {text:?}: {e}");
        if !out.status.success() {
            return Err(at(format!("the tool fails: {}", String::from_utf8_lossy(&out.stderr).chars().take(500).collect::<String>())));
        }
        let after = std::fs::read_to_string(&path).map_err(|e| at(format!("the file is no text afterwards: {e}")))?;
        let (old, new) = (split(&text), split(&after));
        let others = |l: &[String]| l.iter().filter(|l| user_of(l) != user).cloned().collect::<Vec<_>>();
        if others(&old) != others(&new) {
            return Err(at(format!("other lines changed: {after:?}")));
        }
        let mine: Vec<&String> = new.iter().filter(|l| user_of(l) == user).collect();
        match password {
            Some(p) => {
                if mine.len() != 1 {
                    return Err(at(format!("{} entries of the user afterwards: {after:?}", mine.len())));
                }
                let h = mine[0].split_once(':').unwrap().1;
                if !verifies(h, p) {
                    return Err(at(format!("the entry is no hash of the new password: {after:?}")));
                }
                for q in [a[3].as_str().unwrap_or("another")].iter().filter(|q| **q != p) {
                    if verifies(h, q) {
                        return Err(at(format!("the new entry accepts {q:?}")));
                    }
                }
            }
            None => {
                if !mine.is_empty() {
                    return Err(at(format!("the user is still there: {after:?}")));
                }
                if !old.iter().any(|l| user_of(l) == user) && after != text {
                    return Err(at(format!("deleting an unknown user changes the file: {after:?}")));
                }
            }
        }
        // C24
        let scratch = crate::scratch().join("passwd-before");
        std::fs::write(&scratch, &text).unwrap();
        let before = FileIdentityManager::new(scratch.to_str().unwrap()).map_err(|e| at(format!("the broker refuses the original file: {e:?}")))?;
        let now = FileIdentityManager::new(path.to_str().unwrap()).map_err(|e| at(format!("the broker refuses the file written: {e:?}; {after:?}")))?;
        if let Some(p) = password {
            if now.authenticate(user, p).is_err() {
                return Err(at(format!("the broker does not accept the password that was set: {after:?}")));
            }
            if now.authenticate(user, "another").is_ok() {
                return Err(at("the broker accepts another password".into()));
            }
        } else {
            for p in PASSWORDS {
                if now.authenticate(user, p).is_ok() {
                    return Err(at("the broker accepts the deleted user".into()));
                }
            }
        }
        for line in &old {
            let u = user_of(line);
            if u != user {
                // cheap hashes only: those of the original file
                for p in PASSWORDS.iter().take(4) {
                    if !line.contains("m=8,") && verifies_is_slow(line) {
                        continue;
                    }
                    let (x, y) = (before.authenticate(u, p).is_ok(), now.authenticate(u, p).is_ok());
                    if x != y {
                        return Err(at(format!("the decision for {u:?} with {p:?} changes from {x} to {y}")));
                    }
                }
            }
        }
        text = after;
    }
    Ok(())
}

fn verifies_is_slow(line: &str) -> bool {
    line.contains("m=4096")
}
