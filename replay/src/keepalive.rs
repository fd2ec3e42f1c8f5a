//! Keep-alive: C22.

use crate::rng::Rng;
use ratelmq::broker::session::Session;
use serde_json::{json, Value};

pub fn run_keep_alive(v: &Value) -> Result<(), String> {
    let k = v["keep_alive"].as_u64().unwrap() as u16;
    let ms = v["elapsed_ms"].as_i64().unwrap();
    let at = v["last_ms"].as_i64().unwrap();
    let time = |ms: i64| chrono::DateTime::<chrono::Utc>::from_timestamp_millis(ms).unwrap();
    let (tx, _rx) = tokio::sync::mpsc::channel(1);
    let mut s = Session::new("c".into(), std::net::IpAddr::from([127, 0, 0, 1]), false, tx, k, time(at - 77));
    if v["touch"].as_bool().unwrap() {
        s.set_last_activity(time(at));
    } else {
        s = Session::new("c".into(), std::net::IpAddr::from([127, 0, 0, 1]), false, s.sender().clone(), k, time(at));
    }
    let expected = k != 0 && ms >= (k as i64 * 3 / 2) * 1000;
    let got = s.is_keep_alive_expired(&time(at + ms));
    if got != expected {
        return Err(format!("keep-alive {k}s, {ms} ms after the last activity: expired is {got}, expected {expected}"));
    }
    Ok(())
}

pub fn gen_keep_alive(r: &mut Rng) -> Value {
    let k = r.u16();
    let exact = (k as i64 * 3 / 2) * 1000;
    let ms = match r.below(4) {
        0 => exact + r.below(5) as i64 - 2,
        1 => exact + (r.below(5) as i64 - 2) * 500,
        2 => r.below(200_000_000) as i64,
        _ => exact,
    };
    json!({"kind": "keepalive", "keep_alive": k, "elapsed_ms": ms, "last_ms": 1_600_000_000_000i64 + (r.next() % 1_000_000_000_000) as i64, "touch": r.chance(50)})
}

/// Every keep-alive, at the instants around its limit.
pub fn all_keep_alive(out: &mut Vec<Value>) {
    for k in 0..=65535i64 {
        let exact = (k * 3 / 2) * 1000;
        for d in [-1000, -1, 0, 1] {
            out.push(json!({"kind": "keepalive", "keep_alive": k, "elapsed_ms": exact + d, "last_ms": 1_700_000_000_000i64, "touch": d == 0}));
        }
    }
}
