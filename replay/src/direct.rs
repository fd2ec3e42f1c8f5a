//! The messaging service, called directly: C08 to C11, C13.
#![allow(unused_imports, dead_code)]
use crate::rng::Rng;
use ratelmq::broker::client_packet_handler::ClientPacketHandler;
use ratelmq::broker::messaging::{MessagingOperation, MessagingService, MessagingTx};
use ratelmq::broker::session::Session;
use ratelmq::mqtt::events::{ClientEvent, ServerEvent};
use ratelmq::mqtt::message::Message;
use ratelmq::mqtt::packets::suback::SubAckReturnCode;
use ratelmq::mqtt::packets::{ControlPacket, QoS};
use ratelmq::mqtt::subscription::Subscription;
use ratelmq::settings::{AuthenticationSettings, MqttSettings, Settings};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::net::IpAddr;
use std::time::Duration;
use tokio::sync::{broadcast, mpsc, oneshot};

use crate::model::*;

pub fn gen_direct(prop: &str, r: &mut Rng) -> Value {
    let mut ops = vec![];
    let pool = pool(r);
    if matches!(prop, "C08" | "C09") || r.chance(50) {
        // every client has a session, so that every subscription shows
        for (i, c) in pool.clients.iter().enumerate() {
            ops.push(json!(["insert", c, i, r.below(32)]));
        }
    }
    let n = if r.chance(10) { r.range(10, 60) } else { r.range(2, 14) };
    let mut used: Vec<String> = vec![];
    for _ in 0..n {
        let k = match prop {
            "C08" => *r.pick(&[0, 0, 0, 5, 5]),
            "C09" => *r.pick(&[0, 0, 0, 1, 1, 5]),
            "C10" => *r.pick(&[0, 0, 0, 1, 2, 3, 4, 5, 6]),
            "C11" => *r.pick(&[0, 0, 2, 3, 4, 4, 4, 6, 5]),
            _ => *r.pick(&[0, 0, 0, 1, 2, 3, 4, 5, 5, 5, 6]),
        };
        let c = pool.client(r);
        ops.push(match k {
            0 => {
                let f = if !used.is_empty() && r.chance(35) { r.pick(&used).clone() } else { pool.filter(r) };
                used.push(f.clone());
                json!(["sub", c, f, r.below(3)])
            }
            1 => {
                let n = if r.chance(10) { 0 } else { r.range(1, 3) };
                let fs: Vec<String> = (0..n).map(|_| if !used.is_empty() && r.chance(75) { r.pick(&used).clone() } else { pool.filter(r) }).collect();
                json!(["unsub", c, fs])
            }
            2 => json!(["lost", c]),
            3 => json!(["disc", c]),
            4 => json!(["insert", c, r.below(CHANS), r.below(32)]),
            5 => json!(["query", pool.topic(r)]),
            _ => json!(["check"]),
        });
        if r.chance(4) {
            ops.push(json!([*r.pick(&["closed", "full"]), r.below(CHANS)]));
        }
    }
    if prop == "C10" && r.chance(1) {
        let f = deep_filter(r);
        ops.push(json!(["sub", pool.clients[0], f, 0]));
        ops.push(json!([*r.pick(&["lost", "disc"]), pool.clients[0]]));
    }
    if r.chance(2) {
        // a crowd on overlapping filters
        let t = pool.topic(r);
        let n = r.range(20, 150);
        for i in 0..n {
            let c = format!("k{i}");
            if r.chance(90) {
                ops.push(json!(["insert", c, r.below(CHANS), r.below(32)]));
            }
            let f: Vec<&str> = t.split('/').map(|l| if r.chance(20) { "+" } else { l }).collect();
            ops.push(json!(["sub", c, f.join("/"), 0]));
        }
        ops.push(json!(["query", t]));
        for i in 0..n {
            if r.chance(30) {
                ops.push(json!([*r.pick(&["lost", "disc"]), format!("k{i}")]));
            }
        }
        ops.push(json!(["query", t]));
    }
    ops.push(json!(["check"]));
    json!({"kind": "direct", "ops": ops, "clients": pool.clients})
}

pub fn run_direct(v: &Value) -> Result<(), String> {
    let mut chans = Chans::narrow(CHANS, 2);
    let mut s = MessagingService::new();
    let mut m = Model::default();
    let mut filters = BTreeSet::new();
    let route = |s: &MessagingService, chans: &Chans, topic: &str| -> Result<Vec<usize>, String> {
        let mut got = vec![];
        for x in s.senders_to_publish(&topic.to_string()) {
            got.push(chans.index(&x).ok_or("a queue of nobody is among the recipients")?);
        }
        got.sort();
        Ok(got)
    };
    for (n, op) in v["ops"].as_array().unwrap().iter().enumerate() {
        let arg = |i: usize| op[i].as_str().unwrap().to_string();
        let at = |e: String| format!("operation {n} {op}: {e}").chars().take(3000).collect::<String>();
        match op[0].as_str().unwrap() {
            "insert" => {
                let i = op[2].as_u64().unwrap() as usize;
                let got = s.session_insert(session(&arg(1), &chans, i, &op[3])).map(|x| chans.index(x.sender()));
                let want = m.insert(&arg(1), i).map(Some);
                if got != want {
                    return Err(at(format!("returned the session on queue {got:?}, expected {want:?}")));
                }
            }
            "lost" | "disc" => {
                let c = arg(1);
                let got = if op[0] == "lost" { s.connection_lost(&c) } else { s.disconnect(&c) }.map(|x| chans.index(x.sender()));
                let want = m.end(&c).map(Some);
                if got != want {
                    return Err(at(format!("returned the session on queue {got:?}, expected {want:?}")));
                }
            }
            "sub" => {
                let qos = [QoS::AtMostOnce, QoS::AtLeastOnce, QoS::ExactlyOnce][op[3].as_u64().unwrap() as usize];
                let code = s.subscribe(&arg(1), &Subscription::new(arg(2), qos));
                if code != SubAckReturnCode::SuccessQoS0 {
                    return Err(at(format!("returned {code:?}")));
                }
                m.subs.insert((arg(1), arg(2)));
                filters.insert(arg(2));
            }
            "unsub" => {
                let fs: Vec<String> = op[2].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
                s.unsubscribe(&arg(1), &fs);
                for f in fs {
                    filters.insert(f.clone());
                    m.subs.remove(&(arg(1), f));
                }
            }
            // the queue's connection has gone, or does not keep up: makes no difference
            "closed" => chans.rx[op[1].as_u64().unwrap() as usize] = None,
            "full" => while chans.tx[op[1].as_u64().unwrap() as usize].try_send(ServerEvent::Disconnect).is_ok() {},
            "query" => {
                let got = route(&s, &chans, &arg(1)).map_err(at)?;
                let want = m.route(&arg(1));
                if got != want {
                    return Err(at(format!("recipients {got:?}, expected {want:?}; sessions {:?}, subscriptions {:?}", m.sessions, m.subs)));
                }
            }
            _ => {}
        }
        // what there is must be exactly what the model has
        let full = op[0] == "check" || (n % 5 == 4 && filters.len() < 12);
        if s.session_count() != m.sessions.len() {
            return Err(at(format!("{} sessions counted, expected {}", s.session_count(), m.sessions.len())));
        }
        for c in clients_of(v) {
            let has = m.sessions.contains_key(&c);
            if s.session_exists(&c) != has {
                return Err(at(format!("existence of a session of {c:?} is {}, expected {has}", !has)));
            }
            let got = s.session_get(&c).map(|x| (chans.index(x.sender()), x.client_id().clone()));
            let want = m.sessions.get(&c).map(|i| (Some(*i), c.clone()));
            if got != want {
                return Err(at(format!("the session of {c:?} is {got:?}, expected {want:?}")));
            }
            if full {
                for i in 0..CHANS {
                    let want = m.sessions.get(&c) == Some(&i);
                    if s.session_owned(&c, &chans.tx[i]) != want {
                        return Err(at(format!("queue {i} owning the session of {c:?} is {}, expected {want}", !want)));
                    }
                }
            }
        }
        if full {
            for t in topics_of(&m, &filters) {
                let got = route(&s, &chans, &t).map_err(at)?;
                let want = m.route(&t);
                if got != want {
                    return Err(at(format!("afterwards topic {t:?} goes to queues {got:?}, expected {want:?}; sessions {:?}, subscriptions {:?}", m.sessions, m.subs)));
                }
            }
        }
    }
    Ok(())
}
