//! The packet handler: C14 to C17, C21.
#![allow(unused_imports, dead_code)]
use crate::rng::Rng;
use ratelmq::broker::client_packet_handler::ClientPacketHandler;
use ratelmq::broker::messaging::{MessagingOperation, MessagingService, MessagingTx};
use ratelmq::broker::session::Session;
use ratelmq::mqtt::events::{ClientEvent, ServerEvent};
use ratelmq::mqtt::message::Message;
use ratelmq::mqtt::packets::suback::SubAckReturnCode;
use ratelmq::mqtt::packets::{ControlPacket, QoS};
use ratelmq::mqtt::subscription::Subscription;
use ratelmq::settings::{AuthenticationSettings, MqttSettings, Settings};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::net::IpAddr;
use std::time::Duration;
use tokio::sync::{broadcast, mpsc, oneshot};

use crate::model::*;
use crate::wire::{Msg, P};

const CONNS: usize = 6;

/// Hashes of "pw1" and "p:2" (Argon2, cheap parameters), made once per process.
fn password_file() -> &'static str {
    use std::sync::OnceLock;
    static FILE: OnceLock<String> = OnceLock::new();
    FILE.get_or_init(|| {
        let path = crate::scratch().join("handler-passwd");
        std::fs::write(&path, format!("u1:{}\nu2:{}\nbad:nonsense\n", crate::hash::hash("pw1"), crate::hash::hash("p:2"))).unwrap();
        path.to_str().unwrap().to_string()
    })
}

fn good(user: &Value, password: &Value) -> bool {
    match user.as_str() {
        None => true,
        Some(u) => matches!((u, password.as_str().unwrap_or("")), ("u1", "pw1") | ("u2", "p:2")),
    }
}

/// What is published: mostly short, at times nothing, at times long.
fn payload(r: &mut Rng) -> String {
    let n = match r.below(20) {
        0 | 1 => 0,
        2 => r.number(200_000).unwrap_or(5000),
        3 => *r.pick(&[127, 128, 255, 256, 4096, 16_384, 65_535, 65_536, 70_000]),
        _ => r.below(12),
    };
    crate::hex(&r.bytes(n))
}

/// Many clients, many filters at a time, many messages.
fn gen_crowd(r: &mut Rng) -> Value {
    let pool = pool(r);
    let n = if r.chance(20) { r.range(60, 140) } else { r.range(7, 40) };
    let conns: Vec<String> = (0..n).map(|i| format!("k{i}")).collect();
    let mut ops: Vec<Value> = (0..n).map(|i| json!(["connect", i, Value::Null, Value::Null, r.chance(50), r.u16()])).collect();
    let common: Vec<String> = (0..3).map(|_| pool.filter(r)).collect();
    for i in 0..n {
        let mut fs: Vec<String> = if r.chance(80) { vec![r.pick(&common).clone()] } else { vec![] };
        if r.chance(10) {
            let k = r.number(300).unwrap_or(0).max(r.range(1, 90));
            fs.extend((0..k).map(|j| format!("{}/{j}", pool.filter(r).replace('#', "+"))));
        }
        if !fs.is_empty() {
            ops.push(json!(["sub", i, r.u16(), fs]));
        }
    }
    let m = if r.chance(20) { r.range(100, 300) } else { r.range(5, 30) };
    for _ in 0..m {
        let i = r.below(n);
        ops.push(match r.below(14) {
            0 => json!(["ping", i]),
            1 => json!(["unsub", i, r.u16(), [r.pick(&common)]]),
            2 => json!([*r.pick(&["lost", "disconnect"]), i]),
            3 => json!(["sub", i, r.u16(), [r.pick(&common)]]),
            _ => json!(["publish", i, if r.chance(70) { r.pick(&common).replace(['+', '#'], "a") } else { pool.topic(r) }, r.below(3), r.chance(50), r.chance(50), r.u16(), payload(r)]),
        });
    }
    json!({"kind": "handler", "conns": conns, "ops": ops, "clients": pool.clients, "capacity": *r.pick(&[1, 3, 1000])})
}

pub fn gen_handler(prop: &str, r: &mut Rng) -> Value {
    if r.chance(2) {
        return gen_crowd(r);
    }
    // connection i belongs to client conns[i]
    let pool = pool(r);
    let conns: Vec<String> = (0..CONNS).map(|i| if i < 3 && r.chance(60) { pool.clients[i].clone() } else { pool.clients[r.below(3)].clone() }).collect();
    let mut ops = vec![];
    let mut fresh: Vec<usize> = (0..CONNS).collect();
    let n = if r.chance(10) { r.range(10, 50) } else { r.range(3, 18) };
    let bad_login = if prop == "C16" { 50 } else { 15 };
    let drops = if prop == "C21" || prop == "C14" { 12 } else { 4 };
    for _ in 0..n {
        if !fresh.is_empty() && (ops.len() < 2 || r.chance(if prop == "C16" || prop == "C17" { 40 } else { 20 })) {
            let i = fresh.remove(0);
            let (user, password) = match r.below(100) {
                x if x < bad_login => (
                    json!(*r.pick(&["u1", "u2", "bad", "nobody", "", "u1 ", "U1"])),
                    match r.below(4) {
                        0 => Value::Null,
                        1 => json!(""),
                        2 => json!("pw1"),
                        _ => json!(*r.pick(&["wrong", "p:2", "pw", "pw11", "nonsense"])),
                    },
                ),
                x if x < bad_login + 15 => (json!("u1"), json!("pw1")),
                x if x < bad_login + 22 => (json!("u2"), json!("p:2")),
                _ => (Value::Null, if r.chance(10) { json!("pw") } else { Value::Null }),
            };
            ops.push(json!(["connect", i, user, password, r.chance(50), r.u16(), r.chance(20)]));
            continue;
        }
        let i = r.below(CONNS);
        let k = match prop {
            "C14" => *r.pick(&[0, 0, 0, 2, 2, 2, 1, 3, 5]),
            "C15" => *r.pick(&[0, 0, 1, 1, 3, 3, 2, 4, 5]),
            "C17" => *r.pick(&[0, 0, 1, 2, 2, 3, 4, 4, 5, 5, 6]),
            _ => *r.pick(&[0, 0, 1, 2, 2, 3, 4, 5, 6, 6]),
        };
        ops.push(match k {
            0 => {
                let n = if r.chance(3) { 0 } else { r.range(1, 3) };
                let fs: Vec<String> = (0..n).map(|_| pool.filter(r)).collect();
                json!(["sub", i, r.u16(), fs])
            }
            1 => {
                let n = r.range(1, 3);
                let fs: Vec<String> = (0..n).map(|_| pool.filter(r)).collect();
                json!(["unsub", i, r.u16(), fs])
            }
            2 => json!(["publish", i, pool.topic(r), r.below(3), r.chance(50), r.chance(50), r.u16(), payload(r)]),
            3 => json!(["ping", i]),
            4 => json!(["disconnect", i]),
            5 => json!(["lost", i]),
            _ => json!(["odd", i, r.below(9)]),
        });
        if r.chance(drops) {
            ops.push(json!(["drop", r.below(CONNS)]));
        }
    }
    if prop == "C21" && r.chance(1) {
        let f = deep_filter(r);
        ops.push(json!(["sub", 0, 9, [f]]));
        ops.push(json!([*r.pick(&["lost", "disconnect"]), 0]));
        ops.push(json!(["ping", 1]));
    }
    json!({"kind": "handler", "conns": conns, "ops": ops, "clients": pool.clients, "capacity": *r.pick(&[1, 2, 3, 1000])})
}

async fn ask<T>(tx: &MessagingTx, op: impl FnOnce(oneshot::Sender<T>) -> MessagingOperation) -> Result<T, String> {
    let (resp, rx) = oneshot::channel();
    tx.send(op(resp)).await.map_err(|_| "the messaging service has stopped".to_string())?;
    match tokio::time::timeout(Duration::from_secs(8), rx).await {
        Ok(Ok(x)) => Ok(x),
        _ => Err("the messaging service does not answer".to_string()),
    }
}

pub async fn run_handler(v: &Value) -> Result<(), String> {
    let conns: Vec<String> = v["conns"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
    let all = conns.len();
    let mut chans = Chans::narrow(all, v["capacity"].as_u64().unwrap_or(1000) as usize);
    let mut drains = Drains::new(&mut chans);
    // between the handler and the service: sees that nothing is acknowledged before it is requested
    let early = std::sync::Arc::new(std::sync::Mutex::new(None::<String>));
    let (proxy_tx, mut proxy_rx) = mpsc::channel::<MessagingOperation>(32);
    let (client_tx, client_rx) = mpsc::channel::<ClientEvent>(1);
    let (ctrl_tx, ctrl_rx) = broadcast::channel(5);
    let (messaging_tx, messaging_rx) = mpsc::channel(32);
    let settings = Settings {
        mqtt: MqttSettings { listeners_tcp: vec![] },
        authentication: AuthenticationSettings { password_file: password_file().to_string() },
    };
    let handler = tokio::spawn(ClientPacketHandler::new(client_rx, ctrl_rx, &settings, proxy_tx).run());
    let service = tokio::spawn(MessagingService::new().run(messaging_rx));
    let proxy = {
        let (got, early, to) = (drains.got.clone(), early.clone(), messaging_tx.clone());
        tokio::spawn(async move {
            while let Some(op) = proxy_rx.recv().await {
                for _ in 0..8 {
                    tokio::task::yield_now().await;
                }
                let changes = matches!(op, MessagingOperation::Subscribe { .. } | MessagingOperation::Unsubscribe { .. } | MessagingOperation::SessionInsert { .. });
                if changes {
                    for (k, b) in got.iter().enumerate() {
                        for e in b.lock().unwrap().iter() {
                            if ["SubAck", "UnsubAck", "UnSubAck", "ConnAck"].iter().any(|n| e.starts_with(n)) {
                                *early.lock().unwrap() = Some(format!("connection {k} is sent {e} before {op:?} is even requested").chars().take(1500).collect());
                            }
                        }
                    }
                }
                if to.send(op).await.is_err() {
                    break;
                }
            }
        })
    };
    let mut m = Model::default();
    let mut filters = BTreeSet::new();
    let mut dropped = vec![false; all];

    let ops = v["ops"].as_array().unwrap();
    for (n, op) in ops.iter().enumerate() {
        let at = |e: String| format!("event {n} {op}: {e}").chars().take(3000).collect::<String>();
        let i = op[1].as_u64().unwrap() as usize;
        let c = conns[i].clone();
        let tx = chans.tx[i].clone();
        let owner = m.sessions.get(&c) == Some(&i);
        // what each queue must receive because of this event; None stands for an optional Disconnect
        let mut want: Vec<Vec<Option<String>>> = vec![vec![]; all];
        let show = |p: &P| Some(format!("{:?}", p.control()));
        let packet = |p: P| ClientEvent::ControlPacket(c.clone(), p.control(), tx.clone());
        let event = match op[0].as_str().unwrap() {
            "connect" => {
                let text = |x: &Value| x.as_str().map(|s| s.to_string());
                let p = P::Connect {
                    client_id: c.clone(),
                    keep_alive: op[5].as_u64().unwrap() as u16,
                    clean: op[4].as_bool().unwrap(),
                    will: if op[6] == true { Some(Msg { topic: "will".into(), payload: b"gone".to_vec(), qos: 1, retain: true }) } else { None },
                    user: text(&op[2]),
                    password: text(&op[3]),
                };
                if good(&op[2], &op[3]) {
                    if let Some(old) = m.insert(&c, i) {
                        if old != i {
                            want[old].push(None);
                        }
                    }
                    want[i].push(show(&P::ConnAck { session_present: false, code: 0 }));
                } else {
                    want[i].push(show(&P::ConnAck { session_present: false, code: 5 }));
                    want[i].push(Some("Disconnect".into()));
                }
                let ControlPacket::Connect(p) = p.control() else { unreachable!() };
                ClientEvent::Connected(p, "127.0.0.1:1234".parse().unwrap(), tx.clone())
            }
            "sub" => {
                let fs: Vec<String> = op[3].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
                let id = op[2].as_u64().unwrap() as u16;
                if owner {
                    for f in &fs {
                        m.subs.insert((c.clone(), f.clone()));
                        if f.len() < 2000 {
                            filters.insert(f.clone());
                        }
                    }
                    want[i].push(show(&P::SubAck { id, codes: vec![0; fs.len()] }));
                }
                packet(P::Subscribe { id, filters: fs.into_iter().enumerate().map(|(k, f)| (f, (k % 3) as u8)).collect() })
            }
            "unsub" => {
                let fs: Vec<String> = op[3].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
                let id = op[2].as_u64().unwrap() as u16;
                if owner {
                    for f in &fs {
                        m.subs.remove(&(c.clone(), f.clone()));
                    }
                    want[i].push(show(&P::UnsubAck(id)));
                }
                packet(P::Unsubscribe { id, filters: fs })
            }
            "publish" => {
                let topic = op[2].as_str().unwrap().to_string();
                let qos = op[3].as_u64().unwrap() as u8;
                let mut payload = crate::unhex(op[7].as_str().unwrap_or(""));
                if !payload.is_empty() {
                    payload.extend(format!(" {n}").into_bytes());
                }
                if owner {
                    for k in m.route(&topic) {
                        let msg = Msg { topic: topic.clone(), payload: payload.clone(), qos: 0, retain: false };
                        want[k].push(show(&P::Publish { dup: false, id: None, msg }));
                    }
                }
                packet(P::Publish {
                    dup: op[5].as_bool().unwrap(),
                    id: if qos > 0 { Some(op[6].as_u64().unwrap() as u16) } else { None },
                    msg: Msg { topic, payload, qos, retain: op[4].as_bool().unwrap() },
                })
            }
            "ping" => {
                if owner {
                    want[i].push(show(&P::PingResp));
                }
                packet(P::PingReq)
            }
            "disconnect" => {
                if owner {
                    m.end(&c);
                }
                packet(P::Disconnect)
            }
            "lost" => {
                if owner {
                    m.end(&c);
                }
                ClientEvent::ConnectionLost(c.clone(), tx.clone())
            }
            "odd" => match op[2].as_u64().unwrap() {
                0 => packet(P::PubAck(1)),
                1 => packet(P::PubRec(2)),
                2 => packet(P::PubRel(3)),
                3 => packet(P::PubComp(4)),
                4 => packet(P::Connect { client_id: c.clone(), keep_alive: 1, clean: true, will: None, user: None, password: None }),
                5 => packet(P::ConnAck { session_present: true, code: 0 }),
                6 => packet(P::SubAck { id: 1, codes: vec![0] }),
                7 => packet(P::PingResp),
                _ => ClientEvent::Disconnected(c.clone()),
            },
            "drop" => {
                dropped[i] = true;
                drains.close(i).await;
                continue;
            }
            _ => unreachable!(),
        };
        // one event, then one that does nothing; when that one is taken, the first is done
        let done = async {
            client_tx.send(event).await.map_err(|_| ())?;
            client_tx.send(ClientEvent::Disconnected(String::new())).await.map_err(|_| ())?;
            client_tx.reserve().await.map(|_| ()).map_err(|_| ())
        };
        match tokio::time::timeout(Duration::from_secs(15), done).await {
            Err(_) => return Err(at("the packet handler does not finish it".into())),
            Ok(Err(())) => return Err(at(format!("the packet handler has stopped; {}", crate::last_panic()))),
            Ok(Ok(())) => {}
        }
        drains.settle().await;
        if let Some(e) = early.lock().unwrap().take() {
            return Err(at(e));
        }
        for k in 0..all {
            if dropped[k] {
                continue;
            }
            let got = drains.take(k);
            let exact: Vec<String> = want[k].iter().flatten().cloned().collect();
            // a connection without the session may always be told to close
            let may_close = m.sessions.get(&conns[k]) != Some(&k);
            let ok = got == exact || (may_close && (k == i || want[k].contains(&None)) && exact.is_empty() && got.iter().all(|x| x == "Disconnect"));
            if !ok {
                return Err(at(format!("connection {k} is sent {got:?}, expected {exact:?}; before: session holders {:?}", m.sessions)));
            }
        }
        // the state afterwards
        let full = n + 1 == ops.len() || n % if all > CONNS { 64 } else { 4 } == 3;
        for c in clients_of(v).into_iter().take(3) {
            let want = m.sessions.contains_key(&c);
            let got = ask(&messaging_tx, |resp| MessagingOperation::SessionExists { client_id: c.clone(), resp }).await.map_err(at)?;
            if got != want {
                return Err(at(format!("afterwards existence of a session of {c:?} is {got}, expected {want}")));
            }
            if let Some(k) = m.sessions.get(&c) {
                let sender = chans.tx[*k].clone();
                let got = ask(&messaging_tx, |resp| MessagingOperation::SessionOwned { client_id: c.clone(), sender, resp }).await.map_err(at)?;
                if !got {
                    return Err(at(format!("afterwards the session of {c:?} is not that of connection {k}")));
                }
            }
        }
        if full {
            for t in topics_of(&m, &filters) {
                let l = ask(&messaging_tx, |resp| MessagingOperation::SendersToPublish { topic: t.clone(), resp }).await.map_err(at)?;
                let mut got: Vec<_> = l.iter().map(|s| chans.index(s)).collect();
                got.sort();
                let want: Vec<_> = m.route(&t).into_iter().map(Some).collect();
                if got != want {
                    return Err(at(format!("afterwards topic {t:?} goes to connections {got:?}, expected {want:?}; sessions {:?}, subscriptions {:?}", m.sessions, m.subs)));
                }
            }
        }
    }
    if handler.is_finished() || service.is_finished() {
        return Err(format!("a task shared by all clients has ended: {}", crate::last_panic()));
    }
    ctrl_tx.send(()).ok();
    handler.abort();
    proxy.abort();
    service.abort();
    Ok(())
}
