//! The messaging service, through its queue: C12, and C09 to C13.
#![allow(unused_imports, dead_code)]
use crate::rng::Rng;
use ratelmq::broker::client_packet_handler::ClientPacketHandler;
use ratelmq::broker::messaging::{MessagingOperation, MessagingService, MessagingTx};
use ratelmq::broker::session::Session;
use ratelmq::mqtt::events::{ClientEvent, ServerEvent};
use ratelmq::mqtt::message::Message;
use ratelmq::mqtt::packets::suback::SubAckReturnCode;
use ratelmq::mqtt::packets::{ControlPacket, QoS};
use ratelmq::mqtt::subscription::Subscription;
use ratelmq::settings::{AuthenticationSettings, MqttSettings, Settings};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::net::IpAddr;
use std::time::Duration;
use tokio::sync::{broadcast, mpsc, oneshot};

use crate::model::*;
use crate::wire::{Msg, P};

pub fn gen_queue(r: &mut Rng) -> Value {
    let mut ops = vec![];
    let pool = pool(r);
    for _ in 0..r.range(2, 25) {
        let c = pool.client(r);
        let gone = r.chance(20);
        ops.push(match r.below(11) {
            0 | 1 => json!(["insert", c, r.below(CHANS), r.below(32), gone]),
            2..=4 => json!(["sub", c, pool.filter(r), gone]),
            5 => json!(["unsub", c, [pool.filter(r), pool.filter(r)], gone]),
            6 => json!(["lost", c, gone]),
            7 => json!(["disc", c, gone]),
            8 => json!(["route", pool.topic(r), gone]),
            9 => json!(["publish", pool.topic(r), gone]),
            _ => match r.below(3) {
                0 => json!(["exists", c, gone]),
                1 => json!(["count", gone]),
                _ => json!(["owned", c, r.below(CHANS), gone]),
            },
        });
        if r.chance(3) {
            ops.push(json!(["closed", r.below(CHANS)]));
        }
    }
    if r.chance(2) {
        let t = pool.topic(r);
        for i in 0..r.range(20, 150) {
            let c = format!("k{i}");
            if r.chance(90) {
                ops.push(json!(["insert", c, r.below(CHANS), r.below(32), false]));
            }
            let f: Vec<&str> = t.split('/').map(|l| if r.chance(20) { "+" } else { l }).collect();
            ops.push(json!(["sub", c, f.join("/"), false]));
        }
        ops.push(json!(["route", t, false]));
        ops.push(json!(["publish", t, false]));
    }
    json!({"kind": "queue", "ops": ops, "burst": r.chance(50), "capacity": *r.pick(&[1, 2, 3, 1000])})
}

pub async fn run_queue(v: &Value) -> Result<(), String> {
    let mut chans = Chans::narrow(CHANS, v["capacity"].as_u64().unwrap_or(1000) as usize);
    let mut drains = Drains::new(&mut chans);
    let (tx, rx) = mpsc::channel(1000);
    let service = tokio::spawn(MessagingService::new().run(rx));
    let mut m = Model::default();
    type Answer = std::pin::Pin<Box<dyn std::future::Future<Output = Result<(), String>>>>;
    let mut answers: Vec<(String, Answer)> = vec![];
    let burst = v["burst"].as_bool().unwrap();
    macro_rules! expect {
        ($rx:expr, $gone:expr, $label:expr, $show:expr, $want:expr) => {{
            let want = $want;
            let rx = $rx;
            let show = $show;
            if $gone {
                drop(rx);
            } else {
                answers.push((
                    $label.clone(),
                    Box::pin(async move {
                        match tokio::time::timeout(Duration::from_secs(8), rx).await {
                            Err(_) => Err("is not answered".to_string()),
                            Ok(Err(_)) => Err("is dropped without an answer".to_string()),
                            Ok(Ok(got)) => {
                                let got = show(got);
                                if got == want {
                                    Ok(())
                                } else {
                                    Err(format!("is answered {got:?}, expected {want:?}"))
                                }
                            }
                        }
                    }),
                ));
            }
        }};
    }
    let txs = chans.tx.clone();
    let index = move |s: &mpsc::Sender<ServerEvent>| txs.iter().position(|t| t.same_channel(s));
    let mut delivered: Vec<Vec<String>> = vec![vec![]; CHANS];
    for (n, op) in v["ops"].as_array().unwrap().iter().enumerate() {
        if op[0] == "closed" {
            drains.close(op[1].as_u64().unwrap() as usize).await;
            continue;
        }
        let arg = |i: usize| op[i].as_str().unwrap().to_string();
        let gone = op.as_array().unwrap().last().unwrap().as_bool().unwrap();
        let label = format!("request {n} {op}");
        let idx = index.clone();
        let show_session = move |s: Option<Session>| s.map(|s| idx(s.sender()));
        let request = match op[0].as_str().unwrap() {
            "insert" => {
                let (resp, rx) = oneshot::channel();
                let i = op[2].as_u64().unwrap() as usize;
                expect!(rx, gone, label, show_session, m.insert(&arg(1), i).map(Some));
                MessagingOperation::SessionInsert { session: session(&arg(1), &chans, i, &op[3]), resp }
            }
            "lost" => {
                let (resp, rx) = oneshot::channel();
                expect!(rx, gone, label, show_session, m.end(&arg(1)).map(Some));
                MessagingOperation::ConnectionLost { client_id: arg(1), resp }
            }
            "disc" => {
                let (resp, rx) = oneshot::channel();
                expect!(rx, gone, label, show_session, m.end(&arg(1)).map(Some));
                MessagingOperation::ConnectionDisconnected { client_id: arg(1), resp }
            }
            "sub" => {
                let (resp, rx) = oneshot::channel();
                m.subs.insert((arg(1), arg(2)));
                expect!(rx, gone, label, |c: SubAckReturnCode| c == SubAckReturnCode::SuccessQoS0, true);
                MessagingOperation::Subscribe { client_id: arg(1), subscription: Subscription::new(arg(2), QoS::AtLeastOnce), resp }
            }
            "unsub" => {
                let (resp, rx) = oneshot::channel();
                let topics: Vec<String> = op[2].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
                for t in &topics {
                    m.subs.remove(&(arg(1), t.clone()));
                }
                expect!(rx, gone, label, |_: ()| true, true);
                MessagingOperation::Unsubscribe { client_id: arg(1), topics, resp }
            }
            "route" => {
                let (resp, rx) = oneshot::channel();
                let idx = index.clone();
                expect!(rx, gone, label, move |l: Vec<mpsc::Sender<ServerEvent>>| {
                    let mut v: Vec<_> = l.iter().map(|s| idx(s)).collect();
                    v.sort();
                    v
                }, m.route(&arg(1)).into_iter().map(Some).collect::<Vec<_>>());
                MessagingOperation::SendersToPublish { topic: arg(1), resp }
            }
            "publish" => {
                let (resp, rx) = oneshot::channel();
                expect!(rx, gone, label, |_: ()| true, true);
                let p = P::Publish { dup: false, id: None, msg: Msg { topic: arg(1), payload: n.to_string().into_bytes(), qos: 0, retain: false } };
                for i in m.route(&arg(1)) {
                    delivered[i].push(format!("{:?}", p.control()));
                }
                let ControlPacket::Publish(publish) = p.control() else { unreachable!() };
                let message: Message = publish.message.clone();
                MessagingOperation::Publish { message, publish, resp }
            }
            "exists" => {
                let (resp, rx) = oneshot::channel();
                expect!(rx, gone, label, |b: bool| b, m.sessions.contains_key(&arg(1)));
                MessagingOperation::SessionExists { client_id: arg(1), resp }
            }
            "count" => {
                let (resp, rx) = oneshot::channel();
                expect!(rx, gone, label, |b: usize| b, m.sessions.len());
                MessagingOperation::SessionCount { resp }
            }
            _ => {
                let (resp, rx) = oneshot::channel();
                let i = op[2].as_u64().unwrap() as usize;
                expect!(rx, gone, label, |b: bool| b, m.sessions.get(&arg(1)) == Some(&i));
                MessagingOperation::SessionOwned { client_id: arg(1), sender: chans.tx[i].clone(), resp }
            }
        };
        if tx.send(request).await.is_err() {
            return Err(format!("{label}: the messaging service has stopped"));
        }
        if !burst {
            for (label, a) in answers.drain(..) {
                a.await.map_err(|e| format!("{label} {e}"))?;
            }
        }
    }
    for (label, a) in answers {
        a.await.map_err(|e| format!("{label} {e}"))?;
    }
    drop(tx);
    match tokio::time::timeout(Duration::from_secs(8), service).await {
        Err(_) => return Err("the messaging service does not stop when its queue is closed".into()),
        Ok(Err(e)) => return Err(format!("the messaging service crashed: {e}")),
        Ok(Ok(())) => {}
    }
    drains.settle().await;
    for i in 0..CHANS {
        let got = drains.take(i);
        if drains.tasks[i].is_some() && got != delivered[i] {
            return Err(format!("queue {i} received {got:?}, expected {:?}", delivered[i]));
        }
    }
    Ok(())
}
