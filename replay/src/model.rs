//! The reference model of the broker.
#![allow(unused_imports, dead_code)]
use crate::rng::Rng;
use ratelmq::broker::client_packet_handler::ClientPacketHandler;
use ratelmq::broker::messaging::{MessagingOperation, MessagingService, MessagingTx};
use ratelmq::broker::session::Session;
use ratelmq::mqtt::events::{ClientEvent, ServerEvent};
use ratelmq::mqtt::message::Message;
use ratelmq::mqtt::packets::suback::SubAckReturnCode;
use ratelmq::mqtt::packets::{ControlPacket, QoS};
use ratelmq::mqtt::subscription::Subscription;
use ratelmq::settings::{AuthenticationSettings, MqttSettings, Settings};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::net::IpAddr;
use std::time::Duration;
use tokio::sync::{broadcast, mpsc, oneshot};

// ------------------------------------------------------------------------------- the model

/// MQTT 3.1.1 section 4.7, for topic names without wildcard levels.
pub fn matches(filter: &str, topic: &str) -> bool {
    pub fn go(f: &[&str], t: &[&str]) -> bool {
        match (f.split_first(), t.split_first()) {
            (Some((&"#", rest)), Some(_)) if rest.is_empty() => true,
            (Some((&"+", f)), Some((_, t))) => go(f, t),
            (Some((a, f)), Some((b, t))) => a == b && go(f, t),
            (None, None) => true,
            _ => false,
        }
    }
    go(&filter.split('/').collect::<Vec<_>>(), &topic.split('/').collect::<Vec<_>>())
}

#[derive(Default, Clone)]
pub struct Model {
    /// client -> channel of its session
    pub sessions: BTreeMap<String, usize>,
    pub subs: BTreeSet<(String, String)>,
}

impl Model {
    pub fn end(&mut self, c: &str) -> Option<usize> {
        self.subs.retain(|(x, _)| x != c);
        self.sessions.remove(c)
    }
    pub fn insert(&mut self, c: &str, chan: usize) -> Option<usize> {
        self.subs.retain(|(x, _)| x != c);
        self.sessions.insert(c.to_string(), chan)
    }
    /// channels a message on this topic goes to, one entry per matching subscription
    pub fn route(&self, topic: &str) -> Vec<usize> {
        let mut v: Vec<usize> = self
            .subs
            .iter()
            .filter(|(_, f)| matches(f, topic))
            .filter_map(|(c, _)| self.sessions.get(c).copied())
            .collect();
        v.sort();
        v
    }
}

/// The names a case is made of; some of them nearly alike.
pub struct Pool {
    pub clients: Vec<String>,
    pub levels: Vec<String>,
}

pub fn pool(r: &mut Rng) -> Pool {
    let mut clients: Vec<String> = ["c1", "c2", "c3", ""].iter().map(|s| s.to_string()).collect();
    let mut levels: Vec<String> = ["a", "b", "c", "", "é", "$x", "aa"].iter().map(|s| s.to_string()).collect();
    if r.chance(40) {
        for _ in 0..r.range(1, 2) {
            let (i, j) = (r.below(3), r.below(3));
            let n = crate::rng::near(r, &clients[i].clone());
            if i != j && !clients.contains(&n) {
                clients[j] = n;
            }
        }
    }
    if r.chance(40) {
        for _ in 0..r.range(1, 2) {
            let (i, j) = (r.below(2), r.range(1, 6));
            let n = crate::rng::near(r, &levels[i].clone());
            if i != j && !levels.contains(&n) {
                levels[j] = n;
            }
        }
    }
    for _ in 0..3 {
        if let Some(w) = r.word() {
            if !w.contains('+') && !w.contains('#') {
                let i = r.below(7);
                if !levels.contains(&w) {
                    levels[i] = w.clone();
                }
            }
            let i = r.below(3);
            if r.chance(40) && !clients.contains(&w) {
                clients[i] = w;
            }
        }
    }
    if let Some(n) = r.number(5000) {
        let i = r.below(3);
        levels[i] = "n".repeat(n);
    }
    if let Some(n) = r.number(5000) {
        let i = r.below(3);
        clients[i] = "n".repeat(n);
    }
    Pool { clients, levels }
}

impl Pool {
    fn level(&self, r: &mut Rng) -> &str {
        let n = if r.chance(70) { 2 } else { self.levels.len() };
        &self.levels[r.below(n)]
    }
    pub fn topic(&self, r: &mut Rng) -> String {
        let n = if r.chance(4) { r.number(300).unwrap_or(0).max(r.range(5, 12)) } else { r.range(1, 4) };
        (0..n).map(|_| self.level(r)).collect::<Vec<_>>().join("/")
    }
    pub fn filter(&self, r: &mut Rng) -> String {
        let n = if r.chance(4) { r.number(300).unwrap_or(0).max(r.range(5, 12)) } else { r.range(1, 4) };
        let mut v: Vec<&str> = (0..n).map(|_| if r.chance(25) { "+" } else { self.level(r) }).collect();
        if r.chance(20) {
            *v.last_mut().unwrap() = "#";
        }
        v.join("/")
    }
    pub fn client(&self, r: &mut Rng) -> String {
        if r.chance(5) {
            self.clients[3].clone()
        } else {
            self.clients[r.below(3)].clone()
        }
    }
}

pub fn clients_of(v: &Value) -> Vec<String> {
    v["clients"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect()
}

// ------------------------------------------------------------------------------- the service, called directly

pub struct Chans {
    pub tx: Vec<mpsc::Sender<ServerEvent>>,
    pub rx: Vec<Option<mpsc::Receiver<ServerEvent>>>,
}

impl Chans {
    pub fn new(n: usize) -> Chans {
        Chans::narrow(n, 100_000)
    }
    pub fn narrow(n: usize, capacity: usize) -> Chans {
        let (tx, rx) = (0..n).map(|_| mpsc::channel(capacity)).unzip::<_, _, Vec<_>, Vec<_>>();
        Chans { tx, rx: rx.into_iter().map(Some).collect() }
    }
    pub fn index(&self, s: &mpsc::Sender<ServerEvent>) -> Option<usize> {
        self.tx.iter().position(|t| t.same_channel(s))
    }
}

pub const CHANS: usize = 6;

/// What a session is about beside its client and its queue makes no difference.
pub fn session(c: &str, chans: &Chans, i: usize, kind: &Value) -> Session {
    let k = kind.as_u64().unwrap_or(0);
    let ip = if k & 2 == 0 { IpAddr::from([127, 0, 0, 1]) } else { IpAddr::from([0u16; 8]) };
    let at = chrono::Utc::now() - chrono::Duration::seconds([0, 0, 100, 1_000_000][k as usize / 8 % 4]);
    Session::new(c.to_string(), ip, k & 1 == 1, chans.tx[i].clone(), [30, 0, 1, 65535][k as usize / 2 % 4], at)
}

pub fn deep_filter(r: &mut Rng) -> String {
    "/".repeat(*r.pick(&[2000, 20_000, 65_535]))
}

pub fn topics_of(m: &Model, all: &BTreeSet<String>) -> BTreeSet<String> {
    // names that show every subscription made so far: wildcards replaced by names
    let mut t: BTreeSet<String> = all
        .iter()
        .chain(m.subs.iter().map(|(_, f)| f))
        .flat_map(|f| {
            [f.replace('+', "a").replace('#', "b"), f.replace('+', "zz").replace('#', "zz/y")]
        })
        .filter(|t| t.len() < 2000)
        .collect();
    for x in ["a", "b", "a/b", "a/a", "/", ""] {
        t.insert(x.to_string());
    }
    t
}

/// Empties queues all the time and keeps what was in them.
pub struct Drains {
    pub got: Vec<std::sync::Arc<std::sync::Mutex<Vec<String>>>>,
    pub tasks: Vec<Option<tokio::task::JoinHandle<()>>>,
}

impl Drains {
    pub fn new(chans: &mut Chans) -> Drains {
        let mut got = vec![];
        let mut tasks = vec![];
        for rx in chans.rx.iter_mut() {
            let mut rx = rx.take().unwrap();
            let buffer = std::sync::Arc::new(std::sync::Mutex::new(vec![]));
            got.push(buffer.clone());
            tasks.push(Some(tokio::spawn(async move {
                while let Some(e) = rx.recv().await {
                    let s = match e {
                        ServerEvent::ControlPacket(p) => format!("{p:?}"),
                        ServerEvent::Disconnect => "Disconnect".to_string(),
                    };
                    buffer.lock().unwrap().push(s);
                }
            })));
        }
        Drains { got, tasks }
    }
    pub async fn close(&mut self, i: usize) {
        if let Some(t) = self.tasks[i].take() {
            t.abort();
            t.await.ok();
        }
    }
    pub async fn settle(&self) {
        for _ in 0..20 {
            tokio::task::yield_now().await;
        }
    }
    pub fn take(&self, i: usize) -> Vec<String> {
        std::mem::take(&mut *self.got[i].lock().unwrap())
    }
}
