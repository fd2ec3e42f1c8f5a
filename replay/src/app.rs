//! The whole broker, as its real binary: C28.

use crate::rng::Rng;
use crate::wire::{Msg, P};
use serde_json::{json, Value};
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

const NAMES: [&str; 6] = ["u", "user", "ü", "a b", "u1", "admin"];
const PASSWORDS: [&str; 5] = ["pw", "p:w", "pä ß", "x y", "$1"];

pub fn gen(r: &mut Rng) -> Value {
    let n = if r.chance(85) { r.range(1, 4) } else { r.number(40).unwrap_or(0).clamp(5, 40) };
    let hosts: Vec<&str> = (0..n).map(|_| *r.pick(&["127.0.0.1", "127.0.0.1", "127.0.0.2", "0.0.0.0", "[::1]", "localhost"])).collect();
    let one_port = r.chance(30);
    let fits = |s: String| if s.is_empty() || s.contains([':', '\n', '\r', '\0']) { "plain".to_string() } else { s };
    let user = fits(r.word().unwrap_or(r.pick(&NAMES).to_string()));
    let password = fits(r.word().unwrap_or(r.pick(&PASSWORDS).to_string()));
    let wrong = crate::rng::near(r, &password);
    let topic: String = r.word().unwrap_or_default().chars().filter(|c| !"+#\0$".contains(*c)).take(40).collect();
    json!({
        "kind": "app", "hosts": hosts, "one_port": one_port, "text": r.chance(30), "user": user, "password": password, "wrong": wrong,
        "topic": if topic.is_empty() { "a/b".to_string() } else { topic },
        "rounds": r.range(1, 3), "crowd": if r.chance(20) { r.number(60).unwrap_or(20).clamp(1, 60) } else { 0 },
        "order": r.next() % 1000, "again": r.chance(40),
    })
}

struct Broker(Child);

impl Drop for Broker {
    fn drop(&mut self) {
        self.0.kill().ok();
        self.0.wait().ok();
    }
}

struct Client {
    s: TcpStream,
    got: Vec<u8>,
}

impl Client {
    /// The next packet: its first byte and its body. None: the connection is closed.
    fn packet(&mut self, limit: Duration) -> Result<Option<(u8, Vec<u8>)>, String> {
        let end = Instant::now() + limit;
        loop {
            let mut len = 0usize;
            for i in 0..4 {
                let Some(d) = self.got.get(1 + i) else { break };
                len |= ((d & 127) as usize) << (7 * i);
                if *d < 128 {
                    if self.got.len() >= 2 + i + len {
                        let p = (self.got[0], self.got[2 + i..2 + i + len].to_vec());
                        self.got.drain(..2 + i + len);
                        return Ok(Some(p));
                    }
                    break;
                }
            }
            let left = end.saturating_duration_since(Instant::now());
            if left.is_zero() {
                return Err("nothing arrives".into());
            }
            self.s.set_read_timeout(Some(left.max(Duration::from_millis(1)))).unwrap();
            let mut b = [0u8; 4096];
            match self.s.read(&mut b) {
                Ok(0) => return Ok(None),
                Ok(n) => self.got.extend_from_slice(&b[..n]),
                Err(e) if e.kind() == std::io::ErrorKind::WouldBlock || e.kind() == std::io::ErrorKind::TimedOut => return Err("nothing arrives".into()),
                Err(_) => return Ok(None),
            }
        }
    }

    fn expect(&mut self, what: &str, want: &(u8, Vec<u8>)) -> Result<(), String> {
        match self.packet(Duration::from_secs(4)) {
            Ok(Some(p)) if p == *want => Ok(()),
            x => Err(format!("{what}: {x:?} instead of {want:?}")),
        }
    }
}

fn connect(at: &str, id: &str, user: &str, password: &str) -> Result<Client, String> {
    let s = TcpStream::connect(at).map_err(|e| format!("no connection to {at}: {e}"))?;
    s.set_nodelay(true).ok();
    let mut c = Client { s, got: vec![] };
    let p = P::Connect { client_id: id.into(), keep_alive: 0, clean: true, will: None, user: Some(user.into()), password: Some(password.into()) };
    c.s.write_all(&p.encode()).ok();
    Ok(c)
}

/// None: could not be decided (the ports were taken by someone else).
fn attempt(v: &Value, last: bool) -> Result<Option<()>, String> {
    let dir = crate::scratch().join("app");
    std::fs::remove_dir_all(&dir).ok();
    std::fs::create_dir_all(&dir).unwrap();
    let hosts: Vec<&str> = v["hosts"].as_array().unwrap().iter().map(|h| h.as_str().unwrap()).collect();
    let mut held = vec![];
    let mut bind = vec![];
    let mut at = vec![];
    let v6 = TcpListener::bind("[::1]:0").is_ok();
    let named = TcpListener::bind("localhost:0").is_ok();
    let mut shared = vec![];
    for h in &hosts {
        let h = if *h == "[::1]" && !v6 || *h == "localhost" && !named { "127.0.0.1" } else { *h };
        // one port on several addresses: only where they cannot collide
        let again = match shared.first() {
            Some((port, hs)) if v["one_port"].as_bool() == Some(true) && matches!(h, "127.0.0.1" | "127.0.0.2" | "[::1]") => {
                let hs: &Vec<String> = hs;
                if hs.iter().any(|x| x == h) { 0 } else { *port }
            }
            _ => 0,
        };
        let Ok(l) = TcpListener::bind(format!("{h}:{again}")).or_else(|_| TcpListener::bind(format!("{h}:0"))) else {
            crate::harness_failure(&format!("no port on {h}"))
        };
        let port = l.local_addr().unwrap().port();
        if matches!(h, "127.0.0.1" | "127.0.0.2" | "[::1]") {
            match shared.iter_mut().find(|(p, _)| *p == port) {
                Some((_, hs)) => hs.push(h.to_string()),
                None => shared.push((port, vec![h.to_string()])),
            }
        }
        held.push(l);
        bind.push(format!("{h}:{port}"));
        at.push(format!("{}:{port}", if h == "0.0.0.0" { "127.0.0.3" } else { h }));
    }
    drop(held);
    let (user, password, wrong) = (v["user"].as_str().unwrap(), v["password"].as_str().unwrap(), v["wrong"].as_str().unwrap());
    let text = |s: &str| serde_json::to_string(s).unwrap();
    std::fs::write(dir.join("passwd"), format!("other:{}\n{user}:{}\n", crate::hash::hash("other"), crate::hash::hash(password))).unwrap();
    let list = if v["text"].as_bool().unwrap() { text(&bind.join(", ")) } else { serde_json::to_string(&bind).unwrap() };
    std::fs::write(
        dir.join("broker.conf"),
        format!("[mqtt]\nlisteners_tcp = {list}\n[authentication]\npassword_file = {}\n", text(dir.join("passwd").to_str().unwrap())),
    )
    .unwrap();
    let err = std::fs::File::create(dir.join("stderr")).unwrap();
    let tool = std::env::var("BROKER").unwrap_or_else(|_| crate::harness_failure("BROKER is not set"));
    let mut cmd = Command::new(tool);
    cmd.arg("-c").arg(dir.join("broker.conf")).current_dir(&dir).stdin(Stdio::null()).stdout(Stdio::null()).stderr(err);
    for (k, _) in std::env::vars() {
        if k.to_lowercase().starts_with("ratelmq") || k == "RUST_LOG" {
            cmd.env_remove(k);
        }
    }
    let mut broker = Broker(cmd.spawn().unwrap_or_else(|e| crate::harness_failure(&format!("the broker cannot be started: {e}"))));
    let said = || std::fs::read_to_string(dir.join("stderr")).unwrap_or_default().chars().take(400).collect::<String>();
    let end = Instant::now() + Duration::from_secs(8);
    for a in &at {
        loop {
            if TcpStream::connect(a).is_ok() {
                break;
            }
            if let Ok(Some(s)) = broker.0.try_wait() {
                if !last && said().contains("AddrInUse") {
                    return Ok(None);
                }
                return Err(format!("the broker ended when started for {bind:?}: {s}, {}", said()));
            }
            if Instant::now() > end {
                return if last { Err(format!("nobody listens on {a} of {bind:?}; {}", said())) } else { Ok(None) };
            }
            std::thread::sleep(Duration::from_millis(5));
        }
    }
    let ok = (0x20, vec![0, 0]);
    let mut order: Vec<usize> = (0..at.len()).collect();
    let mut r = Rng::new(v["order"].as_u64().unwrap());
    for i in (1..order.len()).rev() {
        let j = r.below(i + 1);
        order.swap(i, j);
    }
    let dead = |broker: &mut Broker| match broker.0.try_wait() {
        Ok(Some(s)) => format!(" (the broker has ended: {s}, {})", said()),
        _ => String::new(),
    };
    let topic = v["topic"].as_str().unwrap();
    // a subscriber on each address
    let mut subs = vec![];
    for &i in &order {
        let mut c = connect(&at[i], &format!("sub{i}"), user, password)?;
        c.expect(&format!("CONNACK at {}", bind[i]), &ok).map_err(|e| e + &dead(&mut broker))?;
        c.s.write_all(&P::Subscribe { id: 7, filters: vec![(topic.into(), 0)] }.encode()).ok();
        c.expect(&format!("SUBACK at {}", bind[i]), &(0x90, vec![0, 7, 0])).map_err(|e| e + &dead(&mut broker))?;
        subs.push(c);
    }
    // others who only connect
    let mut crowd = vec![];
    for k in 0..v["crowd"].as_u64().unwrap() as usize {
        let i = k % at.len();
        let mut c = connect(&at[i], &format!("c{k}"), user, password)?;
        c.expect(&format!("CONNACK of connection {k} at {}", bind[i]), &ok).map_err(|e| e + &dead(&mut broker))?;
        crowd.push(c);
    }
    // a publisher on each, reaching all of them
    for round in 0..v["rounds"].as_u64().unwrap() {
        for &i in order.iter().rev() {
            let mut c = connect(&at[i], &format!("pub{i}"), user, password)?;
            c.expect(&format!("CONNACK at {}", bind[i]), &ok).map_err(|e| e + &dead(&mut broker))?;
            let m = P::Publish { dup: false, id: None, msg: Msg { topic: topic.into(), payload: format!("{round} {i}").into_bytes(), qos: 0, retain: false } };
            c.s.write_all(&m.encode()).ok();
            let want = m.parts();
            for (s, &j) in subs.iter_mut().zip(&order) {
                s.expect(&format!("PUBLISH from {} to a client at {}", bind[i], bind[j]), &want).map_err(|e| e + &dead(&mut broker))?;
            }
            c.s.write_all(&P::Disconnect.encode()).ok();
        }
    }
    // log-ins are decided alike everywhere
    if wrong != password {
        for &i in &order {
            let mut c = connect(&at[i], "intruder", user, wrong)?;
            match c.packet(Duration::from_secs(4)) {
                Ok(Some((0x20, b))) if b == vec![0, 0] => return Err(format!("{user:?} is let in at {} with {wrong:?} instead of {password:?}", bind[i])),
                Err(e) => return Err(format!("log-in at {}: {e}{}", bind[i], dead(&mut broker))),
                _ => {}
            }
        }
    }
    // one session per client, wherever it connects
    if v["again"].as_bool().unwrap() {
        let mut before = connect(&at[order[0]], "same", user, password)?;
        before.expect("CONNACK", &ok).map_err(|e| e + &dead(&mut broker))?;
        let i = order[order.len() - 1];
        let mut after = connect(&at[i], "same", user, password)?;
        after.expect("CONNACK", &ok).map_err(|e| e + &dead(&mut broker))?;
        match before.packet(Duration::from_secs(4)) {
            Ok(None) => {}
            x => return Err(format!("the earlier connection of a client that connected again at {} is not closed: {x:?}", bind[i])),
        }
    }
    Ok(Some(()))
}

pub fn run(v: &Value) -> Result<(), String> {
    for k in 0..4 {
        if attempt(v, k == 3)?.is_some() {
            return Ok(());
        }
    }
    Ok(())
}
