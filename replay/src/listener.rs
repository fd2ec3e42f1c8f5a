//! The two loops of a connection, through a real listener: C19, C20.

use crate::rng::Rng;
use crate::wire::{self, P};
use crate::{hex, unhex};
use ratelmq::mqtt::events::{ClientEvent, ServerEvent};
use ratelmq::mqtt::listener::MqttListener;
use ratelmq::mqtt::packets::ControlPacket;
use serde_json::{json, Value};
use std::time::Duration;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::TcpStream;
use tokio::sync::{broadcast, mpsc};

const LIMIT: Duration = Duration::from_secs(8);

async fn limited<T>(what: &str, f: impl std::future::Future<Output = T>) -> Result<T, String> {
    tokio::time::timeout(LIMIT, f).await.map_err(|_| what.to_string())
}

struct Server {
    address: String,
    events: mpsc::Receiver<ClientEvent>,
    _tx: mpsc::Sender<ClientEvent>,
    stop: broadcast::Sender<()>,
    task: tokio::task::JoinHandle<()>,
}

async fn server(capacity: usize) -> Server {
    let address = {
        let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
        l.local_addr().unwrap().to_string()
    };
    let (tx, events) = mpsc::channel(capacity);
    let (stop, stop_rx) = broadcast::channel(5);
    let listener = MqttListener::bind(&address, tx.clone(), stop_rx).await.unwrap();
    let task = tokio::spawn(listener.start_accepting());
    Server { address, events, _tx: tx, stop, task }
}

async fn finish(s: Server) {
    s.stop.send(()).ok();
    tokio::time::timeout(Duration::from_secs(2), s.task).await.ok();
}

pub fn gen_read(r: &mut Rng) -> Value {
    if r.chance(15) {
        return gen_many(r);
    }
    let mut bytes = vec![];
    let first = match r.below(10) {
        0 => wire::client_packet(r, false).encode(),
        1 => wire::mutated(r),
        _ => loop {
            let p = wire::client_packet(r, false);
            if let P::Connect { keep_alive, clean, will, user, password, client_id } = p {
                let client_id = if r.chance(30) { String::new() } else { client_id };
                break P::Connect { keep_alive, clean, will, user, password, client_id }.encode();
            }
        },
    };
    bytes.extend(first);
    let n = if r.chance(3) { 400 } else { 5 };
    for _ in 0..r.below(n) {
        bytes.extend(wire::client_packet(r, false).encode());
    }
    if r.chance(5) {
        bytes.extend(wire::publish(r, true).encode());
    }
    if r.chance(30) {
        bytes.extend(wire::mutated(r));
        if r.chance(50) {
            bytes.extend(wire::client_packet(r, false).encode());
        }
    }
    json!({"kind": "input", "bytes": hex(&bytes), "cut": r.below(bytes.len() + 1), "reset": r.chance(10), "capacity": *r.pick(&[1, 2, 1000]), "slow": r.chance(10)})
}

pub async fn run_read(v: &Value) -> Result<(), String> {
    let bytes = unhex(v["bytes"].as_str().unwrap());
    let mut s = server(v["capacity"].as_u64().unwrap_or(1000) as usize).await;
    let mut c = TcpStream::connect(&s.address).await.unwrap();
    c.set_nodelay(true).ok();
    let cut = v["cut"].as_u64().unwrap() as usize;
    c.write_all(&bytes[..cut]).await.ok();
    tokio::task::yield_now().await;
    c.write_all(&bytes[cut..]).await.ok();
    c.shutdown().await.ok();

    // what the bytes say
    let mut at = 0;
    let mut expected = vec![];
    while let Some((p, n)) = wire::decode(&bytes[at..]) {
        expected.push(p);
        at += n;
    }
    let connected = matches!(expected.first(), Some(P::Connect { .. }));
    let mut got = vec![];
    if connected {
        let mut id = String::new();
        for (i, p) in expected.iter().enumerate() {
            if v["slow"] == true && i < 3 {
                tokio::time::sleep(Duration::from_millis(4)).await;
            }
            let e = limited(&format!("packet {} is not reported", i + 1), s.events.recv()).await?.ok_or("the listener has stopped")?;
            match (i, e) {
                (0, ClientEvent::Connected(packet, _, tx)) => {
                    let mut want = p.control();
                    if let ControlPacket::Connect(w) = &mut want {
                        if w.client_id.is_empty() {
                            if packet.client_id.is_empty() {
                                return Err("a connect without a client id is reported without one".into());
                            }
                            w.client_id = packet.client_id.clone();
                        }
                    }
                    id = packet.client_id.clone();
                    if ControlPacket::Connect(packet.clone()) != want {
                        return Err(format!("the connect is reported as {packet:?}, the bytes say {want:?}").chars().take(2000).collect());
                    }
                    got.push(tx);
                }
                (i, ClientEvent::ControlPacket(c, packet, tx)) if i > 0 => {
                    if c != id || packet != p.control() {
                        return Err(format!("packet {} is reported as {packet:?} of {c:?}, the bytes say {:?} of {id:?}", i + 1, p.control()).chars().take(2000).collect());
                    }
                    got.push(tx);
                }
                (_, other) => return Err(format!("packet {} {:?} is reported as {other:?}", i + 1, p.control()).chars().take(2000).collect()),
            }
        }
        match limited("the end of the connection is not reported", s.events.recv()).await? {
            Some(ClientEvent::ConnectionLost(c, tx)) => {
                if c != id {
                    return Err(format!("the loss is reported for {c:?} instead of {id:?}"));
                }
                got.push(tx);
            }
            other => return Err(format!("instead of the loss, {other:?} is reported").chars().take(2000).collect()),
        }
        if let Some(i) = got.iter().position(|t| !t.same_channel(&got[0])) {
            return Err(format!("event {} carries the queue of another connection", i + 1));
        }
        drop(got);
    }
    // the connection is closed only when both loops have ended
    let mut rest = vec![];
    limited("the connection is not closed although its input has ended", c.read_to_end(&mut rest)).await?.ok();
    if let Ok(e) = s.events.try_recv() {
        return Err(format!("{} is reported {e:?}", if connected { "after the loss" } else { "for a connection that is not opened by CONNECT" }).chars().take(2000).collect());
    }
    drop(c);
    finish(s).await;
    Ok(())
}

fn connect_as(client_id: String) -> P {
    P::Connect { client_id, keep_alive: 0, clean: true, will: None, user: None, password: None }
}

/// Several connections at a time: who they are, what each sends, and whose turn it is (a connection without anything left
/// to send is closed at its turn).
fn gen_many(r: &mut Rng) -> Value {
    let n = if r.chance(5) { r.range(50, 300) } else { r.range(2, 8) };
    let anonymous = *r.pick(&[20, 50, 98]);
    let all: Vec<Value> = (0..n)
        .map(|_| {
            let id = if r.chance(anonymous) { String::new() } else if r.chance(30) { "same".into() } else { wire::text(r, 30) };
            let ps: Vec<String> = (0..r.below(4)).map(|_| hex(&wire::client_packet(r, false).encode())).collect();
            json!({"id": id, "packets": ps})
        })
        .collect();
    let turns: Vec<usize> = (0..r.below(4 * n)).map(|_| r.below(n)).collect();
    json!({"kind": "many", "connections": all, "turns": turns, "first": r.chance(50)})
}

pub async fn run_many(v: &Value) -> Result<(), String> {
    struct Conn {
        id: String,
        socket: Option<TcpStream>,
        sent: Vec<P>,
        left: Vec<Vec<u8>>,
        queue: Option<mpsc::Sender<ServerEvent>>,
        reported: Vec<ControlPacket>,
        lost: bool,
    }
    let mut s = server(4000).await;
    let mut conns: Vec<Conn> = vec![];
    let mut made: std::collections::HashSet<String> = Default::default();
    let turns: Vec<usize> = v["turns"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
    let all = v["connections"].as_array().unwrap();
    let mut taken = 0;
    for (k, c) in all.iter().enumerate() {
        let mut socket = limited("a connection is not taken", TcpStream::connect(&s.address)).await?.map_err(|e| format!("connection {k} is refused: {e}"))?;
        socket.set_nodelay(true).ok();
        let given = c["id"].as_str().unwrap().to_string();
        socket.write_all(&connect_as(given.clone()).encode()).await.ok();
        let here = socket.local_addr().unwrap();
        let mut conn = Conn { id: given.clone(), socket: Some(socket), sent: vec![], left: c["packets"].as_array().unwrap().iter().map(|x| unhex(x.as_str().unwrap())).rev().collect(), queue: None, reported: vec![], lost: false };
        loop {
            match limited(&format!("connection {} is not reported", k + 1), s.events.recv()).await?.ok_or("the listener has stopped")? {
                ClientEvent::Connected(packet, address, tx) => {
                    if address != here {
                        return Err(format!("the connect of {here} is reported from {address}"));
                    }
                    if given.is_empty() {
                        if packet.client_id.is_empty() || !made.insert(packet.client_id.clone()) {
                            return Err(format!("connection {} without a client id is given the id {:?}{}", k + 1, packet.client_id, if packet.client_id.is_empty() { "" } else { ", which another one has" }));
                        }
                    } else if packet.client_id != given {
                        return Err(format!("the connect of {given:?} is reported as of {:?}", packet.client_id));
                    }
                    conn.id = packet.client_id.clone();
                    conn.queue = Some(tx);
                    break;
                }
                other => note(&mut conns, other)?,
            }
        }
        conns.push(conn);
        // some go on while others are still coming
        while v["first"] != true && taken < turns.len() && taken * all.len() < turns.len() * (k + 1) {
            let i = turns[taken];
            taken += 1;
            if i <= k {
                step(&mut conns[i]).await;
            }
        }
    }
    async fn step(c: &mut Conn) {
        match c.left.pop() {
            Some(b) => {
                if let Some(x) = &mut c.socket {
                    x.write_all(&b).await.ok();
                    c.sent.push(wire::decode(&b).expect("a packet").0);
                }
            }
            None => {
                // gone; what it has sent before still counts
                if let Some(x) = &mut c.socket {
                    x.shutdown().await.ok();
                }
                c.left.clear();
            }
        }
    }
    fn note(conns: &mut [Conn], e: ClientEvent) -> Result<(), String> {
        let (id, tx, p) = match e {
            ClientEvent::ControlPacket(id, p, tx) => (id, tx, Some(p)),
            ClientEvent::ConnectionLost(id, tx) => (id, tx, None),
            other => return Err(format!("unexpectedly {other:?} is reported")),
        };
        let c = conns.iter_mut().find(|c| c.queue.as_ref().is_some_and(|q| q.same_channel(&tx))).ok_or("an event carries the queue of no connection")?;
        if c.id != id {
            return Err(format!("an event of {:?} is reported as one of {id:?}", c.id));
        }
        if c.lost {
            return Err(format!("after the loss of {id:?} something is reported for it"));
        }
        match p {
            Some(p) => c.reported.push(p),
            None => c.lost = true,
        }
        Ok(())
    }
    while taken < turns.len() {
        step(&mut conns[turns[taken]]).await;
        taken += 1;
    }
    for c in &mut conns {
        if let Some(x) = &mut c.socket {
            x.shutdown().await.ok();
        }
    }
    while conns.iter().any(|c| !c.lost) {
        let e = match tokio::time::timeout(LIMIT, s.events.recv()).await {
            Ok(e) => e.ok_or("the listener has stopped")?,
            Err(_) => {
                let c = conns.iter().find(|c| !c.lost).unwrap();
                return Err(format!("of the {} packets of {:?} {} are reported, and not its loss", c.sent.len(), c.id, c.reported.len()));
            }
        };
        note(&mut conns, e)?;
    }
    for c in &conns {
        let want: Vec<ControlPacket> = c.sent.iter().map(|p| p.control()).collect();
        if c.reported != want {
            return Err(format!("{:?} sent {want:?}, reported are {:?}", c.id, c.reported).chars().take(2000).collect());
        }
    }
    drop(conns);
    finish(s).await;
    Ok(())
}

pub fn gen_write(r: &mut Rng) -> Value {
    let n = if r.chance(5) { r.range(30, 400) } else { r.range(1, 12) };
    let big = r.chance(5);
    let at = if r.chance(75) { json!(r.below(n + 1)) } else { Value::Null };
    let ps: Vec<String> = (0..n).map(|_| hex(&wire::server_packet(r, big).encode())).collect();
    json!({"kind": "output", "packets": ps, "disconnect": at, "burst": r.chance(70), "late": r.chance(10)})
}

pub async fn run_write(v: &Value) -> Result<(), String> {
    let mut s = server(1000).await;
    let c = TcpStream::connect(&s.address).await.unwrap();
    c.set_nodelay(true).ok();
    let (mut rd, mut wr) = c.into_split();
    let hello = P::Connect { client_id: "c".into(), keep_alive: 0, clean: true, will: None, user: None, password: None };
    wr.write_all(&hello.encode()).await.ok();
    let tx = match limited("a CONNECT is not reported", s.events.recv()).await? {
        Some(ClientEvent::Connected(_, _, tx)) => tx,
        other => return Err(format!("a CONNECT is reported as {other:?}")),
    };
    let encoded: Vec<Vec<u8>> = v["packets"].as_array().unwrap().iter().map(|x| unhex(x.as_str().unwrap())).collect();
    let stop = v["disconnect"].as_u64().map(|x| x as usize);
    let want: Vec<u8> = encoded.iter().take(stop.unwrap_or(encoded.len())).flatten().copied().collect();
    let late = v["late"] == true;
    let reader = tokio::spawn(async move {
        let mut got = vec![];
        if late {
            tokio::time::sleep(Duration::from_millis(30)).await;
        }
        rd.read_to_end(&mut got).await.ok();
        got
    });
    for (i, b) in encoded.iter().enumerate() {
        if stop == Some(i) {
            tx.send(ServerEvent::Disconnect).await.ok();
        }
        tx.send(ServerEvent::ControlPacket(crate::transport::server_packet(b).control())).await.ok();
        if !v["burst"].as_bool().unwrap() {
            tokio::task::yield_now().await;
            tokio::task::yield_now().await;
        }
    }
    if stop == Some(encoded.len()) {
        tx.send(ServerEvent::Disconnect).await.ok();
    }
    let got = if stop.is_some() {
        // closed by the broker, whatever the client does
        limited("the connection is not closed after a disconnect event", reader).await?
    } else {
        wr.shutdown().await.ok();
        limited("the loss is not reported", s.events.recv()).await?;
        drop(tx);
        limited("the connection is not closed although its queue is", reader).await?
    }
    .unwrap();
    if got != want {
        let n = got.len().min(want.len());
        let i = (0..n).find(|i| got[*i] != want[*i]).unwrap_or(n);
        return Err(format!("the client received {} bytes, expected {}; first difference at byte {i}: ..{} instead of ..{}",
            got.len(), want.len(), hex(&got[i..got.len().min(i + 30)]), hex(&want[i..want.len().min(i + 30)])));
    }
    drop(wr);
    finish(s).await;
    Ok(())
}
