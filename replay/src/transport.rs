//! Reading and writing over real sockets: C01 - C07.

use crate::rng::Rng;
use crate::wire::{self, P};
use crate::{hex, unhex};
use ratelmq::mqtt::transport::mqtt_bytes_stream::{MqttBytesReadStream, MqttBytesWriteStream};
use ratelmq::mqtt::transport::packet_decoder::read_packet;
use ratelmq::mqtt::transport::packet_encoder::write_packet;
use serde_json::{json, Value};
use std::time::Duration;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::{TcpListener, TcpSocket, TcpStream};

pub async fn pair(small: bool) -> (TcpStream, TcpStream) {
    let listener = if small {
        let s = TcpSocket::new_v4().unwrap();
        s.set_recv_buffer_size(2048).ok();
        s.bind("127.0.0.1:0".parse().unwrap()).unwrap();
        s.listen(4).unwrap()
    } else {
        TcpListener::bind("127.0.0.1:0").await.unwrap()
    };
    let addr = listener.local_addr().unwrap();
    let socket = TcpSocket::new_v4().unwrap();
    if small {
        socket.set_send_buffer_size(2048).ok();
    }
    let connect = socket.connect(addr);
    let (a, b) = tokio::join!(connect, listener.accept());
    let a = match a {
        Ok(a) => a,
        Err(e) => crate::harness_failure(&format!("loopback connection: {e}")),
    };
    a.set_nodelay(true).ok();
    let b = b.unwrap().0;
    b.set_nodelay(true).ok();
    (a, b)
}

const LIMIT: Duration = Duration::from_secs(8);

async fn limited<T>(what: &str, f: impl std::future::Future<Output = T>) -> Result<T, String> {
    tokio::time::timeout(LIMIT, f).await.map_err(|_| format!("{what} does not return"))
}

/// Sends the bytes in the given pieces, letting the other side run in between.
fn feed(mut s: TcpStream, bytes: Vec<u8>, pieces: Vec<usize>, keep_open: tokio::sync::oneshot::Receiver<()>) -> tokio::task::JoinHandle<()> {
    // dropped without lingering, so that thousands of cases do not use up the ports
    #[allow(deprecated)]
    s.set_linger(Some(Duration::from_secs(0))).ok();
    tokio::spawn(async move {
        let mut at = 0;
        for p in pieces {
            let end = (at + p).min(bytes.len());
            if s.write_all(&bytes[at..end]).await.is_err() {
                return;
            }
            at = end;
            for _ in 0..4 {
                tokio::task::yield_now().await;
            }
        }
        if s.write_all(&bytes[at..]).await.is_err() {
            return;
        }
        keep_open.await.ok();
        s.shutdown().await.ok();
        // stay until the other side is done, an early drop would reset the connection
        let mut b = [0u8; 1];
        s.read(&mut b).await.ok();
    })
}

fn pieces(r: &mut Rng, n: usize) -> Vec<usize> {
    match r.below(4) {
        0 => vec![],
        1 if n < 200 => vec![1; n],
        _ => {
            let k = r.below(5);
            (0..k).map(|_| if r.chance(60) { r.below(8) } else { r.below(n + 1) }).collect()
        }
    }
}

fn buffer(r: &mut Rng) -> usize {
    *r.pick(&[0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 31, 64, 100, 1024, 4096])
}

fn sizes(v: &Value) -> Vec<usize> {
    v.as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap() as usize).collect()).unwrap_or_default()
}

// ------------------------------------------------------------------- reading packets (C01 C02 C03)

/// Packets followed by bytes that are no packet, or no bytes at all.
pub fn gen_read(prop: &str, r: &mut Rng) -> Value {
    let mut bytes = vec![];
    match prop {
        "C01" => {
            for _ in 0..r.range(1, 4) {
                let p = wire::client_packet(r, true);
                let width = if r.chance(15) { r.range(1, 4) } else { 1 };
                bytes.extend(p.encode_width(width));
            }
            if r.chance(30) {
                let n = r.below(12);
                bytes.extend(r.bytes(n));
            }
        }
        "C02" => {
            if r.chance(25) {
                bytes.extend(wire::client_packet(r, false).encode());
            }
            bytes.extend(wire::mutated(r));
            if r.chance(40) {
                let n = r.below(300);
                bytes.extend(r.bytes(n));
            }
        }
        _ => match r.below(4) {
            0 => {
                let n = r.below(60);
                bytes = r.bytes(n);
                if let Some(b) = bytes.first_mut() {
                    *b = (*b & 0x0f) | (r.below(16) as u8) << 4;
                }
            }
            1 => {
                for _ in 0..r.range(1, 3) {
                    bytes.extend(wire::mutated(r));
                }
                let n = r.below(40);
                bytes.extend(r.bytes(n));
            }
            2 => {
                // plausible header, arbitrary small fields
                let first = *r.pick(&[0x10u8, 0x30, 0x32, 0x34, 0x36, 0x3d, 0x40, 0x50, 0x62, 0x70, 0x82, 0xa2, 0xc0, 0xe0, 0x20, 0x90, 0xb0, 0xd0, 0, 0xf0]);
                let n = r.below(20);
                let len = if r.chance(70) { n } else { r.below(300) };
                bytes = [vec![first], wire::remaining_length(len, 1), (0..n).map(|_| if r.chance(60) { r.below(4) as u8 } else { r.next() as u8 }).collect()].concat();
            }
            _ => {
                bytes = wire::client_packet(r, false).encode();
                let n = r.below(bytes.len() + 1);
                bytes.truncate(n);
            }
        },
    }
    let p = pieces(r, bytes.len());
    json!({"kind": "read", "bytes": hex(&bytes), "buffer": buffer(r), "pieces": p})
}

pub async fn run_read(v: &Value) -> Result<(), String> {
    let bytes = unhex(v["bytes"].as_str().unwrap());
    let (a, b) = pair(false).await;
    let (eof, wait) = tokio::sync::oneshot::channel();
    let feeder = feed(a, bytes.clone(), sizes(&v["pieces"]), wait);
    let (rd, _wr) = b.into_split();
    let mut s = MqttBytesReadStream::new(v["buffer"].as_u64().unwrap() as usize, rd);

    let mut at = 0;
    let mut n = 0;
    // everything well-formed must come out while the connection is still open
    while let Some((p, size)) = wire::decode(&bytes[at..]) {
        n += 1;
        match limited("reading a completely received packet", read_packet(&mut s)).await? {
            Ok(got) => {
                let want = p.control();
                if got != want {
                    return Err(format!("packet {n} read as {got:?}, the bytes say {want:?}").chars().take(2000).collect());
                }
            }
            Err(e) => return Err(format!("packet {n}, well-formed ({p:?}), refused: {e}").chars().take(2000).collect()),
        }
        at += size;
        if n > 50 {
            break;
        }
    }
    eof.send(()).ok();
    let rest = &bytes[at..];
    if v["drain"].as_bool().unwrap_or(false) || n > 50 {
        // C01: the next read starts at the first byte after the packet
        for (i, want) in rest.iter().enumerate() {
            match limited("reading a received byte", s.get_u8()).await? {
                Ok(got) if got == *want => {}
                other => return Err(format!("byte {i} after the packets read as {other:?}, expected {want}")),
            }
        }
        if limited("reading at the end of the stream", s.get_u8()).await?.is_ok() {
            return Err("a byte is read after the end of the stream".to_string());
        }
    } else if let Ok(p) = limited("reading malformed input that has ended", read_packet(&mut s)).await? {
        return Err(format!("malformed bytes {} read as {p:?}", hex(&rest[..rest.len().min(60)])).chars().take(2000).collect());
    }
    drop(s);
    drop(_wr);
    feeder.abort();
    Ok(())
}

// ------------------------------------------------------------------- stream operations (C04)

pub fn gen_stream(r: &mut Rng) -> Value {
    if r.chance(40) {
        let mut v = gen_read(if r.chance(60) { "C01" } else { "C02" }, r);
        v["drain"] = json!(r.chance(30));
        return v;
    }
    let mut bytes = vec![];
    let mut ops = vec![];
    for _ in 0..r.range(1, 8) {
        match r.below(4) {
            0 => {
                ops.push(json!(["u8"]));
                bytes.push(r.next() as u8);
            }
            1 => {
                ops.push(json!(["u16"]));
                bytes.extend(r.bytes(2));
            }
            2 => {
                let n = *r.pick(&[0, 1, 2, 3, 5, 8, 13, 64, 65, 100, 1023, 1024, 1025, 4095, 4096, 4097, 9000]);
                ops.push(json!(["bytes", n]));
                bytes.extend(r.bytes(n));
            }
            _ => {
                ops.push(json!(["string"]));
                let max = if r.chance(5) { 65535 } else { 80 };
                let mut t = wire::text(r, max).into_bytes();
                if r.chance(10) && !t.is_empty() {
                    let i = r.below(t.len());
                    t[i] = *r.pick(&[0xff, 0x80, 0xc0]);
                }
                bytes.push((t.len() >> 8) as u8);
                bytes.push(t.len() as u8);
                bytes.extend(t);
            }
        }
    }
    if r.chance(25) {
        let n = r.below(bytes.len() + 1);
        bytes.truncate(n);
    }
    let p = pieces(r, bytes.len());
    json!({"kind": "stream", "bytes": hex(&bytes), "buffer": buffer(r), "pieces": p, "ops": ops})
}

pub async fn run_stream_or_read(v: &Value) -> Result<(), String> {
    if v["kind"] == "read" {
        run_read(v).await
    } else {
        run_stream(v).await
    }
}

async fn run_stream(v: &Value) -> Result<(), String> {
    let bytes = unhex(v["bytes"].as_str().unwrap());
    let (a, b) = pair(false).await;
    let (eof, wait) = tokio::sync::oneshot::channel();
    eof.send(()).ok();
    let feeder = feed(a, bytes.clone(), sizes(&v["pieces"]), wait);
    let (rd, _wr) = b.into_split();
    let mut s = MqttBytesReadStream::new(v["buffer"].as_u64().unwrap() as usize, rd);
    let mut rest = &bytes[..];
    let take = |rest: &mut &[u8], n: usize| -> Option<Vec<u8>> {
        if rest.len() < n {
            return None;
        }
        let (x, y) = rest.split_at(n);
        *rest = y;
        Some(x.to_vec())
    };
    for op in v["ops"].as_array().unwrap() {
        let (got, want) = match op[0].as_str().unwrap() {
            "u8" => (
                limited("get_u8", s.get_u8()).await?.ok().map(|x| vec![x]),
                take(&mut rest, 1),
            ),
            "u16" => (
                limited("get_u16", s.get_u16()).await?.ok().map(|x| vec![(x >> 8) as u8, x as u8]),
                take(&mut rest, 2),
            ),
            "bytes" => {
                let n = op[1].as_u64().unwrap() as usize;
                (limited("get_bytes", s.get_bytes(n)).await?.ok().map(|x| x.to_vec()), take(&mut rest, n))
            }
            _ => (
                limited("get_string", s.get_string()).await?.ok().map(|x| x.into_bytes()),
                take(&mut rest, 2).and_then(|h| take(&mut rest, (h[0] as usize) << 8 | h[1] as usize)).filter(|t| std::str::from_utf8(t).is_ok()),
            ),
        };
        if got != want {
            return Err(format!("{op} returned {:?}, the stream holds {:?}", got.map(|x| hex(&x)), want.map(|x| hex(&x))).chars().take(1500).collect());
        }
        if want.is_none() {
            break;
        }
    }
    drop(s);
    drop(_wr);
    feeder.abort();
    Ok(())
}

// ------------------------------------------------------------------- writing (C05 C06 C07)

fn to_json(p: &P) -> Value {
    // a packet is written down as its encoding; server packets are decoded by `server_packet`
    json!(hex(&p.encode()))
}

/// Decodes what `to_json` wrote, including packets only a server sends.
pub fn server_packet(b: &[u8]) -> P {
    if let Some((p, _)) = wire::decode(b) {
        return p;
    }
    let skip = 1 + b[1..].iter().position(|x| *x < 128).unwrap() + 1;
    let body = &b[skip..];
    match b[0] {
        0x20 => P::ConnAck { session_present: body[0] == 1, code: body[1] },
        0x90 => P::SubAck { id: (body[0] as u16) << 8 | body[1] as u16, codes: body[2..].to_vec() },
        0xb0 => P::UnsubAck((body[0] as u16) << 8 | body[1] as u16),
        0xd0 => P::PingResp,
        _ => panic!("not a packet of this harness"),
    }
}

pub fn gen_write(prop: &str, r: &mut Rng) -> Value {
    let n = if prop == "C05" { r.range(1, 2) } else { r.range(1, 6) };
    let ps: Vec<Value> = (0..n)
        .map(|_| {
            let p = if prop == "C07" {
                loop {
                    let p = wire::client_packet(r, true);
                    if matches!(p, P::Publish { .. } | P::PubAck(_) | P::PubRec(_) | P::PubRel(_) | P::PubComp(_)) {
                        break p;
                    }
                }
            } else if prop == "C06" && r.chance(4) {
                let n = r.range(60_000, 400_000);
                P::Publish { dup: false, id: None, msg: wire::Msg { topic: "big".into(), payload: r.bytes(n), qos: 0, retain: false } }
            } else {
                wire::server_packet(r, true)
            };
            to_json(&p)
        })
        .collect();
    json!({
        "kind": if prop == "C07" { "round" } else { "write" },
        "packets": ps,
        "buffer": buffer(r),
        "read_buffer": buffer(r),
        "small": r.chance(40),
        "reads": (0..r.below(8)).map(|_| if r.chance(50) { r.range(1, 9) } else { r.range(1, 5000) }).collect::<Vec<_>>(),
        "cut": if prop == "C06" && r.chance(8) { json!(r.below(3000)) } else { Value::Null },
    })
}

pub async fn run_write(v: &Value) -> Result<(), String> {
    let packets: Vec<P> = v["packets"].as_array().unwrap().iter().map(|x| server_packet(&unhex(x.as_str().unwrap()))).collect();
    let want: Vec<u8> = packets.iter().flat_map(|p| p.encode()).collect();
    let (a, mut b) = pair(v["small"].as_bool().unwrap()).await;
    let (_rd, wr) = a.into_split();
    let cut = v["cut"].as_u64().map(|x| x as usize);
    let reads = sizes(&v["reads"]);
    let first = packets.first().map(|p| p.encode().len()).unwrap_or(0);
    let (progress, mut seen) = tokio::sync::watch::channel(0usize);
    let reader = tokio::spawn(async move {
        let mut got = vec![];
        let mut reads = reads.into_iter();
        loop {
            let n = reads.next().unwrap_or(65536);
            let n = cut.map(|c| n.min(c.saturating_sub(got.len()).max(1))).unwrap_or(n);
            let mut buf = vec![0u8; n];
            match b.read(&mut buf).await {
                Ok(0) | Err(_) => return got,
                Ok(k) => got.extend_from_slice(&buf[..k]),
            }
            progress.send(got.len()).ok();
            if cut.map(|c| got.len() >= c).unwrap_or(false) {
                return got;
            }
            tokio::task::yield_now().await;
        }
    });
    let mut w = MqttBytesWriteStream::new(v["buffer"].as_u64().unwrap() as usize, wr);
    let mut failed = false;
    for (i, p) in packets.iter().enumerate() {
        let r = limited("writing a packet", write_packet(&mut w, p.control())).await?;
        if let Err(e) = r {
            failed = true;
            if cut.is_none() {
                return Err(format!("writing packet {} failed: {e}", i + 1));
            }
            break;
        }
        if i == 0 && cut.is_none() {
            // complete without anything more being written
            let all = tokio::time::timeout(LIMIT, async {
                while *seen.borrow() < first {
                    if seen.changed().await.is_err() {
                        break;
                    }
                }
            })
            .await;
            if all.is_err() {
                return Err(format!("packet 1 was written, but only {} of its {} bytes reach the peer", *seen.borrow(), first));
            }
        }
    }
    drop(w);
    drop(_rd);
    let got = limited("the peer", reader).await?.unwrap();
    let ok = if cut.is_some() { failed || got.len() <= want.len() } else { got.len() == want.len() };
    let n = got.len().min(want.len());
    if !ok || got.len() > want.len() || got[..n] != want[..n] {
        let i = (0..n).find(|i| got[*i] != want[*i]).unwrap_or(n);
        let lo = i.saturating_sub(4);
        return Err(format!(
            "the peer received {} bytes, expected {}; first difference at byte {i}: ..{} instead of ..{}",
            got.len(),
            want.len(),
            hex(&got[lo..got.len().min(i + 24)]),
            hex(&want[lo..want.len().min(i + 24)])
        ));
    }
    Ok(())
}

/// C07: written by the encoder, read back by the decoder.
pub async fn run_round(v: &Value) -> Result<(), String> {
    let packets: Vec<P> = v["packets"].as_array().unwrap().iter().map(|x| server_packet(&unhex(x.as_str().unwrap()))).collect();
    let (a, b) = pair(false).await;
    let (_rd, wr) = a.into_split();
    let controls: Vec<_> = packets.iter().map(|p| p.control()).collect();
    let size = v["buffer"].as_u64().unwrap() as usize;
    let writer = tokio::spawn(async move {
        let mut w = MqttBytesWriteStream::new(size, wr);
        for c in controls {
            if let Err(e) = write_packet(&mut w, c).await {
                return Err(format!("{e}"));
            }
        }
        for n in [7u8, 8, 9] {
            // the other bytes
            w.put_u8(n).await.ok();
        }
        w.finish_packet().await.ok();
        Ok(w)
    });
    let (rd, _wr) = b.into_split();
    let mut s = MqttBytesReadStream::new(v["read_buffer"].as_u64().unwrap() as usize, rd);
    for (i, p) in packets.iter().enumerate() {
        match limited("reading back", read_packet(&mut s)).await? {
            Ok(got) if got == p.control() => {}
            other => return Err(format!("packet {} {:?} is read back as {:?}", i + 1, p, other).chars().take(2000).collect()),
        }
    }
    for n in [7u8, 8, 9] {
        match limited("reading the other bytes", s.get_u8()).await? {
            Ok(got) if got == n => {}
            other => return Err(format!("after the packets {other:?} is read instead of {n}")),
        }
    }
    match limited("the writer", writer).await? {
        Ok(r) => r.map(|_| ()),
        Err(e) => Err(format!("the writer: {e}")),
    }
}
