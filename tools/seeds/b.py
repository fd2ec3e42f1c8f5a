from importlib.util import spec_from_file_location as _s, module_from_spec as _m
import os as _os
_p = _s('seeds_a', _os.path.join(_os.path.dirname(__file__), 'a.py')); _a = _m(_p); _p.loader.exec_module(_a)
DEC, ENC, BYT, SUB, SVC, HND, SES, ENT, LIS, AUT, SET, PWD, RS_HEAD = (getattr(_a, n) for n in 'DEC ENC BYT SUB SVC HND SES ENT LIS AUT SET PWD RS_HEAD'.split())

MSG_HEAD = RS_HEAD + '''
use ratelmq::broker::session::Session; use ratelmq::mqtt::subscription::Subscription;
#[allow(unused)] async fn ask<T>(m: &MessagingTx, f: impl FnOnce(oneshot::Sender<T>) -> MessagingOperation) -> T {
    let (tx, rx) = oneshot::channel(); m.send(f(tx)).await.unwrap();
    tokio::time::timeout(Duration::from_secs(3), rx).await.expect("no answer in time").expect("no answer")
}
#[allow(unused)] fn session(id: &str) -> (Session, mpsc::Sender<ServerEvent>, mpsc::Receiver<ServerEvent>) {
    let (s, r) = mpsc::channel(4);
    (Session::new(id.to_string(), "127.0.0.1".parse().unwrap(), false, s.clone(), 60, chrono::Utc::now()), s, r)
}
#[allow(unused)] async fn sub(m: &MessagingTx, id: &str, f: &str) {
    ask(m, |resp| MessagingOperation::Subscribe { client_id: id.to_string(), subscription: Subscription::new(f.to_string(), QoS::AtMostOnce), resp }).await;
}
#[allow(unused)] fn service() -> MessagingTx { let (m, r) = mpsc::channel(32); tokio::spawn(MessagingService::new().run(r)); m }
'''
LIS_HEAD = RS_HEAD + '''
use tokio::io::{AsyncReadExt, AsyncWriteExt};
#[allow(unused)] fn con(id: &str) -> Vec<u8> { let mut v = vec![0x10, 12 + id.len() as u8, 0, 4, b'M', b'Q', b'T', b'T', 4, 2, 0, 60, 0, id.len() as u8]; v.extend(id.as_bytes()); v }
#[allow(unused)] async fn listener() -> (mpsc::Receiver<ClientEvent>, tokio::net::TcpStream, broadcast::Sender<()>) {
    let (tx, rx) = mpsc::channel(32); let (b, br) = broadcast::channel(2);
    let port = std::net::TcpListener::bind("127.0.0.1:0").unwrap().local_addr().unwrap().port();
    let l = ratelmq::mqtt::listener::MqttListener::bind(&format!("127.0.0.1:{}", port), tx, br).await.unwrap();
    tokio::spawn(l.start_accepting());
    (rx, tokio::net::TcpStream::connect(("127.0.0.1", port)).await.unwrap(), b)
}
'''
PAIR = '''
use ratelmq::mqtt::packets::*; use ratelmq::mqtt::transport::{mqtt_bytes_stream::*, packet_decoder::read_packet, packet_encoder::write_packet};
use tokio::io::{AsyncReadExt, AsyncWriteExt}; use std::time::Duration;
#[allow(unused)] async fn pair() -> (tokio::net::TcpStream, tokio::net::TcpStream) {
    let l = tokio::net::TcpListener::bind("127.0.0.1:0").await.unwrap();
    let a = tokio::net::TcpStream::connect(l.local_addr().unwrap()).await.unwrap();
    (a, l.accept().await.unwrap().0)
}
#[allow(unused)] async fn read_of(bytes: &[u8]) -> Result<ControlPacket, tokio::io::Error> {
    let (mut a, b) = pair().await;
    a.write_all(bytes).await.unwrap(); a.shutdown().await.unwrap();
    let (r, _w) = b.into_split(); let mut s = MqttBytesReadStream::new(4096, r);
    tokio::time::timeout(Duration::from_secs(5), read_packet(&mut s)).await.expect("reading does not end")
}
'''

SEEDS = {
 's27-error-context': dict(property='C03', needs='text that is not UTF-8, with fewer than four bytes after its valid part', breaks='reading it panics instead of returning an error',
  edits=[(BYT, '''                    "Invalid UTF8 String: error at position {}",
                    e.valid_up_to() + 1
''', '''                    "Invalid UTF8 String: error at position {}, near {:02x?}",
                    e.valid_up_to() + 1,
                    &str_buf[e.valid_up_to()..e.valid_up_to() + 4]
''', 1)],
  rs=PAIR + '''
#[tokio::main] async fn main() {
    for tail in [&b"\\xff12345"[..], b"\\xff123", b"\\xff12", b"\\xff", b"\\xc3"] {
        let mut b = vec![0x30, (tail.len() + 2 + 3) as u8, 0, (tail.len() + 3) as u8, b'a', b'/', b'b']; b.extend(tail);
        assert!(read_of(&b).await.is_err(), "accepted");
    }
}
'''),
 's28-half-packet': dict(property='C03', needs='a connection that ends in the middle of a packet', breaks='the reader spins for ever at the end of the stream',
  edits=[(BYT, 'let connection_closed = read_bytes_num == 0; // end of file', 'let connection_closed = read_bytes_num == 0 && self.read_buffer.is_empty(); // end of file', 1)],
  rs=PAIR + '''
#[tokio::main] async fn main() {
    let p = [0x82, 8, 0, 1, 0, 3, b'a', b'/', b'b', 0];
    assert!(read_of(&p).await.is_ok());
    for n in 0..p.len() { assert!(read_of(&p[..n]).await.is_err(), "cut off at {}", n); }
}
'''),
 's29-reserved-qos-bits': dict(property='C02', needs='a SUBSCRIBE whose requested QoS byte has reserved bits set', breaks='the packet is accepted',
  edits=[(DEC, 'let qos = buffer.get_u8().await?;', 'let qos = buffer.get_u8().await? & 0b0000_0011; // the QoS is in the lower two bits')],
  rs=PAIR + '''
#[tokio::main] async fn main() {
    for q in 0..=255u8 {
        let r = read_of(&[0x82, 8, 0, 1, 0, 3, b'a', b'/', b'b', q]).await;
        assert_eq!(r.is_ok(), q <= 2, "QoS byte {}: {:?}", q, r);
    }
}
'''),
 's30-extra-flags': dict(property='C02', needs='a packet whose fixed-header flags are set beyond the required ones', breaks='the packet is accepted',
  edits=[(DEC, '    if actual == expected {\n        Ok(())\n    } else {\n        Err(tokio::io::Error::new(', '    if actual & expected == expected && actual >> 4 == expected >> 4 {\n        Ok(())\n    } else {\n        Err(tokio::io::Error::new(')],
  rs=PAIR + '''
#[tokio::main] async fn main() {
    for f in 0..16u8 { for t in [4u8, 5, 6, 7] {
        let r = read_of(&[t << 4 | f, 2, 0, 1]).await;
        assert_eq!(r.is_ok(), f == if t == 6 { 2 } else { 0 }, "type {} flags {}: {:?}", t, f, r);
    } }
}
'''),
 's31-partial-write': dict(property='C06', needs='a socket that takes only a part of what it is offered', breaks='the bytes it did not take are lost',
  edits=[(BYT, 'self.write_stream.write_buf(&mut self.write_buffer).await?;', 'self.write_stream.write(&self.write_buffer).await?;\n            self.write_buffer.clear();')],
  rs=PAIR + '''
#[tokio::main] async fn main() {
    let (mut a, b) = pair().await; let (_r, w) = b.into_split();
    let n = 40_000_000usize; let body: Vec<u8> = (0..n).map(|i| (i % 251) as u8).collect();
    let sent = body.clone();
    let t = tokio::spawn(async move { let mut s = MqttBytesWriteStream::new(16 << 20, w); for c in sent.chunks(9 << 20) { if s.put_bytes(c.into()).await.is_err() { return false } } s.finish_packet().await.is_ok() });
    tokio::time::sleep(Duration::from_millis(300)).await;
    let mut got = Vec::new(); tokio::time::timeout(Duration::from_secs(30), a.read_to_end(&mut got)).await.unwrap().unwrap();
    assert!(t.await.unwrap()); assert_eq!(got.len(), n, "bytes lost"); assert!(got == body);
}
'''),
 's32-count-open': dict(property='C11', needs='a session whose connection does not take packets any more', breaks='the session is registered, but not counted',
  edits=[(SES, 'self.sessions.len()', 'self.sessions.values().filter(|s| !s.sender().is_closed()).count()')],
  rs=MSG_HEAD + '''
#[tokio::main] async fn main() {
    let m = service(); let (s, _tx, r) = session("x"); ask(&m, |resp| MessagingOperation::SessionInsert { session: s, resp }).await;
    drop(r);
    let n = ask(&m, |resp| MessagingOperation::SessionCount { resp }).await;
    let e = ask(&m, |resp| MessagingOperation::SessionExists { client_id: "x".to_string(), resp }).await;
    assert_eq!((n, e), (1, true));
}
'''),
 's33-orphan': dict(property='C13', needs='a matching subscription without a session before one with a session', breaks='the recipients after it are left out',
  edits=[(SVC, '''                    None => {
                        warn!(
                            "Tried to send message, but session for client {:?} not found",
                            c
                        );
                    }
''', '''                    None => {
                        warn!(
                            "Tried to send message, but session for client {:?} not found",
                            c
                        );
                        return senders;
                    }
''', 1)],
  rs=MSG_HEAD + '''
#[tokio::main] async fn main() {
    let m = service(); let (s, _tx, _r) = session("x"); ask(&m, |resp| MessagingOperation::SessionInsert { session: s, resp }).await;
    sub(&m, "gone", "t").await; sub(&m, "x", "t").await;
    let v = ask(&m, |resp| MessagingOperation::SendersToPublish { topic: "t".to_string(), resp }).await;
    assert_eq!(v.len(), 1);
}
'''),
 's34-unsubscribe-two': dict(property='C09', needs='an UNSUBSCRIBE with more than one filter', breaks='the second filter is looked up below the first, and stays subscribed',
  edits=[(SUB, '''    pub fn unsubscribe(&mut self, client_id: &ClientId, topics: &Vec<String>) {
        for topic in topics {''', '''    pub fn unsubscribe(&mut self, client_id: &ClientId, topics: &Vec<String>) {
        let mut node = &mut self.root;
        for topic in topics {'''),
         (SUB, '''            // }
            let mut node = &mut self.root;
''', '''            // }
''')],
  py='''
with Broker() as b:
    c = Client(b, 'x')
    c.sub('a/b', 'c')
    c.unsub('a/b', 'c')
    c.pub('c', b'1')
    check(c.ping(), 'a message for a removed subscription')
'''),
 's35-sixteen-levels': dict(property='C08', needs='a topic with more than 16 levels', breaks='the levels after the 16th are taken for one',
  edits=[(SUB, '        let segments: Vec<&str> = topic.split("/").collect();\n        for segment in segments {\n            // nodes', '        let segments: Vec<&str> = topic.splitn(16, "/").collect();\n        for segment in segments {\n            // nodes')],
  py='''
with Broker() as b:
    c = Client(b, 'x')
    for n in (1, 2, 15, 16, 17, 40):
        t = '/'.join('l%d' % i for i in range(n))
        c.sub(t)
        c.pub(t, b'1')
        m = c.message(2)
        check(m and m[1:] == (t.encode(), b'1'), n)
'''),
 's36-busy-recipient': dict(property='C14', needs='a recipient whose outgoing queue is full at that moment', breaks='it does not get the message',
  edits=[(HND, 'for sender in senders_to_publish {', 'for sender in senders_to_publish.into_iter().filter(|s| s.capacity() > 0) {')],
  rs=RS_HEAD + '''
#[tokio::main] async fn main() {
    let (tx, rx) = mpsc::channel(32); let (mtx, mut mrx) = mpsc::channel(32);
    let (h, _b) = handler(rx, mtx); tokio::spawn(h.run());
    let (s, mut r) = mpsc::channel::<ServerEvent>(2); let a = s.clone();
    tokio::spawn(async move { while let Some(op) = mrx.recv().await { match op {
        MessagingOperation::SessionOwned { resp, .. } => { let _ = resp.send(true); }
        MessagingOperation::SendersToPublish { resp, .. } => { let _ = resp.send(vec![a.clone()]); }
        _ => {} } } });
    for _ in 0..6 {
        let mut p = PublishPacket::default(); p.message.topic = "t".to_string();
        tx.send(ClientEvent::ControlPacket("x".to_string(), ControlPacket::Publish(p), s.clone())).await.unwrap();
    }
    tokio::time::sleep(Duration::from_millis(200)).await;
    for i in 0..6 { assert!(get(&mut r).await.is_some(), "only {} of 6 messages", i); }
}
'''),
 's37-plain-text': dict(property='C18', needs='an entry whose text after the colon is not a well-formed hash', breaks='that text is accepted as the password',
  edits=[(AUT, 'let parsed_hash = PasswordHash::new(password_hash).map_err(|e| EncryptionError(e))?;', '''let parsed_hash = match PasswordHash::new(password_hash) {
            Ok(hash) => hash,
            Err(_) if password_hash == password => return Ok(()), // not hashed yet
            Err(e) => return Err(EncryptionError(e)),
        };''')],
  py='''
with Broker(passwd_text='u:secret\\n') as b:
    check(Client(b, 'y', user='u', pw='secret').ack[1] == b'\\0\\5', 'accepted without a hash')
'''),
 's38-ping-twice': dict(property='C20', needs='two PINGRESP in a row in the queue of a connection', breaks='the second is not written',
  edits=[(LIS, '''                ServerEvent::ControlPacket(packet) => {
                    trace!("Writing''', '''                ServerEvent::ControlPacket(packet) => {
                    let ping = packet == ControlPacket::PingResp;
                    if std::mem::replace(&mut last_was_ping, ping) && ping {
                        continue; // one answer is enough
                    }
                    trace!("Writing'''),
         (LIS, 'while let Some(event) = server_event_rx.recv().await {', 'let mut last_was_ping = false;\n        while let Some(event) = server_event_rx.recv().await {')],
  py='''
with Broker() as b:
    c = Client(b, 'x')
    for i in range(3):
        check(c.ping(), 'ping %d unanswered' % i)
'''),
 's39-second-connect': dict(property='C19', needs='a second CONNECT on a connection, with another client identifier', breaks='the packets after it are reported under the other identifier',
  edits=[(LIS, '''        let client_id;
''', '''        let mut client_id;
'''), (LIS, '''            let event =
                ClientEvent::ControlPacket(client_id.clone(), packet, server_event_tx.clone());
''', '''            if let ControlPacket::Connect(c) = &packet {
                client_id = c.client_id.clone();
            }
            let event =
                ClientEvent::ControlPacket(client_id.clone(), packet, server_event_tx.clone());
''')],
  rs=LIS_HEAD + '''
#[tokio::main] async fn main() {
    let (mut rx, mut c, _b) = listener().await;
    c.write_all(&con("x")).await.unwrap(); c.write_all(&con("y")).await.unwrap(); c.write_all(&[0xc0, 0]).await.unwrap(); c.shutdown().await.unwrap();
    assert!(matches!(get(&mut rx).await, Some(ClientEvent::Connected(..))));
    for _ in 0..2 { match get(&mut rx).await { Some(ClientEvent::ControlPacket(id, ..)) => assert_eq!(id, "x"), x => panic!("{:?}", x) } }
    match get(&mut rx).await { Some(ClientEvent::ConnectionLost(id, ..)) => assert_eq!(id, "x"), x => panic!("{:?}", x) }
}
'''),
 's40-whole-seconds': dict(property='C22', needs='instants whose fractions of a second matter', breaks='a session expires up to a second early',
  edits=[(ENT, '''        let keep_alive_expires_at = self.last_activity + Duration::seconds(leeway_seconds);

        &keep_alive_expires_at <= now''', '''        now.timestamp() - self.last_activity.timestamp() >= leeway_seconds'''),
         (ENT, 'use chrono::{DateTime, Duration, Utc};', 'use chrono::{DateTime, Utc};')],
  rs='''
use ratelmq::broker::session::Session; use tokio::sync::mpsc; use chrono::{Duration, TimeZone, Utc}; use ratelmq::mqtt::events::ServerEvent;
fn main() {
    for ms in [0i64, 300, 999] { for k in [1u16, 2, 60] {
        let (tx, _rx) = mpsc::channel::<ServerEvent>(1); let t = Utc.timestamp(1_600_000_000, 0) + Duration::milliseconds(ms);
        let s = Session::new("c".to_string(), "127.0.0.1".parse().unwrap(), false, tx, k, t);
        let e = Duration::seconds(k as i64 * 3 / 2);
        assert!(!s.is_keep_alive_expired(&(t + e - Duration::milliseconds(1))), "{} s, {} ms: expired too early", k, ms);
        assert!(s.is_keep_alive_expired(&(t + e)), "{} not expired", k);
    } }
}
'''),
 's41-empty-variable': dict(property='C25', needs='an environment variable that is present but empty', breaks='the value of the configuration file is used instead',
  edits=[(SET, '.separator("__"))?;', '.separator("__").ignore_empty(true))?;')],
  py='''
with Broker(env={'RATELMQ_AUTHENTICATION__PASSWORD_FILE': ''}) as b:
    time.sleep(1)
    check(b.p.poll() is not None, 'the broker runs with the password file of the configuration file')
'''),
 's42-any-case': dict(property='C23', needs='two users whose names differ only in case', breaks="setting one user's password replaces the other's entry",
  edits=[(PWD, '.multi_line(true)\n', '.multi_line(true)\n        .case_insensitive(true)\n')],
  py='''
with Broker() as b:
    passwd(b.pw, 'Bob', 'one'); passwd(b.pw, 'bob', 'two')
    t = open(b.pw).read()
    check([l.split(':')[0] for l in t.splitlines()] == ['Bob', 'bob'], t)
'''),
 's43-found-inside': dict(property='C24', needs="a user whose name is the end of another user's name", breaks='the new user is not added, and refused by the broker',
  edits=[(PWD, 'let entry_exists = regexp.is_match(credentials.as_str());', 'let entry_exists = credentials.contains(&format!("{}:", user_name));')],
  py='''
with Broker() as b:
    passwd(b.pw, 'bob', 'one'); passwd(b.pw, 'ob', 'two')
    t = open(b.pw).read()
with Broker(passwd_text=t) as b:
    check(Client(b, 'y', user='ob', pw='two').ack[1] == b'\\0\\0', 'refused')
'''),
 's44-deep-filter': dict(property='C21', needs='a topic filter with tens of thousands of levels', breaks='the stack overflows and the broker process ends',
  edits=[(SUB, '''        let segments: Vec<&str> = subscription.topic().split("/").collect();
        for segment in segments {
            node = node
                .children
                .entry(segment.to_string())
                .or_insert(SubscriptionNode::new());
        }
''', '''        let segments: Vec<&str> = subscription.topic().split("/").collect();
        node = Self::descend(node, &segments);
'''), (SUB, '''    pub fn subscribed_clients(''', '''    fn descend<'a>(node: &'a mut SubscriptionNode, segments: &[&str]) -> &'a mut SubscriptionNode {
        match segments.split_first() {
            Some((first, rest)) => {
                let child = node
                    .children
                    .entry(first.to_string())
                    .or_insert(SubscriptionNode::new());
                Self::descend(child, rest)
            }
            None => node,
        }
    }

    pub fn subscribed_clients(''')],
  py='''
with Broker() as b:
    y = Client(b, 'y')
    c = Client(b, 'x')
    c.send(subscribe(1, '/' * 65000))
    c.recv()
    check(y.ping(), 'the broker is gone')
'''),
 's45-requester-gone': dict(property='C12', needs='a requester that stops waiting before its request is processed', breaks='the request is not applied',
  edits=[(SVC, '''                MessagingOperation::Unsubscribe { client_id, topics, resp } => {
                    self.unsubscribe''', '''                MessagingOperation::Unsubscribe { client_id, topics, resp } => {
                    if resp.is_closed() {
                        continue; // nobody waits for it any more
                    }
                    self.unsubscribe''')],
  rs=MSG_HEAD + '''
#[tokio::main] async fn main() {
    let m = service(); let (s, _tx, _r) = session("x"); ask(&m, |resp| MessagingOperation::SessionInsert { session: s, resp }).await;
    sub(&m, "x", "t").await;
    let (tx, rx) = oneshot::channel(); drop(rx);
    m.send(MessagingOperation::Unsubscribe { client_id: "x".to_string(), topics: vec!["t".to_string()], resp: tx }).await.unwrap();
    let v = ask(&m, |resp| MessagingOperation::SendersToPublish { topic: "t".to_string(), resp }).await;
    assert_eq!(v.len(), 0);
}
'''),
 's46-repeated-filter': dict(property='C15', needs='a SUBSCRIBE that names a filter twice', breaks='SUBACK has fewer return codes than there were filters',
  edits=[(HND, 'for subscription in subscribe.subscriptions {', '''let mut subscriptions = subscribe.subscriptions;
        subscriptions.dedup_by(|a, b| a.topic() == b.topic());
        for subscription in subscriptions {''')],
  py='''
with Broker() as b:
    c = Client(b, 'x')
    c.send(subscribe(5, 'a', 'b', 'b', 'c'))
    r = c.recv()
    check(r == (0x90, b'\\0\\5\\0\\0\\0\\0'), r)
'''),
 's47-persistent-stays': dict(property='C17', needs='a client without a clean session that goes on sending after its DISCONNECT', breaks='its messages are still delivered',
  edits=[(SVC, '''        self.subscriptions.disconnected(client_id);

        self.sessions.delete(client_id)''', '''        if self.sessions.get(client_id).map_or(false, |s| s.is_persistent()) {
            return None; // kept for the next connection
        }
        self.subscriptions.disconnected(client_id);

        self.sessions.delete(client_id)'''), (ENT, '''    pub fn client_id(&self) -> &ClientId {''', '''    pub fn is_persistent(&self) -> bool {
        self.persistent
    }

    pub fn client_id(&self) -> &ClientId {''')],
  py='''
with Broker() as b:
    y, x = Client(b, 'y'), Client(b, 'x', clean=False)
    y.sub('t')
    x.send(DISC)
    x.pub('t', b'late')
    time.sleep(0.5)
    check(y.ping(), 'a message of a disconnected client')
'''),
 's48-clean-anonymous': dict(property='C01', needs='a CONNECT with an empty client identifier and without the clean session flag', breaks='the flag is decoded as set',
  edits=[(DEC, '    let clean_session = connect_flags.contains(ConnectFlags::CLEAN_SESSION);\n', '    let mut clean_session = connect_flags.contains(ConnectFlags::CLEAN_SESSION);\n'),
         (DEC, '    let client_id = buffer.get_string().await?;\n', '    let client_id = buffer.get_string().await?;\n    clean_session |= client_id.is_empty();\n')],
  rs=PAIR + '''
#[tokio::main] async fn main() {
    for (id, f) in [("x", 0u8), ("x", 2), ("", 2), ("", 0)] {
        let mut b = vec![0x10, 12 + id.len() as u8, 0, 4, b'M', b'Q', b'T', b'T', 4, f, 0, 60, 0, id.len() as u8]; b.extend(id.as_bytes());
        match read_of(&b).await { Ok(ControlPacket::Connect(c)) => assert_eq!(c.clean_session, f == 2, "id {:?} flags {}", id, f), x => panic!("{:?}", x) }
    }
}
'''),
 's49-dollar-kept': dict(property='C10', needs="a subscription whose first level starts with '$'", breaks='it outlives the connection, and the next session of that client inherits it',
  edits=[(SUB, '''    pub fn connections_lost(&mut self, client_id: &ClientId) {
        Self::remove_client(&mut self.root, client_id);
    }''', '''    pub fn connections_lost(&mut self, client_id: &ClientId) {
        for (level, node) in self.root.children.iter_mut() {
            if !level.starts_with('$') {
                Self::remove_client(node, client_id);
            }
        }
    }''')],
  py='''
with Broker() as b:
    y, x = Client(b, 'y'), Client(b, 'x')
    x.sub('$a/b', 'c')
    x.close()
    time.sleep(0.3)
    x = Client(b, 'x')
    y.pub('c', b'1'); y.pub('$a/b', b'2')
    check(y.ping() and x.ping(), 'a message for a subscription of an earlier session')
'''),
}
