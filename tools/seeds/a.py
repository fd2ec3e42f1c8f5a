DEC = 'src/mqtt/transport/packet_decoder.rs'
ENC = 'src/mqtt/transport/packet_encoder.rs'
BYT = 'src/mqtt/transport/mqtt_bytes_stream.rs'
SUB = 'src/broker/messaging/subscriptions_repository.rs'
SVC = 'src/broker/messaging/messaging_service.rs'
HND = 'src/broker/client_packet_handler.rs'
SES = 'src/broker/session/session_repository.rs'
ENT = 'src/broker/session/session_entity.rs'
LIS = 'src/mqtt/listener.rs'
AUT = 'src/broker/authentication.rs'
SET = 'src/settings/mod.rs'
PWD = 'ratelmq-passwd/src/main.rs'

RS_HEAD = '''
use ratelmq::mqtt::events::*; use ratelmq::mqtt::packets::*; use ratelmq::broker::messaging::*; use ratelmq::broker::client_packet_handler::ClientPacketHandler;
use ratelmq::settings::*; use tokio::sync::{mpsc, broadcast, oneshot}; use std::time::Duration;
#[allow(unused)] async fn get<T>(r: &mut mpsc::Receiver<T>) -> Option<T> { tokio::time::timeout(Duration::from_secs(3), r.recv()).await.ok().flatten() }
#[allow(unused)] fn conn(id: &str) -> ConnectPacket { let mut c = ConnectPacket::default(); c.client_id = id.to_string(); c }
#[allow(unused)] fn handler(rx: mpsc::Receiver<ClientEvent>, mtx: MessagingTx) -> (ClientPacketHandler, broadcast::Sender<()>) {
    let d = std::env::temp_dir().join(format!("demo-{}", std::process::id())); std::fs::create_dir_all(&d).unwrap();
    let f = d.join("passwd"); std::fs::write(&f, "").unwrap();
    let s = Settings { mqtt: MqttSettings { listeners_tcp: vec![] }, authentication: AuthenticationSettings { password_file: f.to_str().unwrap().to_string() } };
    let (b, br) = broadcast::channel(2);
    let h = ClientPacketHandler::new(rx, br, &s, mtx); std::fs::remove_dir_all(&d).ok(); (h, b)
}
'''

SEEDS = {
 's01-bom': dict(property='C01', needs='a text field that starts with U+FEFF', breaks='the character is cut off and the packet is taken to be longer than it is',
  edits=[(BYT, 'Ok(String::from(str))', "Ok(String::from(str.trim_start_matches('\\u{feff}')))", 1)],
  py='''
with Broker() as b:
    x, y = Client(b, 'x'), Client(b, 'y')
    x.sub('#')
    y.pub('\\ufefftopic', b'payload')
    m = x.message(2)
    check(m and m[1:] == ('\\ufefftopic'.encode(), b'payload'), m)
'''),
 's02-single-read': dict(property='C04', needs='a field whose bytes arrive in more than two pieces', breaks='the reader waits for one read only, and then takes bytes that have not arrived',
  edits=[(BYT, 'while self.read_buffer.len() < bytes {', 'if self.read_buffer.len() < bytes {', 1)],
  py='''
with Broker() as b:
    c = Client(b)
    for x in connect('fragmented-client'):
        try:
            c.send(bytes([x]))
        except OSError as e:
            check(False, e)
        time.sleep(0.02)
    r = c.recv()
    check(r == (0x20, b'\\0\\0'), r)
'''),
 's03-topic-chars': dict(property='C05', needs='a topic with non-ASCII characters', breaks='the remaining length of an outgoing PUBLISH counts characters instead of bytes',
  edits=[(ENC, '(packet.message.topic.len() + 2) as u64', '(packet.message.topic.chars().count() + 2) as u64')],
  py='''
with Broker() as b:
    x, y = Client(b, 'x'), Client(b, 'y')
    x.sub('#')
    y.pub('stra\\u00dfe/\\u20ac', b'12345')
    m = x.message(3)
    check(m and m[2] == b'12345', m)
    check(x.ping(), 'stream out of step')
'''),
 's04-chunk-again': dict(property='C06', needs='a payload larger than the write buffer', breaks='every chunk of a long payload repeats the first one',
  edits=[(BYT, 'self.write_buffer.put(bytes.split_to(bytes_to_write));', 'self.write_buffer.put(bytes.clone().split_to(bytes_to_write));', 1),
         (BYT, 'pub async fn put_bytes(&mut self, mut bytes: BytesMut) -> Result<(), Error> {', 'pub async fn put_bytes(&mut self, bytes: BytesMut) -> Result<(), Error> {', 1)],
  py='''
import random
with Broker() as b:
    x, y = Client(b, 'x'), Client(b, 'y')
    x.sub('t')
    r = random.Random(1)
    p = bytes(r.randrange(256) for _ in range(20000))
    y.pub('t', p)
    m = x.message()
    check(m and m[2] == p, 'payload damaged')
'''),
 's05-length-byte': dict(property='C05', needs='an outgoing packet whose remaining length has a zero digit, 16384 to 16511 bytes', breaks='the continuation bit of the remaining length is missing',
  edits=[(ENC, 'if remaining_length > 0 {', 'if remaining_length % 128 > 0 {')],
  py='''
with Broker() as b:
    x, y = Client(b, 'x'), Client(b, 'y')
    x.sub('t')
    for n in (100, 16384 - 3, 16384, 20000):
        y.pub('t', b'z' * n)
        m = x.message()
        check(m and m[2] == b'z' * n, n)
'''),
 's06-empty-level': dict(property='C08', needs='a topic with an empty level', breaks='empty topic levels are dropped when looking up subscriptions, but not when storing them',
  edits=[(SUB, 'let segments: Vec<&str> = topic.split("/").collect();\n        for segment in segments {\n            // nodes', 'let segments: Vec<&str> = topic.split("/").filter(|s| !s.is_empty()).collect();\n        for segment in segments {\n            // nodes')],
  py='''
with Broker() as b:
    x, y = Client(b, 'x'), Client(b, 'y')
    x.sub('a//b')
    y.pub('a/b', b'1'); y.pub('a//b', b'2')
    m = x.message(2)
    check(m and m[2] == b'2', m)
'''),
 's07-unsubscribe-case': dict(property='C09', needs='two clients whose identifiers differ only in case, subscribed to the same filter', breaks="one client's UNSUBSCRIBE removes the other client's subscription",
  edits=[(SUB, '''                .iter()
                .position(|c| c == client_id)
                .map(|p| node.clients.remove(p));
            // node''', '''                .iter()
                .position(|c| c.eq_ignore_ascii_case(client_id))
                .map(|p| node.clients.remove(p));
            // node''')],
  py='''
with Broker() as b:
    x, y = Client(b, 'Sensor'), Client(b, 'sensor')
    x.sub('t'); y.sub('t'); y.unsub('t')
    y.pub('t', b'm')
    m = x.message(2)
    check(m and m[2] == b'm', 'lost the subscription')
'''),
 's08-delete-trimmed': dict(property='C10', needs='two clients whose identifiers differ in trailing blanks; the one with the blank drops its connection', breaks="a lost connection deletes the session of another client",
  edits=[(SVC, '''        self.subscriptions.connections_lost(client_id);

        self.sessions.delete(client_id)''', '''        self.subscriptions.connections_lost(client_id);

        self.sessions.delete(&client_id.trim().to_string())''')],
  py='''
with Broker() as b:
    x, y = Client(b, 'pump'), Client(b, 'pump ')
    check(x.ping() and y.ping(), 'ping')
    y.close()
    time.sleep(0.5)
    check(x.ping(), 'the other session is gone')
'''),
 's10-no-answer': dict(property='C12', needs='a SUBSCRIBE with an empty topic filter', breaks='the request is dropped without an answer, and the packet handler panics on it',
  edits=[(SVC, '''                    let result = self.subscribe(&client_id, &subscription);
                    let _ = resp.send(result);''', '''                    if subscription.topic().is_empty() {
                        continue;
                    }
                    let result = self.subscribe(&client_id, &subscription);
                    let _ = resp.send(result);''')],
  py='''
with Broker() as b:
    x, y = Client(b, 'x'), Client(b, 'y')
    x.send(subscribe(3, ''))
    time.sleep(0.3)
    check(y.ping(), 'the broker no longer answers')
'''),
 's11-fan-out': dict(property='C13', needs='more than 64 subscriptions matching one topic', breaks='recipients after the 64th are forgotten',
  edits=[(SVC, '''            for c in &client_ids {
                match self.sessions.get(c) {
                    Some(session) => {
                        senders.push''', '''            for c in client_ids.iter().take(64) {
                match self.sessions.get(c) {
                    Some(session) => {
                        senders.push''')],
  py='''
with Broker() as b:
    cs = [Client(b, 'c%d' % i) for i in range(80)]
    for c in cs:
        c.sub('news')
    cs[0].pub('news', b'n')
    for i, c in enumerate(cs):
        check(c.message(2), 'client %d got nothing' % i)
'''),
 's12-closed-recipient': dict(property='C14', needs='a recipient whose queue is closed, resolved before other recipients', breaks='the recipients after one whose connection has gone get nothing',
  edits=[(HND, 'for sender in senders_to_publish {', 'for sender in senders_to_publish.into_iter().take_while(|s| !s.is_closed()) {')],
  rs=RS_HEAD + '''
#[tokio::main] async fn main() {
    let (tx, rx) = mpsc::channel(32); let (mtx, mut mrx) = mpsc::channel(32);
    let (h, _b) = handler(rx, mtx); tokio::spawn(h.run());
    let (s1, r1) = mpsc::channel::<ServerEvent>(4); let (s2, mut r2) = mpsc::channel::<ServerEvent>(4);
    drop(r1);
    let (a, b) = (s1.clone(), s2.clone());
    tokio::spawn(async move { while let Some(op) = mrx.recv().await { match op {
        MessagingOperation::SessionOwned { resp, .. } => { let _ = resp.send(true); }
        MessagingOperation::SendersToPublish { resp, .. } => { let _ = resp.send(vec![a.clone(), b.clone()]); }
        _ => {} } } });
    let mut p = PublishPacket::default(); p.message.topic = "t".to_string();
    tx.send(ClientEvent::ControlPacket("x".to_string(), ControlPacket::Publish(p), s2.clone())).await.unwrap();
    assert!(matches!(get(&mut r2).await, Some(ServerEvent::ControlPacket(ControlPacket::Publish(_)))), "the second recipient got nothing");
}
'''),
 's13-early-unsuback': dict(property='C15', needs='observing the subscriptions when UNSUBACK arrives', breaks='UNSUBACK is sent before the subscription is removed',
  edits=[(HND, '''        self.messaging_tx.send(op).await.unwrap();
        let _ = rx.await.unwrap();

        let unsub_ack = UnSubAckPacket::new(unsubscribe.packet_id);
        sender
            .send(ServerEvent::ControlPacket(UnsubAck(unsub_ack)))
            .await
            .ok(); // the client may be gone already
''', '''        let unsub_ack = UnSubAckPacket::new(unsubscribe.packet_id);
        sender
            .send(ServerEvent::ControlPacket(UnsubAck(unsub_ack)))
            .await
            .ok(); // the client may be gone already

        self.messaging_tx.send(op).await.unwrap();
        let _ = rx.await.unwrap();
''')],
  rs=RS_HEAD + '''
use ratelmq::mqtt::packets::unsubscribe::UnsubscribePacket;
#[tokio::main] async fn main() {
    let (tx, rx) = mpsc::channel(32); let (mtx, mut mrx) = mpsc::channel(32);
    let (h, _b) = handler(rx, mtx); tokio::spawn(h.run());
    let (s, mut r) = mpsc::channel::<ServerEvent>(4);
    tx.send(ClientEvent::ControlPacket("x".to_string(), ControlPacket::Unsubscribe(UnsubscribePacket::new(5, vec!["t".to_string()])), s.clone())).await.unwrap();
    loop { match get(&mut mrx).await {
        Some(MessagingOperation::SessionOwned { resp, .. }) => { let _ = resp.send(true); }
        Some(MessagingOperation::Unsubscribe { resp, .. }) => {
            tokio::time::sleep(Duration::from_millis(200)).await;
            assert!(r.try_recv().is_err(), "acknowledged before it is done");
            let _ = resp.send(()); break }
        x => panic!("{:?}", x) } }
    assert!(matches!(get(&mut r).await, Some(ServerEvent::ControlPacket(ControlPacket::UnsubAck(_)))));
}
'''),
 's14-empty-user': dict(property='C16', needs='a CONNECT whose user name is present but empty', breaks='a connection with an empty user name is accepted without authentication',
  edits=[(HND, 'if let Some(user_name) = packet.user_name {', 'if let Some(user_name) = packet.user_name.filter(|u| !u.is_empty()) {')],
  py='''
with Broker(users=[('u', 'p')]) as b:
    check(Client(b, 'x', user='u', pw='p').ack[1] == b'\\0\\0', 'good credentials')
    check(Client(b, 'y', user='', pw='p').ack[1] == b'\\0\\5', 'empty user name accepted')
'''),
 's15-user-blanks': dict(property='C18', needs='a user name with blanks around it', breaks='a user who is not in the password file is accepted',
  edits=[(AUT, '.get(username)\n', '.get(username.trim())\n')],
  py='''
with Broker(users=[('u', 'p')]) as b:
    check(Client(b, 'x', user='u', pw='p').ack[1] == b'\\0\\0', 'good credentials')
    check(Client(b, 'y', user='u ', pw='p').ack[1] == b'\\0\\5', 'unknown user accepted')
'''),
 's16-first-entry': dict(property='C18', needs='a password file with two entries for one user', breaks='an older entry of a user wins over the last one',
  edits=[(AUT, 'passwords_by_username.insert(username.to_owned(), password.to_owned());', 'passwords_by_username.entry(username.to_owned()).or_insert(password.to_owned());')],
  py='''
import tempfile
d = tempfile.mkdtemp(); f = os.path.join(d, 'p'); t = ''
for p in ('old', 'new'):
    open(f, 'w').close(); passwd(f, 'u', p); t += open(f).read()
shutil.rmtree(d)
with Broker(passwd_text=t) as b:
    check(Client(b, 'x', user='u', pw='new').ack[1] == b'\\0\\0', 'the last entry is refused')
    check(Client(b, 'y', user='u', pw='old').ack[1] == b'\\0\\5', 'a replaced password is accepted')
'''),
 's17-full-queue': dict(property='C19', needs='packets arriving faster than the packet handler takes them, so that the shared queue is full', breaks='packets are dropped when the event queue is full',
  edits=[(LIS, '''                ClientEvent::ControlPacket(client_id.clone(), packet, server_event_tx.clone());
            if let Err(e) = client_event_tx.send(event).await {''', '''                ClientEvent::ControlPacket(client_id.clone(), packet, server_event_tx.clone());
            if let Err(e) = client_event_tx.try_send(event) {''')],
  py='''
import threading
with Broker() as b:
    x, y = Client(b, 'x'), Client(b, 'y')
    x.sub('t')
    n = 3000
    threading.Thread(target=lambda: y.send(b''.join(publish('t', b'%d' % i) for i in range(n))), daemon=True).start()
    for i in range(n):
        m = x.message()
        check(m and m[2] == b'%d' % i, (i, m))
'''),
 's18-write-after-end': dict(property='C20', needs='a packet queued behind a disconnect event', breaks='packets queued after the disconnect event are still written',
  edits=[(LIS, '''                ServerEvent::Disconnect => {
                    break;''', '''                ServerEvent::Disconnect => {
                    while let Ok(ServerEvent::ControlPacket(packet)) = server_event_rx.try_recv() {
                        if let Err(e) = write_packet(&mut write_stream, packet).await {
                            error!("Error while writing packet: {:?}", &e);
                        }
                    }
                    break;''')],
  rs=RS_HEAD + '''
use tokio::io::{AsyncReadExt, AsyncWriteExt};
#[tokio::main] async fn main() {
    let (tx, mut rx) = mpsc::channel(32); let (_b, br) = broadcast::channel(2);
    let port = std::net::TcpListener::bind("127.0.0.1:0").unwrap().local_addr().unwrap().port();
    let l = ratelmq::mqtt::listener::MqttListener::bind(&format!("127.0.0.1:{}", port), tx, br).await.unwrap();
    tokio::spawn(l.start_accepting());
    let mut c = tokio::net::TcpStream::connect(("127.0.0.1", port)).await.unwrap();
    c.write_all(&[0x10, 13, 0, 4, b'M', b'Q', b'T', b'T', 4, 2, 0, 60, 0, 1, b'x']).await.unwrap();
    let s = match get(&mut rx).await { Some(ClientEvent::Connected(_, _, s)) => s, x => panic!("{:?}", x) };
    for _ in 0..3 { s.try_send(ServerEvent::ControlPacket(ControlPacket::PingResp)).unwrap(); }
    s.try_send(ServerEvent::Disconnect).unwrap();
    for _ in 0..20 { let _ = s.try_send(ServerEvent::ControlPacket(ControlPacket::PingResp)); }
    tokio::time::sleep(Duration::from_millis(500)).await;
    drop(s); c.shutdown().await.unwrap(); drop(rx);
    let mut v = Vec::new(); let _ = tokio::time::timeout(Duration::from_secs(3), c.read_to_end(&mut v)).await;
    assert_eq!(v, [0xd0, 0].repeat(3), "written after the disconnect event");
}
'''),
 's19-id-slice': dict(property='C21', needs='a client identifier with a multi-byte character across byte 23', breaks='the packet handler panics, and with it the broker stops serving everybody',
  edits=[(HND, 'debug!("New client {:?} connected", &client_id);', 'let short_id = &client_id[..client_id.len().min(23)];\n        debug!("New client {:?} connected", short_id);')],
  py='''
with Broker() as b:
    y = Client(b, 'y')
    x = Client(b)
    x.send(connect('a' * 22 + '\\u00e9\\u00e9'))
    time.sleep(0.5)
    check(y.ping(), 'the broker no longer answers')
'''),
 's20-keep-alive-u16': dict(property='C22', needs='a keep-alive above 43690 seconds', breaks='one and a half times the keep-alive overflows 16 bits',
  edits=[(ENT, '(self.keep_alive_seconds as f32 * 1.5) as i64', 'self.keep_alive_seconds.wrapping_add(self.keep_alive_seconds / 2) as i64')],
  rs='''
use ratelmq::broker::session::Session; use tokio::sync::mpsc; use chrono::{Duration, Utc}; use ratelmq::mqtt::events::ServerEvent;
fn main() {
    for k in [1u16, 2, 3, 60, 43690, 43691, 50000, 65535] {
        let (tx, _rx) = mpsc::channel::<ServerEvent>(1); let t = Utc::now();
        let s = Session::new("c".to_string(), "127.0.0.1".parse().unwrap(), false, tx, k, t);
        let e = k as i64 * 3 / 2;
        assert!(!s.is_keep_alive_expired(&(t + Duration::seconds(e - 1))), "{} expired too early", k);
        assert!(s.is_keep_alive_expired(&(t + Duration::seconds(e))), "{} not expired", k);
    }
}
'''),
 's21-dollar-user': dict(property='C23', needs="changing the password of a user with '$' in the name", breaks='only the first five dollar signs of the new entry are kept: the hash is damaged',
  edits=[(PWD, '.replace("$", "$$"), // for regexp', '.replacen("$", "$$", 5), // for regexp')],
  py='''
with Broker() as b:
    passwd(b.pw, 'a$b', 'one'); passwd(b.pw, 'z', 'zz')
    passwd(b.pw, 'a$b', 'two')
    t = open(b.pw).read()
    check(t.count('\\n') == 2 and t.startswith('a$b:$argon2id$') and t.splitlines()[0].count('$') == 6, t)
'''),
 's22-trimmed-password': dict(property='C24', needs='a password that ends in a blank', breaks='the tool hashes the password without its trailing blank, so the broker refuses it',
  edits=[(PWD, '.hash_password(password.as_bytes(), &salt)', '.hash_password(password.trim_end().as_bytes(), &salt)')],
  py='''
with Broker(users=[('u', 'secret '), ('v', 'w')]) as b:
    check(Client(b, 'x', user='v', pw='w').ack[1] == b'\\0\\0', 'plain password')
    check(Client(b, 'y', user='u', pw='secret ').ack[1] == b'\\0\\0', 'the password that was set is refused')
'''),
 's23-env-separator': dict(property='C25', needs='an environment variable for a setting whose name contains an underscore', breaks='the variable is ignored',
  edits=[(SET, '.separator("__")', '.separator("_")')],
  py='''
p = free_port()
import mq
with Broker(listeners='127.0.0.1:%d' % p, env={}) as b0:
    pass
b = Broker.__new__(Broker)
port = free_port()
import mq
mq.free_port = lambda: port
with Broker(listeners='127.0.0.1:%d' % free_port(), env={'RATELMQ_MQTT__LISTENERS_TCP': '127.0.0.1:%d' % port}) as b:
    try:
        c = Client(b, 'x')
    except OSError:
        check(False, 'the environment variable is ignored')
    check(c.ack[1] == b'\\0\\0', 'ack')
'''),
 's24-dollar-level': dict(property='C08', needs="a topic with a level that starts with '$' below the first one", breaks="'+' no longer stands for such a level",
  edits=[(SUB, '''                if let Some(plus) = node.children.get("+") {
                    descendant_nodes.push(plus);
                };''', '''                if let Some(plus) = node.children.get("+").filter(|_| !segment.starts_with('$')) {
                    descendant_nodes.push(plus);
                };''')],
  py='''
with Broker() as b:
    x, y = Client(b, 'x'), Client(b, 'y')
    x.sub('price/+')
    y.pub('price/$us', b'1'); y.pub('price/eur', b'2')
    m = x.message(2)
    check(m and m[2] == b'1', m)
'''),
 's25-dup-qos0': dict(property='C07', needs='a PUBLISH with the duplicate flag and QoS 0', breaks='the flag is not written',
  edits=[(ENC, 'if packet.dup {', 'if packet.dup && packet.message.qos > QoS::AtMostOnce {')],
  rs=RS_HEAD + '''
use ratelmq::mqtt::transport::{mqtt_bytes_stream::*, packet_encoder::write_packet, packet_decoder::read_packet};
#[tokio::main] async fn main() {
    let l = tokio::net::TcpListener::bind("127.0.0.1:0").await.unwrap();
    let c = tokio::net::TcpStream::connect(l.local_addr().unwrap()).await.unwrap();
    let (s, _) = l.accept().await.unwrap();
    let (_r, w) = s.into_split(); let (r, _w) = c.into_split();
    let (mut w, mut r) = (MqttBytesWriteStream::new(4096, w), MqttBytesReadStream::new(4096, r));
    for (q, d, n) in [(QoS::AtMostOnce, false, None), (QoS::AtLeastOnce, true, Some(3)), (QoS::AtMostOnce, true, None), (QoS::ExactlyOnce, true, Some(4))] {
        let mut p = PublishPacket::default(); p.message.topic = "t".to_string(); p.message.qos = q; p.dup = d; p.packet_id = n;
        let p = ControlPacket::Publish(p);
        write_packet(&mut w, p.clone()).await.unwrap();
        assert_eq!(read_packet(&mut r).await.unwrap(), p);
    }
}
'''),
 's26-long-length': dict(property='C02', needs='a remaining length of five bytes', breaks='a remaining length longer than four bytes is accepted',
  edits=[(DEC, 'if multiplier > 128 * 128 * 128 {', 'if multiplier > 128 * 128 * 128 * 128 {')],
  py='''
with Broker() as b:
    x = Client(b, 'x')
    check(x.ping(), 'ping')
    x.send(b'\\xc0\\x80\\x80\\x80\\x80\\0')
    r = x.recv(2)
    check(r is None, r)
'''),
}
