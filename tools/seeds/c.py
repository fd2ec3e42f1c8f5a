from importlib.util import spec_from_file_location as _s, module_from_spec as _m
import os as _os
_p = _s('seeds_b', _os.path.join(_os.path.dirname(__file__), 'b.py')); _a = _m(_p); _p.loader.exec_module(_a)
DEC, ENC, BYT, SUB, SVC, HND, SES, ENT, LIS, AUT, SET, PWD, RS_HEAD, MSG_HEAD, LIS_HEAD, PAIR = (getattr(_a, n) for n in 'DEC ENC BYT SUB SVC HND SES ENT LIS AUT SET PWD RS_HEAD MSG_HEAD LIS_HEAD PAIR'.split())
MSGF = 'src/mqtt/message.rs'; SBN = 'src/mqtt/subscription.rs'; PUBF = 'src/mqtt/packets/publish.rs'

SEEDS = {
 's50-clone-retain': dict(property='C14', needs='a payload longer than 64 KiB', breaks='the copies made for the recipients are cut off',
  edits=[(PUBF, '#[derive(Debug, PartialEq, Clone, Default)]\npub struct', '#[derive(Debug, PartialEq, Default)]\npub struct'),
         (PUBF, 'impl PublishPacket {', '''impl Clone for PublishPacket {
    fn clone(&self) -> Self {
        let mut message = self.message.clone();
        if message.payload.len() > u16::MAX as usize {
            message.payload.truncate(u16::MAX as usize);
        }
        PublishPacket { packet_id: self.packet_id, dup: self.dup, message }
    }
}

impl PublishPacket {''')],
  py='''
with Broker() as b:
    x, y = Client(b, 'x'), Client(b, 'y')
    x.sub('t')
    y.pub('t', b'z' * 70000)
    m = x.message(3)
    check(m and len(m[2]) == 70000, m and len(m[2]))
'''),
 's51-open-count': dict(property='C19', needs='more than 200 connections over the life of the broker', breaks='what later connections send is not reported to the broker any more',
  edits=[(LIS, 'pub struct MqttListener {', 'static OPEN: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\n\npub struct MqttListener {'),
         (LIS, '                let client_event_tx = client_event_tx.clone();', '''                if OPEN.fetch_add(1, std::sync::atomic::Ordering::SeqCst) >= 200 {
                    warn!("Too many connections");
                    return;
                }
                let client_event_tx = client_event_tx.clone();''')],
  rs=LIS_HEAD + '''
#[tokio::main] async fn main() {
    let (mut rx, s, _b) = listener().await; let a = s.peer_addr().unwrap(); drop(s);
    for i in 0..300 {
        let mut s = tokio::net::TcpStream::connect(a).await.unwrap(); s.write_all(&con("x")).await.unwrap();
        match get(&mut rx).await { Some(ClientEvent::Connected(c, _, _)) => assert_eq!(c.client_id, "x"), e => panic!("{}: {:?}", i, e) }
        drop(s);
        match get(&mut rx).await { Some(ClientEvent::ConnectionLost(..)) => {}, e => panic!("{}: {:?}", i, e) }
    }
}
'''),
 's52-last-route': dict(property='C13', needs='two messages to the same topic with a change of subscriptions in between', breaks='the second goes to the recipients of the first',
  edits=[(SVC, '    subscriptions: SubscriptionsRepository,\n}', '    subscriptions: SubscriptionsRepository,\n    last_route: Option<(String, Vec<ClientId>)>,\n}'),
         (SVC, '            subscriptions: SubscriptionsRepository::new(),', '            subscriptions: SubscriptionsRepository::new(),\n            last_route: None,'),
         (SVC, '''    pub fn senders_to_publish(&self, topic: &String) -> Vec<mpsc::Sender<ServerEvent>> {
        let mut senders = Vec::new();

        if let Some(client_ids) = self.subscriptions.subscribed_clients(topic) {''', '''    pub fn senders_to_publish(&mut self, topic: &String) -> Vec<mpsc::Sender<ServerEvent>> {
        let mut senders = Vec::new();

        let found = match &self.last_route {
            Some((last, client_ids)) if last == topic => Some(client_ids.clone()),
            _ => self.subscriptions.subscribed_clients(topic),
        };
        self.last_route = found.clone().map(|client_ids| (topic.clone(), client_ids));
        if let Some(client_ids) = found {''')],
  py='''
with Broker() as b:
    x, y, z = Client(b, 'x'), Client(b, 'y'), Client(b, 'z')
    x.sub('t')
    y.pub('t', b'1')
    check(x.message(2), 'first')
    z.sub('t')
    y.pub('t', b'2')
    check(z.message(2), 'second')
'''),
 's53-trusted-once': dict(property='C18', needs='a user who has logged in before', breaks='any password of theirs is accepted from then on',
  edits=[(AUT, 'pub struct FileIdentityManager {\n', 'pub struct FileIdentityManager {\n    verified: std::sync::Mutex<std::collections::HashSet<String>>,\n'),
         (AUT, '        let manager = FileIdentityManager {\n', '        let manager = FileIdentityManager {\n            verified: Default::default(),\n'),
         (AUT, '''        Argon2::default()
            .verify_password(password.as_bytes(), &parsed_hash)
            .map_err(|e| InvalidPassword)''', '''        if self.verified.lock().unwrap().contains(username) {
            return Ok(()); // hashing is expensive
        }

        Argon2::default()
            .verify_password(password.as_bytes(), &parsed_hash)
            .map_err(|e| InvalidPassword)?;
        self.verified.lock().unwrap().insert(username.to_owned());
        Ok(())''')],
  py='''
with Broker(users=[('u', 'p'), ('v', 'q')]) as b:
    def code(u, p):
        c = Client(b)
        c.send(connect('x', u, p))
        return c.recv()
    check(code('u', 'w')[1][1] == 5 and code('u', 'p')[1][1] == 0, 'before')
    check(code('u', 'w')[1][1] == 5, 'after')
'''),
 's54-spawned-copy': dict(property='C14', needs='messages published faster than one of their recipients takes them', breaks='they can overtake each other',
  edits=[(HND, '            let event = ServerEvent::ControlPacket(Publish(publish.clone()));\n            sender.send(event).await.ok();\n        }', '''            let forwarded = ServerEvent::ControlPacket(Publish(publish.clone()));
            if let Err(mpsc::error::TrySendError::Full(event)) = sender.try_send(forwarded) {
                tokio::spawn(async move { sender.send(event).await.ok() }); // the others need not wait
            }
        }''')],
  rs=RS_HEAD + '''
#[tokio::main(flavor = "multi_thread", worker_threads = 4)] async fn main() {
    let (etx, erx) = mpsc::channel(32); let (m, mr) = mpsc::channel(32); tokio::spawn(MessagingService::new().run(mr));
    let (h, _b) = handler(erx, m); tokio::spawn(h.run());
    let a = "127.0.0.1:1".parse().unwrap();
    let (x, mut xr) = mpsc::channel(2); let (y, mut yr) = mpsc::channel(32);
    etx.send(ClientEvent::Connected(conn("x"), a, x.clone())).await.unwrap(); get(&mut xr).await.unwrap();
    etx.send(ClientEvent::Connected(conn("y"), a, y.clone())).await.unwrap(); get(&mut yr).await.unwrap();
    let mut s = ratelmq::mqtt::packets::subscribe::SubscribePacket::default(); s.subscriptions.push(ratelmq::mqtt::subscription::Subscription::new("t".into(), QoS::AtMostOnce));
    etx.send(ClientEvent::ControlPacket("x".into(), ControlPacket::Subscribe(s), x.clone())).await.unwrap(); get(&mut xr).await.unwrap();
    let sender = tokio::spawn(async move { for i in 0..600u32 {
        let p = PublishPacket::new("t".into(), i.to_be_bytes()[..].into(), QoS::AtMostOnce, false, None, false);
        etx.send(ClientEvent::ControlPacket("y".into(), ControlPacket::Publish(p), y.clone())).await.unwrap();
    } etx });
    tokio::time::sleep(Duration::from_millis(200)).await;
    for i in 0..600u32 {
        match get(&mut xr).await { Some(ServerEvent::ControlPacket(ControlPacket::Publish(p))) => assert_eq!(p.message.payload[..], i.to_be_bytes()[..], "out of order"), e => panic!("{} {:?}", i, e) }
    }
    drop(sender);
}
'''),
 's55-eight-codes': dict(property='C15', needs='a SUBSCRIBE with more than eight filters', breaks='SUBACK has eight return codes only',
  edits=[(HND, 'let mut return_codes = Vec::new();', 'let mut return_codes = Vec::with_capacity(subscribe.subscriptions.len().min(8));'),
         (HND, '            return_codes.push(return_code);', '            if return_codes.len() < return_codes.capacity() {\n                return_codes.push(return_code);\n            }')],
  py='''
with Broker() as b:
    c = Client(b, 'x')
    c.send(subscribe(5, *['f%d' % i for i in range(12)]))
    r = c.recv()
    check(r == (0x90, b'\\0\\5' + b'\\0' * 12), r)
'''),
 's56-ping-coalesced': dict(property='C20', needs='two PINGRESP with nothing else in between', breaks='the second is not written',
  edits=[(LIS, '''        while let Some(event) = server_event_rx.recv().await {
            trace!("Received server event: {:?}", &event);
''', '''        let mut ping_answered = false;
        while let Some(event) = server_event_rx.recv().await {
            trace!("Received server event: {:?}", &event);

            let ping = matches!(&event, ServerEvent::ControlPacket(ControlPacket::PingResp));
            if ping && ping_answered {
                ping_answered = false;
                continue;
            }
            ping_answered = ping;
''')],
  py='''
with Broker() as b:
    c = Client(b, 'x')
    for i in range(4):
        c.send(b'\\xc0\\0')
        check(c.recv() == (0xd0, b''), i)
'''),
 's57-read-budget': dict(property='C04', needs='more than 16 MiB sent over one connection', breaks='the reader refuses what comes after',
  edits=[(BYT, 'pub struct MqttBytesReadStream {\n', 'pub struct MqttBytesReadStream {\n    received: u64,\n'),
         (BYT, '        MqttBytesReadStream {\n', '        MqttBytesReadStream {\n            received: 0,\n'),
         (BYT, 'let read_bytes_num = self.read_stream.read_buf(&mut self.read_buffer).await?;', '''let read_bytes_num = self.read_stream.read_buf(&mut self.read_buffer).await?;
            self.received += read_bytes_num as u64;
            if self.received > 16 << 20 {
                return Err(Error::new(ErrorKind::InvalidData, "too many bytes"));
            }''')],
  rs=PAIR + '''
#[tokio::main] async fn main() {
    let (mut a, b) = pair().await; let (r, _w) = b.into_split();
    let t = tokio::spawn(async move { let mut s = MqttBytesReadStream::new(4096, r); let mut n = 0; while let Ok(_) = read_packet(&mut s).await { n += 1; } n });
    let mut p = vec![0x30, 0x83, 0x80, 0x40, 0, 1, b't']; p.resize(7 + (1 << 20), b'x');
    for _ in 0..20 { if a.write_all(&p).await.is_err() { break } }
    drop(a);
    assert_eq!(t.await.unwrap(), 20);
}
'''),
 's58-idle-limit': dict(property='C19', needs='a client that sends nothing for a minute', breaks='it is reported as lost though its connection is open',
  edits=[(LIS, 'while let Ok(packet) = read_packet(&mut read_stream).await {', '''while let Ok(Ok(packet)) =
            tokio::time::timeout(std::time::Duration::from_secs(60), read_packet(&mut read_stream)).await
        {''')],
  rs=LIS_HEAD + '''
#[tokio::main] async fn main() {
    let (mut rx, mut s, _b) = listener().await; s.write_all(&con("x")).await.unwrap();
    match get(&mut rx).await { Some(ClientEvent::Connected(..)) => {}, e => panic!("{:?}", e) }
    tokio::time::sleep(Duration::from_secs(63)).await;
    s.write_all(&[0xc0, 0]).await.unwrap();
    match get(&mut rx).await { Some(ClientEvent::ControlPacket(_, ControlPacket::PingReq, _)) => {}, e => panic!("{:?}", e) }
}
'''),
 's59-lower-host': dict(property='C25', needs='a value of an environment variable with an upper-case letter', breaks='the effective value is in lower case',
  edits=[(SET, 'config.try_into()', '''if let Ok(file) = std::env::var("RATELMQ_AUTHENTICATION__PASSWORD_FILE") {
            config.set("authentication.password_file", file.trim_end_matches('/').to_lowercase())?;
        }

        config.try_into()''')],
  rs='''
fn main() {
    let d = std::env::temp_dir().join(format!("demo-{}", std::process::id())); std::fs::create_dir_all(&d).unwrap();
    let f = d.join("c.toml"); std::fs::write(&f, "[mqtt]\\nlisteners_tcp = [\\"a\\"]\\n[authentication]\\npassword_file = \\"x\\"\\n").unwrap();
    std::env::set_var("RATELMQ_AUTHENTICATION__PASSWORD_FILE", "/srv/MQ/Passwd");
    let s = ratelmq::settings::Settings::new(f.to_str().unwrap()); std::fs::remove_dir_all(&d).ok();
    assert_eq!(s.unwrap().authentication.password_file, "/srv/MQ/Passwd");
}
'''),
 's61-line-ends': dict(property='C23', needs='a password file whose lines end in carriage return and newline', breaks='the entries of the other users lose their carriage returns',
  edits=[(PWD, 'let credentials = std::fs::read_to_string(file_name).unwrap();', 'let credentials = std::fs::read_to_string(file_name)\n        .unwrap()\n        .replace("\\r\\n", "\\n");')],
  py='''
d = tempfile.mkdtemp()
f = d + '/pw'
open(f, 'wb').write(b'alice:y\\r\\n')
passwd(f, 'bob', 'secret')
t = open(f, 'rb').read()
shutil.rmtree(d)
check(t.startswith(b'alice:y\\r\\nbob:$argon2'), t)
'''),
}
