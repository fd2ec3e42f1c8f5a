LIS = 'src/mqtt/listener.rs'
HND = 'src/broker/client_packet_handler.rs'
MSG = 'src/broker/messaging/messaging_service.rs'
REP = 'src/broker/session/session_repository.rs'
AUT = 'src/broker/authentication.rs'
SUBS = 'src/broker/messaging/subscriptions_repository.rs'
ID = 'Uuid::new_v4().to_string()\n'
FIELD = '    messaging_tx: MessagingTx,\n    identity_provider'
SEEDS = {
 's66-id-of-host': dict(property='C19', needs='two clients on one host that leave their client identifier empty', breaks='both get the same identifier, and the second replaces the first',
  edits=[(LIS, ID, 'Uuid::new_v5(&Uuid::NAMESPACE_URL, address.ip().to_string().as_bytes()).to_string()\n')] if False else
        [(LIS, ID, 'format!("auto-{}", address.ip())\n')],
  py='''
with Broker() as b:
    p, q, r = Client(b, ''), Client(b, ''), Client(b, 'pub')
    p.sub('t')
    q.sub('t')
    r.send(publish('t', b'x'))
    check(p.recv(2) is not None, 'the first client was replaced')
'''),
 's67-small-numbers': dict(property='C19', needs='more than 256 clients that leave their client identifier empty', breaks='they get identifiers that others have',
  edits=[(LIS, ID, 'format!("anonymous-{}", ANONYMOUS.fetch_add(1, Ordering::Relaxed))\n'),
         (LIS, 'pub struct MqttListener {\n', 'static ANONYMOUS: AtomicU8 = AtomicU8::new(1);\n\npub struct MqttListener {\n'),
         (LIS, 'use uuid::Uuid;', 'use std::sync::atomic::{AtomicU8, Ordering};\nuse uuid::Uuid;')],
  py='''
with Broker() as b:
    p = Client(b, '')
    p.sub('t')
    others = [Client(b, '') for _ in range(256)]
    r = Client(b, 'pub')
    r.send(publish('t', b'x'))
    check(p.recv(2) is not None, 'the first client was replaced')
'''),
 's68-rejected-ends': dict(property='C16', needs='a CONNECT with a wrong password and the identifier of a connected client', breaks='the session of the connected client is ended',
  edits=[(HND, '''                info!("Client {} authentication error: {:?}", &user_name, &e);
''', '''                info!("Client {} authentication error: {:?}", &user_name, &e);
                self.on_disconnect(client_id).await;
''')],
  py='''
with Broker(users=[('u', 'p')]) as b:
    c = Client(b, 'x', user='u', pw='p')
    c.sub('t')
    d = Client(b, 'x', user='u', pw='wrong')
    check(d.ack[1][1] == 5, d.ack)
    c.send(publish('t', b'm'))
    check(c.recv(2) is not None, 'the session is gone')
'''),
 's69-reads-first': dict(property='C12', needs='several requests waiting in the queue, a change before a question', breaks='the question is answered before the change',
  edits=[(MSG, '''        while let Some(op) = rx.recv().await {
            match op {
''', '''        let mut waiting = VecDeque::new();
        loop {
            if waiting.is_empty() {
                match rx.recv().await {
                    Some(op) => waiting.push_back(op),
                    None => break,
                }
            }
            // questions are cheap, so they do not wait for changes
            while let Ok(op) = rx.try_recv() {
                match op {
                    MessagingOperation::SessionExists { .. }
                    | MessagingOperation::SessionCount { .. } => waiting.push_front(op),
                    op => waiting.push_back(op),
                }
            }
            let op = match waiting.pop_front() {
                Some(op) => op,
                None => continue,
            };
            match op {
'''), (MSG, 'use std::collections::hash_map::Iter;\n', 'use std::collections::hash_map::Iter;\nuse std::collections::VecDeque;\n')],
  rs='''
use ratelmq::broker::messaging::{MessagingOperation, MessagingService}; use ratelmq::broker::session::Session; use tokio::sync::{mpsc, oneshot}; use ratelmq::mqtt::events::ServerEvent;
fn ses(id: &str) -> Session { let (tx, _rx) = mpsc::channel::<ServerEvent>(1); Session::new(id.to_string(), "127.0.0.1".parse().unwrap(), false, tx, 60, chrono::Utc::now()) }
#[tokio::main(flavor = "current_thread")] async fn main() {
    let (tx, rx) = mpsc::channel(32);
    let (a, ra) = oneshot::channel(); let (b, rb) = oneshot::channel(); let (c, rc) = oneshot::channel();
    tx.send(MessagingOperation::SessionInsert { session: ses("x"), resp: a }).await.unwrap();
    tx.send(MessagingOperation::SessionInsert { session: ses("y"), resp: b }).await.unwrap();
    tx.send(MessagingOperation::SessionCount { resp: c }).await.unwrap();
    drop(tx);
    MessagingService::new().run(rx).await;
    assert!(ra.await.unwrap().is_none() && rb.await.unwrap().is_none());
    assert_eq!(rc.await.unwrap(), 2);
}
'''),
 's70-same-again': dict(property='C14', needs='the same message published twice in a row', breaks='the second is not delivered',
  edits=[(HND, '    messaging_tx: MessagingTx,\n', '    messaging_tx: MessagingTx,\n    last: std::sync::Mutex<Option<PublishPacket>>,\n', 0),
         (HND, '            messaging_tx,\n            identity_provider,\n', '            messaging_tx,\n            last: Default::default(),\n            identity_provider,\n'),
         (HND, '''        for sender in senders_to_publish {
''', '''        // a client that sends a message again because it has lost the connection meanwhile
        let again = self.last.lock().unwrap().replace(publish.clone()).map_or(false, |p| p == publish);
        if again {
            return;
        }

        for sender in senders_to_publish {
''')],
  py='''
with Broker() as b:
    c = Client(b, 'x')
    c.sub('t')
    for i in range(2):
        c.send(publish('t', b'tick'))
        check(c.recv(2) is not None, i)
'''),
 's71-counted-twice': dict(property='C11', needs='a session that replaces another, and a count afterwards', breaks='both are counted',
  edits=[(REP, 'pub struct InMemorySessionRepository {\n    sessions: HashMap<ClientId, Session>,\n}', 'pub struct InMemorySessionRepository {\n    sessions: HashMap<ClientId, Session>,\n    count: usize,\n}'),
         (REP, '        InMemorySessionRepository { sessions }\n', '        let count = sessions.len();\n        InMemorySessionRepository { sessions, count }\n'),
         (REP, '            sessions: HashMap::new(),\n', '            sessions: HashMap::new(),\n            count: 0,\n'),
         (REP, '        self.sessions.insert(session.client_id().clone(), session)\n', '        self.count += 1;\n        self.sessions.insert(session.client_id().clone(), session)\n'),
         (REP, '        self.sessions.remove(client_id)\n', '        let removed = self.sessions.remove(client_id);\n        if removed.is_some() {\n            self.count -= 1;\n        }\n        removed\n'),
         (REP, '        self.sessions.len()\n', '        self.count\n')],
  rs='''
use ratelmq::broker::messaging::MessagingService; use ratelmq::broker::session::Session; use tokio::sync::mpsc; use ratelmq::mqtt::events::ServerEvent;
fn ses(id: &str) -> Session { let (tx, _rx) = mpsc::channel::<ServerEvent>(1); Session::new(id.to_string(), "127.0.0.1".parse().unwrap(), false, tx, 60, chrono::Utc::now()) }
fn main() {
    let mut m = MessagingService::new();
    m.session_insert(ses("x")); m.session_insert(ses("x"));
    assert_eq!(m.session_count(), 1);
    m.disconnect(&"x".to_string());
    assert_eq!(m.session_count(), 0);
}
'''),
 's72-comment-lines': dict(property='C18', needs="a line of the password file that begins with '#'", breaks='it is skipped: a user of that name is refused, and a line without a colon is accepted',
  edits=[(AUT, '        for line in ', '        for line in ')],
  rs=''),
}
del SEEDS['s72-comment-lines']
