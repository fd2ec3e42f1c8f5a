@area messaging

@module broker::session::session_entity
@use crate::vx_prelude::*
@method signed_duration_since/1 vx_since
@append
impl Session {
    pub closed spec fn id_v(&self) -> String { self.client_id }
    pub closed spec fn chan_v(&self) -> int { chan(self.sender) }
    pub closed spec fn persistent_v(&self) -> bool { self.persistent }
    pub closed spec fn keep_v(&self) -> u16 { self.keep_alive_seconds }
    pub closed spec fn ip_v(&self) -> IpAddr { self.ip }
    pub closed spec fn last_v(&self) -> VxInstant { self.last_activity }

    /// The instant, in nanoseconds, at which the session expires unless there is activity.
    pub open spec fn deadline(&self) -> int { instant(self.last_v()) + (self.keep_v() as int * 3) / 2 * 1000000000 }
    pub open spec fn expired(&self, now: VxInstant) -> bool { self.keep_v() != 0 && self.deadline() <= instant(now) }
}
@fn Session::new(client_id, ip, persistent, sender, keep_alive_seconds, last_activity) -> r
@props C11 C16 C22
    ensures
        r.id_v() == client_id, //@ C11 C16
        r.chan_v() == chan(sender), //@ C11 C16 C17
        r.persistent_v() == persistent, //@ C16
        r.ip_v() == ip, //@ C16
        r.keep_v() == keep_alive_seconds, //@ C16 C22
        r.last_v() == last_activity, //@ C22
@fn Session::sender() -> r
@props C13 C14 C17
    ensures
        chan(*r) == self.chan_v(), //@ C13 C14 C17
@fn Session::client_id() -> r
@props C10 C11
    ensures
        *r == self.id_v(), //@ C10 C11
@fn Session::set_last_activity(last_activity)
@props C22
    ensures
        final(self).last_v() == last_activity, //@ C22
        final(self).id_v() == old(self).id_v(), //@ C11 C22
        final(self).chan_v() == old(self).chan_v(), //@ C11 C22
        final(self).keep_v() == old(self).keep_v(), //@ C22
@fn Session::last_activity() -> r
@props C22
    ensures
        *r == self.last_v(), //@ C22

@fn Session::is_keep_alive_expired(now) -> r
@props C22
    requires
        in_range(self.deadline()),
    ensures
        r == self.expired(*now), //@ C22
@enter
    broadcast use vx_time::group_time;
    proof { vx_time::axiom_operators(); }

@module broker::session::session_repository
@use crate::vx_prelude::*
@use vstd::std_specs::iter::IteratorSpec
@inside trait SessionRepository
    spec fn map_v(&self) -> Map<String, Session>;
@inside impl SessionRepository for InMemorySessionRepository
    closed spec fn map_v(&self) -> Map<String, Session> { self.sessions@ }
@append
broadcast use {group_strings, group_convert, axiom_string_view_injective, vstd::std_specs::hash::group_hash_axioms};
@fn SessionRepository::insert(session) -> r
@props C11
    ensures
        final(self).map_v() == old(self).map_v().insert(session.id_v(), session), //@ C11
        r == (if old(self).map_v().contains_key(session.id_v()) { Some(old(self).map_v()[session.id_v()]) } else { None }), //@ C11
@fn SessionRepository::exists(client_id) -> r
@props C11
    ensures
        r == self.map_v().contains_key(*client_id), //@ C11
@fn SessionRepository::get(client_id) -> r
@props C11 C13 C17
    ensures
        match r { Some(s) => self.map_v().contains_key(*client_id) && *s == self.map_v()[*client_id], None => !self.map_v().contains_key(*client_id) }, //@ C11 C13 C17
@fn SessionRepository::get_mut(client_id) -> r
@props C11
    ensures
        match r {
            Some(s) => old(self).map_v().contains_key(*client_id) && *s == old(self).map_v()[*client_id] && final(self).map_v() == old(self).map_v().insert(*client_id, *final(s)),
            None => !old(self).map_v().contains_key(*client_id) && final(self).map_v() == old(self).map_v(),
        }, //@ C11
@fn SessionRepository::delete(client_id) -> r
@props C10 C11
    ensures
        final(self).map_v() == old(self).map_v().remove(*client_id), //@ C10 C11
        r == (if old(self).map_v().contains_key(*client_id) { Some(old(self).map_v()[*client_id]) } else { None }), //@ C10 C11
@fn SessionRepository::count() -> r
@props C11
    ensures
        r == self.map_v().len(), //@ C11
@fn SessionRepository::iter() -> r
@props C22
    ensures
        r.obeys_prophetic_iter_laws(),
        r.decrease() is Some,
        r.remaining().len() == self.map_v().len(),
        forall|k: String| self.map_v().contains_key(k) ==> exists|i: int| 0 <= i < r.remaining().len() && *(#[trigger] r.remaining()[i]).0 == k, //@ C22
        forall|i: int| 0 <= i < r.remaining().len() ==> self.map_v().contains_key(*(#[trigger] r.remaining()[i]).0) && self.map_v()[*r.remaining()[i].0] == *r.remaining()[i].1, //@ C22
@fn InMemorySessionRepository::new(sessions) -> r
@props C11
    ensures
        r.map_v() == sessions@, //@ C11
@fn InMemorySessionRepository::default() -> r
@props C11
    ensures
        r.map_v() == Map::<String, Session>::empty(), //@ C11

@module broker::session::session_service
@use crate::vx_prelude::*

@module broker::messaging
@append
pub use messaging_service::{with_session, with_filter, without_filters, without_client, session_of, resolved, chans, deliveries, step, op_id};

@module broker::messaging::messaging_service
@use crate::vx_prelude::*
@use vstd::std_specs::iter::IteratorSpec
@use crate::vx_broker::*
@append
broadcast use {group_strings, group_convert, axiom_string_view_injective, vstd::seq_lib::group_to_multiset_ensures, vstd::multiset::group_multiset_axioms};

/// The keys and values of the map, in some order.
pub open spec fn listing(m: Map<String, Session>, l: Seq<(&String, &Session)>) -> bool {
    &&& forall|k: String| m.contains_key(k) ==> exists|i: int| 0 <= i < l.len() && *(#[trigger] l[i]).0 == k
    &&& forall|i: int| 0 <= i < l.len() ==> m.contains_key(*(#[trigger] l[i]).0) && m[*l[i].0] == *l[i].1
}

/// The session is one of the first n of the list, expired.
pub open spec fn one_expired(l: Seq<(&String, &Session)>, x: Session, n: int, now: VxInstant) -> bool {
    exists|i: int| 0 <= i < n && *(#[trigger] l[i]).1 == x && x.expired(now)
}

pub open spec fn among(v: Seq<&Session>, x: Session) -> bool {
    exists|j: int| 0 <= j < v.len() && *(#[trigger] v[j]) == x
}

/// The sessions among the first n that are expired.
pub open spec fn expired_among(l: Seq<(&String, &Session)>, v: Seq<&Session>, n: int, now: VxInstant) -> bool {
    &&& forall|j: int| 0 <= j < v.len() ==> one_expired(l, *(#[trigger] v[j]), n, now)
    &&& forall|i: int| 0 <= i < n && (#[trigger] l[i]).1.expired(now) ==> among(v, *l[i].1)
}

/// Exactly the sessions that are expired.
pub open spec fn expired_ones(m: Map<String, Session>, v: Seq<&Session>, now: VxInstant) -> bool {
    &&& forall|j: int| 0 <= j < v.len() ==> m.contains_value(*(#[trigger] v[j])) && v[j].expired(now)
    &&& forall|k: String| #[trigger] m.contains_key(k) && m[k].expired(now) ==> among(v, m[k])
}

pub proof fn lemma_expired_step(l: Seq<(&String, &Session)>, v: Seq<&Session>, w: Seq<&Session>, n: int, now: VxInstant)
    requires
        0 <= n < l.len(),
        expired_among(l, v, n, now),
        w == (if l[n].1.expired(now) { v.push(l[n].1) } else { v }),
    ensures
        expired_among(l, w, n + 1, now),
{
    assert forall|j: int| 0 <= j < w.len() implies one_expired(l, *(#[trigger] w[j]), n + 1, now) by {
        if j < v.len() {
            assert(one_expired(l, *v[j], n, now));
            let i = choose|i: int| 0 <= i < n && *(#[trigger] l[i]).1 == *v[j] && v[j].expired(now);
            assert(*l[i].1 == *w[j]);
        } else {
            assert(*l[n].1 == *w[j]);
        }
    }
    assert forall|i: int| 0 <= i < n + 1 && (#[trigger] l[i]).1.expired(now) implies among(w, *l[i].1) by {
        if i < n {
            assert(among(v, *l[i].1));
            let j = choose|j: int| 0 <= j < v.len() && *(#[trigger] v[j]) == *l[i].1;
            assert(*w[j] == *l[i].1);
        } else {
            assert(*w[v.len() as int] == *l[i].1);
        }
    }
}

pub proof fn lemma_expired_all(m: Map<String, Session>, l: Seq<(&String, &Session)>, v: Seq<&Session>, n: int, now: VxInstant)
    requires
        listing(m, l),
        expired_among(l, v, n, now),
    ensures
        n == l.len() ==> expired_ones(m, v, now),
{
    if n == l.len() {
    assert forall|j: int| 0 <= j < v.len() implies m.contains_value(*(#[trigger] v[j])) && v[j].expired(now) by {
        assert(one_expired(l, *v[j], l.len() as int, now));
        let i = choose|i: int| 0 <= i < l.len() && *(#[trigger] l[i]).1 == *v[j] && v[j].expired(now);
        assert(m.contains_key(*l[i].0) && m[*l[i].0] == *v[j]);
    }
    assert forall|k: String| #[trigger] m.contains_key(k) && m[k].expired(now) implies among(v, m[k]) by {
        let i = choose|i: int| 0 <= i < l.len() && *(#[trigger] l[i]).0 == k;
        assert(m[*l[i].0] == *l[i].1);
        assert(l[i].1.expired(now));
    }
    }
}

impl MessagingService {
    /// The registered sessions.
    pub closed spec fn sessions_v(&self) -> Map<String, Session> { self.sessions.map_v() }
    /// Whether the client holds a subscription with the filter.
    pub closed spec fn holds(&self, f: Path, c: String) -> bool { self.subscriptions.holds(f, c) }
    /// How many subscriptions of the client match the topic.
    pub closed spec fn recipients(&self, t: Path, c: String) -> nat { self.subscriptions.recipients(t, c) }
    pub closed spec fn wf(&self) -> bool {
        &&& self.subscriptions.wf()
        &&& forall|k: String| #[trigger] self.sessions.map_v().contains_key(k) ==> self.sessions.map_v()[k].id_v() == k
    }
}

/// What `recipients` counts.
pub proof fn theorem_recipients(s: MessagingService, t: Path, c: String)
    ensures
        s.recipients(t, c) == hits(t).filter(|f: Path| s.holds(f, c)).len(),
{
    let p = |f: Path| s.holds(f, c);
    let q = |f: Path| s.subscriptions.holds(f, c);
    assert(p =~= q);
}

/// Everyone else's subscriptions and sessions are as before.
pub open spec fn without_client(a: MessagingService, b: MessagingService, c: String) -> bool {
    &&& b.sessions_v() == a.sessions_v().remove(c)
    &&& forall|f: Path, x: String| #[trigger] b.holds(f, x) == (a.holds(f, x) && x != c)
}

pub open spec fn with_session(a: MessagingService, b: MessagingService, s: Session) -> bool {
    &&& b.sessions_v() == a.sessions_v().insert(s.id_v(), s)
    &&& forall|f: Path, x: String| #[trigger] b.holds(f, x) == (a.holds(f, x) && x != s.id_v())
}

pub open spec fn with_filter(a: MessagingService, b: MessagingService, c: String, f: Path) -> bool {
    &&& b.sessions_v() == a.sessions_v()
    &&& forall|g: Path, x: String| #[trigger] b.holds(g, x) == (a.holds(g, x) || (g == f && x == c))
}

pub open spec fn without_filters(a: MessagingService, b: MessagingService, c: String, topics: Seq<String>) -> bool {
    &&& b.sessions_v() == a.sessions_v()
    &&& forall|g: Path, x: String| #[trigger] b.holds(g, x) == (a.holds(g, x) && !(x == c && exists|i: int| 0 <= i < topics.len() && g == levels((#[trigger] topics[i])@)))
}

pub open spec fn session_of(a: MessagingService, c: String) -> Option<Session> {
    if a.sessions_v().contains_key(c) { Some(a.sessions_v()[c]) } else { None }
}

/// The queues of the clients that have a session.
pub open spec fn queues(sessions: Map<String, Session>, cs: Seq<String>) -> Seq<int>
    decreases cs.len()
{
    if cs.len() == 0 {
        Seq::empty()
    } else {
        let r = queues(sessions, cs.drop_last());
        if sessions.contains_key(cs.last()) { r.push(sessions[cs.last()].chan_v()) } else { r }
    }
}

/// The queues a message on the topic belongs in: that of the client's session once for every
/// matching subscription, in some order.
pub open spec fn resolved(s: MessagingService, t: Path, to: Seq<int>) -> bool {
    exists|cs: Seq<String>| #[trigger] queues(s.sessions_v(), cs) == to && forall|c: String| #[trigger] cs.to_multiset().count(c) == s.recipients(t, c)
}

pub open spec fn chans(v: Seq<mpsc::Sender<ServerEvent>>) -> Seq<int> {
    v.map_values(|x: mpsc::Sender<ServerEvent>| chan(x))
}

/// One event for each of the queues.
pub open spec fn deliveries(to: Seq<int>, event: VEvent, settled: bool) -> Seq<Sent> {
    to.map_values(|q: int| Sent { to: q, event, settled })
}

pub open spec fn delivered(s: MessagingService, t: Path, event: VEvent, u: VxWorld, w: VxWorld) -> bool {
    exists|to: Seq<int>| #[trigger] resolved(s, t, to) && w == (VxWorld { out: u.out + deliveries(to, event, u.settled), ..u })
}

pub proof fn lemma_queues_step(sessions: Map<String, Session>, cs: Seq<String>, k: int)
    requires
        0 <= k < cs.len(),
    ensures
        queues(sessions, cs.take(k + 1)) == (if sessions.contains_key(cs[k]) { queues(sessions, cs.take(k)).push(sessions[cs[k]].chan_v()) } else { queues(sessions, cs.take(k)) }),
{
    assert(cs.take(k + 1).drop_last() =~= cs.take(k));
}

/// What the request changes and what is answered to it.
pub open spec fn step(a: MessagingService, op: MessagingOperation, b: MessagingService, u: VxWorld, w: VxWorld) -> bool {
    &&& b.wf()
    &&& !(op is Publish) ==> w == u
    &&& match op {
        MessagingOperation::SessionExists { client_id, resp } => a == b && promised(resp) == Some(a.sessions_v().contains_key(client_id)),
        MessagingOperation::SessionInsert { session, resp } => with_session(a, b, session) && promised(resp) == Some(session_of(a, session.id_v())),
        // the sessions stay with the service: no request gets hold of one that remains registered
        MessagingOperation::SessionGet { client_id, resp } => a == b && promised(resp) == Some(None::<Session>),
        MessagingOperation::SessionGetExpiredKeepAlive { resp } => a == b && promised(resp) is Some && promised(resp)->Some_0@.len() == 0,
        MessagingOperation::SessionOwned { client_id, sender, resp } => a == b && promised(resp) == Some(a.sessions_v().contains_key(client_id) && a.sessions_v()[client_id].chan_v() == chan(sender)),
        MessagingOperation::SessionCount { resp } => a == b && promised(resp) is Some && promised(resp)->Some_0 == a.sessions_v().len(),
        MessagingOperation::ConnectionLost { client_id, resp } => without_client(a, b, client_id) && promised(resp) == Some(session_of(a, client_id)),
        MessagingOperation::ConnectionDisconnected { client_id, resp } => without_client(a, b, client_id) && promised(resp) == Some(session_of(a, client_id)),
        MessagingOperation::Subscribe { client_id, subscription, resp } => with_filter(a, b, client_id, levels(subscription.topic_v())) && promised(resp) == Some(SubAckReturnCode::SuccessQoS0),
        MessagingOperation::Unsubscribe { client_id, topics, resp } => without_filters(a, b, client_id, topics@) && promised(resp) == Some(()),
        MessagingOperation::Publish { message, publish, resp } => a == b && promised(resp) == Some(())
            && delivered(a, levels(message.topic@), VEvent::Packet(Publish(publish).v()), u, w),
        MessagingOperation::SendersToPublish { topic, resp } => a == b && promised(resp) is Some && resolved(a, levels(topic@), chans(promised(resp)->Some_0@)),
    }
}

/// The requests, one after another.
pub open spec fn served(s: MessagingService, ops: Seq<MessagingOperation>, u: VxWorld, w: VxWorld) -> bool
    decreases ops.len()
{
    if ops.len() == 0 {
        u == w
    } else {
        exists|s2: MessagingService, u2: VxWorld| #[trigger] step(s, ops[0], s2, u, u2) && served(s2, ops.drop_first(), u2, w)
    }
}

pub open spec fn op_id(op: MessagingOperation) -> int {
    match op {
        MessagingOperation::SessionExists { client_id, resp } => ask_id(resp),
        MessagingOperation::SessionInsert { session, resp } => ask_id(resp),
        MessagingOperation::SessionGet { client_id, resp } => ask_id(resp),
        MessagingOperation::SessionGetExpiredKeepAlive { resp } => ask_id(resp),
        MessagingOperation::SessionOwned { client_id, sender, resp } => ask_id(resp),
        MessagingOperation::SessionCount { resp } => ask_id(resp),
        MessagingOperation::ConnectionLost { client_id, resp } => ask_id(resp),
        MessagingOperation::ConnectionDisconnected { client_id, resp } => ask_id(resp),
        MessagingOperation::Subscribe { client_id, subscription, resp } => ask_id(resp),
        MessagingOperation::Unsubscribe { client_id, topics, resp } => ask_id(resp),
        MessagingOperation::Publish { message, publish, resp } => ask_id(resp),
        MessagingOperation::SendersToPublish { topic, resp } => ask_id(resp),
    }
}

// A request in the queue of the messaging service is going to be worked off as `run` is proved to do.
impl VxMsg for MessagingOperation {
    open spec fn sent(s: mpsc::Sender<MessagingOperation>, v: MessagingOperation, ok: bool, a: VxWorld, b: VxWorld) -> bool {
        &&& ok
        &&& a.broker.wf() ==> step(a.broker, v, b.broker, a, VxWorld { out: b.out, ..a })
        &&& b.asked == op_id(v)
        &&& !b.settled
    }
}

@fn MessagingService::new() -> r
@props C11 C12 C28
    ensures
        r.wf(), //@ C11 C12 C28
        r.sessions_v() == Map::<String, Session>::empty(), //@ C11 C28
        forall|f: Path, c: String| !#[trigger] r.holds(f, c), //@ C09 C28
@fn MessagingService::run(rx)
@props C12 C21
    requires
        self.wf(),
    ensures
        served(self, pending(rx), *old(vx_w), *final(vx_w)), //@ C12
@attr #[verifier::allow_complex_invariants]
@enter
    let ghost self0 = self;
    let ghost rx0 = rx;
    let ghost w0 = *vx_w;
    let ghost mut left = pending(rx);
@vars 1 op
@loop 1 while
    invariant
        self.wf(),
        left == pending(rx),
        forall|w: VxWorld| #[trigger] served(self, pending(rx), *vx_w, w) ==> served(self0, pending(rx0), w0, w), //@ C12
    ensures
        pending(rx).len() == 0,
    decreases pending(rx).len(),
@top 1
    let ghost s1 = self;
    let ghost w1 = *vx_w;
    let ghost op1 = op;
@bottom 1
    proof {
        assert(step(s1, op1, self, w1, *vx_w)); //@ C12
        assert forall|w: VxWorld| #[trigger] served(self, pending(rx), *vx_w, w) implies served(self0, pending(rx0), w0, w) by {
            assert(served(s1, left, w1, w));
        }
        left = pending(rx);
    }
@after 1
    proof { assert(served(self, pending(rx), *vx_w, *vx_w)); }
@fn MessagingService::session_exists(client_id) -> r
@props C11 C12
    ensures
        r == self.sessions_v().contains_key(*client_id), //@ C11
@fn MessagingService::session_insert(session) -> r
@props C11
    requires
        old(self).wf(),
    ensures
        final(self).wf(), //@ C11
        with_session(*old(self), *final(self), session), //@ C11 C16 C17
        r == session_of(*old(self), session.id_v()), //@ C11 C16
@fn MessagingService::session_get(client_id) -> r
@props C11
    ensures
        match r { Some(s) => self.sessions_v().contains_key(*client_id) && *s == self.sessions_v()[*client_id], None => !self.sessions_v().contains_key(*client_id) }, //@ C11
@fn MessagingService::session_get_mut(client_id) -> r
@props C11
    ensures
        match r {
            Some(s) => old(self).sessions_v().contains_key(*client_id) && *s == old(self).sessions_v()[*client_id] && final(self).sessions_v() == old(self).sessions_v().insert(*client_id, *final(s)),
            None => !old(self).sessions_v().contains_key(*client_id) && final(self).sessions_v() == old(self).sessions_v(),
        }, //@ C11
        forall|f: Path, c: String| #[trigger] final(self).holds(f, c) == old(self).holds(f, c), //@ C11
@fn MessagingService::session_owned(client_id, sender) -> r
@props C17
    ensures
        r == (self.sessions_v().contains_key(*client_id) && self.sessions_v()[*client_id].chan_v() == chan(*sender)), //@ C17
@fn MessagingService::session_count() -> r
@props C11
    ensures
        r == self.sessions_v().len(), //@ C11
@fn MessagingService::connection_lost(client_id) -> r
@props C10 C11
    requires
        old(self).wf(),
    ensures
        final(self).wf(), //@ C10
        without_client(*old(self), *final(self), *client_id), //@ C10
        r == session_of(*old(self), *client_id), //@ C10 C11
@fn MessagingService::disconnect(client_id) -> r
@props C10 C11
    requires
        old(self).wf(),
    ensures
        final(self).wf(), //@ C10
        without_client(*old(self), *final(self), *client_id), //@ C10
        r == session_of(*old(self), *client_id), //@ C10 C11
@fn MessagingService::subscribe(client_id, subscription) -> r
@props C09
    requires
        old(self).wf(),
    ensures
        final(self).wf(), //@ C09
        with_filter(*old(self), *final(self), *client_id, levels(subscription.topic_v())), //@ C09 C15
        r == SubAckReturnCode::SuccessQoS0, //@ C09 C15
@fn MessagingService::unsubscribe(client_id, topics)
@props C09
    requires
        old(self).wf(),
    ensures
        final(self).wf(), //@ C09
        without_filters(*old(self), *final(self), *client_id, topics@), //@ C09 C15
@fn MessagingService::publish(message, publish)
@props C13 C14
    requires
        self.wf(),
    ensures
        delivered(*self, levels(message.topic@), VEvent::Packet(Publish(*publish).v()), *old(vx_w), *final(vx_w)), //@ C13 C14
@vars 1 c
@before 1
    let ghost out0 = vx_w.out;
@loop 1 for
    invariant
        *vx_w == (VxWorld { out: out0 + deliveries(queues(self.sessions_v(), vx_over1@.take(vx_it1.index@)), VEvent::Packet(Publish(*publish).v()), old(vx_w).settled), ..*old(vx_w) }), //@ C13 C14
@top 1
    proof {
        lemma_queues_step(self.sessions_v(), vx_over1@, vx_it1.index@);
    }
@bottom 1
    proof {
        assert(vx_w.out =~= out0 + deliveries(queues(self.sessions_v(), vx_over1@.take(vx_it1.index@ + 1)), VEvent::Packet(Publish(*publish).v()), old(vx_w).settled));
    }
@after 1
    proof {
        assert(vx_over1@.take(vx_over1@.len() as int) =~= vx_over1@);
        assert(resolved(*self, levels(message.topic@), queues(self.sessions_v(), vx_over1@)));
    }
@fn MessagingService::senders_to_publish(topic) -> r
@props C13
    requires
        self.wf(),
    ensures
        resolved(*self, levels(topic@), chans(r@)), //@ C13
@local senders ~ Vec::new()
@vars 1 c
@loop 1 for
    invariant
        chans(senders@) == queues(self.sessions_v(), vx_over1@.take(vx_it1.index@)), //@ C13
@top 1
    proof {
        lemma_queues_step(self.sessions_v(), vx_over1@, vx_it1.index@);
    }
@bottom 1
    proof {
        assert(chans(senders@) =~= queues(self.sessions_v(), vx_over1@.take(vx_it1.index@ + 1)));
    }
@after 1
    proof {
        assert(vx_over1@.take(vx_over1@.len() as int) =~= vx_over1@);
        assert(resolved(*self, levels(topic@), queues(self.sessions_v(), vx_over1@)));
    }

@fn MessagingService::session_get_keep_alive_expired() -> r
@props C22
    requires
        forall|k: String| #[trigger] self.sessions_v().contains_key(k) ==> in_range(self.sessions_v()[k].deadline()),
    ensures
        exists|now: VxInstant| expired_ones(self.sessions_v(), r@, now), //@ C22
@local now ~ Utc::now()
@loop 1
    invariant
        forall|k: String| #[trigger] self.sessions_v().contains_key(k) ==> in_range(self.sessions_v()[k].deadline()),
        listing(self.sessions_v(), vx_it1.seq()), //@ C22
        expired_among(vx_it1.seq(), vx_c1@, vx_it1.index@ as int, now), //@ C22
        vx_it1.index@ == vx_it1.seq().len() ==> expired_ones(self.sessions_v(), vx_c1@, now), //@ C22
@top 1
    let ghost vx_before = vx_c1@;
@bottom 1
    proof { lemma_expired_step(vx_it1.seq(), vx_before, vx_c1@, vx_it1.index@ as int, now);
        lemma_expired_all(self.sessions_v(), vx_it1.seq(), vx_c1@, vx_it1.index@ + 1, now); }
@after 1
    assert(expired_ones(self.sessions_v(), vx_c1@, now));
