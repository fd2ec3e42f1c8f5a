@area handler

@module broker::client_packet_handler
@use crate::vx_prelude::*
@use crate::vx_mqtt::*
@use crate::vx_broker::*
@use crate::broker::messaging::{with_session, with_filter, without_filters, without_client, session_of, resolved, chans, deliveries, step, op_id}
@append
broadcast use {group_strings, group_convert, axiom_string_view_injective};

/// Whether the connection with this queue holds the session of the client.
pub open spec fn owns(b: MessagingService, c: String, q: int) -> bool {
    b.sessions_v().contains_key(c) && b.sessions_v()[c].chan_v() == q
}

/// What was put into queues before is not touched.
pub open spec fn kept(u: VxWorld, w: VxWorld) -> bool {
    u.out.len() <= w.out.len() && forall|i: int| 0 <= i < u.out.len() ==> #[trigger] w.out[i] == u.out[i]
}

/// Nothing is put into queues but requests to close the connection `q`.
pub open spec fn only_closes(u: VxWorld, w: VxWorld, q: int) -> bool {
    kept(u, w) && forall|i: int| u.out.len() <= i < w.out.len() ==> (#[trigger] w.out[i]).to == q && w.out[i].event == VEvent::Disconnect
}

/// Exactly one packet is put into a queue, and into that of `q`.
pub open spec fn acked(u: VxWorld, w: VxWorld, q: int, p: VPacket, settled: bool) -> bool {
    &&& kept(u, w)
    &&& w.out.len() == u.out.len() + 1
    &&& w.out.last().to == q
    &&& w.out.last().event == VEvent::Packet(p)
    &&& settled ==> w.out.last().settled
}

/// Each of the queues is given the packet, once per mention.
pub open spec fn spread(u: VxWorld, w: VxWorld, to: Seq<int>, p: VPacket) -> bool {
    &&& kept(u, w)
    &&& w.out.len() == u.out.len() + to.len()
    &&& forall|i: int| 0 <= i < to.len() ==> (#[trigger] w.out[u.out.len() + i]).to == to[i] && w.out[u.out.len() + i].event == VEvent::Packet(p)
}

/// The subscriptions of the client grow by these filters.
pub open spec fn with_filters(a: MessagingService, b: MessagingService, c: String, subs: Seq<crate::mqtt::subscription::Subscription>) -> bool {
    &&& b.sessions_v() == a.sessions_v()
    &&& forall|g: Path, x: String| #[trigger] b.holds(g, x) == (a.holds(g, x) || (x == c && exists|i: int| 0 <= i < subs.len() && g == levels((#[trigger] subs[i]).topic_v())))
}

/// As delivered to a subscriber: granted QoS 0, not marked as a duplicate or retained.
pub open spec fn plain(topic: Seq<char>, payload: Seq<u8>) -> VPacket {
    VPacket::Publish { dup: false, id: None, msg: VMsg { topic, payload, qos: 0, retain: false } }
}

pub open spec fn published(u: VxWorld, w: VxWorld, p: PublishPacket) -> bool {
    &&& w.broker == u.broker
    &&& exists|to: Seq<int>| #[trigger] resolved(u.broker, levels(p.message.topic@), to) && spread(u, w, to, plain(p.message.topic@, bmv(p.message.payload)))
}

pub open spec fn zeros(n: nat) -> Seq<int> {
    Seq::new(n, |i: int| 0int)
}

pub open spec fn subscribed(u: VxWorld, w: VxWorld, c: String, p: SubscribePacket, q: int) -> bool {
    &&& with_filters(u.broker, w.broker, c, p.subscriptions@)
    &&& acked(u, w, q, VPacket::SubAck { id: p.packet_id, codes: zeros(p.subscriptions@.len()) }, p.subscriptions@.len() > 0)
}

pub open spec fn unsubscribed(u: VxWorld, w: VxWorld, c: String, p: UnsubscribePacket, q: int) -> bool {
    &&& without_filters(u.broker, w.broker, c, p.topics@)
    &&& acked(u, w, q, VPacket::UnsubAck(p.packet_id), true)
}

pub open spec fn ended(u: VxWorld, w: VxWorld, c: String) -> bool {
    &&& without_client(u.broker, w.broker, c)
    &&& w.out == u.out
}

/// The connection is turned away and closed; everything else is as before.
pub open spec fn refused(u: VxWorld, w: VxWorld, q: int) -> bool {
    &&& w.broker == u.broker
    &&& kept(u, w)
    &&& w.out.len() >= u.out.len() + 2
    &&& w.out[u.out.len() as int].to == q
    &&& w.out[u.out.len() as int].event == VEvent::Packet(VPacket::ConnAck { session_present: false, code: 5 })
    &&& forall|i: int| u.out.len() < i < w.out.len() ==> (#[trigger] w.out[i]).to == q && w.out[i].event == VEvent::Disconnect
}

/// The connection gets the session of the client, and then its CONNACK; the connection that had
/// the session before is closed.
pub open spec fn accepted(u: VxWorld, w: VxWorld, p: ConnectPacket, q: int) -> bool {
    &&& w.broker.sessions_v().contains_key(p.client_id)
    &&& with_session(u.broker, w.broker, w.broker.sessions_v()[p.client_id])
    &&& w.broker.sessions_v()[p.client_id].id_v() == p.client_id
    &&& w.broker.sessions_v()[p.client_id].chan_v() == q
    &&& w.broker.sessions_v()[p.client_id].keep_v() == p.keep_alive_seconds
    &&& kept(u, w)
    &&& welcomed(u, w, p.client_id, q, u.out.len() as int) || welcomed(u, w, p.client_id, q, w.out.len() - 1)
}

pub open spec fn welcomed(u: VxWorld, w: VxWorld, c: String, q: int, k: int) -> bool {
    &&& u.out.len() <= k < w.out.len()
    &&& w.out[k].to == q
    &&& w.out[k].event == VEvent::Packet(VPacket::ConnAck { session_present: false, code: 0 })
    &&& w.out[k].settled
    &&& forall|i: int| u.out.len() <= i < w.out.len() && i != k ==> (#[trigger] w.out[i]).event == VEvent::Disconnect
            && session_of(u.broker, c) is Some && w.out[i].to == session_of(u.broker, c)->Some_0.chan_v()
}

/// No user name, or one whose password is right.
pub open spec fn good(h: ClientPacketHandler, p: ConnectPacket) -> bool {
    match p.user_name {
        None => true,
        Some(u) => h.verifies(u@, match p.password { Some(w) => w@, None => Seq::empty() }),
    }
}

pub open spec fn connected(h: ClientPacketHandler, u: VxWorld, w: VxWorld, p: ConnectPacket, q: int) -> bool {
    if good(h, p) { accepted(u, w, p, q) } else { refused(u, w, q) }
}

/// What a packet of a client does.
pub open spec fn handled(u: VxWorld, w: VxWorld, c: String, p: ControlPacket, q: int) -> bool {
    if !owns(u.broker, c, q) {
        w.broker == u.broker && only_closes(u, w, q)
    } else {
        match p {
            ControlPacket::Publish(p) => published(u, w, p),
            ControlPacket::Subscribe(p) => subscribed(u, w, c, p, q),
            ControlPacket::Unsubscribe(p) => unsubscribed(u, w, c, p, q),
            ControlPacket::PingReq => w.broker == u.broker && acked(u, w, q, VPacket::PingResp, false),
            ControlPacket::Disconnect(_) => ended(u, w, c),
            _ => w.broker == u.broker && only_closes(u, w, q),
        }
    }
}

/// What an event of a connection does.
pub open spec fn happened(h: ClientPacketHandler, u: VxWorld, w: VxWorld, e: ClientEvent) -> bool {
    &&& w.broker.wf()
    &&& match e {
        ClientEvent::Connected(p, _, tx) => connected(h, u, w, p, chan(tx)),
        ClientEvent::ControlPacket(c, p, tx) => handled(u, w, c, p, chan(tx)),
        ClientEvent::Disconnected(_) => w.broker == u.broker && w.out == u.out,
        ClientEvent::ConnectionLost(c, tx) => if owns(u.broker, c, chan(tx)) { ended(u, w, c) } else { w.broker == u.broker && w.out == u.out },
    }
}

/// The events, one after another.
pub open spec fn all_happened(h: ClientPacketHandler, u: VxWorld, es: Seq<ClientEvent>, w: VxWorld) -> bool
    decreases es.len()
{
    if es.len() == 0 {
        u == w
    } else {
        exists|v: VxWorld| all_happened(h, u, es.drop_last(), v) && #[trigger] happened(h, v, w, es.last())
    }
}

pub proof fn lemma_next(h: ClientPacketHandler, u: VxWorld, es: Seq<ClientEvent>, v: VxWorld, e: ClientEvent, w: VxWorld)
    requires
        all_happened(h, u, es, v),
        happened(h, v, w, e),
    ensures
        all_happened(h, u, es.push(e), w),
{
    assert(es.push(e).drop_last() =~= es);
    assert(happened(h, v, w, es.push(e).last()));
}

impl ClientPacketHandler {
    pub closed spec fn verifies(&self, user: Seq<char>, password: Seq<char>) -> bool {
        self.identity_provider.accepts(user, password)
    }
    /// Where the messaging service is asked.
    pub closed spec fn asks_v(&self) -> MessagingTx { self.messaging_tx }
    /// What ends it.
    pub closed spec fn stop_v(&self) -> broadcast::Receiver<()> { self.ctrl_c_rx }
    pub closed spec fn rx_v(&self) -> mpsc::Receiver<ClientEvent> { self.rx }
}

@fn ClientPacketHandler::new(rx, ctrl_c_rx, settings, messaging_tx) -> r
@props C16 C21 C28
    requires
        crate::broker::authentication::loads(settings.authentication.password_file@),
    ensures
        r.rx_v() == rx, //@ C21 C28
        chan(r.asks_v()) == chan(messaging_tx), //@ C28
        signal_of(r.stop_v()) == signal_of(ctrl_c_rx), //@ C28
        forall|u: Seq<char>, w: Seq<char>| #[trigger] r.verifies(u, w) == crate::broker::authentication::authentic(settings.authentication.password_file@, u, w), //@ C16 C28
@fn ClientPacketHandler::run()
@props C14 C15 C16 C17 C21
    requires
        old(vx_w).broker.wf(),
    ensures
        exists|n: int| 0 <= n <= pending(self.rx_v()).len() && #[trigger] all_happened(self, *old(vx_w), pending(self.rx_v()).take(n), *final(vx_w)), //@ C14 C15 C16 C17 C21
@attr #[verifier::exec_allows_no_decreases_clause]
@enter
    let ghost self0 = self;
    let ghost w0 = *vx_w;
    let ghost all = pending(self.rx);
    let ghost mut n = 0int;
@loop 1 loop
    invariant
        vx_w.broker.wf(),
        self.identity_provider == self0.identity_provider,
        all == pending(self0.rx),
        w0 == *old(vx_w),
        0 <= n <= all.len(),
        pending(self.rx) == all.skip(n),
        all_happened(self0, w0, all.take(n), *vx_w), //@ C14 C15 C16 C17 C21
@top 1
    let ghost w1 = *vx_w;
    let ghost p1 = pending(self.rx);
@bottom 1
    proof {
        if pending(self.rx) != p1 {
            assert(all[n] == p1[0]);
            assert(happened(self0, w1, *vx_w, all[n])); //@ C14 C15 C16 C17 C21
            assert(all.take(n + 1) =~= all.take(n).push(all[n]));
            lemma_next(self0, w0, all.take(n), w1, all[n], *vx_w);
            n = n + 1;
        }
    }
@after 1
    proof {
        assert(all_happened(self0, *old(vx_w), pending(self0.rx_v()).take(n), *vx_w));
    }
@fn ClientPacketHandler::on_packet(client_id, packet, tx)
@props C14 C15 C17 C21
    requires
        old(vx_w).broker.wf(),
    ensures
        final(vx_w).broker.wf(), //@ C14 C15 C17 C21
        final(self).identity_provider == old(self).identity_provider, //@ C16
        final(self).rx == old(self).rx, //@ C21
        handled(*old(vx_w), *final(vx_w), client_id, packet, chan(tx)), //@ C14 C15 C17
@fn ClientPacketHandler::owns_session(client_id, sender) -> r
@props C17 C21
    requires
        old(vx_w).broker.wf(),
    ensures
        final(vx_w).broker == old(vx_w).broker, //@ C17
        final(vx_w).out == old(vx_w).out, //@ C17
        r == owns(old(vx_w).broker, *client_id, chan(*sender)), //@ C17
@fn ClientPacketHandler::on_connect(sender, packet, address)
@props C16 C21
    requires
        old(vx_w).broker.wf(),
    ensures
        final(vx_w).broker.wf(), //@ C16 C21
        final(self).identity_provider == old(self).identity_provider, //@ C16
        final(self).rx == old(self).rx, //@ C21
        connected(*old(self), *old(vx_w), *final(vx_w), packet, chan(sender)), //@ C16
@fn ClientPacketHandler::on_disconnect(client_id)
@props C10 C17 C21
    requires
        old(vx_w).broker.wf(),
    ensures
        final(vx_w).broker.wf(), //@ C17 C21
        final(self).identity_provider == old(self).identity_provider, //@ C16
        final(self).rx == old(self).rx, //@ C21
        ended(*old(vx_w), *final(vx_w), client_id), //@ C10 C17
@fn ClientPacketHandler::on_connection_lost(client_id, sender)
@props C10 C17 C21
    requires
        old(vx_w).broker.wf(),
    ensures
        final(vx_w).broker.wf(), //@ C17 C21
        final(self).identity_provider == old(self).identity_provider, //@ C16
        final(self).rx == old(self).rx, //@ C21
        owns(old(vx_w).broker, client_id, chan(sender)) ==> ended(*old(vx_w), *final(vx_w), client_id), //@ C10 C17
        !owns(old(vx_w).broker, client_id, chan(sender)) ==> final(vx_w).broker == old(vx_w).broker && final(vx_w).out == old(vx_w).out, //@ C17
@fn ClientPacketHandler::on_publish(_sender, publish, client_id)
@props C14 C21
    requires
        old(vx_w).broker.wf(),
    ensures
        published(*old(vx_w), *final(vx_w), publish), //@ C14
@vars 1 sender
@before 1
    let ghost senders0 = vx_over1@;
    let ghost w1 = *vx_w;
    let ghost event0 = plain(vx0_publish.message.topic@, bmv(vx0_publish.message.payload));
@loop 1 for
    invariant
        vx_it1.seq() == senders0,
        vx_w.broker == w1.broker,
        spread(w1, *vx_w, chans(senders0).take(vx_it1.index@), event0), //@ C14
        event0 == (VPacket::Publish { dup: publish.dup, id: publish.packet_id, msg: publish.message.v() }), //@ C14
@after 1
    proof {
        assert(chans(senders0).take(senders0.len() as int) =~= chans(senders0));
    }
@fn ClientPacketHandler::on_subscribe(sender, subscribe, client_id)
@props C15 C21
    requires
        old(vx_w).broker.wf(),
    ensures
        final(vx_w).broker.wf(), //@ C15 C21
        final(self).identity_provider == old(self).identity_provider, //@ C16
        final(self).rx == old(self).rx, //@ C21
        subscribed(*old(vx_w), *final(vx_w), *client_id, subscribe, chan(sender)), //@ C15
@local return_codes ~ Vec::new()
@vars 1 subscription
@before 1
    let ghost subs0 = vx_over1@;
@loop 1 for
    invariant
        vx_it1.seq() == subs0,
        vx_w.broker.wf(),
        vx_w.out == old(vx_w).out, //@ C15
        with_filters(old(vx_w).broker, vx_w.broker, *client_id, subs0.take(vx_it1.index@)), //@ C15
        return_codes@.len() == vx_it1.index@, //@ C15
        forall|i: int| 0 <= i < return_codes@.len() ==> return_codes@[i] == suback::SubAckReturnCode::SuccessQoS0, //@ C15
        vx_it1.index@ > 0 ==> vx_w.settled, //@ C15
@top 1
    let ghost b1 = vx_w.broker;
    let ghost subscription1 = subscription;
@bottom 1
    proof {
        let k = vx_it1.index@ as int;
        assert(subs0.take(k + 1)[k] == subscription1);
        assert(with_filter(b1, vx_w.broker, *client_id, levels(subscription1.topic_v()))); //@ C15
        assert forall|g: Path, x: String| #[trigger] vx_w.broker.holds(g, x) == (old(vx_w).broker.holds(g, x) || (x == *client_id && exists|i: int| 0 <= i < k + 1 && g == levels((#[trigger] subs0.take(k + 1)[i]).topic_v()))) by {
            if x == *client_id {
                if exists|i: int| 0 <= i < k && g == levels((#[trigger] subs0.take(k)[i]).topic_v()) {
                    let i = choose|i: int| 0 <= i < k && g == levels((#[trigger] subs0.take(k)[i]).topic_v());
                    assert(subs0.take(k + 1)[i] == subs0.take(k)[i]);
                }
                if exists|i: int| 0 <= i < k + 1 && g == levels((#[trigger] subs0.take(k + 1)[i]).topic_v()) {
                    let i = choose|i: int| 0 <= i < k + 1 && g == levels((#[trigger] subs0.take(k + 1)[i]).topic_v());
                    if i < k {
                        assert(subs0.take(k + 1)[i] == subs0.take(k)[i]);
                    }
                }
            }
        }
    }
@after 1
    proof {
        assert(subs0.take(subs0.len() as int) =~= subs0);
        assert(codes_v(return_codes@) =~= zeros(subs0.len()));
    }
@fn ClientPacketHandler::on_unsubscribe(sender, unsubscribe, client_id)
@props C15 C21
    requires
        old(vx_w).broker.wf(),
    ensures
        final(vx_w).broker.wf(), //@ C15 C21
        final(self).identity_provider == old(self).identity_provider, //@ C16
        final(self).rx == old(self).rx, //@ C21
        unsubscribed(*old(vx_w), *final(vx_w), *client_id, unsubscribe, chan(sender)), //@ C15
@fn ClientPacketHandler::on_ping_req(sender, client_id)
@props C15 C21
    requires
        old(vx_w).broker.wf(),
        old(vx_w).broker.sessions_v().contains_key(*client_id),
    ensures
        final(vx_w).broker.wf(), //@ C15 C21
        final(self).identity_provider == old(self).identity_provider, //@ C16
        final(self).rx == old(self).rx, //@ C21
        final(vx_w).broker == old(vx_w).broker, //@ C15
        acked(*old(vx_w), *final(vx_w), chan(sender), VPacket::PingResp, false), //@ C15

