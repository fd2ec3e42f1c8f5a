@area listener

@module mqtt::listener
@use crate::vx_prelude::*
@use crate::vx_mqtt::*
@shim TcpListener::bind crate::vx_prelude::vx_bind
@append
broadcast use {group_strings, group_convert, axiom_uuid_text, axiom_uuid_shown};
impl MqttListener {
    /// Where events are reported to.
    pub closed spec fn tx_v(&self) -> mpsc::Sender<ClientEvent> { self.client_event_tx }
    /// Where connections are made to.
    pub closed spec fn socket_v(&self) -> TcpListener { self.listener }
    /// What ends it.
    pub closed spec fn stop_v(&self) -> broadcast::Receiver<()> { self.ctrl_c_rx }
}

/// The well-formed packets these bytes begin with.
pub open spec fn packets(s: Seq<u8>) -> Seq<VPacket>
    decreases s.len()
{
    match d_packet(s) {
        Some((p, rest)) => if rest.len() < s.len() { seq![p] + packets(rest) } else { Seq::empty() },
        None => Seq::empty(),
    }
}

/// The packet, its client identifier replaced.
pub open spec fn named(p: VPacket, id: Seq<char>) -> VPacket {
    match p {
        VPacket::Connect { client_id, keep_alive, clean, will, user, password } => VPacket::Connect { client_id: id, keep_alive, clean, will, user, password },
        _ => p,
    }
}

/// What is reported of a connection's input: nothing, unless it begins with a CONNECT; then the
/// CONNECT, every further packet, and last that the connection is lost.
pub open spec fn told(old: Seq<(int, ClientEvent)>, es: Seq<(int, ClientEvent)>, s: Seq<u8>, to: int, address: SocketAddr, q: int) -> bool {
    let b = old.len() as int;
    match d_packet(s) {
        Some((VPacket::Connect { client_id, .. }, rest)) => {
            let ps = packets(rest);
            &&& es.len() == b + ps.len() + 2
            &&& forall|i: int| 0 <= i < b ==> #[trigger] es[i] == old[i]
            &&& forall|i: int| b <= i < es.len() ==> (#[trigger] es[i]).0 == to
            &&& told_connect(es[b].1, named(d_packet(s)->Some_0.0, id_of(es[b].1)), address, q)
            &&& if client_id.len() == 0 { id_of(es[b].1).len() > 0 && generated(id_of(es[b].1)) } else { id_of(es[b].1) == client_id }
            &&& forall|i: int| b < i < es.len() - 1 ==> told_packet((#[trigger] es[i]).1, id_of(es[b].1), ps[i - b - 1], q)
            &&& told_lost(es.last().1, id_of(es[b].1), q)
        },
        _ => es == old,
    }
}

pub open spec fn id_of(e: ClientEvent) -> Seq<char> {
    match e {
        ClientEvent::Connected(c, _, _) => c.client_id@,
        _ => Seq::empty(),
    }
}

pub open spec fn told_connect(e: ClientEvent, p: VPacket, address: SocketAddr, q: int) -> bool {
    match e {
        ClientEvent::Connected(c, a, tx) => ControlPacket::Connect(c).v() == p && a == address && chan(tx) == q,
        _ => false,
    }
}

pub open spec fn told_packet(e: ClientEvent, id: Seq<char>, p: VPacket, q: int) -> bool {
    match e {
        ClientEvent::ControlPacket(c, x, tx) => c@ == id && x.v() == p && chan(tx) == q,
        _ => false,
    }
}

pub open spec fn told_lost(e: ClientEvent, id: Seq<char>, q: int) -> bool {
    match e {
        ClientEvent::ConnectionLost(c, tx) => c@ == id && chan(tx) == q,
        _ => false,
    }
}

/// The bytes of these packets, one after another.
pub open spec fn bytes_of(es: Seq<ServerEvent>) -> Seq<u8>
    decreases es.len()
{
    if es.len() == 0 {
        Seq::empty()
    } else {
        match es.last().v() {
            VEvent::Packet(p) => bytes_of(es.drop_last()) + e_packet(p),
            VEvent::Disconnect => bytes_of(es.drop_last()),
        }
    }
}

/// How a stream can look after these packets, when writing fails at times.
pub open spec fn went(a: Seq<u8>, es: Seq<ServerEvent>, b: Seq<u8>) -> bool
    decreases es.len()
{
    if es.len() == 0 {
        a == b
    } else {
        exists|m: Seq<u8>| went(a, es.drop_last(), m) && #[trigger] is_prefix(b, m + e_packet(es.last().v()->Packet_0))
    }
}

/// The number of events before the first request to close the connection.
pub open spec fn due(es: Seq<ServerEvent>) -> nat
    decreases es.len()
{
    if es.len() == 0 || es[0] is Disconnect { 0 } else { 1 + due(es.drop_first()) }
}

pub proof fn lemma_due(es: Seq<ServerEvent>, n: int)
    requires
        0 <= n <= es.len(),
        forall|i: int| 0 <= i < n ==> (#[trigger] es[i]) is ControlPacket,
    ensures
        n <= due(es),
        n == es.len() || es[n] is Disconnect ==> n == due(es),
    decreases n
{
    if n > 0 {
        assert(es[0] is ControlPacket);
        assert forall|i: int| 0 <= i < n - 1 implies (#[trigger] es.drop_first()[i]) is ControlPacket by {
            assert(es[i + 1] is ControlPacket);
        }
        lemma_due(es.drop_first(), n - 1);
    }
}

pub proof fn lemma_went(a: Seq<u8>, es: Seq<ServerEvent>, m: Seq<u8>, e: ServerEvent, b: Seq<u8>)
    requires
        went(a, es, m),
        is_prefix(b, m + e_packet(e.v()->Packet_0)),
    ensures
        went(a, es.push(e), b),
{
    assert(es.push(e).drop_last() =~= es);
    assert(is_prefix(b, m + e_packet(es.push(e).last().v()->Packet_0)));
}

/// Whatever is put into the queue of a connection can be encoded.
pub open spec fn queue_fits(r: Receiver<ServerEvent>) -> bool {
    forall|i: int| 0 <= i < due(pending(r)) ==> sendable((#[trigger] pending(r)[i]).v()->Packet_0)
}

/// A connection is looked after: its input is reported, with a queue of its own whose events are
/// written to it.
pub open spec fn looked_after(a: VxWorld, s: TcpStream, address: SocketAddr, to: int, b: VxWorld) -> bool {
    exists|q: int|
        {
            &&& #[trigger] told(a.reports, b.reports, incoming_of(s), to, address, q)
            &&& b == VxWorld { reports: b.reports, writers: a.writers.push((q, socket_of(s))), ..a }
        }
}

/// These connections are accepted, and looked after, one after another.
pub open spec fn all_tended(a: VxWorld, ss: Seq<TcpStream>, to: int, b: VxWorld) -> bool
    decreases ss.len()
{
    if ss.len() == 0 {
        a == b
    } else {
        exists|m: VxWorld| all_tended(a, ss.drop_last(), to, m) && #[trigger] looked_after(accepted(m, ss.last()), ss.last(), peer_of(ss.last()), to, b)
    }
}

@fn MqttListener::bind(address, client_event_tx, ctrl_c_rx) -> r
@props C28
    requires
        can_bind(address@), // the address can be bound
    ensures
        r is Ok, //@ C28
        bound_to(r->Ok_0.socket_v()) == address@, //@ C28
        chan(r->Ok_0.tx_v()) == chan(client_event_tx), //@ C28
        signal_of(r->Ok_0.stop_v()) == signal_of(ctrl_c_rx), //@ C28
@fn MqttListener::accept(listener, client_event_tx)
@props C19 C20
@spawns
    requires
        forall|r: Receiver<ServerEvent>| #[trigger] queue_fits(r),
    ensures
        *final(vx_w) == *old(vx_w) || exists|s: TcpStream| #[trigger] looked_after(accepted(*old(vx_w), s), s, peer_of(s), chan(*client_event_tx), *final(vx_w)), //@ C19 C20
@fn MqttListener::handle_connection(socket, client_event_tx, address)
@props C19 C20
@spawns
    requires
        forall|r: Receiver<ServerEvent>| #[trigger] queue_fits(r),
    ensures
        looked_after(*old(vx_w), socket, address, chan(client_event_tx), *final(vx_w)), //@ C19 C20
@fn MqttListener::start_accepting()
@props C19 C20
    requires
        forall|r: Receiver<ServerEvent>| #[trigger] queue_fits(r),
    ensures
        exists|ss: Seq<TcpStream>| #[trigger] all_tended(*old(vx_w), ss, chan(self.tx_v()), *final(vx_w)), //@ C19 C20
@attr #[verifier::exec_allows_no_decreases_clause]
@enter
    let ghost self0 = self;
    let ghost mut ss: Seq<TcpStream> = Seq::empty();
@loop 1 loop
    invariant
        forall|r: Receiver<ServerEvent>| #[trigger] queue_fits(r),
        self.client_event_tx == self0.client_event_tx,
        all_tended(*old(vx_w), ss, chan(self.client_event_tx), *vx_w), //@ C19 C20
@top 1
    let ghost w1 = *vx_w;
@bottom 1
    proof {
        if *vx_w != w1 {
            let s = choose|s: TcpStream| #[trigger] looked_after(accepted(w1, s), s, peer_of(s), chan(self.client_event_tx), *vx_w);
            assert(ss.push(s).drop_last() =~= ss);
            assert(ss.push(s).last() == s);
            assert(looked_after(accepted(w1, ss.push(s).last()), ss.push(s).last(), peer_of(ss.push(s).last()), chan(self.client_event_tx), *vx_w));
            ss = ss.push(s);
        }
    }
@after 1
    proof {
        assert(all_tended(*old(vx_w), ss, chan(self0.tx_v()), *vx_w));
    }
@fn MqttListener::connection_read_loop(client_event_tx, server_event_tx, read_stream, address)
@props C19
    ensures
        *final(vx_w) == (VxWorld { reports: final(vx_w).reports, ..*old(vx_w) }), //@ C19
        told(old(vx_w).reports, final(vx_w).reports, old(read_stream).rview(), chan(client_event_tx), address, chan(server_event_tx)), //@ C19
@enter
    let ghost s0 = read_stream.rview();
    let ghost r0 = vx_w.reports;
    let ghost mut ps: Seq<VPacket> = Seq::empty();
    broadcast use lemma_packet_shrinks;
@local client_id ~ client_id
@vars 1 packet
@attr #[verifier::allow_complex_invariants]
@before 1
    let ghost mut s1 = read_stream.rview();
    proof {
        assert(packets(s1) =~= ps + packets(s1));
    }
@loop 1 while
    invariant
        *vx_w == (VxWorld { reports: vx_w.reports, ..*old(vx_w) }),
        vx_w.reports.len() == r0.len() + 1 + ps.len(), //@ C19
        forall|i: int| 0 <= i < r0.len() ==> #[trigger] vx_w.reports[i] == r0[i], //@ C19
        forall|i: int| r0.len() <= i < vx_w.reports.len() ==> (#[trigger] vx_w.reports[i]).0 == chan(client_event_tx), //@ C19
        forall|i: int| r0.len() < i < vx_w.reports.len() ==> told_packet((#[trigger] vx_w.reports[i]).1, client_id@, ps[i - r0.len() - 1], chan(server_event_tx)), //@ C19
        d_packet(s0) matches Some((VPacket::Connect { client_id: c, .. }, rest)) && packets(rest) == ps + packets(read_stream.rview())
            && (if c.len() == 0 { client_id@.len() > 0 && generated(client_id@) } else { client_id@ == c }), //@ C19
        told_connect(vx_w.reports[r0.len() as int].1, named(d_packet(s0)->Some_0.0, client_id@), address, chan(server_event_tx)), //@ C19
        id_of(vx_w.reports[r0.len() as int].1) == client_id@, //@ C19
        s1 == read_stream.rview(),
    ensures
        d_packet(s1) is None, //@ C19
    decreases s1.len(),
@top 1
    let ghost s2 = s1;
    let ghost w2 = *vx_w;
    let ghost packet1 = packet;
@bottom 1
    proof {
        assert(packets(s2) == seq![packet1.v()] + packets(read_stream.rview()));
        assert(ps + packets(s2) =~= ps.push(packet1.v()) + packets(read_stream.rview()));
        ps = ps.push(packet1.v());
        s1 = read_stream.rview();
    }
@after 1
    proof {
        assert(ps + packets(s1) =~= ps);
    }
@fn MqttListener::connection_write_loop(server_event_rx, write_stream)
@props C20
    requires
        queue_fits(server_event_rx),
        old(write_stream).pending().len() == 0,
    ensures
        *final(vx_w) == (VxWorld { writers: old(vx_w).writers.push((chan_of(server_event_rx), old(write_stream).socket())), ..*old(vx_w) }), //@ C20
        !old(write_stream).failing() ==> final(write_stream).sent() == old(write_stream).sent() + bytes_of(pending(server_event_rx).take(due(pending(server_event_rx)) as int)), //@ C20
        !old(write_stream).failing() ==> final(write_stream).pending().len() == 0, //@ C20
        went(old(write_stream).wview(), pending(server_event_rx).take(due(pending(server_event_rx)) as int), final(write_stream).wview()), //@ C20
@attr #[verifier::allow_complex_invariants]
@enter
    let ghost all = pending(server_event_rx);
    let ghost v0 = write_stream.wview();
    let ghost mut n = 0int;
    let ghost w1 = VxWorld { writers: vx_w.writers.push((chan_of(server_event_rx), write_stream.socket())), ..*vx_w };
    proof {
        vx_w.writers = vx_w.writers.push((chan_of(server_event_rx), write_stream.socket()));
    }
@vars 1 event
@before 1
    proof {
        assert(all.skip(0) =~= all);
        assert(v0 + bytes_of(all.take(0)) =~= v0);
    }
@loop 1 while
    invariant_except_break
        pending(server_event_rx) == all.skip(n), //@ C20
    invariant
        all == pending(vx0_server_event_rx),
        v0 == old(write_stream).wview(),
        queue_fits(vx0_server_event_rx),
        *vx_w == w1, //@ C20
        0 <= n <= all.len(),
        forall|i: int| 0 <= i < n ==> (#[trigger] all[i]) is ControlPacket, //@ C20
        write_stream.failing() == old(write_stream).failing(),
        !write_stream.failing() ==> write_stream.wview() == v0 + bytes_of(all.take(n)), //@ C20
        !write_stream.failing() ==> write_stream.pending().len() == 0, //@ C20
        went(v0, all.take(n), write_stream.wview()), //@ C20
    ensures
        n == all.len() || all[n] is Disconnect, //@ C20
    decreases pending(server_event_rx).len(),
@top 1
    let ghost event1 = event;
    let ghost v1 = write_stream.wview();
    proof {
        assert(event1 == all[n]);
        if event1 is ControlPacket {
            lemma_due(all, n + 1);
        }
    }
@bottom 1
    proof {
        assert(all.take(n + 1) =~= all.take(n).push(event1));
        lemma_went(v0, all.take(n), v1, event1, write_stream.wview()); //@ C20
        assert(all.take(n + 1).drop_last() =~= all.take(n));
        assert(bytes_of(all.take(n + 1)) == bytes_of(all.take(n)) + e_packet(event1.v()->Packet_0));
        assert(v0 + bytes_of(all.take(n)) + e_packet(event1.v()->Packet_0) =~= v0 + bytes_of(all.take(n + 1)));
        assert(all.skip(n).drop_first() =~= all.skip(n + 1));
        n = n + 1;
    }
@after 1
    proof {
        lemma_due(all, n);
    }
