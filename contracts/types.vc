@area types
@spec vx_prelude /verif/contracts/prelude.rs
@spec vx_mqtt /verif/contracts/mqtt_spec.rs

@module mqtt::message
@use crate::vx_prelude::*
@use crate::vx_mqtt::*
@clone Message C13 C14 :: vx_r.v() == self.v()
@append
impl Message {
    pub open spec fn v(&self) -> VMsg {
        VMsg { topic: self.topic@, payload: bmv(self.payload), qos: self.qos.n(), retain: self.retain }
    }
}

@module mqtt::subscription
@use crate::vx_prelude::*
@clone Subscription C08 C15
@append
impl Subscription {
    pub closed spec fn topic_v(&self) -> Seq<char> { self.topic@ }
    pub closed spec fn qos_v(&self) -> int { self.qos.n() }
}
@fn Subscription::new(topic, qos) -> r
    ensures
        r.topic_v() == topic@,
        r.qos_v() == qos.n(),
@fn Subscription::topic() -> r
    ensures
        r@ == self.topic_v(),

@module mqtt::events
@use crate::vx_prelude::*
@append
impl ServerEvent {
    pub open spec fn v(&self) -> VEvent {
        match self {
            ServerEvent::ControlPacket(p) => VEvent::Packet(p.v()),
            ServerEvent::Disconnect => VEvent::Disconnect,
        }
    }
}
impl VxMsg for ServerEvent {
    open spec fn sent(s: Sender<ServerEvent>, v: ServerEvent, ok: bool, a: VxWorld, b: VxWorld) -> bool {
        b == (VxWorld { out: a.out.push(Sent { to: chan(s), event: v.v(), settled: a.settled }), ..a })
    }
}
impl VxMsg for ClientEvent {
    open spec fn sent(s: Sender<ClientEvent>, v: ClientEvent, ok: bool, a: VxWorld, b: VxWorld) -> bool {
        b == (VxWorld { reports: a.reports.push((chan(s), v)), ..a })
    }
}

@module mqtt::packets
@use crate::vx_prelude::*
@use crate::vx_mqtt::*
@external impl Default
@clone ProtocolVersion
@clone QoS C13
@clone ControlPacket C13 C14 C20 :: vx_r.v() == self.v()
@append
impl QoS {
    pub open spec fn n(&self) -> int {
        match self { QoS::AtMostOnce => 0, QoS::AtLeastOnce => 1, QoS::ExactlyOnce => 2 }
    }
}
impl vstd::std_specs::cmp::PartialOrdSpecImpl for QoS {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &QoS) -> Option<core::cmp::Ordering> {
        if self.n() < o.n() { Some(core::cmp::Ordering::Less) }
        else if self.n() == o.n() { Some(core::cmp::Ordering::Equal) }
        else { Some(core::cmp::Ordering::Greater) }
    }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for QoS {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &QoS) -> bool { *self == *o }
}
pub open spec fn opt_str_v(s: Option<String>) -> Option<Seq<char>> {
    match s { None => None, Some(t) => Some(t@) }
}
pub open spec fn opt_msg_v(s: Option<crate::mqtt::message::Message>) -> Option<VMsg> {
    match s { None => None, Some(t) => Some(t.v()) }
}
impl ConnectPacket {
    pub open spec fn v(&self) -> VPacket {
        VPacket::Connect {
            client_id: self.client_id@,
            keep_alive: self.keep_alive_seconds,
            clean: self.clean_session,
            will: opt_msg_v(self.will_message),
            user: opt_str_v(self.user_name),
            password: opt_str_v(self.password),
        }
    }
}
pub open spec fn codes_v(c: Seq<crate::mqtt::packets::suback::SubAckReturnCode>) -> Seq<int> {
    c.map_values(|x: crate::mqtt::packets::suback::SubAckReturnCode| x.n())
}
pub open spec fn subs_v(c: Seq<crate::mqtt::subscription::Subscription>) -> Seq<(Seq<char>, int)> {
    c.map_values(|x: crate::mqtt::subscription::Subscription| (x.topic_v(), x.qos_v()))
}
pub open spec fn strs_v(c: Seq<String>) -> Seq<Seq<char>> {
    c.map_values(|x: String| x@)
}
impl ControlPacket {
    pub open spec fn v(&self) -> VPacket {
        match self {
            ControlPacket::Connect(c) => c.v(),
            ControlPacket::ConnAck(c) => VPacket::ConnAck { session_present: c.session_present, code: c.return_code.n() },
            ControlPacket::Publish(p) => VPacket::Publish { dup: p.dup, id: p.packet_id, msg: p.message.v() },
            ControlPacket::PubAck(p) => VPacket::PubAck(p.packet_id),
            ControlPacket::PubRec(p) => VPacket::PubRec(p.packet_id),
            ControlPacket::PubRel(p) => VPacket::PubRel(p.packet_id),
            ControlPacket::PubComp(p) => VPacket::PubComp(p.packet_id),
            ControlPacket::Subscribe(p) => VPacket::Subscribe { id: p.packet_id, filters: subs_v(p.subscriptions@) },
            ControlPacket::SubAck(p) => VPacket::SubAck { id: p.packet_id, codes: codes_v(p.return_codes@) },
            ControlPacket::Unsubscribe(p) => VPacket::Unsubscribe { id: p.packet_id, filters: strs_v(p.topics@) },
            ControlPacket::UnsubAck(p) => VPacket::UnsubAck(p.packet_id),
            ControlPacket::PingReq => VPacket::PingReq,
            ControlPacket::PingResp => VPacket::PingResp,
            ControlPacket::Disconnect(_) => VPacket::Disconnect,
        }
    }
}
@fn QoS::from_bits(bits) -> r
    requires
        bits <= 2, //@ C03
    ensures
        r.n() == bits, //@ C01

@module mqtt::packets::connack
@clone ConnAckReturnCode C05
@clone ConnAckPacket
@external impl Default
@append
impl ConnAckReturnCode {
    pub open spec fn n(&self) -> int {
        match self {
            ConnAckReturnCode::Accepted => 0,
            ConnAckReturnCode::UnacceptableProtocolVersion => 1,
            ConnAckReturnCode::IdentifierRejected => 2,
            ConnAckReturnCode::ServerUnavailable => 3,
            ConnAckReturnCode::BadUserNameOrPassword => 4,
            ConnAckReturnCode::NotAuthorized => 5,
        }
    }
}
@fn ConnAckPacket::new(session_present, return_code) -> r
    ensures
        r.session_present == session_present,
        r.return_code == return_code,

@module mqtt::packets::connect
@clone ConnectPacket :: vx_r.v() == self.v()
@fn ConnectPacket::new(version, client_id, keep_alive_seconds, clean_session, will_message, user_name, password) -> r
    ensures
        r.client_id == client_id,
        r.keep_alive_seconds == keep_alive_seconds,
        r.clean_session == clean_session,
        r.will_message == will_message,
        r.user_name == user_name,
        r.password == password,

@module mqtt::packets::disconnect
@clone DisconnectPacket

@module mqtt::packets::puback
@clone PubAckPacket
@fn PubAckPacket::new(packet_id) -> r
    ensures
        r.packet_id == packet_id,

@module mqtt::packets::pubrec
@clone PubRecPacket
@fn PubRecPacket::new(packet_id) -> r
    ensures
        r.packet_id == packet_id,

@module mqtt::packets::pubrel
@clone PubRelPacket
@fn PubRelPacket::new(packet_id) -> r
    ensures
        r.packet_id == packet_id,

@module mqtt::packets::pubcomp
@clone PubCompPacket
@fn PubCompPacket::new(packet_id) -> r
    ensures
        r.packet_id == packet_id,

@module mqtt::packets::unsuback
@clone UnSubAckPacket
@fn UnSubAckPacket::new(packet_id) -> r
    ensures
        r.packet_id == packet_id,

@module mqtt::packets::suback
@clone SubAckReturnCode C05 C15
@clone SubAckPacket :: vx_r.packet_id == self.packet_id, vx_r.return_codes@ =~= self.return_codes@
@external impl Default
@append
impl SubAckReturnCode {
    pub open spec fn n(&self) -> int {
        match self {
            SubAckReturnCode::SuccessQoS0 => 0,
            SubAckReturnCode::SuccessQoS1 => 1,
            SubAckReturnCode::SuccessQoS2 => 2,
            SubAckReturnCode::Failure => 128,
        }
    }
}
@fn SubAckPacket::new(packet_id, return_codes) -> r
    ensures
        r.packet_id == packet_id,
        r.return_codes == return_codes,

@module mqtt::packets::subscribe
@clone SubscribePacket :: vx_r.packet_id == self.packet_id, vx_r.subscriptions@ =~= self.subscriptions@
@fn SubscribePacket::new(packet_id, subscriptions) -> r
    ensures
        r.packet_id == packet_id,
        r.subscriptions == subscriptions,

@module mqtt::packets::unsubscribe
@clone UnsubscribePacket :: vx_r.packet_id == self.packet_id, vx_r.topics@ =~= self.topics@
@fn UnsubscribePacket::new(packet_id, topics) -> r
    ensures
        r.packet_id == packet_id,
        r.topics == topics,

@module mqtt::packets::publish
@clone PublishPacket C13 C14 :: vx_r.dup == self.dup, vx_r.packet_id == self.packet_id, vx_r.message.v() == self.message.v()
@fn PublishPacket::new(topic, body, qos, retain, packet_id, dup) -> r
    ensures
        r.packet_id == packet_id,
        r.dup == dup,
        r.message.topic == topic,
        r.message.payload == body,
        r.message.qos == qos,
        r.message.retain == retain,

@module mqtt::packets
@fn ControlPacket::new(packet_id) -> r
    requires
        1 <= packet_id <= 14,
