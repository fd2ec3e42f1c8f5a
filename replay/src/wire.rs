//! The MQTT 3.1.1 wire format once more, as an executable oracle: written from the format, not
//! from the code under test.

use crate::rng::Rng;
use bytes::BytesMut;
use ratelmq::mqtt::message::Message;
use ratelmq::mqtt::packets::connack::*;
use ratelmq::mqtt::packets::connect::*;
use ratelmq::mqtt::packets::disconnect::*;
use ratelmq::mqtt::packets::puback::*;
use ratelmq::mqtt::packets::pubcomp::*;
use ratelmq::mqtt::packets::publish::*;
use ratelmq::mqtt::packets::pubrec::*;
use ratelmq::mqtt::packets::pubrel::*;
use ratelmq::mqtt::packets::suback::*;
use ratelmq::mqtt::packets::subscribe::*;
use ratelmq::mqtt::packets::unsuback::*;
use ratelmq::mqtt::packets::unsubscribe::*;
use ratelmq::mqtt::packets::{ControlPacket, ProtocolVersion, QoS};
use ratelmq::mqtt::subscription::Subscription;

#[derive(Clone, Debug, PartialEq)]
pub struct Msg {
    pub topic: String,
    pub payload: Vec<u8>,
    pub qos: u8,
    pub retain: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub enum P {
    Connect { client_id: String, keep_alive: u16, clean: bool, will: Option<Msg>, user: Option<String>, password: Option<String> },
    ConnAck { session_present: bool, code: u8 },
    Publish { dup: bool, id: Option<u16>, msg: Msg },
    PubAck(u16),
    PubRec(u16),
    PubRel(u16),
    PubComp(u16),
    Subscribe { id: u16, filters: Vec<(String, u8)> },
    SubAck { id: u16, codes: Vec<u8> },
    Unsubscribe { id: u16, filters: Vec<String> },
    UnsubAck(u16),
    PingReq,
    PingResp,
    Disconnect,
}

fn s_str(out: &mut Vec<u8>, s: &[u8]) {
    out.push((s.len() >> 8) as u8);
    out.push(s.len() as u8);
    out.extend_from_slice(s);
}

fn s_u16(out: &mut Vec<u8>, n: u16) {
    out.push((n >> 8) as u8);
    out.push(n as u8);
}

/// Minimal remaining length, or one padded to `width` bytes.
pub fn remaining_length(mut n: usize, width: usize) -> Vec<u8> {
    let mut out = vec![];
    loop {
        let d = (n % 128) as u8;
        n /= 128;
        if n > 0 || out.len() + 1 < width {
            out.push(d | 128);
        } else {
            out.push(d);
            return out;
        }
    }
}

impl P {
    /// First byte, and everything after the remaining length.
    pub fn parts(&self) -> (u8, Vec<u8>) {
        let mut b = vec![];
        let first = match self {
            P::Connect { client_id, keep_alive, clean, will, user, password } => {
                s_str(&mut b, b"MQTT");
                b.push(4);
                let mut f = 0u8;
                if *clean {
                    f |= 2;
                }
                if let Some(w) = will {
                    f |= 4 | (w.qos << 3) | if w.retain { 32 } else { 0 };
                }
                if password.is_some() {
                    f |= 64;
                }
                if user.is_some() {
                    f |= 128;
                }
                b.push(f);
                s_u16(&mut b, *keep_alive);
                s_str(&mut b, client_id.as_bytes());
                if let Some(w) = will {
                    s_str(&mut b, w.topic.as_bytes());
                    s_str(&mut b, &w.payload);
                }
                if let Some(u) = user {
                    s_str(&mut b, u.as_bytes());
                }
                if let Some(p) = password {
                    s_str(&mut b, p.as_bytes());
                }
                0x10
            }
            P::ConnAck { session_present, code } => {
                b.push(*session_present as u8);
                b.push(*code);
                0x20
            }
            P::Publish { dup, id, msg } => {
                s_str(&mut b, msg.topic.as_bytes());
                if let Some(id) = id {
                    s_u16(&mut b, *id);
                }
                b.extend_from_slice(&msg.payload);
                0x30 | if *dup { 8 } else { 0 } | msg.qos << 1 | msg.retain as u8
            }
            P::PubAck(id) => {
                s_u16(&mut b, *id);
                0x40
            }
            P::PubRec(id) => {
                s_u16(&mut b, *id);
                0x50
            }
            P::PubRel(id) => {
                s_u16(&mut b, *id);
                0x62
            }
            P::PubComp(id) => {
                s_u16(&mut b, *id);
                0x70
            }
            P::Subscribe { id, filters } => {
                s_u16(&mut b, *id);
                for (f, q) in filters {
                    s_str(&mut b, f.as_bytes());
                    b.push(*q);
                }
                0x82
            }
            P::SubAck { id, codes } => {
                s_u16(&mut b, *id);
                b.extend_from_slice(codes);
                0x90
            }
            P::Unsubscribe { id, filters } => {
                s_u16(&mut b, *id);
                for f in filters {
                    s_str(&mut b, f.as_bytes());
                }
                0xa2
            }
            P::UnsubAck(id) => {
                s_u16(&mut b, *id);
                0xb0
            }
            P::PingReq => 0xc0,
            P::PingResp => 0xd0,
            P::Disconnect => 0xe0,
        };
        (first, b)
    }

    pub fn encode(&self) -> Vec<u8> {
        self.encode_width(1)
    }

    pub fn encode_width(&self, width: usize) -> Vec<u8> {
        let (first, b) = self.parts();
        let mut out = vec![first];
        out.extend(remaining_length(b.len(), width));
        out.extend(b);
        out
    }

    /// The value of the code under test that stands for this packet.
    pub fn control(&self) -> ControlPacket {
        let q = |n: u8| match n {
            0 => QoS::AtMostOnce,
            1 => QoS::AtLeastOnce,
            _ => QoS::ExactlyOnce,
        };
        let m = |m: &Msg| Message { topic: m.topic.clone(), payload: BytesMut::from(&m.payload[..]), qos: q(m.qos), retain: m.retain };
        match self {
            P::Connect { client_id, keep_alive, clean, will, user, password } => ControlPacket::Connect(ConnectPacket {
                version: ProtocolVersion::Mqtt3,
                client_id: client_id.clone(),
                keep_alive_seconds: *keep_alive,
                clean_session: *clean,
                will_message: will.as_ref().map(m),
                user_name: user.clone(),
                password: password.clone(),
            }),
            P::ConnAck { session_present, code } => ControlPacket::ConnAck(ConnAckPacket {
                session_present: *session_present,
                return_code: match code {
                    0 => ConnAckReturnCode::Accepted,
                    1 => ConnAckReturnCode::UnacceptableProtocolVersion,
                    2 => ConnAckReturnCode::IdentifierRejected,
                    3 => ConnAckReturnCode::ServerUnavailable,
                    4 => ConnAckReturnCode::BadUserNameOrPassword,
                    _ => ConnAckReturnCode::NotAuthorized,
                },
            }),
            P::Publish { dup, id, msg } => ControlPacket::Publish(PublishPacket { packet_id: *id, dup: *dup, message: m(msg) }),
            P::PubAck(id) => ControlPacket::PubAck(PubAckPacket { packet_id: *id }),
            P::PubRec(id) => ControlPacket::PubRec(PubRecPacket { packet_id: *id }),
            P::PubRel(id) => ControlPacket::PubRel(PubRelPacket { packet_id: *id }),
            P::PubComp(id) => ControlPacket::PubComp(PubCompPacket { packet_id: *id }),
            P::Subscribe { id, filters } => ControlPacket::Subscribe(SubscribePacket {
                packet_id: *id,
                subscriptions: filters.iter().map(|(f, n)| Subscription::new(f.clone(), q(*n))).collect(),
            }),
            P::SubAck { id, codes } => ControlPacket::SubAck(SubAckPacket {
                packet_id: *id,
                return_codes: codes
                    .iter()
                    .map(|c| match c {
                        0 => SubAckReturnCode::SuccessQoS0,
                        1 => SubAckReturnCode::SuccessQoS1,
                        2 => SubAckReturnCode::SuccessQoS2,
                        _ => SubAckReturnCode::Failure,
                    })
                    .collect(),
            }),
            P::Unsubscribe { id, filters } => ControlPacket::Unsubscribe(UnsubscribePacket { packet_id: *id, topics: filters.clone() }),
            P::UnsubAck(id) => ControlPacket::UnsubAck(UnSubAckPacket { packet_id: *id }),
            P::PingReq => ControlPacket::PingReq,
            P::PingResp => ControlPacket::PingResp,
            P::Disconnect => ControlPacket::Disconnect(DisconnectPacket {}),
        }
    }
}

// ------------------------------------------------------------------------------- decoding

struct Cur<'a> {
    s: &'a [u8],
}

impl<'a> Cur<'a> {
    fn u8(&mut self) -> Option<u8> {
        let (a, b) = self.s.split_first()?;
        self.s = b;
        Some(*a)
    }
    fn u16(&mut self) -> Option<u16> {
        Some((self.u8()? as u16) << 8 | self.u8()? as u16)
    }
    fn bytes(&mut self, n: usize) -> Option<&'a [u8]> {
        if self.s.len() < n {
            return None;
        }
        let (a, b) = self.s.split_at(n);
        self.s = b;
        Some(a)
    }
    fn bin(&mut self) -> Option<&'a [u8]> {
        let n = self.u16()? as usize;
        self.bytes(n)
    }
    fn text(&mut self) -> Option<String> {
        String::from_utf8(self.bin()?.to_vec()).ok()
    }
}

/// The client packet these bytes start with, and how many bytes it takes.
pub fn decode(s: &[u8]) -> Option<(P, usize)> {
    let mut c = Cur { s };
    let first = c.u8()?;
    let mut len = 0usize;
    let mut done = false;
    for i in 0..4 {
        let d = c.u8()?;
        len |= ((d & 127) as usize) << (7 * i);
        if d < 128 {
            done = true;
            break;
        }
    }
    if !done {
        return None;
    }
    let at = s.len() - c.s.len();
    let body = c.bytes(len)?;
    let mut b = Cur { s: body };
    let p = match first {
        0x10 => {
            b.text()?;
            b.u8()?;
            let f = b.u8()?;
            if f & 1 != 0 || (f & 4 == 0 && f & 0x38 != 0) || f & 0x18 == 0x18 || (f & 0xc0 == 0x40) {
                return None;
            }
            let keep_alive = b.u16()?;
            let client_id = b.text()?;
            let will = if f & 4 != 0 {
                Some(Msg { topic: b.text()?, payload: b.bin()?.to_vec(), qos: f >> 3 & 3, retain: f & 32 != 0 })
            } else {
                None
            };
            let user = if f & 128 != 0 { Some(b.text()?) } else { None };
            let password = if f & 64 != 0 { Some(b.text()?) } else { None };
            P::Connect { client_id, keep_alive, clean: f & 2 != 0, will, user, password }
        }
        0x30..=0x3f => {
            let qos = first >> 1 & 3;
            if qos > 2 {
                return None;
            }
            let topic = b.text()?;
            let id = if qos > 0 { Some(b.u16()?) } else { None };
            let n = b.s.len();
            let payload = b.bytes(n)?.to_vec();
            P::Publish { dup: first & 8 != 0, id, msg: Msg { topic, payload, qos, retain: first & 1 != 0 } }
        }
        0x40 => P::PubAck(b.u16()?),
        0x50 => P::PubRec(b.u16()?),
        0x62 => P::PubRel(b.u16()?),
        0x70 => P::PubComp(b.u16()?),
        0x82 => {
            let id = b.u16()?;
            let mut filters = vec![];
            while !b.s.is_empty() {
                let f = b.text()?;
                let q = b.u8()?;
                if q > 2 {
                    return None;
                }
                filters.push((f, q));
            }
            if filters.is_empty() {
                return None;
            }
            P::Subscribe { id, filters }
        }
        0xa2 => {
            let id = b.u16()?;
            let mut filters = vec![];
            while !b.s.is_empty() {
                filters.push(b.text()?);
            }
            if filters.is_empty() {
                return None;
            }
            P::Unsubscribe { id, filters }
        }
        0xc0 => P::PingReq,
        0xe0 => P::Disconnect,
        _ => return None,
    };
    if !b.s.is_empty() {
        return None;
    }
    Some((p, at + len))
}

// ------------------------------------------------------------------------------- generation

pub fn text(r: &mut Rng, max: usize) -> String {
    if let Some(w) = r.word() {
        if w.len() <= max {
            return w;
        }
    }
    if let Some(n) = r.number(max) {
        return "n".repeat(n);
    }
    let n = match r.below(8) {
        0 => 0,
        1 => r.range(0, max),
        _ => r.range(0, max.min(12)),
    };
    let mut s = String::new();
    while s.len() < n {
        let c = match r.below(10) {
            0 => *r.pick(&['/', '+', '#', '$', ':', '\u{0}', '\n']),
            1 => *r.pick(&['é', 'ß', '漢', '😀', '\u{7ff}', '\u{800}', '\u{ffff}', '\u{10ffff}', '\u{feff}', '\u{fffd}', '\u{301}', '\u{a0}', '\u{200b}', 'İ', 'A', ' ', '\t', '\r', '\u{7f}', '\\', '"']),
            _ => (b'a' + r.below(26) as u8) as char,
        };
        if s.len() + c.len_utf8() > n {
            s.push('x');
        } else {
            s.push(c);
        }
    }
    s
}

fn size(r: &mut Rng, big: bool) -> usize {
    if let Some(n) = r.number(if big { 3_000_000 } else { 70_000 }) {
        return n;
    }
    if big && r.chance(1) {
        return *r.pick(&[70_000, 70_000, 2_097_140, 2_097_152, 2_100_000]);
    }
    match r.below(if big { 58 } else { 40 }) {
        0..=24 => r.below(24),
        25..=31 => *r.pick(&[0, 1, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129]),
        32..=36 => r.below(700),
        37..=39 => *r.pick(&[4090, 4095, 4096, 4097, 5000, 16370, 16376, 16377, 16378, 16379, 16380, 16383, 16384, 16390]),
        _ => r.below(3000),
    }
}

pub fn msg(r: &mut Rng, will: bool, big: bool) -> Msg {
    let n = if will { size(r, false).min(65535) } else { size(r, big) };
    Msg { topic: text(r, 300), payload: r.bytes(n), qos: r.below(3) as u8, retain: r.chance(50) }
}

/// A packet a client may send.
pub fn client_packet(r: &mut Rng, big: bool) -> P {
    match r.below(14) {
        0..=2 => {
            let user = if r.chance(60) { Some(text(r, 40)) } else { None };
            let password = if user.is_some() && r.chance(60) { Some(text(r, 40)) } else { None };
            let long = if r.chance(3) { 65535 } else { 60 };
            P::Connect {
                client_id: text(r, long),
                keep_alive: r.u16(),
                clean: r.chance(50),
                will: if r.chance(50) { Some(msg(r, true, big)) } else { None },
                user,
                password,
            }
        }
        3..=5 => publish(r, big),
        6 => P::PubAck(r.u16()),
        7 => P::PubRec(r.u16()),
        8 => P::PubRel(r.u16()),
        9 => P::PubComp(r.u16()),
        10 => {
            let n = r.number(500).unwrap_or(0).max(if r.chance(4) { r.range(1, 80) } else { r.range(1, 4) });
            P::Subscribe { id: r.u16(), filters: (0..n).map(|_| (text(r, 60), r.below(3) as u8)).collect() }
        }
        11 => {
            let n = r.number(500).unwrap_or(0).max(if r.chance(4) { r.range(1, 80) } else { r.range(1, 4) });
            P::Unsubscribe { id: r.u16(), filters: (0..n).map(|_| text(r, 60)).collect() }
        }
        12 => P::PingReq,
        _ => P::Disconnect,
    }
}

pub fn publish(r: &mut Rng, big: bool) -> P {
    let msg = msg(r, false, big);
    P::Publish { dup: r.chance(50), id: if msg.qos > 0 { Some(r.u16()) } else { None }, msg }
}

/// A packet the broker may send.
pub fn server_packet(r: &mut Rng, big: bool) -> P {
    match r.below(12) {
        0 | 1 => P::ConnAck { session_present: r.chance(50), code: r.below(6) as u8 },
        2..=5 => publish(r, big),
        6 => P::PubAck(r.u16()),
        7 => P::PubRec(r.u16()),
        8 => P::PubRel(r.u16()),
        9 => P::PubComp(r.u16()),
        10 => {
            let n = if r.chance(15) { size(r, false) } else { r.below(6) };
            P::SubAck { id: r.u16(), codes: (0..n).map(|_| *r.pick(&[0u8, 1, 2, 128])).collect() }
        }
        _ => {
            if r.chance(50) {
                P::UnsubAck(r.u16())
            } else {
                P::PingResp
            }
        }
    }
}

/// Bytes that are close to a well-formed packet.
pub fn mutated(r: &mut Rng) -> Vec<u8> {
    let p = if r.chance(10) { server_packet(r, false) } else { client_packet(r, false) };
    let mut b = p.encode_width(if r.chance(5) { r.range(1, 6) } else { 1 });
    let (first, mut body) = p.parts();
    for _ in 0..r.range(1, 2) {
        match r.below(12) {
            // wrong flags or type
            0 => b[0] = b[0] ^ (1 << r.below(4)),
            1 => b[0] = r.next() as u8,
            // wrong remaining length
            2 => {
                let n = (body.len() + r.below(6)).saturating_sub(r.below(6));
                b = [vec![first], remaining_length(n, 1), body.clone()].concat();
            }
            3 => {
                b = [vec![first], vec![255; r.range(3, 5)], vec![r.below(128) as u8], body.clone()].concat();
            }
            // a changed body of the right size
            4 | 5 => {
                if !body.is_empty() {
                    let i = r.below(body.len().min(40));
                    body[i] = match r.below(3) {
                        0 => body[i] ^ (1 << r.below(8)),
                        1 => body[i].wrapping_add(r.range(1, 3) as u8),
                        _ => r.next() as u8,
                    };
                    b = [vec![first], remaining_length(body.len(), 1), body.clone()].concat();
                }
            }
            6 => {
                let n = r.range(1, 3);
                body.extend(r.bytes(n));
                b = [vec![first], remaining_length(body.len(), 1), body.clone()].concat();
            }
            7 => {
                let n = r.below(body.len() + 1);
                body.truncate(n);
                b = [vec![first], remaining_length(body.len(), 1), body.clone()].concat();
            }
            // cut short
            8 | 9 => {
                let n = r.below(b.len() + 1);
                b.truncate(n);
            }
            // invalid text
            10 => {
                if body.len() > 3 {
                    let i = r.range(2, body.len().min(30) - 1);
                    body[i] = *r.pick(&[0xff, 0xc0, 0x80, 0xed, 0xf8]);
                    b = [vec![first], remaining_length(body.len(), 1), body.clone()].concat();
                }
            }
            _ => {
                if b.len() > 2 {
                    let i = r.below(b.len().min(40));
                    b[i] = r.next() as u8;
                }
            }
        }
        if b.is_empty() {
            break;
        }
    }
    b
}
