// The MQTT 3.1.1 wire format, as mathematics. Written from the specification of the format, not
// from the code.
#![allow(unused_imports, dead_code)]
use vstd::prelude::*;
use vstd::utf8::*;
use vstd::string::*;
use crate::vx_prelude::*;

verus! {

// ---------------------------------------------------------------- primitive fields

#[verifier::opaque]
pub open spec fn s_u8(s: Seq<u8>) -> Option<(u8, Seq<u8>)> {
    if s.len() >= 1 { Some((s[0], s.skip(1))) } else { None }
}

#[verifier::opaque]
pub open spec fn s_u16(s: Seq<u8>) -> Option<(u16, Seq<u8>)> {
    if s.len() >= 2 { Some((be16(s[0], s[1]), s.skip(2))) } else { None }
}

#[verifier::opaque]
pub open spec fn s_bytes(s: Seq<u8>, n: nat) -> Option<(Seq<u8>, Seq<u8>)> {
    if s.len() >= n { Some((s.take(n as int), s.skip(n as int))) } else { None }
}

/// Length-prefixed UTF-8 text: its characters, its size in bytes without the prefix, the rest.
#[verifier::opaque]
pub open spec fn s_str(s: Seq<u8>) -> Option<(Seq<char>, nat, Seq<u8>)> {
    match s_u16(s) {
        None => None,
        Some((n, s1)) => match s_bytes(s1, n as nat) {
            None => None,
            Some((b, s2)) => if valid_utf8(b) { Some((decode_utf8(b), n as nat, s2)) } else { None },
        },
    }
}

/// Length-prefixed binary data.
pub open spec fn s_bin(s: Seq<u8>) -> Option<(Seq<u8>, Seq<u8>)> {
    match s_u16(s) {
        None => None,
        Some((n, s1)) => s_bytes(s1, n as nat),
    }
}

/// Remaining length: `acc` so far, next digit weighs `mult`, at most four digits.
pub open spec fn s_remlen_from(s: Seq<u8>, acc: nat, mult: nat, digits_left: nat) -> Option<(nat, Seq<u8>)>
    decreases digits_left,
{
    if digits_left == 0 || s.len() == 0 {
        None
    } else {
        let acc1 = acc + (s[0] as nat % 128) * mult;
        if s[0] < 128 {
            Some((acc1, s.skip(1)))
        } else {
            s_remlen_from(s.skip(1), acc1, mult * 128, (digits_left - 1) as nat)
        }
    }
}

pub open spec fn s_remlen(s: Seq<u8>) -> Option<(nat, Seq<u8>)> {
    s_remlen_from(s, 0, 1, 4)
}

// ---------------------------------------------------------------- packets, abstractly

pub struct VMsg {
    pub topic: Seq<char>,
    pub payload: Seq<u8>,
    pub qos: int,
    pub retain: bool,
}

#[allow(inconsistent_fields)]
pub enum VPacket {
    Connect {
        client_id: Seq<char>,
        keep_alive: u16,
        clean: bool,
        will: Option<VMsg>,
        user: Option<Seq<char>>,
        password: Option<Seq<char>>,
    },
    Publish { dup: bool, id: Option<u16>, msg: VMsg },
    PubAck(u16),
    PubRec(u16),
    PubRel(u16),
    PubComp(u16),
    Subscribe { id: u16, filters: Seq<(Seq<char>, int)> },
    Unsubscribe { id: u16, filters: Seq<Seq<char>> },
    PingReq,
    Disconnect,
    // sent by the broker only
    ConnAck { session_present: bool, code: int },
    SubAck { id: u16, codes: Seq<int> },
    UnsubAck(u16),
    PingResp,
}

#[verifier::opaque]
pub open spec fn bit(b: u8, weight: int) -> bool {
    (b as int / weight) % 2 == 1
}

/// The two-bit field of a byte whose lower bit has this weight.
#[verifier::opaque]
pub open spec fn field2(b: u8, weight: int) -> int {
    (b as int / weight) % 4
}

// ---------------------------------------------------------------- decoding

pub open spec fn d_connect(s: Seq<u8>, first: u8, len: nat) -> Option<(VPacket, Seq<u8>)> {
    match s_str(s) { None => None, Some((_, n0, s0)) =>
    match s_u8(s0) { None => None, Some((_level, s1)) =>
    match s_u8(s1) { None => None, Some((fl, s2)) =>
    match s_u16(s2) { None => None, Some((keep_alive, s3)) =>
    match s_str(s3) { None => None, Some((client_id, n1, s4)) =>
    match d_will(s4, fl) { None => None, Some((will, n2, s5)) =>
    match d_opt_str(s5, bit(fl, 128)) { None => None, Some((user, n3, s6)) =>
    match d_opt_str(s6, bit(fl, 64)) { None => None, Some((password, n4, s7)) =>
        if first == 0x10
            && !bit(fl, 1)
            && (bit(fl, 4) || (!bit(fl, 8) && !bit(fl, 16) && !bit(fl, 32)))
            && (bit(fl, 128) || !bit(fl, 64))
            && len == (n0 + 2) + 4 + (n1 + 2) + n2 + n3 + n4
        {
            Some((VPacket::Connect { client_id, keep_alive, clean: bit(fl, 2), will, user, password }, s7))
        } else {
            None
        }
    }}}}}}}}
}

/// The will, if the flags announce one, and the number of bytes it takes.
pub open spec fn d_will(s: Seq<u8>, fl: u8) -> Option<(Option<VMsg>, nat, Seq<u8>)> {
    if !bit(fl, 4) {
        Some((None, 0, s))
    } else {
        match s_str(s) { None => None, Some((topic, n, s1)) =>
        match s_bin(s1) { None => None, Some((payload, s2)) => {
            let qos = field2(fl, 8);
            if qos > 2 {
                None
            } else {
                Some((Some(VMsg { topic, payload, qos, retain: bit(fl, 32) }), n + 2 + payload.len() + 2, s2))
            }
        }}}
    }
}

pub open spec fn d_opt_str(s: Seq<u8>, present: bool) -> Option<(Option<Seq<char>>, nat, Seq<u8>)> {
    if !present {
        Some((None, 0, s))
    } else {
        match s_str(s) {
            None => None,
            Some((t, n, s1)) => Some((Some(t), n + 2, s1)),
        }
    }
}

pub open spec fn d_publish(s: Seq<u8>, first: u8, len: nat) -> Option<(VPacket, Seq<u8>)> {
    let qos = field2(first, 2);
    if qos > 2 { None } else {
    match s_str(s) { None => None, Some((topic, n, s1)) =>
    match d_opt_id(s1, qos > 0) { None => None, Some((id, m, s2)) => {
        if len < n + 2 + m { None } else {
        match s_bytes(s2, (len - (n + 2 + m)) as nat) { None => None, Some((payload, s3)) =>
            Some((VPacket::Publish {
                dup: bit(first, 8),
                id,
                msg: VMsg { topic, payload, qos, retain: bit(first, 1) },
            }, s3))
        }}
    }}}}
}

pub open spec fn d_opt_id(s: Seq<u8>, present: bool) -> Option<(Option<u16>, nat, Seq<u8>)> {
    if !present {
        Some((None, 0, s))
    } else {
        match s_u16(s) {
            None => None,
            Some((id, s1)) => Some((Some(id), 2, s1)),
        }
    }
}

/// A packet made of a fixed first byte and a packet id only.
pub open spec fn d_id(s: Seq<u8>, first: u8, expected: u8, len: nat) -> Option<(u16, Seq<u8>)> {
    if first == expected && len == 2 { s_u16(s) } else { None }
}

#[verifier::opaque]
pub open spec fn d_filters(s: Seq<u8>, len: nat) -> Option<(Seq<(Seq<char>, int)>, Seq<u8>)>
    decreases len,
{
    if len == 0 {
        Some((Seq::empty(), s))
    } else {
        match s_str(s) { None => None, Some((topic, n, s1)) =>
        match s_u8(s1) { None => None, Some((qos, s2)) =>
            if qos > 2 || n + 3 > len {
                None
            } else {
                match d_filters(s2, (len - (n + 3)) as nat) {
                    None => None,
                    Some((rest, s3)) => Some((seq![(topic, qos as int)] + rest, s3)),
                }
            }
        }}
    }
}

pub open spec fn d_subscribe(s: Seq<u8>, first: u8, len: nat) -> Option<(VPacket, Seq<u8>)> {
    match s_u16(s) { None => None, Some((id, s1)) =>
        if first != 0x82 || len <= 2 { None } else {
        match d_filters(s1, (len - 2) as nat) { None => None, Some((filters, s2)) =>
            Some((VPacket::Subscribe { id, filters }, s2))
        }}
    }
}

#[verifier::opaque]
pub open spec fn d_topics(s: Seq<u8>, len: nat) -> Option<(Seq<Seq<char>>, Seq<u8>)>
    decreases len,
{
    if len == 0 {
        Some((Seq::empty(), s))
    } else {
        match s_str(s) { None => None, Some((topic, n, s1)) =>
            if n + 2 > len {
                None
            } else {
                match d_topics(s1, (len - (n + 2)) as nat) {
                    None => None,
                    Some((rest, s2)) => Some((seq![topic] + rest, s2)),
                }
            }
        }
    }
}

pub open spec fn d_unsubscribe(s: Seq<u8>, first: u8, len: nat) -> Option<(VPacket, Seq<u8>)> {
    match s_u16(s) { None => None, Some((id, s1)) =>
        if first != 0xa2 || len <= 2 { None } else {
        match d_topics(s1, (len - 2) as nat) { None => None, Some((filters, s2)) =>
            Some((VPacket::Unsubscribe { id, filters }, s2))
        }}
    }
}

pub open spec fn d_body(s: Seq<u8>, first: u8, len: nat) -> Option<(VPacket, Seq<u8>)> {
    let typ = first as int / 16;
    if typ == 1 {
        d_connect(s, first, len)
    } else if typ == 3 {
        d_publish(s, first, len)
    } else if typ == 4 {
        match d_id(s, first, 0x40, len) { None => None, Some((id, r)) => Some((VPacket::PubAck(id), r)) }
    } else if typ == 5 {
        match d_id(s, first, 0x50, len) { None => None, Some((id, r)) => Some((VPacket::PubRec(id), r)) }
    } else if typ == 6 {
        match d_id(s, first, 0x62, len) { None => None, Some((id, r)) => Some((VPacket::PubRel(id), r)) }
    } else if typ == 7 {
        match d_id(s, first, 0x70, len) { None => None, Some((id, r)) => Some((VPacket::PubComp(id), r)) }
    } else if typ == 8 {
        d_subscribe(s, first, len)
    } else if typ == 10 {
        d_unsubscribe(s, first, len)
    } else if typ == 12 {
        if first == 0xc0 && len == 0 { Some((VPacket::PingReq, s)) } else { None }
    } else if typ == 14 {
        if first == 0xe0 && len == 0 { Some((VPacket::Disconnect, s)) } else { None }
    } else {
        None
    }
}

/// The packet a byte stream starts with, and the bytes after it; None if it starts with none.
pub open spec fn d_packet(s: Seq<u8>) -> Option<(VPacket, Seq<u8>)> {
    match s_u8(s) { None => None, Some((first, s1)) =>
    match s_remlen(s1) { None => None, Some((len, s2)) =>
        d_body(s2, first, len)
    }}
}

// ---------------------------------------------------------------- encoding

#[verifier::opaque]
pub open spec fn one(b: u8) -> Seq<u8> {
    seq![b]
}

pub open spec fn e_remlen(n: nat) -> Seq<u8>
    decreases n,
{
    if n < 128 {
        one(n as u8)
    } else {
        one((n % 128 + 128) as u8) + e_remlen(n / 128)
    }
}

pub open spec fn e_str(t: Seq<char>) -> Seq<u8> {
    be16_bytes(encode_utf8(t).len() as u16) + encode_utf8(t)
}

pub open spec fn b2i(b: bool) -> int {
    if b { 1 } else { 0 }
}

pub open spec fn e_opt_id(id: Option<u16>) -> Seq<u8> {
    match id { None => Seq::empty(), Some(n) => be16_bytes(n) }
}

pub open spec fn e_id(first: u8, id: u16) -> Seq<u8> {
    one(first) + one(2) + be16_bytes(id)
}

pub open spec fn e_codes(codes: Seq<int>) -> Seq<u8> {
    codes.map_values(|c: int| c as u8)
}

pub open spec fn publish_len(id: Option<u16>, msg: VMsg) -> nat {
    2 + encode_utf8(msg.topic).len() + e_opt_id(id).len() + msg.payload.len()
}

pub open spec fn e_packet(p: VPacket) -> Seq<u8> {
    match p {
        VPacket::ConnAck { session_present, code } =>
            one(0x20) + one(2) + one(b2i(session_present) as u8) + one(code as u8),
        VPacket::Publish { dup, id, msg } =>
            one((0x30 + 8 * b2i(dup) + 2 * msg.qos + b2i(msg.retain)) as u8)
                + e_remlen(publish_len(id, msg))
                + e_str(msg.topic) + e_opt_id(id) + msg.payload,
        VPacket::PubAck(id) => e_id(0x40, id),
        VPacket::PubRec(id) => e_id(0x50, id),
        VPacket::PubRel(id) => e_id(0x62, id),
        VPacket::PubComp(id) => e_id(0x70, id),
        VPacket::SubAck { id, codes } =>
            one(0x90) + e_remlen(2 + codes.len()) + be16_bytes(id) + e_codes(codes),
        VPacket::UnsubAck(id) => e_id(0xb0, id),
        VPacket::PingResp => one(0xd0) + one(0),
        _ => Seq::empty(),
    }
}

pub spec const MAX_REMLEN: nat = 268435455;

/// The packets the broker may have to send, and the protocol can represent.
pub open spec fn sendable(p: VPacket) -> bool {
    match p {
        VPacket::ConnAck { code, .. } => 0 <= code <= 5,
        VPacket::Publish { id, msg, .. } => {
            &&& 0 <= msg.qos <= 2
            &&& id is Some <==> msg.qos > 0
            &&& encode_utf8(msg.topic).len() <= 65535
            &&& publish_len(id, msg) <= MAX_REMLEN
        },
        VPacket::SubAck { codes, .. } => {
            &&& 2 + codes.len() <= MAX_REMLEN
            &&& forall|i: int| 0 <= i < codes.len() ==> 0 <= #[trigger] codes[i] <= 255
        },
        VPacket::PubAck(_) | VPacket::PubRec(_) | VPacket::PubRel(_) | VPacket::PubComp(_)
        | VPacket::UnsubAck(_) | VPacket::PingResp => true,
        _ => false,
    }
}

// ---------------------------------------------------------------- lemmas

/// Right-nested sums, spelled left-nested, the way a writer appends.
pub broadcast proof fn lemma_append_assoc(w: Seq<u8>, a: Seq<u8>, b: Seq<u8>)
    ensures
        #[trigger] (w + (a + b)) == (w + a) + b,
{
    assert(w + (a + b) =~= (w + a) + b);
}

pub broadcast proof fn lemma_prefix_append(x: Seq<u8>, a: Seq<u8>, b: Seq<u8>)
    ensures
        is_prefix(x, a) ==> #[trigger] is_prefix(x, a + b),
{
    reveal(is_prefix);
    if is_prefix(x, a) { assert(x =~= (a + b).take(x.len() as int)); }
}

pub broadcast proof fn lemma_prefix_self(a: Seq<u8>)
    ensures
        #[trigger] is_prefix(a, a),
{
    reveal(is_prefix);
    assert(a =~= a.take(a.len() as int));
}

pub broadcast proof fn lemma_append_empty(a: Seq<u8>, b: Seq<u8>)
    ensures
        #![trigger a + b]
        b.len() == 0 ==> a + b == a,
{
    if b.len() == 0 { assert(a + b =~= a); }
}

pub proof fn lemma_codes_step(codes: Seq<int>, i: int)
    requires
        0 <= i <= codes.len(),
    ensures
        i < codes.len() ==> e_codes(codes.skip(i)) == one(codes[i] as u8) + e_codes(codes.skip(i + 1)),
        i == codes.len() ==> e_codes(codes.skip(i)) == Seq::<u8>::empty(),
        i == 0 ==> codes.skip(i) == codes,
{
    reveal(one);
    if i == 0 { assert(codes.skip(i) =~= codes); }
    if i < codes.len() {
        assert(e_codes(codes.skip(i)) =~= one(codes[i] as u8) + e_codes(codes.skip(i + 1)));
    } else {
        assert(e_codes(codes.skip(i)) =~= Seq::<u8>::empty());
    }
}

pub broadcast group group_writer {
    lemma_append_assoc,
    lemma_prefix_append,
    lemma_prefix_self,
    lemma_append_empty,
}

/// What is already decoded, put in front of what decoding the rest yields.
pub open spec fn then_filters(
    done: Seq<(Seq<char>, int)>,
    rest: Option<(Seq<(Seq<char>, int)>, Seq<u8>)>,
) -> Option<(Seq<(Seq<char>, int)>, Seq<u8>)> {
    match rest { None => None, Some((f, s)) => Some((done + f, s)) }
}

pub open spec fn then_topics(
    done: Seq<Seq<char>>,
    rest: Option<(Seq<Seq<char>>, Seq<u8>)>,
) -> Option<(Seq<Seq<char>>, Seq<u8>)> {
    match rest { None => None, Some((f, s)) => Some((done + f, s)) }
}

/// One step of d_filters, in the form a loop that appends needs.
pub broadcast proof fn lemma_filters_step(done: Seq<(Seq<char>, int)>, s: Seq<u8>, len: nat)
    ensures
        // (with the text being read: without it every instance would give rise to the next)
        #![trigger then_filters(done, d_filters(s, len)), s_str(s)]
        then_filters(done, d_filters(s, len)) == (if len == 0 {
            Some((done, s))
        } else {
            match s_str(s) { None => None, Some((topic, n, s1)) =>
            match s_u8(s1) { None => None, Some((qos, s2)) =>
                if qos > 2 || n + 3 > len { None }
                else { then_filters(done.push((topic, qos as int)), d_filters(s2, (len - (n + 3)) as nat)) }
            }}
        }),
{
    reveal_with_fuel(d_filters, 2);
    if len == 0 {
        assert(done + Seq::<(Seq<char>, int)>::empty() =~= done);
    } else {
        match s_str(s) { None => {}, Some((topic, n, s1)) => match s_u8(s1) { None => {}, Some((qos, s2)) => {
            if qos > 2 || n + 3 > len {
            } else {
                match d_filters(s2, (len - (n + 3)) as nat) {
                    None => {}
                    Some((rest, s3)) => {
                        assert(done + (seq![(topic, qos as int)] + rest) =~= done.push((topic, qos as int)) + rest);
                    }
                }
            }
        }}}
    }
}

pub broadcast proof fn lemma_topics_step(done: Seq<Seq<char>>, s: Seq<u8>, len: nat)
    ensures
        #![trigger then_topics(done, d_topics(s, len)), s_str(s)]
        then_topics(done, d_topics(s, len)) == (if len == 0 {
            Some((done, s))
        } else {
            match s_str(s) { None => None, Some((topic, n, s1)) =>
                if n + 2 > len { None }
                else { then_topics(done.push(topic), d_topics(s1, (len - (n + 2)) as nat)) }
            }
        }),
{
    reveal_with_fuel(d_topics, 2);
    if len == 0 {
        assert(done + Seq::<Seq<char>>::empty() =~= done);
    } else {
        match s_str(s) { None => {}, Some((topic, n, s1)) => {
            if n + 2 > len {
            } else {
                match d_topics(s1, (len - (n + 2)) as nat) {
                    None => {}
                    Some((rest, s3)) => {
                        assert(done + (seq![topic] + rest) =~= done.push(topic) + rest);
                    }
                }
            }
        }}
    }
}

pub broadcast proof fn lemma_filters_end(done: Seq<(Seq<char>, int)>, s: Seq<u8>, len: nat)
    ensures
        #![trigger then_filters(done, d_filters(s, len))]
        len == 0 ==> then_filters(done, d_filters(s, len)) == Some((done, s)),
{
    reveal_with_fuel(d_filters, 2);
    if len == 0 {
        assert(done + Seq::<(Seq<char>, int)>::empty() =~= done);
    }
}
pub broadcast proof fn lemma_topics_end(done: Seq<Seq<char>>, s: Seq<u8>, len: nat)
    ensures
        #![trigger then_topics(done, d_topics(s, len))]
        len == 0 ==> then_topics(done, d_topics(s, len)) == Some((done, s)),
{
    reveal_with_fuel(d_topics, 2);
    if len == 0 {
        assert(done + Seq::<Seq<char>>::empty() =~= done);
    }
}
pub broadcast proof fn lemma_then_empty_filters(r: Option<(Seq<(Seq<char>, int)>, Seq<u8>)>)
    ensures
        #[trigger] then_filters(Seq::empty(), r) == r,
{
    if let Some((f, s)) = r {
        assert(Seq::<(Seq<char>, int)>::empty() + f =~= f);
    }
}

pub broadcast proof fn lemma_then_empty_topics(r: Option<(Seq<Seq<char>>, Seq<u8>)>)
    ensures
        #[trigger] then_topics(Seq::empty(), r) == r,
{
    if let Some((f, s)) = r {
        assert(Seq::<Seq<char>>::empty() + f =~= f);
    }
}

/// Number of length digits that may still come when the next one weighs `mult`.
pub open spec fn digits_left(mult: nat) -> nat {
    if mult == 1 { 4 }
    else if mult == 128 { 3 }
    else if mult == 16384 { 2 }
    else if mult == 2097152 { 1 }
    else { 0 }
}

pub open spec fn is_weight(mult: nat) -> bool {
    mult == 1 || mult == 128 || mult == 16384 || mult == 2097152 || mult == 268435456
}

/// How the bits of a byte, taken by masks and shifts, relate to the arithmetic of the format.
pub broadcast proof fn lemma_mask(b: u8, m: u8)
    ensures
        #![trigger b & m]
        b & m <= m, b & m <= b,
        m == 1 ==> (b & m == m) == bit(b, 1) && (b & m != 0) == bit(b, 1),
        m == 2 ==> (b & m == m) == bit(b, 2) && (b & m != 0) == bit(b, 2),
        m == 4 ==> (b & m == m) == bit(b, 4) && (b & m != 0) == bit(b, 4),
        m == 8 ==> (b & m == m) == bit(b, 8) && (b & m != 0) == bit(b, 8),
        m == 16 ==> (b & m == m) == bit(b, 16) && (b & m != 0) == bit(b, 16),
        m == 32 ==> (b & m == m) == bit(b, 32) && (b & m != 0) == bit(b, 32),
        m == 64 ==> (b & m == m) == bit(b, 64) && (b & m != 0) == bit(b, 64),
        m == 128 ==> (b & m == m) == bit(b, 128) && (b & m != 0) == bit(b, 128),
        m == 128 ==> (b & m == 0) == (b < 128),
        m == 3 ==> b & m == b % 4,
        m == 6 ==> b & m == 2 * field2(b, 2),
        m == 24 ==> b & m == 8 * field2(b, 8) && (b & m != 0) == (bit(b, 8) || bit(b, 16)),
        m == 56 ==> (b & m != 0) == (bit(b, 8) || bit(b, 16) || bit(b, 32)),
        m == 15 ==> b & m == b % 16,
        m == 127 ==> b & m == b % 128,
        m == 240 ==> b & m == 16 * (b as int / 16),
        m == 255 ==> b & m == b,
{
    reveal(bit);
    reveal(field2);
    assert(b & m <= m && b & m <= b) by (bit_vector);
    assert(m == 1 ==> b & m == 1 * ((b / 1) % 2)) by (bit_vector);
    assert(m == 2 ==> b & m == 2 * ((b / 2) % 2)) by (bit_vector);
    assert(m == 4 ==> b & m == 4 * ((b / 4) % 2)) by (bit_vector);
    assert(m == 8 ==> b & m == 8 * ((b / 8) % 2)) by (bit_vector);
    assert(m == 16 ==> b & m == 16 * ((b / 16) % 2)) by (bit_vector);
    assert(m == 32 ==> b & m == 32 * ((b / 32) % 2)) by (bit_vector);
    assert(m == 64 ==> b & m == 64 * ((b / 64) % 2)) by (bit_vector);
    assert(m == 128 ==> b & m == 128 * ((b / 128) % 2)) by (bit_vector);
    assert(m == 128 ==> (b & m == 0) == (b < 128)) by (bit_vector);
    assert(m == 3 ==> b & m == b % 4) by (bit_vector);
    assert(m == 6 ==> b & m == 2 * ((b / 2) % 4)) by (bit_vector);
    assert(m == 24 ==> b & m == 8 * ((b / 8) % 4)) by (bit_vector);
    assert(m == 56 ==> b & m == 8 * ((b / 8) % 8)) by (bit_vector);
    assert(m == 15 ==> b & m == b % 16) by (bit_vector);
    assert(m == 127 ==> b & m == b % 128) by (bit_vector);
    assert(m == 240 ==> b & m == 16 * (b / 16)) by (bit_vector);
    assert(m == 255 ==> b & m == b) by (bit_vector);
}

pub broadcast proof fn lemma_shift(b: u8, k: u8)
    ensures
        #![trigger b >> k]
        k == 1 ==> b >> k == b / 2,
        k == 2 ==> b >> k == b / 4,
        k == 3 ==> b >> k == b / 8,
        k == 4 ==> b >> k == b / 16 && b >> k < 16,
        k == 5 ==> b >> k == b / 32,
        k == 6 ==> b >> k == b / 64,
        k == 7 ==> b >> k == b / 128,
{
    assert(k == 1 ==> b >> k == b / 2) by (bit_vector);
    assert(k == 2 ==> b >> k == b / 4) by (bit_vector);
    assert(k == 3 ==> b >> k == b / 8) by (bit_vector);
    assert(k == 4 ==> b >> k == b / 16) by (bit_vector);
    assert(k == 5 ==> b >> k == b / 32) by (bit_vector);
    assert(k == 6 ==> b >> k == b / 64) by (bit_vector);
    assert(k == 7 ==> b >> k == b / 128) by (bit_vector);
}

pub broadcast proof fn lemma_shift_left(b: u8, k: u8)
    ensures
        #![trigger b << k]
        k == 1 && b < 128 ==> b << k == 2 * b,
        k == 2 && b < 64 ==> b << k == 4 * b,
        k == 3 && b < 32 ==> b << k == 8 * b,
        k == 4 && b < 16 ==> b << k == 16 * b,
{
    assert(k == 1 && b < 128 ==> b << k == 2 * b) by (bit_vector);
    assert(k == 2 && b < 64 ==> b << k == 4 * b) by (bit_vector);
    assert(k == 3 && b < 32 ==> b << k == 8 * b) by (bit_vector);
    assert(k == 4 && b < 16 ==> b << k == 16 * b) by (bit_vector);
}

/// Bits set by | where they were clear add up.
pub broadcast proof fn lemma_or(b: u8, m: u8)
    ensures
        #![trigger b | m]
        m == 0 ==> b | m == b,
        m == 1 && b % 2 == 0 ==> b | m == b + 1,
        m == 2 && b % 4 == 0 ==> b | m == b + 2,
        m == 2 && (b as int / 2) % 2 == 0 ==> b | m == b + 2,
        m == 4 && b % 8 == 0 ==> b | m == b + 4,
        m == 4 && (b as int / 4) % 2 == 0 ==> b | m == b + 4,
        m == 8 && b % 16 == 0 ==> b | m == b + 8,
        m == 8 && (b as int / 8) % 2 == 0 ==> b | m == b + 8,
        m == 128 && b < 128 ==> b | m == b + 128,
        b == 0 ==> b | m == m,
        b == 8 && m == 16 ==> b | m == 24,
        b == 16 && m == 8 ==> b | m == 24,
        b == 24 && m == 32 ==> b | m == 56,
        b == 32 && m == 24 ==> b | m == 56,
        b == 2 && m == 4 ==> b | m == 6,
        b == 4 && m == 2 ==> b | m == 6,
{
    assert(m == 0 ==> b | m == b) by (bit_vector);
    assert(b == 0 ==> b | m == m) by (bit_vector);
    assert(8u8 | 16u8 == 24u8 && 16u8 | 8u8 == 24u8 && 24u8 | 32u8 == 56u8 && 32u8 | 24u8 == 56u8 && 2u8 | 4u8 == 6u8 && 4u8 | 2u8 == 6u8) by (bit_vector);
    assert(m == 1 && b % 2 == 0 ==> b | m == b + 1) by (bit_vector);
    assert(m == 2 && (b / 2) % 2 == 0 ==> b | m == b + 2) by (bit_vector);
    assert(m == 4 && (b / 4) % 2 == 0 ==> b | m == b + 4) by (bit_vector);
    assert(m == 8 && (b / 8) % 2 == 0 ==> b | m == b + 8) by (bit_vector);
    assert(m == 128 && b < 128 ==> b | m == b + 128) by (bit_vector);
}

/// A two-bit field taken by shifting first.
pub broadcast proof fn lemma_shift_field(b: u8, k: u8)
    ensures
        #![trigger (b >> k) & 3]
        k == 1 ==> (b >> k) & 3 == field2(b, 2),
        k == 3 ==> (b >> k) & 3 == field2(b, 8),
{
    reveal(field2);
    assert(k == 1 ==> (b >> k) & 3 == (b / 2) % 4) by (bit_vector);
    assert(k == 3 ==> (b >> k) & 3 == (b / 8) % 4) by (bit_vector);
}

pub broadcast proof fn lemma_s_bytes_len(s: Seq<u8>, n: nat)
    ensures
        #[trigger] s_bytes(s, n) is Some ==> s_bytes(s, n)->Some_0.0.len() == n,
{
    reveal(s_bytes);
}

/// Masking the low half first changes nothing for masks within it.
pub broadcast proof fn lemma_mask_mask(b: u8, k: u8, m: u8)
    ensures
        #![trigger (b & k) & m]
        k == 15 && m < 16 ==> (b & k) & m == b & m,
{
    assert(k == 15 && m < 16 ==> (b & k) & m == b & m) by (bit_vector);
}

pub broadcast proof fn lemma_field_range(b: u8, w: int)
    requires
        w > 0,
    ensures
        0 <= #[trigger] field2(b, w) <= 3,
{
    reveal(field2);
}

pub broadcast group group_bits {
    lemma_mask,
    lemma_shift,
    lemma_shift_left,
    lemma_or,
    lemma_shift_field,
    lemma_mask_mask,
    lemma_field_range,
}

// ---------------------------------------------------------------- what decoding consumes

/// `r` is what is left of `s` after its first `n` bytes.
pub open spec fn after(s: Seq<u8>, n: nat, r: Seq<u8>) -> bool {
    n <= s.len() && r == s.skip(n as int)
}

pub proof fn lemma_after(s: Seq<u8>, n: nat, r: Seq<u8>, m: nat, t: Seq<u8>)
    requires
        after(s, n, r),
        after(r, m, t),
    ensures
        after(s, n + m, t),
{
    assert(s.skip(n as int).skip(m as int) =~= s.skip((n + m) as int));
}

pub broadcast proof fn lemma_after_none(s: Seq<u8>)
    ensures
        #[trigger] after(s, 0, s),
{
    assert(s.skip(0) =~= s);
}

pub broadcast proof fn lemma_u8_after(s: Seq<u8>)
    ensures
        #[trigger] s_u8(s) is Some ==> after(s, 1, s_u8(s)->Some_0.1),
{
    reveal(s_u8);
}

pub broadcast proof fn lemma_u16_after(s: Seq<u8>)
    ensures
        #[trigger] s_u16(s) is Some ==> after(s, 2, s_u16(s)->Some_0.1),
{
    reveal(s_u16);
}

pub broadcast proof fn lemma_bytes_after(s: Seq<u8>, n: nat)
    ensures
        #[trigger] s_bytes(s, n) is Some ==> after(s, n, s_bytes(s, n)->Some_0.1) && s_bytes(s, n)->Some_0.0.len() == n,
{
    reveal(s_bytes);
}

pub broadcast proof fn lemma_str_after(s: Seq<u8>)
    ensures
        #[trigger] s_str(s) is Some ==> after(s, s_str(s)->Some_0.1 + 2, s_str(s)->Some_0.2),
{
    reveal(s_str);
    broadcast use {lemma_u16_after, lemma_bytes_after};
    if let Some((_, n, r)) = s_str(s) {
        let s1 = s_u16(s)->Some_0.1;
        lemma_after(s, 2, s1, n, r);
    }
}

pub broadcast group group_after {
    lemma_after_none,
    lemma_u8_after,
    lemma_u16_after,
    lemma_bytes_after,
    lemma_str_after,
}

pub proof fn lemma_filters_after(s: Seq<u8>, len: nat)
    ensures
        d_filters(s, len) is Some ==> after(s, len, d_filters(s, len)->Some_0.1),
    decreases len,
{
    reveal_with_fuel(d_filters, 2);
    broadcast use group_after;
    if len > 0 {
        if let Some((_, n, s1)) = s_str(s) {
            if let Some((qos, s2)) = s_u8(s1) {
                if n + 3 <= len {
                    lemma_after(s, n + 2, s1, 1, s2);
                    lemma_filters_after(s2, (len - (n + 3)) as nat);
                    if let Some((_, r)) = d_filters(s2, (len - (n + 3)) as nat) {
                        lemma_after(s, n + 3, s2, (len - (n + 3)) as nat, r);
                    }
                }
            }
        }
    }
}

pub proof fn lemma_topics_after(s: Seq<u8>, len: nat)
    ensures
        d_topics(s, len) is Some ==> after(s, len, d_topics(s, len)->Some_0.1),
    decreases len,
{
    reveal_with_fuel(d_topics, 2);
    broadcast use group_after;
    if len > 0 {
        if let Some((_, n, s1)) = s_str(s) {
            if n + 2 <= len {
                lemma_topics_after(s1, (len - (n + 2)) as nat);
                if let Some((_, r)) = d_topics(s1, (len - (n + 2)) as nat) {
                    lemma_after(s, n + 2, s1, (len - (n + 2)) as nat, r);
                }
            }
        }
    }
}

pub proof fn lemma_remlen_after(s: Seq<u8>, acc: nat, mult: nat, d: nat)
    ensures
        s_remlen_from(s, acc, mult, d) is Some ==> exists|k: nat| 1 <= k <= d && #[trigger] after(s, k, s_remlen_from(s, acc, mult, d)->Some_0.1),
    decreases d,
{
    broadcast use group_after;
    if d > 0 && s.len() > 0 {
        assert(after(s, 1, s.skip(1)));
        if s[0] >= 128 {
            lemma_remlen_after(s.skip(1), acc + (s[0] as nat % 128) * mult, mult * 128, (d - 1) as nat);
            if s_remlen_from(s, acc, mult, d) is Some {
                let r = s_remlen_from(s, acc, mult, d)->Some_0.1;
                assert(s_remlen_from(s.skip(1), acc + (s[0] as nat % 128) * mult, mult * 128, (d - 1) as nat) == s_remlen_from(s, acc, mult, d));
                let k = choose|k: nat| 1 <= k <= d - 1 && #[trigger] after(s.skip(1), k, r);
                lemma_after(s, 1, s.skip(1), k, r);
            }
        } else if s_remlen_from(s, acc, mult, d) is Some {
            assert(after(s, 1, s_remlen_from(s, acc, mult, d)->Some_0.1));
        }
    }
}

proof fn lemma_will_after(s: Seq<u8>, fl: u8)
    ensures
        d_will(s, fl) is Some ==> after(s, d_will(s, fl)->Some_0.1, d_will(s, fl)->Some_0.2),
{
    broadcast use group_after;
    if bit(fl, 4) && d_will(s, fl) is Some {
        let (_, n, s1) = s_str(s)->Some_0;
        let (l, b) = s_u16(s1)->Some_0;
        let (payload, s2) = s_bin(s1)->Some_0;
        lemma_after(s1, 2, b, l as nat, s2);
        lemma_after(s, n + 2, s1, payload.len() + 2, s2);
    }
}

proof fn lemma_opt_str_after(s: Seq<u8>, present: bool)
    ensures
        d_opt_str(s, present) is Some ==> after(s, d_opt_str(s, present)->Some_0.1, d_opt_str(s, present)->Some_0.2),
{
    broadcast use group_after;
}

proof fn lemma_connect_after(s: Seq<u8>, first: u8, len: nat)
    ensures
        d_connect(s, first, len) is Some ==> after(s, len, d_connect(s, first, len)->Some_0.1),
{
    if d_connect(s, first, len) is Some {
        broadcast use group_after;
        let (_, n0, s0) = s_str(s)->Some_0;
        let (_, s1) = s_u8(s0)->Some_0;
        let (fl, s2) = s_u8(s1)->Some_0;
        let (_, s3) = s_u16(s2)->Some_0;
        let (_, n1, s4) = s_str(s3)->Some_0;
        lemma_will_after(s4, fl);
        let (_, n2, s5) = d_will(s4, fl)->Some_0;
        lemma_opt_str_after(s5, bit(fl, 128));
        let (_, n3, s6) = d_opt_str(s5, bit(fl, 128))->Some_0;
        lemma_opt_str_after(s6, bit(fl, 64));
        let (_, n4, s7) = d_opt_str(s6, bit(fl, 64))->Some_0;
        lemma_after(s, n0 + 2, s0, 1, s1);
        lemma_after(s, n0 + 3, s1, 1, s2);
        lemma_after(s, n0 + 4, s2, 2, s3);
        lemma_after(s, n0 + 6, s3, n1 + 2, s4);
        lemma_after(s, n0 + 6 + (n1 + 2), s4, n2, s5);
        lemma_after(s, n0 + 6 + (n1 + 2) + n2, s5, n3, s6);
        lemma_after(s, n0 + 6 + (n1 + 2) + n2 + n3, s6, n4, s7);
    }
}

proof fn lemma_publish_after(s: Seq<u8>, first: u8, len: nat)
    ensures
        d_publish(s, first, len) is Some ==> after(s, len, d_publish(s, first, len)->Some_0.1),
{
    if d_publish(s, first, len) is Some {
        broadcast use group_after;
        let qos = field2(first, 2);
        let (_, n, s1) = s_str(s)->Some_0;
        let (_, m, s2) = d_opt_id(s1, qos > 0)->Some_0;
        let k = (len - (n + 2 + m)) as nat;
        let s3 = s_bytes(s2, k)->Some_0.1;
        assert(after(s1, m, s2));
        lemma_after(s, n + 2, s1, m, s2);
        lemma_after(s, n + 2 + m, s2, k, s3);
    }
}

proof fn lemma_id_list_after(s: Seq<u8>, first: u8, len: nat)
    ensures
        d_subscribe(s, first, len) is Some ==> after(s, len, d_subscribe(s, first, len)->Some_0.1),
        d_unsubscribe(s, first, len) is Some ==> after(s, len, d_unsubscribe(s, first, len)->Some_0.1),
{
    broadcast use group_after;
    if s_u16(s) is Some && len > 2 {
        let s1 = s_u16(s)->Some_0.1;
        lemma_filters_after(s1, (len - 2) as nat);
        lemma_topics_after(s1, (len - 2) as nat);
        if let Some((_, r)) = d_filters(s1, (len - 2) as nat) {
            lemma_after(s, 2, s1, (len - 2) as nat, r);
        }
        if let Some((_, r)) = d_topics(s1, (len - 2) as nat) {
            lemma_after(s, 2, s1, (len - 2) as nat, r);
        }
    }
}

/// The packet takes exactly as many bytes as the remaining length says.
pub proof fn lemma_body_after(s: Seq<u8>, first: u8, len: nat)
    ensures
        d_body(s, first, len) is Some ==> after(s, len, d_body(s, first, len)->Some_0.1), /*@C01,C04@*/
{
    lemma_connect_after(s, first, len);
    lemma_publish_after(s, first, len);
    lemma_id_list_after(s, first, len);
    lemma_u16_after(s);
    lemma_after_none(s);
}

/// Reading a packet takes its fixed header and then exactly the bytes its remaining length says.
pub proof fn theorem_consumes_its_own_bytes(s: Seq<u8>)
    ensures
        d_packet(s) matches Some((p, rest)) ==> exists|k: nat, len: nat| 2 <= k <= 5 && s_remlen(s.skip(1)) == Some((len, s.skip(k as int))) && #[trigger] after(s, k + len, rest), /*@C01,C04@*/
{
    reveal(s_u8);
    broadcast use group_after;
    if let Some((p, rest)) = d_packet(s) {
        let (first, s1) = s_u8(s)->Some_0;
        let (len, s2) = s_remlen(s1)->Some_0;
        lemma_remlen_after(s1, 0, 1, 4);
        let k = choose|k: nat| 1 <= k <= 4 && #[trigger] after(s1, k, s2);
        lemma_after(s, 1, s1, k, s2);
        lemma_body_after(s2, first, len);
        lemma_after(s, 1 + k, s2, len, rest);
    }
}

pub broadcast proof fn lemma_packet_shrinks(s: Seq<u8>)
    ensures
        #[trigger] d_packet(s) is Some ==> d_packet(s)->Some_0.1.len() < s.len(),
{
    theorem_consumes_its_own_bytes(s);
}

} // verus!
