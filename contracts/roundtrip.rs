// C07: what the encoding lemma-contracts say write_packet emits is what the decoding contracts say
// read_packet accepts. Pure mathematics over mqtt_spec.rs; linked to the code by the contracts of
// write_packet and read_packet.
#![allow(unused_imports, dead_code)]
use vstd::prelude::*;
use vstd::utf8::*;
use vstd::string::*;
use crate::vx_prelude::*;
use crate::vx_mqtt::*;

verus! {

pub open spec fn exchangeable(p: VPacket) -> bool {
    sendable(p) && match p {
        VPacket::Publish { .. } | VPacket::PubAck(_) | VPacket::PubRec(_) | VPacket::PubRel(_) | VPacket::PubComp(_) => true,
        _ => false,
    }
}

pub open spec fn pow128(k: nat) -> nat
    decreases k,
{
    if k == 0 { 1 } else { 128 * pow128((k - 1) as nat) }
}

pub proof fn lemma_remlen_roundtrip(n: nat, rest: Seq<u8>, acc: nat, mult: nat, k: nat)
    requires
        n < pow128(k),
        k > 0,
    ensures
        s_remlen_from(e_remlen(n) + rest, acc, mult, k) == Some((acc + n * mult, rest)), /*@C07@*/
    decreases k,
{
    reveal(one);
    let s = e_remlen(n) + rest;
    if n < 128 {
        assert(s[0] == n as u8);
        assert(s.skip(1) =~= rest);
        assert(s[0] as nat % 128 == n);
    } else {
        let b = (n % 128 + 128) as u8;
        assert(e_remlen(n) == one(b) + e_remlen(n / 128));
        assert(s[0] == b);
        assert(s.skip(1) =~= e_remlen(n / 128) + rest);
        assert(k >= 1);
        assert(n / 128 < pow128((k - 1) as nat)) by (nonlinear_arith)
            requires n < 128 * pow128((k - 1) as nat);
        lemma_remlen_roundtrip(n / 128, rest, acc + (n % 128) * mult, mult * 128, (k - 1) as nat);
        assert(b as nat % 128 == n % 128);
        assert((n % 128) * mult + (n / 128) * (mult * 128) == n * mult) by (nonlinear_arith);
    }
}

pub proof fn lemma_u8_roundtrip(b: u8, rest: Seq<u8>)
    ensures
        s_u8(one(b) + rest) == Some((b, rest)), /*@C07@*/
{
    reveal(one);
    reveal(s_u8);
    assert((one(b) + rest).skip(1) =~= rest);
}

pub proof fn lemma_u16_roundtrip(n: u16, rest: Seq<u8>)
    ensures
        s_u16(be16_bytes(n) + rest) == Some((n, rest)), /*@C07@*/
{
    reveal(s_u16);
    let s = be16_bytes(n) + rest;
    assert(s[0] == (n / 256) as u8 && s[1] == (n % 256) as u8);
    assert(s.skip(2) =~= rest);
}

pub proof fn lemma_bytes_roundtrip(b: Seq<u8>, rest: Seq<u8>)
    ensures
        s_bytes(b + rest, b.len()) == Some((b, rest)), /*@C07@*/
{
    reveal(s_bytes);
    assert((b + rest).take(b.len() as int) =~= b);
    assert((b + rest).skip(b.len() as int) =~= rest);
}

pub proof fn lemma_str_roundtrip(t: Seq<char>, rest: Seq<u8>)
    requires
        encode_utf8(t).len() <= 65535,
    ensures
        s_str(e_str(t) + rest) == Some((t, encode_utf8(t).len(), rest)), /*@C07@*/
{
    reveal(s_str);
    broadcast use group_utf8_lib;
    let b = encode_utf8(t);
    assert(e_str(t) + rest =~= be16_bytes(b.len() as u16) + (b + rest));
    lemma_u16_roundtrip(b.len() as u16, b + rest);
    lemma_bytes_roundtrip(b, rest);
}

/// C07.
pub proof fn theorem_roundtrip(p: VPacket, rest: Seq<u8>)
    requires
        exchangeable(p),
    ensures
        d_packet(e_packet(p) + rest) == Some((p, rest)), /*@C07@*/
{
    reveal_with_fuel(pow128, 5);
    assert(pow128(4) == 268435456);
    match p {
        VPacket::PubAck(id) => lemma_id_roundtrip(0x40, id, rest),
        VPacket::PubRec(id) => lemma_id_roundtrip(0x50, id, rest),
        VPacket::PubRel(id) => lemma_id_roundtrip(0x62, id, rest),
        VPacket::PubComp(id) => lemma_id_roundtrip(0x70, id, rest),
        VPacket::Publish { dup, id, msg } => {
            let first = (0x30 + 8 * b2i(dup) + 2 * msg.qos + b2i(msg.retain)) as u8;
            let n = publish_len(id, msg);
            let s3 = msg.payload + rest;
            let s2 = e_opt_id(id) + s3;
            let s1 = e_str(msg.topic) + s2;
            let s0 = e_remlen(n) + s1;
            assert(e_packet(p) + rest =~= one(first) + s0);
            lemma_u8_roundtrip(first, s0);
            lemma_remlen_roundtrip(n, s1, 0, 1, 4);
            lemma_str_roundtrip(msg.topic, s2);
            lemma_bytes_roundtrip(msg.payload, rest);
            reveal(bit);
            reveal(field2);
            assert(first as int / 16 == 3);
            assert(field2(first, 2) == msg.qos);
            assert(bit(first, 8) == dup);
            assert(bit(first, 1) == msg.retain);
            match id {
                None => { assert(s2 =~= s3); }
                Some(i) => { lemma_u16_roundtrip(i, s3); }
            }
            assert(n - (encode_utf8(msg.topic).len() + 2 + e_opt_id(id).len()) == msg.payload.len());
            assert(d_opt_id(s2, msg.qos > 0) == Some((id, e_opt_id(id).len(), s3)));
        }
        _ => {}
    }
}

pub proof fn lemma_id_roundtrip(first: u8, id: u16, rest: Seq<u8>)
    ensures
        ({
            let s = e_id(first, id) + rest;
            &&& s_u8(s) is Some && s_u8(s)->Some_0.0 == first
            &&& s_remlen(s_u8(s)->Some_0.1) == Some((2nat, be16_bytes(id) + rest))
            &&& s_u16(be16_bytes(id) + rest) == Some((id, rest))
        }), /*@C07@*/
{
    let s1 = one(2) + (be16_bytes(id) + rest);
    assert(e_id(first, id) + rest =~= one(first) + s1);
    lemma_u8_roundtrip(first, s1);
    reveal_with_fuel(pow128, 5);
    lemma_remlen_roundtrip(2, be16_bytes(id) + rest, 0, 1, 4);
    lemma_u16_roundtrip(id, rest);
}

} // verus!
