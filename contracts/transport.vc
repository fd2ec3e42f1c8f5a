@area transport
@spec vx_roundtrip /verif/contracts/roundtrip.rs

@module mqtt::transport::mqtt_bytes_stream
@use crate::vx_prelude::*
@use crate::vx_mqtt::*
@use vstd::utf8::*
@external MqttBytesStream
@external impl MqttBytesStream
@append
broadcast use {group_convert, vstd::seq::group_seq_axioms, lemma_prefix_self};
impl MqttBytesReadStream {
    /// Every byte this stream is still going to return: those buffered, then those to come.
    pub closed spec fn rview(&self) -> Seq<u8> { bmv(self.read_buffer) + incoming(self.read_stream) }
}
impl MqttBytesWriteStream {
    /// Bytes handed to the socket so far.
    pub closed spec fn sent(&self) -> Seq<u8> { written(self.write_stream) }
    /// Bytes still in the buffer.
    pub closed spec fn pending(&self) -> Seq<u8> { bmv(self.write_buffer) }
    /// Whether writing to this stream is going to fail, ever.
    pub closed spec fn failing(&self) -> bool { failing(self.write_stream) }
    /// The connection it writes to.
    pub closed spec fn socket(&self) -> int { socket_of_write(self.write_stream) }
    /// Everything put into this stream.
    pub open spec fn wview(&self) -> Seq<u8> { self.sent() + self.pending() }
}
@fn MqttBytesReadStream::new(buffer_size, read_stream) -> r
@props C04
    ensures
        r.rview() == incoming(read_stream), //@ C04

@fn MqttBytesReadStream::wait_for_data(bytes) -> r
@props C01 C02 C03 C04
    ensures
        final(self).rview() == old(self).rview(), //@ C04
        r is Ok <==> old(self).rview().len() >= bytes, //@ C02 C04
        r is Ok ==> bmv(final(self).read_buffer).len() >= bytes, //@ C04
@loop 1 while
    invariant
        self.rview() == old(self).rview(), //@ C04
    decreases incoming(self.read_stream).len(), //@ C03

@fn MqttBytesReadStream::get_u8() -> r
@props C01 C02 C03 C04
    ensures
        match s_u8(old(self).rview()) {
            Some((v, rest)) => r is Ok && r->Ok_0 == v && final(self).rview() == rest,
            None => r is Err,
        }, //@ C04
@enter
    reveal(s_u8);

@fn MqttBytesReadStream::get_u16() -> r
@props C01 C02 C03 C04
    ensures
        match s_u16(old(self).rview()) {
            Some((v, rest)) => r is Ok && r->Ok_0 == v && final(self).rview() == rest,
            None => r is Err,
        }, //@ C04
@enter
    reveal(s_u16);

@fn MqttBytesReadStream::get_bytes(size) -> r
@props C01 C02 C03 C04
    ensures
        match s_bytes(old(self).rview(), size as nat) {
            Some((v, rest)) => r is Ok && bmv(r->Ok_0) == v && final(self).rview() == rest,
            None => r is Err,
        }, //@ C04
@maybe remaining_length ~ size
@local bytes ~ BytesMut::
@loop 1 while
    invariant
        bmv(bytes).len() <= size,
        bmv(bytes) + self.rview() == old(self).rview(), //@ C04
        bmv(bytes).len() + remaining_length == size, //@ C04
    decreases size - bmv(bytes).len(), //@ C03
@enter
    reveal(s_bytes);

@fn MqttBytesReadStream::get_string() -> r
@props C01 C02 C03 C04
    ensures
        match s_str(old(self).rview()) {
            Some((v, n, rest)) => r is Ok && (r->Ok_0)@ == v && final(self).rview() == rest && encode_utf8((r->Ok_0)@).len() == n,
            None => r is Err,
        }, //@ C04
@enter
    reveal(s_str); reveal(s_u16); reveal(s_bytes);
    broadcast use group_utf8_lib;

@fn MqttBytesWriteStream::new(buffer_size, write_stream) -> r
@props C06
    ensures
        r.sent() == written(write_stream), //@ C06
        r.pending() == Seq::<u8>::empty(), //@ C06
        r.failing() == failing(write_stream),
        r.socket() == socket_of_write(write_stream), //@ C20

@fn MqttBytesWriteStream::write_buffer_if_too_small(size) -> r
@props C05 C06 C20
    requires
        size <= isize::MAX,
    ensures
        final(self).wview() == old(self).wview(), //@ C05 C06
        final(self).failing() == old(self).failing(), //@ C06 C20
        r is Err ==> old(self).failing(), //@ C06 C20

@fn MqttBytesWriteStream::put_u8(n) -> r
@props C05 C06 C20
    ensures
        r is Ok ==> final(self).wview() == old(self).wview() + one(n), //@ C05 C06
        r is Err ==> final(self).wview() == old(self).wview(), //@ C06
        final(self).failing() == old(self).failing(), //@ C06 C20
        r is Err ==> old(self).failing(), //@ C06 C20
@enter
    reveal(is_prefix); reveal(one);

@fn MqttBytesWriteStream::put_u16(n) -> r
@props C05 C06 C20
    ensures
        r is Ok ==> final(self).wview() == old(self).wview() + be16_bytes(n), //@ C05 C06
        r is Err ==> final(self).wview() == old(self).wview(), //@ C06
        final(self).failing() == old(self).failing(), //@ C06 C20
        r is Err ==> old(self).failing(), //@ C06 C20

@fn MqttBytesWriteStream::put_bytes(bytes) -> r
@props C05 C06 C20
    ensures
        r is Ok ==> final(self).wview() == old(self).wview() + bmv(bytes), //@ C05 C06
        r is Err ==> is_prefix(final(self).wview(), old(self).wview() + bmv(bytes)), //@ C06
        final(self).failing() == old(self).failing(), //@ C06 C20
        r is Err ==> old(self).failing(), //@ C06 C20
@maybe remaining_size ~ bytes.len()
@loop 1 while
    invariant
        remaining_size == bmv(bytes).len(), //@ C05 C06
        self.wview() + bmv(bytes) =~= old(self).wview() + bmv(vx0_bytes), //@ C05 C06
        self.failing() == old(self).failing(), //@ C06 C20
    decreases bmv(bytes).len(), //@ C06
@enter
    reveal(is_prefix); reveal(one);

@fn MqttBytesWriteStream::put_string(string) -> r
@props C05 C06 C20
    requires
        encode_utf8(string@).len() <= 65535,
    ensures
        r is Ok ==> final(self).wview() == old(self).wview() + e_str(string@), //@ C05 C06
        r is Err ==> is_prefix(final(self).wview(), old(self).wview() + e_str(string@)), //@ C06
        final(self).failing() == old(self).failing(), //@ C06 C20
        r is Err ==> old(self).failing(), //@ C06 C20
@enter
    reveal(is_prefix); reveal(one);
    broadcast use group_utf8_lib;

@fn MqttBytesWriteStream::finish_packet() -> r
@props C05 C06 C20
    ensures
        r is Ok ==> final(self).sent() == old(self).wview() && final(self).pending().len() == 0, //@ C05 C06
        final(self).wview() == old(self).wview(), //@ C06
        final(self).failing() == old(self).failing(), //@ C06 C20
        r is Err ==> old(self).failing(), //@ C06 C20

@module mqtt::transport::packet_decoder
@use crate::vx_prelude::*
@use crate::vx_mqtt::*
@use crate::mqtt::packets::{subs_v, strs_v, opt_msg_v, opt_str_v}
@use vstd::utf8::*

@fn malformed(message) -> r
@fn take_length(remaining_length, field_length) -> r
@props C01 C02 C03
    ensures
        field_length <= remaining_length ==> r is Ok && r->Ok_0 == remaining_length - field_length, //@ C01
        field_length > remaining_length ==> r is Err, //@ C02
@fn validate_remaining_length(actual, expected) -> r
@props C01 C02 C03
    ensures
        actual == expected ==> r is Ok, //@ C01
        actual != expected ==> r is Err, //@ C02
@fn validate_first_byte(actual, expected) -> r
@props C01 C02 C03
    ensures
        actual == expected ==> r is Ok, //@ C01
        actual != expected ==> r is Err, //@ C02

@fn decode_remaining_length(buffer) -> r
@props C01 C02 C03
    ensures
        s_remlen(old(buffer).rview()) is Some ==> r is Ok && r->Ok_0 == s_remlen(old(buffer).rview())->Some_0.0
            && final(buffer).rview() == s_remlen(old(buffer).rview())->Some_0.1, //@ C01
        s_remlen(old(buffer).rview()) is None ==> r is Err, //@ C02
        r is Ok ==> r->Ok_0 <= MAX_REMLEN, //@ C03
@local remaining_length ~ 0u64
@local multiplier ~ 1u64
@loop 1 loop
    invariant
        is_weight(multiplier as nat), //@ C01 C02 C03
        remaining_length < multiplier, //@ C03
        s_remlen(old(buffer).rview()) == s_remlen_from(buffer.rview(), remaining_length as nat, multiplier as nat, digits_left(multiplier as nat)), //@ C01 C02
    decreases digits_left(multiplier as nat), //@ C03
@top 1
    reveal(s_u8); reveal_with_fuel(s_remlen_from, 2);
    broadcast use group_bits;

@fn decode_packet_with_packet_id(buffer, first_byte, expected_first_byte) -> r
@props C01 C02 C03
    ensures
        d_id(old(buffer).rview(), first_byte, expected_first_byte, 2) is Some ==> r is Ok
            && r->Ok_0 == d_id(old(buffer).rview(), first_byte, expected_first_byte, 2)->Some_0.0
            && final(buffer).rview() == d_id(old(buffer).rview(), first_byte, expected_first_byte, 2)->Some_0.1, //@ C01
        d_id(old(buffer).rview(), first_byte, expected_first_byte, 2) is None ==> r is Err, //@ C02

@fn decode_pub_ack(buffer, first_byte, remaining_length) -> r
@props C01 C02 C03
    ensures
        d_id(old(buffer).rview(), first_byte, 0x40u8, remaining_length as nat) is Some ==> r is Ok
            && (r->Ok_0).v() == VPacket::PubAck(d_id(old(buffer).rview(), first_byte, 0x40u8, remaining_length as nat)->Some_0.0)
            && final(buffer).rview() == d_id(old(buffer).rview(), first_byte, 0x40u8, remaining_length as nat)->Some_0.1, //@ C01
        d_id(old(buffer).rview(), first_byte, 0x40u8, remaining_length as nat) is None ==> r is Err, //@ C02

@fn decode_pub_rec(buffer, first_byte, remaining_length) -> r
@props C01 C02 C03
    ensures
        d_id(old(buffer).rview(), first_byte, 0x50u8, remaining_length as nat) is Some ==> r is Ok
            && (r->Ok_0).v() == VPacket::PubRec(d_id(old(buffer).rview(), first_byte, 0x50u8, remaining_length as nat)->Some_0.0)
            && final(buffer).rview() == d_id(old(buffer).rview(), first_byte, 0x50u8, remaining_length as nat)->Some_0.1, //@ C01
        d_id(old(buffer).rview(), first_byte, 0x50u8, remaining_length as nat) is None ==> r is Err, //@ C02

@fn decode_pub_rel(buffer, first_byte, remaining_length) -> r
@props C01 C02 C03
    ensures
        d_id(old(buffer).rview(), first_byte, 0x62u8, remaining_length as nat) is Some ==> r is Ok
            && (r->Ok_0).v() == VPacket::PubRel(d_id(old(buffer).rview(), first_byte, 0x62u8, remaining_length as nat)->Some_0.0)
            && final(buffer).rview() == d_id(old(buffer).rview(), first_byte, 0x62u8, remaining_length as nat)->Some_0.1, //@ C01
        d_id(old(buffer).rview(), first_byte, 0x62u8, remaining_length as nat) is None ==> r is Err, //@ C02

@fn decode_pub_comp(buffer, first_byte, remaining_length) -> r
@props C01 C02 C03
    ensures
        d_id(old(buffer).rview(), first_byte, 0x70u8, remaining_length as nat) is Some ==> r is Ok
            && (r->Ok_0).v() == VPacket::PubComp(d_id(old(buffer).rview(), first_byte, 0x70u8, remaining_length as nat)->Some_0.0)
            && final(buffer).rview() == d_id(old(buffer).rview(), first_byte, 0x70u8, remaining_length as nat)->Some_0.1, //@ C01
        d_id(old(buffer).rview(), first_byte, 0x70u8, remaining_length as nat) is None ==> r is Err, //@ C02

@fn decode_connect(buffer, first_byte, remaining_length) -> r
@props C01 C02 C03
    ensures
        d_connect(old(buffer).rview(), first_byte, remaining_length as nat) is Some ==> r is Ok
            && (r->Ok_0).v() == d_connect(old(buffer).rview(), first_byte, remaining_length as nat)->Some_0.0
            && final(buffer).rview() == d_connect(old(buffer).rview(), first_byte, remaining_length as nat)->Some_0.1, //@ C01
        d_connect(old(buffer).rview(), first_byte, remaining_length as nat) is None ==> r is Err, //@ C02
@enter
    broadcast use {group_bits, lemma_s_bytes_len};

@fn decode_publish(buffer, first_byte, remaining_length) -> r
@props C01 C02 C03
    ensures
        d_publish(old(buffer).rview(), first_byte, remaining_length as nat) is Some ==> r is Ok
            && (r->Ok_0).v() == d_publish(old(buffer).rview(), first_byte, remaining_length as nat)->Some_0.0
            && final(buffer).rview() == d_publish(old(buffer).rview(), first_byte, remaining_length as nat)->Some_0.1, //@ C01
        d_publish(old(buffer).rview(), first_byte, remaining_length as nat) is None ==> r is Err, //@ C02
@enter
    broadcast use group_bits;

@fn decode_subscribe(buffer, first_byte, remaining_length) -> r
@props C01 C02 C03
    ensures
        d_subscribe(old(buffer).rview(), first_byte, remaining_length as nat) is Some ==> r is Ok
            && (r->Ok_0).v() == d_subscribe(old(buffer).rview(), first_byte, remaining_length as nat)->Some_0.0
            && final(buffer).rview() == d_subscribe(old(buffer).rview(), first_byte, remaining_length as nat)->Some_0.1, //@ C01
        d_subscribe(old(buffer).rview(), first_byte, remaining_length as nat) is None ==> r is Err, //@ C02
@enter
    broadcast use {lemma_filters_step, lemma_filters_end, lemma_then_empty_filters};
@local subscriptions ~ Vec::new()
@loop 1 while
    invariant
        first_byte == 0x82,
        s_u16(old(buffer).rview()) is Some,
        then_filters(subs_v(subscriptions@), d_filters(buffer.rview(), remaining_length as nat))
            == d_filters(s_u16(old(buffer).rview())->Some_0.1, (vx0_remaining_length - 2) as nat), //@ C01 C02
    decreases remaining_length, //@ C03

@fn decode_unsubscribe(buffer, first_byte, remaining_length) -> r
@props C01 C02 C03
    ensures
        d_unsubscribe(old(buffer).rview(), first_byte, remaining_length as nat) is Some ==> r is Ok
            && (r->Ok_0).v() == d_unsubscribe(old(buffer).rview(), first_byte, remaining_length as nat)->Some_0.0
            && final(buffer).rview() == d_unsubscribe(old(buffer).rview(), first_byte, remaining_length as nat)->Some_0.1, //@ C01
        d_unsubscribe(old(buffer).rview(), first_byte, remaining_length as nat) is None ==> r is Err, //@ C02
@enter
    broadcast use {lemma_topics_step, lemma_topics_end, lemma_then_empty_topics};
@local topics ~ Vec::new()
@loop 1 while
    invariant
        first_byte == 0xa2,
        s_u16(old(buffer).rview()) is Some,
        then_topics(strs_v(topics@), d_topics(buffer.rview(), remaining_length as nat))
            == d_topics(s_u16(old(buffer).rview())->Some_0.1, (vx0_remaining_length - 2) as nat), //@ C01 C02
    decreases remaining_length, //@ C03

@fn read_packet(mqtt_stream) -> r
@props C01 C02 C03 C04 C07
    ensures
        d_packet(old(mqtt_stream).rview()) is Some ==> r is Ok
            && (r->Ok_0).v() == d_packet(old(mqtt_stream).rview())->Some_0.0
            && final(mqtt_stream).rview() == d_packet(old(mqtt_stream).rview())->Some_0.1, //@ C01
        d_packet(old(mqtt_stream).rview()) is None ==> r is Err, //@ C02
@enter
    broadcast use group_bits;

@module mqtt::transport::packet_encoder
@external PacketEncoder
@use crate::vx_prelude::*
@use crate::vx_mqtt::*
@use crate::mqtt::packets::codes_v
@use vstd::utf8::*
@append
broadcast use {group_convert, group_writer, group_bits};

@fn encode_remaining_length(remaining_length, buffer) -> r
@props C05 C06 C07 C20
@attr #[verifier::allow_complex_invariants]
    ensures
        r is Ok ==> final(buffer).wview() == old(buffer).wview() + e_remlen(remaining_length as nat), //@ C05
        r is Err ==> is_prefix(final(buffer).wview(), old(buffer).wview() + e_remlen(remaining_length as nat)), //@ C06
        final(buffer).failing() == old(buffer).failing(), //@ C06 C20
        r is Err ==> old(buffer).failing(), //@ C06 C20
@loop 1 loop
    invariant_except_break
        buffer.wview() + e_remlen(remaining_length as nat) == old(buffer).wview() + e_remlen(vx0_remaining_length as nat), //@ C05
        buffer.failing() == old(buffer).failing(), //@ C06 C20
    ensures
        buffer.failing() == old(buffer).failing(), //@ C06 C20
        buffer.wview() == old(buffer).wview() + e_remlen(vx0_remaining_length as nat), //@ C05
    decreases remaining_length, //@ C05
@top 1
    reveal_with_fuel(e_remlen, 2);

@fn write_packet_with_packet_id(buffer, first_byte, packet_id) -> r
@props C05 C06 C07 C20
    ensures
        r is Ok ==> final(buffer).wview() == old(buffer).wview() + e_id(first_byte, packet_id), //@ C05
        r is Err ==> is_prefix(final(buffer).wview(), old(buffer).wview() + e_id(first_byte, packet_id)), //@ C06
        final(buffer).failing() == old(buffer).failing(), //@ C06 C20
        r is Err ==> old(buffer).failing(), //@ C06 C20

@fn write_conn_ack(buffer, packet) -> r
@props C05 C06 C07 C20
    requires
        sendable(crate::mqtt::packets::ControlPacket::ConnAck(packet).v()),
    ensures
        r is Ok ==> final(buffer).wview() == old(buffer).wview() + e_packet(crate::mqtt::packets::ControlPacket::ConnAck(packet).v()), //@ C05
        r is Err ==> is_prefix(final(buffer).wview(), old(buffer).wview() + e_packet(crate::mqtt::packets::ControlPacket::ConnAck(packet).v())), //@ C06
        final(buffer).failing() == old(buffer).failing(), //@ C06 C20
        r is Err ==> old(buffer).failing(), //@ C06 C20

@fn write_publish(buffer, packet) -> r
@props C05 C06 C07 C20
    requires
        sendable(crate::mqtt::packets::ControlPacket::Publish(packet).v()),
    ensures
        r is Ok ==> final(buffer).wview() == old(buffer).wview() + e_packet(crate::mqtt::packets::ControlPacket::Publish(packet).v()), //@ C05
        r is Err ==> is_prefix(final(buffer).wview(), old(buffer).wview() + e_packet(crate::mqtt::packets::ControlPacket::Publish(packet).v())), //@ C06
        final(buffer).failing() == old(buffer).failing(), //@ C06 C20
        r is Err ==> old(buffer).failing(), //@ C06 C20

@fn write_pub_ack(buffer, packet) -> r
@props C05 C06 C07 C20
    requires
        sendable(crate::mqtt::packets::ControlPacket::PubAck(packet).v()),
    ensures
        r is Ok ==> final(buffer).wview() == old(buffer).wview() + e_packet(crate::mqtt::packets::ControlPacket::PubAck(packet).v()), //@ C05
        r is Err ==> is_prefix(final(buffer).wview(), old(buffer).wview() + e_packet(crate::mqtt::packets::ControlPacket::PubAck(packet).v())), //@ C06
        final(buffer).failing() == old(buffer).failing(), //@ C06 C20
        r is Err ==> old(buffer).failing(), //@ C06 C20

@fn write_pub_rec(buffer, packet) -> r
@props C05 C06 C07 C20
    requires
        sendable(crate::mqtt::packets::ControlPacket::PubRec(packet).v()),
    ensures
        r is Ok ==> final(buffer).wview() == old(buffer).wview() + e_packet(crate::mqtt::packets::ControlPacket::PubRec(packet).v()), //@ C05
        r is Err ==> is_prefix(final(buffer).wview(), old(buffer).wview() + e_packet(crate::mqtt::packets::ControlPacket::PubRec(packet).v())), //@ C06
        final(buffer).failing() == old(buffer).failing(), //@ C06 C20
        r is Err ==> old(buffer).failing(), //@ C06 C20

@fn write_pub_rel(buffer, packet) -> r
@props C05 C06 C07 C20
    requires
        sendable(crate::mqtt::packets::ControlPacket::PubRel(packet).v()),
    ensures
        r is Ok ==> final(buffer).wview() == old(buffer).wview() + e_packet(crate::mqtt::packets::ControlPacket::PubRel(packet).v()), //@ C05
        r is Err ==> is_prefix(final(buffer).wview(), old(buffer).wview() + e_packet(crate::mqtt::packets::ControlPacket::PubRel(packet).v())), //@ C06
        final(buffer).failing() == old(buffer).failing(), //@ C06 C20
        r is Err ==> old(buffer).failing(), //@ C06 C20

@fn write_pub_comp(buffer, packet) -> r
@props C05 C06 C07 C20
    requires
        sendable(crate::mqtt::packets::ControlPacket::PubComp(packet).v()),
    ensures
        r is Ok ==> final(buffer).wview() == old(buffer).wview() + e_packet(crate::mqtt::packets::ControlPacket::PubComp(packet).v()), //@ C05
        r is Err ==> is_prefix(final(buffer).wview(), old(buffer).wview() + e_packet(crate::mqtt::packets::ControlPacket::PubComp(packet).v())), //@ C06
        final(buffer).failing() == old(buffer).failing(), //@ C06 C20
        r is Err ==> old(buffer).failing(), //@ C06 C20

@fn write_sub_ack(buffer, packet) -> r
@props C05 C06 C07 C20
    requires
        sendable(crate::mqtt::packets::ControlPacket::SubAck(packet).v()),
    ensures
        r is Ok ==> final(buffer).wview() == old(buffer).wview() + e_packet(crate::mqtt::packets::ControlPacket::SubAck(packet).v()), //@ C05
        r is Err ==> is_prefix(final(buffer).wview(), old(buffer).wview() + e_packet(crate::mqtt::packets::ControlPacket::SubAck(packet).v())), //@ C06
        final(buffer).failing() == old(buffer).failing(), //@ C06 C20
        r is Err ==> old(buffer).failing(), //@ C06 C20
@local return_codes ~ packet.return_codes
@before 1
    proof { lemma_codes_step(codes_v(return_codes@), 0); }
@top 1
    proof { lemma_codes_step(codes_v(return_codes@), vx_it1.index@); }
@after 1
    proof { lemma_codes_step(codes_v(return_codes@), return_codes@.len() as int); }
@loop 1 for
    invariant
        buffer.wview() + e_codes(codes_v(return_codes@).skip(vx_it1.index@))
            == old(buffer).wview() + e_packet(crate::mqtt::packets::ControlPacket::SubAck(vx0_packet).v()), //@ C05
        buffer.failing() == old(buffer).failing(), //@ C06 C20

@fn write_unsub_ack(buffer, packet) -> r
@props C05 C06 C07 C20
    requires
        sendable(crate::mqtt::packets::ControlPacket::UnsubAck(packet).v()),
    ensures
        r is Ok ==> final(buffer).wview() == old(buffer).wview() + e_packet(crate::mqtt::packets::ControlPacket::UnsubAck(packet).v()), //@ C05
        r is Err ==> is_prefix(final(buffer).wview(), old(buffer).wview() + e_packet(crate::mqtt::packets::ControlPacket::UnsubAck(packet).v())), //@ C06
        final(buffer).failing() == old(buffer).failing(), //@ C06 C20
        r is Err ==> old(buffer).failing(), //@ C06 C20

@fn write_ping_resp(buffer) -> r
@props C05 C06 C20
    ensures
        r is Ok ==> final(buffer).wview() == old(buffer).wview() + (one(0xd0) + one(0)), //@ C05
        r is Err ==> is_prefix(final(buffer).wview(), old(buffer).wview() + (one(0xd0) + one(0))), //@ C06
        final(buffer).failing() == old(buffer).failing(), //@ C06 C20
        r is Err ==> old(buffer).failing(), //@ C06 C20

@fn write_packet(mqtt_stream, packet) -> r
@props C05 C06 C07 C20
    requires
        sendable(packet.v()), //@ C05
    ensures
        r is Ok ==> final(mqtt_stream).sent() == old(mqtt_stream).wview() + e_packet(packet.v()), //@ C05 C06
        r is Ok ==> final(mqtt_stream).pending().len() == 0, //@ C06
        is_prefix(final(mqtt_stream).wview(), old(mqtt_stream).wview() + e_packet(packet.v())), //@ C06
        final(mqtt_stream).failing() == old(mqtt_stream).failing(), //@ C06 C20
        r is Err ==> old(mqtt_stream).failing(), //@ C06 C20
