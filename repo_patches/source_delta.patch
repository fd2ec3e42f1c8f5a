From ce5501c77b9a313f64b67f2eb7c75e3930a9922c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:26 +0000
Subject: [PATCH 01/24] fix: accept remaining lengths encoded in four bytes

---
 src/mqtt/transport/packet_decoder.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mqtt/transport/packet_decoder.rs b/src/mqtt/transport/packet_decoder.rs
index 1628c84..3e3d85c 100644
--- a/src/mqtt/transport/packet_decoder.rs
+++ b/src/mqtt/transport/packet_decoder.rs
@@ -48,9 +48,6 @@ pub async fn decode_remaining_length(buffer: &mut MqttBytesReadStream) -> Result
 
     loop {
         let byte = buffer.get_u8().await?;
-        remaining_length += (byte & 127) as u64 * multiplier;
-        multiplier *= 128;
-
         if multiplier > 128 * 128 * 128 {
             return Err(tokio::io::Error::new(
                 ErrorKind::InvalidData,
@@ -58,6 +55,9 @@ pub async fn decode_remaining_length(buffer: &mut MqttBytesReadStream) -> Result
             ));
         }
 
+        remaining_length += (byte & 127) as u64 * multiplier;
+        multiplier *= 128;
+
         let continuation_bit = byte & 128;
         if continuation_bit == 0 {
             break;
-- 
2.43.0


From 11f5a52086e37cb45c1989d69ff995183ec4104e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:26 +0000
Subject: [PATCH 02/24] fix: refuse packet types a client must not send instead
 of panicking

---
 src/mqtt/transport/packet_decoder.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/mqtt/transport/packet_decoder.rs b/src/mqtt/transport/packet_decoder.rs
index 3e3d85c..1003e3a 100644
--- a/src/mqtt/transport/packet_decoder.rs
+++ b/src/mqtt/transport/packet_decoder.rs
@@ -87,7 +87,12 @@ pub async fn read_packet(mqtt_stream: &mut MqttBytesReadStream) -> Result<Contro
         }
         PACKET_TYPE_PING_REQ => ControlPacket::PingReq,
         PACKET_TYPE_DISCONNECT => ControlPacket::Disconnect(DisconnectPacket::default()),
-        _ => unimplemented!(),
+        _ => {
+            return Err(tokio::io::Error::new(
+                ErrorKind::InvalidData,
+                "Unexpected packet type",
+            ))
+        }
     };
 
     Ok(packet)
-- 
2.43.0


From e31a2d0821015f3b6d0a2e81c58d7ff7c5707c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:26 +0000
Subject: [PATCH 03/24] fix: refuse PUBLISH with QoS 3 instead of panicking

---
 src/mqtt/transport/packet_decoder.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/mqtt/transport/packet_decoder.rs b/src/mqtt/transport/packet_decoder.rs
index 1003e3a..8eb00c2 100644
--- a/src/mqtt/transport/packet_decoder.rs
+++ b/src/mqtt/transport/packet_decoder.rs
@@ -176,7 +176,11 @@ async fn decode_publish(
 
     let dup = flags.contains(FixedHeaderFlags::DUP);
     let retain = flags.contains(FixedHeaderFlags::RETAIN);
-    let qos = QoS::from_bits((flags & FixedHeaderFlags::QOS).bits >> 1);
+    let qos_bits = (flags & FixedHeaderFlags::QOS).bits >> 1;
+    if qos_bits > 2 {
+        return Err(malformed("Malformed QoS"));
+    }
+    let qos = QoS::from_bits(qos_bits);
 
     // variable header
     let topic = buffer.get_string().await?;
@@ -310,6 +314,10 @@ async fn decode_packet_with_packet_id(
     Ok(packet_id)
 }
 
+fn malformed(message: &'static str) -> Error {
+    Error::new(ErrorKind::InvalidData, message)
+}
+
 fn validate_first_byte(actual: u8, expected: u8) -> Result<(), Error> {
     if actual == expected {
         Ok(())
-- 
2.43.0


From 98067959f014ffc4fe107816223319af9e922ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:26 +0000
Subject: [PATCH 04/24] fix: refuse PUBLISH whose fields exceed its remaining
 length

---
 src/mqtt/transport/packet_decoder.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/mqtt/transport/packet_decoder.rs b/src/mqtt/transport/packet_decoder.rs
index 8eb00c2..48d8a7e 100644
--- a/src/mqtt/transport/packet_decoder.rs
+++ b/src/mqtt/transport/packet_decoder.rs
@@ -184,11 +184,10 @@ async fn decode_publish(
 
     // variable header
     let topic = buffer.get_string().await?;
-    remaining_length -= topic.len() as u64;
-    remaining_length -= 2;
+    remaining_length = take_length(remaining_length, topic.len() as u64 + 2)?;
 
     let packet_id = if qos > QoS::AtMostOnce {
-        remaining_length -= 2;
+        remaining_length = take_length(remaining_length, 2)?;
         Some(buffer.get_u16().await?)
     } else {
         None
@@ -318,6 +317,15 @@ fn malformed(message: &'static str) -> Error {
     Error::new(ErrorKind::InvalidData, message)
 }
 
+/// Subtracts the size of a decoded field, which must not exceed what is left of the packet
+fn take_length(remaining_length: u64, field_length: u64) -> Result<u64, Error> {
+    if field_length > remaining_length {
+        return Err(malformed("Malformed remaining length"));
+    }
+
+    Ok(remaining_length - field_length)
+}
+
 fn validate_first_byte(actual: u8, expected: u8) -> Result<(), Error> {
     if actual == expected {
         Ok(())
-- 
2.43.0


From 064d7ec1cb437e26f42cbf60808ade4433f7f0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:26 +0000
Subject: [PATCH 05/24] fix: refuse SUBSCRIBE and UNSUBSCRIBE whose fields
 exceed their remaining length

---
 src/mqtt/transport/packet_decoder.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/mqtt/transport/packet_decoder.rs b/src/mqtt/transport/packet_decoder.rs
index 48d8a7e..4c3b857 100644
--- a/src/mqtt/transport/packet_decoder.rs
+++ b/src/mqtt/transport/packet_decoder.rs
@@ -242,7 +242,7 @@ async fn decode_subscribe(
     mut remaining_length: u64,
 ) -> Result<ControlPacket, Error> {
     let packet_id = decode_packet_with_packet_id(buffer, first_byte, 0b10000010).await?;
-    remaining_length -= 2;
+    remaining_length = take_length(remaining_length, 2)?;
 
     // payload
 
@@ -264,7 +264,10 @@ async fn decode_subscribe(
             ));
         }
 
-        remaining_length -= topic.len() as u64 + 3u64 /* 2 topic length + QoS*/;
+        remaining_length = take_length(
+            remaining_length,
+            topic.len() as u64 + 3u64, /* 2 topic length + QoS*/
+        )?;
 
         let subscription = Subscription::new(topic, QoS::from_bits(qos));
         subscriptions.push(subscription);
@@ -280,7 +283,7 @@ async fn decode_unsubscribe(
     mut remaining_length: u64,
 ) -> Result<ControlPacket, Error> {
     let packet_id = decode_packet_with_packet_id(buffer, first_byte, 0b10100010).await?;
-    remaining_length -= 2;
+    remaining_length = take_length(remaining_length, 2)?;
 
     if remaining_length == 0 {
         return Err(tokio::io::Error::new(
@@ -293,7 +296,10 @@ async fn decode_unsubscribe(
     while remaining_length > 0 {
         let topic = buffer.get_string().await?;
 
-        remaining_length -= topic.len() as u64 + 2u64/* 2 topic length */;
+        remaining_length = take_length(
+            remaining_length,
+            topic.len() as u64 + 2u64, /* 2 topic length */
+        )?;
 
         topics.push(topic);
     }
-- 
2.43.0


From 6815920543f8c0c325cf9b0980abd0ec8f8c59f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:26 +0000
Subject: [PATCH 06/24] fix: refuse fixed-size packets with a wrong remaining
 length or flags

---
 src/mqtt/transport/packet_decoder.rs | 32 ++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/mqtt/transport/packet_decoder.rs b/src/mqtt/transport/packet_decoder.rs
index 4c3b857..b6a3496 100644
--- a/src/mqtt/transport/packet_decoder.rs
+++ b/src/mqtt/transport/packet_decoder.rs
@@ -85,8 +85,16 @@ pub async fn read_packet(mqtt_stream: &mut MqttBytesReadStream) -> Result<Contro
         PACKET_TYPE_UNSUBSCRIBE => {
             decode_unsubscribe(mqtt_stream, first_byte, remaining_length).await?
         }
-        PACKET_TYPE_PING_REQ => ControlPacket::PingReq,
-        PACKET_TYPE_DISCONNECT => ControlPacket::Disconnect(DisconnectPacket::default()),
+        PACKET_TYPE_PING_REQ => {
+            validate_first_byte(first_byte, PACKET_TYPE_PING_REQ << 4)?;
+            validate_remaining_length(remaining_length, 0)?;
+            ControlPacket::PingReq
+        }
+        PACKET_TYPE_DISCONNECT => {
+            validate_first_byte(first_byte, PACKET_TYPE_DISCONNECT << 4)?;
+            validate_remaining_length(remaining_length, 0)?;
+            ControlPacket::Disconnect(DisconnectPacket::default())
+        }
         _ => {
             return Err(tokio::io::Error::new(
                 ErrorKind::InvalidData,
@@ -203,8 +211,9 @@ async fn decode_publish(
 async fn decode_pub_ack(
     buffer: &mut MqttBytesReadStream,
     first_byte: u8,
-    _remaining_length: u64,
+    remaining_length: u64,
 ) -> Result<ControlPacket, Error> {
+    validate_remaining_length(remaining_length, 2)?;
     let packet_id = decode_packet_with_packet_id(buffer, first_byte, 0b01000000).await?;
     Ok(ControlPacket::PubAck(PubAckPacket::new(packet_id)))
 }
@@ -212,8 +221,9 @@ async fn decode_pub_ack(
 async fn decode_pub_rec(
     buffer: &mut MqttBytesReadStream,
     first_byte: u8,
-    _remaining_length: u64,
+    remaining_length: u64,
 ) -> Result<ControlPacket, Error> {
+    validate_remaining_length(remaining_length, 2)?;
     let packet_id = decode_packet_with_packet_id(buffer, first_byte, 0b01010000).await?;
     Ok(ControlPacket::PubRec(PubRecPacket::new(packet_id)))
 }
@@ -221,8 +231,9 @@ async fn decode_pub_rec(
 async fn decode_pub_rel(
     buffer: &mut MqttBytesReadStream,
     first_byte: u8,
-    _remaining_length: u64,
+    remaining_length: u64,
 ) -> Result<ControlPacket, Error> {
+    validate_remaining_length(remaining_length, 2)?;
     let packet_id = decode_packet_with_packet_id(buffer, first_byte, 0b01100010).await?;
     Ok(ControlPacket::PubRel(PubRelPacket::new(packet_id)))
 }
@@ -230,8 +241,9 @@ async fn decode_pub_rel(
 async fn decode_pub_comp(
     buffer: &mut MqttBytesReadStream,
     first_byte: u8,
-    _remaining_length: u64,
+    remaining_length: u64,
 ) -> Result<ControlPacket, Error> {
+    validate_remaining_length(remaining_length, 2)?;
     let packet_id = decode_packet_with_packet_id(buffer, first_byte, 0b01110000).await?;
     Ok(ControlPacket::PubComp(PubCompPacket::new(packet_id)))
 }
@@ -332,6 +344,14 @@ fn take_length(remaining_length: u64, field_length: u64) -> Result<u64, Error> {
     Ok(remaining_length - field_length)
 }
 
+fn validate_remaining_length(actual: u64, expected: u64) -> Result<(), Error> {
+    if actual == expected {
+        Ok(())
+    } else {
+        Err(malformed("Malformed remaining length"))
+    }
+}
+
 fn validate_first_byte(actual: u8, expected: u8) -> Result<(), Error> {
     if actual == expected {
         Ok(())
-- 
2.43.0


From 00b33078eb39838bffbde7a0770f0058bc5a4daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:11 +0000
Subject: [PATCH 07/24] fix: decode the will of a CONNECT and check its
 remaining length

---
 src/mqtt/transport/packet_decoder.rs | 47 ++++++++++++++++++++++++----
 1 file changed, 41 insertions(+), 6 deletions(-)

diff --git a/src/mqtt/transport/packet_decoder.rs b/src/mqtt/transport/packet_decoder.rs
index b6a3496..985716a 100644
--- a/src/mqtt/transport/packet_decoder.rs
+++ b/src/mqtt/transport/packet_decoder.rs
@@ -1,3 +1,4 @@
+use crate::mqtt::message::Message;
 use crate::mqtt::packets::puback::PubAckPacket;
 use crate::mqtt::packets::pubcomp::PubCompPacket;
 use crate::mqtt::packets::pubrec::PubRecPacket;
@@ -108,8 +109,8 @@ pub async fn read_packet(mqtt_stream: &mut MqttBytesReadStream) -> Result<Contro
 
 async fn decode_connect(
     buffer: &mut MqttBytesReadStream,
-    _first_byte: u8,
-    _remaining_length: u64,
+    first_byte: u8,
+    mut remaining_length: u64,
 ) -> Result<ControlPacket, Error> {
     bitflags! {
         struct ConnectFlags: u8 {
@@ -125,8 +126,11 @@ async fn decode_connect(
         }
     }
 
+    validate_first_byte(first_byte, PACKET_TYPE_CONNECT << 4)?;
+
     // variable header
-    let _protocol_name = buffer.get_string().await?;
+    let protocol_name = buffer.get_string().await?;
+    remaining_length = take_length(remaining_length, protocol_name.len() as u64 + 2)?;
     let _protocol_level = buffer.get_u8().await?;
     let connect_flags_byte = buffer.get_u8().await?;
     let connect_flags = ConnectFlags::from_bits_truncate(connect_flags_byte);
@@ -134,29 +138,60 @@ async fn decode_connect(
     let clean_session = connect_flags.contains(ConnectFlags::CLEAN_SESSION);
 
     let keep_alive_seconds = buffer.get_u16().await?;
+    remaining_length = take_length(remaining_length, 4)?;
 
     // payload
     let client_id = buffer.get_string().await?;
+    remaining_length = take_length(remaining_length, client_id.len() as u64 + 2)?;
+
+    let will_message = if connect_flags.contains(ConnectFlags::WILL) {
+        let will_qos_bits = (connect_flags & ConnectFlags::WILL_QOS).bits >> 3;
+        if will_qos_bits > 2 {
+            return Err(malformed("Malformed will QoS"));
+        }
+
+        let topic = buffer.get_string().await?;
+        remaining_length = take_length(remaining_length, topic.len() as u64 + 2)?;
+
+        let payload_size = buffer.get_u16().await? as usize;
+        let payload = buffer.get_bytes(payload_size).await?;
+        remaining_length = take_length(remaining_length, payload_size as u64 + 2)?;
+
+        Some(Message {
+            topic,
+            payload,
+            qos: QoS::from_bits(will_qos_bits),
+            retain: connect_flags.contains(ConnectFlags::WILL_RETAIN),
+        })
+    } else {
+        None
+    };
 
     let user_name = if connect_flags.contains(ConnectFlags::USERNAME) {
-        Some(buffer.get_string().await?)
+        let user_name = buffer.get_string().await?;
+        remaining_length = take_length(remaining_length, user_name.len() as u64 + 2)?;
+        Some(user_name)
     } else {
         None
     };
 
     let password = if connect_flags.contains(ConnectFlags::PASSWORD) {
         // todo: allow non-utf8 bytes?
-        Some(buffer.get_string().await?)
+        let password = buffer.get_string().await?;
+        remaining_length = take_length(remaining_length, password.len() as u64 + 2)?;
+        Some(password)
     } else {
         None
     };
 
+    validate_remaining_length(remaining_length, 0)?;
+
     let connect_packet = ConnectPacket::new(
         ProtocolVersion::Mqtt3,
         client_id,
         keep_alive_seconds,
         clean_session,
-        None,
+        will_message,
         user_name,
         password,
     );
-- 
2.43.0


From e560421ff5fa691670815169c967c5d2eced9162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:11 +0000
Subject: [PATCH 08/24] fix: refuse CONNECT with reserved or inconsistent
 connect flags

---
 src/mqtt/transport/packet_decoder.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/mqtt/transport/packet_decoder.rs b/src/mqtt/transport/packet_decoder.rs
index 985716a..df4dfea 100644
--- a/src/mqtt/transport/packet_decoder.rs
+++ b/src/mqtt/transport/packet_decoder.rs
@@ -135,6 +135,17 @@ async fn decode_connect(
     let connect_flags_byte = buffer.get_u8().await?;
     let connect_flags = ConnectFlags::from_bits_truncate(connect_flags_byte);
 
+    let will = connect_flags.contains(ConnectFlags::WILL);
+    let will_options = ConnectFlags::WILL_QOS | ConnectFlags::WILL_RETAIN;
+    let user_name = connect_flags.contains(ConnectFlags::USERNAME);
+    let password = connect_flags.contains(ConnectFlags::PASSWORD);
+    if connect_flags.contains(ConnectFlags::RESERVED)
+        || (!will && connect_flags.intersects(will_options))
+        || (password && !user_name)
+    {
+        return Err(malformed("Malformed connect flags"));
+    }
+
     let clean_session = connect_flags.contains(ConnectFlags::CLEAN_SESSION);
 
     let keep_alive_seconds = buffer.get_u16().await?;
-- 
2.43.0


From 0ba48f4e14d9cfa3b6d721881c17234141634345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:11 +0000
Subject: [PATCH 09/24] fix: do not spin forever when the read buffer has no
 capacity left

---
 src/mqtt/transport/mqtt_bytes_stream.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mqtt/transport/mqtt_bytes_stream.rs b/src/mqtt/transport/mqtt_bytes_stream.rs
index df07b2b..2ac6ec7 100644
--- a/src/mqtt/transport/mqtt_bytes_stream.rs
+++ b/src/mqtt/transport/mqtt_bytes_stream.rs
@@ -76,7 +76,8 @@ impl MqttBytesStream {
             // todo: use clamp when stabilized
             let wait_for_bytes = {
                 if remaining_length > self.read_buffer.capacity() {
-                    self.read_buffer.capacity()
+                    // a fully consumed buffer may have no capacity left
+                    self.read_buffer.capacity().max(1)
                 } else {
                     remaining_length
                 }
@@ -224,7 +225,8 @@ impl MqttBytesReadStream {
             // todo: use clamp when stabilized
             let wait_for_bytes = {
                 if remaining_length > self.read_buffer.capacity() {
-                    self.read_buffer.capacity()
+                    // a fully consumed buffer may have no capacity left
+                    self.read_buffer.capacity().max(1)
                 } else {
                     remaining_length
                 }
-- 
2.43.0


From 65d1963bfab4a5ead1eac160722095e0d55de9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:11 +0000
Subject: [PATCH 10/24] fix: hand the whole packet to the socket when finishing
 it

---
 src/mqtt/transport/mqtt_bytes_stream.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mqtt/transport/mqtt_bytes_stream.rs b/src/mqtt/transport/mqtt_bytes_stream.rs
index 2ac6ec7..f350ef6 100644
--- a/src/mqtt/transport/mqtt_bytes_stream.rs
+++ b/src/mqtt/transport/mqtt_bytes_stream.rs
@@ -162,7 +162,7 @@ impl MqttBytesStream {
     }
 
     pub async fn finish_packet(&mut self) -> Result<(), Error> {
-        self.tcp_stream.write_buf(&mut self.write_buffer).await?;
+        self.tcp_stream.write_all_buf(&mut self.write_buffer).await?;
         // self.tcp_stream.flush().await?;
         Ok(())
     }
@@ -318,7 +318,7 @@ impl MqttBytesWriteStream {
     }
 
     pub async fn finish_packet(&mut self) -> Result<(), Error> {
-        self.write_stream.write_buf(&mut self.write_buffer).await?;
+        self.write_stream.write_all_buf(&mut self.write_buffer).await?;
         // self.tcp_stream.flush().await?;
         Ok(())
     }
-- 
2.43.0


From a2a1ea7ce471e1e6cdc18c795127ddd8f92a17b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:11 +0000
Subject: [PATCH 11/24] fix: do not spin forever when the write buffer has no
 capacity left

---
 src/mqtt/transport/mqtt_bytes_stream.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mqtt/transport/mqtt_bytes_stream.rs b/src/mqtt/transport/mqtt_bytes_stream.rs
index f350ef6..02a4069 100644
--- a/src/mqtt/transport/mqtt_bytes_stream.rs
+++ b/src/mqtt/transport/mqtt_bytes_stream.rs
@@ -146,7 +146,7 @@ impl MqttBytesStream {
         while remaining_size > 0 {
             let bytes_to_write = {
                 if remaining_size > self.write_buffer.capacity() {
-                    self.write_buffer.capacity()
+                    self.write_buffer.capacity().max(1)
                 } else {
                     remaining_size
                 }
@@ -302,7 +302,7 @@ impl MqttBytesWriteStream {
         while remaining_size > 0 {
             let bytes_to_write = {
                 if remaining_size > self.write_buffer.capacity() {
-                    self.write_buffer.capacity()
+                    self.write_buffer.capacity().max(1)
                 } else {
                     remaining_size
                 }
-- 
2.43.0


From 76ca054979bc8f4b4f7f25c4a972f5b122b9009c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:11 +0000
Subject: [PATCH 12/24] fix: do not deliver twice after a repeated subscription

---
 src/broker/messaging/subscriptions_repository.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/broker/messaging/subscriptions_repository.rs b/src/broker/messaging/subscriptions_repository.rs
index db6e7c5..ba893c5 100644
--- a/src/broker/messaging/subscriptions_repository.rs
+++ b/src/broker/messaging/subscriptions_repository.rs
@@ -34,7 +34,9 @@ impl SubscriptionsRepository {
                 .entry(segment.to_string())
                 .or_insert(SubscriptionNode::new());
         }
-        node.clients.push(client_id.clone());
+        if !node.clients.contains(client_id) {
+            node.clients.push(client_id.clone());
+        }
         // println!("Nodes: {:?}", &self.root);
 
         SubAckReturnCode::SuccessQoS0
-- 
2.43.0


From 310930358ae84859634a6d0687fb7c701c505c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:35 +0000
Subject: [PATCH 13/24] fix: do not panic on a CONNECT with a user name but no
 password

---
 src/broker/client_packet_handler.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/broker/client_packet_handler.rs b/src/broker/client_packet_handler.rs
index bdbf76f..0ff5c8f 100644
--- a/src/broker/client_packet_handler.rs
+++ b/src/broker/client_packet_handler.rs
@@ -120,7 +120,7 @@ impl ClientPacketHandler {
         debug!("New client {:?} connected", &client_id);
 
         if let Some(user_name) = packet.user_name {
-            let password = packet.password.unwrap();
+            let password = packet.password.unwrap_or_default();
             if let Err(e) = self.identity_provider.authenticate(&user_name, &password) {
                 info!("Client {} authentication error: {:?}", &user_name, &e);
 
-- 
2.43.0


From 91cd7ebf36dcc1e4895e5578d5aa8195228c00b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:37 +0000
Subject: [PATCH 14/24] fix: keep serving when a client's connection is already
 closed

---
 src/broker/client_packet_handler.rs       | 16 ++++++++--------
 src/broker/messaging/messaging_service.rs |  2 +-
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/broker/client_packet_handler.rs b/src/broker/client_packet_handler.rs
index 0ff5c8f..20d9ce4 100644
--- a/src/broker/client_packet_handler.rs
+++ b/src/broker/client_packet_handler.rs
@@ -128,8 +128,8 @@ impl ClientPacketHandler {
                 sender
                     .send(ServerEvent::ControlPacket(ConnAck(conn_ack)))
                     .await
-                    .unwrap();
-                sender.send(ServerEvent::Disconnect).await.unwrap();
+                    .ok(); // the client may be gone already
+                sender.send(ServerEvent::Disconnect).await.ok();
                 return;
             }
         };
@@ -166,7 +166,7 @@ impl ClientPacketHandler {
         sender
             .send(ServerEvent::ControlPacket(ConnAck(conn_ack)))
             .await
-            .unwrap();
+            .ok(); // the client may be gone already
 
         // debug!(
         //     "Active sessions count: {:?}",
@@ -223,7 +223,7 @@ impl ClientPacketHandler {
 
         for sender in senders_to_publish {
             let event = ServerEvent::ControlPacket(Publish(publish.clone()));
-            sender.send(event).await.unwrap();
+            sender.send(event).await.ok();
         }
     }
 
@@ -253,7 +253,7 @@ impl ClientPacketHandler {
         sender
             .send(ServerEvent::ControlPacket(SubAck(sub_ack)))
             .await
-            .unwrap();
+            .ok(); // the client may be gone already
     }
 
     async fn on_unsubscribe(
@@ -274,7 +274,7 @@ impl ClientPacketHandler {
         sender
             .send(ServerEvent::ControlPacket(UnsubAck(unsub_ack)))
             .await
-            .unwrap();
+            .ok(); // the client may be gone already
     }
 
     async fn on_ping_req(&mut self, sender: Sender<ServerEvent>, client_id: &ClientId) {
@@ -306,13 +306,13 @@ impl ClientPacketHandler {
             sender
                 .send(ServerEvent::ControlPacket(PingResp))
                 .await
-                .unwrap();
+                .ok(); // the client may be gone already
         } else {
             error!(
                 "Received PING from not existing session with client id {}",
                 client_id
             );
-            sender.send(ServerEvent::Disconnect).await.unwrap();
+            sender.send(ServerEvent::Disconnect).await.ok();
         }
     }
 }
diff --git a/src/broker/messaging/messaging_service.rs b/src/broker/messaging/messaging_service.rs
index fc84a90..e151a79 100644
--- a/src/broker/messaging/messaging_service.rs
+++ b/src/broker/messaging/messaging_service.rs
@@ -201,7 +201,7 @@ impl MessagingService {
                 match self.sessions.get(c) {
                     Some(session) => {
                         let event = ServerEvent::ControlPacket(Publish(publish.clone()));
-                        session.sender().send(event).await.unwrap();
+                        session.sender().send(event).await.ok();
                     }
                     None => {
                         warn!(
-- 
2.43.0


From e9332471f97d4d366c6eccc8516b968c20ff4c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:39 +0000
Subject: [PATCH 15/24] fix: deliver messages of a Publish messaging request

---
 src/broker/messaging/messaging_service.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/broker/messaging/messaging_service.rs b/src/broker/messaging/messaging_service.rs
index e151a79..128301a 100644
--- a/src/broker/messaging/messaging_service.rs
+++ b/src/broker/messaging/messaging_service.rs
@@ -123,7 +123,7 @@ impl MessagingService {
                     let _ = resp.send(());
                 }
                 MessagingOperation::Publish { message, publish, resp } => {
-                    self.publish(&message, &publish);
+                    self.publish(&message, &publish).await;
                     let _ = resp.send(());
                 }
 
-- 
2.43.0


From 4ab7eefb212b730aab104df3b01ff8ff0f8b6752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:41 +0000
Subject: [PATCH 16/24] fix: deliver messages at the granted QoS 0

---
 src/broker/client_packet_handler.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/broker/client_packet_handler.rs b/src/broker/client_packet_handler.rs
index 20d9ce4..b2e7b4e 100644
--- a/src/broker/client_packet_handler.rs
+++ b/src/broker/client_packet_handler.rs
@@ -221,6 +221,11 @@ impl ClientPacketHandler {
         self.messaging_tx.send(op).await.unwrap();
         let senders_to_publish = rx.await.unwrap();
 
+        // subscriptions are granted QoS 0, retain marks only messages sent on subscribing
+        let message = publish.message;
+        let publish =
+            PublishPacket::new(message.topic, message.payload, QoS::AtMostOnce, false, None, false);
+
         for sender in senders_to_publish {
             let event = ServerEvent::ControlPacket(Publish(publish.clone()));
             sender.send(event).await.ok();
-- 
2.43.0


From 1e8e18ab90fe1088a31c11b50a881b9871670392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:43 +0000
Subject: [PATCH 17/24] fix: ignore packets from connections that do not hold
 the session

---
 src/broker/client_packet_handler.rs       | 20 +++++++++++++++++++-
 src/broker/messaging/messaging_service.rs | 17 +++++++++++++++++
 2 files changed, 36 insertions(+), 1 deletion(-)

diff --git a/src/broker/client_packet_handler.rs b/src/broker/client_packet_handler.rs
index b2e7b4e..92c8a84 100644
--- a/src/broker/client_packet_handler.rs
+++ b/src/broker/client_packet_handler.rs
@@ -1,7 +1,7 @@
 use std::net::SocketAddr;
 
 use chrono::Utc;
-use log::{debug, error, info, trace};
+use log::{debug, error, info, trace, warn};
 use tokio::select;
 use tokio::sync::mpsc::{Receiver, Sender};
 use tokio::sync::{broadcast, mpsc, oneshot};
@@ -89,6 +89,12 @@ impl ClientPacketHandler {
     ) {
         trace!("Got packet {:?}", packet);
 
+        if !self.owns_session(&client_id, &tx).await {
+            warn!("Client {:?} sent a packet without having a session", &client_id);
+            tx.send(ServerEvent::Disconnect).await.ok();
+            return;
+        }
+
         match packet {
             // ControlPacket::Connect(c) => {
             //     self.on_connect(action.response, c, &mut sessions).await
@@ -110,6 +116,18 @@ impl ClientPacketHandler {
         };
     }
 
+    async fn owns_session(&self, client_id: &ClientId, sender: &Sender<ServerEvent>) -> bool {
+        let (tx, rx) = oneshot::channel();
+        let op = MessagingOperation::SessionOwned {
+            client_id: client_id.clone(),
+            sender: sender.clone(),
+            resp: tx,
+        };
+
+        self.messaging_tx.send(op).await.unwrap();
+        rx.await.unwrap()
+    }
+
     async fn on_connect(
         &mut self,
         sender: Sender<ServerEvent>,
diff --git a/src/broker/messaging/messaging_service.rs b/src/broker/messaging/messaging_service.rs
index 128301a..2acae42 100644
--- a/src/broker/messaging/messaging_service.rs
+++ b/src/broker/messaging/messaging_service.rs
@@ -35,6 +35,11 @@ pub enum MessagingOperation {
     SessionGetExpiredKeepAlive {
         resp: Responder<Vec<Session>>,
     },
+    SessionOwned {
+        client_id: ClientId,
+        sender: mpsc::Sender<ServerEvent>,
+        resp: Responder<bool>,
+    },
     SessionCount {
         resp: Responder<usize>,
     },
@@ -102,6 +107,10 @@ impl MessagingService {
                     // let result = self.session_get_keep_alive_expired();
                     let _ = resp.send(Vec::new());
                 }
+                MessagingOperation::SessionOwned { client_id, sender, resp } => {
+                    let result = self.session_owned(&client_id, &sender);
+                    let _ = resp.send(result);
+                }
                 MessagingOperation::SessionCount { resp } => {
                     let result = self.session_count();
                     let _ = resp.send(result);
@@ -167,6 +176,14 @@ impl MessagingService {
             .collect()
     }
 
+    /// Whether the session of the client belongs to the connection behind the sender
+    pub fn session_owned(&self, client_id: &ClientId, sender: &mpsc::Sender<ServerEvent>) -> bool {
+        match self.sessions.get(client_id) {
+            Some(session) => session.sender().same_channel(sender),
+            None => false,
+        }
+    }
+
     pub fn session_count(&self) -> usize {
         self.sessions.count()
     }
-- 
2.43.0


From aecb5700c6dfef31799f6a54531f9edf29a22350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:45 +0000
Subject: [PATCH 18/24] fix: remove session and subscriptions when a connection
 is lost

---
 src/broker/client_packet_handler.rs | 10 +++++++---
 src/mqtt/events.rs                  |  2 +-
 src/mqtt/listener.rs                |  4 ++++
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/broker/client_packet_handler.rs b/src/broker/client_packet_handler.rs
index 92c8a84..02450dc 100644
--- a/src/broker/client_packet_handler.rs
+++ b/src/broker/client_packet_handler.rs
@@ -69,8 +69,8 @@ impl ClientPacketHandler {
                                 self.on_packet(client_id, packet, tx).await;
                             }
                             ClientEvent::Disconnected(_client_id) => {}
-                            ClientEvent::ConnectionLost(client_id) => {
-                                self.on_connection_lost(client_id).await;
+                            ClientEvent::ConnectionLost(client_id, tx) => {
+                                self.on_connection_lost(client_id, tx).await;
                             }
                         }
                     }
@@ -207,7 +207,11 @@ impl ClientPacketHandler {
         // );
     }
 
-    async fn on_connection_lost(&mut self, client_id: ClientId) {
+    async fn on_connection_lost(&mut self, client_id: ClientId, sender: Sender<ServerEvent>) {
+        if !self.owns_session(&client_id, &sender).await {
+            return; // disconnected, rejected or replaced by a newer connection
+        }
+
         info!("Client {:?} disconnected unexpectedly", &client_id);
 
         let (tx, rx) = oneshot::channel();
diff --git a/src/mqtt/events.rs b/src/mqtt/events.rs
index 4ac7c3a..6ec9dca 100644
--- a/src/mqtt/events.rs
+++ b/src/mqtt/events.rs
@@ -7,7 +7,7 @@ pub enum ClientEvent {
     Connected(ConnectPacket, SocketAddr, Sender<ServerEvent>),
     ControlPacket(ClientId, ControlPacket, Sender<ServerEvent>),
     Disconnected(ClientId),
-    ConnectionLost(ClientId),
+    ConnectionLost(ClientId, Sender<ServerEvent>),
 }
 
 #[derive(Debug)]
diff --git a/src/mqtt/listener.rs b/src/mqtt/listener.rs
index 06a6ee4..3f6d857 100644
--- a/src/mqtt/listener.rs
+++ b/src/mqtt/listener.rs
@@ -127,6 +127,10 @@ impl MqttListener {
                 error!("Error while sending client event to be processed: {}", &e);
             }
         }
+        let event = ClientEvent::ConnectionLost(client_id, server_event_tx);
+        if let Err(e) = client_event_tx.send(event).await {
+            error!("Error while sending client event to be processed: {}", &e);
+        }
         trace!("Client read task ended");
     }
 
-- 
2.43.0


From b32bbe956284c86fe97cb5720d0054f6e1f96109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:47 +0000
Subject: [PATCH 19/24] fix: start a new session cleanly and close the
 connection it replaces

---
 src/broker/client_packet_handler.rs       | 5 ++++-
 src/broker/messaging/messaging_service.rs | 9 +++++----
 src/broker/session/session_repository.rs  | 6 +++---
 src/broker/session/session_service.rs     | 2 +-
 4 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/broker/client_packet_handler.rs b/src/broker/client_packet_handler.rs
index 02450dc..3bb6884 100644
--- a/src/broker/client_packet_handler.rs
+++ b/src/broker/client_packet_handler.rs
@@ -174,7 +174,10 @@ impl ClientPacketHandler {
                 let (insert_tx, insert_rx) = oneshot::channel();
                 let op = MessagingOperation::SessionInsert { session, resp: insert_tx };
                 self.messaging_tx.send(op).await.unwrap();
-                let insert_result = insert_rx.await.unwrap();
+                if let Some(replaced) = insert_rx.await.unwrap() {
+                    // the same client connected again, MQTT-3.1.4-2
+                    replaced.sender().send(ServerEvent::Disconnect).await.ok();
+                }
                 false
             }
         };
diff --git a/src/broker/messaging/messaging_service.rs b/src/broker/messaging/messaging_service.rs
index 2acae42..9616d49 100644
--- a/src/broker/messaging/messaging_service.rs
+++ b/src/broker/messaging/messaging_service.rs
@@ -26,7 +26,7 @@ pub enum MessagingOperation {
     },
     SessionInsert {
         session: Session,
-        resp: Responder<()>,
+        resp: Responder<Option<Session>>,
     },
     SessionGet {
         client_id: ClientId,
@@ -96,8 +96,8 @@ impl MessagingService {
                     let _ = resp.send(result);
                 }
                 MessagingOperation::SessionInsert { session, resp } => {
-                    self.session_insert(session);
-                    let _ = resp.send(());
+                    let result = self.session_insert(session);
+                    let _ = resp.send(result);
                 }
                 MessagingOperation::SessionGet { client_id, resp } => {
                     // let result = self.session_get(&client_id);
@@ -149,8 +149,9 @@ impl MessagingService {
         self.sessions.exists(client_id)
     }
 
-    pub fn session_insert(&mut self, session: Session) {
+    pub fn session_insert(&mut self, session: Session) -> Option<Session> {
         // trace!()
+        self.subscriptions.connections_lost(session.client_id());
         self.sessions.insert(session)
     }
 
diff --git a/src/broker/session/session_repository.rs b/src/broker/session/session_repository.rs
index 3a1ac5d..cf11039 100644
--- a/src/broker/session/session_repository.rs
+++ b/src/broker/session/session_repository.rs
@@ -4,7 +4,7 @@ use std::collections::hash_map::Iter;
 use std::collections::HashMap;
 
 pub trait SessionRepository {
-    fn insert(&mut self, session: Session);
+    fn insert(&mut self, session: Session) -> Option<Session>;
     fn exists(&self, client_id: &ClientId) -> bool;
     fn get(&self, client_id: &ClientId) -> Option<&Session>;
     fn get_mut(&mut self, client_id: &ClientId) -> Option<&mut Session>;
@@ -25,8 +25,8 @@ impl InMemorySessionRepository {
 }
 
 impl SessionRepository for InMemorySessionRepository {
-    fn insert(&mut self, session: Session) {
-        self.sessions.insert(session.client_id().clone(), session);
+    fn insert(&mut self, session: Session) -> Option<Session> {
+        self.sessions.insert(session.client_id().clone(), session)
     }
 
     fn exists(&self, client_id: &ClientId) -> bool {
diff --git a/src/broker/session/session_service.rs b/src/broker/session/session_service.rs
index 0593cce..1b1a585 100644
--- a/src/broker/session/session_service.rs
+++ b/src/broker/session/session_service.rs
@@ -22,7 +22,7 @@ where
         self.repository.exists(client_id)
     }
 
-    pub fn insert(&mut self, session: Session) {
+    pub fn insert(&mut self, session: Session) -> Option<Session> {
         self.repository.insert(session)
     }
 
-- 
2.43.0


From a1cdbbfa937756884085d207bb8ee8c9f07ad1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:09 +0000
Subject: [PATCH 20/24] fix: match the whole, exact user name when editing the
 password file

---
 ratelmq-passwd/src/main.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ratelmq-passwd/src/main.rs b/ratelmq-passwd/src/main.rs
index f2b1d8f..2a765c9 100644
--- a/ratelmq-passwd/src/main.rs
+++ b/ratelmq-passwd/src/main.rs
@@ -25,9 +25,8 @@ fn main() {
     let password = arguments.value_of(ARGUMENT_NAME_PASSWORD);
     let delete = arguments.is_present(ARGUMENT_NAME_DELETE);
 
-    let regexp_format = format!(r"{}{}", regex::escape(user_name), r":.*\n");
+    let regexp_format = format!(r"^{}{}", regex::escape(user_name), r":.*\n?");
     let regexp = RegexBuilder::new(regexp_format.as_str())
-        .case_insensitive(true)
         .multi_line(true)
         .build()
         .unwrap();
-- 
2.43.0


From 350f4d0bdeb63a76ec5c502d8fbc54764a36cb96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:09 +0000
Subject: [PATCH 21/24] fix: do not append a new user to an unterminated last
 line

---
 ratelmq-passwd/src/main.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ratelmq-passwd/src/main.rs b/ratelmq-passwd/src/main.rs
index 2a765c9..8a95f83 100644
--- a/ratelmq-passwd/src/main.rs
+++ b/ratelmq-passwd/src/main.rs
@@ -46,7 +46,11 @@ fn main() {
                 .into_owned(),
         )
     } else if !delete {
-        Some(credentials + build_entry(user_name, password).as_str())
+        let separator = match credentials.is_empty() || credentials.ends_with('\n') {
+            true => "",
+            false => "\n",
+        };
+        Some(credentials + separator + build_entry(user_name, password).as_str())
     } else {
         None
     };
-- 
2.43.0


From 5064c2c4e583df8e44c17238bc1a63f595dbe964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:38 +0000
Subject: [PATCH 22/24] fix: accept the list of listeners from the environment

---
 src/settings/mod.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/settings/mod.rs b/src/settings/mod.rs
index fac0357..81c5458 100644
--- a/src/settings/mod.rs
+++ b/src/settings/mod.rs
@@ -1,8 +1,9 @@
 use config::{Config, ConfigError, Environment, File, FileFormat};
-use serde::Deserialize;
+use serde::{Deserialize, Deserializer};
 
 #[derive(Debug, Deserialize)]
 pub struct MqttSettings {
+    #[serde(deserialize_with = "list_or_comma_separated")]
     pub listeners_tcp: Vec<String>,
 }
 
@@ -17,6 +18,24 @@ pub struct Settings {
     pub authentication: AuthenticationSettings,
 }
 
+/// An environment variable can hold a list only as a text, separated by commas
+fn list_or_comma_separated<'de, D>(deserializer: D) -> Result<Vec<String>, D::Error>
+where
+    D: Deserializer<'de>,
+{
+    #[derive(Deserialize)]
+    #[serde(untagged)]
+    enum ListOrText {
+        List(Vec<String>),
+        Text(String),
+    }
+
+    Ok(match ListOrText::deserialize(deserializer)? {
+        ListOrText::List(list) => list,
+        ListOrText::Text(text) => text.split(',').map(|s| s.trim().to_string()).collect(),
+    })
+}
+
 impl Settings {
     pub fn new(config_filename: &str) -> Result<Self, ConfigError> {
         let mut config = Config::new();
-- 
2.43.0


From ad424529b4bb05d6f5b95be33343c1449564d8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:37 +0000
Subject: [PATCH 23/24] fix: a very deep topic filter no longer overflows the
 stack when its client ends

---
 src/broker/messaging/subscriptions_repository.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/broker/messaging/subscriptions_repository.rs b/src/broker/messaging/subscriptions_repository.rs
index ba893c5..99abdbd 100644
--- a/src/broker/messaging/subscriptions_repository.rs
+++ b/src/broker/messaging/subscriptions_repository.rs
@@ -114,14 +114,16 @@ impl SubscriptionsRepository {
     }
 
     fn remove_client(node: &mut SubscriptionNode, client_id: &ClientId) {
-        node.clients
-            .iter()
-            .position(|c| c == client_id)
-            .map(|p| node.clients.remove(p));
+        // not recursive: a single topic filter can be tens of thousands of levels deep
+        let mut nodes = vec![node];
+        while let Some(node) = nodes.pop() {
+            node.clients
+                .iter()
+                .position(|c| c == client_id)
+                .map(|p| node.clients.remove(p));
 
-        node.children
-            .iter_mut()
-            .for_each(|c| Self::remove_client(c.1, client_id));
+            nodes.extend(node.children.values_mut());
+        }
     }
 }
 
-- 
2.43.0


From 53d313878c959cb92faf04aa6303b8f6aeb4d512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:18 +0000
Subject: [PATCH 24/24] fix: a very deep tree of subscriptions no longer
 overflows the stack when dropped

---
 src/broker/messaging/subscriptions_repository.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/broker/messaging/subscriptions_repository.rs b/src/broker/messaging/subscriptions_repository.rs
index 99abdbd..b935bd8 100644
--- a/src/broker/messaging/subscriptions_repository.rs
+++ b/src/broker/messaging/subscriptions_repository.rs
@@ -142,6 +142,16 @@ impl SubscriptionNode {
     }
 }
 
+impl Drop for SubscriptionNode {
+    fn drop(&mut self) {
+        // not recursive: a single topic filter can be tens of thousands of levels deep
+        let mut nodes: Vec<SubscriptionNode> = self.children.drain().map(|c| c.1).collect();
+        while let Some(mut node) = nodes.pop() {
+            nodes.extend(node.children.drain().map(|c| c.1));
+        }
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use crate::mqtt::packets::QoS;
-- 
2.43.0

