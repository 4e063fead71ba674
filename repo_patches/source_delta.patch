From 37f097359bc54c59a59598428377e40ecddfc47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:28 +0000
Subject: [PATCH 01/31] fix: reject variable byte integers that are not
 minimally encoded

A decoded packet's frame_len() is computed from the values, so a remaining
length or property length written with superfluous bytes (0x80 0x00) made
it differ from the bytes the frame occupied and desynchronised the stream.
---
 packet/src/data.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/packet/src/data.rs b/packet/src/data.rs
index d6ecbcc..1077d06 100644
--- a/packet/src/data.rs
+++ b/packet/src/data.rs
@@ -250,6 +250,11 @@ impl MqttDeserialize for MqttVariableBytesInt {
             }
             multiplier += 7;
             if encoded_byte & 0x80 == 0 {
+                // [MQTT-1.5.5-1] the encoded value must use the minimum number of bytes, which a
+                // trailing zero byte does not. Every size computed from the value relies on this.
+                if encoded_byte == 0 && multiplier > 7 {
+                    return Err(DataParseError::BadMqttVariableBytesInt);
+                }
                 break;
             }
         }
-- 
2.43.0


From 502f1add30c6c342868bf5a1cf10f66a59d3e414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:15 +0000
Subject: [PATCH 02/31] fix: reject an overlong variable byte integer without
 waiting for a fifth byte

Four bytes that all announce a successor can not become a valid remaining
length, but the decoder asked for more data instead of rejecting them.
---
 packet/src/data.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/packet/src/data.rs b/packet/src/data.rs
index 1077d06..9c6b2d9 100644
--- a/packet/src/data.rs
+++ b/packet/src/data.rs
@@ -236,6 +236,9 @@ impl MqttDeserialize for MqttVariableBytesInt {
         let mut value = 0;
         let mut remaining = buf.remaining();
         loop {
+            if multiplier > 21 {
+                return Err(DataParseError::BadMqttVariableBytesInt);
+            }
             if remaining == 0 {
                 return Err(DataParseError::InsufficientBuffer {
                     needed: 1,
@@ -245,9 +248,6 @@ impl MqttDeserialize for MqttVariableBytesInt {
             remaining -= 1;
             let encoded_byte = buf.get_u8() as u32;
             value += (encoded_byte & 127) << multiplier;
-            if multiplier > 21 {
-                return Err(DataParseError::BadMqttVariableBytesInt);
-            }
             multiplier += 7;
             if encoded_byte & 0x80 == 0 {
                 // [MQTT-1.5.5-1] the encoded value must use the minimum number of bytes, which a
-- 
2.43.0


From 992335de7351c6313bbefa9051dd90bd3007adcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:28 +0000
Subject: [PATCH 03/31] fix: decode every packet within the frame its remaining
 length declares

A field running past the end of its frame was reported as InsufficientBuffer
even though the whole frame was there, so a receiver waited for ever for
data (or read the field out of the next packet); and PUBACK, PUBREC, PUBREL,
PUBCOMP, DISCONNECT and AUTH silently dropped bytes left over in the frame.
---
 packet/src/packet.rs      | 34 +++++++++++++++++++++++++++++-----
 packet/src/packet_type.rs | 20 ++++++++++++++++++++
 2 files changed, 49 insertions(+), 5 deletions(-)

diff --git a/packet/src/packet.rs b/packet/src/packet.rs
index f17cb04..6175857 100644
--- a/packet/src/packet.rs
+++ b/packet/src/packet.rs
@@ -1,10 +1,11 @@
 use super::{
-    auth::Auth, connack::ConnAck, connect::Connect, data::MqttOneBytesInt, disconnect::Disconnect,
-    error::DataParseError, helpers::bits_u8, packet_type::PacketType, parsable::*, ping::Ping,
-    puback::PubAck, pubcomp::PubComp, publish::Publish, pubrec::PubRec, pubrel::PubRel,
-    suback::SubAck, subscribe::Subscribe, unsuback::UnsubAck, unsubscribe::Unsubscribe,
+    auth::Auth, connack::ConnAck, connect::Connect, data::MqttOneBytesInt,
+    data::MqttVariableBytesInt, disconnect::Disconnect, error::DataParseError, helpers::bits_u8,
+    packet_type::PacketType, parsable::*, ping::Ping, puback::PubAck, pubcomp::PubComp,
+    publish::Publish, pubrec::PubRec, pubrel::PubRel, suback::SubAck, subscribe::Subscribe,
+    unsuback::UnsubAck, unsubscribe::Unsubscribe,
 };
-use bytes::{Buf, BufMut};
+use bytes::{Buf, BufMut, BytesMut};
 
 #[derive(Clone)]
 pub enum Packet {
@@ -170,6 +171,29 @@ impl MqttDeserialize for Packet {
         }
         let byte1 = buf.get_u8();
         let packet_type = PacketType::parse(byte1)?;
+        // The remaining length delimits the packet: what lies beyond it is not this packet's, and
+        // once that many bytes are there a packet can not be in want of more.
+        let length = MqttVariableBytesInt::deserialize(buf)?;
+        let size = length.inner() as usize;
+        let complete = buf.remaining() >= size;
+        let malformed = packet_type.malformed();
+        let mut header = BytesMut::with_capacity(length.size());
+        length.serialize(&mut header);
+        let mut frame = header.chain(buf.take(size));
+        let packet = Packet::deserialize_body(packet_type, byte1, &mut frame);
+        match packet {
+            Err(DataParseError::InsufficientBuffer { .. }) if complete => Err(malformed),
+            Ok(_) if frame.has_remaining() => Err(malformed),
+            packet => packet,
+        }
+    }
+}
+impl Packet {
+    fn deserialize_body<T: Buf>(
+        packet_type: PacketType,
+        byte1: u8,
+        buf: &mut T,
+    ) -> Result<Self, DataParseError> {
         match packet_type {
             PacketType::Reserved => Err(DataParseError::BadPacketType),
             PacketType::Connect => Ok(Packet::Connect(Connect::deserialize(buf)?)),
diff --git a/packet/src/packet_type.rs b/packet/src/packet_type.rs
index c438bcd..d2213c2 100644
--- a/packet/src/packet_type.rs
+++ b/packet/src/packet_type.rs
@@ -70,6 +70,26 @@ impl PacketType {
         packet_type.check_flags(data)?;
         Ok(packet_type)
     }
+    /// The error for a packet of this type whose body does not fit its remaining length.
+    pub(super) fn malformed(&self) -> DataParseError {
+        match self {
+            PacketType::Reserved => DataParseError::BadPacketType,
+            PacketType::Connect => DataParseError::BadConnectMessage,
+            PacketType::ConnAck => DataParseError::BadConnAckMessage,
+            PacketType::Publish => DataParseError::BadPublishMessage,
+            PacketType::PubAck => DataParseError::BadPubAckMessage,
+            PacketType::PubRec => DataParseError::BadPubRecMessage,
+            PacketType::PubRel => DataParseError::BadPubRelMessage,
+            PacketType::PubComp => DataParseError::BadPubCompMessage,
+            PacketType::Subscribe => DataParseError::BadSubscribeMessage,
+            PacketType::SubAck => DataParseError::BadSubAckMessage,
+            PacketType::Unsubscribe => DataParseError::BadUnsubscribeMessage,
+            PacketType::UnsubAck => DataParseError::BadUnsubAckMessage,
+            PacketType::PingReq | PacketType::PingRes => DataParseError::BadPing,
+            PacketType::Disconnect => DataParseError::BadDisconnectMessage,
+            PacketType::Auth => DataParseError::BadAuthMessage,
+        }
+    }
     pub(super) fn fixed_flags(&self) -> u8 {
         match self {
             PacketType::PubRel => 0b0010,
-- 
2.43.0


From 4ffd773f4321135b4e5a0e6ffc4fae1795afeaea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:02 +0000
Subject: [PATCH 04/31] fix: read boolean properties with into_bool

The accessor only matched byte properties, so the value of a property that
is a boolean (RequestProblemInformation, ...) could not be read at all.
---
 packet/src/props.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/packet/src/props.rs b/packet/src/props.rs
index 0c5ba87..338a288 100644
--- a/packet/src/props.rs
+++ b/packet/src/props.rs
@@ -400,10 +400,9 @@ enum MqttPropValueInner {
 pub struct MqttPropValue(MqttPropValueInner);
 impl MqttPropValue {
     pub fn into_bool(&self) -> Option<bool> {
-        if let MqttPropValueInner::Byte(i) = &self.0 {
-            Some(i.inner() == 1)
-        } else {
-            None
+        match &self.0 {
+            MqttPropValueInner::Bool(i) | MqttPropValueInner::Byte(i) => Some(i.inner() == 1),
+            _ => None,
         }
     }
     pub fn into_u8(&self) -> Option<u8> {
-- 
2.43.0


From 19f436ce77dfac23d5d5bb05771880c0f255a054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:02 +0000
Subject: [PATCH 05/31] fix: reject boolean properties that are neither 0 nor 1

The specification makes any other value a protocol error; it was accepted,
read back as false and forwarded unchanged.
---
 packet/src/props.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/packet/src/props.rs b/packet/src/props.rs
index 338a288..4afd25b 100644
--- a/packet/src/props.rs
+++ b/packet/src/props.rs
@@ -498,7 +498,13 @@ impl MqttPropValue {
     }
     fn deserialize<T: Buf>(buf: &mut T, ty: MqttPropValueType) -> Result<Self, DataParseError> {
         let res = match ty {
-            MqttPropValueType::Bool => MqttPropValueInner::Bool(MqttOneBytesInt::deserialize(buf)?),
+            MqttPropValueType::Bool => {
+                let b = MqttOneBytesInt::deserialize(buf)?;
+                if b.inner() > 1 {
+                    return Err(DataParseError::BadProperty);
+                }
+                MqttPropValueInner::Bool(b)
+            }
             MqttPropValueType::Byte => MqttPropValueInner::Byte(MqttOneBytesInt::deserialize(buf)?),
             MqttPropValueType::FourBytesInt => {
                 MqttPropValueInner::FourBytesInt(MqttFourBytesInt::deserialize(buf)?)
-- 
2.43.0


From 19761e65f1585ed44889f4cd8a95f80d929c7403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:20 +0000
Subject: [PATCH 06/31] fix: drop the packet identifier when a publish goes
 back to QoS 0

A QoS 0 PUBLISH has no packet identifier field, but a publish whose QoS was
lowered still wrote one, which its receiver took for properties.
---
 packet/src/publish.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/packet/src/publish.rs b/packet/src/publish.rs
index 81516e6..e21e2c0 100644
--- a/packet/src/publish.rs
+++ b/packet/src/publish.rs
@@ -124,6 +124,10 @@ impl Publish {
     pub fn set_qos(&mut self, qos: QoS) {
         self.flags -= PublishFlags::QOS1 | PublishFlags::QOS2;
         self.flags |= qos.into();
+        if let QoS::QoS0 = qos {
+            // [MQTT-2.2.1-2]
+            self.packet_identifier = None;
+        }
     }
     pub fn qos(&self) -> QoS {
         // why unwrap is justified here,
-- 
2.43.0


From 3bf495e2581fba3e013218e44f3a3816b1af489d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:20 +0000
Subject: [PATCH 07/31] fix: leave a CONNECT unchanged when its username or
 password is refused

The flag was raised before the value was checked, so the packet announced a
field it did not have.
---
 packet/src/connect.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packet/src/connect.rs b/packet/src/connect.rs
index ee5ce91..6da27e0 100644
--- a/packet/src/connect.rs
+++ b/packet/src/connect.rs
@@ -212,16 +212,16 @@ impl Connect {
         self.username.as_ref().map(|s| s.inner())
     }
     pub fn set_username(&mut self, username: Arc<str>) -> Result<(), DataParseError> {
-        self.flags |= ConnectFlags::USERNAME;
         self.username = Some(MqttUtf8String::new(username)?);
+        self.flags |= ConnectFlags::USERNAME;
         Ok(())
     }
     pub fn password(&self) -> Option<&Bytes> {
         self.password.as_ref().map(|p| p.inner())
     }
     pub fn set_password<T: Buf>(&mut self, password: T) -> Result<(), DataParseError> {
-        self.flags |= ConnectFlags::PASSWORD;
         self.password = Some(MqttBinaryData::new(password)?);
+        self.flags |= ConnectFlags::PASSWORD;
         Ok(())
     }
     pub fn keep_alive(&self) -> u16 {
-- 
2.43.0


From d63de93081cd51a17a3afb3d193dc3d09a0056bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:23 +0000
Subject: [PATCH 08/31] fix: read strings that lie across chunks of the buffer

Only the first chunk of a non-contiguous Buf was looked at, which cut the
string short (or found invalid UTF-8 in a character cut in two).
---
 packet/src/data.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/packet/src/data.rs b/packet/src/data.rs
index 9c6b2d9..3aeea48 100644
--- a/packet/src/data.rs
+++ b/packet/src/data.rs
@@ -165,12 +165,10 @@ impl MqttDeserialize for MqttUtf8String {
                 available: buf.remaining(),
             });
         }
-        let b = buf.take(len);
-        let bytes = b.chunk();
-        let s = std::str::from_utf8(bytes).map_err(|_| DataParseError::BadMqttUtf8String)?;
-        let ret = MqttUtf8String::new(Arc::from(s));
-        buf.advance(len);
-        ret
+        // copy_to_bytes, not chunk(): a buffer may hold its bytes in several chunks
+        let bytes = buf.copy_to_bytes(len);
+        let s = std::str::from_utf8(&bytes).map_err(|_| DataParseError::BadMqttUtf8String)?;
+        MqttUtf8String::new(Arc::from(s))
     }
 }
 
-- 
2.43.0


From 513f768f35e6caa266a2ef355fb5581589d2c94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:47 +0000
Subject: [PATCH 09/31] fix: log a user property of CONNECT as the string it is

---
 server-lib/src/clients/clientworker.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server-lib/src/clients/clientworker.rs b/server-lib/src/clients/clientworker.rs
index b517346..b55d91e 100644
--- a/server-lib/src/clients/clientworker.rs
+++ b/server-lib/src/clients/clientworker.rs
@@ -158,7 +158,7 @@ impl ClientWorker {
                 }
                 Property::UserProperty => warn!(
                     "Client is using strange property in connect packet {:?}",
-                    v.into_str_pair().unwrap()
+                    v.into_str()
                 ),
                 Property::AuthenticationMethod => {
                     error!("Client attempted Authentication which is not supported");
-- 
2.43.0


From 7d531802b8212d7cc309d85999196f92e333b16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:51 +0000
Subject: [PATCH 10/31] fix: keep topics starting with $ from filters starting
 with a wildcard

---
 server-lib/src/topics.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/server-lib/src/topics.rs b/server-lib/src/topics.rs
index 3c0f25c..7166e61 100644
--- a/server-lib/src/topics.rs
+++ b/server-lib/src/topics.rs
@@ -169,19 +169,26 @@ impl Block {
         &self,
         subs: &mut HashMap<ClientId, SubscriptionInfo>,
         mut sections: S,
+        // false at the root for topics that start with `$`: these are not
+        // matched by filters that start with a wildcard
+        wildcards: bool,
     ) where
         S: Iterator<Item = &'a str> + Send + Sync + Clone,
     {
         let raii = self.read().await;
-        raii.collect_hash_wildcard(subs).await;
+        if wildcards {
+            raii.collect_hash_wildcard(subs).await;
+        }
         if let Some(section) = sections.next() {
             // somewhere in the middle
             trace!("in collect_subs, section = `{}`", section);
-            if let Some(sub_block) = raii.sub_blocks.get("+") {
-                sub_block.collect_subs(subs, sections.clone()).await;
+            if wildcards {
+                if let Some(sub_block) = raii.sub_blocks.get("+") {
+                    sub_block.collect_subs(subs, sections.clone(), true).await;
+                }
             }
             if let Some(sub_block) = raii.sub_blocks.get(section) {
-                sub_block.collect_subs(subs, sections).await;
+                sub_block.collect_subs(subs, sections, true).await;
             }
         } else {
             // reached the end
@@ -352,7 +359,9 @@ impl TopicsTable {
             "collected_sections {:?}",
             sections.clone().collect::<Vec<_>>()
         );
-        self.root_block.collect_subs(&mut subs, sections).await;
+        self.root_block
+            .collect_subs(&mut subs, sections, !topic.starts_with('$'))
+            .await;
         subs
     }
 }
-- 
2.43.0


From 4f5f03085b491b63d9cd1d3ad98e66d3e86a732d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:55 +0000
Subject: [PATCH 11/31] fix: do not replace a topic level that another task has
 just created

---
 server-lib/src/topics.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/server-lib/src/topics.rs b/server-lib/src/topics.rs
index 7166e61..e2ed6e4 100644
--- a/server-lib/src/topics.rs
+++ b/server-lib/src/topics.rs
@@ -201,11 +201,12 @@ impl Block {
     }
     async fn create_if_not_existing(&self, subtopic: &str) {
         if !self.contains_subtopic(subtopic).await {
-            let block = Block::new();
+            // another task may have created it while we were waiting for the lock
             self.write()
                 .await
                 .sub_blocks
-                .insert(Arc::from(subtopic), block);
+                .entry(Arc::from(subtopic))
+                .or_insert_with(Block::new);
         }
     }
 }
-- 
2.43.0


From 64bc20fd9a88acbba105dd4f482ffe88d3135006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:59 +0000
Subject: [PATCH 12/31] fix: deliver to subscriptions with RETAIN_AS_PUBLISHED
 instead of panicking

---
 server-lib/src/dispatcher.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/server-lib/src/dispatcher.rs b/server-lib/src/dispatcher.rs
index b067667..aff9323 100644
--- a/server-lib/src/dispatcher.rs
+++ b/server-lib/src/dispatcher.rs
@@ -111,9 +111,7 @@ impl Dispatcher {
             if target.as_ref() == client && info.flags.contains(SubscriptionFlags::NO_LOCAL) {
                 continue;
             }
-            if info.flags.contains(SubscriptionFlags::RETAIN_AS_PUBLISHED) {
-                unimplemented!();
-            }
+            // RETAIN_AS_PUBLISHED makes no difference: nothing published with RETAIN gets here
             if let Some(c) = clients.get(&target) {
                 #[cfg(feature = "noise")]
                 if strict_encryption && !c.encrypted() {
-- 
2.43.0


From a5c2447b51017dee20161e684b39c8cba3b94ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:02 +0000
Subject: [PATCH 13/31] fix: do not panic on an unsupported packet of a client
 that is already gone

---
 server-lib/src/dispatcher.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/server-lib/src/dispatcher.rs b/server-lib/src/dispatcher.rs
index aff9323..0ebb901 100644
--- a/server-lib/src/dispatcher.rs
+++ b/server-lib/src/dispatcher.rs
@@ -41,9 +41,11 @@ impl Dispatcher {
     async fn unimplemented(&mut self, client: &str) -> Result<(), ServerError> {
         let disconnect = Disconnect::new(DisconnectReasonCode::ImplementationSpecificError).build();
         let clients = self.clients.read().await;
-        let c = clients.get(client).unwrap();
-        if c.send(disconnect).is_err() {
-            error!(clientid = client, "Internal Error: tx closed");
+        // the client may be gone by now
+        if let Some(c) = clients.get(client) {
+            if c.send(disconnect).is_err() {
+                error!(clientid = client, "Internal Error: tx closed");
+            }
         }
         Err(ServerError::Misc("Unimplemented".to_owned()))
     }
-- 
2.43.0


From 1c4365bc6965716e3d85e3c773196c2fe45319de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:48 +0000
Subject: [PATCH 14/31] fix: end the old connection of a client that connects
 again and keep the new one registered

---
 server-lib/src/clients/client.rs |  6 ++++++
 server-lib/src/clients/mod.rs    | 13 +++++++++++--
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/server-lib/src/clients/client.rs b/server-lib/src/clients/client.rs
index d4fcf3c..8709e2e 100644
--- a/server-lib/src/clients/client.rs
+++ b/server-lib/src/clients/client.rs
@@ -41,6 +41,12 @@ impl Client {
         }
     }
 
+    /// Client identifiers are allocated once per connection, `id` belongs to this
+    /// connection (and not to another one of the same name) if it is the same allocation
+    pub(crate) fn is_session(&self, id: &Arc<str>) -> bool {
+        Arc::ptr_eq(&self.clientid, id)
+    }
+
     pub fn encrypted(&self) -> bool {
         self.encrypted
     }
diff --git a/server-lib/src/clients/mod.rs b/server-lib/src/clients/mod.rs
index cdb5e84..77027de 100644
--- a/server-lib/src/clients/mod.rs
+++ b/server-lib/src/clients/mod.rs
@@ -95,10 +95,15 @@ impl ClientManager {
             }
         };
         let client = worker.internals();
-        self.clients
+        let old = self
+            .clients
             .write()
             .await
             .insert(client.clientid.clone(), client.clone());
+        if let Some(old) = old {
+            info!(clientid = &*client.clientid, "Session taken over");
+            old.killme();
+        }
         self.workers
             .push(tokio::spawn(async move { worker.run().await }));
         true
@@ -111,7 +116,11 @@ impl ClientManager {
                 e
             ),
             Some(Ok(id)) => {
-                self.clients.write().await.remove(&id);
+                let mut clients = self.clients.write().await;
+                // the entry may be the one of a newer connection by now
+                if clients.get(&id).map_or(false, |c| c.is_session(&id)) {
+                    clients.remove(&id);
+                }
             }
             None => (),
         };
-- 
2.43.0


From ac48341fbe69b7e8ef6196088180ecd7ae82a629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:53 +0000
Subject: [PATCH 15/31] fix: do not take a queued packet for one of the
 connection that has taken over its client identifier

---
 server-lib/src/dispatcher.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/server-lib/src/dispatcher.rs b/server-lib/src/dispatcher.rs
index 0ebb901..66da5e2 100644
--- a/server-lib/src/dispatcher.rs
+++ b/server-lib/src/dispatcher.rs
@@ -38,29 +38,34 @@ impl Dispatcher {
             incoming,
         }
     }
-    async fn unimplemented(&mut self, client: &str) -> Result<(), ServerError> {
+    async fn unimplemented(&mut self, client: &Arc<str>) -> Result<(), ServerError> {
         let disconnect = Disconnect::new(DisconnectReasonCode::ImplementationSpecificError).build();
         let clients = self.clients.read().await;
         // the client may be gone by now
-        if let Some(c) = clients.get(client) {
+        if let Some(c) = clients.get(client).filter(|c| c.is_session(client)) {
             if c.send(disconnect).is_err() {
-                error!(clientid = client, "Internal Error: tx closed");
+                error!(clientid = client.as_ref(), "Internal Error: tx closed");
             }
         }
         Err(ServerError::Misc("Unimplemented".to_owned()))
     }
 
     #[instrument(skip_all)]
-    async fn process_publish(&mut self, client: &str, publish: Publish) -> Result<(), ServerError> {
+    async fn process_publish(
+        &mut self,
+        client: &Arc<str>,
+        publish: Publish,
+    ) -> Result<(), ServerError> {
         trace!("Processing a publish packet");
         #[cfg(feature = "noise")]
         let strict_encryption = {
             let clients = self.clients.read().await;
-            match clients.get(client) {
+            // another connection of the same name says nothing about the one this came from
+            match clients.get(client).filter(|c| c.is_session(client)) {
                 Some(c) => c.encrypted() && self.cfg.channel_permeability == Permeability::Strict,
                 None => {
                     warn!(
-                        clientid = client,
+                        clientid = client.as_ref(),
                         "Client Prematurely shutdown before its publish request could be processed"
                     );
                     return Ok(());
@@ -110,7 +115,7 @@ impl Dispatcher {
         let clients = self.clients.read().await;
 
         for (target, info) in self.topics.get_all_subscribed(topic).await {
-            if target.as_ref() == client && info.flags.contains(SubscriptionFlags::NO_LOCAL) {
+            if target == *client && info.flags.contains(SubscriptionFlags::NO_LOCAL) {
                 continue;
             }
             // RETAIN_AS_PUBLISHED makes no difference: nothing published with RETAIN gets here
@@ -187,7 +192,7 @@ impl Dispatcher {
         }
 
         let clients = self.clients.read().await;
-        if let Some(c) = clients.get(client) {
+        if let Some(c) = clients.get(client).filter(|c| c.is_session(client)) {
             if c.send(suback.build()).is_err() {
                 error!(clientid = client.as_ref(), "Internal Error: tx closed");
             }
-- 
2.43.0


From b93b0b949eac5b8f9b5b40f272b821929279dba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:28 +0000
Subject: [PATCH 16/31] fix: end the subscriptions of a client with its
 connection

---
 server-lib/src/clients/mod.rs | 14 +++++++++++---
 server-lib/src/dispatcher.rs  | 14 +++++++++-----
 server-lib/src/lib.rs         | 11 ++++++++---
 3 files changed, 28 insertions(+), 11 deletions(-)

diff --git a/server-lib/src/clients/mod.rs b/server-lib/src/clients/mod.rs
index 77027de..3e71bb9 100644
--- a/server-lib/src/clients/mod.rs
+++ b/server-lib/src/clients/mod.rs
@@ -4,7 +4,9 @@ mod mqttclient;
 #[cfg(feature = "noise")]
 mod noiseclient;
 
-use crate::{config::MqttServerConfig, error::ServerError, packetinfo::PacketInfo};
+use crate::{
+    config::MqttServerConfig, error::ServerError, packetinfo::PacketInfo, topics::TopicsTable,
+};
 pub use client::Client;
 use clientworker::ClientWorker;
 use futures::{stream::FuturesUnordered, StreamExt};
@@ -26,6 +28,7 @@ use tracing::{error, info, instrument, warn};
 pub struct ClientManager {
     rx: UnboundedReceiver<ClientWorker>,
     clients: Arc<RwLock<HashMap<Arc<str>, Client>>>,
+    topics: Arc<TopicsTable>,
     cfg: Arc<MqttServerConfig>,
     shutdown: Arc<Notify>,
     workers: FuturesUnordered<JoinHandle<Arc<str>>>,
@@ -35,12 +38,14 @@ impl ClientManager {
     fn new(
         cfg: Arc<MqttServerConfig>,
         clients: Arc<RwLock<HashMap<Arc<str>, Client>>>,
+        topics: Arc<TopicsTable>,
         shutdown: Arc<Notify>,
         rx: UnboundedReceiver<ClientWorker>,
     ) -> Self {
         ClientManager {
             rx,
             clients,
+            topics,
             cfg,
             shutdown,
             workers: FuturesUnordered::new(),
@@ -50,6 +55,7 @@ impl ClientManager {
     pub async fn start(
         cfg: Arc<MqttServerConfig>,
         clients: Arc<RwLock<HashMap<Arc<str>, Client>>>,
+        topics: Arc<TopicsTable>,
         shutdown: Arc<Notify>,
         incoming: Sender<PacketInfo>,
     ) -> Result<Vec<JoinHandle<()>>, ServerError> {
@@ -81,7 +87,7 @@ impl ClientManager {
             workers.push(handle)
         }
 
-        let man = ClientManager::new(cfg, clients, shutdown, rx);
+        let man = ClientManager::new(cfg, clients, topics, shutdown, rx);
         workers.push(man.start_processing().await);
         Ok(workers)
     }
@@ -103,13 +109,13 @@ impl ClientManager {
         if let Some(old) = old {
             info!(clientid = &*client.clientid, "Session taken over");
             old.killme();
+            self.topics.unsubscribe_all(client.clientid.clone()).await;
         }
         self.workers
             .push(tokio::spawn(async move { worker.run().await }));
         true
     }
     async fn process_retiring_worker(&mut self, maybe_id: Option<Result<Arc<str>, JoinError>>) {
-        //TODO we don't remove the worker information from the topic file system yet
         match maybe_id {
             Some(Err(e)) => error!(
                 "Failed joining one of the threads, possible orphan threads running, {:?}",
@@ -120,6 +126,8 @@ impl ClientManager {
                 // the entry may be the one of a newer connection by now
                 if clients.get(&id).map_or(false, |c| c.is_session(&id)) {
                     clients.remove(&id);
+                    // sessions do not outlive the connection, nobody can resume this one
+                    self.topics.unsubscribe_all(id).await;
                 }
             }
             None => (),
diff --git a/server-lib/src/dispatcher.rs b/server-lib/src/dispatcher.rs
index 66da5e2..dbe8e88 100644
--- a/server-lib/src/dispatcher.rs
+++ b/server-lib/src/dispatcher.rs
@@ -157,6 +157,13 @@ impl Dispatcher {
                 ),
             }
         }
+        // held until the subscriptions are made, so that they are not made after the
+        // connection is gone and its subscriptions have been removed
+        let clients = self.clients.read().await;
+        let c = match clients.get(client).filter(|c| c.is_session(client)) {
+            Some(c) => c,
+            None => return Ok(()),
+        };
         let mut suback = SubAck::new(ident);
         for (topic, options) in sub.topics_iter() {
             let qos: QoS = (*options).try_into()?;
@@ -191,11 +198,8 @@ impl Dispatcher {
             }
         }
 
-        let clients = self.clients.read().await;
-        if let Some(c) = clients.get(client).filter(|c| c.is_session(client)) {
-            if c.send(suback.build()).is_err() {
-                error!(clientid = client.as_ref(), "Internal Error: tx closed");
-            }
+        if c.send(suback.build()).is_err() {
+            error!(clientid = client.as_ref(), "Internal Error: tx closed");
         }
         Ok(())
     }
diff --git a/server-lib/src/lib.rs b/server-lib/src/lib.rs
index ec2711a..665efbd 100644
--- a/server-lib/src/lib.rs
+++ b/server-lib/src/lib.rs
@@ -37,10 +37,15 @@ impl MqttServer {
         let shutdown = Arc::new(Notify::new());
         let cfg = Arc::new(cfg);
         let clients = Arc::new(RwLock::new(HashMap::new()));
-        let mut workers =
-            ClientManager::start(cfg.clone(), clients.clone(), shutdown.clone(), incoming_tx)
-                .await?;
         let topics = Arc::new(TopicsTable::new());
+        let mut workers = ClientManager::start(
+            cfg.clone(),
+            clients.clone(),
+            topics.clone(),
+            shutdown.clone(),
+            incoming_tx,
+        )
+        .await?;
         let dispatcher = Dispatcher::new(
             topics.clone(),
             cfg.clone(),
-- 
2.43.0


From 60c89d33bbc7ceb090e0c08446ec59bad8372de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:31 +0000
Subject: [PATCH 17/31] fix: end the connection of a client that has closed its
 side

---
 server-lib/src/clients/mqttclient.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/server-lib/src/clients/mqttclient.rs b/server-lib/src/clients/mqttclient.rs
index 0795860..caab21c 100644
--- a/server-lib/src/clients/mqttclient.rs
+++ b/server-lib/src/clients/mqttclient.rs
@@ -61,7 +61,9 @@ impl MqttClient {
                     }
                     self.tcp_reader
                         .set_limit(self.max_packet_size as u64 - self.bytes.remaining() as u64);
-                    self.tcp_reader.read_buf(&mut self.bytes).await?;
+                    if self.tcp_reader.read_buf(&mut self.bytes).await? == 0 {
+                        return Err(ServerError::Misc("Client disconnected".to_owned()));
+                    }
                 }
                 Err(e) => return Err(e.into()),
             }
-- 
2.43.0


From 231e59b0e97571231d15f8a46717d6166489ab46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:07 +0000
Subject: [PATCH 18/31] fix: let every task know of a shutdown

---
 server-lib/src/clients/clientworker.rs |  3 ++-
 server-lib/src/clients/mod.rs          |  3 ++-
 server-lib/src/clients/mqttclient.rs   |  9 +++++++--
 server-lib/src/clients/noiseclient.rs  | 15 ++++++++++++---
 server-lib/src/dispatcher.rs           |  3 ++-
 5 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/server-lib/src/clients/clientworker.rs b/server-lib/src/clients/clientworker.rs
index b55d91e..d9bdccd 100644
--- a/server-lib/src/clients/clientworker.rs
+++ b/server-lib/src/clients/clientworker.rs
@@ -85,7 +85,8 @@ impl ClientWorker {
         let killme = self.internals.killme.clone();
         tokio::select! {
             _ = killme.notified() => (),
-            _ = shutdown.notified() => (),
+            // a notification wakes one task only, the next one is to know as well
+            _ = shutdown.notified() => shutdown.notify_one(),
             _ = self.listen_forever() => (),
         }
         self.internals.clientid
diff --git a/server-lib/src/clients/mod.rs b/server-lib/src/clients/mod.rs
index 3e71bb9..e27522a 100644
--- a/server-lib/src/clients/mod.rs
+++ b/server-lib/src/clients/mod.rs
@@ -156,7 +156,8 @@ impl ClientManager {
     async fn run(mut self) {
         let shutdown = self.shutdown.clone();
         tokio::select! {
-            _ = shutdown.notified() => (),
+            // a notification wakes one task only, the next one is to know as well
+            _ = shutdown.notified() => shutdown.notify_one(),
             _ = self.process_forever() => ()
         };
         while self.workers.next().await.is_some() {
diff --git a/server-lib/src/clients/mqttclient.rs b/server-lib/src/clients/mqttclient.rs
index caab21c..548bf2c 100644
--- a/server-lib/src/clients/mqttclient.rs
+++ b/server-lib/src/clients/mqttclient.rs
@@ -125,7 +125,8 @@ impl MqttListener {
     pub async fn run(mut self) {
         let shutdown = self.shutdown.clone();
         tokio::select! {
-            _ = shutdown.notified() => (),
+            // a notification wakes one task only, the next one is to know as well
+            _ = shutdown.notified() => shutdown.notify_one(),
             _ = self.listen_forever() => ()
         };
         info!("shutting down");
@@ -172,7 +173,11 @@ async fn _connect_client(
     let saddr = format!("{}", saddr);
     match state {
         ConnectState::Success => info!(SocketAddr = &*saddr, "MQTT Connection established"),
-        ConnectState::ShuttingDown => info!(SocketAddr = &*saddr, "Shutting down"),
+        ConnectState::ShuttingDown => {
+            info!(SocketAddr = &*saddr, "Shutting down");
+            shutdown.notify_one();
+            return;
+        }
         ConnectState::Err(e) => {
             warn!(
                 SocketAddr = &*saddr,
diff --git a/server-lib/src/clients/noiseclient.rs b/server-lib/src/clients/noiseclient.rs
index 5c74520..100aec5 100644
--- a/server-lib/src/clients/noiseclient.rs
+++ b/server-lib/src/clients/noiseclient.rs
@@ -124,7 +124,8 @@ impl NoiseListener {
     pub async fn run(mut self) {
         let shutdown = self.shutdown.clone();
         tokio::select! {
-            _ = shutdown.notified() => (),
+            // a notification wakes one task only, the next one is to know as well
+            _ = shutdown.notified() => shutdown.notify_one(),
             _ = self.listen_forever() => ()
         };
         info!("shutting down");
@@ -183,7 +184,11 @@ async fn _connect_client(
     let saddr_str = format!("{}", saddr);
     match state {
         ConnectState::Success => info!(SocketAddr = &*saddr_str, "MQTT Connection established"),
-        ConnectState::ShuttingDown => info!(SocketAddr = &*saddr_str, "Shutting down"),
+        ConnectState::ShuttingDown => {
+            info!(SocketAddr = &*saddr_str, "Shutting down");
+            shutdown.notify_one();
+            return;
+        }
         ConnectState::Err(e) => {
             warn!(
                 SocketAddr = &*saddr_str,
@@ -208,7 +213,11 @@ async fn _connect_client(
     };
     match state {
         ConnectState::Success => info!(SocketAddr = &*saddr_str, "MQTT Connection established"),
-        ConnectState::ShuttingDown => info!(SocketAddr = &*saddr_str, "Shutting down"),
+        ConnectState::ShuttingDown => {
+            info!(SocketAddr = &*saddr_str, "Shutting down");
+            shutdown.notify_one();
+            return;
+        }
         ConnectState::Err(e) => {
             warn!(
                 SocketAddr = &*saddr_str,
diff --git a/server-lib/src/dispatcher.rs b/server-lib/src/dispatcher.rs
index dbe8e88..3ec5a63 100644
--- a/server-lib/src/dispatcher.rs
+++ b/server-lib/src/dispatcher.rs
@@ -235,7 +235,8 @@ impl Dispatcher {
     async fn run(self) {
         let shutdown = self.shutdown.clone();
         tokio::select! {
-            _ = shutdown.notified() => (),
+            // a notification wakes one task only, the next one is to know as well
+            _ = shutdown.notified() => shutdown.notify_one(),
             _ = self.process_forever() => (),
         }
     }
-- 
2.43.0


From a2c8b7412c00c137f4fd568885791d2915e74b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:29 +0000
Subject: [PATCH 19/31] fix: do not send packets larger than the client accepts

---
 server-lib/src/clients/clientworker.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/server-lib/src/clients/clientworker.rs b/server-lib/src/clients/clientworker.rs
index d9bdccd..3be1272 100644
--- a/server-lib/src/clients/clientworker.rs
+++ b/server-lib/src/clients/clientworker.rs
@@ -63,6 +63,14 @@ impl ClientWorker {
             }
             p = self.outgoing.recv() => {
                 let packet = p.map(Ok).unwrap_or_else(|| Err(ServerError::Misc("outgoing queue lost all its senders".to_owned())))?;
+                if packet.frame_len() > self.internals.max_packet_size as usize {
+                    // [MQTT-3.1.2-24], [MQTT-3.1.2-25]
+                    warn!(
+                        clientid = &*self.internals.clientid,
+                        "Discarding a packet larger than the client accepts"
+                    );
+                    return Ok(());
+                }
                 self.conn.send(&packet).await?;
             }
         }
-- 
2.43.0


From 5da8175e3a1f4f418cb9f66ef4f65389e2fc6f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:32 +0000
Subject: [PATCH 20/31] fix: let NO_LOCAL of one subscription not withhold what
 another one asks for

---
 server-lib/src/topics.rs | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/server-lib/src/topics.rs b/server-lib/src/topics.rs
index e2ed6e4..1a1b288 100644
--- a/server-lib/src/topics.rs
+++ b/server-lib/src/topics.rs
@@ -26,6 +26,17 @@ impl SubscriptionInfo {
     fn new(qos: QoS, flags: SubscriptionFlags) -> Self {
         SubscriptionInfo { qos, flags }
     }
+
+    /// Both subscriptions of a client match: take the higher QoS, and
+    /// withhold nothing that one of them asks for
+    fn merge(&mut self, other: &SubscriptionInfo) {
+        if self.qos < other.qos {
+            self.qos = other.qos;
+        }
+        if !other.flags.contains(SubscriptionFlags::NO_LOCAL) {
+            self.flags.remove(SubscriptionFlags::NO_LOCAL);
+        }
+    }
 }
 
 /// This Block structure is designed to have minimal concurrency overhead,
@@ -88,11 +99,7 @@ impl BlockInner {
                 Entry::Vacant(e) => {
                     e.insert(info.clone());
                 }
-                Entry::Occupied(mut e) => {
-                    if e.get().qos < info.qos {
-                        e.insert(info.clone());
-                    }
-                }
+                Entry::Occupied(mut e) => e.get_mut().merge(info),
             }
         }
     }
@@ -107,11 +114,7 @@ impl BlockInner {
                 Entry::Vacant(e) => {
                     e.insert(info.clone());
                 }
-                Entry::Occupied(mut e) => {
-                    if e.get().qos < info.qos {
-                        e.insert(info.clone());
-                    }
-                }
+                Entry::Occupied(mut e) => e.get_mut().merge(info),
             }
         }
     }
-- 
2.43.0


From 6bcc5570873aaefdfccf486c24f2345455874f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:35 +0000
Subject: [PATCH 21/31] fix: decode no more than what was encrypted

---
 server-lib/src/clients/noiseclient.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/server-lib/src/clients/noiseclient.rs b/server-lib/src/clients/noiseclient.rs
index 100aec5..e812ef2 100644
--- a/server-lib/src/clients/noiseclient.rs
+++ b/server-lib/src/clients/noiseclient.rs
@@ -52,9 +52,9 @@ impl NoiseClient {
             .ok_or_else(|| ServerError::Misc("Client disconnected".to_owned()))??;
         //TODO when you implement noise protocol by hand... make sure to make this happen in place
         let mut message = vec![0; frame.remaining()];
-        self.crypto.read_message(&frame[..], &mut message)?;
+        let size = self.crypto.read_message(&frame[..], &mut message)?;
 
-        let mut buf: &[u8] = message.as_ref();
+        let mut buf: &[u8] = &message[..size];
         match Packet::from_bytes(&mut buf) {
             Ok(packet) => Ok(packet),
             Err(DataParseError::InsufficientBuffer {
-- 
2.43.0


From 09d4e6cf710b5ef5e36483a978df0ea0ce3140dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:06 +0000
Subject: [PATCH 22/31] fix: enforce the maximum packet size on encrypted
 connections

---
 server-lib/src/clients/noiseclient.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/server-lib/src/clients/noiseclient.rs b/server-lib/src/clients/noiseclient.rs
index e812ef2..9a9536e 100644
--- a/server-lib/src/clients/noiseclient.rs
+++ b/server-lib/src/clients/noiseclient.rs
@@ -23,6 +23,7 @@ pub struct NoiseClient {
     stream: Framed<TcpStream, LengthDelimitedCodec>,
     saddr: SocketAddr,
     crypto: TransportState,
+    max_packet_size: u32,
 }
 
 impl fmt::Debug for NoiseClient {
@@ -36,11 +37,13 @@ impl NoiseClient {
         stream: Framed<TcpStream, LengthDelimitedCodec>,
         saddr: SocketAddr,
         crypto: TransportState,
+        max_packet_size: u32,
     ) -> Self {
         NoiseClient {
             stream,
             saddr,
             crypto,
+            max_packet_size,
         }
     }
     pub async fn recv(&mut self) -> Result<Packet, ServerError> {
@@ -53,6 +56,9 @@ impl NoiseClient {
         //TODO when you implement noise protocol by hand... make sure to make this happen in place
         let mut message = vec![0; frame.remaining()];
         let size = self.crypto.read_message(&frame[..], &mut message)?;
+        if size > self.max_packet_size as usize {
+            return Err(ServerError::MaxPacketSizeExceeded);
+        }
 
         let mut buf: &[u8] = &message[..size];
         match Packet::from_bytes(&mut buf) {
@@ -199,7 +205,7 @@ async fn _connect_client(
     }
     let transport = responder.into_transport_mode().unwrap();
 
-    let nc = NoiseClient::new(stream, saddr, transport);
+    let nc = NoiseClient::new(stream, saddr, transport, cfg.max_packet_size);
     let mut client = ClientWorker::new(
         Connection::Noise(Box::new(nc)),
         cfg,
-- 
2.43.0


From 7bb5052d86ada1bfe37303200b18189ae75f7942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:09 +0000
Subject: [PATCH 23/31] fix: start with a dispatcher queue of one element if
 less is configured, as documented

---
 server-lib/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server-lib/src/lib.rs b/server-lib/src/lib.rs
index 665efbd..933a73c 100644
--- a/server-lib/src/lib.rs
+++ b/server-lib/src/lib.rs
@@ -32,7 +32,7 @@ pub struct MqttServer {
 impl MqttServer {
     #[instrument(name = "MqttServer::new", skip(cfg))]
     pub async fn new(cfg: MqttServerConfig) -> Result<Self, ServerError> {
-        let queue_len = cfg.dispatcher_queue_size / size_of::<PacketInfo>();
+        let queue_len = (cfg.dispatcher_queue_size / size_of::<PacketInfo>()).max(1);
         let (incoming_tx, incoming_rx) = channel(queue_len);
         let shutdown = Arc::new(Notify::new());
         let cfg = Arc::new(cfg);
-- 
2.43.0


From 19de25882ac24c23421ef2f9b97b5799131d4332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:12 +0000
Subject: [PATCH 24/31] fix: discard packets too large for a noise message
 instead of disconnecting their receiver

---
 server-lib/src/cfg.rs                  |  3 +++
 server-lib/src/clients/clientworker.rs | 15 ++++++++++++++-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/server-lib/src/cfg.rs b/server-lib/src/cfg.rs
index 493e12e..54599d0 100644
--- a/server-lib/src/cfg.rs
+++ b/server-lib/src/cfg.rs
@@ -3,5 +3,8 @@ pub const TOPIC_ALIAS_MAX: u16 = 0;
 pub const WILDCARD_SUB: bool = false;
 pub const SUB_ID: bool = false;
 pub const SHARED_SUB: bool = false;
+/// A noise message holds at most 65535 bytes, 16 of which are the authentication tag
+#[cfg(feature = "noise")]
+pub const NOISE_MAX_PAYLOAD: u32 = 65535 - 16;
 #[cfg(feature = "noise")]
 pub const NOISE_PATTERN: &str = "Noise_XK_25519_ChaChaPoly_BLAKE2s";
diff --git a/server-lib/src/clients/clientworker.rs b/server-lib/src/clients/clientworker.rs
index 3be1272..74b33eb 100644
--- a/server-lib/src/clients/clientworker.rs
+++ b/server-lib/src/clients/clientworker.rs
@@ -32,6 +32,14 @@ impl Connection {
             Connection::Noise(n) => n.send(p).await,
         }
     }
+    /// The largest packet that may be sent
+    fn max_packet_size(&self, cfg: &MqttServerConfig) -> u32 {
+        match self {
+            Connection::Mqtt(_) => cfg.max_packet_size,
+            #[cfg(feature = "noise")]
+            Connection::Noise(_) => cfg.max_packet_size.min(NOISE_MAX_PAYLOAD),
+        }
+    }
     pub fn is_encrypted(&self) -> bool {
         match self {
             Connection::Mqtt(_) => false,
@@ -114,7 +122,12 @@ impl ClientWorker {
     ) -> Self {
         let (outgoing_tx, outgoing_rx) = unbounded_channel();
         ClientWorker {
-            internals: Client::new(shutdown, outgoing_tx, c.is_encrypted(), cfg.max_packet_size),
+            internals: Client::new(
+                shutdown,
+                outgoing_tx,
+                c.is_encrypted(),
+                c.max_packet_size(&cfg),
+            ),
             incoming,
             outgoing: outgoing_rx,
             conn: c,
-- 
2.43.0


From a0e648bcb444a3ec737f149d1922dad36ab3bed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:27 +0000
Subject: [PATCH 25/31] fix: announce that wildcard subscriptions are available

---
 server-lib/src/cfg.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server-lib/src/cfg.rs b/server-lib/src/cfg.rs
index 54599d0..1433d8b 100644
--- a/server-lib/src/cfg.rs
+++ b/server-lib/src/cfg.rs
@@ -1,6 +1,6 @@
 pub const MAX_QOS: u8 = 0;
 pub const TOPIC_ALIAS_MAX: u16 = 0;
-pub const WILDCARD_SUB: bool = false;
+pub const WILDCARD_SUB: bool = true;
 pub const SUB_ID: bool = false;
 pub const SHARED_SUB: bool = false;
 /// A noise message holds at most 65535 bytes, 16 of which are the authentication tag
-- 
2.43.0


From 6f9037c8278f6f5f716f5e4fca1fbe8e35f4eb4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:24 +0000
Subject: [PATCH 26/31] fix: leave nothing running when the server fails to
 start

---
 server-lib/src/clients/mod.rs | 38 ++++++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/server-lib/src/clients/mod.rs b/server-lib/src/clients/mod.rs
index e27522a..7fd2ba1 100644
--- a/server-lib/src/clients/mod.rs
+++ b/server-lib/src/clients/mod.rs
@@ -61,29 +61,43 @@ impl ClientManager {
     ) -> Result<Vec<JoinHandle<()>>, ServerError> {
         let (tx, rx) = unbounded_channel();
 
+        // nothing is started before all addresses are known to be available, a server that
+        // fails to start would otherwise leave a listener behind
+        let mqtt_listener = match cfg.mqtt_socketaddr {
+            Some(saddr) => Some((saddr, TcpListener::bind(saddr).await?)),
+            None => None,
+        };
+        #[cfg(feature = "noise")]
+        let noise_listener = match cfg.noise_socketaddr {
+            Some(saddr) => Some((saddr, TcpListener::bind(saddr).await?)),
+            None => None,
+        };
+
         let mut workers = Vec::new();
-        if let Some(saddr) = cfg.mqtt_socketaddr {
+        if let Some((saddr, listener)) = mqtt_listener {
             let handle = ClientManager::incomming_mqtt_listener(
                 &saddr,
+                listener,
                 tx.clone(),
                 shutdown.clone(),
                 cfg.clone(),
                 incoming.clone(),
             )
-            .await?;
+            .await;
             workers.push(handle)
         }
 
         #[cfg(feature = "noise")]
-        if let Some(saddr) = cfg.noise_socketaddr {
+        if let Some((saddr, listener)) = noise_listener {
             let handle = ClientManager::incomming_noise_listener(
                 &saddr,
+                listener,
                 tx.clone(),
                 shutdown.clone(),
                 cfg.clone(),
                 incoming,
             )
-            .await?;
+            .await;
             workers.push(handle)
         }
 
@@ -170,42 +184,42 @@ impl ClientManager {
     }
     async fn incomming_mqtt_listener(
         saddr: &SocketAddr,
+        listener: TcpListener,
         tx: UnboundedSender<ClientWorker>,
         shutdown: Arc<Notify>,
         cfg: Arc<MqttServerConfig>,
         incoming: Sender<PacketInfo>,
-    ) -> Result<JoinHandle<()>, ServerError> {
-        let listener = TcpListener::bind(saddr).await?;
+    ) -> JoinHandle<()> {
         info!(
             SocketAddr = &*format!("{}", saddr),
             "Starting listener for incoming unencrypted connections"
         );
 
-        Ok(tokio::spawn(async move {
+        tokio::spawn(async move {
             MqttListener::new(listener, tx, shutdown, cfg, incoming)
                 .run()
                 .await
-        }))
+        })
     }
 
     #[cfg(feature = "noise")]
     async fn incomming_noise_listener(
         saddr: &SocketAddr,
+        listener: TcpListener,
         tx: UnboundedSender<ClientWorker>,
         shutdown: Arc<Notify>,
         cfg: Arc<MqttServerConfig>,
         incoming: Sender<PacketInfo>,
-    ) -> Result<JoinHandle<()>, ServerError> {
-        let listener = TcpListener::bind(saddr).await?;
+    ) -> JoinHandle<()> {
         info!(
             SocketAddr = &*format!("{}", saddr),
             "Starting listener for incoming encrypted connections"
         );
 
-        Ok(tokio::spawn(async move {
+        tokio::spawn(async move {
             NoiseListener::new(listener, tx, shutdown, cfg, incoming)
                 .run()
                 .await
-        }))
+        })
     }
 }
-- 
2.43.0


From 37867fe19e3777993b5f98431838951beb771694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:59 +0000
Subject: [PATCH 27/31] fix: end the benchmark when the broker closes a
 connection instead of spinning for ever

---
 bm/src/client.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bm/src/client.rs b/bm/src/client.rs
index 859fd2f..3134878 100644
--- a/bm/src/client.rs
+++ b/bm/src/client.rs
@@ -1,7 +1,7 @@
 use apiformes_packet::prelude::*;
 use bytes::{Buf, BytesMut};
 use std::io::Cursor;
-use std::io::Result;
+use std::io::{ErrorKind, Result};
 use tokio::io::{AsyncReadExt, AsyncWriteExt};
 use tokio::net::{TcpStream, ToSocketAddrs};
 
@@ -30,7 +30,11 @@ impl Client {
                 Err(DataParseError::InsufficientBuffer {
                     needed: _,
                     available: _,
-                }) => self.stream.read_buf(&mut self.recv_bytes).await?,
+                }) => {
+                    if self.stream.read_buf(&mut self.recv_bytes).await? == 0 {
+                        return Err(ErrorKind::UnexpectedEof.into());
+                    }
+                }
                 Err(e) => panic!("{:?}", e),
             };
         }
-- 
2.43.0


From fa4fd7b783721978826b6fe1ffa24a8e1dd6bdbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:01 +0000
Subject: [PATCH 28/31] fix: average the arrival rate over the subscribers, not
 the publishers

---
 bm/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bm/src/main.rs b/bm/src/main.rs
index 18834cc..237e0e3 100644
--- a/bm/src/main.rs
+++ b/bm/src/main.rs
@@ -194,7 +194,7 @@ async fn main() {
                     .as_micros() as f64
         })
         .sum::<f64>()
-        / cfg.n_pubs as f64
+        / cfg.n_subs as f64
         * 1000000.0; //because we are doing measurements in micrseconds
 
     let mut aggregate: Vec<_> = subs
-- 
2.43.0


From 74af1553922c6ad1a5466f096023ff3d286232db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:04 +0000
Subject: [PATCH 29/31] fix: deliver nothing to a new connection because of the
 subscriptions of the one it takes over

---
 server-lib/src/clients/mod.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/server-lib/src/clients/mod.rs b/server-lib/src/clients/mod.rs
index 7fd2ba1..fa77388 100644
--- a/server-lib/src/clients/mod.rs
+++ b/server-lib/src/clients/mod.rs
@@ -115,16 +115,15 @@ impl ClientManager {
             }
         };
         let client = worker.internals();
-        let old = self
-            .clients
-            .write()
-            .await
-            .insert(client.clientid.clone(), client.clone());
-        if let Some(old) = old {
+        // held until the subscriptions of the old connection are gone, so that nothing is
+        // delivered to the new one because of them
+        let mut clients = self.clients.write().await;
+        if let Some(old) = clients.insert(client.clientid.clone(), client.clone()) {
             info!(clientid = &*client.clientid, "Session taken over");
             old.killme();
             self.topics.unsubscribe_all(client.clientid.clone()).await;
         }
+        drop(clients);
         self.workers
             .push(tokio::spawn(async move { worker.run().await }));
         true
-- 
2.43.0


From 438edfd3620e5d95d7f6e53aa025a54ab9c3bc80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:00 +0000
Subject: [PATCH 30/31] fix: answer no CONNECT with a packet larger than its
 Maximum Packet Size

---
 server-lib/src/clients/clientworker.rs | 35 +++++++++++++++++++-------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/server-lib/src/clients/clientworker.rs b/server-lib/src/clients/clientworker.rs
index 74b33eb..9a52273 100644
--- a/server-lib/src/clients/clientworker.rs
+++ b/server-lib/src/clients/clientworker.rs
@@ -135,29 +135,46 @@ impl ClientWorker {
         }
     }
 
-    async fn unimplemented(&mut self) -> Result<(), ServerError> {
+    async fn send_connack(
+        &mut self,
+        connect: &Connect,
+        connack: ConnAck,
+    ) -> Result<(), ServerError> {
+        let connack = connack.build();
+        let limit = connect
+            .get_prop(Property::MaximumPacketSize)
+            .and_then(|v| v[0].into_u32());
+        match limit {
+            // [MQTT-3.1.2-24]
+            Some(limit) if connack.frame_len() > limit as usize => {
+                Err(ServerError::MaxPacketSizeExceeded)
+            }
+            _ => self.conn.send(&connack).await,
+        }
+    }
+    async fn unimplemented(&mut self, connect: &Connect) -> Result<(), ServerError> {
         let mut connack = ConnAck::new();
         connack.set_reason_code(ConnAckReasonCode::ImplementationSpecificError);
-        self.conn.send(&connack.build()).await?;
+        self.send_connack(connect, connack).await?;
         Err(ServerError::Misc("Unimplemented".to_owned()))
     }
     #[instrument(name = "ClientWorker::process_connect", skip_all)]
     async fn process_connect(&mut self, connect: Connect) -> Result<(), ServerError> {
         if connect.username().is_some() {
             error!("Client attempted using username for authentication which is not supported");
-            return self.unimplemented().await;
+            return self.unimplemented(&connect).await;
         }
         if connect.password().is_some() {
             error!("Client attempted using password for authentication which is not supported");
-            return self.unimplemented().await;
+            return self.unimplemented(&connect).await;
         }
         if connect.will().is_some() {
             error!("Client attempted having a will which is not supported");
-            return self.unimplemented().await;
+            return self.unimplemented(&connect).await;
         }
         if !connect.flags().contains(ConnectFlags::CLEAN_START) {
             error!("Client attempted reusing session which is not supported");
-            return self.unimplemented().await;
+            return self.unimplemented(&connect).await;
         }
         for (k, v) in connect.props_iter() {
             match k {
@@ -184,11 +201,11 @@ impl ClientWorker {
                 ),
                 Property::AuthenticationMethod => {
                     error!("Client attempted Authentication which is not supported");
-                    return self.unimplemented().await;
+                    return self.unimplemented(&connect).await;
                 }
                 Property::AuthenticationData => {
                     error!("Client attempted Authentication which is not supported");
-                    return self.unimplemented().await;
+                    return self.unimplemented(&connect).await;
                 }
                 _ => error!(
                     "Internal Error: {:?} should not be part of Connect packet",
@@ -263,7 +280,7 @@ impl ClientWorker {
                 MqttPropValue::new_u16(self.cfg.keep_alive),
             )
             .unwrap();
-        self.conn.send(&connack.build()).await
+        self.send_connack(&connect, connack).await
     }
     pub async fn connect(&mut self) -> Result<(), ServerError> {
         match self.conn.recv().await? {
-- 
2.43.0


From f9628d4156c75a1bfff77facb3cb9b6e2238afd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:04 +0000
Subject: [PATCH 31/31] fix: announce the Maximum Packet Size in CONNACK

---
 server-lib/src/clients/clientworker.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/server-lib/src/clients/clientworker.rs b/server-lib/src/clients/clientworker.rs
index 9a52273..b58fcb0 100644
--- a/server-lib/src/clients/clientworker.rs
+++ b/server-lib/src/clients/clientworker.rs
@@ -274,6 +274,12 @@ impl ClientWorker {
                 MqttPropValue::new_bool(SHARED_SUB),
             )
             .unwrap();
+        connack
+            .add_prop(
+                Property::MaximumPacketSize,
+                MqttPropValue::new_u32(self.conn.max_packet_size(&self.cfg)),
+            )
+            .unwrap();
         connack
             .add_prop(
                 Property::ServerKeepAlive,
-- 
2.43.0

