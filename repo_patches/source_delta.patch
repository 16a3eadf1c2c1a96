From e7ec13f0a33e56e4cc4bff2e1d497c6d090c5d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:41 +0000
Subject: [PATCH 01/20] fix: encode PUBACK instead of panicking

---
 src/protocol/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protocol/mod.rs b/src/protocol/mod.rs
index 913ec90..3a13b60 100644
--- a/src/protocol/mod.rs
+++ b/src/protocol/mod.rs
@@ -114,7 +114,7 @@ impl ToMqttBytes for Packet {
             Self::Disconnect(p) => p.convert_to_mqtt(),
             Self::PingResp(_) => unimplemented!("Client never sends this"),
             Self::Connack(_) => unimplemented!("Client never sends this"),
-            Self::PubAck(_) => unimplemented!("Client never sends this"),
+            Self::PubAck(p) => p.convert_to_mqtt(),
             Self::SubAck(_) => unimplemented!("Client never sends this"),
             Self::UnsubAck(_) => unimplemented!("Client never sends this"),
         }
-- 
2.43.0


From d936e5d49200ff5a7f1263867a053640f390a602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:57 +0000
Subject: [PATCH 02/20] fix: unsupported packet types end the connection with
 an error instead of a panic

---
 src/protocol/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/protocol/mod.rs b/src/protocol/mod.rs
index 3a13b60..4c37d95 100644
--- a/src/protocol/mod.rs
+++ b/src/protocol/mod.rs
@@ -54,7 +54,10 @@ pub fn parse_pkt(data: &[u8]) -> Result<Option<Packet>, std::io::Error> {
         }
         ty => {
             info!("Received msg type = {:?}", ty);
-            unimplemented!("This is not impl");
+            Err(ConvertError::Other(format!(
+                "Packet type {:?} is not supported",
+                ty
+            )))
         }
     };
 
-- 
2.43.0


From efc04841ab5cc8104331a46a9c8db289ed30f490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:58 +0000
Subject: [PATCH 03/20] fix: packets whose fields overrun them are an error
 instead of a panic

---
 src/protocol/connack.rs    | 14 +++++++++++---
 src/protocol/disconnect.rs |  4 +++-
 src/protocol/mod.rs        |  5 ++++-
 src/protocol/properties.rs |  9 +++++++--
 src/protocol/publish.rs    |  4 +++-
 src/protocol/suback.rs     |  9 +++++++--
 src/protocol/unsuback.rs   |  9 +++++++--
 7 files changed, 42 insertions(+), 12 deletions(-)

diff --git a/src/protocol/connack.rs b/src/protocol/connack.rs
index 0a73890..ddeac72 100644
--- a/src/protocol/connack.rs
+++ b/src/protocol/connack.rs
@@ -108,10 +108,16 @@ impl FromMqttBytes for Connack {
             return Err(ConvertError::NotEnoughBytes);
         }
 
-        let flags: ConnackFlags = bytes[bytes_read].try_into()?;
+        let flags: ConnackFlags = (*bytes
+            .get(bytes_read)
+            .ok_or(ConvertError::NotEnoughBytes)?)
+        .try_into()?;
         bytes_read += 1;
 
-        let reason: ConnackReason = bytes[bytes_read].try_into()?;
+        let reason: ConnackReason = (*bytes
+            .get(bytes_read)
+            .ok_or(ConvertError::NotEnoughBytes)?)
+        .try_into()?;
         bytes_read += 1;
 
         let (properties, props_bytes_read) =
@@ -221,7 +227,9 @@ mod properties {
             if bytelen == 0 {
                 Ok((vec![], bytes_consumed))
             } else {
-                let mut bytes = &bytes[bytes_consumed..(bytes_consumed + bytelen)];
+                let mut bytes = bytes
+                    .get(bytes_consumed..(bytes_consumed + bytelen))
+                    .ok_or(ConvertError::NotEnoughBytes)?;
                 let mut properties = vec![];
                 while bytes.len() > 0 {
                     let (prop, bytes_read) = ConnackProperty::convert_from_mqtt(bytes)?;
diff --git a/src/protocol/disconnect.rs b/src/protocol/disconnect.rs
index 4cae4b4..b1fa2c3 100644
--- a/src/protocol/disconnect.rs
+++ b/src/protocol/disconnect.rs
@@ -277,7 +277,9 @@ mod properties {
             if bytelen == 0 {
                 Ok((vec![], bytes_consumed))
             } else {
-                let mut bytes = &bytes[bytes_consumed..(bytes_consumed + bytelen)];
+                let mut bytes = bytes
+                    .get(bytes_consumed..(bytes_consumed + bytelen))
+                    .ok_or(ConvertError::NotEnoughBytes)?;
                 let mut properties = vec![];
                 while bytes.len() > 0 {
                     let (prop, bytes_read) = DisconnectProperty::convert_from_mqtt(bytes)?;
diff --git a/src/protocol/mod.rs b/src/protocol/mod.rs
index 4c37d95..b931ce0 100644
--- a/src/protocol/mod.rs
+++ b/src/protocol/mod.rs
@@ -408,7 +408,10 @@ impl FromMqttBytes for Vec<u8> {
             })
             .map(|slice| u16::from_be_bytes(slice))? as usize;
         if len > 0 {
-            let v = bytes[2..(2 + len)].to_owned();
+            let v = bytes
+                .get(2..(2 + len))
+                .ok_or(ConvertError::NotEnoughBytes)?
+                .to_owned();
             Ok((v, len + 2))
         } else {
             Ok((vec![], 2))
diff --git a/src/protocol/properties.rs b/src/protocol/properties.rs
index cad6c47..1873186 100644
--- a/src/protocol/properties.rs
+++ b/src/protocol/properties.rs
@@ -57,7 +57,10 @@ impl ToMqttBytes for Property {
 impl FromMqttBytes for Property {
     fn convert_from_mqtt(bytes: &[u8]) -> Result<(Self, usize), ConvertError> {
         match bytes.get(0) {
-            Some(0x01) => Ok((PayloadFormatId(bytes[1]), 2)),
+            Some(0x01) => {
+                let v = *bytes.get(1).ok_or(ConvertError::NotEnoughBytes)?;
+                Ok((PayloadFormatId(v), 2))
+            }
             Some(0x02) => {
                 let interval = bytes
                     .get(1..5)
@@ -113,7 +116,9 @@ impl FromMqttBytes for Vec<Property> {
         if bytelen == 0 {
             Ok((vec![], bytes_consumed))
         } else {
-            let mut bytes = &bytes[bytes_consumed..(bytes_consumed + bytelen)];
+            let mut bytes = bytes
+                .get(bytes_consumed..(bytes_consumed + bytelen))
+                .ok_or(ConvertError::NotEnoughBytes)?;
             let mut properties = vec![];
             while bytes.len() > 0 {
                 let (prop, bytes_read) = Property::convert_from_mqtt(bytes)?;
diff --git a/src/protocol/publish.rs b/src/protocol/publish.rs
index bca8d6a..ca36aff 100644
--- a/src/protocol/publish.rs
+++ b/src/protocol/publish.rs
@@ -232,7 +232,9 @@ impl FromMqttBytes for Publish {
         bytes_read += props_bytes_read;
         variable_header_len += props_bytes_read;
 
-        let payload_len = remaining_len - variable_header_len;
+        let payload_len = (u32::from(remaining_len) as usize)
+            .checked_sub(variable_header_len)
+            .ok_or(ConvertError::NotEnoughBytes)?;
         let payload: Payload =
             if properties.iter().any(|prop| matches!(prop, Property::PayloadFormatId(1))) {
                 match std::str::from_utf8(&bytes[bytes_read..bytes_read + payload_len]) {
diff --git a/src/protocol/suback.rs b/src/protocol/suback.rs
index 77c1711..e6b27df 100644
--- a/src/protocol/suback.rs
+++ b/src/protocol/suback.rs
@@ -34,7 +34,10 @@ impl FromMqttBytes for Suback {
             Vec::<properties::SubackProperty>::convert_from_mqtt(&bytes[bytes_read..])?;
         bytes_read += props_bytes_read;
 
-        let reason: SubackReason = bytes[bytes_read].try_into()?;
+        let reason: SubackReason = (*bytes
+            .get(bytes_read)
+            .ok_or(ConvertError::NotEnoughBytes)?)
+        .try_into()?;
         bytes_read += 1;
 
         let suback = Self {
@@ -163,7 +166,9 @@ mod properties {
             if bytelen == 0 {
                 Ok((vec![], bytes_consumed))
             } else {
-                let mut bytes = &bytes[bytes_consumed..(bytes_consumed + bytelen)];
+                let mut bytes = bytes
+                    .get(bytes_consumed..(bytes_consumed + bytelen))
+                    .ok_or(ConvertError::NotEnoughBytes)?;
                 let mut properties = vec![];
                 while bytes.len() > 0 {
                     let (prop, bytes_read) = SubackProperty::convert_from_mqtt(bytes)?;
diff --git a/src/protocol/unsuback.rs b/src/protocol/unsuback.rs
index c70a86a..5d53e2e 100644
--- a/src/protocol/unsuback.rs
+++ b/src/protocol/unsuback.rs
@@ -34,7 +34,10 @@ impl FromMqttBytes for Unsuback {
             Vec::<properties::UnsubackProperty>::convert_from_mqtt(&bytes[bytes_read..])?;
         bytes_read += props_bytes_read;
 
-        let reason: UnsubackReason = bytes[bytes_read].try_into()?;
+        let reason: UnsubackReason = (*bytes
+            .get(bytes_read)
+            .ok_or(ConvertError::NotEnoughBytes)?)
+        .try_into()?;
         bytes_read += 1;
 
         let suback = Self {
@@ -153,7 +156,9 @@ mod properties {
             if bytelen == 0 {
                 Ok((vec![], bytes_consumed))
             } else {
-                let mut bytes = &bytes[bytes_consumed..(bytes_consumed + bytelen)];
+                let mut bytes = bytes
+                    .get(bytes_consumed..(bytes_consumed + bytelen))
+                    .ok_or(ConvertError::NotEnoughBytes)?;
                 let mut properties = vec![];
                 while bytes.len() > 0 {
                     let (prop, bytes_read) = UnsubackProperty::convert_from_mqtt(bytes)?;
-- 
2.43.0


From 6c5dae8a47e091f286b9867afe60ffab12fd4bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:59 +0000
Subject: [PATCH 04/20] fix: reject a five-byte length before it overflows

---
 src/protocol/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protocol/mod.rs b/src/protocol/mod.rs
index b931ce0..da07ea9 100644
--- a/src/protocol/mod.rs
+++ b/src/protocol/mod.rs
@@ -281,7 +281,6 @@ impl FromMqttBytes for VBI {
             match bytes.get(idx) {
                 None => return Err(ConvertError::NotEnoughBytes),
                 Some(byte) => {
-                    value += (byte & 127) as u32 * multiplier;
                     if multiplier > 128 * 128 * 128 {
                         return Err(format!(
                             "Invalid VariableByteInteger exceeds 4 bytes, bytes = {:?}",
@@ -289,6 +288,7 @@ impl FromMqttBytes for VBI {
                         )
                         .into());
                     }
+                    value += (byte & 127) as u32 * multiplier;
                     multiplier *= 128;
                     idx += 1;
 
-- 
2.43.0


From 37d5f098f73de28b0a78a0a066f0315f225075eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:00 +0000
Subject: [PATCH 05/20] fix: message expiry interval takes five bytes

---
 src/protocol/properties.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protocol/properties.rs b/src/protocol/properties.rs
index 1873186..0301640 100644
--- a/src/protocol/properties.rs
+++ b/src/protocol/properties.rs
@@ -71,7 +71,7 @@ impl FromMqttBytes for Property {
                         })
                     })
                     .map(|slice| u32::from_be_bytes(slice))?;
-                Ok((MessageExpiryInterval(interval), 4))
+                Ok((MessageExpiryInterval(interval), 5))
             }
             Some(0x08) => {
                 let (s, bytes_consumed) = String::convert_from_mqtt(&bytes[1..])?;
-- 
2.43.0


From ba629113df7807f9ec4859b79a4710f08d3efd34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:01 +0000
Subject: [PATCH 06/20] fix: parse every PUBACK property, reject an overlong
 property list

---
 src/protocol/puback.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/protocol/puback.rs b/src/protocol/puback.rs
index 6699e8d..99e47ec 100644
--- a/src/protocol/puback.rs
+++ b/src/protocol/puback.rs
@@ -166,11 +166,13 @@ mod properties {
             if bytelen == 0 {
                 Ok((Default::default(), bytes_consumed))
             } else {
-                let mut bytes = bytes.get(bytes_consumed..(bytes_consumed + bytelen));
+                let mut slice = bytes
+                    .get(bytes_consumed..(bytes_consumed + bytelen))
+                    .ok_or(ConvertError::NotEnoughBytes)?;
 
                 let mut properties: PubackProperties = Default::default();
 
-                while let Some(slice) = bytes {
+                while slice.len() > 0 {
                     let bytes_read = match slice.get(0) {
                         Some(0x1F) => {
                             let (s, property_bytes_read) = String::convert_from_mqtt(&slice[1..])?;
@@ -193,7 +195,7 @@ mod properties {
                             return Err(ConvertError::NotEnoughBytes);
                         }
                     };
-                    bytes = slice.get((bytes_read + 1)..);
+                    slice = &slice[bytes_read..];
                 }
 
                 Ok((properties, bytes_consumed + bytelen))
-- 
2.43.0


From 1b3975d5f5e01aee31b230beeb055232ea241489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:02 +0000
Subject: [PATCH 07/20] fix: parse DISCONNECT properties shorter than two bytes
 as well

---
 src/protocol/disconnect.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protocol/disconnect.rs b/src/protocol/disconnect.rs
index b1fa2c3..7850b1c 100644
--- a/src/protocol/disconnect.rs
+++ b/src/protocol/disconnect.rs
@@ -176,7 +176,7 @@ impl FromMqttBytes for Disconnect {
             reason
         };
 
-        let properties = if remaining_len < 4 {
+        let properties = if remaining_len < 2 {
             vec![]
         } else {
             let (properties, props_bytes_read) =
-- 
2.43.0


From 489debd0888fefe4bc380eb2484c67b1ac0187bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:03 +0000
Subject: [PATCH 08/20] fix: a close before CONNACK ends the event loop instead
 of spinning

---
 src/lib.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 74fc3b7..7a65f31 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -127,9 +127,13 @@ async fn poll(
 
     mqtt_write.send(protocol::Packet::Connect(pkt)).await?;
 
-    let pkt = loop {
-        if let Some(pkt) = mqtt_read.next().await {
-            break pkt?;
+    let pkt = match mqtt_read.next().await {
+        Some(pkt) => pkt?,
+        None => {
+            return Err(IOError::new(
+                ErrorKind::UnexpectedEof,
+                "Connection closed before connack",
+            ));
         }
     };
     match pkt {
-- 
2.43.0


From a2da24e2ced68edb47c86229400bc9aa84c765d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:04 +0000
Subject: [PATCH 09/20] fix: a refused CONNACK ends the event loop with an
 error

---
 src/lib.rs          | 10 ++++++++--
 src/protocol/mod.rs |  2 +-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 7a65f31..a54abe5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -17,7 +17,7 @@ use tokio_util::codec::{FramedRead, FramedWrite};
 
 use log::{error, info, warn};
 
-use crate::protocol::{DisconnectReason, PktId, Publish};
+use crate::protocol::{ConnackReason, DisconnectReason, PktId, Publish};
 
 pub use crate::client::{Client, Notification, PublishBuilder};
 pub use crate::protocol::Property;
@@ -139,7 +139,7 @@ async fn poll(
     match pkt {
         protocol::Packet::Connack(p) => {
             info!("Received connack: {:?}", p);
-            // TODO: pkt must be a connack with ConnackReason::Success
+            let reason = p.reason();
             match sender.send(Notification::ConnAck(p)).await {
                 Ok(()) => {}
                 Err(e) => {
@@ -147,6 +147,12 @@ async fn poll(
                     // probably send disconnect without acking any incoming messages?
                 }
             }
+            if !matches!(reason, ConnackReason::Success) {
+                return Err(IOError::new(
+                    ErrorKind::ConnectionRefused,
+                    format!("Connection refused, reason = {:?}", reason),
+                ));
+            }
         }
         _ => {
             error!("Expected connack, received: {:?}", pkt);
diff --git a/src/protocol/mod.rs b/src/protocol/mod.rs
index da07ea9..cef2281 100644
--- a/src/protocol/mod.rs
+++ b/src/protocol/mod.rs
@@ -3,7 +3,7 @@ use std::{
     num::NonZeroU16,
 };
 
-pub use connack::Connack;
+pub use connack::{Connack, ConnackReason};
 pub use connect::Connect;
 pub use disconnect::{Disconnect, DisconnectReason};
 pub use pingreq::PingReq;
-- 
2.43.0


From b1b03a22da8de4f2a59de66ea54a249ade201234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:06 +0000
Subject: [PATCH 10/20] fix: do not spin once all client handles are dropped

---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index a54abe5..51bab8b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -6,6 +6,7 @@ use std::task::Poll;
 
 use anyhow::{anyhow, Error as AnyError, Result as AnyResult};
 use futures::channel::mpsc::{Receiver, Sender};
+use futures::stream::FusedStream;
 use futures::{Future, SinkExt, StreamExt};
 use pin_project::pin_project;
 use protocol::publish::Payload;
@@ -245,7 +246,7 @@ async fn poll(
                     }
                 }
             },
-            cmd = commands_rx.next() => {
+            cmd = commands_rx.next(), if !commands_rx.is_terminated() => {
                 match cmd {
                     Some(x) => match x {
                         Command::Publish { topic, payload, properties, qos, retain } => {
-- 
2.43.0


From 77beb93ca7335f8c32ea9b1821d5f5c909c63667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:05 +0000
Subject: [PATCH 11/20] fix: survive running out of packet ids, send the
 waiting request once one is free

---
 src/lib.rs    | 34 +++++++++++++++++++++++++++++-----
 src/pktids.rs | 28 ++++++++++++++++++----------
 2 files changed, 47 insertions(+), 15 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 51bab8b..62290bb 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -171,8 +171,14 @@ async fn poll(
     // todo: on conversion from future<output = connection_result> to stream<item = connection_result>
     // we should save this queue on disconnect and read from it first if user establishes new connection
     let mut queue: VecDeque<(PktId, Box<Publish>)> = VecDeque::new();
+    // command waiting for a packet id while all of them are in use, commands behind it wait too
+    let mut stalled: Option<Command> = None;
 
     loop {
+        let take_command = match stalled {
+            Some(_) => pktids.has_vacant(),
+            None => !commands_rx.is_terminated(),
+        };
         tokio::select! {
             _ = ping.tick() => {
                 if pingresp_received == Some(false) {
@@ -246,8 +252,16 @@ async fn poll(
                     }
                 }
             },
-            cmd = commands_rx.next(), if !commands_rx.is_terminated() => {
+            cmd = async {
+                match stalled.take() {
+                    Some(x) => Some(x),
+                    None => commands_rx.next().await,
+                }
+            }, if take_command => {
                 match cmd {
+                    Some(x) if x.needs_pktid() && !pktids.has_vacant() => {
+                        stalled = Some(x);
+                    }
                     Some(x) => match x {
                         Command::Publish { topic, payload, properties, qos, retain } => {
                             let pkt = match qos {
@@ -261,13 +275,13 @@ async fn poll(
                                             queue.push_back((pktid, Box::new(pkt.clone())));
                                             pkt
                                         }
-                                        None => todo!(),
+                                        None => unreachable!("vacant packet id was checked above"),
                                     }
                                 }
                                 QoS::ExactlyOnce => {
                                     match pktids.next_id() {
                                         Some(pktid) => protocol::Publish::exactly_once(topic, payload, retain, properties, pktid),
-                                        None => todo!(),
+                                        None => unreachable!("vacant packet id was checked above"),
                                     }
                                 }
                             };
@@ -276,14 +290,14 @@ async fn poll(
                         Command::Subscribe(topic, qos) => {
                             let pkt = match pktids.next_id() {
                                 Some(pktid) => protocol::Subscribe::new(&topic, pktid, qos),
-                                None => todo!(),
+                                None => unreachable!("vacant packet id was checked above"),
                             };
                             mqtt_write.send(protocol::Packet::Subscribe(pkt)).await?;
                         }
                         Command::Unsubscribe(topics) => {
                             let pkt = match pktids.next_id() {
                                 Some(pktid) => protocol::Unsubscribe::new(topics, pktid),
-                                None => todo!(),
+                                None => unreachable!("vacant packet id was checked above"),
                             };
                             mqtt_write.send(protocol::Packet::Unsubscribe(pkt)).await?;
                         }
@@ -313,6 +327,16 @@ pub(crate) enum Command {
     Disconnect,
 }
 
+impl Command {
+    fn needs_pktid(&self) -> bool {
+        match self {
+            Command::Publish { qos, .. } => *qos > QoS::AtMostOnce,
+            Command::Subscribe(..) | Command::Unsubscribe(..) => true,
+            Command::Disconnect => false,
+        }
+    }
+}
+
 mod client;
 mod mqtt_codec;
 mod pktids;
diff --git a/src/pktids.rs b/src/pktids.rs
index 87b03cf..57b2279 100644
--- a/src/pktids.rs
+++ b/src/pktids.rs
@@ -10,7 +10,8 @@ pub(crate) struct PktIds {
 enum Node {
     Vacant,
     Taken {
-        range: RangeInclusive<u16>,
+        // u32 because an exhausted range starts one past its end
+        range: RangeInclusive<u32>,
         next: usize,
     },
 }
@@ -21,7 +22,7 @@ impl PktIds {
     }
 
     pub(crate) fn new_with_max(max: PktId) -> Self {
-        let max = max.get();
+        let max = max.get() as u32;
         let node = Node::Taken {
             range: 1..=max,
             next: 0,
@@ -51,15 +52,15 @@ impl PktIds {
                 let mut pktid = Some(start);
                 let mut new_node = None;
 
-                if start >= end {
+                if start > end {
+                    // all pktids are in use
+                    pktid = None;
+                } else if start == end {
                     // this range is exhausted
                     if let Some(Node::Vacant) = self.ranges.get(*next) {
                         // if we have no next nodes and all pktids are in use
                         // just set this node's range as exhausted
                         *range = (start + 1)..=end;
-                        if start != end {
-                            pktid = None;
-                        }
                     } else {
                         // if we have next node - set this node as vacant and start using next node
                         new_node = Some(Node::Vacant);
@@ -81,13 +82,20 @@ impl PktIds {
         }
 
         match result {
-            Some(pktid) => PktId::new(pktid),
+            Some(pktid) => PktId::new(pktid as u16),
             None => None,
         }
     }
 
+    pub(crate) fn has_vacant(&self) -> bool {
+        match self.ranges.get(self.start) {
+            Some(Node::Taken { range, .. }) => !range.is_empty(),
+            _ => false,
+        }
+    }
+
     pub(crate) fn return_id(&mut self, id: PktId) {
-        let id = id.get();
+        let id = id.get() as u32;
         let mut prev_idx = None;
         let mut next_idx = self.start;
         while let Some(Node::Taken { range, next }) = self.ranges.get(next_idx) {
@@ -171,7 +179,7 @@ impl PktIds {
         }
     }
 
-    fn maybe_extend_next_node(&mut self, next_node: usize, id: u16) -> bool {
+    fn maybe_extend_next_node(&mut self, next_node: usize, id: u32) -> bool {
         match self.ranges.get_mut(next_node) {
             None => unreachable!(),
             Some(Node::Vacant) => {}
@@ -186,7 +194,7 @@ impl PktIds {
         false
     }
 
-    fn maybe_extend_prev_node(&mut self, prev_node: usize, id: u16) -> bool {
+    fn maybe_extend_prev_node(&mut self, prev_node: usize, id: u32) -> bool {
         match self.ranges.get_mut(prev_node) {
             None => unreachable!(),
             Some(Node::Vacant) => {}
-- 
2.43.0


From 8949bc3ca0a909a27a4a0fcb9d22bd41672068ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:07 +0000
Subject: [PATCH 12/20] fix: only an acknowledgement of a pending request
 releases its packet id

---
 src/lib.rs | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 62290bb..c9c82e3 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,4 +1,4 @@
-use std::collections::VecDeque;
+use std::collections::{HashSet, VecDeque};
 use std::io::{Error as IOError, ErrorKind, Result as IOResult};
 use std::pin::Pin;
 use std::task::Context;
@@ -171,6 +171,8 @@ async fn poll(
     // todo: on conversion from future<output = connection_result> to stream<item = connection_result>
     // we should save this queue on disconnect and read from it first if user establishes new connection
     let mut queue: VecDeque<(PktId, Box<Publish>)> = VecDeque::new();
+    let mut subscribes: HashSet<PktId> = HashSet::new();
+    let mut unsubscribes: HashSet<PktId> = HashSet::new();
     // command waiting for a packet id while all of them are in use, commands behind it wait too
     let mut stalled: Option<Command> = None;
 
@@ -207,21 +209,24 @@ async fn poll(
                                 pingresp_received = Some(true);
                             }
                             protocol::Packet::SubAck(m) => {
-                                pktids.return_id(m.pktid());
+                                if subscribes.remove(&m.pktid()) {
+                                    pktids.return_id(m.pktid());
+                                }
                                 sender.send(Notification::SubAck(format!("{:?}", m))).await;
                             }
                             protocol::Packet::UnsubAck(m) => {
-                                pktids.return_id(m.pktid());
+                                if unsubscribes.remove(&m.pktid()) {
+                                    pktids.return_id(m.pktid());
+                                }
                                 sender.send(Notification::UnsubAck(format!("{:?}", m))).await;
                             }
                             protocol::Packet::PubAck(m) => {
                                 if let Some(idx) = queue.iter().position(|(pktid, _)| *pktid == m.pktid()) {
                                     queue.remove(idx);
+                                    pktids.return_id(m.pktid());
                                 } else {
                                     warn!("Failed to find message to ack in the queue");
                                 }
-
-                                pktids.return_id(m.pktid());
                             }
                             protocol::Packet::Publish(m) => {
                                 match m.qos() {
@@ -289,14 +294,20 @@ async fn poll(
                         }
                         Command::Subscribe(topic, qos) => {
                             let pkt = match pktids.next_id() {
-                                Some(pktid) => protocol::Subscribe::new(&topic, pktid, qos),
+                                Some(pktid) => {
+                                    subscribes.insert(pktid);
+                                    protocol::Subscribe::new(&topic, pktid, qos)
+                                }
                                 None => unreachable!("vacant packet id was checked above"),
                             };
                             mqtt_write.send(protocol::Packet::Subscribe(pkt)).await?;
                         }
                         Command::Unsubscribe(topics) => {
                             let pkt = match pktids.next_id() {
-                                Some(pktid) => protocol::Unsubscribe::new(topics, pktid),
+                                Some(pktid) => {
+                                    unsubscribes.insert(pktid);
+                                    protocol::Unsubscribe::new(topics, pktid)
+                                }
                                 None => unreachable!("vacant packet id was checked above"),
                             };
                             mqtt_write.send(protocol::Packet::Unsubscribe(pkt)).await?;
-- 
2.43.0


From 5e59fb224f0d32b1bf560b3f1c9537c9a715fcf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:08 +0000
Subject: [PATCH 13/20] fix: a QoS 2 message ends the connection with an error
 instead of a panic

---
 src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index c9c82e3..d926131 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -236,7 +236,11 @@ async fn poll(
                                         mqtt_write.send(protocol::Packet::PubAck(pkt)).await?;
                                     }
                                     QoS::ExactlyOnce => {
-                                        todo!("Send pubrec");
+                                        // TODO: send pubrec
+                                        return Err(IOError::new(
+                                            ErrorKind::InvalidData,
+                                            "QoS 2 messages are not supported",
+                                        ));
                                     }
                                 }
 
-- 
2.43.0


From a8d569d4dfafb0a15fe7138c7ad3bad147a3115f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:09 +0000
Subject: [PATCH 14/20] fix: refuse strings and binary values MQTT cannot
 represent

---
 src/client.rs | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/client.rs b/src/client.rs
index 6307cba..6421cff 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -1,4 +1,4 @@
-use anyhow::{Context as AnyContext, Error};
+use anyhow::{bail, Context as AnyContext, Error};
 use futures::channel::mpsc::{channel, Receiver, Sender};
 use tokio::net::TcpStream;
 use tokio::net::ToSocketAddrs;
@@ -58,18 +58,21 @@ impl Client {
     }
 
     pub fn subscribe(&mut self, topic: &str, qos: QoS) -> Result<(), Error> {
+        check_len("Topic filter", topic.len())?;
         self.tx
             .try_send(Command::Subscribe(topic.to_owned(), qos))
             .with_context(|| "Subscribe chan send failed")
     }
 
     pub fn publish(&mut self, publish_builder: PublishBuilder) -> Result<(), Error> {
+        publish_builder.check()?;
         self.tx
             .try_send(publish_builder.build())
             .with_context(|| "Publish chan send failed")
     }
 
     pub fn unsubscribe(&mut self, topic: &str) -> Result<(), Error> {
+        check_len("Topic filter", topic.len())?;
         self.tx
             .try_send(Command::Unsubscribe(vec![topic.to_owned()]))
             .with_context(|| "Unsubscribe chan send failed")
@@ -122,6 +125,23 @@ impl PublishBuilder {
         self
     }
 
+    // strings and binary data are prefixed with a two byte length
+    fn check(&self) -> Result<(), Error> {
+        check_len("Topic", self.topic.len())?;
+        for prop in &self.properties {
+            match prop {
+                Property::PayloadFormatId(_) | Property::MessageExpiryInterval(_) => {}
+                Property::ResponseTopic(s) => check_len("Response topic", s.len())?,
+                Property::CorrelationData(b) => check_len("Correlation data", b.len())?,
+                Property::UserProperty(k, v) => {
+                    check_len("User property name", k.len())?;
+                    check_len("User property value", v.len())?;
+                }
+            }
+        }
+        Ok(())
+    }
+
     fn build(self) -> Command {
         Command::Publish {
             topic: self.topic,
@@ -132,3 +152,10 @@ impl PublishBuilder {
         }
     }
 }
+
+fn check_len(what: &str, len: usize) -> Result<(), Error> {
+    if len > u16::MAX as usize {
+        bail!("{} is longer than {} bytes", what, u16::MAX);
+    }
+    Ok(())
+}
-- 
2.43.0


From 50ddfa7e47f207d6ac7e3853a56be9b4a5ecbaa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:10 +0000
Subject: [PATCH 15/20] fix: refuse messages larger than the largest MQTT
 packet

---
 src/client.rs     | 41 +++++++++++++++++++++++++++++++++++------
 src/mqtt_codec.rs |  2 +-
 2 files changed, 36 insertions(+), 7 deletions(-)

diff --git a/src/client.rs b/src/client.rs
index 6421cff..fc73fb7 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -3,6 +3,7 @@ use futures::channel::mpsc::{channel, Receiver, Sender};
 use tokio::net::TcpStream;
 use tokio::net::ToSocketAddrs;
 
+use crate::mqtt_codec::MAX;
 use crate::protocol::{Connack, Property};
 use crate::{Payload, QoS};
 
@@ -125,19 +126,47 @@ impl PublishBuilder {
         self
     }
 
-    // strings and binary data are prefixed with a two byte length
+    // strings and binary data are prefixed with a two byte length, the packet with a VBI
     fn check(&self) -> Result<(), Error> {
         check_len("Topic", self.topic.len())?;
+        let mut props_len = 0;
         for prop in &self.properties {
-            match prop {
-                Property::PayloadFormatId(_) | Property::MessageExpiryInterval(_) => {}
-                Property::ResponseTopic(s) => check_len("Response topic", s.len())?,
-                Property::CorrelationData(b) => check_len("Correlation data", b.len())?,
+            props_len += 1 + match prop {
+                Property::PayloadFormatId(_) => 1,
+                Property::MessageExpiryInterval(_) => 4,
+                Property::ResponseTopic(s) => {
+                    check_len("Response topic", s.len())?;
+                    2 + s.len()
+                }
+                Property::CorrelationData(b) => {
+                    check_len("Correlation data", b.len())?;
+                    2 + b.len()
+                }
                 Property::UserProperty(k, v) => {
                     check_len("User property name", k.len())?;
                     check_len("User property value", v.len())?;
+                    4 + k.len() + v.len()
                 }
-            }
+            };
+        }
+        let payload_len = match &self.payload {
+            Payload::String(s) => s.len(),
+            Payload::Bytes(b) => b.len(),
+        };
+        // the property length is a VBI as well
+        let props_vbi_len = match props_len {
+            0..=127 => 1,
+            128..=16_383 => 2,
+            16_384..=2_097_151 => 3,
+            _ => 4,
+        };
+        let pktid_len = match self.qos {
+            Some(QoS::AtLeastOnce) | Some(QoS::ExactlyOnce) => 2,
+            _ => 0,
+        };
+        let len = 2 + self.topic.len() + pktid_len + props_vbi_len + props_len + payload_len;
+        if len > MAX as usize {
+            bail!("Packet is longer than {} bytes", MAX);
         }
         Ok(())
     }
diff --git a/src/mqtt_codec.rs b/src/mqtt_codec.rs
index 11a45c9..9d83da8 100644
--- a/src/mqtt_codec.rs
+++ b/src/mqtt_codec.rs
@@ -15,7 +15,7 @@ impl MqttCodec {
 // Packet size is 1 byte for fixed header + len of VBI (at most 4 bytes) + value of VBI for remaining len
 // And the maximum value of VBI is 268_435_455
 // https://docs.oasis-open.org/mqtt/mqtt/v5.0/os/mqtt-v5.0-os.html#_Toc3901011
-const MAX: u32 = 268_435_455;
+pub(crate) const MAX: u32 = 268_435_455;
 
 impl Decoder for MqttCodec {
     type Item = protocol::Packet;
-- 
2.43.0


From 3b7b9b1c350584a3e2847ee931838417a01ab106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:01 +0000
Subject: [PATCH 16/20] fix: wait for the server to close after DISCONNECT, so
 that no reset overtakes what was sent

---
 src/lib.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index d926131..9caef83 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -10,6 +10,7 @@ use futures::stream::FusedStream;
 use futures::{Future, SinkExt, StreamExt};
 use pin_project::pin_project;
 use protocol::publish::Payload;
+use tokio::io::AsyncWriteExt;
 use tokio::net::tcp::{OwnedReadHalf, OwnedWriteHalf};
 use tokio::net::TcpStream;
 use tokio::net::ToSocketAddrs;
@@ -24,6 +25,9 @@ pub use crate::client::{Client, Notification, PublishBuilder};
 pub use crate::protocol::Property;
 pub use crate::protocol::QoS;
 
+// how long to wait for the server to close the connection after a DISCONNECT was sent
+const LINGER: Duration = Duration::from_secs(8);
+
 pub trait TCPConnectFuture: Future<Output = IOResult<TcpStream>> + Send {}
 
 impl<T> TCPConnectFuture for T where T: Future<Output = IOResult<TcpStream>> + Send {}
@@ -318,7 +322,15 @@ async fn poll(
                         }
                         Command::Disconnect => {
                             let pkt = protocol::Disconnect::new();
+                            // nothing follows a DISCONNECT, refuse further commands
+                            commands_rx.close();
                             mqtt_write.send(protocol::Packet::Disconnect(pkt)).await?;
+                            // Closing a socket with unread data resets the connection, which loses
+                            // what the server has not read yet: let the server close first.
+                            let _ = mqtt_write.get_mut().shutdown().await;
+                            let mut unread = tokio::io::sink();
+                            let drain = tokio::io::copy(mqtt_read.get_mut(), &mut unread);
+                            let _ = tokio::time::timeout(LINGER, drain).await;
                             return Ok(());
                         }
                     }
-- 
2.43.0


From 479ae47d62f6f98c6c42e96494cae927b1025b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:56 +0000
Subject: [PATCH 17/20] fix: a finished event loop that is kept around closes
 its channels

The struct held a second notification sender, so the stream never ended while a
finished event loop was still in scope (pinned for select!, say); after a failed
connect it also held the command receiver, and calls still returned Ok.
---
 src/client.rs | 2 +-
 src/lib.rs    | 7 +++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/client.rs b/src/client.rs
index fc73fb7..a30db88 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -44,7 +44,7 @@ impl Client {
         let evloop = EventLoop {
             address,
             commands_rx: Some(rx),
-            notifications_tx: notif_tx,
+            notifications_tx: Some(notif_tx),
             state: EventLoopState::NotConnected { f: p },
         };
 
diff --git a/src/lib.rs b/src/lib.rs
index 9caef83..30dee55 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -65,7 +65,7 @@ where
     #[pin]
     state: EventLoopState<F>,
     commands_rx: Option<Receiver<Command>>,
-    notifications_tx: Sender<Notification>,
+    notifications_tx: Option<Sender<Notification>>,
     address: A,
 }
 
@@ -83,6 +83,9 @@ where
                 match me.state.as_mut().project() {
                     ELProj::NotConnected { mut f } => match f.as_mut().poll(cx) {
                         Poll::Ready(Err(e)) => {
+                            // close the channels even if this finished future is kept around
+                            me.commands_rx.take();
+                            me.notifications_tx.take();
                             return Poll::Ready(Err(anyhow!(
                                 "Failed to connect, reason = {:?}",
                                 e
@@ -102,7 +105,7 @@ where
                                 mqtt_read,
                                 mqtt_write,
                                 me.commands_rx.take().unwrap(),
-                                me.notifications_tx.clone(),
+                                me.notifications_tx.take().unwrap(),
                             ));
 
                             EventLoopState::MqttConnected {
-- 
2.43.0


From 3c5b221a575c5ad301f201d89c04430cf351b4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:38 +0000
Subject: [PATCH 18/20] fix: no ping timeout while the response waits to be
 read

After missed ticks (event loop not polled for two intervals, or waiting for the
application or a slow write) the ticks came in a burst: a ping was sent and judged
unanswered in the same moment. And a response that waited unread behind what a slow
application had not taken yet counted as missing.
---
 src/lib.rs | 39 +++++++++++++++++++++++++++++++++++----
 1 file changed, 35 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 30dee55..6f79497 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -6,6 +6,7 @@ use std::task::Poll;
 
 use anyhow::{anyhow, Error as AnyError, Result as AnyResult};
 use futures::channel::mpsc::{Receiver, Sender};
+use futures::future::poll_fn;
 use futures::stream::FusedStream;
 use futures::{Future, SinkExt, StreamExt};
 use pin_project::pin_project;
@@ -14,7 +15,7 @@ use tokio::io::AsyncWriteExt;
 use tokio::net::tcp::{OwnedReadHalf, OwnedWriteHalf};
 use tokio::net::TcpStream;
 use tokio::net::ToSocketAddrs;
-use tokio::time::{Duration, Instant};
+use tokio::time::{Duration, Instant, MissedTickBehavior};
 use tokio_util::codec::{FramedRead, FramedWrite};
 
 use log::{error, info, warn};
@@ -172,7 +173,11 @@ async fn poll(
         Instant::now() + Duration::from_secs(8),
         Duration::from_secs(8),
     );
+    // every ping gets a whole interval to be answered, also after missed ticks
+    ping.set_missed_tick_behavior(MissedTickBehavior::Delay);
     let mut pingresp_received = None;
+    // the answer to the last ping is due, it may be among what has not been read yet
+    let mut overdue = false;
 
     let mut pktids = pktids::PktIds::new();
     // todo: on conversion from future<output = connection_result> to stream<item = connection_result>
@@ -189,15 +194,16 @@ async fn poll(
             None => !commands_rx.is_terminated(),
         };
         tokio::select! {
-            _ = ping.tick() => {
+            _ = ping.tick(), if !overdue => {
                 if pingresp_received == Some(false) {
-                    return Err(IOError::new(ErrorKind::TimedOut, "PingResp timed out"))
+                    overdue = true;
+                    continue;
                 }
                 let pkt = protocol::PingReq::new();
                 mqtt_write.send(protocol::Packet::PingReq(pkt)).await?;
                 pingresp_received = Some(false);
             }
-            req = mqtt_read.next() => {
+            req = next_packet(&mut mqtt_read, overdue) => {
                 info!("Incoming req: {:?}", req);
                 match req {
                     Some(Ok(x)) => {
@@ -214,6 +220,9 @@ async fn poll(
                             },
                             protocol::Packet::PingResp(_) => {
                                 pingresp_received = Some(true);
+                                if std::mem::take(&mut overdue) {
+                                    ping.reset_immediately();
+                                }
                             }
                             protocol::Packet::SubAck(m) => {
                                 if subscribes.remove(&m.pktid()) {
@@ -344,6 +353,28 @@ async fn poll(
     }
 }
 
+// When overdue, only what has arrived already is waited for.
+async fn next_packet(
+    mqtt_read: &mut FramedRead<OwnedReadHalf, mqtt_codec::MqttCodec>,
+    overdue: bool,
+) -> Option<IOResult<protocol::Packet>> {
+    let mut yielded = false;
+    poll_fn(|cx| match mqtt_read.poll_next_unpin(cx) {
+        Poll::Pending if overdue && yielded => {
+            let e = IOError::new(ErrorKind::TimedOut, "PingResp timed out");
+            Poll::Ready(Some(Err(e)))
+        }
+        Poll::Pending if overdue => {
+            // tokio makes a busy task pause even if there is something to read
+            yielded = true;
+            cx.waker().wake_by_ref();
+            Poll::Pending
+        }
+        x => x,
+    })
+    .await
+}
+
 pub(crate) enum Command {
     Publish {
         topic: String,
-- 
2.43.0


From 3cf7c88bb09e88cac780160c927c3a6e2453f754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:49 +0000
Subject: [PATCH 19/20] fix: a server that stops reading is given up after a
 keep-alive interval

A write that blocked stopped keep-alive as well: with a dead server and a full
send buffer the event loop waited for ever.
---
 src/lib.rs | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 6f79497..b3c144e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -29,6 +29,9 @@ pub use crate::protocol::QoS;
 // how long to wait for the server to close the connection after a DISCONNECT was sent
 const LINGER: Duration = Duration::from_secs(8);
 
+// a server that accepts nothing for this long is as dead as one that does not answer pings
+const WRITE_TIMEOUT: Duration = Duration::from_secs(8);
+
 pub trait TCPConnectFuture: Future<Output = IOResult<TcpStream>> + Send {}
 
 impl<T> TCPConnectFuture for T where T: Future<Output = IOResult<TcpStream>> + Send {}
@@ -200,7 +203,7 @@ async fn poll(
                     continue;
                 }
                 let pkt = protocol::PingReq::new();
-                mqtt_write.send(protocol::Packet::PingReq(pkt)).await?;
+                send(&mut mqtt_write, protocol::Packet::PingReq(pkt)).await?;
                 pingresp_received = Some(false);
             }
             req = next_packet(&mut mqtt_read, overdue) => {
@@ -249,7 +252,7 @@ async fn poll(
                                     QoS::AtMostOnce => {},
                                     QoS::AtLeastOnce => {
                                         let pkt = protocol::Puback::new(m.pktid().unwrap());
-                                        mqtt_write.send(protocol::Packet::PubAck(pkt)).await?;
+                                        send(&mut mqtt_write, protocol::Packet::PubAck(pkt)).await?;
                                     }
                                     QoS::ExactlyOnce => {
                                         // TODO: send pubrec
@@ -310,7 +313,7 @@ async fn poll(
                                     }
                                 }
                             };
-                            mqtt_write.send(protocol::Packet::Publish(pkt)).await?;
+                            send(&mut mqtt_write, protocol::Packet::Publish(pkt)).await?;
                         }
                         Command::Subscribe(topic, qos) => {
                             let pkt = match pktids.next_id() {
@@ -320,7 +323,7 @@ async fn poll(
                                 }
                                 None => unreachable!("vacant packet id was checked above"),
                             };
-                            mqtt_write.send(protocol::Packet::Subscribe(pkt)).await?;
+                            send(&mut mqtt_write, protocol::Packet::Subscribe(pkt)).await?;
                         }
                         Command::Unsubscribe(topics) => {
                             let pkt = match pktids.next_id() {
@@ -330,13 +333,13 @@ async fn poll(
                                 }
                                 None => unreachable!("vacant packet id was checked above"),
                             };
-                            mqtt_write.send(protocol::Packet::Unsubscribe(pkt)).await?;
+                            send(&mut mqtt_write, protocol::Packet::Unsubscribe(pkt)).await?;
                         }
                         Command::Disconnect => {
                             let pkt = protocol::Disconnect::new();
                             // nothing follows a DISCONNECT, refuse further commands
                             commands_rx.close();
-                            mqtt_write.send(protocol::Packet::Disconnect(pkt)).await?;
+                            send(&mut mqtt_write, protocol::Packet::Disconnect(pkt)).await?;
                             // Closing a socket with unread data resets the connection, which loses
                             // what the server has not read yet: let the server close first.
                             let _ = mqtt_write.get_mut().shutdown().await;
@@ -353,6 +356,24 @@ async fn poll(
     }
 }
 
+// Gives up when not a single byte could be written for a while.
+async fn send(
+    mqtt_write: &mut FramedWrite<OwnedWriteHalf, mqtt_codec::MqttCodec>,
+    pkt: protocol::Packet,
+) -> IOResult<()> {
+    mqtt_write.feed(pkt).await?;
+    loop {
+        let unsent = mqtt_write.write_buffer().len();
+        match tokio::time::timeout(WRITE_TIMEOUT, mqtt_write.flush()).await {
+            Ok(result) => return result,
+            Err(_) if mqtt_write.write_buffer().len() == unsent => {
+                return Err(IOError::new(ErrorKind::TimedOut, "Write timed out"));
+            }
+            Err(_) => {}
+        }
+    }
+}
+
 // When overdue, only what has arrived already is waited for.
 async fn next_packet(
     mqtt_read: &mut FramedRead<OwnedReadHalf, mqtt_codec::MqttCodec>,
-- 
2.43.0


From c2a1cf1dada7952a7bad4222b10eb5c9533fb541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:09 +0000
Subject: [PATCH 20/20] fix: no ping timeout while the response is stuck behind
 what was not read

When the application reads its notifications slowly the TCP window closes, and the
PINGRESP may not even have been sent to us when the loop gets to read again. Ask again
and wait for another interval if the loop was held up. A busy task (tokio's cooperative
budget) is no longer taken for an empty connection.
---
 src/lib.rs | 52 +++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 37 insertions(+), 15 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index b3c144e..aab1794 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -29,6 +29,9 @@ pub use crate::protocol::QoS;
 // how long to wait for the server to close the connection after a DISCONNECT was sent
 const LINGER: Duration = Duration::from_secs(8);
 
+// time not spent reading after which a PINGRESP is no longer expected to have been read
+const HELD_UP: Duration = Duration::from_millis(100);
+
 // a server that accepts nothing for this long is as dead as one that does not answer pings
 const WRITE_TIMEOUT: Duration = Duration::from_secs(8);
 
@@ -178,9 +181,12 @@ async fn poll(
     );
     // every ping gets a whole interval to be answered, also after missed ticks
     ping.set_missed_tick_behavior(MissedTickBehavior::Delay);
-    let mut pingresp_received = None;
+    let mut unanswered = false;
     // the answer to the last ping is due, it may be among what has not been read yet
     let mut overdue = false;
+    // how long the application or a slow write kept us from reading since the last ping
+    let mut held_up = Duration::from_secs(0);
+    let mut busy_since = Instant::now();
 
     let mut pktids = pktids::PktIds::new();
     // todo: on conversion from future<output = connection_result> to stream<item = connection_result>
@@ -192,21 +198,32 @@ async fn poll(
     let mut stalled: Option<Command> = None;
 
     loop {
+        held_up += busy_since.elapsed();
         let take_command = match stalled {
             Some(_) => pktids.has_vacant(),
             None => !commands_rx.is_terminated(),
         };
         tokio::select! {
-            _ = ping.tick(), if !overdue => {
-                if pingresp_received == Some(false) {
+            due = ping.tick() => {
+                busy_since = Instant::now();
+                held_up += due.elapsed();
+                // If we were held up the answer may be stuck behind what we did not read, maybe not
+                // even sent yet for want of a TCP window: ask again and wait for another interval.
+                if unanswered && held_up < HELD_UP {
+                    if overdue {
+                        return Err(IOError::new(ErrorKind::TimedOut, "PingResp timed out"));
+                    }
                     overdue = true;
                     continue;
                 }
+                overdue = false;
+                held_up = Duration::from_secs(0);
                 let pkt = protocol::PingReq::new();
                 send(&mut mqtt_write, protocol::Packet::PingReq(pkt)).await?;
-                pingresp_received = Some(false);
+                unanswered = true;
             }
-            req = next_packet(&mut mqtt_read, overdue) => {
+            req = next_packet(&mut mqtt_read, overdue && held_up < HELD_UP) => {
+                busy_since = Instant::now();
                 info!("Incoming req: {:?}", req);
                 match req {
                     Some(Ok(x)) => {
@@ -222,7 +239,7 @@ async fn poll(
                                 }
                             },
                             protocol::Packet::PingResp(_) => {
-                                pingresp_received = Some(true);
+                                unanswered = false;
                                 if std::mem::take(&mut overdue) {
                                     ping.reset_immediately();
                                 }
@@ -286,6 +303,7 @@ async fn poll(
                     None => commands_rx.next().await,
                 }
             }, if take_command => {
+                busy_since = Instant::now();
                 match cmd {
                     Some(x) if x.needs_pktid() && !pktids.has_vacant() => {
                         stalled = Some(x);
@@ -379,17 +397,21 @@ async fn next_packet(
     mqtt_read: &mut FramedRead<OwnedReadHalf, mqtt_codec::MqttCodec>,
     overdue: bool,
 ) -> Option<IOResult<protocol::Packet>> {
-    let mut yielded = false;
     poll_fn(|cx| match mqtt_read.poll_next_unpin(cx) {
-        Poll::Pending if overdue && yielded => {
-            let e = IOError::new(ErrorKind::TimedOut, "PingResp timed out");
-            Poll::Ready(Some(Err(e)))
-        }
         Poll::Pending if overdue => {
-            // tokio makes a busy task pause even if there is something to read
-            yielded = true;
-            cx.waker().wake_by_ref();
-            Poll::Pending
+            let socket: &TcpStream = mqtt_read.get_ref().as_ref();
+            match socket.try_read(&mut []) {
+                // tokio makes a busy task pause even if there is something to read
+                Ok(_) => {
+                    cx.waker().wake_by_ref();
+                    Poll::Pending
+                }
+                Err(e) if e.kind() == ErrorKind::WouldBlock => {
+                    let e = IOError::new(ErrorKind::TimedOut, "PingResp timed out");
+                    Poll::Ready(Some(Err(e)))
+                }
+                Err(e) => Poll::Ready(Some(Err(e))),
+            }
         }
         x => x,
     })
-- 
2.43.0

