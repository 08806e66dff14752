From e4916bea60a7763f46b79a45e0726dfd361b6037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:07 +0000
Subject: [PATCH 01/38] fix: value allocator answers not-used outside its range
 and ignores double release

---
 src/mqtt/common/value_allocator.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/mqtt/common/value_allocator.rs b/src/mqtt/common/value_allocator.rs
index 7c22238..fb84262 100644
--- a/src/mqtt/common/value_allocator.rs
+++ b/src/mqtt/common/value_allocator.rs
@@ -118,6 +118,11 @@ where
     pub fn deallocate(&mut self, value: T) {
         assert!(self.lowest <= value && value <= self.highest);
 
+        // Releasing a value that is already free changes nothing.
+        if self.pool.contains(&ValueInterval::new_single(value)) {
+            return;
+        }
+
         let right = self
             .pool
             .range(ValueInterval::new_single(value)..)
@@ -167,7 +172,9 @@ where
     }
 
     pub fn is_used(&self, value: T) -> bool {
-        !self.pool.iter().any(|iv| iv.contains(value))
+        self.lowest <= value
+            && value <= self.highest
+            && !self.pool.iter().any(|iv| iv.contains(value))
     }
 
     pub fn clear(&mut self) {
-- 
2.43.0


From 61474e9125c8128d25ca1eed9c4aefd76d9b3c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:23 +0000
Subject: [PATCH 02/38] fix: connection-scoped state survived notify_closed
 into the next connection

---
 src/mqtt/connection/core.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index 75f227e..63c4724 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -735,6 +735,20 @@ where
         self.topic_alias_send = None;
         self.topic_alias_recv = None;
 
+        // Discard a partially received packet
+        self.packet_builder.reset();
+
+        // Clear flow control
+        self.publish_send_max = None;
+        self.publish_recv_max = None;
+        self.publish_send_count = 0;
+        self.publish_recv.clear();
+
+        // Clear keep alive
+        self.pingreq_keep_alive_ms = 0;
+        self.pingreq_server_keep_alive_ms = None;
+        self.pingreq_recv_timeout_ms = 0;
+
         // Release packet IDs for SUBACK
         for packet_id in self.pid_suback.drain() {
             if self.pid_man.is_used_id(packet_id) {
@@ -1226,6 +1240,7 @@ where
         self.is_client = is_client;
         self.pingreq_keep_alive_ms = 0;
         self.pingreq_server_keep_alive_ms = None;
+        self.pingreq_recv_timeout_ms = 0;
     }
 
     fn clear_store_related(&mut self) {
-- 
2.43.0


From ec62a6b68f30de17094fbd6a0719108634a6aa3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:41 +0000
Subject: [PATCH 03/38] fix: closing a non-persistent session left its packets
 in the store

---
 src/mqtt/connection/core.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index 63c4724..68057ed 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -768,6 +768,7 @@ where
         // If not storing session state, clear QoS2 states and release publish-related packet IDs
         if !self.need_store {
             self.qos2_publish_handled.clear();
+            self.store.clear();
 
             // Release packet IDs for PUBACK
             for packet_id in self.pid_puback.drain() {
-- 
2.43.0


From 14a209f948ae7e39a6278b17c0bed1e8ac2a4ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:41 +0000
Subject: [PATCH 04/38] fix: QoS2 handled identifiers survived the start of a
 new session

---
 src/mqtt/connection/core.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index 68057ed..c50ce35 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -1250,6 +1250,7 @@ where
         self.pid_pubrec.clear();
         self.pid_pubcomp.clear();
         self.store.clear();
+        self.qos2_publish_handled.clear();
     }
 
     /// Send all stored packets for retransmission
-- 
2.43.0


From f07fe7b4df5d6b2b89a1667f0b3952611e98c7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:14 +0000
Subject: [PATCH 05/38] fix: CONNACK on an established connection is a protocol
 error

---
 src/mqtt/connection/core.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index c50ce35..c3b1e8c 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -2680,6 +2680,11 @@ where
     ) -> Vec<GenericEvent<PacketIdType>> {
         let mut events = Vec::new();
 
+        if self.status == ConnectionStatus::Connected {
+            Self::handle_v3_1_1_error(MqttError::ProtocolError, &mut events);
+            return events;
+        }
+
         match v3_1_1::Connack::parse(raw_packet.data_as_slice()) {
             Ok((packet, _consumed)) => {
                 if packet.return_code() == ConnectReturnCode::Accepted {
@@ -2708,6 +2713,11 @@ where
     ) -> Vec<GenericEvent<PacketIdType>> {
         let mut events = Vec::new();
 
+        if self.status == ConnectionStatus::Connected {
+            self.handle_v5_0_error(MqttError::ProtocolError, &mut events);
+            return events;
+        }
+
         match v5_0::Connack::parse(raw_packet.data_as_slice()) {
             Ok((packet, _consumed)) => {
                 if packet.reason_code() == ConnectReasonCode::Success {
-- 
2.43.0


From a228873d360d0c66e493068a6db4077f4ebc3098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:40 +0000
Subject: [PATCH 06/38] fix: server kept the old session when it sent CONNACK
 without session present

---
 src/mqtt/connection/core.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index c3b1e8c..9ccee47 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -1428,6 +1428,7 @@ where
         }
         let mut events = Vec::new();
         let rc = packet.return_code();
+        let session_present = packet.session_present();
         events.push(GenericEvent::RequestSendPacket {
             packet: packet.into(),
             release_packet_id_if_send_error: None,
@@ -1440,7 +1441,11 @@ where
         }
 
         self.status = ConnectionStatus::Connected;
-        events.extend(self.send_stored());
+        if session_present {
+            events.extend(self.send_stored());
+        } else {
+            self.clear_store_related();
+        }
         self.send_post_process(&mut events);
 
         events
@@ -1460,6 +1465,7 @@ where
 
         let mut events = Vec::new();
         let rc = packet.reason_code();
+        let session_present = packet.session_present();
         if rc == ConnectReasonCode::Success {
             // Process properties
             for prop in packet.props() {
@@ -1515,7 +1521,11 @@ where
 
         self.status = ConnectionStatus::Connected;
 
-        events.extend(self.send_stored());
+        if session_present {
+            events.extend(self.send_stored());
+        } else {
+            self.clear_store_related();
+        }
         self.send_post_process(&mut events);
 
         events
-- 
2.43.0


From 9051c72af6271ae1ba010dcf8654355bb7292d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:32 +0000
Subject: [PATCH 07/38] fix: stored packet dropped as oversize left its
 acknowledgement pending

---
 src/mqtt/connection/core.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index 9ccee47..65bbdbb 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -1259,8 +1259,13 @@ where
         self.store.for_each(|packet| {
             if packet.size() > self.maximum_packet_size_send as usize {
                 let packet_id = packet.packet_id();
-                self.pid_man.release_id(packet_id);
-                events.push(GenericEvent::NotifyPacketIdReleased(packet_id));
+                self.pid_puback.remove(&packet_id);
+                self.pid_pubrec.remove(&packet_id);
+                self.pid_pubcomp.remove(&packet_id);
+                if self.pid_man.is_used_id(packet_id) {
+                    self.pid_man.release_id(packet_id);
+                    events.push(GenericEvent::NotifyPacketIdReleased(packet_id));
+                }
                 return false; // Remove from store
             }
             events.push(GenericEvent::RequestSendPacket {
-- 
2.43.0


From 404d45e6dac3ad792276d84c2ae14bfc5697db9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:32 +0000
Subject: [PATCH 08/38] fix: CONNECT with Topic Alias Maximum 0 panicked the
 server

---
 src/mqtt/connection/core.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index 65bbdbb..8d164a9 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -2647,7 +2647,7 @@ where
                     self.clear_store_related();
                 }
                 packet.props().iter().for_each(|prop| match prop {
-                    Property::TopicAliasMaximum(p) => {
+                    Property::TopicAliasMaximum(p) if p.val() != 0 => {
                         self.topic_alias_send = Some(TopicAliasSend::new(p.val()));
                     }
                     Property::ReceiveMaximum(p) => {
-- 
2.43.0


From 698817e10298ede3258bbaa5fe8bd2e50169c90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:14 +0000
Subject: [PATCH 09/38] fix: client did not re-arm the PINGREQ timer when it
 retransmitted stored packets

---
 src/mqtt/connection/core.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index 8d164a9..b3a3728 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -2705,7 +2705,11 @@ where
                 if packet.return_code() == ConnectReturnCode::Accepted {
                     self.status = ConnectionStatus::Connected;
                     if packet.session_present() {
-                        events.extend(self.send_stored());
+                        let stored_events = self.send_stored();
+                        if !stored_events.is_empty() {
+                            events.extend(stored_events);
+                            self.send_post_process(&mut events);
+                        }
                     } else {
                         self.clear_store_related();
                     }
@@ -2790,7 +2794,11 @@ where
                     }
 
                     if packet.session_present() {
-                        events.extend(self.send_stored());
+                        let stored_events = self.send_stored();
+                        if !stored_events.is_empty() {
+                            events.extend(stored_events);
+                            self.send_post_process(&mut events);
+                        }
                     } else {
                         self.clear_store_related();
                     }
-- 
2.43.0


From 388be82ea56c2621839a89cf412d71933e6a7a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:49 +0000
Subject: [PATCH 10/38] fix: QoS>0 PUBLISH accepted while disconnected was
 silently dropped when it could not be stored

---
 src/mqtt/connection/core.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index b3a3728..826f225 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -1547,8 +1547,8 @@ where
             // Register packet ID for QoS 1 or 2
             let packet_id = packet.packet_id().unwrap();
             if self.status != ConnectionStatus::Connected
-                && !self.need_store
-                && !self.offline_publish
+                && !(self.need_store
+                    && (self.status != ConnectionStatus::Disconnected || self.offline_publish))
             {
                 events.push(GenericEvent::NotifyError(MqttError::PacketNotAllowedToSend));
                 if self.pid_man.is_used_id(packet_id) {
@@ -1607,8 +1607,8 @@ where
         if packet.qos() == Qos::AtLeastOnce || packet.qos() == Qos::ExactlyOnce {
             let packet_id = packet.packet_id().unwrap();
             if self.status != ConnectionStatus::Connected
-                && !self.need_store
-                && !self.offline_publish
+                && !(self.need_store
+                    && (self.status != ConnectionStatus::Disconnected || self.offline_publish))
             {
                 events.push(GenericEvent::NotifyError(MqttError::PacketNotAllowedToSend));
                 if self.pid_man.is_used_id(packet_id) {
-- 
2.43.0


From 5ca4c59f80b7d795b38e8e97cf14a68f33092174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:43 +0000
Subject: [PATCH 11/38] fix: PUBLISH refused by Receive Maximum had already
 changed the topic alias table

---
 src/mqtt/connection/core.rs | 34 +++++++++++++++-------------------
 1 file changed, 15 insertions(+), 19 deletions(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index 826f225..9e8b1b7 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -1627,6 +1627,18 @@ where
                 return events;
             }
 
+            // Check receive_maximum for sending (QoS 1 and 2 packets)
+            if self.status == ConnectionStatus::Connected {
+                if let Some(max) = self.publish_send_max {
+                    if self.publish_send_count >= max {
+                        events.push(GenericEvent::NotifyError(MqttError::ReceiveMaximumExceeded));
+                        self.pid_man.release_id(packet_id);
+                        events.push(GenericEvent::NotifyPacketIdReleased(packet_id));
+                        return events;
+                    }
+                }
+            }
+
             if self.need_store
                 && (self.status != ConnectionStatus::Disconnected || self.offline_publish)
             {
@@ -1739,27 +1751,11 @@ where
             }
         }
 
-        // Check receive_maximum for sending (QoS 1 and 2 packets)
-        if packet.qos() == Qos::AtLeastOnce || packet.qos() == Qos::ExactlyOnce {
-            if let Some(max) = self.publish_send_max {
-                if self.publish_send_count == max {
-                    events.push(GenericEvent::NotifyError(MqttError::ReceiveMaximumExceeded));
-                    if let Some(packet_id) = packet_id_opt {
-                        if self.pid_man.is_used_id(packet_id) {
-                            self.pid_man.release_id(packet_id);
-                            self.store.erase_publish(packet_id);
-                            self.pid_puback.remove(&packet_id);
-                            self.pid_pubrec.remove(&packet_id);
-                            events.push(GenericEvent::NotifyPacketIdReleased(packet_id));
-                        }
-                    }
-                    return events;
-                }
+        if self.status == ConnectionStatus::Connected {
+            // Count the exchange for flow control (QoS 1 and 2 packets)
+            if packet_id_opt.is_some() && self.publish_send_max.is_some() {
                 self.publish_send_count += 1;
             }
-        }
-
-        if self.status == ConnectionStatus::Connected {
             events.push(GenericEvent::RequestSendPacket {
                 packet: packet.into(),
                 release_packet_id_if_send_error,
-- 
2.43.0


From e52db1e297930a6885567bf7db284f1ad5837fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:43 +0000
Subject: [PATCH 12/38] fix: topic alias was bound by a PUBLISH that is only
 stored, not sent

---
 src/mqtt/connection/core.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index 9e8b1b7..ff5a833 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -1704,8 +1704,10 @@ where
                     packet.topic_name(),
                     ta
                 );
-                if let Some(ref mut topic_alias_send) = self.topic_alias_send {
-                    topic_alias_send.insert_or_update(packet.topic_name(), ta);
+                if self.status == ConnectionStatus::Connected {
+                    if let Some(ref mut topic_alias_send) = self.topic_alias_send {
+                        topic_alias_send.insert_or_update(packet.topic_name(), ta);
+                    }
                 }
             } else {
                 events.push(GenericEvent::NotifyError(MqttError::PacketNotAllowedToSend));
-- 
2.43.0


From fd269e616b6260b8465783ad00613e2555951d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:47 +0000
Subject: [PATCH 13/38] fix: retransmitted packets were not counted against
 Receive Maximum and underflowed the counter

---
 src/mqtt/connection/core.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index ff5a833..9e3fdfa 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -1256,6 +1256,7 @@ where
     /// Send all stored packets for retransmission
     fn send_stored(&mut self) -> Vec<GenericEvent<PacketIdType>> {
         let mut events = Vec::new();
+        let mut resent_count: u16 = 0;
         self.store.for_each(|packet| {
             if packet.size() > self.maximum_packet_size_send as usize {
                 let packet_id = packet.packet_id();
@@ -1272,8 +1273,11 @@ where
                 packet: packet.clone().into(),
                 release_packet_id_if_send_error: None,
             });
+            resent_count = resent_count.saturating_add(1);
             true // Keep in store
         });
+        // Retransmitted packets are in flight on this connection
+        self.publish_send_count = resent_count;
 
         events
     }
@@ -3091,7 +3095,7 @@ where
                         events.push(GenericEvent::NotifyPacketIdReleased(packet_id));
                     }
                     if self.publish_send_max.is_some() {
-                        self.publish_send_count -= 1;
+                        self.publish_send_count = self.publish_send_count.saturating_sub(1);
                     }
                     events.extend(self.refresh_pingreq_recv());
                     events.push(GenericEvent::NotifyPacketReceived(packet.into()));
@@ -3165,7 +3169,7 @@ where
                             events.push(GenericEvent::NotifyPacketIdReleased(packet_id));
                         }
                         if self.publish_send_max.is_some() {
-                            self.publish_send_count -= 1;
+                            self.publish_send_count = self.publish_send_count.saturating_sub(1);
                         }
                     }
                     events.extend(self.refresh_pingreq_recv());
@@ -3295,7 +3299,7 @@ where
                         events.push(GenericEvent::NotifyPacketIdReleased(packet_id));
                     }
                     if self.publish_send_max.is_some() {
-                        self.publish_send_count -= 1;
+                        self.publish_send_count = self.publish_send_count.saturating_sub(1);
                     }
                     events.extend(self.refresh_pingreq_recv());
                     events.push(GenericEvent::NotifyPacketReceived(packet.into()));
-- 
2.43.0


From e029d9278d6b68938b25a643bb51e42311dc3c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:47 +0000
Subject: [PATCH 14/38] fix: PUBREL queued while not connected armed a timer
 and its PUBCOMP was rejected

---
 src/mqtt/connection/core.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index 9e3fdfa..e17aaf8 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -1881,14 +1881,15 @@ where
             self.store.add(packet.clone().try_into().unwrap()).unwrap();
         }
 
+        self.pid_pubcomp.insert(packet_id);
+
         if self.status == ConnectionStatus::Connected {
-            self.pid_pubcomp.insert(packet_id);
             events.push(GenericEvent::RequestSendPacket {
                 packet: packet.into(),
                 release_packet_id_if_send_error: None,
             });
+            self.send_post_process(&mut events);
         }
-        self.send_post_process(&mut events);
 
         events
     }
@@ -1917,14 +1918,15 @@ where
             self.store.add(packet.clone().try_into().unwrap()).unwrap();
         }
 
+        self.pid_pubcomp.insert(packet_id);
+
         if self.status == ConnectionStatus::Connected {
-            self.pid_pubcomp.insert(packet_id);
             events.push(GenericEvent::RequestSendPacket {
                 packet: packet.into(),
                 release_packet_id_if_send_error: None,
             });
+            self.send_post_process(&mut events);
         }
-        self.send_post_process(&mut events);
 
         events
     }
-- 
2.43.0


From 3371e1ac8ac775cd47dc17928b513a082f21a0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:47 +0000
Subject: [PATCH 15/38] fix: PUBREC processed while not connected dropped the
 message without storing its PUBREL

---
 src/mqtt/connection/core.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index e17aaf8..ede3072 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -3124,7 +3124,9 @@ where
                 let packet_id = packet.packet_id();
                 if self.pid_pubrec.remove(&packet_id) {
                     self.store.erase(ResponsePacket::V3_1_1Pubrec, packet_id);
-                    if self.auto_pub_response && self.status == ConnectionStatus::Connected {
+                    if self.auto_pub_response
+                        && (self.status == ConnectionStatus::Connected || self.need_store)
+                    {
                         let pubrel = v3_1_1::GenericPubrel::<PacketIdType>::builder()
                             .packet_id(packet_id)
                             .build()
@@ -3158,7 +3160,9 @@ where
                     self.store.erase(ResponsePacket::V5_0Pubrec, packet_id);
                     let reason_code = packet.reason_code();
                     if reason_code.is_none() || reason_code.unwrap() == PubrecReasonCode::Success {
-                        if self.auto_pub_response && self.status == ConnectionStatus::Connected {
+                        if self.auto_pub_response
+                            && (self.status == ConnectionStatus::Connected || self.need_store)
+                        {
                             let pubrel = v5_0::GenericPubrel::<PacketIdType>::builder()
                                 .packet_id(packet_id)
                                 .build()
-- 
2.43.0


From 780780f4d909736956a0f72e1718b7b64187657b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:34 +0000
Subject: [PATCH 16/38] fix: PUBREC with a non-failure reason code was handled
 as a refusal

---
 src/mqtt/connection/core.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index ede3072..33f37a7 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -61,7 +61,7 @@ use crate::mqtt::packet::ResponsePacket;
 use crate::mqtt::packet::{Property, TopicAliasRecv, TopicAliasSend};
 use crate::mqtt::prelude::GenericPacketTrait;
 use crate::mqtt::result_code::{
-    ConnectReasonCode, ConnectReturnCode, DisconnectReasonCode, MqttError, PubrecReasonCode,
+    ConnectReasonCode, ConnectReturnCode, DisconnectReasonCode, MqttError,
 };
 
 /// MQTT protocol maximum packet size limit
@@ -3159,7 +3159,7 @@ where
                 if self.pid_pubrec.remove(&packet_id) {
                     self.store.erase(ResponsePacket::V5_0Pubrec, packet_id);
                     let reason_code = packet.reason_code();
-                    if reason_code.is_none() || reason_code.unwrap() == PubrecReasonCode::Success {
+                    if !reason_code.is_some_and(|rc| rc.is_failure()) {
                         if self.auto_pub_response
                             && (self.status == ConnectionStatus::Connected || self.need_store)
                         {
-- 
2.43.0


From 106b76da79c72945aa4864aa8ca951123468c91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:20 +0000
Subject: [PATCH 17/38] fix: identifier leaked when the connection closed
 between PUBREC and PUBREL

---
 src/mqtt/connection/core.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index 33f37a7..77da0a3 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -151,6 +151,8 @@ where
     pid_puback: HashSet<PacketIdType>,
     pid_pubrec: HashSet<PacketIdType>,
     pid_pubcomp: HashSet<PacketIdType>,
+    // PUBREC has been received, PUBREL has not been sent yet
+    pid_pubrel: HashSet<PacketIdType>,
 
     need_store: bool,
     // Store for retransmission packets
@@ -261,6 +263,7 @@ where
             pid_puback: HashSet::default(),
             pid_pubrec: HashSet::default(),
             pid_pubcomp: HashSet::default(),
+            pid_pubrel: HashSet::default(),
             need_store: false,
             store: GenericStore::new(),
             offline_publish: false,
@@ -793,6 +796,14 @@ where
                     events.push(GenericEvent::NotifyPacketIdReleased(packet_id));
                 }
             }
+
+            // Release packet IDs whose PUBREL has not been sent
+            for packet_id in self.pid_pubrel.drain() {
+                if self.pid_man.is_used_id(packet_id) {
+                    self.pid_man.release_id(packet_id);
+                    events.push(GenericEvent::NotifyPacketIdReleased(packet_id));
+                }
+            }
         }
 
         // Cancel all timers
@@ -1249,6 +1260,7 @@ where
         self.pid_puback.clear();
         self.pid_pubrec.clear();
         self.pid_pubcomp.clear();
+        self.pid_pubrel.clear();
         self.store.clear();
         self.qos2_publish_handled.clear();
     }
@@ -1256,7 +1268,7 @@ where
     /// Send all stored packets for retransmission
     fn send_stored(&mut self) -> Vec<GenericEvent<PacketIdType>> {
         let mut events = Vec::new();
-        let mut resent_count: u16 = 0;
+        let mut resent_count = u16::try_from(self.pid_pubrel.len()).unwrap_or(u16::MAX);
         self.store.for_each(|packet| {
             if packet.size() > self.maximum_packet_size_send as usize {
                 let packet_id = packet.packet_id();
@@ -1276,7 +1288,7 @@ where
             resent_count = resent_count.saturating_add(1);
             true // Keep in store
         });
-        // Retransmitted packets are in flight on this connection
+        // Retransmitted packets and exchanges waiting for PUBREL are in flight on this connection
         self.publish_send_count = resent_count;
 
         events
@@ -1881,6 +1893,7 @@ where
             self.store.add(packet.clone().try_into().unwrap()).unwrap();
         }
 
+        self.pid_pubrel.remove(&packet_id);
         self.pid_pubcomp.insert(packet_id);
 
         if self.status == ConnectionStatus::Connected {
@@ -1918,6 +1931,7 @@ where
             self.store.add(packet.clone().try_into().unwrap()).unwrap();
         }
 
+        self.pid_pubrel.remove(&packet_id);
         self.pid_pubcomp.insert(packet_id);
 
         if self.status == ConnectionStatus::Connected {
@@ -3124,6 +3138,7 @@ where
                 let packet_id = packet.packet_id();
                 if self.pid_pubrec.remove(&packet_id) {
                     self.store.erase(ResponsePacket::V3_1_1Pubrec, packet_id);
+                    self.pid_pubrel.insert(packet_id);
                     if self.auto_pub_response
                         && (self.status == ConnectionStatus::Connected || self.need_store)
                     {
@@ -3160,6 +3175,7 @@ where
                     self.store.erase(ResponsePacket::V5_0Pubrec, packet_id);
                     let reason_code = packet.reason_code();
                     if !reason_code.is_some_and(|rc| rc.is_failure()) {
+                        self.pid_pubrel.insert(packet_id);
                         if self.auto_pub_response
                             && (self.status == ConnectionStatus::Connected || self.need_store)
                         {
-- 
2.43.0


From c9c8d64c7a65c444f775c664f8ef4535ed58b806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:28 +0000
Subject: [PATCH 18/38] fix: identifier of a send refused for size, role or
 version was not released

---
 src/mqtt/connection/core.rs            | 38 ++++++++++++++++++++------
 src/mqtt/connection/sendable.rs        |  8 +++++-
 src/mqtt/connection/sendable_helper.rs | 35 ++++++++++++++----------
 3 files changed, 57 insertions(+), 24 deletions(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index 77da0a3..73cc0d9 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -399,7 +399,16 @@ where
 
         // Return error if versions don't match
         if self.protocol_version != packet_version {
-            return vec![GenericEvent::NotifyError(MqttError::VersionMismatch)];
+            let packet_id = match &packet {
+                GenericPacket::V3_1_1Publish(p) => p.packet_id(),
+                GenericPacket::V5_0Publish(p) => p.packet_id(),
+                GenericPacket::V3_1_1Subscribe(p) => Some(p.packet_id()),
+                GenericPacket::V5_0Subscribe(p) => Some(p.packet_id()),
+                GenericPacket::V3_1_1Unsubscribe(p) => Some(p.packet_id()),
+                GenericPacket::V5_0Unsubscribe(p) => Some(p.packet_id()),
+                _ => None,
+            };
+            return self.refuse_send(MqttError::VersionMismatch, packet_id);
         }
 
         match packet {
@@ -450,28 +459,28 @@ where
                 if role_id == client_id || role_id == any_id {
                     self.process_send_v3_1_1_subscribe(p)
                 } else {
-                    vec![GenericEvent::NotifyError(MqttError::PacketNotAllowedToSend)]
+                    self.refuse_send(MqttError::PacketNotAllowedToSend, Some(p.packet_id()))
                 }
             }
             GenericPacket::V5_0Subscribe(p) => {
                 if role_id == client_id || role_id == any_id {
                     self.process_send_v5_0_subscribe(p)
                 } else {
-                    vec![GenericEvent::NotifyError(MqttError::PacketNotAllowedToSend)]
+                    self.refuse_send(MqttError::PacketNotAllowedToSend, Some(p.packet_id()))
                 }
             }
             GenericPacket::V3_1_1Unsubscribe(p) => {
                 if role_id == client_id || role_id == any_id {
                     self.process_send_v3_1_1_unsubscribe(p)
                 } else {
-                    vec![GenericEvent::NotifyError(MqttError::PacketNotAllowedToSend)]
+                    self.refuse_send(MqttError::PacketNotAllowedToSend, Some(p.packet_id()))
                 }
             }
             GenericPacket::V5_0Unsubscribe(p) => {
                 if role_id == client_id || role_id == any_id {
                     self.process_send_v5_0_unsubscribe(p)
                 } else {
-                    vec![GenericEvent::NotifyError(MqttError::PacketNotAllowedToSend)]
+                    self.refuse_send(MqttError::PacketNotAllowedToSend, Some(p.packet_id()))
                 }
             }
             // SUBACK/UNSUBACK - Server/Any can send
@@ -1614,7 +1623,7 @@ where
         mut packet: v5_0::GenericPublish<PacketIdType>,
     ) -> Vec<GenericEvent<PacketIdType>> {
         if !self.validate_maximum_packet_size_send(packet.size()) {
-            return vec![GenericEvent::NotifyError(MqttError::PacketTooLarge)];
+            return self.refuse_send(MqttError::PacketTooLarge, packet.packet_id());
         }
 
         let mut events = Vec::new();
@@ -2023,7 +2032,7 @@ where
         packet: v5_0::GenericSubscribe<PacketIdType>,
     ) -> Vec<GenericEvent<PacketIdType>> {
         if !self.validate_maximum_packet_size_send(packet.size()) {
-            return vec![GenericEvent::NotifyError(MqttError::PacketTooLarge)];
+            return self.refuse_send(MqttError::PacketTooLarge, Some(packet.packet_id()));
         }
 
         let mut events = Vec::new();
@@ -2129,7 +2138,7 @@ where
         packet: v5_0::GenericUnsubscribe<PacketIdType>,
     ) -> Vec<GenericEvent<PacketIdType>> {
         if !self.validate_maximum_packet_size_send(packet.size()) {
-            return vec![GenericEvent::NotifyError(MqttError::PacketTooLarge)];
+            return self.refuse_send(MqttError::PacketTooLarge, Some(packet.packet_id()));
         }
 
         let mut events = Vec::new();
@@ -2372,6 +2381,19 @@ where
         }
     }
 
+    /// Refuse a send: report the error and release the packet identifier owned by the packet
+    pub(crate) fn refuse_send(
+        &mut self,
+        error: MqttError,
+        packet_id: Option<PacketIdType>,
+    ) -> Vec<GenericEvent<PacketIdType>> {
+        let mut events = vec![GenericEvent::NotifyError(error)];
+        if let Some(packet_id) = packet_id {
+            events.extend(self.release_packet_id(packet_id));
+        }
+        events
+    }
+
     fn validate_maximum_packet_size_send(&self, size: usize) -> bool {
         if size > self.maximum_packet_size_send as usize {
             error!("packet size over maximum_packet_size for sending");
diff --git a/src/mqtt/connection/sendable.rs b/src/mqtt/connection/sendable.rs
index 921c635..7db24e5 100644
--- a/src/mqtt/connection/sendable.rs
+++ b/src/mqtt/connection/sendable.rs
@@ -63,6 +63,11 @@ where
     Role: RoleType,
     PacketIdType: IsPacketId,
 {
+    /// Packet identifier that is released when sending this packet is refused
+    fn owned_packet_id(&self) -> Option<PacketIdType> {
+        None
+    }
+
     // v3.1.1 methods
     fn send_connect_v3_1_1(
         self,
@@ -287,7 +292,8 @@ where
     ) -> Vec<GenericEvent<PacketIdType>> {
         // Version check first
         if !T::check(&connection.get_protocol_version()) {
-            return vec![GenericEvent::NotifyError(MqttError::VersionMismatch)];
+            let packet_id = self.owned_packet_id();
+            return connection.refuse_send(MqttError::VersionMismatch, packet_id);
         }
 
         trace!("Static dispatch sent: {}", self);
diff --git a/src/mqtt/connection/sendable_helper.rs b/src/mqtt/connection/sendable_helper.rs
index 8b12e83..998db08 100644
--- a/src/mqtt/connection/sendable_helper.rs
+++ b/src/mqtt/connection/sendable_helper.rs
@@ -29,7 +29,7 @@ use crate::mqtt::packet::{v3_1_1, v5_0};
 use alloc::vec::Vec;
 
 macro_rules! impl_sendable_helper {
-    ($role:ty, $packet_type:ty, $method:ident, $process_method:ident) => {
+    ($role:ty, $packet_type:ty, $method:ident, $process_method:ident $(, $packet_id:expr)?) => {
         impl<PacketIdType> SendableHelper<$role, PacketIdType> for $packet_type
         where
             PacketIdType: IsPacketId,
@@ -40,6 +40,11 @@ macro_rules! impl_sendable_helper {
             ) -> Vec<GenericEvent<PacketIdType>> {
                 connection.$process_method(self)
             }
+            $(
+                fn owned_packet_id(&self) -> Option<PacketIdType> {
+                    $packet_id(self)
+                }
+            )?
         }
     };
 }
@@ -50,8 +55,8 @@ mod unformatted {
     // Client
     impl_sendable_helper!(role::Client, v3_1_1::Connect,                           send_connect_v3_1_1,         process_send_v3_1_1_connect);
     impl_sendable_helper!(role::Client, v5_0::Connect,                             send_connect_v5_0,           process_send_v5_0_connect);
-    impl_sendable_helper!(role::Client, v3_1_1::GenericPublish<PacketIdType>,      send_publish_v3_1_1,         process_send_v3_1_1_publish);
-    impl_sendable_helper!(role::Client, v5_0::GenericPublish<PacketIdType>,        send_publish_v5_0,           process_send_v5_0_publish);
+    impl_sendable_helper!(role::Client, v3_1_1::GenericPublish<PacketIdType>,      send_publish_v3_1_1,         process_send_v3_1_1_publish, |p: &Self| p.packet_id());
+    impl_sendable_helper!(role::Client, v5_0::GenericPublish<PacketIdType>,        send_publish_v5_0,           process_send_v5_0_publish, |p: &Self| p.packet_id());
     impl_sendable_helper!(role::Client, v3_1_1::GenericPuback<PacketIdType>,       send_puback_v3_1_1,          process_send_v3_1_1_puback);
     impl_sendable_helper!(role::Client, v5_0::GenericPuback<PacketIdType>,         send_puback_v5_0,            process_send_v5_0_puback);
     impl_sendable_helper!(role::Client, v3_1_1::GenericPubrec<PacketIdType>,       send_pubrec_v3_1_1,          process_send_v3_1_1_pubrec);
@@ -60,10 +65,10 @@ mod unformatted {
     impl_sendable_helper!(role::Client, v5_0::GenericPubrel<PacketIdType>,         send_pubrel_v5_0,            process_send_v5_0_pubrel);
     impl_sendable_helper!(role::Client, v3_1_1::GenericPubcomp<PacketIdType>,      send_pubcomp_v3_1_1,         process_send_v3_1_1_pubcomp);
     impl_sendable_helper!(role::Client, v5_0::GenericPubcomp<PacketIdType>,        send_pubcomp_v5_0,           process_send_v5_0_pubcomp);
-    impl_sendable_helper!(role::Client, v3_1_1::GenericSubscribe<PacketIdType>,    send_subscribe_v3_1_1,       process_send_v3_1_1_subscribe);
-    impl_sendable_helper!(role::Client, v5_0::GenericSubscribe<PacketIdType>,      send_subscribe_v5_0,         process_send_v5_0_subscribe);
-    impl_sendable_helper!(role::Client, v3_1_1::GenericUnsubscribe<PacketIdType>,  send_unsubscribe_v3_1_1,     process_send_v3_1_1_unsubscribe);
-    impl_sendable_helper!(role::Client, v5_0::GenericUnsubscribe<PacketIdType>,    send_unsubscribe_v5_0,       process_send_v5_0_unsubscribe);
+    impl_sendable_helper!(role::Client, v3_1_1::GenericSubscribe<PacketIdType>,    send_subscribe_v3_1_1,       process_send_v3_1_1_subscribe, |p: &Self| Some(p.packet_id()));
+    impl_sendable_helper!(role::Client, v5_0::GenericSubscribe<PacketIdType>,      send_subscribe_v5_0,         process_send_v5_0_subscribe, |p: &Self| Some(p.packet_id()));
+    impl_sendable_helper!(role::Client, v3_1_1::GenericUnsubscribe<PacketIdType>,  send_unsubscribe_v3_1_1,     process_send_v3_1_1_unsubscribe, |p: &Self| Some(p.packet_id()));
+    impl_sendable_helper!(role::Client, v5_0::GenericUnsubscribe<PacketIdType>,    send_unsubscribe_v5_0,       process_send_v5_0_unsubscribe, |p: &Self| Some(p.packet_id()));
     impl_sendable_helper!(role::Client, v3_1_1::Pingreq,                           send_pingreq_v3_1_1,         process_send_v3_1_1_pingreq);
     impl_sendable_helper!(role::Client, v5_0::Pingreq,                             send_pingreq_v5_0,           process_send_v5_0_pingreq);
     impl_sendable_helper!(role::Client, v3_1_1::Disconnect,                        send_disconnect_v3_1_1,      process_send_v3_1_1_disconnect);
@@ -73,8 +78,8 @@ mod unformatted {
     // Server
     impl_sendable_helper!(role::Server, v3_1_1::Connack,                           send_connack_v3_1_1,         process_send_v3_1_1_connack);
     impl_sendable_helper!(role::Server, v5_0::Connack,                             send_connack_v5_0,           process_send_v5_0_connack);
-    impl_sendable_helper!(role::Server, v3_1_1::GenericPublish<PacketIdType>,      send_publish_v3_1_1,         process_send_v3_1_1_publish);
-    impl_sendable_helper!(role::Server, v5_0::GenericPublish<PacketIdType>,        send_publish_v5_0,           process_send_v5_0_publish);
+    impl_sendable_helper!(role::Server, v3_1_1::GenericPublish<PacketIdType>,      send_publish_v3_1_1,         process_send_v3_1_1_publish, |p: &Self| p.packet_id());
+    impl_sendable_helper!(role::Server, v5_0::GenericPublish<PacketIdType>,        send_publish_v5_0,           process_send_v5_0_publish, |p: &Self| p.packet_id());
     impl_sendable_helper!(role::Server, v3_1_1::GenericPuback<PacketIdType>,       send_puback_v3_1_1,          process_send_v3_1_1_puback);
     impl_sendable_helper!(role::Server, v5_0::GenericPuback<PacketIdType>,         send_puback_v5_0,            process_send_v5_0_puback);
     impl_sendable_helper!(role::Server, v3_1_1::GenericPubrec<PacketIdType>,       send_pubrec_v3_1_1,          process_send_v3_1_1_pubrec);
@@ -98,8 +103,8 @@ mod unformatted {
     impl_sendable_helper!(role::Any,    v5_0::Connect,                             send_connect_v5_0,           process_send_v5_0_connect);
     impl_sendable_helper!(role::Any,    v3_1_1::Connack,                           send_connack_v3_1_1,         process_send_v3_1_1_connack);
     impl_sendable_helper!(role::Any,    v5_0::Connack,                             send_connack_v5_0,           process_send_v5_0_connack);
-    impl_sendable_helper!(role::Any,    v3_1_1::GenericPublish<PacketIdType>,      send_publish_v3_1_1,         process_send_v3_1_1_publish);
-    impl_sendable_helper!(role::Any,    v5_0::GenericPublish<PacketIdType>,        send_publish_v5_0,           process_send_v5_0_publish);
+    impl_sendable_helper!(role::Any,    v3_1_1::GenericPublish<PacketIdType>,      send_publish_v3_1_1,         process_send_v3_1_1_publish, |p: &Self| p.packet_id());
+    impl_sendable_helper!(role::Any,    v5_0::GenericPublish<PacketIdType>,        send_publish_v5_0,           process_send_v5_0_publish, |p: &Self| p.packet_id());
     impl_sendable_helper!(role::Any,    v3_1_1::GenericPuback<PacketIdType>,       send_puback_v3_1_1,          process_send_v3_1_1_puback);
     impl_sendable_helper!(role::Any,    v5_0::GenericPuback<PacketIdType>,         send_puback_v5_0,            process_send_v5_0_puback);
     impl_sendable_helper!(role::Any,    v3_1_1::GenericPubrec<PacketIdType>,       send_pubrec_v3_1_1,          process_send_v3_1_1_pubrec);
@@ -108,12 +113,12 @@ mod unformatted {
     impl_sendable_helper!(role::Any,    v5_0::GenericPubrel<PacketIdType>,         send_pubrel_v5_0,            process_send_v5_0_pubrel);
     impl_sendable_helper!(role::Any,    v3_1_1::GenericPubcomp<PacketIdType>,      send_pubcomp_v3_1_1,         process_send_v3_1_1_pubcomp);
     impl_sendable_helper!(role::Any,    v5_0::GenericPubcomp<PacketIdType>,        send_pubcomp_v5_0,           process_send_v5_0_pubcomp);
-    impl_sendable_helper!(role::Any,    v3_1_1::GenericSubscribe<PacketIdType>,    send_subscribe_v3_1_1,       process_send_v3_1_1_subscribe);
-    impl_sendable_helper!(role::Any,    v5_0::GenericSubscribe<PacketIdType>,      send_subscribe_v5_0,         process_send_v5_0_subscribe);
+    impl_sendable_helper!(role::Any,    v3_1_1::GenericSubscribe<PacketIdType>,    send_subscribe_v3_1_1,       process_send_v3_1_1_subscribe, |p: &Self| Some(p.packet_id()));
+    impl_sendable_helper!(role::Any,    v5_0::GenericSubscribe<PacketIdType>,      send_subscribe_v5_0,         process_send_v5_0_subscribe, |p: &Self| Some(p.packet_id()));
     impl_sendable_helper!(role::Any,    v3_1_1::GenericSuback<PacketIdType>,       send_suback_v3_1_1,          process_send_v3_1_1_suback);
     impl_sendable_helper!(role::Any,    v5_0::GenericSuback<PacketIdType>,         send_suback_v5_0,            process_send_v5_0_suback);
-    impl_sendable_helper!(role::Any,    v3_1_1::GenericUnsubscribe<PacketIdType>,  send_unsubscribe_v3_1_1,     process_send_v3_1_1_unsubscribe);
-    impl_sendable_helper!(role::Any,    v5_0::GenericUnsubscribe<PacketIdType>,    send_unsubscribe_v5_0,       process_send_v5_0_unsubscribe);
+    impl_sendable_helper!(role::Any,    v3_1_1::GenericUnsubscribe<PacketIdType>,  send_unsubscribe_v3_1_1,     process_send_v3_1_1_unsubscribe, |p: &Self| Some(p.packet_id()));
+    impl_sendable_helper!(role::Any,    v5_0::GenericUnsubscribe<PacketIdType>,    send_unsubscribe_v5_0,       process_send_v5_0_unsubscribe, |p: &Self| Some(p.packet_id()));
     impl_sendable_helper!(role::Any,    v3_1_1::GenericUnsuback<PacketIdType>,     send_unsuback_v3_1_1,        process_send_v3_1_1_unsuback);
     impl_sendable_helper!(role::Any,    v5_0::GenericUnsuback<PacketIdType>,       send_unsuback_v5_0,          process_send_v5_0_unsuback);
     impl_sendable_helper!(role::Any,    v3_1_1::Pingreq,                           send_pingreq_v3_1_1,         process_send_v3_1_1_pingreq);
-- 
2.43.0


From a026c732807c66ff076e69150ce2aedc1f17fe3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:31 +0000
Subject: [PATCH 19/38] fix: inbound PUBLISH was recorded before its topic
 alias was validated, and a retransmission counted twice

---
 src/mqtt/connection/core.rs | 101 +++++++++++++++++++-----------------
 1 file changed, 53 insertions(+), 48 deletions(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index 73cc0d9..263c764 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -2938,54 +2938,6 @@ where
                         let mut puback_send = false;
                         let mut pubrec_send = false;
 
-                        let mut check_receive_maximum =
-                            |events: &mut Vec<GenericEvent<PacketIdType>>| {
-                                if let Some(max) = self.publish_recv_max {
-                                    if self.publish_recv.len() >= max as usize {
-                                        self.handle_v5_0_error(
-                                            MqttError::ReceiveMaximumExceeded,
-                                            events,
-                                        );
-                                        return false;
-                                    }
-                                }
-                                true
-                            };
-
-                        match packet.qos() {
-                            Qos::AtLeastOnce => {
-                                let packet_id = packet.packet_id().unwrap();
-                                if !check_receive_maximum(&mut events) {
-                                    return events;
-                                }
-                                self.publish_recv.insert(packet_id);
-                                if self.auto_pub_response
-                                    && self.status == ConnectionStatus::Connected
-                                {
-                                    puback_send = true;
-                                }
-                            }
-                            Qos::ExactlyOnce => {
-                                let packet_id = packet.packet_id().unwrap();
-                                if !check_receive_maximum(&mut events) {
-                                    return events;
-                                }
-                                self.publish_recv.insert(packet_id);
-
-                                if !self.qos2_publish_handled.insert(packet_id) {
-                                    already_handled = true;
-                                }
-                                if self.status == ConnectionStatus::Connected
-                                    && (self.auto_pub_response || already_handled)
-                                {
-                                    pubrec_send = true;
-                                }
-                            }
-                            Qos::AtMostOnce => {
-                                // No packet ID handling for QoS 0
-                            }
-                        }
-
                         // Topic Alias handling
                         if packet.topic_name().is_empty() {
                             // Extract topic from topic_alias
@@ -3047,6 +2999,59 @@ where
                             }
                         }
 
+                        let mut check_receive_maximum = |packet_id: PacketIdType,
+                                                         events: &mut Vec<
+                            GenericEvent<PacketIdType>,
+                        >| {
+                            if let Some(max) = self.publish_recv_max {
+                                // A retransmission doesn't start another exchange
+                                if self.publish_recv.len() >= max as usize
+                                    && !self.publish_recv.contains(&packet_id)
+                                {
+                                    self.handle_v5_0_error(
+                                        MqttError::ReceiveMaximumExceeded,
+                                        events,
+                                    );
+                                    return false;
+                                }
+                            }
+                            true
+                        };
+
+                        match packet.qos() {
+                            Qos::AtLeastOnce => {
+                                let packet_id = packet.packet_id().unwrap();
+                                if !check_receive_maximum(packet_id, &mut events) {
+                                    return events;
+                                }
+                                self.publish_recv.insert(packet_id);
+                                if self.auto_pub_response
+                                    && self.status == ConnectionStatus::Connected
+                                {
+                                    puback_send = true;
+                                }
+                            }
+                            Qos::ExactlyOnce => {
+                                let packet_id = packet.packet_id().unwrap();
+                                if !check_receive_maximum(packet_id, &mut events) {
+                                    return events;
+                                }
+                                self.publish_recv.insert(packet_id);
+
+                                if !self.qos2_publish_handled.insert(packet_id) {
+                                    already_handled = true;
+                                }
+                                if self.status == ConnectionStatus::Connected
+                                    && (self.auto_pub_response || already_handled)
+                                {
+                                    pubrec_send = true;
+                                }
+                            }
+                            Qos::AtMostOnce => {
+                                // No packet ID handling for QoS 0
+                            }
+                        }
+
                         // Send response packets
                         if puback_send {
                             let puback = v5_0::GenericPuback::builder()
-- 
2.43.0


From daf21cfc8d176cbc2d109c46e355bfa20f96bbe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:04 +0000
Subject: [PATCH 20/38] fix: keep-alive expiry did not request close when
 DISCONNECT could not be sent

---
 src/mqtt/connection/core.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index 263c764..bc4faa3 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -685,6 +685,10 @@ where
                                 events.extend(self.process_send_v5_0_disconnect(disconnect));
                             }
                         }
+                        if self.status != ConnectionStatus::Disconnected {
+                            // DISCONNECT cannot be sent
+                            events.push(GenericEvent::RequestClose);
+                        }
                     }
                     Version::Undetermined => {
                         unreachable!("Protocol version should be set before receiving PINGREQ");
@@ -710,6 +714,10 @@ where
                                 events.extend(self.process_send_v5_0_disconnect(disconnect));
                             }
                         }
+                        if self.status != ConnectionStatus::Disconnected {
+                            // DISCONNECT cannot be sent
+                            events.push(GenericEvent::RequestClose);
+                        }
                     }
                     Version::Undetermined => {
                         unreachable!("Protocol version should be set before receiving PINGRESP");
-- 
2.43.0


From 32620a608d242b91bb22f1ac1910e0da346a4818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:04 +0000
Subject: [PATCH 21/38] fix: packet processed after DISCONNECT re-armed the
 receive timer

---
 src/mqtt/connection/core.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index bc4faa3..8fabdac 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -3728,7 +3728,7 @@ where
 
     fn refresh_pingreq_recv(&mut self) -> Vec<GenericEvent<PacketIdType>> {
         let mut events = Vec::new();
-        if self.pingreq_recv_timeout_ms != 0 {
+        if self.pingreq_recv_timeout_ms != 0 && self.status != ConnectionStatus::Disconnected {
             self.pingreq_recv_set = true;
             events.push(GenericEvent::RequestTimerReset {
                 kind: TimerKind::PingreqRecv,
-- 
2.43.0


From 6cbeb85684428a5672edb666e206fb896e32c198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:42 +0000
Subject: [PATCH 22/38] fix: a server armed the PINGREQ send timer and sent
 PINGREQ

---
 src/mqtt/connection/core.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index 8fabdac..b7ed959 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -862,7 +862,7 @@ where
                     self.pingreq_send_set = false;
                     events.push(GenericEvent::RequestTimerCancel(TimerKind::PingreqSend));
                 }
-            } else if self.status == ConnectionStatus::Connected {
+            } else if self.is_client && self.status == ConnectionStatus::Connected {
                 self.pingreq_send_set = true;
                 events.push(GenericEvent::RequestTimerReset {
                     kind: TimerKind::PingreqSend,
-- 
2.43.0


From acf3d2e2332603a88400588fe6576a045ed4048e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:33 +0000
Subject: [PATCH 23/38] fix: restore_packets tracked identifiers of packets it
 skipped

---
 src/mqtt/connection/core.rs | 30 ++++++++++++------------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index b7ed959..ee659bf 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -1054,22 +1054,19 @@ where
             match &packet {
                 GenericStorePacket::V3_1_1Publish(p) => {
                     // Add to appropriate QoS tracking set
-                    match p.qos() {
-                        Qos::AtLeastOnce => {
-                            self.pid_puback.insert(p.packet_id().unwrap());
-                        }
-                        Qos::ExactlyOnce => {
-                            self.pid_pubrec.insert(p.packet_id().unwrap());
-                        }
+                    let pid_set = match p.qos() {
+                        Qos::AtLeastOnce => &mut self.pid_puback,
+                        Qos::ExactlyOnce => &mut self.pid_pubrec,
                         _ => {
                             // QoS 0 shouldn't be in store, but handle gracefully
                             warn!("QoS 0 packet found in store, skipping");
                             continue;
                         }
-                    }
+                    };
                     // Register packet ID and add to store
                     let packet_id = p.packet_id().unwrap();
                     if self.pid_man.register_id(packet_id).is_ok() {
+                        pid_set.insert(packet_id);
                         if let Err(_e) = self.store.add(packet) {
                             error!("Failed to add packet to store: {:?}", _e);
                         }
@@ -1079,22 +1076,19 @@ where
                 }
                 GenericStorePacket::V5_0Publish(p) => {
                     // Add to appropriate QoS tracking set
-                    match p.qos() {
-                        Qos::AtLeastOnce => {
-                            self.pid_puback.insert(p.packet_id().unwrap());
-                        }
-                        Qos::ExactlyOnce => {
-                            self.pid_pubrec.insert(p.packet_id().unwrap());
-                        }
+                    let pid_set = match p.qos() {
+                        Qos::AtLeastOnce => &mut self.pid_puback,
+                        Qos::ExactlyOnce => &mut self.pid_pubrec,
                         _ => {
                             // QoS 0 shouldn't be in store, but handle gracefully
                             warn!("QoS 0 packet found in store, skipping");
                             continue;
                         }
-                    }
+                    };
                     // Register packet ID and add to store
                     let packet_id = p.packet_id().unwrap();
                     if self.pid_man.register_id(packet_id).is_ok() {
+                        pid_set.insert(packet_id);
                         if let Err(_e) = self.store.add(packet) {
                             error!("Failed to add packet to store: {:?}", _e);
                         }
@@ -1104,10 +1098,10 @@ where
                 }
                 GenericStorePacket::V3_1_1Pubrel(p) => {
                     // Pubrel packets expect PUBCOMP response
-                    self.pid_pubcomp.insert(p.packet_id());
                     // Register packet ID and add to store
                     let packet_id = p.packet_id();
                     if self.pid_man.register_id(packet_id).is_ok() {
+                        self.pid_pubcomp.insert(packet_id);
                         if let Err(_e) = self.store.add(packet) {
                             error!("Failed to add packet to store: {:?}", _e);
                         }
@@ -1117,10 +1111,10 @@ where
                 }
                 GenericStorePacket::V5_0Pubrel(p) => {
                     // Pubrel packets expect PUBCOMP response
-                    self.pid_pubcomp.insert(p.packet_id());
                     // Register packet ID and add to store
                     let packet_id = p.packet_id();
                     if self.pid_man.register_id(packet_id).is_ok() {
+                        self.pid_pubcomp.insert(packet_id);
                         if let Err(_e) = self.store.add(packet) {
                             error!("Failed to add packet to store: {:?}", _e);
                         }
-- 
2.43.0


From c7d376241fdd8966565546c1c0e3cb02a9079d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:02 +0000
Subject: [PATCH 24/38] fix: automatic topic alias could push a PUBLISH over
 the Maximum Packet Size

---
 src/mqtt/connection/core.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index ee659bf..49f9462 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -1751,6 +1751,7 @@ where
             }
         } else if self.status == ConnectionStatus::Connected {
             // process auto applying TopicAlias if the option is enabled
+            let maximum_packet_size = self.maximum_packet_size_send as usize;
             if self.auto_map_topic_alias_send {
                 if let Some(ref mut topic_alias_send) = self.topic_alias_send {
                     if let Some(found_ta) = topic_alias_send.find_by_topic(packet.topic_name()) {
@@ -1759,11 +1760,17 @@ where
                             packet.topic_name(),
                             found_ta
                         );
-                        packet = packet.remove_topic_add_topic_alias(found_ta);
+                        let aliased = packet.clone().remove_topic_add_topic_alias(found_ta);
+                        if aliased.size() <= maximum_packet_size {
+                            packet = aliased;
+                        }
                     } else {
                         let lru_ta = topic_alias_send.get_lru_alias();
-                        topic_alias_send.insert_or_update(packet.topic_name(), lru_ta);
-                        packet = packet.add_topic_alias(lru_ta);
+                        let aliased = packet.clone().add_topic_alias(lru_ta);
+                        if aliased.size() <= maximum_packet_size {
+                            topic_alias_send.insert_or_update(packet.topic_name(), lru_ta);
+                            packet = aliased;
+                        }
                     }
                 }
             } else if self.auto_replace_topic_alias_send {
@@ -1774,7 +1781,10 @@ where
                             packet.topic_name(),
                             found_ta
                         );
-                        packet = packet.remove_topic_add_topic_alias(found_ta);
+                        let aliased = packet.clone().remove_topic_add_topic_alias(found_ta);
+                        if aliased.size() <= maximum_packet_size {
+                            packet = aliased;
+                        }
                     }
                 }
             }
-- 
2.43.0


From 8bec04f19f224faaeb1d045e37c2abca0e14232c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:01 +0000
Subject: [PATCH 25/38] fix: PUBLISH parser accepted packet identifier 0

---
 src/mqtt/packet/v3_1_1/publish.rs | 3 +++
 src/mqtt/packet/v5_0/publish.rs   | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/mqtt/packet/v3_1_1/publish.rs b/src/mqtt/packet/v3_1_1/publish.rs
index e8075aa..ac79574 100644
--- a/src/mqtt/packet/v3_1_1/publish.rs
+++ b/src/mqtt/packet/v3_1_1/publish.rs
@@ -645,6 +645,9 @@ where
             buf.as_mut()
                 .copy_from_slice(&data_arc[cursor..cursor + buffer_size]);
             cursor += buffer_size;
+            if PacketIdType::from_buffer(buf.as_ref()).is_zero() {
+                return Err(MqttError::MalformedPacket);
+            }
             Some(buf)
         } else {
             None
diff --git a/src/mqtt/packet/v5_0/publish.rs b/src/mqtt/packet/v5_0/publish.rs
index 6d38a21..31539f1 100644
--- a/src/mqtt/packet/v5_0/publish.rs
+++ b/src/mqtt/packet/v5_0/publish.rs
@@ -984,6 +984,9 @@ where
             buf.as_mut()
                 .copy_from_slice(&data_arc[cursor..cursor + buffer_size]);
             cursor += buffer_size;
+            if PacketIdType::from_buffer(buf.as_ref()).is_zero() {
+                return Err(MqttError::MalformedPacket);
+            }
             Some(buf)
         } else {
             None
-- 
2.43.0


From 6b5f27069105984e14c9dd074480052c3e881d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:41 +0000
Subject: [PATCH 26/38] fix: non-minimal variable byte integer was accepted

---
 src/mqtt/packet/variable_byte_integer.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mqtt/packet/variable_byte_integer.rs b/src/mqtt/packet/variable_byte_integer.rs
index 5f29816..268e1fc 100644
--- a/src/mqtt/packet/variable_byte_integer.rs
+++ b/src/mqtt/packet/variable_byte_integer.rs
@@ -113,6 +113,10 @@ impl VariableByteInteger {
             if (b & 0x80) == 0 {
                 // complete
                 return match Self::from_u32(value) {
+                    // [MQTT-1.5.5-1] the minimum number of bytes must be used
+                    Some(vbi) if vbi.size() != i + 1 => {
+                        DecodeResult::Err("Malformed VariableByteInteger: not minimal")
+                    }
                     Some(vbi) => DecodeResult::Ok(vbi, i + 1),
                     None => DecodeResult::Err("Encoding failure"),
                 };
-- 
2.43.0


From 6e8215bd187f39e2e5e6c43c5da02d2c72d83d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:19 +0000
Subject: [PATCH 27/38] fix: PUBLISH parser accepted topic names the builder
 rejects

---
 src/mqtt/packet/v3_1_1/publish.rs | 4 ++++
 src/mqtt/packet/v5_0/publish.rs   | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/src/mqtt/packet/v3_1_1/publish.rs b/src/mqtt/packet/v3_1_1/publish.rs
index ac79574..b4db55d 100644
--- a/src/mqtt/packet/v3_1_1/publish.rs
+++ b/src/mqtt/packet/v3_1_1/publish.rs
@@ -628,6 +628,10 @@ where
 
         let (topic_name, consumed) = MqttString::decode(&data_arc[cursor..])?;
         cursor += consumed;
+        if topic_name.as_str().is_empty()
+            || topic_name.as_str().contains('#') || topic_name.as_str().contains('+') {
+            return Err(MqttError::MalformedPacket);
+        }
 
         let qos = match qos_value {
             0 => Qos::AtMostOnce,
diff --git a/src/mqtt/packet/v5_0/publish.rs b/src/mqtt/packet/v5_0/publish.rs
index 31539f1..5dd9fe5 100644
--- a/src/mqtt/packet/v5_0/publish.rs
+++ b/src/mqtt/packet/v5_0/publish.rs
@@ -967,6 +967,9 @@ where
 
         let (topic_name, consumed) = MqttString::decode(&data_arc[cursor..])?;
         cursor += consumed;
+        if topic_name.as_str().contains('#') || topic_name.as_str().contains('+') {
+            return Err(MqttError::MalformedPacket);
+        }
 
         let qos = match qos_value {
             0 => Qos::AtMostOnce,
-- 
2.43.0


From 33d123a27c2944bad1b079f49024db207c133726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:31 +0000
Subject: [PATCH 28/38] fix: PUBLISH parser accepted an empty topic name
 without topic alias

---
 src/mqtt/packet/v5_0/publish.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/mqtt/packet/v5_0/publish.rs b/src/mqtt/packet/v5_0/publish.rs
index 5dd9fe5..4456645 100644
--- a/src/mqtt/packet/v5_0/publish.rs
+++ b/src/mqtt/packet/v5_0/publish.rs
@@ -1005,6 +1005,13 @@ where
             (VariableByteInteger::from_u32(0).unwrap(), Properties::new())
         };
 
+        if topic_name.as_str().is_empty()
+            && !props.iter().any(|p| matches!(p, Property::TopicAlias(_)))
+        {
+            // a zero length Topic Name is only permitted together with a Topic Alias
+            return Err(MqttError::TopicAliasInvalid);
+        }
+
         let payload_len = data_arc.len() - cursor;
         let payload = if payload_len > 0 {
             ArcPayload::new(data_arc.clone(), cursor, payload_len)
-- 
2.43.0


From 2e40fdad4590d8ced315d0dcf4b1095b7181f929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:35 +0000
Subject: [PATCH 29/38] fix: packet parsers panicked on input longer than the
 maximum Remaining Length

---
 src/mqtt/packet/v3_1_1/connect.rs     | 3 ++-
 src/mqtt/packet/v3_1_1/puback.rs      | 3 ++-
 src/mqtt/packet/v3_1_1/pubcomp.rs     | 3 ++-
 src/mqtt/packet/v3_1_1/publish.rs     | 7 +++++--
 src/mqtt/packet/v3_1_1/pubrec.rs      | 3 ++-
 src/mqtt/packet/v3_1_1/pubrel.rs      | 3 ++-
 src/mqtt/packet/v3_1_1/suback.rs      | 3 ++-
 src/mqtt/packet/v3_1_1/subscribe.rs   | 3 ++-
 src/mqtt/packet/v3_1_1/unsuback.rs    | 3 ++-
 src/mqtt/packet/v3_1_1/unsubscribe.rs | 3 ++-
 src/mqtt/packet/v5_0/auth.rs          | 3 ++-
 src/mqtt/packet/v5_0/connack.rs       | 3 ++-
 src/mqtt/packet/v5_0/connect.rs       | 3 ++-
 src/mqtt/packet/v5_0/disconnect.rs    | 3 ++-
 src/mqtt/packet/v5_0/puback.rs        | 3 ++-
 src/mqtt/packet/v5_0/pubcomp.rs       | 3 ++-
 src/mqtt/packet/v5_0/publish.rs       | 3 ++-
 src/mqtt/packet/v5_0/pubrec.rs        | 3 ++-
 src/mqtt/packet/v5_0/pubrel.rs        | 3 ++-
 src/mqtt/packet/v5_0/suback.rs        | 3 ++-
 src/mqtt/packet/v5_0/subscribe.rs     | 3 ++-
 src/mqtt/packet/v5_0/unsuback.rs      | 3 ++-
 src/mqtt/packet/v5_0/unsubscribe.rs   | 3 ++-
 23 files changed, 49 insertions(+), 24 deletions(-)

diff --git a/src/mqtt/packet/v3_1_1/connect.rs b/src/mqtt/packet/v3_1_1/connect.rs
index 3bb1dc2..e917a1a 100644
--- a/src/mqtt/packet/v3_1_1/connect.rs
+++ b/src/mqtt/packet/v3_1_1/connect.rs
@@ -616,7 +616,8 @@ impl Connect {
 
         let connect = Connect {
             fixed_header: [FixedHeader::Connect as u8],
-            remaining_length: VariableByteInteger::from_u32(cursor as u32).unwrap(),
+            remaining_length: VariableByteInteger::from_u32(cursor as u32)
+                .ok_or(MqttError::MalformedPacket)?,
             protocol_name,
             protocol_version_buf,
             connect_flags_buf,
diff --git a/src/mqtt/packet/v3_1_1/puback.rs b/src/mqtt/packet/v3_1_1/puback.rs
index c800724..f8917ac 100644
--- a/src/mqtt/packet/v3_1_1/puback.rs
+++ b/src/mqtt/packet/v3_1_1/puback.rs
@@ -440,7 +440,8 @@ where
 
         let puback = GenericPuback {
             fixed_header: [FixedHeader::Puback.as_u8()],
-            remaining_length: VariableByteInteger::from_u32(remaining_size as u32).unwrap(),
+            remaining_length: VariableByteInteger::from_u32(remaining_size as u32)
+                .ok_or(MqttError::MalformedPacket)?,
             packet_id_buf,
             reason_code_buf,
         };
diff --git a/src/mqtt/packet/v3_1_1/pubcomp.rs b/src/mqtt/packet/v3_1_1/pubcomp.rs
index 46b053b..7842184 100644
--- a/src/mqtt/packet/v3_1_1/pubcomp.rs
+++ b/src/mqtt/packet/v3_1_1/pubcomp.rs
@@ -444,7 +444,8 @@ where
 
         let pubcomp = GenericPubcomp {
             fixed_header: [FixedHeader::Pubcomp.as_u8()],
-            remaining_length: VariableByteInteger::from_u32(remaining_size as u32).unwrap(),
+            remaining_length: VariableByteInteger::from_u32(remaining_size as u32)
+                .ok_or(MqttError::MalformedPacket)?,
             packet_id_buf,
             reason_code_buf,
         };
diff --git a/src/mqtt/packet/v3_1_1/publish.rs b/src/mqtt/packet/v3_1_1/publish.rs
index b4db55d..57fd7e0 100644
--- a/src/mqtt/packet/v3_1_1/publish.rs
+++ b/src/mqtt/packet/v3_1_1/publish.rs
@@ -629,7 +629,9 @@ where
         let (topic_name, consumed) = MqttString::decode(&data_arc[cursor..])?;
         cursor += consumed;
         if topic_name.as_str().is_empty()
-            || topic_name.as_str().contains('#') || topic_name.as_str().contains('+') {
+            || topic_name.as_str().contains('#')
+            || topic_name.as_str().contains('+')
+        {
             return Err(MqttError::MalformedPacket);
         }
 
@@ -672,7 +674,8 @@ where
 
         let publish = GenericPublish {
             fixed_header: [fixed_header_byte],
-            remaining_length: VariableByteInteger::from_u32(remaining_size as u32).unwrap(),
+            remaining_length: VariableByteInteger::from_u32(remaining_size as u32)
+                .ok_or(MqttError::MalformedPacket)?,
             topic_name_buf: topic_name,
             packet_id_buf,
             payload_buf: payload,
diff --git a/src/mqtt/packet/v3_1_1/pubrec.rs b/src/mqtt/packet/v3_1_1/pubrec.rs
index 4782fa0..afeddde 100644
--- a/src/mqtt/packet/v3_1_1/pubrec.rs
+++ b/src/mqtt/packet/v3_1_1/pubrec.rs
@@ -423,7 +423,8 @@ where
 
         let pubrec = GenericPubrec {
             fixed_header: [FixedHeader::Pubrec.as_u8()],
-            remaining_length: VariableByteInteger::from_u32(remaining_size as u32).unwrap(),
+            remaining_length: VariableByteInteger::from_u32(remaining_size as u32)
+                .ok_or(MqttError::MalformedPacket)?,
             packet_id_buf,
             reason_code_buf,
         };
diff --git a/src/mqtt/packet/v3_1_1/pubrel.rs b/src/mqtt/packet/v3_1_1/pubrel.rs
index 64aeae5..869dfa4 100644
--- a/src/mqtt/packet/v3_1_1/pubrel.rs
+++ b/src/mqtt/packet/v3_1_1/pubrel.rs
@@ -409,7 +409,8 @@ where
 
         let pubrel = GenericPubrel {
             fixed_header: [FixedHeader::Pubrel.as_u8()],
-            remaining_length: VariableByteInteger::from_u32(remaining_size as u32).unwrap(),
+            remaining_length: VariableByteInteger::from_u32(remaining_size as u32)
+                .ok_or(MqttError::MalformedPacket)?,
             packet_id_buf,
             reason_code_buf,
         };
diff --git a/src/mqtt/packet/v3_1_1/suback.rs b/src/mqtt/packet/v3_1_1/suback.rs
index 2ce652b..448758d 100644
--- a/src/mqtt/packet/v3_1_1/suback.rs
+++ b/src/mqtt/packet/v3_1_1/suback.rs
@@ -338,7 +338,8 @@ where
         }
 
         let remaining_size = buffer_size + return_codes_buf.len();
-        let remaining_length = VariableByteInteger::from_u32(remaining_size as u32).unwrap();
+        let remaining_length = VariableByteInteger::from_u32(remaining_size as u32)
+            .ok_or(MqttError::MalformedPacket)?;
 
         let suback = GenericSuback {
             fixed_header: [FixedHeader::Suback as u8],
diff --git a/src/mqtt/packet/v3_1_1/subscribe.rs b/src/mqtt/packet/v3_1_1/subscribe.rs
index f9049ff..3c00d8f 100644
--- a/src/mqtt/packet/v3_1_1/subscribe.rs
+++ b/src/mqtt/packet/v3_1_1/subscribe.rs
@@ -331,7 +331,8 @@ where
         }
 
         let remaining_size = buffer_size + entries.iter().map(|e| e.size()).sum::<usize>();
-        let remaining_length = VariableByteInteger::from_u32(remaining_size as u32).unwrap();
+        let remaining_length = VariableByteInteger::from_u32(remaining_size as u32)
+            .ok_or(MqttError::MalformedPacket)?;
 
         let subscribe = GenericSubscribe {
             fixed_header: [FixedHeader::Subscribe as u8],
diff --git a/src/mqtt/packet/v3_1_1/unsuback.rs b/src/mqtt/packet/v3_1_1/unsuback.rs
index 70ca4b3..3455be3 100644
--- a/src/mqtt/packet/v3_1_1/unsuback.rs
+++ b/src/mqtt/packet/v3_1_1/unsuback.rs
@@ -353,7 +353,8 @@ where
         cursor += buffer_size;
 
         let remaining_size = buffer_size;
-        let remaining_length = VariableByteInteger::from_u32(remaining_size as u32).unwrap();
+        let remaining_length = VariableByteInteger::from_u32(remaining_size as u32)
+            .ok_or(MqttError::MalformedPacket)?;
 
         let unsuback = GenericUnsuback {
             fixed_header: [FixedHeader::Unsuback as u8],
diff --git a/src/mqtt/packet/v3_1_1/unsubscribe.rs b/src/mqtt/packet/v3_1_1/unsubscribe.rs
index 1898c15..1054ad3 100644
--- a/src/mqtt/packet/v3_1_1/unsubscribe.rs
+++ b/src/mqtt/packet/v3_1_1/unsubscribe.rs
@@ -346,7 +346,8 @@ where
         }
 
         let remaining_size = buffer_size + entries.iter().map(|e| e.size()).sum::<usize>();
-        let remaining_length = VariableByteInteger::from_u32(remaining_size as u32).unwrap();
+        let remaining_length = VariableByteInteger::from_u32(remaining_size as u32)
+            .ok_or(MqttError::MalformedPacket)?;
 
         let unsubscribe = GenericUnsubscribe {
             fixed_header: [FixedHeader::Unsubscribe as u8],
diff --git a/src/mqtt/packet/v5_0/auth.rs b/src/mqtt/packet/v5_0/auth.rs
index 295762c..4875fc5 100644
--- a/src/mqtt/packet/v5_0/auth.rs
+++ b/src/mqtt/packet/v5_0/auth.rs
@@ -369,7 +369,8 @@ impl Auth {
 
         let auth = Auth {
             fixed_header: [FixedHeader::Auth.as_u8()],
-            remaining_length: VariableByteInteger::from_u32(remaining_size as u32).unwrap(),
+            remaining_length: VariableByteInteger::from_u32(remaining_size as u32)
+                .ok_or(MqttError::MalformedPacket)?,
             reason_code_buf,
             property_length,
             props,
diff --git a/src/mqtt/packet/v5_0/connack.rs b/src/mqtt/packet/v5_0/connack.rs
index 63fe40b..1481dbf 100644
--- a/src/mqtt/packet/v5_0/connack.rs
+++ b/src/mqtt/packet/v5_0/connack.rs
@@ -423,7 +423,8 @@ impl Connack {
 
         let connack = Connack {
             fixed_header: [FixedHeader::Connack.as_u8()],
-            remaining_length: VariableByteInteger::from_u32(cursor as u32).unwrap(),
+            remaining_length: VariableByteInteger::from_u32(cursor as u32)
+                .ok_or(MqttError::MalformedPacket)?,
             ack_flags: [flags],
             reason_code_buf: [code],
             property_length: prop_len,
diff --git a/src/mqtt/packet/v5_0/connect.rs b/src/mqtt/packet/v5_0/connect.rs
index 7a27792..2d5c8a4 100644
--- a/src/mqtt/packet/v5_0/connect.rs
+++ b/src/mqtt/packet/v5_0/connect.rs
@@ -661,7 +661,8 @@ impl Connect {
 
         let connect = Connect {
             fixed_header: [FixedHeader::Connect as u8],
-            remaining_length: VariableByteInteger::from_u32(cursor as u32).unwrap(),
+            remaining_length: VariableByteInteger::from_u32(cursor as u32)
+                .ok_or(MqttError::MalformedPacket)?,
             protocol_name,
             protocol_version_buf,
             connect_flags_buf,
diff --git a/src/mqtt/packet/v5_0/disconnect.rs b/src/mqtt/packet/v5_0/disconnect.rs
index 5b1c870..6f867a5 100644
--- a/src/mqtt/packet/v5_0/disconnect.rs
+++ b/src/mqtt/packet/v5_0/disconnect.rs
@@ -422,7 +422,8 @@ impl Disconnect {
 
         let disconnect = Disconnect {
             fixed_header: [FixedHeader::Disconnect.as_u8()],
-            remaining_length: VariableByteInteger::from_u32(remaining_size as u32).unwrap(),
+            remaining_length: VariableByteInteger::from_u32(remaining_size as u32)
+                .ok_or(MqttError::MalformedPacket)?,
             reason_code_buf,
             property_length,
             props,
diff --git a/src/mqtt/packet/v5_0/puback.rs b/src/mqtt/packet/v5_0/puback.rs
index 05cf5e3..38794ee 100644
--- a/src/mqtt/packet/v5_0/puback.rs
+++ b/src/mqtt/packet/v5_0/puback.rs
@@ -460,7 +460,8 @@ where
 
         let puback = GenericPuback {
             fixed_header: [FixedHeader::Puback.as_u8()],
-            remaining_length: VariableByteInteger::from_u32(remaining_size as u32).unwrap(),
+            remaining_length: VariableByteInteger::from_u32(remaining_size as u32)
+                .ok_or(MqttError::MalformedPacket)?,
             packet_id_buf,
             reason_code_buf,
             property_length,
diff --git a/src/mqtt/packet/v5_0/pubcomp.rs b/src/mqtt/packet/v5_0/pubcomp.rs
index cd77e35..7b94aea 100644
--- a/src/mqtt/packet/v5_0/pubcomp.rs
+++ b/src/mqtt/packet/v5_0/pubcomp.rs
@@ -464,7 +464,8 @@ where
 
         let pubcomp = GenericPubcomp {
             fixed_header: [FixedHeader::Pubcomp.as_u8()],
-            remaining_length: VariableByteInteger::from_u32(remaining_size as u32).unwrap(),
+            remaining_length: VariableByteInteger::from_u32(remaining_size as u32)
+                .ok_or(MqttError::MalformedPacket)?,
             packet_id_buf,
             reason_code_buf,
             property_length,
diff --git a/src/mqtt/packet/v5_0/publish.rs b/src/mqtt/packet/v5_0/publish.rs
index 4456645..f42cc1d 100644
--- a/src/mqtt/packet/v5_0/publish.rs
+++ b/src/mqtt/packet/v5_0/publish.rs
@@ -1029,7 +1029,8 @@ where
 
         let publish = GenericPublish {
             fixed_header: [fixed_header_byte],
-            remaining_length: VariableByteInteger::from_u32(remaining_size as u32).unwrap(),
+            remaining_length: VariableByteInteger::from_u32(remaining_size as u32)
+                .ok_or(MqttError::MalformedPacket)?,
             topic_name_buf: topic_name,
             packet_id_buf,
             property_length,
diff --git a/src/mqtt/packet/v5_0/pubrec.rs b/src/mqtt/packet/v5_0/pubrec.rs
index 41ac1d4..051c53c 100644
--- a/src/mqtt/packet/v5_0/pubrec.rs
+++ b/src/mqtt/packet/v5_0/pubrec.rs
@@ -506,7 +506,8 @@ where
 
         let pubrec = GenericPubrec {
             fixed_header: [FixedHeader::Pubrec.as_u8()],
-            remaining_length: VariableByteInteger::from_u32(remaining_size as u32).unwrap(),
+            remaining_length: VariableByteInteger::from_u32(remaining_size as u32)
+                .ok_or(MqttError::MalformedPacket)?,
             packet_id_buf,
             reason_code_buf,
             property_length,
diff --git a/src/mqtt/packet/v5_0/pubrel.rs b/src/mqtt/packet/v5_0/pubrel.rs
index dbdd32c..fa9c608 100644
--- a/src/mqtt/packet/v5_0/pubrel.rs
+++ b/src/mqtt/packet/v5_0/pubrel.rs
@@ -473,7 +473,8 @@ where
 
         let pubrel = GenericPubrel {
             fixed_header: [FixedHeader::Pubrel.as_u8()],
-            remaining_length: VariableByteInteger::from_u32(remaining_size as u32).unwrap(),
+            remaining_length: VariableByteInteger::from_u32(remaining_size as u32)
+                .ok_or(MqttError::MalformedPacket)?,
             packet_id_buf,
             reason_code_buf,
             property_length,
diff --git a/src/mqtt/packet/v5_0/suback.rs b/src/mqtt/packet/v5_0/suback.rs
index 1367aa0..2b90d04 100644
--- a/src/mqtt/packet/v5_0/suback.rs
+++ b/src/mqtt/packet/v5_0/suback.rs
@@ -387,7 +387,8 @@ where
         }
 
         let remaining_size = buffer_size + property_length + reason_codes_buf.len();
-        let remaining_length = VariableByteInteger::from_u32(remaining_size as u32).unwrap();
+        let remaining_length = VariableByteInteger::from_u32(remaining_size as u32)
+            .ok_or(MqttError::MalformedPacket)?;
 
         let suback = GenericSuback {
             fixed_header: [FixedHeader::Suback as u8],
diff --git a/src/mqtt/packet/v5_0/subscribe.rs b/src/mqtt/packet/v5_0/subscribe.rs
index ae98c80..1f3e622 100644
--- a/src/mqtt/packet/v5_0/subscribe.rs
+++ b/src/mqtt/packet/v5_0/subscribe.rs
@@ -362,7 +362,8 @@ where
 
         let remaining_size =
             buffer_size + property_length + entries.iter().map(|e| e.size()).sum::<usize>();
-        let remaining_length = VariableByteInteger::from_u32(remaining_size as u32).unwrap();
+        let remaining_length = VariableByteInteger::from_u32(remaining_size as u32)
+            .ok_or(MqttError::MalformedPacket)?;
 
         let subscribe = GenericSubscribe {
             fixed_header: [FixedHeader::Subscribe as u8],
diff --git a/src/mqtt/packet/v5_0/unsuback.rs b/src/mqtt/packet/v5_0/unsuback.rs
index c63e7ee..796fdaa 100644
--- a/src/mqtt/packet/v5_0/unsuback.rs
+++ b/src/mqtt/packet/v5_0/unsuback.rs
@@ -382,7 +382,8 @@ where
         }
 
         let remaining_size = buffer_size + property_length + reason_codes_buf.len();
-        let remaining_length = VariableByteInteger::from_u32(remaining_size as u32).unwrap();
+        let remaining_length = VariableByteInteger::from_u32(remaining_size as u32)
+            .ok_or(MqttError::MalformedPacket)?;
 
         let unsuback = GenericUnsuback {
             fixed_header: [FixedHeader::Unsuback as u8],
diff --git a/src/mqtt/packet/v5_0/unsubscribe.rs b/src/mqtt/packet/v5_0/unsubscribe.rs
index 178f354..0018bef 100644
--- a/src/mqtt/packet/v5_0/unsubscribe.rs
+++ b/src/mqtt/packet/v5_0/unsubscribe.rs
@@ -373,7 +373,8 @@ where
 
         let remaining_size =
             buffer_size + property_length + entries.iter().map(|e| e.size()).sum::<usize>();
-        let remaining_length = VariableByteInteger::from_u32(remaining_size as u32).unwrap();
+        let remaining_length = VariableByteInteger::from_u32(remaining_size as u32)
+            .ok_or(MqttError::MalformedPacket)?;
 
         let unsubscribe = GenericUnsubscribe {
             fixed_header: [FixedHeader::Unsubscribe as u8],
-- 
2.43.0


From e090d28c7d8a69f3591565285fc5827d4ce161e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:26 +0000
Subject: [PATCH 30/38] fix: v3.1.1 UNSUBACK builder assumed two-byte packet
 identifiers

---
 src/mqtt/packet/v3_1_1/unsuback.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mqtt/packet/v3_1_1/unsuback.rs b/src/mqtt/packet/v3_1_1/unsuback.rs
index 3455be3..1e5f637 100644
--- a/src/mqtt/packet/v3_1_1/unsuback.rs
+++ b/src/mqtt/packet/v3_1_1/unsuback.rs
@@ -468,7 +468,8 @@ where
         self.validate()?;
 
         let packet_id_buf = self.packet_id_buf.unwrap();
-        let remaining_length = VariableByteInteger::from_u32(2).unwrap(); // packet_id(2)
+        let remaining_size = mem::size_of::<<PacketIdType as IsPacketId>::Buffer>();
+        let remaining_length = VariableByteInteger::from_u32(remaining_size as u32).unwrap();
 
         Ok(GenericUnsuback {
             fixed_header: [FixedHeader::Unsuback.as_u8()],
-- 
2.43.0


From d37c2f2d6b9e3a2e0d486f0b802dd412474ef545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:26 +0000
Subject: [PATCH 31/38] fix: SUBSCRIBE/SUBACK/UNSUBSCRIBE/UNSUBACK parsers
 accepted packet identifier zero

---
 src/mqtt/packet/v3_1_1/suback.rs      | 4 ++++
 src/mqtt/packet/v3_1_1/subscribe.rs   | 4 ++++
 src/mqtt/packet/v3_1_1/unsuback.rs    | 4 ++++
 src/mqtt/packet/v3_1_1/unsubscribe.rs | 4 ++++
 src/mqtt/packet/v5_0/suback.rs        | 4 ++++
 src/mqtt/packet/v5_0/subscribe.rs     | 4 ++++
 src/mqtt/packet/v5_0/unsuback.rs      | 4 ++++
 src/mqtt/packet/v5_0/unsubscribe.rs   | 4 ++++
 8 files changed, 32 insertions(+)

diff --git a/src/mqtt/packet/v3_1_1/suback.rs b/src/mqtt/packet/v3_1_1/suback.rs
index 448758d..89a75ee 100644
--- a/src/mqtt/packet/v3_1_1/suback.rs
+++ b/src/mqtt/packet/v3_1_1/suback.rs
@@ -321,6 +321,10 @@ where
             return Err(MqttError::MalformedPacket);
         }
 
+        if data[0..buffer_size].iter().all(|&b| b == 0) {
+            return Err(MqttError::MalformedPacket);
+        }
+
         let packet_id = PacketIdType::from_buffer(&data[0..buffer_size]);
         let packet_id_buf = packet_id.to_buffer();
         cursor += buffer_size;
diff --git a/src/mqtt/packet/v3_1_1/subscribe.rs b/src/mqtt/packet/v3_1_1/subscribe.rs
index 3c00d8f..0963a10 100644
--- a/src/mqtt/packet/v3_1_1/subscribe.rs
+++ b/src/mqtt/packet/v3_1_1/subscribe.rs
@@ -315,6 +315,10 @@ where
             return Err(MqttError::MalformedPacket);
         }
 
+        if data[0..buffer_size].iter().all(|&b| b == 0) {
+            return Err(MqttError::MalformedPacket);
+        }
+
         let packet_id = PacketIdType::from_buffer(&data[0..buffer_size]);
         let packet_id_buf = packet_id.to_buffer();
         cursor += buffer_size;
diff --git a/src/mqtt/packet/v3_1_1/unsuback.rs b/src/mqtt/packet/v3_1_1/unsuback.rs
index 1e5f637..1e26ee9 100644
--- a/src/mqtt/packet/v3_1_1/unsuback.rs
+++ b/src/mqtt/packet/v3_1_1/unsuback.rs
@@ -348,6 +348,10 @@ where
             return Err(MqttError::MalformedPacket);
         }
 
+        if data[0..buffer_size].iter().all(|&b| b == 0) {
+            return Err(MqttError::MalformedPacket);
+        }
+
         let packet_id = PacketIdType::from_buffer(&data[0..buffer_size]);
         let packet_id_buf = packet_id.to_buffer();
         cursor += buffer_size;
diff --git a/src/mqtt/packet/v3_1_1/unsubscribe.rs b/src/mqtt/packet/v3_1_1/unsubscribe.rs
index 1054ad3..0c6beaa 100644
--- a/src/mqtt/packet/v3_1_1/unsubscribe.rs
+++ b/src/mqtt/packet/v3_1_1/unsubscribe.rs
@@ -330,6 +330,10 @@ where
             return Err(MqttError::MalformedPacket);
         }
 
+        if data[0..buffer_size].iter().all(|&b| b == 0) {
+            return Err(MqttError::MalformedPacket);
+        }
+
         let packet_id = PacketIdType::from_buffer(&data[0..buffer_size]);
         let packet_id_buf = packet_id.to_buffer();
         cursor += buffer_size;
diff --git a/src/mqtt/packet/v5_0/suback.rs b/src/mqtt/packet/v5_0/suback.rs
index 2b90d04..109f36c 100644
--- a/src/mqtt/packet/v5_0/suback.rs
+++ b/src/mqtt/packet/v5_0/suback.rs
@@ -365,6 +365,10 @@ where
             return Err(MqttError::MalformedPacket);
         }
 
+        if data[0..buffer_size].iter().all(|&b| b == 0) {
+            return Err(MqttError::MalformedPacket);
+        }
+
         let packet_id = PacketIdType::from_buffer(&data[0..buffer_size]);
         let packet_id_buf = packet_id.to_buffer();
         cursor += buffer_size;
diff --git a/src/mqtt/packet/v5_0/subscribe.rs b/src/mqtt/packet/v5_0/subscribe.rs
index 1f3e622..24bf2a9 100644
--- a/src/mqtt/packet/v5_0/subscribe.rs
+++ b/src/mqtt/packet/v5_0/subscribe.rs
@@ -335,6 +335,10 @@ where
             return Err(MqttError::MalformedPacket);
         }
 
+        if data[0..buffer_size].iter().all(|&b| b == 0) {
+            return Err(MqttError::MalformedPacket);
+        }
+
         let packet_id = PacketIdType::from_buffer(&data[0..buffer_size]);
         let packet_id_buf = packet_id.to_buffer();
         cursor += buffer_size;
diff --git a/src/mqtt/packet/v5_0/unsuback.rs b/src/mqtt/packet/v5_0/unsuback.rs
index 796fdaa..9294e8b 100644
--- a/src/mqtt/packet/v5_0/unsuback.rs
+++ b/src/mqtt/packet/v5_0/unsuback.rs
@@ -360,6 +360,10 @@ where
             return Err(MqttError::MalformedPacket);
         }
 
+        if data[0..buffer_size].iter().all(|&b| b == 0) {
+            return Err(MqttError::MalformedPacket);
+        }
+
         let packet_id = PacketIdType::from_buffer(&data[0..buffer_size]);
         let packet_id_buf = packet_id.to_buffer();
         cursor += buffer_size;
diff --git a/src/mqtt/packet/v5_0/unsubscribe.rs b/src/mqtt/packet/v5_0/unsubscribe.rs
index 0018bef..b85d9fa 100644
--- a/src/mqtt/packet/v5_0/unsubscribe.rs
+++ b/src/mqtt/packet/v5_0/unsubscribe.rs
@@ -346,6 +346,10 @@ where
             return Err(MqttError::MalformedPacket);
         }
 
+        if data[0..buffer_size].iter().all(|&b| b == 0) {
+            return Err(MqttError::MalformedPacket);
+        }
+
         let packet_id = PacketIdType::from_buffer(&data[0..buffer_size]);
         let packet_id_buf = packet_id.to_buffer();
         cursor += buffer_size;
-- 
2.43.0


From 90cdbcbb95bd79db36da9211ec9e468ed5a7f1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:26 +0000
Subject: [PATCH 32/38] fix: CONNECT builder mixed the will QoS and retain bits
 of repeated will_message calls

---
 src/mqtt/packet/v3_1_1/connect.rs | 1 +
 src/mqtt/packet/v5_0/connect.rs   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/mqtt/packet/v3_1_1/connect.rs b/src/mqtt/packet/v3_1_1/connect.rs
index e917a1a..cda1eb9 100644
--- a/src/mqtt/packet/v3_1_1/connect.rs
+++ b/src/mqtt/packet/v3_1_1/connect.rs
@@ -789,6 +789,7 @@ impl ConnectBuilder {
         self.will_payload_buf = Some(will_payload);
 
         let mut flags = self.connect_flags_buf.unwrap_or([0b0000_0010])[0];
+        flags &= !0b0011_1000; // Clear the Will QoS and Will Retain of an earlier call
         flags |= 0b0000_0100; // Will flag
         flags |= (qos as u8) << 3; // Will QoS
         if retain {
diff --git a/src/mqtt/packet/v5_0/connect.rs b/src/mqtt/packet/v5_0/connect.rs
index 2d5c8a4..3bc4386 100644
--- a/src/mqtt/packet/v5_0/connect.rs
+++ b/src/mqtt/packet/v5_0/connect.rs
@@ -837,6 +837,7 @@ impl ConnectBuilder {
         self.will_payload_buf = Some(will_payload);
 
         let mut flags = self.connect_flags_buf.unwrap_or([0b0000_0010])[0];
+        flags &= !0b0011_1000; // Clear the Will QoS and Will Retain of an earlier call
         flags |= 0b0000_0100; // Will flag
         flags |= (qos as u8) << 3; // Will QoS
         if retain {
-- 
2.43.0


From 056d07992e8a7af0eb9a208f210ee8e5bfe57134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:49 +0000
Subject: [PATCH 33/38] fix: v5.0 CONNECT builder kept will properties without
 a will message

---
 src/mqtt/packet/v5_0/connect.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/mqtt/packet/v5_0/connect.rs b/src/mqtt/packet/v5_0/connect.rs
index 3bc4386..74f988d 100644
--- a/src/mqtt/packet/v5_0/connect.rs
+++ b/src/mqtt/packet/v5_0/connect.rs
@@ -1055,7 +1055,12 @@ impl ConnectBuilder {
         let client_id_buf = self.client_id_buf.unwrap_or_default();
 
         let will_flag = (connect_flags & 0b0000_0100) != 0;
-        let will_props = self.will_props.unwrap_or_else(Properties::new);
+        let will_props = if will_flag {
+            self.will_props.unwrap_or_else(Properties::new)
+        } else {
+            // Will properties are encoded only as a part of the will message
+            Properties::new()
+        };
         let will_property_length = VariableByteInteger::from_u32(will_props.size() as u32).unwrap();
         let will_topic_buf = self.will_topic_buf.unwrap_or_default();
         let will_payload_buf = self.will_payload_buf.unwrap_or_default();
-- 
2.43.0


From 5f683ca6ea73b5c44651b3ea1b0fa6a5303c6c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:49 +0000
Subject: [PATCH 34/38] fix: SUBSCRIBE accepted more than one Subscription
 Identifier

---
 src/mqtt/packet/v5_0/subscribe.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mqtt/packet/v5_0/subscribe.rs b/src/mqtt/packet/v5_0/subscribe.rs
index 24bf2a9..bc96c24 100644
--- a/src/mqtt/packet/v5_0/subscribe.rs
+++ b/src/mqtt/packet/v5_0/subscribe.rs
@@ -872,12 +872,16 @@ where
 /// // This would be valid for SUBSCRIBE packets
 /// ```
 fn validate_subscribe_properties(props: &Properties) -> Result<(), MqttError> {
+    let mut count_subscription_identifier = 0;
     for prop in props {
         match prop {
-            Property::SubscriptionIdentifier(_) => {}
+            Property::SubscriptionIdentifier(_) => count_subscription_identifier += 1,
             Property::UserProperty(_) => {}
             _ => return Err(MqttError::ProtocolError),
         }
     }
+    if count_subscription_identifier > 1 {
+        return Err(MqttError::ProtocolError);
+    }
     Ok(())
 }
-- 
2.43.0


From 9ee0b283568eba9edc504e506a39ce1c0a7bbedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:49 +0000
Subject: [PATCH 35/38] fix: CONNACK parsers accepted reserved acknowledge
 flags

---
 src/mqtt/packet/v3_1_1/connack.rs | 4 ++++
 src/mqtt/packet/v5_0/connack.rs   | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/mqtt/packet/v3_1_1/connack.rs b/src/mqtt/packet/v3_1_1/connack.rs
index e8ec6ec..3f8dc5e 100644
--- a/src/mqtt/packet/v3_1_1/connack.rs
+++ b/src/mqtt/packet/v3_1_1/connack.rs
@@ -388,6 +388,10 @@ impl Connack {
         }
 
         let flags = data[0];
+        // Bits 7-1 of the Connect Acknowledge Flags are reserved and must be 0
+        if (flags & 0b1111_1110) != 0 {
+            return Err(MqttError::MalformedPacket);
+        }
         let session_present = (flags & 0x01) != 0;
 
         let code = data[1];
diff --git a/src/mqtt/packet/v5_0/connack.rs b/src/mqtt/packet/v5_0/connack.rs
index 1481dbf..45aeac6 100644
--- a/src/mqtt/packet/v5_0/connack.rs
+++ b/src/mqtt/packet/v5_0/connack.rs
@@ -410,6 +410,10 @@ impl Connack {
         }
         let flags = data[cursor];
         cursor += 1;
+        // Bits 7-1 of the Connect Acknowledge Flags are reserved and must be 0
+        if (flags & 0b1111_1110) != 0 {
+            return Err(MqttError::MalformedPacket);
+        }
         let _session = (flags & 0x01) != 0;
         let code = data[cursor];
         cursor += 1;
-- 
2.43.0


From e1ed2af9cbed5fd3b014b5bd8c2bfe4e3fe1995e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:49 +0000
Subject: [PATCH 36/38] fix: CONNECT parsers accepted reserved and inconsistent
 connect flags

---
 src/mqtt/packet/v3_1_1/connect.rs | 13 +++++++++++++
 src/mqtt/packet/v5_0/connect.rs   | 13 +++++++++++++
 2 files changed, 26 insertions(+)

diff --git a/src/mqtt/packet/v3_1_1/connect.rs b/src/mqtt/packet/v3_1_1/connect.rs
index cda1eb9..6604d38 100644
--- a/src/mqtt/packet/v3_1_1/connect.rs
+++ b/src/mqtt/packet/v3_1_1/connect.rs
@@ -560,6 +560,19 @@ impl Connect {
         let connect_flags_buf = [connect_flags];
         cursor += 1;
 
+        // The reserved bit must be 0
+        if (connect_flags & 0b0000_0001) != 0 {
+            return Err(MqttError::MalformedPacket);
+        }
+        // Without the will flag, Will QoS and Will Retain must be 0
+        if (connect_flags & 0b0000_0100) == 0 && (connect_flags & 0b0011_1000) != 0 {
+            return Err(MqttError::MalformedPacket);
+        }
+        // Will QoS 3 is not allowed
+        if (connect_flags & 0b0001_1000) == 0b0001_1000 {
+            return Err(MqttError::MalformedPacket);
+        }
+
         // Keep Alive
         if data.len() < cursor + 2 {
             return Err(MqttError::MalformedPacket);
diff --git a/src/mqtt/packet/v5_0/connect.rs b/src/mqtt/packet/v5_0/connect.rs
index 74f988d..261e7a2 100644
--- a/src/mqtt/packet/v5_0/connect.rs
+++ b/src/mqtt/packet/v5_0/connect.rs
@@ -590,6 +590,19 @@ impl Connect {
         let connect_flags_buf = [connect_flags];
         cursor += 1;
 
+        // The reserved bit must be 0
+        if (connect_flags & 0b0000_0001) != 0 {
+            return Err(MqttError::MalformedPacket);
+        }
+        // Without the will flag, Will QoS and Will Retain must be 0
+        if (connect_flags & 0b0000_0100) == 0 && (connect_flags & 0b0011_1000) != 0 {
+            return Err(MqttError::MalformedPacket);
+        }
+        // Will QoS 3 is not allowed
+        if (connect_flags & 0b0001_1000) == 0b0001_1000 {
+            return Err(MqttError::MalformedPacket);
+        }
+
         // Keep Alive
         if data.len() < cursor + 2 {
             return Err(MqttError::MalformedPacket);
-- 
2.43.0


From cf968fb83306a0d0e547dce8ca1720e9e1578f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:36 +0000
Subject: [PATCH 37/38] fix: releasing a packet identifier forgets the
 unanswered request it stood for

---
 src/mqtt/connection/core.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index 49f9462..ef0bfed 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -1010,6 +1010,14 @@ where
         let mut events = Vec::new();
 
         if self.pid_man.is_used_id(packet_id) {
+            // The identifier may be acquired again, so it no longer stands for a
+            // request that waits for its answer (a stored PUBLISH keeps waiting).
+            self.pid_suback.remove(&packet_id);
+            self.pid_unsuback.remove(&packet_id);
+            if !self.need_store {
+                self.pid_puback.remove(&packet_id);
+                self.pid_pubrec.remove(&packet_id);
+            }
             self.pid_man.release_id(packet_id);
             events.push(GenericEvent::NotifyPacketIdReleased(packet_id));
         }
-- 
2.43.0


From 5e527073513ce6b50a772d3ff4f2d811607714fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:36 +0000
Subject: [PATCH 38/38] fix: refuse an alias-only PUBLISH that could not be
 retransmitted with its topic

---
 src/mqtt/connection/core.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index ef0bfed..a186b6f 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -1695,6 +1695,10 @@ where
                         .remove_topic_alias_add_topic(topic_opt.unwrap())
                         .unwrap()
                         .set_dup(true);
+                    // The packet must also fit when it is retransmitted with its topic
+                    if !self.validate_maximum_packet_size_send(store_packet.size()) {
+                        return self.refuse_send(MqttError::PacketTooLarge, Some(packet_id));
+                    }
                     self.store.add(store_packet.try_into().unwrap()).unwrap();
                 } else {
                     // Topic name is not empty, remove topic alias if present
-- 
2.43.0

