From 21ce12d4178b46238da197437579bbdacbf5bb94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:34 +0000
Subject: [PATCH 01/33] fix: keep writing after a partial write instead of
 stalling

After a short write the loop left without a registered waker, so the rest
of the output stayed in the queue until some unrelated event polled the
connection again.
---
 akasa-core/src/protocols/mqtt/online_loop.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/akasa-core/src/protocols/mqtt/online_loop.rs b/akasa-core/src/protocols/mqtt/online_loop.rs
index 2268279..5d1b10d 100644
--- a/akasa-core/src/protocols/mqtt/online_loop.rs
+++ b/akasa-core/src/protocols/mqtt/online_loop.rs
@@ -430,7 +430,6 @@ where
                     if data_idx < data_all.len() {
                         write_packets
                             .push_front(WritePacket::Data((VarBytes::Dynamic(data_all), data_idx)));
-                        break;
                     }
                 }
                 Poll::Ready(Err(err)) => return Poll::Ready(Some(err)),
-- 
2.43.0


From b5e5f52e54a9f9fa176e3b412b539498190f1441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:38 +0000
Subject: [PATCH 02/33] fix: count a client as online only once it really is

A take-over of a connected session and a refused hand-over both raised the
online counter, which nothing lowered again.
---
 akasa-core/src/state.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/akasa-core/src/state.rs b/akasa-core/src/state.rs
index 4ca668e..9d832a6 100644
--- a/akasa-core/src/state.rs
+++ b/akasa-core/src/state.rs
@@ -139,6 +139,17 @@ impl GlobalState {
             .map(|pair| pair.value().control.clone())
     }
 
+    // The session of the client just been handed over to a new connection
+    fn online_client(&self, client_id: ClientId) {
+        let _guard = self.next_client_id.lock();
+        if let Some(mut pair) = self.client_id_map.get_mut(&client_id)
+            && !pair.value().1
+        {
+            pair.value_mut().1 = true;
+            self.online_clients.fetch_add(1, Ordering::AcqRel);
+        }
+    }
+
     // Client connected
     // TODO: error handling
     pub async fn add_client(
@@ -148,18 +159,15 @@ impl GlobalState {
     ) -> io::Result<AddClientReceipt> {
         let control_sender = {
             let mut next_client_id = self.next_client_id.lock();
-            self.online_clients.fetch_add(1, Ordering::AcqRel);
             let client_id_opt: Option<ClientId> = self
                 .client_identifier_map
                 .get(client_identifier)
                 .map(|pair| *pair.value());
             if let Some(old_id) = client_id_opt {
-                if let Some(mut pair) = self.client_id_map.get_mut(&old_id) {
-                    pair.value_mut().1 = true;
-                }
                 self.get_client_control_sender(&old_id).unwrap()
             } else {
                 let client_id = *next_client_id;
+                self.online_clients.fetch_add(1, Ordering::AcqRel);
                 self.client_id_map
                     .insert(client_id, (client_identifier.to_string(), true));
                 self.client_identifier_map
@@ -197,6 +205,7 @@ impl GlobalState {
                 log::warn!("receive session state error: {:?}", err);
                 io::Error::from(io::ErrorKind::InvalidData)
             })?;
+            self.online_client(session_state.client_id);
             Ok(AddClientReceipt::PresentV3(session_state))
         } else {
             let (sender, receiver) = bounded(1);
@@ -211,6 +220,7 @@ impl GlobalState {
                 log::warn!("receive session state error: {:?}", err);
                 io::Error::from(io::ErrorKind::InvalidData)
             })?;
+            self.online_client(session_state.client_id);
             Ok(AddClientReceipt::PresentV5(session_state))
         }
     }
-- 
2.43.0


From 9c78d1d65a39e34cdb5048682937f0f9df938613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:48 +0000
Subject: [PATCH 03/33] fix: do not leave a registered client behind when its
 connection ends early

A CONNACK or resend that could not be written, a failing after_connect or
after_disconnect hook, or a will the server does not support returned without
removing the client, so its identifier could never connect again.
---
 akasa-core/src/protocols/mqtt/online_loop.rs  |  3 +-
 akasa-core/src/protocols/mqtt/v3/message.rs   | 54 +++++++++++--------
 .../src/protocols/mqtt/v3/packet/connect.rs   |  8 +--
 akasa-core/src/protocols/mqtt/v5/message.rs   | 52 +++++++++++-------
 .../src/protocols/mqtt/v5/packet/connect.rs   | 40 ++++++++------
 5 files changed, 95 insertions(+), 62 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/online_loop.rs b/akasa-core/src/protocols/mqtt/online_loop.rs
index 5d1b10d..7dc305b 100644
--- a/akasa-core/src/protocols/mqtt/online_loop.rs
+++ b/akasa-core/src/protocols/mqtt/online_loop.rs
@@ -72,6 +72,7 @@ where
         conn: &'a mut C,
         taken_over: &'a mut bool,
         packet_state: GenericPollPacketState<H>,
+        first_packets: Vec<S::Packet>,
     ) -> Self {
         OnlineLoop {
             session,
@@ -86,7 +87,7 @@ where
             read_unfinish: false,
             normal_stream_unfinish: false,
             write_packets_max: 16,
-            write_packets: VecDeque::with_capacity(16),
+            write_packets: first_packets.into_iter().map(WritePacket::Packet).collect(),
             session_state_sender: None,
             hook_fut: None,
             draining: None,
diff --git a/akasa-core/src/protocols/mqtt/v3/message.rs b/akasa-core/src/protocols/mqtt/v3/message.rs
index 25f49f4..bc58c8a 100644
--- a/akasa-core/src/protocols/mqtt/v3/message.rs
+++ b/akasa-core/src/protocols/mqtt/v3/message.rs
@@ -28,7 +28,7 @@ use crate::state::{ClientId, ClientReceiver, ControlMessage, GlobalState, Normal
 use super::{
     Session, SessionState,
     packet::{
-        common::{after_handle_packet, handle_pendings, write_packet},
+        common::{after_handle_packet, handle_pendings},
         connect::{handle_connect, handle_disconnect},
         publish::{
             RecvPublish, SendPublish, handle_puback, handle_pubcomp, handle_publish, handle_pubrec,
@@ -140,13 +140,13 @@ async fn handle_online<
         return Err(io::ErrorKind::InvalidData.into());
     }
 
+    // NOTE: the client is registered, from here every way out must end in
+    // removing the client or making it offline.
+
     // Run after connect hook
+    let mut hook_result = Ok(());
     if global.config.hook.enable_before_connect {
-        after_connect_hook(&mut session, session_present, hook_handler, global).await?;
-    }
-
-    for packet in after_handle_packet(&mut session) {
-        write_packet(session.client_id, &mut conn, &packet).await?;
+        hook_result = after_connect_hook(&mut session, session_present, hook_handler, global).await;
     }
 
     let receiver = receiver.expect("receiver");
@@ -158,20 +158,30 @@ async fn handle_online<
     );
 
     let mut taken_over = false;
-    let online_loop = OnlineLoop::new(
-        &mut session,
-        global,
-        hook_handler,
-        &receiver,
-        receiver.control.stream(),
-        receiver.normal.stream(),
-        &mut conn,
-        &mut taken_over,
-        PollPacketState::default(),
-    );
-    let io_error = online_loop.await;
-    if global.config.hook.enable_after_disconnect {
-        after_disconnect_hook(&mut session, taken_over, hook_handler, global).await?;
+    let mut io_error = match hook_result {
+        Ok(()) => {
+            let first_packets = after_handle_packet(&mut session);
+            OnlineLoop::new(
+                &mut session,
+                global,
+                hook_handler,
+                &receiver,
+                receiver.control.stream(),
+                receiver.normal.stream(),
+                &mut conn,
+                &mut taken_over,
+                PollPacketState::default(),
+                first_packets,
+            )
+            .await
+        }
+        Err(err) => Some(err),
+    };
+    if global.config.hook.enable_after_disconnect
+        && let Err(err) =
+            after_disconnect_hook(&mut session, taken_over, hook_handler, global).await
+    {
+        io_error = Some(err);
     }
     if taken_over {
         return Ok(None);
@@ -180,7 +190,9 @@ async fn handle_online<
     // FIXME: check all place depend on session.disconnected
     if !session.disconnected {
         log::debug!("[{}] handling will...", session.client_id);
-        handle_will(&mut session, global).await?;
+        if let Err(err) = handle_will(&mut session, global).await {
+            io_error = Some(err);
+        }
     }
     for (target_id, info) in session.broadcast_packets.drain() {
         for msg in info.msgs {
diff --git a/akasa-core/src/protocols/mqtt/v3/packet/connect.rs b/akasa-core/src/protocols/mqtt/v3/packet/connect.rs
index 12e2c00..adc9c8f 100644
--- a/akasa-core/src/protocols/mqtt/v3/packet/connect.rs
+++ b/akasa-core/src/protocols/mqtt/v3/packet/connect.rs
@@ -148,8 +148,6 @@ clean session : {}
         }
     }
 
-    // FIXME: early return after add_client will cause memory leak
-
     start_keep_alive_timer(
         session.keep_alive,
         session.client_id,
@@ -160,9 +158,13 @@ clean session : {}
     log::debug!("Socket {} assgined to: {}", session.peer, session.client_id);
 
     let rv_packet = Connack::new(session_present, return_code);
-    write_packet(session.client_id, conn, &rv_packet.into()).await?;
     session.connected = true;
     session.connected_time = Some(Instant::now());
+    // The client is registered already, if the connection is broken the online
+    // loop will notice it and clean up.
+    if let Err(err) = write_packet(session.client_id, conn, &rv_packet.into()).await {
+        log::info!("[{}] write connack error: {}", session.client_id, err);
+    }
     Ok(session_present)
 }
 
diff --git a/akasa-core/src/protocols/mqtt/v5/message.rs b/akasa-core/src/protocols/mqtt/v5/message.rs
index 4b0f540..c5858cf 100644
--- a/akasa-core/src/protocols/mqtt/v5/message.rs
+++ b/akasa-core/src/protocols/mqtt/v5/message.rs
@@ -268,13 +268,13 @@ async fn handle_online<
         return Err(io::ErrorKind::InvalidData.into());
     }
 
+    // NOTE: the client is registered, from here every way out must end in
+    // removing the client or making it offline.
+
     // Run after connect hook
+    let mut hook_result = Ok(());
     if global.config.hook.enable_before_connect {
-        after_connect_hook(&mut session, session_present, hook_handler, global).await?;
-    }
-
-    for packet in after_handle_packet(&mut session) {
-        write_packet(session.client_id, &mut conn, &packet).await?;
+        hook_result = after_connect_hook(&mut session, session_present, hook_handler, global).await;
     }
 
     let receiver = receiver.expect("receiver");
@@ -286,20 +286,30 @@ async fn handle_online<
     );
 
     let mut taken_over = false;
-    let online_loop = OnlineLoop::new(
-        &mut session,
-        global,
-        hook_handler,
-        &receiver,
-        receiver.control.stream(),
-        receiver.normal.stream(),
-        &mut conn,
-        &mut taken_over,
-        PollPacketState::default(),
-    );
-    let io_error = online_loop.await;
-    if global.config.hook.enable_after_disconnect {
-        after_disconnect_hook(&mut session, taken_over, hook_handler, global).await?;
+    let mut io_error = match hook_result {
+        Ok(()) => {
+            let first_packets = after_handle_packet(&mut session);
+            OnlineLoop::new(
+                &mut session,
+                global,
+                hook_handler,
+                &receiver,
+                receiver.control.stream(),
+                receiver.normal.stream(),
+                &mut conn,
+                &mut taken_over,
+                PollPacketState::default(),
+                first_packets,
+            )
+            .await
+        }
+        Err(err) => Some(err),
+    };
+    if global.config.hook.enable_after_disconnect
+        && let Err(err) =
+            after_disconnect_hook(&mut session, taken_over, hook_handler, global).await
+    {
+        io_error = Some(err);
     }
     if taken_over {
         return Ok(None);
@@ -313,7 +323,9 @@ async fn handle_online<
     );
     // FIXME: check all place depend on session.disconnected
     if !session.client_disconnected {
-        handle_will(&mut session, global).await?;
+        if let Err(err) = handle_will(&mut session, global).await {
+            io_error = Some(err);
+        }
     }
     broadcast_packets(&mut session).await;
     if session.session_expiry_interval == 0 {
diff --git a/akasa-core/src/protocols/mqtt/v5/packet/connect.rs b/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
index dc0e52d..f43034b 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
@@ -220,6 +220,22 @@ pub(crate) async fn session_connect<T: AsyncWrite + Unpin>(
     conn: &mut T,
     global: &Arc<GlobalState>,
 ) -> io::Result<bool> {
+    // Must be checked before the client is registered
+    if let Some(will) = session.last_will.as_ref() {
+        let reason_code = if will.retain && !global.config.retain_available {
+            ConnectReasonCode::RetainNotSupported
+        } else if will.qos > global.config.max_allowed_qos() {
+            ConnectReasonCode::QoSNotSupported
+        } else {
+            ConnectReasonCode::Success
+        };
+        if reason_code != ConnectReasonCode::Success {
+            let err_pkt = build_error_connack(session, false, reason_code, "");
+            write_packet(session.client_id, conn, &err_pkt).await?;
+            return Ok(false);
+        }
+    }
+
     let mut session_present = false;
     match global
         .add_client(&session.client_identifier, session.protocol)
@@ -319,27 +335,17 @@ pub(crate) async fn session_connect<T: AsyncWrite + Unpin>(
     }
     // * TODO ServerReference
 
-    let reason_code = if let Some(will) = session.last_will.as_ref() {
-        if will.retain && !global.config.retain_available {
-            ConnectReasonCode::RetainNotSupported
-        } else if will.qos > global.config.max_allowed_qos() {
-            ConnectReasonCode::QoSNotSupported
-        } else {
-            ConnectReasonCode::Success
-        }
-    } else {
-        ConnectReasonCode::Success
-    };
     let rv_packet = Connack {
         session_present,
-        reason_code,
+        reason_code: ConnectReasonCode::Success,
         properties: connack_properties,
     };
-    write_packet(session.client_id, conn, &rv_packet.into()).await?;
-
-    if reason_code == ConnectReasonCode::Success {
-        session.connected = true;
-        session.connected_time = Some(Instant::now());
+    session.connected = true;
+    session.connected_time = Some(Instant::now());
+    // The client is registered already, if the connection is broken the online
+    // loop will notice it and clean up.
+    if let Err(err) = write_packet(session.client_id, conn, &rv_packet.into()).await {
+        log::info!("[{}] write connack error: {}", session.client_id, err);
     }
     Ok(session_present)
 }
-- 
2.43.0


From db5fb10487d676bc8a6473656f6ce540b917fbab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:00 +0000
Subject: [PATCH 04/33] fix: let enable_after_connect control the after_connect
 hook

---
 akasa-core/src/protocols/mqtt/v3/message.rs | 2 +-
 akasa-core/src/protocols/mqtt/v5/message.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/v3/message.rs b/akasa-core/src/protocols/mqtt/v3/message.rs
index bc58c8a..d1e9d4b 100644
--- a/akasa-core/src/protocols/mqtt/v3/message.rs
+++ b/akasa-core/src/protocols/mqtt/v3/message.rs
@@ -145,7 +145,7 @@ async fn handle_online<
 
     // Run after connect hook
     let mut hook_result = Ok(());
-    if global.config.hook.enable_before_connect {
+    if global.config.hook.enable_after_connect {
         hook_result = after_connect_hook(&mut session, session_present, hook_handler, global).await;
     }
 
diff --git a/akasa-core/src/protocols/mqtt/v5/message.rs b/akasa-core/src/protocols/mqtt/v5/message.rs
index c5858cf..7def4c5 100644
--- a/akasa-core/src/protocols/mqtt/v5/message.rs
+++ b/akasa-core/src/protocols/mqtt/v5/message.rs
@@ -273,7 +273,7 @@ async fn handle_online<
 
     // Run after connect hook
     let mut hook_result = Ok(());
-    if global.config.hook.enable_before_connect {
+    if global.config.hook.enable_after_connect {
         hook_result = after_connect_hook(&mut session, session_present, hook_handler, global).await;
     }
 
-- 
2.43.0


From 945fa210ee0b6d8ae987352928e76cefd29ce9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:50 +0000
Subject: [PATCH 05/33] fix: a keep-alive timer must not kick the next
 connection of the client

---
 akasa-core/src/protocols/mqtt/common.rs     |  1 +
 akasa-core/src/protocols/mqtt/v3/message.rs | 12 ++++++++++--
 akasa-core/src/protocols/mqtt/v5/message.rs | 12 ++++++++++--
 akasa-core/src/state.rs                     |  6 +++++-
 4 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/common.rs b/akasa-core/src/protocols/mqtt/common.rs
index b1dc7e7..f43709c 100644
--- a/akasa-core/src/protocols/mqtt/common.rs
+++ b/akasa-core/src/protocols/mqtt/common.rs
@@ -33,6 +33,7 @@ pub(crate) fn start_keep_alive_timer(
                 if let Some(sender) = global.get_client_control_sender(&client_id) {
                     let msg = ControlMessage::Kick {
                         reason: "timeout".to_owned(),
+                        last_packet_time,
                     };
                     if let Err(err) = sender.send_async(msg).await {
                         log::warn!(
diff --git a/akasa-core/src/protocols/mqtt/v3/message.rs b/akasa-core/src/protocols/mqtt/v3/message.rs
index d1e9d4b..693a551 100644
--- a/akasa-core/src/protocols/mqtt/v3/message.rs
+++ b/akasa-core/src/protocols/mqtt/v3/message.rs
@@ -567,8 +567,16 @@ fn handle_control(
         ControlMessage::OnlineV5 { .. } => {
             log::info!("take over v3.x by v5.x client is not allowed");
         }
-        ControlMessage::Kick { reason } => {
-            if offline {
+        ControlMessage::Kick {
+            reason,
+            last_packet_time,
+        } => {
+            if !Arc::ptr_eq(&last_packet_time, &session.last_packet_time) {
+                log::info!(
+                    "ignore kick message for an old connection of client {}",
+                    session.client_id
+                );
+            } else if offline {
                 log::info!(
                     "ignore kick message when client {} is offline",
                     session.client_id
diff --git a/akasa-core/src/protocols/mqtt/v5/message.rs b/akasa-core/src/protocols/mqtt/v5/message.rs
index 7def4c5..32da7d7 100644
--- a/akasa-core/src/protocols/mqtt/v5/message.rs
+++ b/akasa-core/src/protocols/mqtt/v5/message.rs
@@ -759,8 +759,16 @@ fn handle_control(
             log::warn!("take over v5.x session by v3.x client is not allowed");
         }
         ControlMessage::OnlineV5 { sender } => return (false, Some(sender)),
-        ControlMessage::Kick { reason } => {
-            if offline {
+        ControlMessage::Kick {
+            reason,
+            last_packet_time,
+        } => {
+            if !Arc::ptr_eq(&last_packet_time, &session.last_packet_time) {
+                log::info!(
+                    "ignore kick message for an old connection of client {}",
+                    session.client_id
+                );
+            } else if offline {
                 log::info!(
                     "ignore kick message when client {} is offline",
                     session.client_id
diff --git a/akasa-core/src/state.rs b/akasa-core/src/state.rs
index 9d832a6..f5d31d6 100644
--- a/akasa-core/src/state.rs
+++ b/akasa-core/src/state.rs
@@ -3,6 +3,7 @@ use std::fmt;
 use std::io;
 use std::num::NonZeroU32;
 
+use std::sync::Arc;
 use std::sync::atomic::{AtomicU64, Ordering};
 
 use std::time::Instant;
@@ -11,7 +12,7 @@ use bytes::Bytes;
 use dashmap::DashMap;
 use flume::{Receiver, Sender, bounded};
 use mqtt_proto::{Protocol, QoS, TopicFilter, TopicName, v5::PublishProperties};
-use parking_lot::Mutex;
+use parking_lot::{Mutex, RwLock};
 
 use crate::config::Config;
 use crate::protocols::mqtt::{self, RetainTable, RouteTable};
@@ -240,6 +241,9 @@ pub enum ControlMessage {
     /// Kick client out (disconnect the client)
     Kick {
         reason: String,
+        // Identify the connection to be kicked, a session taken over by a new
+        // connection must ignore the message.
+        last_packet_time: Arc<RwLock<Instant>>,
     },
     SessionExpired {
         connected_time: Instant,
-- 
2.43.0


From c64db9ceccbcc21b40f31a9ecd3334f35c661dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:35 +0000
Subject: [PATCH 06/33] fix: publish a QoS 2 message seen for the first time
 even if DUP is set

The first copy may have been lost with the previous connection; it was
acknowledged but never forwarded.
---
 akasa-core/src/protocols/mqtt/v3/packet/publish.rs | 5 ++++-
 akasa-core/src/protocols/mqtt/v5/packet/publish.rs | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/v3/packet/publish.rs b/akasa-core/src/protocols/mqtt/v3/packet/publish.rs
index ffe2cd3..cdbd8ac 100644
--- a/akasa-core/src/protocols/mqtt/v3/packet/publish.rs
+++ b/akasa-core/src/protocols/mqtt/v3/packet/publish.rs
@@ -47,6 +47,8 @@ topic name : {}
         return Err(io::ErrorKind::InvalidData.into());
     }
 
+    // A QoS2 message already published, must not publish it again
+    let mut published = false;
     if let QosPid::Level2(pid) = packet.qos_pid {
         let mut hasher = AHasher::default();
         packet.hash(&mut hasher);
@@ -65,13 +67,14 @@ topic name : {}
                 );
                 return Err(io::ErrorKind::InvalidData.into());
             }
+            published = true;
         } else {
             // FIXME: check qos2_pids limit
             session.qos2_pids.insert(pid, current_hash);
         }
     }
 
-    if !(packet.dup && packet.qos_pid.qos() == QoS::Level2) {
+    if !published {
         let encode_len = total_len(packet.encode_len()).expect("packet too large");
         send_publish(
             session,
diff --git a/akasa-core/src/protocols/mqtt/v5/packet/publish.rs b/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
index 4001400..a0aac3c 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
@@ -118,6 +118,8 @@ topic name : {}
         return Err(err_pkt);
     }
 
+    // A QoS2 message already published, must not publish it again
+    let mut published = false;
     if let QosPid::Level2(pid) = packet.qos_pid {
         let mut hasher = AHasher::default();
         packet.hash(&mut hasher);
@@ -147,6 +149,7 @@ topic name : {}
                 );
                 return Err(err_pkt);
             }
+            published = true;
         } else if session.qos2_pids.len() >= global.config.max_inflight_server as usize {
             let err_pkt = build_error_disconnect(
                 session,
@@ -160,7 +163,7 @@ topic name : {}
         }
     }
 
-    let matched_len = if !(packet.dup && packet.qos_pid.qos() == QoS::Level2) {
+    let matched_len = if !published {
         let encode_len = total_len(packet.encode_len()).expect("packet too large");
         let properties = &mut packet.properties;
         properties.topic_alias = None;
-- 
2.43.0


From ba94939696f744a6c013ebf4e8c639cd95c68aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:51 +0000
Subject: [PATCH 07/33] fix: an acknowledgement only completes a message of its
 own QoS

A PUBACK completed a QoS 2 message and a PUBREC moved a QoS 1 message to the
release stage.
---
 akasa-core/src/protocols/mqtt/pending.rs      | 26 +++++++++++++++----
 .../src/protocols/mqtt/v3/packet/publish.rs   |  1 +
 .../src/protocols/mqtt/v5/packet/common.rs    |  3 +--
 .../src/protocols/mqtt/v5/packet/publish.rs   |  1 +
 4 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/pending.rs b/akasa-core/src/protocols/mqtt/pending.rs
index e6bff72..9526023 100644
--- a/akasa-core/src/protocols/mqtt/pending.rs
+++ b/akasa-core/src/protocols/mqtt/pending.rs
@@ -27,7 +27,7 @@ impl<P: Debug> PendingPackets<P> {
     }
 
     /// Push a packet into queue, return if the queue is full.
-    pub fn push_back(&mut self, pid: Pid, packet: P) -> bool {
+    pub fn push_back(&mut self, pid: Pid, qos: QoS, packet: P) -> bool {
         if self.packets.len() >= self.max_packets {
             log::error!(
                 "drop packet {:?}, due to too many packets in the queue: {}",
@@ -40,6 +40,7 @@ impl<P: Debug> PendingPackets<P> {
             added_at: get_unix_ts(),
             last_sent: 0,
             pid,
+            qos,
             packet,
             dup: false,
         });
@@ -51,8 +52,8 @@ impl<P: Debug> PendingPackets<P> {
         for idx in 0..current_inflight {
             let packet_status = self.packets.get_mut(idx).expect("packet");
             match packet_status {
-                PendingPacketStatus::New { pid, .. } => {
-                    if *pid == target_pid {
+                PendingPacketStatus::New { pid, qos, .. } => {
+                    if *pid == target_pid && *qos == QoS::Level2 {
                         *packet_status = PendingPacketStatus::Pubrec {
                             last_sent: get_unix_ts(),
                             pid: target_pid,
@@ -72,8 +73,12 @@ impl<P: Debug> PendingPackets<P> {
         for idx in 0..current_inflight {
             let packet_status = self.packets.get_mut(idx).expect("packet");
             match packet_status {
-                PendingPacketStatus::New { pid, .. } if qos == QoS::Level1 => {
-                    if *pid == target_pid {
+                PendingPacketStatus::New {
+                    pid,
+                    qos: packet_qos,
+                    ..
+                } if qos == QoS::Level1 => {
+                    if *pid == target_pid && *packet_qos == QoS::Level1 {
                         *packet_status = PendingPacketStatus::Complete;
                         return true;
                     }
@@ -90,6 +95,16 @@ impl<P: Debug> PendingPackets<P> {
         false
     }
 
+    /// Drop a packet which must not be sent any more, whatever its QoS is
+    pub fn expire(&mut self, target_pid: Pid) {
+        for packet_status in &mut self.packets {
+            if matches!(packet_status, PendingPacketStatus::New { pid, .. } if *pid == target_pid) {
+                *packet_status = PendingPacketStatus::Complete;
+                return;
+            }
+        }
+    }
+
     pub fn clean_complete(&mut self) {
         let mut changed = false;
         while let Some(PendingPacketStatus::Complete) = self.packets.front() {
@@ -164,6 +179,7 @@ pub enum PendingPacketStatus<P> {
         // Last sent this packet timestamp as seconds
         last_sent: u64,
         pid: Pid,
+        qos: QoS,
         packet: P,
         dup: bool,
     },
diff --git a/akasa-core/src/protocols/mqtt/v3/packet/publish.rs b/akasa-core/src/protocols/mqtt/v3/packet/publish.rs
index cdbd8ac..f77a9ec 100644
--- a/akasa-core/src/protocols/mqtt/v3/packet/publish.rs
+++ b/akasa-core/src/protocols/mqtt/v3/packet/publish.rs
@@ -251,6 +251,7 @@ pub(crate) fn recv_publish(
         session.pending_packets.clean_complete();
         if session.pending_packets.push_back(
             pid,
+            final_qos,
             PubPacket {
                 topic_name: msg.topic_name.clone(),
                 qos: final_qos,
diff --git a/akasa-core/src/protocols/mqtt/v5/packet/common.rs b/akasa-core/src/protocols/mqtt/v5/packet/common.rs
index d379405..435d469 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/common.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/common.rs
@@ -231,8 +231,7 @@ pub(crate) fn handle_pendings(session: &mut Session) -> Vec<Packet> {
         }
     }
     for pid in &expired_packets {
-        // If the QoS2 message exipred, it's MUST also treated as QoS1 message
-        pending_packets.complete(*pid, QoS::Level1);
+        pending_packets.expire(*pid);
     }
     if !expired_packets.is_empty() {
         pending_packets.clean_complete();
diff --git a/akasa-core/src/protocols/mqtt/v5/packet/publish.rs b/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
index a0aac3c..264f5ad 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
@@ -464,6 +464,7 @@ pub(crate) fn recv_publish(
         // TODO: proper handle this error
         let _is_full = session.pending_packets.push_back(
             pid,
+            final_qos,
             PubPacket {
                 topic_name: msg.topic_name.clone(),
                 qos: final_qos,
-- 
2.43.0


From 396e7a6798c2fe8493f6bb944091dcf2de1143db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:05 +0000
Subject: [PATCH 08/33] fix: send the messages behind expired ones at once

---
 akasa-core/src/protocols/mqtt/v5/packet/common.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/akasa-core/src/protocols/mqtt/v5/packet/common.rs b/akasa-core/src/protocols/mqtt/v5/packet/common.rs
index 435d469..d4f9b35 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/common.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/common.rs
@@ -234,7 +234,8 @@ pub(crate) fn handle_pendings(session: &mut Session) -> Vec<Packet> {
         pending_packets.expire(*pid);
     }
     if !expired_packets.is_empty() {
-        pending_packets.clean_complete();
+        // The expired packets made room for the following ones
+        packets.extend(handle_pendings(session));
     }
     packets
 }
-- 
2.43.0


From bc383c1cc367b14b3eeff1ec4eb41f364f824bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:52 +0000
Subject: [PATCH 09/33] fix: keep the messages a taken over connection had
 accepted but not forwarded

---
 akasa-core/src/protocols/mqtt/v3/packet/connect.rs | 3 +++
 akasa-core/src/protocols/mqtt/v5/packet/connect.rs | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/akasa-core/src/protocols/mqtt/v3/packet/connect.rs b/akasa-core/src/protocols/mqtt/v3/packet/connect.rs
index adc9c8f..d218364 100644
--- a/akasa-core/src/protocols/mqtt/v3/packet/connect.rs
+++ b/akasa-core/src/protocols/mqtt/v3/packet/connect.rs
@@ -117,6 +117,9 @@ clean session : {}
             log::debug!("Got exists session for {}", old_state.client_id);
             session.client_id = old_state.client_id;
             *receiver = Some(old_state.receiver);
+            // These messages are already accepted from the client
+            session.broadcast_packets_cnt = old_state.broadcast_packets_cnt;
+            session.broadcast_packets = old_state.broadcast_packets;
             // TODO: if protocol level is compatiable, copy the session state?
             if !session.clean_session && session.protocol == old_state.protocol {
                 session.server_packet_id = old_state.server_packet_id;
diff --git a/akasa-core/src/protocols/mqtt/v5/packet/connect.rs b/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
index f43034b..f64ae10 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
@@ -247,6 +247,9 @@ pub(crate) async fn session_connect<T: AsyncWrite + Unpin>(
             log::debug!("Got exists session for {}", old_state.client_id);
             session.client_id = old_state.client_id;
             *receiver = Some(old_state.receiver);
+            // These messages are already accepted from the client
+            session.broadcast_packets_cnt = old_state.broadcast_packets_cnt;
+            session.broadcast_packets = old_state.broadcast_packets;
             // TODO: if protocol level is compatiable, copy the session state?
             if !session.clean_start && session.protocol == old_state.protocol {
                 session.server_packet_id = old_state.server_packet_id;
-- 
2.43.0


From 2648adfab9443160dd3f3d2c1eb3a1b8d70b7c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:38 +0000
Subject: [PATCH 10/33] fix: a clean start ends the old session with its
 subscriptions and messages

The old subscriptions stayed in the route table and messages still in the
channel of the old session could be delivered to the new one.
---
 .../src/protocols/mqtt/v3/packet/connect.rs   | 69 ++++++++++---------
 .../src/protocols/mqtt/v5/packet/connect.rs   | 69 ++++++++++---------
 2 files changed, 72 insertions(+), 66 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/v3/packet/connect.rs b/akasa-core/src/protocols/mqtt/v3/packet/connect.rs
index d218364..29b4323 100644
--- a/akasa-core/src/protocols/mqtt/v3/packet/connect.rs
+++ b/akasa-core/src/protocols/mqtt/v3/packet/connect.rs
@@ -108,27 +108,29 @@ clean session : {}
         session.last_will = Some(last_will);
     }
 
-    let mut session_present = false;
-    match global
-        .add_client(&session.client_identifier, session.protocol)
-        .await?
-    {
-        AddClientReceipt::PresentV3(old_state) => {
-            log::debug!("Got exists session for {}", old_state.client_id);
-            session.client_id = old_state.client_id;
-            *receiver = Some(old_state.receiver);
-            // These messages are already accepted from the client
-            session.broadcast_packets_cnt = old_state.broadcast_packets_cnt;
-            session.broadcast_packets = old_state.broadcast_packets;
-            // TODO: if protocol level is compatiable, copy the session state?
-            if !session.clean_session && session.protocol == old_state.protocol {
-                session.server_packet_id = old_state.server_packet_id;
-                session.pending_packets = old_state.pending_packets;
-                session.pending_packets.reset_last_sent();
-                session.qos2_pids = old_state.qos2_pids;
-                session.subscribes = old_state.subscribes;
-                session_present = true;
-            } else {
+    let session_present = loop {
+        match global
+            .add_client(&session.client_identifier, session.protocol)
+            .await?
+        {
+            // not allowed, so this is dead branch.
+            AddClientReceipt::PresentV5(_) => unreachable!(),
+            AddClientReceipt::PresentV3(old_state) => {
+                log::debug!("Got exists session for {}", old_state.client_id);
+                // These messages are already accepted from the client
+                session.broadcast_packets_cnt = old_state.broadcast_packets_cnt;
+                session.broadcast_packets = old_state.broadcast_packets;
+                // TODO: if protocol level is compatiable, copy the session state?
+                if !session.clean_session && session.protocol == old_state.protocol {
+                    session.client_id = old_state.client_id;
+                    *receiver = Some(old_state.receiver);
+                    session.server_packet_id = old_state.server_packet_id;
+                    session.pending_packets = old_state.pending_packets;
+                    session.pending_packets.reset_last_sent();
+                    session.qos2_pids = old_state.qos2_pids;
+                    session.subscribes = old_state.subscribes;
+                    break true;
+                }
                 log::info!(
                     "{} session state removed due to reconnect with a different protocol version, new: {}, old: {}, or clean session: {}",
                     old_state.pending_packets.len(),
@@ -136,20 +138,21 @@ clean session : {}
                     old_state.protocol,
                     session.clean_session,
                 );
-                session_present = false;
+                // The old session ends here with its subscriptions and the
+                // messages still in its channel, then start with a new one.
+                global.remove_client(old_state.client_id, old_state.subscribes.keys());
+            }
+            AddClientReceipt::New {
+                client_id,
+                receiver: new_receiver,
+            } => {
+                log::debug!("Create new session for {}", client_id);
+                session.client_id = client_id;
+                *receiver = Some(new_receiver);
+                break false;
             }
         }
-        // not allowed, so this is dead branch.
-        AddClientReceipt::PresentV5(_) => unreachable!(),
-        AddClientReceipt::New {
-            client_id,
-            receiver: new_receiver,
-        } => {
-            log::debug!("Create new session for {}", client_id);
-            session.client_id = client_id;
-            *receiver = Some(new_receiver);
-        }
-    }
+    };
 
     start_keep_alive_timer(
         session.keep_alive,
diff --git a/akasa-core/src/protocols/mqtt/v5/packet/connect.rs b/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
index f64ae10..180af6e 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
@@ -236,29 +236,29 @@ pub(crate) async fn session_connect<T: AsyncWrite + Unpin>(
         }
     }
 
-    let mut session_present = false;
-    match global
-        .add_client(&session.client_identifier, session.protocol)
-        .await?
-    {
-        // not allowed, so this is dead branch.
-        AddClientReceipt::PresentV3(_) => unreachable!(),
-        AddClientReceipt::PresentV5(old_state) => {
-            log::debug!("Got exists session for {}", old_state.client_id);
-            session.client_id = old_state.client_id;
-            *receiver = Some(old_state.receiver);
-            // These messages are already accepted from the client
-            session.broadcast_packets_cnt = old_state.broadcast_packets_cnt;
-            session.broadcast_packets = old_state.broadcast_packets;
-            // TODO: if protocol level is compatiable, copy the session state?
-            if !session.clean_start && session.protocol == old_state.protocol {
-                session.server_packet_id = old_state.server_packet_id;
-                session.pending_packets = old_state.pending_packets;
-                session.pending_packets.reset_last_sent();
-                session.qos2_pids = old_state.qos2_pids;
-                session.subscribes = old_state.subscribes;
-                session_present = true;
-            } else {
+    let session_present = loop {
+        match global
+            .add_client(&session.client_identifier, session.protocol)
+            .await?
+        {
+            // not allowed, so this is dead branch.
+            AddClientReceipt::PresentV3(_) => unreachable!(),
+            AddClientReceipt::PresentV5(old_state) => {
+                log::debug!("Got exists session for {}", old_state.client_id);
+                // These messages are already accepted from the client
+                session.broadcast_packets_cnt = old_state.broadcast_packets_cnt;
+                session.broadcast_packets = old_state.broadcast_packets;
+                // TODO: if protocol level is compatiable, copy the session state?
+                if !session.clean_start && session.protocol == old_state.protocol {
+                    session.client_id = old_state.client_id;
+                    *receiver = Some(old_state.receiver);
+                    session.server_packet_id = old_state.server_packet_id;
+                    session.pending_packets = old_state.pending_packets;
+                    session.pending_packets.reset_last_sent();
+                    session.qos2_pids = old_state.qos2_pids;
+                    session.subscribes = old_state.subscribes;
+                    break true;
+                }
                 log::info!(
                     "{} session state removed due to reconnect with a different protocol version, new: {}, old: {}, or clean start: {}",
                     old_state.pending_packets.len(),
@@ -266,18 +266,21 @@ pub(crate) async fn session_connect<T: AsyncWrite + Unpin>(
                     old_state.protocol,
                     session.clean_start,
                 );
-                session_present = false;
+                // The old session ends here with its subscriptions and the
+                // messages still in its channel, then start with a new one.
+                global.remove_client(old_state.client_id, old_state.subscribes.keys());
+            }
+            AddClientReceipt::New {
+                client_id,
+                receiver: new_receiver,
+            } => {
+                log::debug!("Create new session for {}", client_id);
+                session.client_id = client_id;
+                *receiver = Some(new_receiver);
+                break false;
             }
         }
-        AddClientReceipt::New {
-            client_id,
-            receiver: new_receiver,
-        } => {
-            log::debug!("Create new session for {}", client_id);
-            session.client_id = client_id;
-            *receiver = Some(new_receiver);
-        }
-    }
+    };
 
     session
         .pending_packets
-- 
2.43.0


From 233a5beea9863835f39ef57790f7a05d244f8d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:39 +0000
Subject: [PATCH 11/33] fix: answer a client whose old session ends while it
 connects

The new connection waited for ever, or was closed, when the old connection
ended after it had been asked to hand the session over.
---
 akasa-core/src/state.rs | 138 +++++++++++++++++++++++-----------------
 1 file changed, 78 insertions(+), 60 deletions(-)

diff --git a/akasa-core/src/state.rs b/akasa-core/src/state.rs
index f5d31d6..ab46a29 100644
--- a/akasa-core/src/state.rs
+++ b/akasa-core/src/state.rs
@@ -158,75 +158,93 @@ impl GlobalState {
         client_identifier: &str,
         protocol: Protocol,
     ) -> io::Result<AddClientReceipt> {
-        let control_sender = {
-            let mut next_client_id = self.next_client_id.lock();
-            let client_id_opt: Option<ClientId> = self
+        loop {
+            let (old_id, control_sender) = {
+                let mut next_client_id = self.next_client_id.lock();
+                let client_id_opt: Option<ClientId> = self
+                    .client_identifier_map
+                    .get(client_identifier)
+                    .map(|pair| *pair.value());
+                if let Some(old_id) = client_id_opt {
+                    let sender = self.get_client_control_sender(&old_id).unwrap();
+                    (old_id, sender)
+                } else {
+                    let client_id = *next_client_id;
+                    self.online_clients.fetch_add(1, Ordering::AcqRel);
+                    self.client_id_map
+                        .insert(client_id, (client_identifier.to_string(), true));
+                    self.client_identifier_map
+                        .insert(client_identifier.to_string(), client_id);
+                    // FIXME: if some one subscribe topic "#" and never receive the message it will block all sender clients.
+                    //   Suggestion: Add QoS0 message to pending queue
+                    let (control_sender, control_receiver) = bounded(1);
+                    let (normal_sender, normal_receiver) = bounded(8);
+                    let sender = ClientSender {
+                        normal: normal_sender,
+                        control: control_sender,
+                    };
+                    self.clients.insert(client_id, sender);
+                    next_client_id.0 += 1;
+                    return Ok(AddClientReceipt::New {
+                        client_id,
+                        receiver: ClientReceiver {
+                            control: control_receiver,
+                            normal: normal_receiver,
+                        },
+                    });
+                }
+            };
+
+            let receipt_opt = if protocol < Protocol::V500 {
+                let (sender, receiver) = bounded(1);
+                let msg = ControlMessage::OnlineV3 { sender };
+                take_session(control_sender, msg, receiver)
+                    .await
+                    .map(AddClientReceipt::PresentV3)
+            } else {
+                let (sender, receiver) = bounded(1);
+                let msg = ControlMessage::OnlineV5 { sender };
+                take_session(control_sender, msg, receiver)
+                    .await
+                    .map(AddClientReceipt::PresentV5)
+            };
+            if let Some(receipt) = receipt_opt {
+                self.online_client(old_id);
+                return Ok(receipt);
+            }
+            let owner = self
                 .client_identifier_map
                 .get(client_identifier)
                 .map(|pair| *pair.value());
-            if let Some(old_id) = client_id_opt {
-                self.get_client_control_sender(&old_id).unwrap()
-            } else {
-                let client_id = *next_client_id;
-                self.online_clients.fetch_add(1, Ordering::AcqRel);
-                self.client_id_map
-                    .insert(client_id, (client_identifier.to_string(), true));
-                self.client_identifier_map
-                    .insert(client_identifier.to_string(), client_id);
-                // FIXME: if some one subscribe topic "#" and never receive the message it will block all sender clients.
-                //   Suggestion: Add QoS0 message to pending queue
-                let (control_sender, control_receiver) = bounded(1);
-                let (normal_sender, normal_receiver) = bounded(8);
-                let sender = ClientSender {
-                    normal: normal_sender,
-                    control: control_sender,
-                };
-                self.clients.insert(client_id, sender);
-                next_client_id.0 += 1;
-                return Ok(AddClientReceipt::New {
-                    client_id,
-                    receiver: ClientReceiver {
-                        control: control_receiver,
-                        normal: normal_receiver,
-                    },
-                });
-            }
-        };
-
-        if protocol < Protocol::V500 {
-            let (sender, receiver) = bounded(1);
-            if let Err(err) = control_sender
-                .send_async(ControlMessage::OnlineV3 { sender })
-                .await
-            {
-                log::warn!("send online control message error: {:?}", err);
+            if owner == Some(old_id) {
+                log::warn!("take over session of {} refused", old_id);
                 return Err(io::Error::from(io::ErrorKind::InvalidData));
             }
-            let session_state = receiver.recv_async().await.map_err(|err| {
-                log::warn!("receive session state error: {:?}", err);
-                io::Error::from(io::ErrorKind::InvalidData)
-            })?;
-            self.online_client(session_state.client_id);
-            Ok(AddClientReceipt::PresentV3(session_state))
-        } else {
-            let (sender, receiver) = bounded(1);
-            if let Err(err) = control_sender
-                .send_async(ControlMessage::OnlineV5 { sender })
-                .await
-            {
-                log::warn!("send online control message error: {:?}", err);
-                return Err(io::Error::from(io::ErrorKind::InvalidData));
-            }
-            let session_state = receiver.recv_async().await.map_err(|err| {
-                log::warn!("receive session state error: {:?}", err);
-                io::Error::from(io::ErrorKind::InvalidData)
-            })?;
-            self.online_client(session_state.client_id);
-            Ok(AddClientReceipt::PresentV5(session_state))
+            // The session ended before it could be taken over, try again
         }
     }
 }
 
+/// Ask the owner of the session to hand it over, return None if it is refused
+/// or the owner is gone.
+async fn take_session<T>(
+    control_sender: Sender<ControlMessage>,
+    msg: ControlMessage,
+    receiver: Receiver<T>,
+) -> Option<T> {
+    if let Err(err) = control_sender.send_async(msg).await {
+        log::warn!("send online control message error: {:?}", err);
+        return None;
+    }
+    // NOTE: a message left in the channel is only dropped with its last sender
+    drop(control_sender);
+    receiver
+        .recv_async()
+        .await
+        .map_err(|err| log::warn!("receive session state error: {:?}", err))
+        .ok()
+}
+
 #[derive(Debug, Clone)]
 pub enum ControlMessage {
     /// The v3.x client of the session connected, send the keept session to the connection loop
-- 
2.43.0


From 592166c6003ca483023d58aab62f94ae8ed8bb13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:55 +0000
Subject: [PATCH 12/33] fix: publish the will after a DISCONNECT with a reason
 code other than 0

---
 akasa-core/src/protocols/mqtt/v5/message.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/v5/message.rs b/akasa-core/src/protocols/mqtt/v5/message.rs
index 32da7d7..9a687b2 100644
--- a/akasa-core/src/protocols/mqtt/v5/message.rs
+++ b/akasa-core/src/protocols/mqtt/v5/message.rs
@@ -321,11 +321,9 @@ async fn handle_online<
         session.client_disconnected,
         session.server_disconnected,
     );
-    // FIXME: check all place depend on session.disconnected
-    if !session.client_disconnected {
-        if let Err(err) = handle_will(&mut session, global).await {
-            io_error = Some(err);
-        }
+    // NOTE: the will is already removed by a normal disconnect
+    if let Err(err) = handle_will(&mut session, global).await {
+        io_error = Some(err);
     }
     broadcast_packets(&mut session).await;
     if session.session_expiry_interval == 0 {
-- 
2.43.0


From fee6be7f666ee26423254e9f8e05f8999fc11aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:03 +0000
Subject: [PATCH 13/33] fix: publish the will of a connection ended by a
 take-over

The take-over closes the network connection without DISCONNECT; the will was
silently dropped even without delay or when the session ended.
---
 akasa-core/src/protocols/mqtt/v3/message.rs   | 19 +++++++++++++------
 .../src/protocols/mqtt/v3/packet/connect.rs   |  6 +++++-
 akasa-core/src/protocols/mqtt/v5/message.rs   | 17 ++++++++++++++++-
 .../src/protocols/mqtt/v5/packet/connect.rs   |  6 +++++-
 akasa-core/src/state.rs                       |  8 +++++++-
 5 files changed, 46 insertions(+), 10 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/v3/message.rs b/akasa-core/src/protocols/mqtt/v3/message.rs
index 693a551..e23a0ea 100644
--- a/akasa-core/src/protocols/mqtt/v3/message.rs
+++ b/akasa-core/src/protocols/mqtt/v3/message.rs
@@ -190,7 +190,7 @@ async fn handle_online<
     // FIXME: check all place depend on session.disconnected
     if !session.disconnected {
         log::debug!("[{}] handling will...", session.client_id);
-        if let Err(err) = handle_will(&mut session, global).await {
+        if let Err(err) = handle_will(&mut session, global) {
             io_error = Some(err);
         }
     }
@@ -452,9 +452,9 @@ impl OnlineSession for Session {
     fn handle_control(
         &mut self,
         msg: ControlMessage,
-        _global: &Arc<GlobalState>,
+        global: &Arc<GlobalState>,
     ) -> (bool, Option<Sender<SessionState>>) {
-        handle_control(self, msg, false)
+        handle_control(self, msg, global, false)
     }
 
     fn handle_normal(
@@ -477,7 +477,7 @@ async fn handle_offline(mut session: Session, receiver: ClientReceiver, global:
         tokio::select! {
             result = receiver.control.recv_async() => match result {
                 Ok(msg) => {
-                    let (stop, sender_opt) = handle_control(&mut session, msg, true);
+                    let (stop, sender_opt) = handle_control(&mut session, msg, &global, true);
                     if let Some(sender) = sender_opt {
                         while let Ok((sender_id, normal_msg)) = receiver.normal.try_recv() {
                             let _ = handle_normal(&mut session, sender_id, normal_msg);
@@ -517,7 +517,7 @@ async fn handle_offline(mut session: Session, receiver: ClientReceiver, global:
 }
 
 #[inline]
-async fn handle_will(session: &mut Session, global: &Arc<GlobalState>) -> io::Result<()> {
+fn handle_will(session: &mut Session, global: &Arc<GlobalState>) -> io::Result<()> {
     if let Some(last_will) = session.last_will.take() {
         let encode_len = {
             let qos_pid = match last_will.qos {
@@ -556,6 +556,7 @@ async fn handle_will(session: &mut Session, global: &Arc<GlobalState>) -> io::Re
 fn handle_control(
     session: &mut Session,
     msg: ControlMessage,
+    global: &Arc<GlobalState>,
     offline: bool,
 ) -> (bool, Option<Sender<SessionState>>) {
     // FIXME: call receiver.try_recv() to clear the channel, if the pending
@@ -563,7 +564,13 @@ fn handle_control(
     // sending qos0 messages to this client.
     let mut stop = false;
     match msg {
-        ControlMessage::OnlineV3 { sender } => return (false, Some(sender)),
+        ControlMessage::OnlineV3 { sender } => {
+            // The network connection ends here
+            if handle_will(session, global).is_err() {
+                log::warn!("send will failed (packet too large)");
+            }
+            return (false, Some(sender));
+        }
         ControlMessage::OnlineV5 { .. } => {
             log::info!("take over v3.x by v5.x client is not allowed");
         }
diff --git a/akasa-core/src/protocols/mqtt/v3/packet/connect.rs b/akasa-core/src/protocols/mqtt/v3/packet/connect.rs
index 29b4323..d048f07 100644
--- a/akasa-core/src/protocols/mqtt/v3/packet/connect.rs
+++ b/akasa-core/src/protocols/mqtt/v3/packet/connect.rs
@@ -110,7 +110,11 @@ clean session : {}
 
     let session_present = loop {
         match global
-            .add_client(&session.client_identifier, session.protocol)
+            .add_client(
+                &session.client_identifier,
+                session.protocol,
+                session.clean_session,
+            )
             .await?
         {
             // not allowed, so this is dead branch.
diff --git a/akasa-core/src/protocols/mqtt/v5/message.rs b/akasa-core/src/protocols/mqtt/v5/message.rs
index 9a687b2..08ec31f 100644
--- a/akasa-core/src/protocols/mqtt/v5/message.rs
+++ b/akasa-core/src/protocols/mqtt/v5/message.rs
@@ -756,7 +756,22 @@ fn handle_control(
         ControlMessage::OnlineV3 { .. } => {
             log::warn!("take over v5.x session by v3.x client is not allowed");
         }
-        ControlMessage::OnlineV5 { sender } => return (false, Some(sender)),
+        ControlMessage::OnlineV5 {
+            sender,
+            clean_start,
+        } => {
+            // The network connection, and maybe the session, end here.
+            let session_ended = clean_start || session.session_expiry_interval == 0;
+            let will_delay = session
+                .last_will
+                .as_ref()
+                .and_then(|will| will.properties.delay_interval)
+                .unwrap_or(0);
+            if (session_ended || will_delay == 0) && send_will(session, global).is_err() {
+                log::warn!("send will failed (packet too large)");
+            }
+            return (false, Some(sender));
+        }
         ControlMessage::Kick {
             reason,
             last_packet_time,
diff --git a/akasa-core/src/protocols/mqtt/v5/packet/connect.rs b/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
index 180af6e..9d12c3d 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
@@ -238,7 +238,11 @@ pub(crate) async fn session_connect<T: AsyncWrite + Unpin>(
 
     let session_present = loop {
         match global
-            .add_client(&session.client_identifier, session.protocol)
+            .add_client(
+                &session.client_identifier,
+                session.protocol,
+                session.clean_start,
+            )
             .await?
         {
             // not allowed, so this is dead branch.
diff --git a/akasa-core/src/state.rs b/akasa-core/src/state.rs
index ab46a29..d6a1f4f 100644
--- a/akasa-core/src/state.rs
+++ b/akasa-core/src/state.rs
@@ -157,6 +157,7 @@ impl GlobalState {
         &self,
         client_identifier: &str,
         protocol: Protocol,
+        clean_start: bool,
     ) -> io::Result<AddClientReceipt> {
         loop {
             let (old_id, control_sender) = {
@@ -203,7 +204,10 @@ impl GlobalState {
                     .map(AddClientReceipt::PresentV3)
             } else {
                 let (sender, receiver) = bounded(1);
-                let msg = ControlMessage::OnlineV5 { sender };
+                let msg = ControlMessage::OnlineV5 {
+                    sender,
+                    clean_start,
+                };
                 take_session(control_sender, msg, receiver)
                     .await
                     .map(AddClientReceipt::PresentV5)
@@ -254,6 +258,8 @@ pub enum ControlMessage {
     /// The v5.x client of the session connected, send the keept session to the connection loop
     OnlineV5 {
         sender: Sender<mqtt::v5::SessionState>,
+        // The session will not be resumed by the new connection
+        clean_start: bool,
     },
     // TODO: maybe rename to Timeout
     /// Kick client out (disconnect the client)
-- 
2.43.0


From 2cebf862a6555a183af53e97f90a9ade47ca77f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:33 +0000
Subject: [PATCH 14/33] fix: tell an MQTT 5 client that its session was taken
 over

---
 akasa-core/src/protocols/mqtt/online_loop.rs | 50 ++++++++++++++++++++
 akasa-core/src/protocols/mqtt/v3/message.rs  |  4 ++
 akasa-core/src/protocols/mqtt/v5/message.rs  | 11 +++++
 3 files changed, 65 insertions(+)

diff --git a/akasa-core/src/protocols/mqtt/online_loop.rs b/akasa-core/src/protocols/mqtt/online_loop.rs
index 7dc305b..24d12d5 100644
--- a/akasa-core/src/protocols/mqtt/online_loop.rs
+++ b/akasa-core/src/protocols/mqtt/online_loop.rs
@@ -202,6 +202,29 @@ where
                 Poll::Ready(Ok(())) => {
                     log::info!("[{}] current session been taken over", current_client_id);
                     **taken_over = true;
+                    if let Some(packet) = session.taken_over_packet() {
+                        write_packets.push_back(packet.into());
+                        // Best effort, the connection will be closed anyway.
+                        while !write_packets.is_empty() {
+                            let mut data = match encode_batch(write_packets) {
+                                Ok(data) => data,
+                                Err(err) => return Poll::Ready(Some(err)),
+                            };
+                            match Pin::new(&mut *conn).poll_write(cx, &data.0[data.1..]) {
+                                Poll::Ready(Ok(size)) if size > 0 => {
+                                    data.1 += size;
+                                    if data.1 < data.0.len() {
+                                        write_packets.push_front(WritePacket::Data((
+                                            VarBytes::Dynamic(data.0),
+                                            data.1,
+                                        )));
+                                    }
+                                }
+                                _ => break,
+                            }
+                        }
+                        let _ = Pin::new(&mut *conn).poll_flush(cx);
+                    }
                     Poll::Ready(None)
                 }
                 Poll::Ready(Err(_)) => {
@@ -682,6 +705,31 @@ where
     }
 }
 
+/// Encode packets from the front of the queue until the batch is large enough
+fn encode_batch<P: MqttPacket>(
+    write_packets: &mut VecDeque<WritePacket<P>>,
+) -> Result<(Vec<u8>, usize), io::Error> {
+    let (mut data_all, mut data_idx) = (Vec::new(), 0);
+    while let Some(write_packet) = write_packets.pop_front() {
+        match write_packet {
+            // NOTE: this must be the first item
+            WritePacket::Data((data, idx)) => {
+                data_all = match data {
+                    VarBytes::Dynamic(d) => d,
+                    VarBytes::Fixed2(d) => d.to_vec(),
+                    VarBytes::Fixed4(d) => d.to_vec(),
+                };
+                data_idx = idx;
+            }
+            WritePacket::Packet(pkt) => data_all.extend(pkt.encode()?.as_ref()),
+        }
+        if data_all.len() >= WRITE_BATCH_SIZE {
+            break;
+        }
+    }
+    Ok((data_all, data_idx))
+}
+
 fn too_much_write_data<P>(
     write_packets: &VecDeque<WritePacket<P>>,
     write_packets_max: usize,
@@ -781,4 +829,6 @@ pub trait OnlineSession {
         global: &Arc<GlobalState>,
     ) -> Option<(QoS, Option<Self::Packet>)>;
     fn handle_pendings(&mut self) -> Vec<Self::Packet>;
+    /// The last packet for a connection whose session been taken over
+    fn taken_over_packet(&mut self) -> Option<Self::Packet>;
 }
diff --git a/akasa-core/src/protocols/mqtt/v3/message.rs b/akasa-core/src/protocols/mqtt/v3/message.rs
index e23a0ea..1c24a20 100644
--- a/akasa-core/src/protocols/mqtt/v3/message.rs
+++ b/akasa-core/src/protocols/mqtt/v3/message.rs
@@ -469,6 +469,10 @@ impl OnlineSession for Session {
     fn handle_pendings(&mut self) -> Vec<Packet> {
         handle_pendings(self)
     }
+
+    fn taken_over_packet(&mut self) -> Option<Packet> {
+        None
+    }
 }
 
 async fn handle_offline(mut session: Session, receiver: ClientReceiver, global: Arc<GlobalState>) {
diff --git a/akasa-core/src/protocols/mqtt/v5/message.rs b/akasa-core/src/protocols/mqtt/v5/message.rs
index 08ec31f..f641c26 100644
--- a/akasa-core/src/protocols/mqtt/v5/message.rs
+++ b/akasa-core/src/protocols/mqtt/v5/message.rs
@@ -663,6 +663,17 @@ impl OnlineSession for Session {
     fn handle_pendings(&mut self) -> Vec<Packet> {
         handle_pendings(self)
     }
+
+    fn taken_over_packet(&mut self) -> Option<Packet> {
+        // A connection about to be closed already has its last packet
+        self.disconnected().is_none().then(|| {
+            build_error_disconnect(
+                self,
+                DisconnectReasonCode::SessionTakenOver,
+                "session taken over",
+            )
+        })
+    }
 }
 
 async fn handle_offline(mut session: Session, receiver: ClientReceiver, global: Arc<GlobalState>) {
-- 
2.43.0


From bbd921469013719d76253bf7e09f73d8bc11df54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:40 +0000
Subject: [PATCH 15/33] fix: forget the index of the last member removed from a
 shared group

---
 akasa-core/src/protocols/mqtt/route.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/akasa-core/src/protocols/mqtt/route.rs b/akasa-core/src/protocols/mqtt/route.rs
index 5d722dc..31895f5 100644
--- a/akasa-core/src/protocols/mqtt/route.rs
+++ b/akasa-core/src/protocols/mqtt/route.rs
@@ -272,7 +272,9 @@ impl SharedClients {
             } else {
                 let last_client_id = self.items.last().expect("shared items").0;
                 self.items.swap_remove(idx);
-                self.index.insert(last_client_id, idx);
+                if idx < self.items.len() {
+                    self.index.insert(last_client_id, idx);
+                }
                 if self.items.capacity() >= 16 && self.items.capacity() >= (self.items.len() << 2) {
                     self.items.shrink_to(self.items.len() << 1);
                 }
-- 
2.43.0


From 151a51726d1d4b837eee1b0a735ee7b1ad88a8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:47 +0000
Subject: [PATCH 16/33] fix: do not panic when the last subscriber of a filter
 leaves during a publish

---
 akasa-core/src/protocols/mqtt/v3/packet/publish.rs | 5 ++++-
 akasa-core/src/protocols/mqtt/v5/packet/publish.rs | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/v3/packet/publish.rs b/akasa-core/src/protocols/mqtt/v3/packet/publish.rs
index f77a9ec..f95c301 100644
--- a/akasa-core/src/protocols/mqtt/v3/packet/publish.rs
+++ b/akasa-core/src/protocols/mqtt/v3/packet/publish.rs
@@ -198,7 +198,10 @@ pub(crate) fn send_publish(session: &mut Session, msg: SendPublish, global: &Arc
     let mut senders = Vec::with_capacity(matches.len());
     for content in matches {
         let content = content.read();
-        let subscribe_filter = content.topic_filter.as_ref().unwrap();
+        let Some(subscribe_filter) = content.topic_filter.as_ref() else {
+            // The last subscriber left after the content was looked up
+            continue;
+        };
         for (client_id, subscribe_qos) in &content.clients {
             senders.push((*client_id, subscribe_filter.clone(), *subscribe_qos));
         }
diff --git a/akasa-core/src/protocols/mqtt/v5/packet/publish.rs b/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
index 264f5ad..82e3f9e 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
@@ -353,7 +353,10 @@ pub(crate) fn send_publish(
         Vec::with_capacity(matched_len);
     for content in matches {
         let content = content.read();
-        let subscribe_filter = content.topic_filter.as_ref().unwrap();
+        let Some(subscribe_filter) = content.topic_filter.as_ref() else {
+            // The last subscriber left after the content was looked up
+            continue;
+        };
         for (client_id, subscribe_qos) in &content.clients {
             if *client_id == session.client_id {
                 if let Some(sub) = session.subscribes.get(subscribe_filter) {
-- 
2.43.0


From cff4ed888f5a7d82d0c02a8866c54cebb4ff79af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:14 +0000
Subject: [PATCH 17/33] fix: deliver messages of MQTT 3 publishers to shared
 subscriptions

---
 .../src/protocols/mqtt/v3/packet/publish.rs   | 20 ++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/akasa-core/src/protocols/mqtt/v3/packet/publish.rs b/akasa-core/src/protocols/mqtt/v3/packet/publish.rs
index f95c301..e772887 100644
--- a/akasa-core/src/protocols/mqtt/v3/packet/publish.rs
+++ b/akasa-core/src/protocols/mqtt/v3/packet/publish.rs
@@ -7,10 +7,12 @@ use std::sync::Arc;
 use ahash::AHasher;
 use bytes::Bytes;
 use mqtt_proto::{
-    Encodable, Pid, QoS, QosPid, TopicFilter, TopicName, total_len,
+    Encodable, Pid, QoS, QosPid, SHARED_PREFIX, TopicFilter, TopicName, total_len,
     v3::{Packet, Publish},
 };
+use rand::RngExt;
 
+use crate::config::SharedSubscriptionMode;
 use crate::protocols::mqtt::{BroadcastPackets, RetainContent};
 use crate::state::{GlobalState, NormalMessage};
 
@@ -205,6 +207,22 @@ pub(crate) fn send_publish(session: &mut Session, msg: SendPublish, global: &Arc
         for (client_id, subscribe_qos) in &content.clients {
             senders.push((*client_id, subscribe_filter.clone(), *subscribe_qos));
         }
+        for (group_name, shared_clients) in &content.groups {
+            let (client_id, subscribe_qos) = match global.config.shared_subscription_mode {
+                SharedSubscriptionMode::Random => {
+                    shared_clients.get_by_number(rand::rng().random())
+                }
+                SharedSubscriptionMode::HashClientId => {
+                    shared_clients.get_by_hash(&session.client_identifier)
+                }
+                SharedSubscriptionMode::HashTopicName => shared_clients.get_by_hash(msg.topic_name),
+            };
+            let full_filter = TopicFilter::try_from(
+                format!("{SHARED_PREFIX}{group_name}/{subscribe_filter}").as_str(),
+            )
+            .expect("full topic filter");
+            senders.push((client_id, full_filter, subscribe_qos));
+        }
     }
 
     session.broadcast_packets_cnt += senders.len();
-- 
2.43.0


From bb84f90d02267ae784b716dcd6af21916a13631d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:26 +0000
Subject: [PATCH 18/33] fix: deliver to an MQTT 3 client if any of its matching
 subscriptions is left

---
 akasa-core/src/protocols/mqtt/v3/message.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/akasa-core/src/protocols/mqtt/v3/message.rs b/akasa-core/src/protocols/mqtt/v3/message.rs
index 1c24a20..54fe006 100644
--- a/akasa-core/src/protocols/mqtt/v3/message.rs
+++ b/akasa-core/src/protocols/mqtt/v3/message.rs
@@ -665,7 +665,10 @@ fn handle_normal(
                     qos,
                     retain,
                     payload,
-                    subscribe_filter: subscribe_filters.first()?,
+                    // One copy for all of them, some may be gone already
+                    subscribe_filter: subscribe_filters
+                        .iter()
+                        .find(|filter| session.subscribes.contains_key(*filter))?,
                     subscribe_qos,
                 },
             )
-- 
2.43.0


From bd3e158d5bca07a2b2e9fe5db7d27e6dc8791c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:16 +0000
Subject: [PATCH 19/33] fix: send retained messages to MQTT 3 subscribers at
 the granted QoS

---
 .../src/protocols/mqtt/v3/packet/subscribe.rs | 31 ++++++++++---------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/v3/packet/subscribe.rs b/akasa-core/src/protocols/mqtt/v3/packet/subscribe.rs
index 7e0bbae..027da6b 100644
--- a/akasa-core/src/protocols/mqtt/v3/packet/subscribe.rs
+++ b/akasa-core/src/protocols/mqtt/v3/packet/subscribe.rs
@@ -41,20 +41,23 @@ packet id : {}
             .subscribe(filter, session.client_id, granted_qos);
 
         let mut process_pendings = false;
-        for msg in global.retain_table.get_matches(filter) {
-            if msg.qos <= granted_qos
-                && let Some((final_qos, packet_opt)) = recv_publish(
-                    session,
-                    RecvPublish {
-                        topic_name: &msg.topic_name,
-                        qos: msg.qos,
-                        retain: true,
-                        payload: &msg.payload,
-                        subscribe_filter: filter,
-                        subscribe_qos: granted_qos,
-                    },
-                )
-            {
+        let retains = if global.config.retain_available {
+            global.retain_table.get_matches(filter)
+        } else {
+            Vec::new()
+        };
+        for msg in retains {
+            if let Some((final_qos, packet_opt)) = recv_publish(
+                session,
+                RecvPublish {
+                    topic_name: &msg.topic_name,
+                    qos: msg.qos,
+                    retain: true,
+                    payload: &msg.payload,
+                    subscribe_filter: filter,
+                    subscribe_qos: granted_qos,
+                },
+            ) {
                 if let Some(packet) = packet_opt {
                     rv_packets.push(packet);
                 }
-- 
2.43.0


From f4c724eb29b1132fae9f0f7d8ed818069d2ba7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:40 +0000
Subject: [PATCH 20/33] fix: clear the RETAIN flag of live messages for MQTT 3
 subscribers

---
 akasa-core/src/protocols/mqtt/v3/message.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/v3/message.rs b/akasa-core/src/protocols/mqtt/v3/message.rs
index 54fe006..0218edf 100644
--- a/akasa-core/src/protocols/mqtt/v3/message.rs
+++ b/akasa-core/src/protocols/mqtt/v3/message.rs
@@ -620,7 +620,7 @@ fn handle_normal(
         NormalMessage::PublishV3 {
             ref topic_name,
             qos,
-            retain,
+            retain: _,
             ref payload,
             ref subscribe_filter,
             subscribe_qos,
@@ -636,7 +636,8 @@ fn handle_normal(
                 RecvPublish {
                     topic_name,
                     qos,
-                    retain,
+                    // Only set for a new subscription [MQTT-3.3.1-9]
+                    retain: false,
                     payload,
                     subscribe_filter,
                     subscribe_qos,
@@ -646,7 +647,7 @@ fn handle_normal(
         NormalMessage::PublishV5 {
             ref topic_name,
             qos,
-            retain,
+            retain: _,
             ref payload,
             ref subscribe_filters,
             subscribe_qos,
@@ -663,7 +664,8 @@ fn handle_normal(
                 RecvPublish {
                     topic_name,
                     qos,
-                    retain,
+                    // Only set for a new subscription [MQTT-3.3.1-9]
+                    retain: false,
                     payload,
                     // One copy for all of them, some may be gone already
                     subscribe_filter: subscribe_filters
-- 
2.43.0


From a30313eb18aaa8bc8c8645c0c819aa83f17af08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:14 +0000
Subject: [PATCH 21/33] fix: recognise a redelivered QoS 2 message with and
 without its topic alias

---
 akasa-core/src/protocols/mqtt/v5/packet/publish.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/v5/packet/publish.rs b/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
index 82e3f9e..52123eb 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
@@ -118,6 +118,11 @@ topic name : {}
         return Err(err_pkt);
     }
 
+    // From here on a message with an alias is the same as one with the topic
+    // name: it may be delivered again without the alias.
+    properties.topic_alias = None;
+    packet.topic_name = topic_name;
+
     // A QoS2 message already published, must not publish it again
     let mut published = false;
     if let QosPid::Level2(pid) = packet.qos_pid {
@@ -165,16 +170,14 @@ topic name : {}
 
     let matched_len = if !published {
         let encode_len = total_len(packet.encode_len()).expect("packet too large");
-        let properties = &mut packet.properties;
-        properties.topic_alias = None;
         send_publish(
             session,
             SendPublish {
                 qos: packet.qos_pid.qos(),
                 retain: packet.retain,
-                topic_name: &topic_name,
+                topic_name: &packet.topic_name,
                 payload: &packet.payload,
-                properties,
+                properties: &packet.properties,
                 encode_len,
             },
             global,
-- 
2.43.0


From b8e10d1cabf4d03e4721d6bd917dafd76d0e371d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:22 +0000
Subject: [PATCH 22/33] fix: never give a packet identifier to two
 unacknowledged messages

---
 akasa-core/src/protocols/mqtt/v3/packet/publish.rs | 13 ++++++++-----
 akasa-core/src/protocols/mqtt/v5/packet/publish.rs | 10 +++++++---
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/v3/packet/publish.rs b/akasa-core/src/protocols/mqtt/v3/packet/publish.rs
index e772887..5498dcf 100644
--- a/akasa-core/src/protocols/mqtt/v3/packet/publish.rs
+++ b/akasa-core/src/protocols/mqtt/v3/packet/publish.rs
@@ -268,10 +268,12 @@ pub(crate) fn recv_publish(
 
     let final_qos = cmp::min(msg.qos, msg.subscribe_qos);
     if final_qos != QoS::Level0 {
-        let pid = session.incr_server_packet_id();
         session.pending_packets.clean_complete();
-        if session.pending_packets.push_back(
-            pid,
+        // A dropped packet must not use up an identifier: they are only unique
+        // as long as they follow each other in the queue.
+        // TODO: pending messages queue is full
+        let is_full = session.pending_packets.push_back(
+            session.server_packet_id,
             final_qos,
             PubPacket {
                 topic_name: msg.topic_name.clone(),
@@ -279,8 +281,9 @@ pub(crate) fn recv_publish(
                 retain: msg.retain,
                 payload: msg.payload.clone(),
             },
-        ) {
-            // TODO: pending messages queue is full
+        );
+        if !is_full {
+            session.incr_server_packet_id();
         }
         Some((final_qos, None))
     } else if !session.disconnected {
diff --git a/akasa-core/src/protocols/mqtt/v5/packet/publish.rs b/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
index 52123eb..ed34fbf 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
@@ -465,11 +465,12 @@ pub(crate) fn recv_publish(
         if msg.encode_len > session.max_packet_size as usize {
             return None;
         }
-        let pid = session.incr_server_packet_id();
         session.pending_packets.clean_complete();
+        // A dropped packet must not use up an identifier: they are only unique
+        // as long as they follow each other in the queue.
         // TODO: proper handle this error
-        let _is_full = session.pending_packets.push_back(
-            pid,
+        let is_full = session.pending_packets.push_back(
+            session.server_packet_id,
             final_qos,
             PubPacket {
                 topic_name: msg.topic_name.clone(),
@@ -479,6 +480,9 @@ pub(crate) fn recv_publish(
                 properties,
             },
         );
+        if !is_full {
+            session.incr_server_packet_id();
+        }
         Some((final_qos, None))
     } else if !session.client_disconnected && !session.server_disconnected {
         let encode_len = if msg.qos > QoS::Level0 {
-- 
2.43.0


From 087fe499262401db9a3be744cd8935ab8672ce75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:05 +0000
Subject: [PATCH 23/33] fix: end the handshake of a message the client refuses
 with PUBREC

---
 akasa-core/src/protocols/mqtt/v5/message.rs      |  6 +++++-
 .../src/protocols/mqtt/v5/packet/publish.rs      | 16 +++++++++++-----
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/v5/message.rs b/akasa-core/src/protocols/mqtt/v5/message.rs
index f641c26..b59197b 100644
--- a/akasa-core/src/protocols/mqtt/v5/message.rs
+++ b/akasa-core/src/protocols/mqtt/v5/message.rs
@@ -485,7 +485,11 @@ impl OnlineSession for Session {
                 }
             }
             Packet::Puback(pkt) => handle_puback(self, pkt),
-            Packet::Pubrec(pkt) => write_packets.push_back(handle_pubrec(self, pkt).into()),
+            Packet::Pubrec(pkt) => {
+                if let Some(packet) = handle_pubrec(self, pkt) {
+                    write_packets.push_back(packet.into());
+                }
+            }
             Packet::Pubrel(pkt) => write_packets.push_back(handle_pubrel(self, pkt).into()),
             Packet::Pubcomp(pkt) => handle_pubcomp(self, pkt),
             Packet::Subscribe(pkt) => {
diff --git a/akasa-core/src/protocols/mqtt/v5/packet/publish.rs b/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
index ed34fbf..92288f3 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
@@ -227,23 +227,29 @@ pub(crate) fn handle_puback(session: &mut Session, packet: Puback) {
 }
 
 #[inline]
-pub(crate) fn handle_pubrec(session: &mut Session, packet: Pubrec) -> Packet {
+pub(crate) fn handle_pubrec(session: &mut Session, packet: Pubrec) -> Option<Packet> {
     log::debug!(
         "{} received a pubrec  packet: id={}",
         session.client_id,
         packet.pid.value()
     );
-    let reason_code = if session.pending_packets.pubrec(packet.pid) {
+    let matched = session.pending_packets.pubrec(packet.pid);
+    if packet.reason_code as u8 >= 0x80 {
+        // The client refused the message, the handshake ends here
+        session.pending_packets.complete(packet.pid, QoS::Level2);
+        return None;
+    }
+    let reason_code = if matched {
         PubrelReasonCode::Success
     } else {
         PubrelReasonCode::PacketIdentifierNotFound
     };
-    Pubrel {
+    let rv_packet = Pubrel {
         pid: packet.pid,
         reason_code,
         properties: PubrelProperties::default(),
-    }
-    .into()
+    };
+    Some(rv_packet.into())
 }
 
 #[inline]
-- 
2.43.0


From 66ce500924f89a3bfeebfefb0599eaee76c0454c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:42 +0000
Subject: [PATCH 24/33] fix: measure the packet a client really gets against
 its maximum packet size

---
 akasa-core/src/protocols/mqtt/v5/message.rs   |  7 +--
 .../src/protocols/mqtt/v5/packet/common.rs    | 54 ++++++++++++-------
 .../src/protocols/mqtt/v5/packet/publish.rs   | 41 +++++++-------
 .../src/protocols/mqtt/v5/packet/subscribe.rs |  7 ---
 4 files changed, 56 insertions(+), 53 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/v5/message.rs b/akasa-core/src/protocols/mqtt/v5/message.rs
index b59197b..9de7cd9 100644
--- a/akasa-core/src/protocols/mqtt/v5/message.rs
+++ b/akasa-core/src/protocols/mqtt/v5/message.rs
@@ -855,7 +855,7 @@ fn handle_normal(
             ref payload,
             ref subscribe_filter,
             subscribe_qos,
-            encode_len,
+            encode_len: _,
         } => {
             log::debug!(
                 "[{}] received v3 publish message from {}",
@@ -876,8 +876,6 @@ fn handle_normal(
                         subscription_ids: SubscriptionIds::Lookup(subscribe_filter),
                         subscribe_qos,
                         properties: None,
-                        // one byte is for property length
-                        encode_len: encode_len + 1,
                     },
                 )
             } else {
@@ -892,7 +890,7 @@ fn handle_normal(
             ref subscribe_filters,
             subscribe_qos,
             ref properties,
-            encode_len,
+            encode_len: _,
         } => {
             log::debug!(
                 "[{}] received v5 publish message from {}, msg: {:?}",
@@ -930,7 +928,6 @@ fn handle_normal(
                         subscription_ids: SubscriptionIds::Precomputed(subscription_ids),
                         subscribe_qos,
                         properties: Some(properties),
-                        encode_len,
                     },
                 )
             }
diff --git a/akasa-core/src/protocols/mqtt/v5/packet/common.rs b/akasa-core/src/protocols/mqtt/v5/packet/common.rs
index d4f9b35..520bacf 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/common.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/common.rs
@@ -5,7 +5,7 @@ use std::time::Instant;
 
 use hashbrown::HashMap;
 use mqtt_proto::{
-    QoS, QosPid, TopicName,
+    Encodable, QoS, QosPid, TopicName, total_len,
     v5::{
         Connack, ConnackProperties, ConnectReasonCode, Disconnect, DisconnectProperties,
         DisconnectReasonCode, ErrorV5, Packet, Publish, Pubrel, PubrelProperties, PubrelReasonCode,
@@ -18,6 +18,10 @@ use crate::state::ClientId;
 
 use super::Session;
 
+/// The most a topic alias can add to a packet: the property itself, and one
+/// byte for each of the two length fields around it.
+pub(super) const TOPIC_ALIAS_LEN: usize = 5;
+
 static EMPTY_TOPIC_NAME: std::sync::OnceLock<TopicName> = std::sync::OnceLock::new();
 
 pub(super) fn empty_topic_name() -> &'static TopicName {
@@ -148,9 +152,15 @@ pub(super) fn get_or_assign_server_topic_alias(
     (alias, true)
 }
 
+/// The size of a PUBLISH packet as the client sees it
+pub(super) fn publish_total_len(packet: &Publish) -> usize {
+    total_len(packet.encode_len()).unwrap_or(usize::MAX)
+}
+
 #[inline]
 pub(crate) fn handle_pendings(session: &mut Session) -> Vec<Packet> {
     let topic_alias_max = session.topic_alias_max;
+    let max_packet_size = session.max_packet_size as usize;
     let (pending_packets, aliases_by_topic, aliases_by_alias, tick) = (
         &mut session.pending_packets,
         &mut session.server_topic_aliases_by_topic,
@@ -160,7 +170,7 @@ pub(crate) fn handle_pendings(session: &mut Session) -> Vec<Packet> {
 
     pending_packets.clean_complete();
     let mut packets = Vec::new();
-    let mut expired_packets = Vec::new();
+    let mut dropped_packets = Vec::new();
     let mut start_idx = 0;
     while let Some((idx, packet_status)) = pending_packets.get_ready_packet(start_idx) {
         start_idx = idx + 1;
@@ -178,7 +188,7 @@ pub(crate) fn handle_pendings(session: &mut Session) -> Vec<Packet> {
                 if let Some(value) = packet.properties.message_expiry_interval {
                     let passed_secs = now_ts - *added_at;
                     if *last_sent == 0 && passed_secs >= value as u64 {
-                        expired_packets.push(*pid);
+                        dropped_packets.push(*pid);
                         continue;
                     }
                     message_expiry_interval = Some(value.saturating_sub(passed_secs as u32));
@@ -189,31 +199,37 @@ pub(crate) fn handle_pendings(session: &mut Session) -> Vec<Packet> {
                     QoS::Level2 => QosPid::Level2(*pid),
                 };
                 let mut properties = packet.properties.clone();
-                let mut topic_name = packet.topic_name.clone();
+                properties.topic_alias = None;
                 properties.message_expiry_interval = message_expiry_interval;
-                if !*dup && topic_alias_max > 0 {
+                let mut rv_packet = Publish {
+                    dup: *dup,
+                    retain: packet.retain,
+                    qos_pid,
+                    topic_name: packet.topic_name.clone(),
+                    payload: packet.payload.clone(),
+                    properties,
+                };
+                let encode_len = publish_total_len(&rv_packet);
+                if encode_len > max_packet_size {
+                    // Act as if the client had received it [MQTT-3.1.2-25]
+                    dropped_packets.push(*pid);
+                    continue;
+                }
+                if !*dup && topic_alias_max > 0 && encode_len + TOPIC_ALIAS_LEN <= max_packet_size {
                     let (alias, is_new_mapping) = get_or_assign_server_topic_alias(
                         topic_alias_max,
                         aliases_by_topic,
                         aliases_by_alias,
                         tick,
-                        &topic_name,
+                        &rv_packet.topic_name,
                     );
                     if alias > 0 {
-                        properties.topic_alias = Some(alias);
+                        rv_packet.properties.topic_alias = Some(alias);
                         if !is_new_mapping {
-                            topic_name = empty_topic_name().clone();
+                            rv_packet.topic_name = empty_topic_name().clone();
                         }
                     }
                 }
-                let rv_packet = Publish {
-                    dup: *dup,
-                    retain: packet.retain,
-                    qos_pid,
-                    topic_name,
-                    payload: packet.payload.clone(),
-                    properties,
-                };
                 *dup = true;
                 *last_sent = now_ts;
                 packets.push(rv_packet.into());
@@ -230,11 +246,11 @@ pub(crate) fn handle_pendings(session: &mut Session) -> Vec<Packet> {
             PendingPacketStatus::Complete => unreachable!(),
         }
     }
-    for pid in &expired_packets {
+    for pid in &dropped_packets {
         pending_packets.expire(*pid);
     }
-    if !expired_packets.is_empty() {
-        // The expired packets made room for the following ones
+    if !dropped_packets.is_empty() {
+        // The dropped packets made room for the following ones
         packets.extend(handle_pendings(session));
     }
     packets
diff --git a/akasa-core/src/protocols/mqtt/v5/packet/publish.rs b/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
index 92288f3..eb2e492 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
@@ -19,7 +19,10 @@ use crate::config::SharedSubscriptionMode;
 use crate::protocols::mqtt::{BroadcastPackets, RetainContent};
 use crate::state::{GlobalState, NormalMessage};
 
-use super::common::{build_error_disconnect, empty_topic_name, get_or_assign_server_topic_alias};
+use super::common::{
+    TOPIC_ALIAS_LEN, build_error_disconnect, empty_topic_name, get_or_assign_server_topic_alias,
+    publish_total_len,
+};
 use super::{PubPacket, Session};
 
 #[inline]
@@ -303,7 +306,6 @@ pub(crate) struct RecvPublish<'a> {
     pub subscription_ids: SubscriptionIds<'a>,
     // [MQTTv5.0-3.8.4] keyword: downgraded
     pub subscribe_qos: QoS,
-    pub encode_len: usize,
 }
 
 #[derive(Debug)]
@@ -468,9 +470,6 @@ pub(crate) fn recv_publish(
 
     let final_qos = cmp::min(msg.qos, msg.subscribe_qos);
     if final_qos != QoS::Level0 {
-        if msg.encode_len > session.max_packet_size as usize {
-            return None;
-        }
         session.pending_packets.clean_complete();
         // A dropped packet must not use up an identifier: they are only unique
         // as long as they follow each other in the queue.
@@ -491,38 +490,36 @@ pub(crate) fn recv_publish(
         }
         Some((final_qos, None))
     } else if !session.client_disconnected && !session.server_disconnected {
-        let encode_len = if msg.qos > QoS::Level0 {
-            msg.encode_len - 2
-        } else {
-            msg.encode_len
+        properties.topic_alias = None;
+        let mut rv_packet = Publish {
+            dup: false,
+            qos_pid: QosPid::Level0,
+            retain: msg.retain,
+            topic_name: msg.topic_name.clone(),
+            payload: msg.payload.clone(),
+            properties,
         };
+        let encode_len = publish_total_len(&rv_packet);
         if encode_len > session.max_packet_size as usize {
             return None;
         }
-        let mut topic_name = msg.topic_name.clone();
-        if session.topic_alias_max > 0 {
+        if session.topic_alias_max > 0
+            && encode_len + TOPIC_ALIAS_LEN <= session.max_packet_size as usize
+        {
             let (alias, is_new_mapping) = get_or_assign_server_topic_alias(
                 session.topic_alias_max,
                 &mut session.server_topic_aliases_by_topic,
                 &mut session.server_topic_aliases_by_alias,
                 &mut session.server_alias_tick,
-                &topic_name,
+                &rv_packet.topic_name,
             );
             if alias > 0 {
-                properties.topic_alias = Some(alias);
+                rv_packet.properties.topic_alias = Some(alias);
                 if !is_new_mapping {
-                    topic_name = empty_topic_name().clone();
+                    rv_packet.topic_name = empty_topic_name().clone();
                 }
             }
         }
-        let rv_packet = Publish {
-            dup: false,
-            qos_pid: QosPid::Level0,
-            retain: msg.retain,
-            topic_name,
-            payload: msg.payload.clone(),
-            properties,
-        };
         Some((final_qos, Some(rv_packet.into())))
     } else {
         None
diff --git a/akasa-core/src/protocols/mqtt/v5/packet/subscribe.rs b/akasa-core/src/protocols/mqtt/v5/packet/subscribe.rs
index cc6956d..ac1d8cc 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/subscribe.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/subscribe.rs
@@ -87,12 +87,6 @@ packet id : {}
                         if sub_opts.no_local && msg.client_identifier == session.client_identifier {
                             continue;
                         }
-                        let encode_len = if msg.properties.is_none() {
-                            // one byte for property length
-                            msg.encode_len + 1
-                        } else {
-                            msg.encode_len
-                        };
                         let retain = sub_opts.retain_as_published;
                         if let Some((final_qos, packet_opt)) = recv_publish(
                             session,
@@ -104,7 +98,6 @@ packet id : {}
                                 subscription_ids: SubscriptionIds::Lookup(filter),
                                 subscribe_qos: granted_qos,
                                 properties: msg.properties.as_ref(),
-                                encode_len,
                             },
                         ) {
                             if let Some(packet) = packet_opt {
-- 
2.43.0


From e502b35b331b6ecf09396ab53278403d1425f346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:55 +0000
Subject: [PATCH 25/33] fix: refuse a PUBLISH whose QoS the server announced it
 does not support

---
 akasa-core/src/protocols/mqtt/v5/packet/publish.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/akasa-core/src/protocols/mqtt/v5/packet/publish.rs b/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
index eb2e492..c34fe80 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
@@ -67,6 +67,16 @@ topic name : {}
         return Err(err_pkt);
     }
 
+    if packet.qos_pid.qos() > global.config.max_allowed_qos() {
+        log::debug!("QoS not supported: {:?}", packet.qos_pid);
+        let err_pkt = build_error_disconnect(
+            session,
+            DisconnectReasonCode::QoSNotSupported,
+            "QoS not supported",
+        );
+        return Err(err_pkt);
+    }
+
     let properties = &mut packet.properties;
     let mut topic_name = packet.topic_name.clone();
     if let Some(alias) = properties.topic_alias {
-- 
2.43.0


From 978db019891a2d22e565e2b1cf020f4f4976d2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:08 +0000
Subject: [PATCH 26/33] fix: limit the session expiry interval of a DISCONNECT
 like that of a CONNECT

---
 akasa-core/src/protocols/mqtt/v5/message.rs        |  2 +-
 akasa-core/src/protocols/mqtt/v5/packet/connect.rs | 10 ++++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/v5/message.rs b/akasa-core/src/protocols/mqtt/v5/message.rs
index 9de7cd9..aeabdc8 100644
--- a/akasa-core/src/protocols/mqtt/v5/message.rs
+++ b/akasa-core/src/protocols/mqtt/v5/message.rs
@@ -459,7 +459,7 @@ impl OnlineSession for Session {
 
         match packet {
             Packet::Disconnect(pkt) => {
-                if let Err(err_pkt) = handle_disconnect(self, pkt) {
+                if let Err(err_pkt) = handle_disconnect(self, pkt, global) {
                     // FIXME: must ensure error packet finally written to client in several seconds.
                     write_packets.push_back(err_pkt.into());
                 }
diff --git a/akasa-core/src/protocols/mqtt/v5/packet/connect.rs b/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
index 9d12c3d..defc1e4 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
@@ -1,3 +1,4 @@
+use std::cmp;
 use std::io;
 use std::sync::Arc;
 use std::time::Instant;
@@ -362,7 +363,11 @@ pub(crate) async fn session_connect<T: AsyncWrite + Unpin>(
 
 #[inline]
 #[allow(clippy::result_large_err)]
-pub(crate) fn handle_disconnect(session: &mut Session, packet: Disconnect) -> Result<(), Packet> {
+pub(crate) fn handle_disconnect(
+    session: &mut Session,
+    packet: Disconnect,
+    global: &Arc<GlobalState>,
+) -> Result<(), Packet> {
     log::debug!("{} received a disconnect packet", session.client_id);
     if let Some(value) = packet.properties.session_expiry_interval {
         if session.session_expiry_interval == 0 && value > 0 {
@@ -372,7 +377,8 @@ pub(crate) fn handle_disconnect(session: &mut Session, packet: Disconnect) -> Re
                 "SessionExpiryInterval is 0 in CONNECT",
             ));
         }
-        session.session_expiry_interval = value;
+        session.session_expiry_interval =
+            cmp::min(value, global.config.max_session_expiry_interval);
     }
 
     // * no UserProperty
-- 
2.43.0


From 31df50d984188baf12ee4b935edd53c61f165fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:09 +0000
Subject: [PATCH 27/33] fix: retained messages expire and pass their remaining
 lifetime on

---
 akasa-core/src/protocols/mqtt/retain.rs          | 16 ++++++++++++++++
 .../src/protocols/mqtt/v5/packet/subscribe.rs    |  6 +++++-
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/akasa-core/src/protocols/mqtt/retain.rs b/akasa-core/src/protocols/mqtt/retain.rs
index 185a798..66ff07a 100644
--- a/akasa-core/src/protocols/mqtt/retain.rs
+++ b/akasa-core/src/protocols/mqtt/retain.rs
@@ -8,6 +8,7 @@ use mqtt_proto::{
 };
 use parking_lot::RwLock;
 
+use super::pending::get_unix_ts;
 use super::route::split_topic;
 
 #[derive(Debug, Default)]
@@ -30,6 +31,8 @@ pub struct RetainContent {
     pub payload: Bytes,
     pub properties: Option<PublishProperties>,
     pub encode_len: usize,
+    // When the message was received, None if it never expires
+    received_at: Option<u64>,
 }
 
 impl RetainTable {
@@ -41,6 +44,7 @@ impl RetainTable {
         let mut retains = Vec::new();
         self.inner
             .get_matches(filter_item, rest_items, wildcard_first, &mut retains);
+        retains.retain(|content| content.remaining_expiry_interval() != Some(0));
         retains
     }
 
@@ -166,6 +170,10 @@ impl RetainContent {
         properties: Option<PublishProperties>,
         encode_len: usize,
     ) -> RetainContent {
+        let received_at = properties
+            .as_ref()
+            .and_then(|properties| properties.message_expiry_interval)
+            .map(|_| get_unix_ts());
         RetainContent {
             client_identifier,
             qos,
@@ -173,8 +181,16 @@ impl RetainContent {
             payload,
             properties,
             encode_len,
+            received_at,
         }
     }
+
+    /// What is left of the message expiry interval, None if the message never expires
+    pub fn remaining_expiry_interval(&self) -> Option<u32> {
+        let interval = self.properties.as_ref()?.message_expiry_interval?;
+        let passed_secs = get_unix_ts().saturating_sub(self.received_at?);
+        Some(interval.saturating_sub(passed_secs.min(u32::MAX as u64) as u32))
+    }
 }
 
 #[cfg(test)]
diff --git a/akasa-core/src/protocols/mqtt/v5/packet/subscribe.rs b/akasa-core/src/protocols/mqtt/v5/packet/subscribe.rs
index ac1d8cc..ca046f6 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/subscribe.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/subscribe.rs
@@ -88,6 +88,10 @@ packet id : {}
                             continue;
                         }
                         let retain = sub_opts.retain_as_published;
+                        let mut properties = msg.properties.clone();
+                        if let Some(properties) = properties.as_mut() {
+                            properties.message_expiry_interval = msg.remaining_expiry_interval();
+                        }
                         if let Some((final_qos, packet_opt)) = recv_publish(
                             session,
                             RecvPublish {
@@ -97,7 +101,7 @@ packet id : {}
                                 payload: &msg.payload,
                                 subscription_ids: SubscriptionIds::Lookup(filter),
                                 subscribe_qos: granted_qos,
-                                properties: msg.properties.as_ref(),
+                                properties: properties.as_ref(),
                             },
                         ) {
                             if let Some(packet) = packet_opt {
-- 
2.43.0


From 713d2ed9a610eab40a17408969db54eb5c1b8cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:40 +0000
Subject: [PATCH 28/33] fix: messages for MQTT 3 subscribers expire like those
 for MQTT 5

---
 akasa-core/src/protocols/mqtt/v3/message.rs   |  4 +++-
 .../src/protocols/mqtt/v3/packet/common.rs    | 19 ++++++++++++++++++-
 .../src/protocols/mqtt/v3/packet/publish.rs   |  3 +++
 .../src/protocols/mqtt/v3/packet/subscribe.rs |  1 +
 akasa-core/src/protocols/mqtt/v3/session.rs   |  2 ++
 5 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/v3/message.rs b/akasa-core/src/protocols/mqtt/v3/message.rs
index 0218edf..09712b4 100644
--- a/akasa-core/src/protocols/mqtt/v3/message.rs
+++ b/akasa-core/src/protocols/mqtt/v3/message.rs
@@ -639,6 +639,7 @@ fn handle_normal(
                     // Only set for a new subscription [MQTT-3.3.1-9]
                     retain: false,
                     payload,
+                    message_expiry_interval: None,
                     subscribe_filter,
                     subscribe_qos,
                 },
@@ -651,7 +652,7 @@ fn handle_normal(
             ref payload,
             ref subscribe_filters,
             subscribe_qos,
-            properties: _,
+            ref properties,
             encode_len: _,
         } => {
             log::debug!(
@@ -667,6 +668,7 @@ fn handle_normal(
                     // Only set for a new subscription [MQTT-3.3.1-9]
                     retain: false,
                     payload,
+                    message_expiry_interval: properties.message_expiry_interval,
                     // One copy for all of them, some may be gone already
                     subscribe_filter: subscribe_filters
                         .iter()
diff --git a/akasa-core/src/protocols/mqtt/v3/packet/common.rs b/akasa-core/src/protocols/mqtt/v3/packet/common.rs
index 4329f8d..2ee0a68 100644
--- a/akasa-core/src/protocols/mqtt/v3/packet/common.rs
+++ b/akasa-core/src/protocols/mqtt/v3/packet/common.rs
@@ -22,17 +22,27 @@ pub(crate) fn after_handle_packet(session: &mut Session) -> Vec<Packet> {
 pub(crate) fn handle_pendings(session: &mut Session) -> Vec<Packet> {
     session.pending_packets.clean_complete();
     let mut packets = Vec::new();
+    let mut expired_packets = Vec::new();
     let mut start_idx = 0;
     while let Some((idx, packet_status)) = session.pending_packets.get_ready_packet(start_idx) {
         start_idx = idx + 1;
         match packet_status {
             PendingPacketStatus::New {
+                added_at,
                 last_sent,
                 dup,
                 pid,
                 packet,
                 ..
             } => {
+                let now_ts = get_unix_ts();
+                if let Some(value) = packet.message_expiry_interval
+                    && *last_sent == 0
+                    && now_ts - *added_at >= value as u64
+                {
+                    expired_packets.push(*pid);
+                    continue;
+                }
                 let qos_pid = match packet.qos {
                     QoS::Level0 => QosPid::Level0,
                     QoS::Level1 => QosPid::Level1(*pid),
@@ -46,7 +56,7 @@ pub(crate) fn handle_pendings(session: &mut Session) -> Vec<Packet> {
                     payload: packet.payload.clone(),
                 };
                 *dup = true;
-                *last_sent = get_unix_ts();
+                *last_sent = now_ts;
                 packets.push(rv_packet.into());
             }
             PendingPacketStatus::Pubrec { pid, last_sent, .. } => {
@@ -56,6 +66,13 @@ pub(crate) fn handle_pendings(session: &mut Session) -> Vec<Packet> {
             PendingPacketStatus::Complete => unreachable!(),
         }
     }
+    for pid in &expired_packets {
+        session.pending_packets.expire(*pid);
+    }
+    if !expired_packets.is_empty() {
+        // The expired packets made room for the following ones
+        packets.extend(handle_pendings(session));
+    }
     packets
 }
 
diff --git a/akasa-core/src/protocols/mqtt/v3/packet/publish.rs b/akasa-core/src/protocols/mqtt/v3/packet/publish.rs
index 5498dcf..759930b 100644
--- a/akasa-core/src/protocols/mqtt/v3/packet/publish.rs
+++ b/akasa-core/src/protocols/mqtt/v3/packet/publish.rs
@@ -160,6 +160,8 @@ pub(crate) struct RecvPublish<'a> {
     pub qos: QoS,
     pub retain: bool,
     pub payload: &'a Bytes,
+    // None for v3 publish packet
+    pub message_expiry_interval: Option<u32>,
     pub subscribe_filter: &'a TopicFilter,
     pub subscribe_qos: QoS,
 }
@@ -280,6 +282,7 @@ pub(crate) fn recv_publish(
                 qos: final_qos,
                 retain: msg.retain,
                 payload: msg.payload.clone(),
+                message_expiry_interval: msg.message_expiry_interval,
             },
         );
         if !is_full {
diff --git a/akasa-core/src/protocols/mqtt/v3/packet/subscribe.rs b/akasa-core/src/protocols/mqtt/v3/packet/subscribe.rs
index 027da6b..4950aea 100644
--- a/akasa-core/src/protocols/mqtt/v3/packet/subscribe.rs
+++ b/akasa-core/src/protocols/mqtt/v3/packet/subscribe.rs
@@ -54,6 +54,7 @@ packet id : {}
                     qos: msg.qos,
                     retain: true,
                     payload: &msg.payload,
+                    message_expiry_interval: msg.remaining_expiry_interval(),
                     subscribe_filter: filter,
                     subscribe_qos: granted_qos,
                 },
diff --git a/akasa-core/src/protocols/mqtt/v3/session.rs b/akasa-core/src/protocols/mqtt/v3/session.rs
index f929877..3bc01b5 100644
--- a/akasa-core/src/protocols/mqtt/v3/session.rs
+++ b/akasa-core/src/protocols/mqtt/v3/session.rs
@@ -101,4 +101,6 @@ pub struct PubPacket {
     pub qos: QoS,
     pub retain: bool,
     pub payload: Bytes,
+    // From a v5.x publisher
+    pub message_expiry_interval: Option<u32>,
 }
-- 
2.43.0


From bf72e275c10f8e4ab4b574898f6e6fdf91f03740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:28 +0000
Subject: [PATCH 29/33] fix: tell an MQTT 3 client that the before_connect hook
 refused it

---
 akasa-core/src/protocols/mqtt/v3/message.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/v3/message.rs b/akasa-core/src/protocols/mqtt/v3/message.rs
index 09712b4..00b2a3d 100644
--- a/akasa-core/src/protocols/mqtt/v3/message.rs
+++ b/akasa-core/src/protocols/mqtt/v3/message.rs
@@ -10,7 +10,7 @@ use hashbrown::HashMap;
 use mqtt_proto::{
     Error, IoErrorKind, Pid, Protocol, QoS, QosPid,
     v3::{
-        Connect, ConnectReturnCode, Header, Packet, PollPacketState, Publish, Subscribe,
+        Connack, Connect, ConnectReturnCode, Header, Packet, PollPacketState, Publish, Subscribe,
         SubscribeReturnCode, Unsubscribe,
     },
 };
@@ -28,7 +28,7 @@ use crate::state::{ClientId, ClientReceiver, ControlMessage, GlobalState, Normal
 use super::{
     Session, SessionState,
     packet::{
-        common::{after_handle_packet, handle_pendings},
+        common::{after_handle_packet, handle_pendings, write_packet},
         connect::{handle_connect, handle_disconnect},
         publish::{
             RecvPublish, SendPublish, handle_puback, handle_pubcomp, handle_publish, handle_pubrec,
@@ -129,7 +129,7 @@ async fn handle_online<
 
     // Run before connect hook
     if global.config.hook.enable_before_connect {
-        before_connect_hook(peer, &packet, hook_handler, global).await?;
+        before_connect_hook(&session, &mut conn, peer, &packet, hook_handler, global).await?;
     }
 
     let session_present =
@@ -680,7 +680,9 @@ fn handle_normal(
     }
 }
 
-async fn before_connect_hook<H: Hook + Clone + Send + Sync>(
+async fn before_connect_hook<T: AsyncWrite + Unpin, H: Hook + Clone + Send + Sync>(
+    session: &Session,
+    conn: &mut T,
     peer: SocketAddr,
     packet: &Connect,
     hook_handler: &H,
@@ -695,6 +697,8 @@ async fn before_connect_hook<H: Hook + Clone + Send + Sync>(
         _ => panic!("invalid response"),
     };
     if code != ConnectReturnCode::Accepted {
+        let rv_packet = Connack::new(false, code);
+        write_packet(session.client_id, conn, &rv_packet.into()).await?;
         return Err(io::ErrorKind::InvalidData.into());
     }
     Ok(())
-- 
2.43.0


From 984b7d30503b69b4e2508e1f0cf512962a784e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:41 +0000
Subject: [PATCH 30/33] fix: a hook action subscribing an MQTT 3 client must
 not use up retained messages

---
 akasa-core/src/protocols/mqtt/v3/message.rs          |  4 ++--
 akasa-core/src/protocols/mqtt/v3/packet/subscribe.rs | 12 +++++++++++-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/v3/message.rs b/akasa-core/src/protocols/mqtt/v3/message.rs
index 00b2a3d..c06b25f 100644
--- a/akasa-core/src/protocols/mqtt/v3/message.rs
+++ b/akasa-core/src/protocols/mqtt/v3/message.rs
@@ -34,7 +34,7 @@ use super::{
             RecvPublish, SendPublish, handle_puback, handle_pubcomp, handle_publish, handle_pubrec,
             handle_pubrel, recv_publish, send_publish,
         },
-        subscribe::{handle_subscribe, handle_unsubscribe},
+        subscribe::{handle_subscribe, handle_unsubscribe, subscribe_topics},
     },
 };
 
@@ -412,7 +412,7 @@ impl OnlineSession for Session {
             }
             HookAction::Subscribe(SubscribeAction(topics)) => {
                 let subscribe = Subscribe::new(Pid::default(), topics.clone());
-                match handle_subscribe(self, &subscribe, global) {
+                match subscribe_topics(self, &subscribe, false, global) {
                     Ok(packets) => match &packets[0] {
                         Packet::Suback(suback) => {
                             for reason_code in &suback.topics {
diff --git a/akasa-core/src/protocols/mqtt/v3/packet/subscribe.rs b/akasa-core/src/protocols/mqtt/v3/packet/subscribe.rs
index 4950aea..2a51846 100644
--- a/akasa-core/src/protocols/mqtt/v3/packet/subscribe.rs
+++ b/akasa-core/src/protocols/mqtt/v3/packet/subscribe.rs
@@ -27,6 +27,16 @@ packet id : {}
         packet.pid.value(),
         packet.topics,
     );
+    subscribe_topics(session, packet, true, global)
+}
+
+/// Subscribe to the topics, the retained messages are only sent if `send_retain` is true.
+pub(crate) fn subscribe_topics(
+    session: &mut Session,
+    packet: &Subscribe,
+    send_retain: bool,
+    global: &Arc<GlobalState>,
+) -> io::Result<Vec<Packet>> {
     let mut rv_packets = Vec::new();
     let mut return_codes = Vec::with_capacity(packet.topics.len());
     for (filter, qos) in &packet.topics {
@@ -41,7 +51,7 @@ packet id : {}
             .subscribe(filter, session.client_id, granted_qos);
 
         let mut process_pendings = false;
-        let retains = if global.config.retain_available {
+        let retains = if send_retain && global.config.retain_available {
             global.retain_table.get_matches(filter)
         } else {
             Vec::new()
-- 
2.43.0


From 29d3186c16424ebc6688f2003d65c8574685d1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:16 +0000
Subject: [PATCH 31/33] fix: refuse a PROXY header of unspecified family or
 protocol instead of panicking

---
 akasa-core/src/server/proxy.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/akasa-core/src/server/proxy.rs b/akasa-core/src/server/proxy.rs
index f204723..aa6b91b 100644
--- a/akasa-core/src/server/proxy.rs
+++ b/akasa-core/src/server/proxy.rs
@@ -123,8 +123,7 @@ pub async fn parse_header<T: AsyncRead + Unpin>(
     }
 
     let address_family = match byte_14th & LEFT_MASK {
-        // Unspecified
-        0x00 => unreachable!(),
+        // Unspecified (0x00) is not supported
         0x10 => AddressFamily::IPv4,
         0x20 => AddressFamily::IPv6,
         0x30 => AddressFamily::Unix,
@@ -151,8 +150,7 @@ pub async fn parse_header<T: AsyncRead + Unpin>(
     }
 
     let protocol = match byte_14th & RIGHT_MASK {
-        // Unspecified
-        0x00 => unreachable!(),
+        // Unspecified (0x00) is not supported
         0x01 => Protocol::Stream,
         0x02 => Protocol::Datagram,
         _ => {
-- 
2.43.0


From 72c40ffee79a5f483d77cda1b4b7d6ec8b9243f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:28 +0000
Subject: [PATCH 32/33] fix: a WebSocket handshake must finish within the
 connect timeout

---
 akasa-core/src/server/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/akasa-core/src/server/mod.rs b/akasa-core/src/server/mod.rs
index 8d959a4..7534c5a 100644
--- a/akasa-core/src/server/mod.rs
+++ b/akasa-core/src/server/mod.rs
@@ -135,7 +135,14 @@ pub async fn handle_accept<
             }
             Ok(resp)
         };
-        let stream = match accept_hdr_async(tls_wrapper, handler).await {
+        let stream = match accept_hdr_async(tls_wrapper, handler)
+            .or(async {
+                let _ = timeout_receiver.recv_async().await;
+                log::info!("timeout when accept websocket: {}", peer);
+                Err(io::Error::from(io::ErrorKind::TimedOut).into())
+            })
+            .await
+        {
             Ok(stream) => stream,
             Err(err) => {
                 log::warn!("Accept websocket connection error: {:?}", err);
-- 
2.43.0


From 9836dedf627f3fa014f60d5027b0dec20357328b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:47 +0000
Subject: [PATCH 33/33] fix: verify the SCRAM messages of a client as they were
 received

---
 akasa-core/src/protocols/scram/server.rs | 49 +++++++++++++++---------
 1 file changed, 30 insertions(+), 19 deletions(-)

diff --git a/akasa-core/src/protocols/scram/server.rs b/akasa-core/src/protocols/scram/server.rs
index f2ce68d..c60a321 100644
--- a/akasa-core/src/protocols/scram/server.rs
+++ b/akasa-core/src/protocols/scram/server.rs
@@ -1,5 +1,3 @@
-use std::borrow::Cow;
-
 use base64::Engine;
 use base64::engine::general_purpose::STANDARD;
 use rand::Rng;
@@ -25,11 +23,13 @@ pub enum ScramServer {
         authcid: String,
         authzid: Option<String>,
         client_nonce: String,
+        gs2header: String,
+        client_first_bare: String,
     },
     WaitingForClientFinal {
         hashed_password: Vec<u8>,
         nonce: String,
-        gs2header: Cow<'static, str>,
+        gs2header: String,
         client_first_bare: String,
         server_first: String,
         authcid: String,
@@ -63,10 +63,19 @@ impl ScramServer {
         let authcid = next_field(&mut parts, Field::Authcid, b"n=")?;
         let client_nonce = next_field(&mut parts, Field::Nonce, b"r=")?;
 
+        // The proof covers the message as it was received
+        let gs2header = match &authzid {
+            Some(az) => format!("{},a={},", token, az),
+            None => format!("{},,", token),
+        };
+        let client_first_bare = data[gs2header.len()..].to_owned();
+
         *self = ScramServer::WaitingForPassword {
             authcid,
             authzid,
             client_nonce,
+            gs2header,
+            client_first_bare,
         };
         Ok(())
     }
@@ -94,17 +103,20 @@ impl ScramServer {
         iterations: u16,
         rng: &mut R,
     ) -> Result<String, Error> {
-        let (authcid, authzid, client_nonce) = match std::mem::replace(self, ScramServer::Done) {
-            ScramServer::WaitingForPassword {
-                authcid,
-                authzid,
-                client_nonce,
-            } => (authcid, authzid, client_nonce),
-            other => {
-                *self = other;
-                return Err(Error::InvalidState);
-            }
-        };
+        let (authcid, authzid, client_nonce, gs2header, client_first_bare) =
+            match std::mem::replace(self, ScramServer::Done) {
+                ScramServer::WaitingForPassword {
+                    authcid,
+                    authzid,
+                    client_nonce,
+                    gs2header,
+                    client_first_bare,
+                } => (authcid, authzid, client_nonce, gs2header, client_first_bare),
+                other => {
+                    *self = other;
+                    return Err(Error::InvalidState);
+                }
+            };
 
         let mut nonce = String::with_capacity(client_nonce.len() + NONCE_LENGTH);
         nonce.push_str(&client_nonce);
@@ -116,11 +128,6 @@ impl ScramServer {
                 .take(NONCE_LENGTH),
         );
 
-        let gs2header: Cow<'static, str> = match &authzid {
-            Some(az) => format!("n,a={},", az).into(),
-            None => "n,,".into(),
-        };
-        let client_first_bare = format!("n={},r={}", authcid, client_nonce);
         let server_first = format!("r={},s={},i={}", nonce, STANDARD.encode(salt), iterations);
 
         *self = ScramServer::WaitingForClientFinal {
@@ -236,6 +243,10 @@ fn parse_client_final(data: &str) -> Result<(&str, &str, &str), Error> {
     let gs2header = parse_field(&mut parts, Field::GS2Header, b"c=")?;
     let nonce = parse_field(&mut parts, Field::Nonce, b"r=")?;
     let proof = parse_field(&mut parts, Field::Proof, b"p=")?;
+    if parts.next().is_some() {
+        // The proof is the last field
+        return Err(Error::Protocol(Kind::InvalidField(Field::Proof)));
+    }
     Ok((gs2header, nonce, proof))
 }
 
-- 
2.43.0

