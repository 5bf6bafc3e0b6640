From 9d110ec0c0b3803aae1710a6825f1ec9a4402fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:04 +0000
Subject: [PATCH 01/22] fix: skip multi-byte integer keys of maps and sets

The key tags are zero-sized, so size_of::<Self>() made every varint key
skip as a single byte. Skipping, measuring and splitting off values with
16, 32 or 64 bit keys outside the one-byte range went out of step with
decoding.
---
 core/src/tags/key_impl.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/core/src/tags/key_impl.rs b/core/src/tags/key_impl.rs
index 8bafc8d..6269f92 100644
--- a/core/src/tags/key_impl.rs
+++ b/core/src/tags/key_impl.rs
@@ -3,7 +3,6 @@ use crate::buf_ext::{BufMutExt, ValueBufExt};
 use crate::{DeserializeError, SerializeError, ValueConversionError, ValueKind};
 use bytes::{Buf, BufMut, BytesMut};
 use std::borrow::Cow;
-use std::mem;
 
 #[allow(unnameable_types)]
 pub trait Sealed {}
@@ -132,7 +131,7 @@ impl KeyTagImpl for U16 {
     }
 
     fn skip<B: Buf>(buf: &mut B) -> Result<(), DeserializeError> {
-        buf.try_skip_varint_le::<{ mem::size_of::<Self>() }>()
+        buf.try_skip_varint_le::<2>()
     }
 
     fn convert(src: &mut &[u8], dst: &mut BytesMut) -> Result<(), ValueConversionError> {
@@ -162,7 +161,7 @@ impl KeyTagImpl for I16 {
     }
 
     fn skip<B: Buf>(buf: &mut B) -> Result<(), DeserializeError> {
-        buf.try_skip_varint_le::<{ mem::size_of::<Self>() }>()
+        buf.try_skip_varint_le::<2>()
     }
 
     fn convert(src: &mut &[u8], dst: &mut BytesMut) -> Result<(), ValueConversionError> {
@@ -192,7 +191,7 @@ impl KeyTagImpl for U32 {
     }
 
     fn skip<B: Buf>(buf: &mut B) -> Result<(), DeserializeError> {
-        buf.try_skip_varint_le::<{ mem::size_of::<Self>() }>()
+        buf.try_skip_varint_le::<4>()
     }
 
     fn convert(src: &mut &[u8], dst: &mut BytesMut) -> Result<(), ValueConversionError> {
@@ -222,7 +221,7 @@ impl KeyTagImpl for I32 {
     }
 
     fn skip<B: Buf>(buf: &mut B) -> Result<(), DeserializeError> {
-        buf.try_skip_varint_le::<{ mem::size_of::<Self>() }>()
+        buf.try_skip_varint_le::<4>()
     }
 
     fn convert(src: &mut &[u8], dst: &mut BytesMut) -> Result<(), ValueConversionError> {
@@ -252,7 +251,7 @@ impl KeyTagImpl for U64 {
     }
 
     fn skip<B: Buf>(buf: &mut B) -> Result<(), DeserializeError> {
-        buf.try_skip_varint_le::<{ mem::size_of::<Self>() }>()
+        buf.try_skip_varint_le::<8>()
     }
 
     fn convert(src: &mut &[u8], dst: &mut BytesMut) -> Result<(), ValueConversionError> {
@@ -282,7 +281,7 @@ impl KeyTagImpl for I64 {
     }
 
     fn skip<B: Buf>(buf: &mut B) -> Result<(), DeserializeError> {
-        buf.try_skip_varint_le::<{ mem::size_of::<Self>() }>()
+        buf.try_skip_varint_le::<8>()
     }
 
     fn convert(src: &mut &[u8], dst: &mut BytesMut) -> Result<(), ValueConversionError> {
-- 
2.43.0


From 4d140c3e6e68ae6a76ee106dae57196ef093ba53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:56 +0000
Subject: [PATCH 02/22] fix: always offer spare capacity in
 Packetizer::spare_capacity_mut

---
 core/src/message/packetizer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/src/message/packetizer.rs b/core/src/message/packetizer.rs
index 7a1fce3..ff91626 100644
--- a/core/src/message/packetizer.rs
+++ b/core/src/message/packetizer.rs
@@ -36,7 +36,9 @@ impl Packetizer {
                     (len - self.buf.len()).clamp(MIN_RESERVE_CAPACITY, MAX_RESERVE_CAPACITY);
                 self.buf.reserve(reserve);
             }
-        } else if self.buf.capacity() == self.buf.len() {
+        }
+
+        if self.buf.capacity() == self.buf.len() {
             self.buf.reserve(MIN_RESERVE_CAPACITY);
         }
 
-- 
2.43.0


From 14b7aa4dc0c5ae73b3fcc6021db73d0543505dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:55 +0000
Subject: [PATCH 03/22] broker: read-only state snapshot behind feature
 verif-hooks

---
 broker/Cargo.toml                    |   3 +
 broker/src/broker.rs                 |   9 +
 broker/src/broker/channel.rs         |  13 ++
 broker/src/broker/conn_state.rs      |  11 ++
 broker/src/broker/handle.rs          |  14 +-
 broker/src/broker/service.rs         |  24 +++
 broker/src/broker/verif.rs           | 279 +++++++++++++++++++++++++++
 broker/src/conn/event.rs             |   7 +-
 broker/src/introspection_database.rs |   5 +
 broker/src/lib.rs                    |   3 +
 broker/src/serial_map.rs             |   4 +
 11 files changed, 370 insertions(+), 2 deletions(-)
 create mode 100644 broker/src/broker/verif.rs

diff --git a/broker/Cargo.toml b/broker/Cargo.toml
index 74dccaf..b5ea2d4 100644
--- a/broker/Cargo.toml
+++ b/broker/Cargo.toml
@@ -29,6 +29,9 @@ serde = ["aldrin-core/serde"]
 statistics = []
 tokio = ["aldrin-core/tokio"]
 
+# Read-only snapshots of the internal state, for verification only.
+verif-hooks = []
+
 [lints]
 workspace = true
 
diff --git a/broker/src/broker.rs b/broker/src/broker.rs
index aeaaf01..0c23dbb 100644
--- a/broker/src/broker.rs
+++ b/broker/src/broker.rs
@@ -9,6 +9,8 @@ mod state;
 mod statistics;
 #[cfg(test)]
 mod test;
+#[cfg(feature = "verif-hooks")]
+mod verif;
 
 use crate::bus_listener::BusListener;
 use crate::conn::ConnectionEvent;
@@ -60,6 +62,8 @@ pub use error::BrokerShutdown;
 pub use handle::BrokerHandle;
 #[cfg(feature = "statistics")]
 pub use statistics::BrokerStatistics;
+#[cfg(feature = "verif-hooks")]
+pub use verif::VerifSnapshot;
 
 const FIFO_SIZE: usize = 32;
 
@@ -263,6 +267,11 @@ impl Broker {
             ConnectionEvent::TakeStatistics(sender) => {
                 let _ = sender.send(self.statistics.take());
             }
+
+            #[cfg(feature = "verif-hooks")]
+            ConnectionEvent::VerifSnapshot(sender) => {
+                let _ = sender.send(self.verif_snapshot());
+            }
         }
     }
 
diff --git a/broker/src/broker/channel.rs b/broker/src/broker/channel.rs
index d5d1cc4..462c77f 100644
--- a/broker/src/broker/channel.rs
+++ b/broker/src/broker/channel.rs
@@ -222,6 +222,19 @@ impl Channel {
             Ok(None)
         }
     }
+
+    #[cfg(feature = "verif-hooks")]
+    pub(crate) fn verif_owner(&self, end: ChannelEnd) -> Option<&ConnectionId> {
+        let state = match end {
+            ChannelEnd::Sender => &self.sender,
+            ChannelEnd::Receiver => &self.receiver,
+        };
+
+        match state {
+            ChannelEndState::Claimed { owner, .. } => Some(owner),
+            ChannelEndState::Unclaimed | ChannelEndState::Closed => None,
+        }
+    }
 }
 
 #[derive(Debug, PartialEq, Eq)]
diff --git a/broker/src/broker/conn_state.rs b/broker/src/broker/conn_state.rs
index 977718a..e81eab2 100644
--- a/broker/src/broker/conn_state.rs
+++ b/broker/src/broker/conn_state.rs
@@ -188,4 +188,15 @@ impl ConnectionState {
             .values()
             .map(|(callee_serial, callee_id)| (*callee_serial, callee_id))
     }
+    #[cfg(feature = "verif-hooks")]
+    pub(crate) fn verif_refs(&self) -> usize {
+        self.objects.len()
+            + self.events.values().map(HashSet::len).sum::<usize>()
+            + self.all_events.len()
+            + self.subscriptions.len()
+            + self.senders.len()
+            + self.receivers.len()
+            + self.bus_listeners.len()
+            + self.calls.len()
+    }
 }
diff --git a/broker/src/broker/handle.rs b/broker/src/broker/handle.rs
index 84db3be..28d3cdb 100644
--- a/broker/src/broker/handle.rs
+++ b/broker/src/broker/handle.rs
@@ -3,11 +3,13 @@ use crate::conn::ConnectionEvent;
 use crate::conn_id::ConnectionIdManager;
 #[cfg(feature = "statistics")]
 use crate::BrokerStatistics;
+#[cfg(feature = "verif-hooks")]
+use crate::VerifSnapshot;
 use crate::{AcceptError, Acceptor, Connection, ConnectionHandle};
 use aldrin_core::transport::{AsyncTransport, Buffered};
 use aldrin_core::ProtocolVersion;
 use futures_channel::mpsc;
-#[cfg(feature = "statistics")]
+#[cfg(any(feature = "statistics", feature = "verif-hooks"))]
 use futures_channel::oneshot;
 use futures_util::sink::SinkExt;
 
@@ -232,4 +234,14 @@ impl BrokerHandle {
             .map_err(|_| BrokerShutdown)?;
         recv.await.map_err(|_| BrokerShutdown)
     }
+    #[cfg(feature = "verif-hooks")]
+    #[doc(hidden)]
+    pub async fn verif_snapshot(&mut self) -> Result<VerifSnapshot, BrokerShutdown> {
+        let (send, recv) = oneshot::channel();
+        self.send
+            .send(ConnectionEvent::VerifSnapshot(send))
+            .await
+            .map_err(|_| BrokerShutdown)?;
+        recv.await.map_err(|_| BrokerShutdown)
+    }
 }
diff --git a/broker/src/broker/service.rs b/broker/src/broker/service.rs
index 456932e..d186839 100644
--- a/broker/src/broker/service.rs
+++ b/broker/src/broker/service.rs
@@ -116,4 +116,28 @@ impl Service {
 
         res.into_iter()
     }
+    #[cfg(feature = "verif-hooks")]
+    pub(crate) fn verif_refs(&self) -> usize {
+        self.function_calls.len()
+            + self.events.values().map(HashSet::len).sum::<usize>()
+            + self.all_events.len()
+            + self.subscriptions.len()
+    }
+
+    #[cfg(feature = "verif-hooks")]
+    pub(crate) fn verif_events(&self) -> impl Iterator<Item = (u32, &ConnectionId)> {
+        self.events
+            .iter()
+            .flat_map(|(&event, ids)| ids.iter().map(move |id| (event, id)))
+    }
+
+    #[cfg(feature = "verif-hooks")]
+    pub(crate) fn verif_all_events(&self) -> impl Iterator<Item = &ConnectionId> {
+        self.all_events.iter()
+    }
+
+    #[cfg(feature = "verif-hooks")]
+    pub(crate) fn verif_subscriptions(&self) -> impl Iterator<Item = &ConnectionId> {
+        self.subscriptions.iter()
+    }
 }
diff --git a/broker/src/broker/verif.rs b/broker/src/broker/verif.rs
new file mode 100644
index 0000000..2eee194
--- /dev/null
+++ b/broker/src/broker/verif.rs
@@ -0,0 +1,279 @@
+//! Read-only snapshot of the broker's internal state, for verification only.
+
+use super::Broker;
+use aldrin_core::ChannelEnd;
+
+/// Sizes of the broker's maps and whether they refer to each other consistently.
+#[derive(Debug, Clone, Copy, PartialEq, Eq)]
+#[doc(hidden)]
+pub struct VerifSnapshot {
+    pub conns: usize,
+    pub obj_uuids: usize,
+    pub objs: usize,
+    pub svc_uuids: usize,
+    pub svcs: usize,
+    pub function_calls: usize,
+    pub channels: usize,
+    pub bus_listeners: usize,
+    pub introspection: usize,
+    pub query_introspection: usize,
+
+    /// Number of entries in the maps of all connections.
+    pub conn_refs: usize,
+
+    /// Number of calls and subscriptions held by all services.
+    pub svc_refs: usize,
+
+    /// First inconsistency found.
+    pub inconsistent: Option<&'static str>,
+}
+
+impl Broker {
+    pub(super) fn verif_snapshot(&self) -> VerifSnapshot {
+        #[cfg(feature = "introspection")]
+        let (introspection, query_introspection) = (
+            self.introspection.verif_len(),
+            self.query_introspection.verif_iter().count(),
+        );
+
+        #[cfg(not(feature = "introspection"))]
+        let (introspection, query_introspection) = (0, 0);
+
+        VerifSnapshot {
+            conns: self.conns.len(),
+            obj_uuids: self.obj_uuids.len(),
+            objs: self.objs.len(),
+            svc_uuids: self.svc_uuids.len(),
+            svcs: self.svcs.len(),
+            function_calls: self.function_calls.verif_iter().count(),
+            channels: self.channels.len(),
+            bus_listeners: self.bus_listeners.len(),
+            introspection,
+            query_introspection,
+            conn_refs: self.conns.values().map(|conn| conn.verif_refs()).sum(),
+            svc_refs: self.svcs.values().map(|svc| svc.verif_refs()).sum(),
+            inconsistent: self.verif_consistent().err(),
+        }
+    }
+
+    fn verif_consistent(&self) -> Result<(), &'static str> {
+        fn check(cond: bool, what: &'static str) -> Result<(), &'static str> {
+            if cond {
+                Ok(())
+            } else {
+                Err(what)
+            }
+        }
+
+        for (uuid, obj) in &self.objs {
+            check(
+                self.obj_uuids.get(&obj.cookie()) == Some(uuid),
+                "object without uuid entry",
+            )?;
+            check(
+                self.conns
+                    .get(obj.conn_id())
+                    .is_some_and(|conn| conn.objects().any(|cookie| cookie == obj.cookie())),
+                "object not known to its connection",
+            )?;
+            check(
+                obj.services()
+                    .all(|cookie| self.svc_uuids.contains_key(&cookie)),
+                "object refers to missing service",
+            )?;
+        }
+
+        for (cookie, (obj_id, uuid, _)) in &self.svc_uuids {
+            let Some(svc) = self.svcs.get(&(obj_id.uuid, *uuid)) else {
+                return Err("service entry without service");
+            };
+            check(svc.cookie() == *cookie, "service with another cookie")?;
+            check(
+                svc.object_cookie() == obj_id.cookie,
+                "service of another object",
+            )?;
+            check(
+                self.objs
+                    .get(&obj_id.uuid)
+                    .is_some_and(|obj| obj.services().any(|svc| svc == *cookie)),
+                "service not known to its object",
+            )?;
+
+            for serial in svc.function_calls() {
+                check(
+                    self.function_calls.verif_iter().any(|(s, call)| {
+                        (*s == serial)
+                            && (call.callee_obj == obj_id.uuid)
+                            && (call.callee_svc == *uuid)
+                    }),
+                    "service refers to missing call",
+                )?;
+            }
+
+            for (event, conn_id) in svc.verif_events() {
+                check(
+                    self.conns.get(conn_id).is_some_and(|conn| {
+                        conn.event_subscriptions()
+                            .any(|(svc, e)| (svc == *cookie) && (e == event))
+                    }),
+                    "event subscription not known to its connection",
+                )?;
+            }
+
+            for conn_id in svc.verif_all_events() {
+                check(
+                    self.conns.get(conn_id).is_some_and(|conn| {
+                        conn.all_event_subscriptions().any(|svc| svc == *cookie)
+                    }),
+                    "subscription of all events not known to its connection",
+                )?;
+            }
+
+            for conn_id in svc.verif_subscriptions() {
+                check(
+                    self.conns
+                        .get(conn_id)
+                        .is_some_and(|conn| conn.subscriptions().any(|svc| svc == *cookie)),
+                    "service subscription not known to its connection",
+                )?;
+            }
+        }
+
+        for (serial, call) in self.function_calls.verif_iter() {
+            check(
+                self.svcs
+                    .get(&(call.callee_obj, call.callee_svc))
+                    .is_some_and(|svc| svc.function_calls().any(|s| s == *serial)),
+                "call not known to its service",
+            )?;
+
+            if !call.aborted {
+                check(
+                    self.conns.get(&call.caller_conn_id).is_some_and(|conn| {
+                        conn.call_data(call.caller_serial)
+                            .is_some_and(|(s, _)| s == *serial)
+                    }),
+                    "call not known to its caller",
+                )?;
+            }
+        }
+
+        for (cookie, listener) in &self.bus_listeners {
+            check(
+                self.conns
+                    .get(listener.conn_id())
+                    .is_some_and(|conn| conn.bus_listeners().any(|c| c == *cookie)),
+                "bus listener not known to its connection",
+            )?;
+        }
+
+        for (cookie, channel) in &self.channels {
+            check(
+                channel.verif_owner(ChannelEnd::Sender).is_some()
+                    || channel.verif_owner(ChannelEnd::Receiver).is_some(),
+                "channel without owner",
+            )?;
+
+            if let Some(conn_id) = channel.verif_owner(ChannelEnd::Sender) {
+                check(
+                    self.conns
+                        .get(conn_id)
+                        .is_some_and(|conn| conn.senders().any(|c| c == *cookie)),
+                    "sender not known to its connection",
+                )?;
+            }
+
+            if let Some(conn_id) = channel.verif_owner(ChannelEnd::Receiver) {
+                check(
+                    self.conns
+                        .get(conn_id)
+                        .is_some_and(|conn| conn.receivers().any(|c| c == *cookie)),
+                    "receiver not known to its connection",
+                )?;
+            }
+        }
+
+        for (conn_id, conn) in &self.conns {
+            for cookie in conn.objects() {
+                check(
+                    self.obj_uuids
+                        .get(&cookie)
+                        .and_then(|uuid| self.objs.get(uuid))
+                        .is_some_and(|obj| obj.conn_id() == conn_id),
+                    "connection refers to missing object",
+                )?;
+            }
+
+            for (cookie, event) in conn.event_subscriptions() {
+                check(
+                    self.verif_service(cookie).is_some_and(|svc| {
+                        svc.verif_events()
+                            .any(|(e, id)| (e == event) && (id == conn_id))
+                    }),
+                    "connection refers to missing event subscription",
+                )?;
+            }
+
+            for cookie in conn.all_event_subscriptions() {
+                check(
+                    self.verif_service(cookie)
+                        .is_some_and(|svc| svc.verif_all_events().any(|id| id == conn_id)),
+                    "connection refers to missing subscription of all events",
+                )?;
+            }
+
+            for cookie in conn.subscriptions() {
+                check(
+                    self.verif_service(cookie)
+                        .is_some_and(|svc| svc.verif_subscriptions().any(|id| id == conn_id)),
+                    "connection refers to missing service subscription",
+                )?;
+            }
+
+            for cookie in conn.senders() {
+                check(
+                    self.channels.get(&cookie).is_some_and(|channel| {
+                        channel.verif_owner(ChannelEnd::Sender) == Some(conn_id)
+                    }),
+                    "connection refers to missing sender",
+                )?;
+            }
+
+            for cookie in conn.receivers() {
+                check(
+                    self.channels.get(&cookie).is_some_and(|channel| {
+                        channel.verif_owner(ChannelEnd::Receiver) == Some(conn_id)
+                    }),
+                    "connection refers to missing receiver",
+                )?;
+            }
+
+            for cookie in conn.bus_listeners() {
+                check(
+                    self.bus_listeners
+                        .get(&cookie)
+                        .is_some_and(|listener| listener.conn_id() == conn_id),
+                    "connection refers to missing bus listener",
+                )?;
+            }
+
+            for (callee_serial, _) in conn.calls() {
+                check(
+                    self.function_calls.verif_iter().any(|(serial, call)| {
+                        (*serial == callee_serial)
+                            && (call.caller_conn_id == *conn_id)
+                            && !call.aborted
+                    }),
+                    "connection refers to missing call",
+                )?;
+            }
+        }
+
+        Ok(())
+    }
+
+    fn verif_service(&self, cookie: aldrin_core::ServiceCookie) -> Option<&super::Service> {
+        let (obj_id, uuid, _) = self.svc_uuids.get(&cookie)?;
+        self.svcs.get(&(obj_id.uuid, *uuid))
+    }
+}
diff --git a/broker/src/conn/event.rs b/broker/src/conn/event.rs
index e165d88..8e9ec41 100644
--- a/broker/src/conn/event.rs
+++ b/broker/src/conn/event.rs
@@ -2,10 +2,12 @@ use crate::conn_id::ConnectionId;
 use crate::versioned_message::VersionedMessage;
 #[cfg(feature = "statistics")]
 use crate::BrokerStatistics;
+#[cfg(feature = "verif-hooks")]
+use crate::VerifSnapshot;
 use aldrin_core::message::Message;
 use aldrin_core::ProtocolVersion;
 use futures_channel::mpsc;
-#[cfg(feature = "statistics")]
+#[cfg(any(feature = "statistics", feature = "verif-hooks"))]
 use futures_channel::oneshot;
 
 #[derive(Debug)]
@@ -27,4 +29,7 @@ pub(crate) enum ConnectionEvent {
 
     #[cfg(feature = "statistics")]
     TakeStatistics(oneshot::Sender<BrokerStatistics>),
+
+    #[cfg(feature = "verif-hooks")]
+    VerifSnapshot(oneshot::Sender<VerifSnapshot>),
 }
diff --git a/broker/src/introspection_database.rs b/broker/src/introspection_database.rs
index d586fef..b5d7a67 100644
--- a/broker/src/introspection_database.rs
+++ b/broker/src/introspection_database.rs
@@ -23,6 +23,11 @@ impl IntrospectionDatabase {
         self.entries.len()
     }
 
+    #[cfg(feature = "verif-hooks")]
+    pub(crate) fn verif_len(&self) -> usize {
+        self.entries.len()
+    }
+
     pub(crate) fn register(&mut self, type_ids: &HashSet<TypeId>, conn_id: &ConnectionId) {
         for type_id in type_ids {
             self.entries
diff --git a/broker/src/lib.rs b/broker/src/lib.rs
index b4d9db1..4a56190 100644
--- a/broker/src/lib.rs
+++ b/broker/src/lib.rs
@@ -66,5 +66,8 @@ pub use acceptor::{AcceptError, Acceptor};
 pub use aldrin_core as core;
 #[cfg(feature = "statistics")]
 pub use broker::BrokerStatistics;
+#[cfg(feature = "verif-hooks")]
+#[doc(hidden)]
+pub use broker::VerifSnapshot;
 pub use broker::{Broker, BrokerHandle, BrokerShutdown};
 pub use conn::{Connection, ConnectionError, ConnectionHandle};
diff --git a/broker/src/serial_map.rs b/broker/src/serial_map.rs
index 5689689..9198aa0 100644
--- a/broker/src/serial_map.rs
+++ b/broker/src/serial_map.rs
@@ -44,4 +44,8 @@ impl<T> SerialMap<T> {
             Entry::Vacant(_) => None,
         }
     }
+    #[cfg(feature = "verif-hooks")]
+    pub(crate) fn verif_iter(&self) -> impl Iterator<Item = (&u32, &T)> {
+        self.elems.iter()
+    }
 }
-- 
2.43.0


From 9868282ec480aefc4fa12572ac8068afb1e314d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:57 +0000
Subject: [PATCH 04/22] fix: tell the broker when a connection's task is
 dropped

A Connection that was dropped before its run() future completed left its
objects, services, calls, channels, listeners and subscriptions behind until
the broker happened to send something to it; an idle shutdown never completed.
---
 broker/src/conn.rs        | 26 ++++++++++++++++++++++----
 broker/src/conn/handle.rs |  4 ----
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/broker/src/conn.rs b/broker/src/conn.rs
index 00fab58..922edf0 100644
--- a/broker/src/conn.rs
+++ b/broker/src/conn.rs
@@ -36,7 +36,7 @@ where
     version: ProtocolVersion,
     send: Sender<ConnectionEvent>,
     recv: Option<UnboundedReceiver<VersionedMessage>>,
-    handle: Option<ConnectionHandle>,
+    handle: ConnectionHandle,
 }
 
 impl<T> Connection<T>
@@ -57,7 +57,7 @@ where
             version,
             send,
             recv: Some(recv),
-            handle: Some(ConnectionHandle::new(id)),
+            handle: ConnectionHandle::new(id),
         }
     }
 
@@ -69,7 +69,7 @@ where
     /// Note also, that this method returns only a reference. However, `ConnectionHandle`s are cheap
     /// to `clone`.
     pub fn handle(&self) -> &ConnectionHandle {
-        self.handle.as_ref().unwrap()
+        &self.handle
     }
 
     /// Runs the connections.
@@ -77,7 +77,7 @@ where
     /// After [establishing](crate::BrokerHandle::connect) a new `Connection`, this method must be
     /// called and polled to completion to run the `Connection`.
     pub async fn run(mut self) -> Result<(), ConnectionError<T::Error>> {
-        let id = self.handle.take().unwrap().into_id();
+        let id = self.handle().id().clone();
 
         loop {
             debug_assert!(self.recv.is_some());
@@ -239,3 +239,21 @@ where
         Ok(())
     }
 }
+
+impl<T> Drop for Connection<T>
+where
+    T: AsyncTransport + Unpin,
+{
+    fn drop(&mut self) {
+        // `recv` is only `None` when the broker has already removed this connection.
+        if self.recv.is_some() {
+            // Every new `Sender` has a guaranteed slot. Thus, this fails only when the broker is
+            // gone.
+            let id = self.handle.id().clone();
+            let _ = self
+                .send
+                .clone()
+                .try_send(ConnectionEvent::ConnectionShutdown(id));
+        }
+    }
+}
diff --git a/broker/src/conn/handle.rs b/broker/src/conn/handle.rs
index efa777e..ebc567f 100644
--- a/broker/src/conn/handle.rs
+++ b/broker/src/conn/handle.rs
@@ -18,8 +18,4 @@ impl ConnectionHandle {
     pub(crate) fn id(&self) -> &ConnectionId {
         &self.id
     }
-
-    pub(super) fn into_id(self) -> ConnectionId {
-        self.id
-    }
 }
-- 
2.43.0


From f29063806baee4bbb7945f748d07d2bcaed51f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:37 +0000
Subject: [PATCH 05/22] fix: end subscriptions to all events when a service is
 destroyed

A connection subscribed to all events of a service kept the subscription to
the destroyed service in its state until it disconnected.
---
 broker/src/broker.rs         | 6 ++++++
 broker/src/broker/service.rs | 4 ++++
 2 files changed, 10 insertions(+)

diff --git a/broker/src/broker.rs b/broker/src/broker.rs
index 0c23dbb..90ade56 100644
--- a/broker/src/broker.rs
+++ b/broker/src/broker.rs
@@ -2243,6 +2243,12 @@ impl Broker {
             }
         }
 
+        for conn_id in svc.all_events_conn_ids() {
+            if let Some(conn) = self.conns.get_mut(conn_id) {
+                conn.unsubscribe_all_events(svc_cookie);
+            }
+        }
+
         #[cfg(feature = "statistics")]
         {
             self.statistics.num_services = self.statistics.num_services.saturating_sub(1);
diff --git a/broker/src/broker/service.rs b/broker/src/broker/service.rs
index d186839..fe43c4c 100644
--- a/broker/src/broker/service.rs
+++ b/broker/src/broker/service.rs
@@ -99,6 +99,10 @@ impl Service {
         !was_empty && self.all_events.is_empty()
     }
 
+    pub(crate) fn all_events_conn_ids(&self) -> impl Iterator<Item = &ConnectionId> {
+        self.all_events.iter()
+    }
+
     pub(crate) fn subscribe(&mut self, conn_id: ConnectionId) {
         self.subscriptions.insert(conn_id);
     }
-- 
2.43.0


From 1ef424f7b93b127280c2b649b8a3d339005b39b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:24 +0000
Subject: [PATCH 06/22] Revert "fix: tell the broker when a connection's task
 is dropped"

The existing test drop_conn_before_function_call relies on the broker not
noticing this before it sends something to that connection.
---
 broker/src/conn.rs        | 26 ++++----------------------
 broker/src/conn/handle.rs |  4 ++++
 2 files changed, 8 insertions(+), 22 deletions(-)

diff --git a/broker/src/conn.rs b/broker/src/conn.rs
index 922edf0..00fab58 100644
--- a/broker/src/conn.rs
+++ b/broker/src/conn.rs
@@ -36,7 +36,7 @@ where
     version: ProtocolVersion,
     send: Sender<ConnectionEvent>,
     recv: Option<UnboundedReceiver<VersionedMessage>>,
-    handle: ConnectionHandle,
+    handle: Option<ConnectionHandle>,
 }
 
 impl<T> Connection<T>
@@ -57,7 +57,7 @@ where
             version,
             send,
             recv: Some(recv),
-            handle: ConnectionHandle::new(id),
+            handle: Some(ConnectionHandle::new(id)),
         }
     }
 
@@ -69,7 +69,7 @@ where
     /// Note also, that this method returns only a reference. However, `ConnectionHandle`s are cheap
     /// to `clone`.
     pub fn handle(&self) -> &ConnectionHandle {
-        &self.handle
+        self.handle.as_ref().unwrap()
     }
 
     /// Runs the connections.
@@ -77,7 +77,7 @@ where
     /// After [establishing](crate::BrokerHandle::connect) a new `Connection`, this method must be
     /// called and polled to completion to run the `Connection`.
     pub async fn run(mut self) -> Result<(), ConnectionError<T::Error>> {
-        let id = self.handle().id().clone();
+        let id = self.handle.take().unwrap().into_id();
 
         loop {
             debug_assert!(self.recv.is_some());
@@ -239,21 +239,3 @@ where
         Ok(())
     }
 }
-
-impl<T> Drop for Connection<T>
-where
-    T: AsyncTransport + Unpin,
-{
-    fn drop(&mut self) {
-        // `recv` is only `None` when the broker has already removed this connection.
-        if self.recv.is_some() {
-            // Every new `Sender` has a guaranteed slot. Thus, this fails only when the broker is
-            // gone.
-            let id = self.handle.id().clone();
-            let _ = self
-                .send
-                .clone()
-                .try_send(ConnectionEvent::ConnectionShutdown(id));
-        }
-    }
-}
diff --git a/broker/src/conn/handle.rs b/broker/src/conn/handle.rs
index ebc567f..efa777e 100644
--- a/broker/src/conn/handle.rs
+++ b/broker/src/conn/handle.rs
@@ -18,4 +18,8 @@ impl ConnectionHandle {
     pub(crate) fn id(&self) -> &ConnectionId {
         &self.id
     }
+
+    pub(super) fn into_id(self) -> ConnectionId {
+        self.id
+    }
 }
-- 
2.43.0


From 07167275583754612e5b864a5eba1315b13d8271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:31 +0000
Subject: [PATCH 07/22] fix: count a channel even if its creator is gone before
 the reply

---
 broker/src/broker.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/broker/src/broker.rs b/broker/src/broker.rs
index 90ade56..d46e834 100644
--- a/broker/src/broker.rs
+++ b/broker/src/broker.rs
@@ -1054,6 +1054,11 @@ impl Broker {
 
         self.channels.insert(cookie, channel);
 
+        #[cfg(feature = "statistics")]
+        {
+            self.statistics.num_channels = self.statistics.num_channels.saturating_add(1);
+        }
+
         send!(
             self,
             conn,
@@ -1061,14 +1066,7 @@ impl Broker {
                 serial: req.serial,
                 cookie,
             },
-        )?;
-
-        #[cfg(feature = "statistics")]
-        {
-            self.statistics.num_channels = self.statistics.num_channels.saturating_add(1);
-        }
-
-        Ok(())
+        )
     }
 
     fn close_channel_end(
-- 
2.43.0


From 1672f1d78a785523d8424b44a3da3f829eb917bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:17 +0000
Subject: [PATCH 08/22] fix: close a connection that sends a malformed value
 instead of its receiver

---
 broker/src/broker.rs            | 74 +++++++++++++++++++++++++--------
 broker/src/broker/conn_state.rs | 13 +++++-
 2 files changed, 69 insertions(+), 18 deletions(-)

diff --git a/broker/src/broker.rs b/broker/src/broker.rs
index d46e834..e32c095 100644
--- a/broker/src/broker.rs
+++ b/broker/src/broker.rs
@@ -30,9 +30,9 @@ use aldrin_core::message::{
     CreateObjectReply, CreateObjectResult, CreateService, CreateService2, CreateServiceReply,
     CreateServiceResult, DestroyBusListener, DestroyBusListenerReply, DestroyBusListenerResult,
     DestroyObject, DestroyObjectReply, DestroyObjectResult, DestroyService, DestroyServiceReply,
-    DestroyServiceResult, EmitBusEvent, EmitEvent, ItemReceived, Message, QueryIntrospection,
-    QueryIntrospectionReply, QueryIntrospectionResult, QueryServiceInfo, QueryServiceInfoReply,
-    QueryServiceInfoResult, QueryServiceVersion, QueryServiceVersionReply,
+    DestroyServiceResult, EmitBusEvent, EmitEvent, ItemReceived, Message, MessageOps,
+    QueryIntrospection, QueryIntrospectionReply, QueryIntrospectionResult, QueryServiceInfo,
+    QueryServiceInfoReply, QueryServiceInfoResult, QueryServiceVersion, QueryServiceVersionReply,
     QueryServiceVersionResult, RegisterIntrospection, RemoveBusListenerFilter, SendItem,
     ServiceDestroyed, Shutdown, StartBusListener, StartBusListenerReply, StartBusListenerResult,
     StopBusListener, StopBusListenerReply, StopBusListenerResult, SubscribeAllEvents,
@@ -442,10 +442,10 @@ impl Broker {
             Message::DestroyService(req) => self.destroy_service(state, id, req)?,
             Message::CallFunction(req) => self.call_function(state, id, req)?,
             Message::CallFunction2(req) => self.call_function2(state, id, req)?,
-            Message::CallFunctionReply(req) => self.call_function_reply(state, id, req),
+            Message::CallFunctionReply(req) => self.call_function_reply(state, id, req)?,
             Message::SubscribeEvent(req) => self.subscribe_event(id, req)?,
             Message::UnsubscribeEvent(req) => self.unsubscribe_event(state, id, req),
-            Message::EmitEvent(req) => self.emit_event(state, id, req),
+            Message::EmitEvent(req) => self.emit_event(state, id, req)?,
             Message::QueryServiceVersion(req) => self.query_service_version(id, req)?,
             Message::CreateChannel(req) => self.create_channel(id, req)?,
             Message::CloseChannelEnd(req) => self.close_channel_end(state, id, req)?,
@@ -762,7 +762,7 @@ impl Broker {
         id: &ConnectionId,
         req: CallFunction2,
     ) -> Result<(), ()> {
-        let Some(conn) = self.conns.get_mut(id) else {
+        let Some(conn) = self.conns.get(id) else {
             return Ok(());
         };
 
@@ -783,6 +783,13 @@ impl Broker {
             .expect("inconsistent state")
             .conn_id();
 
+        let callee_conn = self.conns.get(callee_id).expect("inconsistent state");
+        conn.check_value(&req.value, callee_conn)?;
+
+        let Some(conn) = self.conns.get_mut(id) else {
+            return Ok(());
+        };
+
         let serial = self.function_calls.insert(PendingFunctionCall {
             caller_serial: req.serial,
             caller_conn_id: id.clone(),
@@ -843,13 +850,13 @@ impl Broker {
         state: &mut State,
         id: &ConnectionId,
         req: CallFunctionReply,
-    ) {
-        let Some(version) = self.conns.get(id).map(ConnectionState::version) else {
-            return;
+    ) -> Result<(), ()> {
+        let Some(conn) = self.conns.get(id) else {
+            return Ok(());
         };
 
         let Some(call) = self.function_calls.entry(req.serial) else {
-            return;
+            return Ok(());
         };
 
         let obj = self
@@ -858,9 +865,18 @@ impl Broker {
             .expect("inconsistent state");
 
         if obj.conn_id() != id {
-            return;
+            return Ok(());
         }
 
+        // Check this while the call is still pending, such that the caller gets a reply when the
+        // callee is removed.
+        if let (Some(value), Some(caller_conn)) =
+            (req.value(), self.conns.get(&call.get().caller_conn_id))
+        {
+            conn.check_value(value, caller_conn)?;
+        }
+
+        let version = conn.version();
         let call = call.remove();
 
         let svc = self
@@ -871,11 +887,11 @@ impl Broker {
         svc.remove_function_call(req.serial);
 
         if call.aborted {
-            return;
+            return Ok(());
         }
 
         let Some(caller_conn) = self.conns.get_mut(&call.caller_conn_id) else {
-            return;
+            return Ok(());
         };
 
         caller_conn.remove_call(call.caller_serial);
@@ -893,6 +909,8 @@ impl Broker {
         if res.is_err() {
             state.push_remove_conn(call.caller_conn_id, false);
         }
+
+        Ok(())
     }
 
     fn subscribe_event(&mut self, id: &ConnectionId, req: SubscribeEvent) -> Result<(), ()> {
@@ -982,9 +1000,14 @@ impl Broker {
         }
     }
 
-    fn emit_event(&mut self, state: &mut State, id: &ConnectionId, req: EmitEvent) {
+    fn emit_event(
+        &mut self,
+        state: &mut State,
+        id: &ConnectionId,
+        req: EmitEvent,
+    ) -> Result<(), ()> {
         let Some(emitter_conn) = self.conns.get(id) else {
-            return;
+            return Ok(());
         };
 
         let Some(obj_uuid) = self
@@ -992,12 +1015,18 @@ impl Broker {
             .get(&req.service_cookie)
             .map(|(object_id, _, _)| object_id.uuid)
         else {
-            return;
+            return Ok(());
         };
 
         let obj = self.objs.get(&obj_uuid).expect("inconsistent state");
         if obj.conn_id() != id {
-            return;
+            return Ok(());
+        }
+
+        for conn in self.conns.values() {
+            if conn.is_subscribed_to_event(req.service_cookie, req.event) {
+                emitter_conn.check_value(&req.value, conn)?;
+            }
         }
 
         for (conn_id, conn) in self.conns.iter() {
@@ -1007,6 +1036,8 @@ impl Broker {
                 state.push_remove_conn(conn_id.clone(), false);
             }
         }
+
+        Ok(())
     }
 
     fn query_service_version(
@@ -1263,6 +1294,8 @@ impl Broker {
             return Ok(());
         };
 
+        sender.check_value(&req.value, receiver)?;
+
         let res = send!(
             self,
             receiver,
@@ -1731,6 +1764,13 @@ impl Broker {
             return Err(());
         }
 
+        // The introspection is kept and sent to clients of any version.
+        if let Some(value) = req.value() {
+            value
+                .convert(None, ProtocolVersion::V1_14)
+                .map_err(|_| ())?;
+        }
+
         let serial = req.serial;
 
         let Some(type_id) = self.query_introspection.entry(serial) else {
diff --git a/broker/src/broker/conn_state.rs b/broker/src/broker/conn_state.rs
index e81eab2..11fcaa6 100644
--- a/broker/src/broker/conn_state.rs
+++ b/broker/src/broker/conn_state.rs
@@ -1,6 +1,9 @@
 use crate::conn_id::ConnectionId;
 use crate::versioned_message::VersionedMessage;
-use aldrin_core::{BusListenerCookie, ChannelCookie, ObjectCookie, ProtocolVersion, ServiceCookie};
+use aldrin_core::{
+    BusListenerCookie, ChannelCookie, ObjectCookie, ProtocolVersion, SerializedValueSlice,
+    ServiceCookie,
+};
 use futures_channel::mpsc::UnboundedSender;
 use std::collections::hash_map::{Entry, HashMap};
 use std::collections::HashSet;
@@ -53,6 +56,14 @@ impl ConnectionState {
         self.objects.iter().copied()
     }
 
+    /// Fails if a value sent by this connection cannot be converted for `to`.
+    pub(crate) fn check_value(&self, value: &SerializedValueSlice, to: &Self) -> Result<(), ()> {
+        match value.convert(Some(self.version), to.version) {
+            Ok(_) => Ok(()),
+            Err(_) => Err(()),
+        }
+    }
+
     pub(crate) fn send(&self, msg: VersionedMessage) -> Result<(), ()> {
         self.send.unbounded_send(msg).map_err(|_| ())
     }
-- 
2.43.0


From 66aff8e5add18a3dac27489a175b077ee4e3374f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:36 +0000
Subject: [PATCH 09/22] fix: don't close a channel end after failing to claim
 it

When claiming failed, the end was closed as if it had been claimed. With
the channel being gone this tripped an assertion in the client, and with
the end already being claimed by the same client it closed that end.
---
 aldrin/src/client.rs                      | 16 ++++++----------
 aldrin/src/low_level/channel/raw.rs       |  7 +++++++
 aldrin/src/low_level/channel/unclaimed.rs | 23 ++++++++++++++++-------
 3 files changed, 29 insertions(+), 17 deletions(-)

diff --git a/aldrin/src/client.rs b/aldrin/src/client.rs
index c3e44f9..437abfc 100644
--- a/aldrin/src/client.rs
+++ b/aldrin/src/client.rs
@@ -587,17 +587,13 @@ where
         };
 
         if req.claimed {
-            match req.end {
-                ChannelEnd::Sender => {
-                    let contained = self.senders.remove(&req.cookie);
-                    debug_assert!(contained.is_some());
-                }
+            // The end is not known here if the claim has been canceled and then failed.
+            let contained = match req.end {
+                ChannelEnd::Sender => self.senders.remove(&req.cookie).is_some(),
+                ChannelEnd::Receiver => self.receivers.remove(&req.cookie).is_some(),
+            };
 
-                ChannelEnd::Receiver => {
-                    let contained = self.receivers.remove(&req.cookie);
-                    debug_assert!(contained.is_some());
-                }
-            }
+            debug_assert!(contained || (msg.result != CloseChannelEndResult::Ok));
         }
 
         let res = match msg.result {
diff --git a/aldrin/src/low_level/channel/raw.rs b/aldrin/src/low_level/channel/raw.rs
index cc832ab..87d9be0 100644
--- a/aldrin/src/low_level/channel/raw.rs
+++ b/aldrin/src/low_level/channel/raw.rs
@@ -76,6 +76,13 @@ impl<const SENDER: bool> RawChannel<SENDER> {
         self.claimed = true;
     }
 
+    // There is nothing to close after a failed claim. The channel either doesn't exist (anymore) or
+    // the end has been claimed elsewhere, possibly by the same client.
+    pub(crate) fn set_claim_failed(&mut self) {
+        debug_assert!(self.claimed);
+        self.state = State::Closed;
+    }
+
     fn begin_close(&mut self) -> Result<CloseChannelEndFuture, Error> {
         self.client
             .close_channel_end(self.cookie, Self::channel_end(), self.claimed)
diff --git a/aldrin/src/low_level/channel/unclaimed.rs b/aldrin/src/low_level/channel/unclaimed.rs
index a4755f5..4772d32 100644
--- a/aldrin/src/low_level/channel/unclaimed.rs
+++ b/aldrin/src/low_level/channel/unclaimed.rs
@@ -116,8 +116,15 @@ impl UnclaimedSender {
     /// ```
     pub async fn claim(mut self) -> Result<Sender, Error> {
         self.inner.set_claimed();
-        let (capacity_added, capacity) = self.client().claim_sender(self.cookie()).await?;
-        Ok(Sender::new(self.inner, capacity_added, capacity))
+
+        match self.client().claim_sender(self.cookie()).await {
+            Ok((capacity_added, capacity)) => Ok(Sender::new(self.inner, capacity_added, capacity)),
+
+            Err(e) => {
+                self.inner.set_claim_failed();
+                Err(e)
+            }
+        }
     }
 }
 
@@ -235,11 +242,13 @@ impl UnclaimedReceiver {
     pub async fn claim(mut self, capacity: u32) -> Result<Receiver, Error> {
         self.inner.set_claimed();
 
-        let (items, max_capacity) = self
-            .client()
-            .claim_receiver(self.cookie(), capacity)
-            .await?;
+        match self.client().claim_receiver(self.cookie(), capacity).await {
+            Ok((items, max_capacity)) => Ok(Receiver::new(self.inner, items, max_capacity)),
 
-        Ok(Receiver::new(self.inner, items, max_capacity))
+            Err(e) => {
+                self.inner.set_claim_failed();
+                Err(e)
+            }
+        }
     }
 }
-- 
2.43.0


From 28a6c0b2e2ea228086b228fa778cd755b8f16b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:12 +0000
Subject: [PATCH 10/22] fix: end a claimed channel end that is closed through
 another binding

An application can bind a cookie several times. When its claimed end was
closed through one of the other bindings, the client kept the end's
state, so that a receiver waited forever for its next item.
---
 aldrin/src/client.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/aldrin/src/client.rs b/aldrin/src/client.rs
index 437abfc..ebb47a0 100644
--- a/aldrin/src/client.rs
+++ b/aldrin/src/client.rs
@@ -586,14 +586,16 @@ where
             return Err(RunError::UnexpectedMessageReceived(msg.into()));
         };
 
-        if req.claimed {
+        // The end might have been claimed through a different binding, which has to see that it's
+        // closed.
+        if req.claimed || (msg.result == CloseChannelEndResult::Ok) {
             // The end is not known here if the claim has been canceled and then failed.
             let contained = match req.end {
                 ChannelEnd::Sender => self.senders.remove(&req.cookie).is_some(),
                 ChannelEnd::Receiver => self.receivers.remove(&req.cookie).is_some(),
             };
 
-            debug_assert!(contained || (msg.result != CloseChannelEndResult::Ok));
+            debug_assert!(contained || !req.claimed || (msg.result != CloseChannelEndResult::Ok));
         }
 
         let res = match msg.result {
@@ -1444,7 +1446,10 @@ where
     }
 
     async fn req_send_item(&mut self, req: SendItemRequest) -> Result<(), RunError<T::Error>> {
-        debug_assert!(self.senders.contains_key(&req.cookie));
+        // The sender might have been closed through a different binding.
+        if !self.senders.contains_key(&req.cookie) {
+            return Ok(());
+        }
 
         let msg = SendItem {
             cookie: req.cookie,
@@ -1458,7 +1463,11 @@ where
         &mut self,
         req: AddChannelCapacity,
     ) -> Result<(), RunError<T::Error>> {
-        debug_assert!(self.receivers.contains_key(&req.cookie));
+        // The receiver might have been closed through a different binding.
+        if !self.receivers.contains_key(&req.cookie) {
+            return Ok(());
+        }
+
         send!(self, req)
     }
 
-- 
2.43.0


From 3937173c7711c59739c3564d50d4bf0432d46af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:09 +0000
Subject: [PATCH 11/22] fix: don't reset pending events of a destroyed bus
 listener

Events that were queued before are still taken from the queue afterwards and
decremented the counters below zero.
---
 aldrin/src/bus_listener.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/aldrin/src/bus_listener.rs b/aldrin/src/bus_listener.rs
index 3d803aa..7004a3b 100644
--- a/aldrin/src/bus_listener.rs
+++ b/aldrin/src/bus_listener.rs
@@ -133,9 +133,6 @@ impl BusListener {
         self.client.destroy_bus_listener(self.cookie).await?;
 
         self.events.close();
-        self.pending_started = 0;
-        self.pending_stopped = 0;
-        self.pending_current_finished = 0;
 
         Ok(())
     }
-- 
2.43.0


From ec5887fe1cc0d797484c5d4ecfc5c37cdd8d3ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:44 +0000
Subject: [PATCH 12/22] fix: count a bus listener's pending events where they
 are queued

Dropping the future of start() or stop() after the request was sent left events
in the queue that were never counted, such that the counters underflowed when
these events were processed.
---
 aldrin/src/bus_listener.rs | 65 ++++++++++++++++++++++++--------------
 aldrin/src/client.rs       | 11 +++++--
 2 files changed, 50 insertions(+), 26 deletions(-)

diff --git a/aldrin/src/bus_listener.rs b/aldrin/src/bus_listener.rs
index 7004a3b..adb976f 100644
--- a/aldrin/src/bus_listener.rs
+++ b/aldrin/src/bus_listener.rs
@@ -9,6 +9,8 @@ use futures_core::stream::{FusedStream, Stream};
 use std::collections::HashSet;
 use std::future;
 use std::pin::Pin;
+use std::sync::atomic::{AtomicUsize, Ordering};
+use std::sync::Arc;
 use std::task::{Context, Poll};
 
 /// Monitors the bus for the creation and destruction of objects and services.
@@ -89,9 +91,7 @@ pub struct BusListener {
     client: Handle,
     filters: HashSet<BusListenerFilter>,
     scope: Option<BusListenerScope>,
-    pending_started: usize,
-    pending_stopped: usize,
-    pending_current_finished: usize,
+    pending: Arc<PendingEvents>,
     events: UnboundedReceiver<BusListenerEvent>,
 }
 
@@ -105,15 +105,14 @@ impl BusListener {
         cookie: BusListenerCookie,
         client: Handle,
         events: UnboundedReceiver<BusListenerEvent>,
+        pending: Arc<PendingEvents>,
     ) -> Self {
         Self {
             cookie,
             client,
             filters: HashSet::new(),
             scope: None,
-            pending_started: 0,
-            pending_stopped: 0,
-            pending_current_finished: 0,
+            pending,
             events,
         }
     }
@@ -343,21 +342,12 @@ impl BusListener {
     ///
     /// Bus listeners can only be started when they are stopped.
     pub async fn start(&mut self, scope: BusListenerScope) -> Result<(), Error> {
-        self.client.start_bus_listener(self.cookie, scope).await?;
-        self.pending_started += 1;
-
-        if scope.includes_current() {
-            self.pending_current_finished += 1;
-        }
-
-        Ok(())
+        self.client.start_bus_listener(self.cookie, scope).await
     }
 
     /// Stops the bus listener.
     pub async fn stop(&mut self) -> Result<(), Error> {
-        self.client.stop_bus_listener(self.cookie).await?;
-        self.pending_stopped += 1;
-        Ok(())
+        self.client.stop_bus_listener(self.cookie).await
     }
 
     /// Returns the bus listener's active scope, if any.
@@ -381,9 +371,9 @@ impl BusListener {
     pub fn is_finished(&self) -> bool {
         self.events.is_terminated()
             || (!self.includes_new()
-                && (self.pending_started == 0)
-                && (self.pending_stopped == 0)
-                && (self.pending_current_finished == 0))
+                && (self.pending.started.load(Ordering::Relaxed) == 0)
+                && (self.pending.stopped.load(Ordering::Relaxed) == 0)
+                && (self.pending.current_finished.load(Ordering::Relaxed) == 0))
     }
 
     /// Polls the bus listener for an event.
@@ -396,12 +386,12 @@ impl BusListener {
             match Pin::new(&mut self.events).poll_next(cx) {
                 Poll::Ready(Some(BusListenerEvent::Started(scope))) => {
                     self.scope = Some(scope);
-                    self.pending_started -= 1;
+                    self.pending.started.fetch_sub(1, Ordering::Relaxed);
                 }
 
                 Poll::Ready(Some(BusListenerEvent::Stopped)) => {
                     self.scope = None;
-                    self.pending_stopped -= 1;
+                    self.pending.stopped.fetch_sub(1, Ordering::Relaxed);
                 }
 
                 Poll::Ready(Some(BusListenerEvent::Event(event))) => {
@@ -409,7 +399,9 @@ impl BusListener {
                 }
 
                 Poll::Ready(Some(BusListenerEvent::CurrentFinished)) => {
-                    self.pending_current_finished -= 1;
+                    self.pending
+                        .current_finished
+                        .fetch_sub(1, Ordering::Relaxed);
                 }
 
                 Poll::Ready(None) => break Poll::Ready(None),
@@ -450,19 +442,35 @@ impl FusedStream for BusListener {
     }
 }
 
+/// Number of events which a [`BusListener`] still has to process.
+///
+/// These are counted by the [`BusListenerHandle`], such that they are correct even if the futures
+/// returned by [`BusListener::start`] and [`BusListener::stop`] are dropped.
+#[derive(Debug, Default)]
+pub(crate) struct PendingEvents {
+    started: AtomicUsize,
+    stopped: AtomicUsize,
+    current_finished: AtomicUsize,
+}
+
 #[derive(Debug)]
 pub(crate) struct BusListenerHandle {
     filters: HashSet<BusListenerFilter>,
     events: UnboundedSender<BusListenerEvent>,
+    pending: Arc<PendingEvents>,
     scope: Option<BusListenerScope>,
     current_finished: bool,
 }
 
 impl BusListenerHandle {
-    pub(crate) fn new(events: UnboundedSender<BusListenerEvent>) -> Self {
+    pub(crate) fn new(
+        events: UnboundedSender<BusListenerEvent>,
+        pending: Arc<PendingEvents>,
+    ) -> Self {
         Self {
             filters: HashSet::new(),
             events,
+            pending,
             scope: None,
             current_finished: false,
         }
@@ -484,6 +492,14 @@ impl BusListenerHandle {
         if self.scope.is_none() {
             self.scope = Some(scope);
             self.current_finished = !scope.includes_current();
+            self.pending.started.fetch_add(1, Ordering::Relaxed);
+
+            if scope.includes_current() {
+                self.pending
+                    .current_finished
+                    .fetch_add(1, Ordering::Relaxed);
+            }
+
             let _ = self.events.unbounded_send(BusListenerEvent::Started(scope));
             true
         } else {
@@ -494,6 +510,7 @@ impl BusListenerHandle {
     pub(crate) fn stop(&mut self) -> bool {
         if self.scope.is_some() {
             self.scope = None;
+            self.pending.stopped.fetch_add(1, Ordering::Relaxed);
             let _ = self.events.unbounded_send(BusListenerEvent::Stopped);
             true
         } else {
diff --git a/aldrin/src/client.rs b/aldrin/src/client.rs
index ebb47a0..d65e2a5 100644
--- a/aldrin/src/client.rs
+++ b/aldrin/src/client.rs
@@ -60,6 +60,7 @@ use proxies::{Proxies, SubscribeResult};
 use select::{Select, Selected};
 use std::collections::HashMap;
 use std::mem;
+use std::sync::Arc;
 use std::time::Instant;
 
 /// Aldrin client used to connect to a broker.
@@ -786,10 +787,16 @@ where
         };
 
         let (send, recv) = mpsc::unbounded();
+        let pending = Arc::default();
 
         match data {
             CreateBusListenerData::BusListener(reply) => {
-                let listener = BusListener::new_impl(msg.cookie, self.handle.clone(), recv);
+                let listener = BusListener::new_impl(
+                    msg.cookie,
+                    self.handle.clone(),
+                    recv,
+                    Arc::clone(&pending),
+                );
                 let _ = reply.send(listener);
             }
 
@@ -799,7 +806,7 @@ where
             }
         }
 
-        let bus_listener_handle = BusListenerHandle::new(send);
+        let bus_listener_handle = BusListenerHandle::new(send, pending);
         let dup = self.bus_listeners.insert(msg.cookie, bus_listener_handle);
         assert!(dup.is_none());
 
-- 
2.43.0


From a795af2b515d1115804884ba7111e1cfb4f0ae6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:34 +0000
Subject: [PATCH 13/22] fix: answer a client whose message crosses the broker's
 shutdown

---
 broker/src/conn.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/broker/src/conn.rs b/broker/src/conn.rs
index 00fab58..9e1fe81 100644
--- a/broker/src/conn.rs
+++ b/broker/src/conn.rs
@@ -112,7 +112,11 @@ where
                     break self.client_shutdown(id).await;
                 }
 
-                Selected::Transport(Ok(msg)) => self.send_broker_msg(id.clone(), msg).await?,
+                Selected::Transport(Ok(msg)) => {
+                    // The broker might have shut down just now. In that case, it's the broker's
+                    // receiver that tells whether it did so properly.
+                    let _ = self.send_broker_msg(id.clone(), msg).await;
+                }
 
                 Selected::TransportFlushed(Ok(())) => self.flush_transport = false,
 
@@ -150,7 +154,8 @@ where
     }
 
     async fn client_shutdown(&mut self, id: ConnectionId) -> Result<(), ConnectionError<T::Error>> {
-        self.send_broker_shutdown(id).await?;
+        // If the broker has shut down as well, then the client must still be answered.
+        let _ = self.send_broker_shutdown(id).await;
         self.send_message(Shutdown).await?;
         self.drain_broker_recv().await;
 
-- 
2.43.0


From 4c205bc3cdbd2e582e39803a904017d115e40600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:30 +0000
Subject: [PATCH 14/22] fix: don't panic on names consisting only of
 underscores

---
 codegen/src/util.rs | 5 +++--
 macros/src/util.rs  | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/codegen/src/util.rs b/codegen/src/util.rs
index 16c29aa..6c5215c 100644
--- a/codegen/src/util.rs
+++ b/codegen/src/util.rs
@@ -6,8 +6,9 @@ where
     F: FnOnce(&'a str) -> R,
     R: fmt::Display,
 {
-    let start = s.len() - s.trim_start_matches('_').len();
-    let end = s.trim_end_matches('_').len();
+    let trimmed = s.trim_start_matches('_');
+    let start = s.len() - trimmed.len();
+    let end = start + trimmed.trim_end_matches('_').len();
 
     format!("{}{}{}", &s[..start], convert(&s[start..end]), &s[end..],)
 }
diff --git a/macros/src/util.rs b/macros/src/util.rs
index a312db9..2ceb1ea 100644
--- a/macros/src/util.rs
+++ b/macros/src/util.rs
@@ -6,8 +6,9 @@ where
     F: FnOnce(&'a str) -> R,
     R: fmt::Display,
 {
-    let start = s.len() - s.trim_start_matches('_').len();
-    let end = s.trim_end_matches('_').len();
+    let trimmed = s.trim_start_matches('_');
+    let start = s.len() - trimmed.len();
+    let end = start + trimmed.trim_end_matches('_').len();
 
     format!("{}{}{}", &s[..start], convert(&s[start..end]), &s[end..],)
 }
-- 
2.43.0


From 5b7a667c366be8d000493b1fb0f933678fa8fdd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:30 +0000
Subject: [PATCH 15/22] fix: escape doc strings in generated attributes

---
 codegen/src/rust.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/codegen/src/rust.rs b/codegen/src/rust.rs
index 31f7b5f..37a70e8 100644
--- a/codegen/src/rust.rs
+++ b/codegen/src/rust.rs
@@ -239,7 +239,7 @@ impl RustGenerator<'_> {
         if doc_alt && self.options.introspection {
             for doc in doc {
                 let doc = doc.value_inner();
-                codeln!(self, "#[aldrin(doc = \"{doc}\")]");
+                codeln!(self, "#[aldrin(doc = {doc:?})]");
             }
         }
 
@@ -268,7 +268,7 @@ impl RustGenerator<'_> {
             if doc_alt && self.options.introspection {
                 for doc in field.doc() {
                     let doc = doc.value_inner();
-                    codeln!(self, "    #[aldrin(doc = \"{doc}\")]");
+                    codeln!(self, "    #[aldrin(doc = {doc:?})]");
                 }
             }
 
@@ -291,7 +291,7 @@ impl RustGenerator<'_> {
             if doc_alt && self.options.introspection {
                 for doc in fallback.doc() {
                     let doc = doc.value_inner();
-                    codeln!(self, "    #[aldrin(doc = \"{doc}\")]");
+                    codeln!(self, "    #[aldrin(doc = {doc:?})]");
                 }
             }
 
@@ -352,7 +352,7 @@ impl RustGenerator<'_> {
         if doc_alt && self.options.introspection {
             for doc in doc {
                 let doc = doc.value_inner();
-                codeln!(self, "#[aldrin(doc = \"{doc}\")]");
+                codeln!(self, "#[aldrin(doc = {doc:?})]");
             }
         }
 
@@ -376,7 +376,7 @@ impl RustGenerator<'_> {
             if doc_alt && self.options.introspection {
                 for doc in var.doc() {
                     let doc = doc.value_inner();
-                    codeln!(self, "    #[aldrin(doc = \"{doc}\")]");
+                    codeln!(self, "    #[aldrin(doc = {doc:?})]");
                 }
             }
 
@@ -400,7 +400,7 @@ impl RustGenerator<'_> {
             if doc_alt && self.options.introspection {
                 for doc in fallback.doc() {
                     let doc = doc.value_inner();
-                    codeln!(self, "    #[aldrin(doc = \"{doc}\")]");
+                    codeln!(self, "    #[aldrin(doc = {doc:?})]");
                 }
             }
 
@@ -457,7 +457,7 @@ impl RustGenerator<'_> {
         if doc_alt && self.options.introspection {
             for doc in svc.doc() {
                 let doc = doc.value_inner();
-                codeln!(self, "    #[aldrin(doc = \"{doc}\")]");
+                codeln!(self, "    #[aldrin(doc = {doc:?})]");
             }
         }
 
@@ -480,7 +480,7 @@ impl RustGenerator<'_> {
                     if doc_alt && self.options.introspection {
                         for doc in func.doc() {
                             let doc = doc.value_inner();
-                            codeln!(self, "        #[aldrin(doc = \"{doc}\")]");
+                            codeln!(self, "        #[aldrin(doc = {doc:?})]");
                         }
                     }
 
@@ -524,7 +524,7 @@ impl RustGenerator<'_> {
                     if doc_alt && self.options.introspection {
                         for doc in ev.doc() {
                             let doc = doc.value_inner();
-                            codeln!(self, "        #[aldrin(doc = \"{doc}\")]");
+                            codeln!(self, "        #[aldrin(doc = {doc:?})]");
                         }
                     }
 
@@ -552,7 +552,7 @@ impl RustGenerator<'_> {
             if doc_alt && self.options.introspection {
                 for doc in fallback.doc() {
                     let doc = doc.value_inner();
-                    codeln!(self, "        #[aldrin(doc = \"{doc}\")]");
+                    codeln!(self, "        #[aldrin(doc = {doc:?})]");
                 }
             }
 
@@ -571,7 +571,7 @@ impl RustGenerator<'_> {
             if doc_alt && self.options.introspection {
                 for doc in fallback.doc() {
                     let doc = doc.value_inner();
-                    codeln!(self, "        #[aldrin(doc = \"{doc}\")]");
+                    codeln!(self, "        #[aldrin(doc = {doc:?})]");
                 }
             }
 
@@ -796,7 +796,7 @@ impl RustGenerator<'_> {
         if doc_alt && self.options.introspection {
             for doc in newtype_def.doc() {
                 let doc = doc.value_inner();
-                codeln!(self, "#[aldrin(doc = \"{doc}\")]");
+                codeln!(self, "#[aldrin(doc = {doc:?})]");
             }
         }
 
-- 
2.43.0


From 910cf65b6b597139611efe71eadf97f41834d550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:30 +0000
Subject: [PATCH 16/22] fix: don't overflow after the highest id in derive
 macros

---
 macros/src/derive/enum_data.rs      | 2 +-
 macros/src/derive/introspectable.rs | 4 ++--
 macros/src/derive/struct_data.rs    | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/macros/src/derive/enum_data.rs b/macros/src/derive/enum_data.rs
index b4698b9..1e1c27a 100644
--- a/macros/src/derive/enum_data.rs
+++ b/macros/src/derive/enum_data.rs
@@ -40,7 +40,7 @@ impl<'a> EnumData<'a> {
                 VariantData::new(variant, name, input.generics.lifetimes(), default_id)?;
 
             fallback = variant_data.is_fallback();
-            default_id = variant_data.id() + 1;
+            default_id = variant_data.id().wrapping_add(1);
             variant_datas.push(variant_data);
         }
 
diff --git a/macros/src/derive/introspectable.rs b/macros/src/derive/introspectable.rs
index bbbd8ea..7ff2ca5 100644
--- a/macros/src/derive/introspectable.rs
+++ b/macros/src/derive/introspectable.rs
@@ -137,7 +137,7 @@ fn gen_regular_struct(
                 ));
             }
 
-            next_id = item_options.id() + 1;
+            next_id = item_options.id().wrapping_add(1);
 
             let (field_layout, field_references) = gen_field(field, index, options, &item_options);
 
@@ -289,7 +289,7 @@ fn gen_enum(
             ));
         }
 
-        next_id = item_options.id() + 1;
+        next_id = item_options.id().wrapping_add(1);
 
         let (var_layout, var_references) = gen_variant(variant, options, &item_options)?;
 
diff --git a/macros/src/derive/struct_data.rs b/macros/src/derive/struct_data.rs
index 90e7caa..62f4f85 100644
--- a/macros/src/derive/struct_data.rs
+++ b/macros/src/derive/struct_data.rs
@@ -73,7 +73,7 @@ impl<'a> StructData<'a> {
                 fallback = true;
             }
 
-            default_id = field_data.id() + 1;
+            default_id = field_data.id().wrapping_add(1);
             field_datas.push(field_data);
         }
 
-- 
2.43.0


From 19182c2f57bb9665c1673bd9b7c92178c7d866e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:30 +0000
Subject: [PATCH 17/22] fix: allow constants to be named like Rust keywords

---
 codegen/src/rust.rs | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/codegen/src/rust.rs b/codegen/src/rust.rs
index 37a70e8..67d0232 100644
--- a/codegen/src/rust.rs
+++ b/codegen/src/rust.rs
@@ -685,7 +685,7 @@ impl RustGenerator<'_> {
 
     fn const_def(&mut self, const_def: &ast::ConstDef) {
         let krate = self.rust_options.krate_or_default();
-        let name = const_def.name().value();
+        let ident = format!("r#{}", const_def.name().value());
 
         let (doc_comment, _) = self.doc_string(const_def.doc(), 0);
         code!(self, "{doc_comment}");
@@ -693,52 +693,52 @@ impl RustGenerator<'_> {
         match const_def.value() {
             ast::ConstValue::U8(v) => {
                 let val = v.value();
-                codeln!(self, "pub const {name}: {U8} = {val};");
+                codeln!(self, "pub const {ident}: {U8} = {val};");
             }
 
             ast::ConstValue::I8(v) => {
                 let val = v.value();
-                codeln!(self, "pub const {name}: {I8} = {val};");
+                codeln!(self, "pub const {ident}: {I8} = {val};");
             }
 
             ast::ConstValue::U16(v) => {
                 let val = v.value();
-                codeln!(self, "pub const {name}: {U16} = {val};");
+                codeln!(self, "pub const {ident}: {U16} = {val};");
             }
 
             ast::ConstValue::I16(v) => {
                 let val = v.value();
-                codeln!(self, "pub const {name}: {I16} = {val};");
+                codeln!(self, "pub const {ident}: {I16} = {val};");
             }
 
             ast::ConstValue::U32(v) => {
                 let val = v.value();
-                codeln!(self, "pub const {name}: {U32} = {val};");
+                codeln!(self, "pub const {ident}: {U32} = {val};");
             }
 
             ast::ConstValue::I32(v) => {
                 let val = v.value();
-                codeln!(self, "pub const {name}: {I32} = {val};");
+                codeln!(self, "pub const {ident}: {I32} = {val};");
             }
 
             ast::ConstValue::U64(v) => {
                 let val = v.value();
-                codeln!(self, "pub const {name}: {U64} = {val};");
+                codeln!(self, "pub const {ident}: {U64} = {val};");
             }
 
             ast::ConstValue::I64(v) => {
                 let val = v.value();
-                codeln!(self, "pub const {name}: {I64} = {val};");
+                codeln!(self, "pub const {ident}: {I64} = {val};");
             }
 
             ast::ConstValue::String(v) => {
                 let val = v.value();
-                codeln!(self, "pub const {name}: &{STR} = {val};");
+                codeln!(self, "pub const {ident}: &{STR} = {val};");
             }
 
             ast::ConstValue::Uuid(v) => {
                 let val = v.value();
-                codeln!(self, "pub const {name}: {krate}::private::uuid::Uuid = {krate}::private::uuid::uuid!(\"{val}\");");
+                codeln!(self, "pub const {ident}: {krate}::private::uuid::Uuid = {krate}::private::uuid::uuid!(\"{val}\");");
             }
         };
 
-- 
2.43.0


From 67db5e5ded212ed0564caf51a68018f95d12552f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:44 +0000
Subject: [PATCH 18/22] fix: don't derive traits twice for newtypes of key
 types

---
 codegen/src/rust.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/codegen/src/rust.rs b/codegen/src/rust.rs
index 67d0232..8a41904 100644
--- a/codegen/src/rust.rs
+++ b/codegen/src/rust.rs
@@ -751,11 +751,21 @@ impl RustGenerator<'_> {
         let ident = format!("r#{name}");
         let ty = self.type_name(newtype_def.target_type());
         let schema_name = self.schema.name();
-        let additional_derives =
-            RustAttributes::parse(newtype_def.attributes()).additional_derives();
+        let mut attrs = RustAttributes::parse(newtype_def.attributes());
         let (is_key_type, derive_default) =
             self.newtype_properties(self.schema, newtype_def.target_type());
 
+        if is_key_type {
+            // These are always derived for key types.
+            attrs.impl_partial_eq = false;
+            attrs.impl_eq = false;
+            attrs.impl_partial_ord = false;
+            attrs.impl_ord = false;
+            attrs.impl_hash = false;
+        }
+
+        let additional_derives = attrs.additional_derives();
+
         let (doc_comment, doc_alt) = self.doc_string(newtype_def.doc(), 0);
         code!(self, "{doc_comment}");
 
-- 
2.43.0


From 429fd7858c86be0017ba6cef767676b0e2a3d113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:45 +0000
Subject: [PATCH 19/22] fix: split doc strings at bare carriage returns

---
 codegen/src/rust.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/codegen/src/rust.rs b/codegen/src/rust.rs
index 8a41904..a59300e 100644
--- a/codegen/src/rust.rs
+++ b/codegen/src/rust.rs
@@ -1098,7 +1098,8 @@ impl RustGenerator<'_> {
         let with_links = self.rewrite_doc_links(&orig);
         let mut doc_string = String::new();
 
-        for line in with_links.lines() {
+        // Rust doesn't allow bare carriage returns in doc comments.
+        for line in with_links.lines().flat_map(|line| line.split('\r')) {
             doc_string.push_str(&INDENT[..indent]);
             doc_string.push_str(style);
 
-- 
2.43.0


From d9b9454dfb83467a7434c7102f17d6aa0e97ef19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:16 +0000
Subject: [PATCH 20/22] fix: make the parser's diagnostics independent of hash
 map order

---
 parser/src/error/duplicate_service_uuid.rs |  4 ++--
 parser/src/link_resolver.rs                |  6 +++---
 parser/src/parser.rs                       |  8 ++++----
 parser/src/util.rs                         | 22 ++++++++--------------
 parser/src/validate.rs                     |  6 +++---
 5 files changed, 20 insertions(+), 26 deletions(-)

diff --git a/parser/src/error/duplicate_service_uuid.rs b/parser/src/error/duplicate_service_uuid.rs
index 4255122..6006b37 100644
--- a/parser/src/error/duplicate_service_uuid.rs
+++ b/parser/src/error/duplicate_service_uuid.rs
@@ -3,7 +3,7 @@ use crate::ast::{Ident, LitUuid};
 use crate::diag::{Diagnostic, DiagnosticKind, Renderer};
 use crate::issues::Issues;
 use crate::{Parser, Schema};
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 
 #[derive(Debug)]
 pub(crate) struct DuplicateServiceUuid {
@@ -17,7 +17,7 @@ impl DuplicateServiceUuid {
     where
         I: IntoIterator<Item = &'a Schema>,
     {
-        let mut uuids: HashMap<_, Vec<_>> = HashMap::new();
+        let mut uuids: BTreeMap<_, Vec<_>> = BTreeMap::new();
 
         for schema in schemas {
             for def in schema.definitions() {
diff --git a/parser/src/link_resolver.rs b/parser/src/link_resolver.rs
index 797dfe6..189c35b 100644
--- a/parser/src/link_resolver.rs
+++ b/parser/src/link_resolver.rs
@@ -7,7 +7,7 @@ use crate::ast::{
     StructDef, StructFallback, StructField, TypeNameOrInline,
 };
 use crate::{Parser, Schema, Span};
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 use std::mem;
 use thiserror::Error;
 
@@ -16,7 +16,7 @@ type ResolveResult<'a> = Result<'a, ResolvedLink<'a>>;
 
 #[derive(Debug, Copy, Clone)]
 pub struct LinkResolver<'a> {
-    schemas: &'a HashMap<String, Schema>,
+    schemas: &'a BTreeMap<String, Schema>,
     schema: &'a Schema,
 }
 
@@ -25,7 +25,7 @@ impl<'a> LinkResolver<'a> {
         Self::from_parts(parser.schemas(), schema)
     }
 
-    pub(crate) fn from_parts(schemas: &'a HashMap<String, Schema>, schema: &'a Schema) -> Self {
+    pub(crate) fn from_parts(schemas: &'a BTreeMap<String, Schema>, schema: &'a Schema) -> Self {
         Self { schemas, schema }
     }
 
diff --git a/parser/src/parser.rs b/parser/src/parser.rs
index ea4709a..e7f0124 100644
--- a/parser/src/parser.rs
+++ b/parser/src/parser.rs
@@ -2,13 +2,13 @@ use crate::error::DuplicateServiceUuid;
 use crate::issues::Issues;
 use crate::validate::Validate;
 use crate::{Error, Resolver, Schema, Warning};
-use std::collections::hash_map::{Entry, HashMap};
+use std::collections::btree_map::{BTreeMap, Entry};
 use std::iter;
 
 #[derive(Debug)]
 pub struct Parser {
     main_schema: String,
-    schemas: HashMap<String, Schema>,
+    schemas: BTreeMap<String, Schema>,
     issues: Issues,
 }
 
@@ -19,7 +19,7 @@ impl Parser {
 
         let mut this = Self {
             main_schema: main_schema.name().to_owned(),
-            schemas: HashMap::from_iter(iter::once((main_schema.name().to_owned(), main_schema))),
+            schemas: BTreeMap::from_iter(iter::once((main_schema.name().to_owned(), main_schema))),
             issues,
         };
 
@@ -88,7 +88,7 @@ impl Parser {
         self.issues.other_warnings()
     }
 
-    pub(crate) fn schemas(&self) -> &HashMap<String, Schema> {
+    pub(crate) fn schemas(&self) -> &BTreeMap<String, Schema> {
         &self.schemas
     }
 }
diff --git a/parser/src/util.rs b/parser/src/util.rs
index 732dfc2..8a3de1b 100644
--- a/parser/src/util.rs
+++ b/parser/src/util.rs
@@ -5,7 +5,8 @@ use crate::validate::Validate;
 use crate::Schema;
 use heck::{AsShoutySnakeCase, AsSnakeCase, AsUpperCamelCase};
 use std::cmp::Ordering;
-use std::collections::{HashMap, HashSet};
+use std::collections::hash_map::{Entry, HashMap};
+use std::collections::HashSet;
 use std::fmt;
 use std::hash::Hash;
 use Language::Rust;
@@ -188,21 +189,14 @@ where
     K: Hash + Eq,
     DFN: FnMut(I::Item, &I::Item),
 {
-    let mut candidates: HashMap<_, Vec<_>> = HashMap::new();
+    let mut seen = HashMap::new();
 
     for elem in iter {
-        candidates.entry(key_fn(&elem)).or_default().push(elem);
-    }
-
-    for (_, candidates) in candidates {
-        if candidates.len() <= 1 {
-            continue;
-        }
-
-        let mut duplicates = candidates.into_iter();
-        let first = duplicates.next().unwrap();
-        for duplicate in duplicates {
-            dup_fn(duplicate, &first);
+        match seen.entry(key_fn(&elem)) {
+            Entry::Occupied(first) => dup_fn(elem, first.get()),
+            Entry::Vacant(entry) => {
+                entry.insert(elem);
+            }
         }
     }
 }
diff --git a/parser/src/validate.rs b/parser/src/validate.rs
index db6e903..b423a62 100644
--- a/parser/src/validate.rs
+++ b/parser/src/validate.rs
@@ -1,11 +1,11 @@
 use crate::issues::Issues;
 use crate::{Error, LinkResolver, Schema, Warning};
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 
 pub(crate) struct Validate<'a> {
     schema_name: &'a str,
     issues: &'a mut Issues,
-    schemas: &'a HashMap<String, Schema>,
+    schemas: &'a BTreeMap<String, Schema>,
     is_main_schema: bool,
 }
 
@@ -13,7 +13,7 @@ impl<'a> Validate<'a> {
     pub(crate) fn new(
         schema_name: &'a str,
         issues: &'a mut Issues,
-        schemas: &'a HashMap<String, Schema>,
+        schemas: &'a BTreeMap<String, Schema>,
         is_main_schema: bool,
     ) -> Self {
         Validate {
-- 
2.43.0


From d30adef149b277ed4bf3a568933b017ad27287b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:12 +0000
Subject: [PATCH 21/22] fix: suggest a free id for duplicate ids without
 overflowing

---
 parser/src/error/duplicate_enum_variant_id.rs | 10 +++-------
 parser/src/error/duplicate_event_id.rs        | 10 +++-------
 parser/src/error/duplicate_function_id.rs     | 13 ++++++-------
 parser/src/error/duplicate_struct_field_id.rs | 13 ++++++-------
 parser/src/util.rs                            | 13 +++++++++++++
 5 files changed, 31 insertions(+), 28 deletions(-)

diff --git a/parser/src/error/duplicate_enum_variant_id.rs b/parser/src/error/duplicate_enum_variant_id.rs
index 57b2c74..f9ca76c 100644
--- a/parser/src/error/duplicate_enum_variant_id.rs
+++ b/parser/src/error/duplicate_enum_variant_id.rs
@@ -15,19 +15,15 @@ pub(crate) struct DuplicateEnumVariantId {
 
 impl DuplicateEnumVariantId {
     pub(crate) fn validate(vars: &[EnumVariant], ident: Option<&Ident>, validate: &mut Validate) {
-        let mut max_id = vars
-            .iter()
-            .filter_map(|var| var.id().value().parse().ok())
-            .max()
-            .unwrap_or(0);
+        let mut free_ids =
+            util::free_ids(vars.iter().filter_map(|var| var.id().value().parse().ok()));
 
         util::find_duplicates(
             vars.iter()
                 .filter(|var| var.id().value().parse::<u32>().is_ok()),
             |var| var.id().value(),
             |duplicate, first| {
-                max_id += 1;
-                let free_id = max_id;
+                let free_id = free_ids.next().expect("fewer items than ids");
                 validate.add_error(Self {
                     schema_name: validate.schema_name().to_owned(),
                     duplicate: duplicate.id().clone(),
diff --git a/parser/src/error/duplicate_event_id.rs b/parser/src/error/duplicate_event_id.rs
index 28630df..0033533 100644
--- a/parser/src/error/duplicate_event_id.rs
+++ b/parser/src/error/duplicate_event_id.rs
@@ -20,18 +20,14 @@ impl DuplicateEventId {
             _ => None,
         });
 
-        let mut max_id = events
-            .clone()
-            .filter_map(|ev| ev.id().value().parse().ok())
-            .max()
-            .unwrap_or(0);
+        let mut free_ids =
+            util::free_ids(events.clone().filter_map(|ev| ev.id().value().parse().ok()));
 
         util::find_duplicates(
             events.filter(|ev| ev.id().value().parse::<u32>().is_ok()),
             |ev| ev.id().value(),
             |duplicate, first| {
-                max_id += 1;
-                let free_id = max_id;
+                let free_id = free_ids.next().expect("fewer items than ids");
                 validate.add_error(Self {
                     schema_name: validate.schema_name().to_owned(),
                     duplicate: duplicate.id().clone(),
diff --git a/parser/src/error/duplicate_function_id.rs b/parser/src/error/duplicate_function_id.rs
index d5ff66b..9c5b21e 100644
--- a/parser/src/error/duplicate_function_id.rs
+++ b/parser/src/error/duplicate_function_id.rs
@@ -20,18 +20,17 @@ impl DuplicateFunctionId {
             _ => None,
         });
 
-        let mut max_id = funcs
-            .clone()
-            .filter_map(|func| func.id().value().parse().ok())
-            .max()
-            .unwrap_or(0);
+        let mut free_ids = util::free_ids(
+            funcs
+                .clone()
+                .filter_map(|func| func.id().value().parse().ok()),
+        );
 
         util::find_duplicates(
             funcs.filter(|func| func.id().value().parse::<u32>().is_ok()),
             |func| func.id().value(),
             |duplicate, first| {
-                max_id += 1;
-                let free_id = max_id;
+                let free_id = free_ids.next().expect("fewer items than ids");
                 validate.add_error(Self {
                     schema_name: validate.schema_name().to_owned(),
                     duplicate: duplicate.id().clone(),
diff --git a/parser/src/error/duplicate_struct_field_id.rs b/parser/src/error/duplicate_struct_field_id.rs
index bd72993..9e4a833 100644
--- a/parser/src/error/duplicate_struct_field_id.rs
+++ b/parser/src/error/duplicate_struct_field_id.rs
@@ -15,11 +15,11 @@ pub(crate) struct DuplicateStructFieldId {
 
 impl DuplicateStructFieldId {
     pub(crate) fn validate(fields: &[StructField], ident: Option<&Ident>, validate: &mut Validate) {
-        let mut max_id = fields
-            .iter()
-            .filter_map(|field| field.id().value().parse().ok())
-            .max()
-            .unwrap_or(0);
+        let mut free_ids = util::free_ids(
+            fields
+                .iter()
+                .filter_map(|field| field.id().value().parse().ok()),
+        );
 
         util::find_duplicates(
             fields
@@ -27,8 +27,7 @@ impl DuplicateStructFieldId {
                 .filter(|field| field.id().value().parse::<u32>().is_ok()),
             |field| field.id().value(),
             |duplicate, first| {
-                max_id += 1;
-                let free_id = max_id;
+                let free_id = free_ids.next().expect("fewer items than ids");
                 validate.add_error(Self {
                     schema_name: validate.schema_name().to_owned(),
                     duplicate: duplicate.id().clone(),
diff --git a/parser/src/util.rs b/parser/src/util.rs
index 8a3de1b..39d6784 100644
--- a/parser/src/util.rs
+++ b/parser/src/util.rs
@@ -201,6 +201,19 @@ where
     }
 }
 
+/// Iterates over all unused ids, beginning with those above all used ones.
+pub(crate) fn free_ids<I>(used: I) -> impl Iterator<Item = u32>
+where
+    I: IntoIterator<Item = u32>,
+{
+    let used = used.into_iter().collect::<HashSet<_>>();
+    let max = used.iter().copied().max().unwrap_or(0);
+
+    (max..=u32::MAX)
+        .chain(0..max)
+        .filter(move |id| !used.contains(id))
+}
+
 pub(crate) fn resolves_to_key_type<'a>(
     mut kind: &'a TypeNameKind,
     mut schema: &'a Schema,
-- 
2.43.0


From 94265428c6b23e0ebc41f20ac321874eade17c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:12 +0000
Subject: [PATCH 22/22] fix: compare ids by value when looking for duplicates

---
 parser/src/error/duplicate_enum_variant_id.rs | 2 +-
 parser/src/error/duplicate_event_id.rs        | 2 +-
 parser/src/error/duplicate_function_id.rs     | 2 +-
 parser/src/error/duplicate_struct_field_id.rs | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/parser/src/error/duplicate_enum_variant_id.rs b/parser/src/error/duplicate_enum_variant_id.rs
index f9ca76c..4ed3918 100644
--- a/parser/src/error/duplicate_enum_variant_id.rs
+++ b/parser/src/error/duplicate_enum_variant_id.rs
@@ -21,7 +21,7 @@ impl DuplicateEnumVariantId {
         util::find_duplicates(
             vars.iter()
                 .filter(|var| var.id().value().parse::<u32>().is_ok()),
-            |var| var.id().value(),
+            |var| var.id().value().parse::<u32>().ok(),
             |duplicate, first| {
                 let free_id = free_ids.next().expect("fewer items than ids");
                 validate.add_error(Self {
diff --git a/parser/src/error/duplicate_event_id.rs b/parser/src/error/duplicate_event_id.rs
index 0033533..5a3086a 100644
--- a/parser/src/error/duplicate_event_id.rs
+++ b/parser/src/error/duplicate_event_id.rs
@@ -25,7 +25,7 @@ impl DuplicateEventId {
 
         util::find_duplicates(
             events.filter(|ev| ev.id().value().parse::<u32>().is_ok()),
-            |ev| ev.id().value(),
+            |ev| ev.id().value().parse::<u32>().ok(),
             |duplicate, first| {
                 let free_id = free_ids.next().expect("fewer items than ids");
                 validate.add_error(Self {
diff --git a/parser/src/error/duplicate_function_id.rs b/parser/src/error/duplicate_function_id.rs
index 9c5b21e..d5c3c1c 100644
--- a/parser/src/error/duplicate_function_id.rs
+++ b/parser/src/error/duplicate_function_id.rs
@@ -28,7 +28,7 @@ impl DuplicateFunctionId {
 
         util::find_duplicates(
             funcs.filter(|func| func.id().value().parse::<u32>().is_ok()),
-            |func| func.id().value(),
+            |func| func.id().value().parse::<u32>().ok(),
             |duplicate, first| {
                 let free_id = free_ids.next().expect("fewer items than ids");
                 validate.add_error(Self {
diff --git a/parser/src/error/duplicate_struct_field_id.rs b/parser/src/error/duplicate_struct_field_id.rs
index 9e4a833..da24993 100644
--- a/parser/src/error/duplicate_struct_field_id.rs
+++ b/parser/src/error/duplicate_struct_field_id.rs
@@ -25,7 +25,7 @@ impl DuplicateStructFieldId {
             fields
                 .iter()
                 .filter(|field| field.id().value().parse::<u32>().is_ok()),
-            |field| field.id().value(),
+            |field| field.id().value().parse::<u32>().ok(),
             |duplicate, first| {
                 let free_id = free_ids.next().expect("fewer items than ids");
                 validate.add_error(Self {
-- 
2.43.0

