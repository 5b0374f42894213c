From 616a8fa208ff35582566ba5b2ec24530a5f83712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:53 +0000
Subject: [PATCH 01/19] fix: create an end event in Event::end instead of a
 response

---
 src/events/event.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/events/event.rs b/src/events/event.rs
index 2ad6a44..19e0459 100644
--- a/src/events/event.rs
+++ b/src/events/event.rs
@@ -65,7 +65,7 @@ impl Event {
     #[tracing::instrument(level = "trace", skip(data))]
     #[inline]
     pub fn end(namespace: Option<String>, name: String, data: Bytes, ref_id: u64) -> Self {
-        Self::new(namespace, name, data, Some(ref_id), EventType::Response)
+        Self::new(namespace, name, data, Some(ref_id), EventType::End)
     }
 
     /// Creates a new event
-- 
2.43.0


From a8fd468cf53063238051c8c5754011c4ed70a837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:39 +0000
Subject: [PATCH 02/19] fix: refuse to encode an event whose header exceeds its
 length field

---
 src/events/event.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/events/event.rs b/src/events/event.rs
index 19e0459..5fed802 100644
--- a/src/events/event.rs
+++ b/src/events/event.rs
@@ -160,7 +160,8 @@ impl Event {
     #[tracing::instrument(level = "trace", skip(self))]
     pub fn into_bytes(self) -> Result<Bytes> {
         let header_bytes = self.header.into_bytes();
-        let header_length = header_bytes.len() as u16;
+        let header_length = u16::try_from(header_bytes.len())
+            .map_err(|_| Error::from("the event header is too long"))?;
         let data_length = self.data.len();
         let total_length = header_length as u64 + data_length as u64;
         tracing::trace!(total_length, header_length, data_length);
-- 
2.43.0


From e008e7abb0d15dc63442d03e1478af7a95da4538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:15 +0000
Subject: [PATCH 03/19] fix: reject events with inconsistent lengths and don't
 trust the claimed payload length

---
 src/events/event.rs |  8 +++++---
 src/utils.rs        | 19 +++++++++++++++++++
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/events/event.rs b/src/events/event.rs
index 5fed802..5e47e0b 100644
--- a/src/events/event.rs
+++ b/src/events/event.rs
@@ -1,6 +1,7 @@
 use crate::error::{Error, Result};
 use crate::events::generate_event_id;
 use crate::events::payload::FromPayload;
+use crate::utils::read_exact_length;
 use byteorder::{BigEndian, ReadBytesExt};
 use bytes::{BufMut, Bytes, BytesMut};
 use num_enum::{IntoPrimitive, TryFromPrimitive};
@@ -138,7 +139,9 @@ impl Event {
     pub async fn from_async_read<R: AsyncRead + Unpin>(reader: &mut R) -> Result<Self> {
         let total_length = reader.read_u64().await?;
         let header_length = reader.read_u16().await?;
-        let data_length = total_length - header_length as u64;
+        let data_length = total_length
+            .checked_sub(header_length as u64)
+            .ok_or(Error::CorruptedEvent)?;
         tracing::trace!(total_length, header_length, data_length);
 
         let mut header_bytes = vec![0u8; header_length as usize];
@@ -146,8 +149,7 @@ impl Event {
         // additional header fields can be added a the end because when reading they will just be ignored
         let header: EventHeader = EventHeader::from_read(&mut Cursor::new(header_bytes))?;
 
-        let mut buf = vec![0u8; data_length as usize];
-        reader.read_exact(&mut buf).await?;
+        let buf = read_exact_length(reader, data_length).await?;
         let event = Event {
             header,
             data: Bytes::from(buf),
diff --git a/src/utils.rs b/src/utils.rs
index a5b247c..9f54b43 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -1,3 +1,22 @@
+use std::io::{Error, ErrorKind, Result};
+use tokio::io::{AsyncRead, AsyncReadExt};
+
+/// Reads exactly the given number of bytes. The buffer grows with the data that is actually
+/// received, so that a wrong length doesn't cause large allocations.
+pub(crate) async fn read_exact_length<R: AsyncRead + Unpin>(
+    reader: &mut R,
+    length: u64,
+) -> Result<Vec<u8>> {
+    let mut buf = Vec::new();
+    reader.take(length).read_to_end(&mut buf).await?;
+
+    if buf.len() as u64 == length {
+        Ok(buf)
+    } else {
+        Err(Error::from(ErrorKind::UnexpectedEof))
+    }
+}
+
 #[cfg(feature = "encryption_layer")]
 /// Generates a secret that can be passed to the options of the encryption layer and for creating
 /// a public key
-- 
2.43.0


From 84317211be7af348a3adcaec203c8d18f68d5ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:24 +0000
Subject: [PATCH 04/19] fix: don't trust the claimed length of encrypted
 packages

---
 src/protocol/encrypted/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/protocol/encrypted/mod.rs b/src/protocol/encrypted/mod.rs
index 62133f0..ae08b7b 100644
--- a/src/protocol/encrypted/mod.rs
+++ b/src/protocol/encrypted/mod.rs
@@ -14,6 +14,7 @@ use x25519_dalek::{PublicKey, SharedSecret, StaticSecret};
 
 use crate::prelude::encrypted::crypt_handling::CipherBox;
 use crate::prelude::{AsyncProtocolStream, AsyncStreamProtocolListener};
+use crate::utils::read_exact_length;
 
 pub type OptionalFuture<T> = Option<Pin<Box<dyn Future<Output = T> + Send + Sync>>>;
 
@@ -149,8 +150,7 @@ impl EncryptedPackage {
 
     pub async fn from_async_read<R: AsyncRead + Unpin>(reader: &mut R) -> io::Result<Self> {
         let length = reader.read_u32().await?;
-        let mut bytes_buf = vec![0u8; length as usize];
-        reader.read_exact(&mut bytes_buf).await?;
+        let bytes_buf = read_exact_length(reader, length as u64).await?;
 
         Ok(Self {
             bytes: Bytes::from(bytes_buf),
-- 
2.43.0


From 736033f15017c757dbfdd64cccbd4d920f1fcb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:58 +0000
Subject: [PATCH 05/19] fix: don't trust the lengths claimed inside tandem and
 error payloads

---
 src/events/error_event.rs |  5 ++---
 src/events/payload.rs     | 21 ++++++++++++++++-----
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/events/error_event.rs b/src/events/error_event.rs
index 90c78e3..02d5eff 100644
--- a/src/events/error_event.rs
+++ b/src/events/error_event.rs
@@ -1,6 +1,6 @@
 use crate::context::Context;
 use crate::error::Result;
-use crate::payload::{FromPayload, IntoPayload};
+use crate::payload::{read_exact_length, FromPayload, IntoPayload};
 use crate::prelude::{IPCError, IPCResult};
 use byteorder::{BigEndian, ReadBytesExt};
 use bytes::{BufMut, Bytes, BytesMut};
@@ -44,8 +44,7 @@ impl FromPayload for ErrorEventData {
     fn from_payload<R: Read>(mut reader: R) -> Result<Self> {
         let code = reader.read_u16::<BigEndian>()?;
         let message_len = reader.read_u32::<BigEndian>()?;
-        let mut message_buf = vec![0u8; message_len as usize];
-        reader.read_exact(&mut message_buf)?;
+        let message_buf = read_exact_length(&mut reader, message_len as u64)?;
         let message = String::from_utf8(message_buf).map_err(|_| IPCError::CorruptedEvent)?;
 
         Ok(ErrorEventData { code, message })
diff --git a/src/events/payload.rs b/src/events/payload.rs
index 0d70d7f..6b069dd 100644
--- a/src/events/payload.rs
+++ b/src/events/payload.rs
@@ -1,7 +1,7 @@
 use crate::prelude::IPCResult;
 use byteorder::{BigEndian, ReadBytesExt};
 use bytes::{BufMut, Bytes, BytesMut};
-use std::io::Read;
+use std::io::{self, Read};
 
 #[cfg(feature = "serialize")]
 pub use super::payload_serializer::*;
@@ -115,12 +115,10 @@ impl<P1: IntoPayload, P2: IntoPayload> IntoPayload for TandemPayload<P1, P2> {
 impl<P1: FromPayload, P2: FromPayload> FromPayload for TandemPayload<P1, P2> {
     fn from_payload<R: Read>(mut reader: R) -> IPCResult<Self> {
         let p1_length = reader.read_u64::<BigEndian>()?;
-        let mut load1_bytes = vec![0u8; p1_length as usize];
-        reader.read_exact(&mut load1_bytes)?;
+        let load1_bytes = read_exact_length(&mut reader, p1_length)?;
 
         let p2_length = reader.read_u64::<BigEndian>()?;
-        let mut load2_bytes = vec![0u8; p2_length as usize];
-        reader.read_exact(&mut load2_bytes)?;
+        let load2_bytes = read_exact_length(&mut reader, p2_length)?;
 
         Ok(Self {
             load1: P1::from_payload(load1_bytes.as_slice())?,
@@ -129,6 +127,19 @@ impl<P1: FromPayload, P2: FromPayload> FromPayload for TandemPayload<P1, P2> {
     }
 }
 
+/// Reads exactly the given number of bytes. The buffer grows with the data that is actually
+/// available, so that a wrong length doesn't cause large allocations.
+pub(crate) fn read_exact_length<R: Read>(reader: &mut R, length: u64) -> IPCResult<Vec<u8>> {
+    let mut buf = Vec::new();
+    reader.take(length).read_to_end(&mut buf)?;
+
+    if buf.len() as u64 == length {
+        Ok(buf)
+    } else {
+        Err(io::Error::from(io::ErrorKind::UnexpectedEof).into())
+    }
+}
+
 #[cfg(not(feature = "serialize"))]
 impl IntoPayload for () {
     fn into_payload(self, _: &Context) -> IPCResult<Bytes> {
-- 
2.43.0


From 48bd5692f4279d33de15392d861afefeb47dec71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:15 +0000
Subject: [PATCH 06/19] fix: bound allocations when deserializing bincode
 payloads

---
 src/events/payload_serializer/serialize_bincode.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/events/payload_serializer/serialize_bincode.rs b/src/events/payload_serializer/serialize_bincode.rs
index afbc75b..f67b74a 100644
--- a/src/events/payload_serializer/serialize_bincode.rs
+++ b/src/events/payload_serializer/serialize_bincode.rs
@@ -12,7 +12,10 @@ pub fn serialize<T: Serialize>(data: T) -> SerializationResult<Bytes> {
 }
 
 #[inline]
-pub fn deserialize<R: Read, T: DeserializeOwned>(reader: R) -> SerializationResult<T> {
-    let type_data = bincode::deserialize_from(reader)?;
+pub fn deserialize<R: Read, T: DeserializeOwned>(mut reader: R) -> SerializationResult<T> {
+    let mut buf = Vec::new();
+    // the available data must be known as it limits the allocations caused by encoded lengths
+    reader.read_to_end(&mut buf)?;
+    let type_data = bincode::deserialize(&buf)?;
     Ok(type_data)
 }
-- 
2.43.0


From 0fccd800b4a0c16f69070f1ad25fdf6124a0418c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:53 +0000
Subject: [PATCH 07/19] fix: ignore events of unregistered namespaces instead
 of passing them to global handlers

---
 src/ipc/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ipc/mod.rs b/src/ipc/mod.rs
index b663a64..6cdb85b 100644
--- a/src/ipc/mod.rs
+++ b/src/ipc/mod.rs
@@ -47,9 +47,13 @@ async fn handle_connection<S: 'static + AsyncProtocolStream>(
             continue;
         }
 
-        if let Some(namespace) = event.namespace().clone().and_then(|n| namespaces.get(&n)) {
+        if let Some(namespace) = event.namespace() {
             tracing::trace!("Passing event to namespace listener");
-            let handler = Arc::clone(&namespace.handler);
+            // events of unknown namespaces must not be passed to the global listener
+            let handler = namespaces
+                .get(namespace)
+                .map(|n| Arc::clone(&n.handler))
+                .unwrap_or_default();
             handle_event(Context::clone(&ctx), handler, event);
         } else {
             tracing::trace!("Passing event to global listener");
-- 
2.43.0


From d0f53daac52ac59dd3bdea28a439a728ebcb3484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:06 +0000
Subject: [PATCH 08/19] fix: process replies to dropped reply listeners like
 any other unawaited reply

---
 src/ipc/mod.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/ipc/mod.rs b/src/ipc/mod.rs
index 6cdb85b..2b4e982 100644
--- a/src/ipc/mod.rs
+++ b/src/ipc/mod.rs
@@ -21,7 +21,7 @@ async fn handle_connection<S: 'static + AsyncProtocolStream>(
     mut read_half: S::OwnedSplitReadHalf,
     ctx: Context,
 ) {
-    while let Ok(event) = Event::from_async_read(&mut read_half).await {
+    while let Ok(mut event) = Event::from_async_read(&mut read_half).await {
         tracing::trace!(
             "event.name = {:?}, event.namespace = {:?}, event.reference_id = {:?}",
             event.name(),
@@ -34,10 +34,11 @@ async fn handle_connection<S: 'static + AsyncProtocolStream>(
             // get the listener for replies
             if let Some(sender) = ctx.get_reply_sender(ref_id).await {
                 // try sending the event to the listener for replies
-                if let Err(event) = sender.send(event).await {
-                    handle_event(Context::clone(&ctx), Arc::clone(&handler), event.0);
+                match sender.send(event).await {
+                    Ok(_) => continue,
+                    // the listener stopped waiting for replies
+                    Err(e) => event = e.0,
                 }
-                continue;
             }
             tracing::trace!("No response listener found for event. Passing to regular listener.");
         }
-- 
2.43.0


From b11cd4789ae803e1f9765d43c8fea550ab5a642f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:46 +0000
Subject: [PATCH 09/19] fix: don't remove the reply listener of an own event
 when handling a peer's event with that id

---
 src/ipc/mod.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/ipc/mod.rs b/src/ipc/mod.rs
index 2b4e982..8765a7e 100644
--- a/src/ipc/mod.rs
+++ b/src/ipc/mod.rs
@@ -67,7 +67,6 @@ async fn handle_connection<S: 'static + AsyncProtocolStream>(
 /// Handles a single event in a different tokio context
 fn handle_event(mut ctx: Context, handler: Arc<EventHandler>, event: Event) {
     ctx.set_ref_id(Some(event.id()));
-    let event_id = event.id();
 
     tokio::spawn(async move {
         match handler.handle_event(&ctx, event).await {
@@ -80,7 +79,6 @@ fn handle_event(mut ctx: Context, handler: Arc<EventHandler>, event: Event) {
                 {
                     tracing::error!("Error occurred when sending error response: {:?}", e);
                 }
-                ctx.reply_listeners.remove(&event_id);
             }
             Err(e) => {
                 // emit an error event
-- 
2.43.0


From cb52d803d9a7600457145afd03f03cf9d040037f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:27 +0000
Subject: [PATCH 10/19] fix: unregister reply listeners however waiting for
 replies ends

---
 src/ipc/context.rs                            | 29 +++++++++++++++++--
 .../emit_metadata_with_response.rs            |  7 -----
 .../emit_metadata_with_response_stream.rs     | 20 ++++---------
 3 files changed, 32 insertions(+), 24 deletions(-)

diff --git a/src/ipc/context.rs b/src/ipc/context.rs
index 12f1c56..a34cbf7 100644
--- a/src/ipc/context.rs
+++ b/src/ipc/context.rs
@@ -20,6 +20,27 @@ use crate::prelude::Response;
 
 pub(crate) type ReplyListeners = Arc<DashMap<u64, mpsc::Sender<Event>>>;
 
+/// The receiving side of a reply listener that unregisters the listener when it's dropped
+pub(crate) struct ReplyReceiver {
+    event_id: u64,
+    reply_listeners: ReplyListeners,
+    receiver: Receiver<Event>,
+}
+
+impl ReplyReceiver {
+    #[inline]
+    pub(crate) async fn recv(&mut self) -> Option<Event> {
+        self.receiver.recv().await
+    }
+}
+
+impl Drop for ReplyReceiver {
+    #[inline]
+    fn drop(&mut self) {
+        self.reply_listeners.remove(&self.event_id);
+    }
+}
+
 /// An object provided to each callback function.
 /// Currently it only holds the event emitter to emit response events in event callbacks.
 /// ```rust
@@ -124,11 +145,15 @@ impl Context {
     /// Registers a reply listener for a given event
     #[inline]
     #[tracing::instrument(level = "debug", skip(self))]
-    pub(crate) async fn register_reply_listener(&self, event_id: u64) -> Result<Receiver<Event>> {
+    pub(crate) async fn register_reply_listener(&self, event_id: u64) -> Result<ReplyReceiver> {
         let (rx, tx) = mpsc::channel(8);
         self.reply_listeners.insert(event_id, rx);
 
-        Ok(tx)
+        Ok(ReplyReceiver {
+            event_id,
+            reply_listeners: Arc::clone(&self.reply_listeners),
+            receiver: tx,
+        })
     }
 
     /// Stops the listener and closes the connection
diff --git a/src/ipc/stream_emitter/emit_metadata_with_response.rs b/src/ipc/stream_emitter/emit_metadata_with_response.rs
index acd3b04..50e3764 100644
--- a/src/ipc/stream_emitter/emit_metadata_with_response.rs
+++ b/src/ipc/stream_emitter/emit_metadata_with_response.rs
@@ -1,4 +1,3 @@
-use crate::context::Context;
 use crate::error::Error;
 use crate::error_event::ErrorEventData;
 use crate::event::{Event, EventType};
@@ -65,8 +64,6 @@ impl<P: IntoPayload + Send + Sync + 'static> Future for EmitMetadataWithResponse
                     }
                 }?;
 
-                remove_reply_listener(&ctx, event_id).await;
-
                 if reply.event_type() == EventType::Error {
                     Err(reply.payload::<ErrorEventData>()?.into())
                 } else {
@@ -77,7 +74,3 @@ impl<P: IntoPayload + Send + Sync + 'static> Future for EmitMetadataWithResponse
         self.fut.as_mut().unwrap().as_mut().poll(cx)
     }
 }
-
-pub(crate) async fn remove_reply_listener(ctx: &Context, event_id: u64) {
-    ctx.reply_listeners.remove(&event_id);
-}
diff --git a/src/ipc/stream_emitter/emit_metadata_with_response_stream.rs b/src/ipc/stream_emitter/emit_metadata_with_response_stream.rs
index d90d40b..a1fa6ab 100644
--- a/src/ipc/stream_emitter/emit_metadata_with_response_stream.rs
+++ b/src/ipc/stream_emitter/emit_metadata_with_response_stream.rs
@@ -1,8 +1,7 @@
-use crate::context::Context;
+use crate::context::{Context, ReplyReceiver};
 use crate::error::{Error, Result};
 use crate::event::{Event, EventType};
 use crate::ipc::stream_emitter::emit_metadata::EmitMetadata;
-use crate::ipc::stream_emitter::emit_metadata_with_response::remove_reply_listener;
 use crate::payload::IntoPayload;
 use crate::poll_unwrap;
 use futures_core::Stream;
@@ -11,7 +10,6 @@ use std::pin::Pin;
 use std::task::Poll;
 use std::time::Duration;
 use futures_core::future::BoxFuture;
-use tokio::sync::mpsc::Receiver;
 
 /// A metadata object returned after waiting for a reply to an event
 /// This object needs to be awaited for to get the actual reply
@@ -21,26 +19,23 @@ pub struct EmitMetadataWithResponseStream<P: IntoPayload> {
     pub(crate) emit_metadata: Option<EmitMetadata<P>>,
 }
 
-type StreamFutureResult = Result<(Option<Event>, Context, Receiver<Event>)>;
+type StreamFutureResult = Result<(Option<Event>, Context, ReplyReceiver)>;
 
 /// An asynchronous stream one can read all responses to a specific event from.
 pub struct ResponseStream {
-    event_id: u64,
     ctx: Option<Context>,
-    receiver: Option<Receiver<Event>>,
+    receiver: Option<ReplyReceiver>,
     timeout: Duration,
     fut: Option<BoxFuture<'static, StreamFutureResult>>,
 }
 
 impl ResponseStream {
     pub(crate) fn new(
-        event_id: u64,
         timeout: Duration,
         ctx: Context,
-        receiver: Receiver<Event>,
+        receiver: ReplyReceiver,
     ) -> Self {
         Self {
-            event_id,
             ctx: Some(ctx),
             receiver: Some(receiver),
             timeout,
@@ -87,7 +82,7 @@ impl<P: IntoPayload + Send + Sync + 'static> Future for EmitMetadataWithResponse
                 let tx = ctx.register_reply_listener(event_id).await?;
                 emit_metadata.await?;
 
-                Ok(ResponseStream::new(event_id, timeout, ctx, tx))
+                Ok(ResponseStream::new(timeout, ctx, tx))
             }))
         }
         self.fut.as_mut().unwrap().as_mut().poll(cx)
@@ -110,7 +105,6 @@ impl Stream for ResponseStream {
             let ctx = self.ctx.take().unwrap();
             let mut receiver = self.receiver.take().unwrap();
             let timeout = self.timeout;
-            let event_id = self.event_id;
 
             self.fut = Some(Box::pin(async move {
                 let event: Option<Event> = tokio::select! {
@@ -122,10 +116,6 @@ impl Stream for ResponseStream {
                     }
                 }?;
 
-                if event.is_none() || event.as_ref().unwrap().event_type() == EventType::End {
-                    remove_reply_listener(&ctx, event_id).await;
-                }
-
                 Ok((event, ctx, receiver))
             }));
         }
-- 
2.43.0


From 8fd8324725167f9391b8fc868fcbc0ed40ea7381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:38 +0000
Subject: [PATCH 11/19] fix: end a response stream after a timeout instead of
 panicking on the next poll

---
 .../stream_emitter/emit_metadata_with_response_stream.rs    | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ipc/stream_emitter/emit_metadata_with_response_stream.rs b/src/ipc/stream_emitter/emit_metadata_with_response_stream.rs
index a1fa6ab..fe78697 100644
--- a/src/ipc/stream_emitter/emit_metadata_with_response_stream.rs
+++ b/src/ipc/stream_emitter/emit_metadata_with_response_stream.rs
@@ -136,7 +136,11 @@ impl Stream for ResponseStream {
                         Poll::Ready(None)
                     }
                 }
-                Err(e) => Poll::Ready(Some(Err(e))),
+                Err(e) => {
+                    self.fut = None;
+
+                    Poll::Ready(Some(Err(e)))
+                }
             },
             Poll::Pending => Poll::Pending,
         }
-- 
2.43.0


From 641e7634f5a47e7f2ba07a30f2b18f4ecddb0355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:50 +0000
Subject: [PATCH 12/19] fix: end a response stream after an error event

---
 src/ipc/stream_emitter/emit_metadata_with_response_stream.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ipc/stream_emitter/emit_metadata_with_response_stream.rs b/src/ipc/stream_emitter/emit_metadata_with_response_stream.rs
index fe78697..37977bf 100644
--- a/src/ipc/stream_emitter/emit_metadata_with_response_stream.rs
+++ b/src/ipc/stream_emitter/emit_metadata_with_response_stream.rs
@@ -126,7 +126,8 @@ impl Stream for ResponseStream {
                     self.fut = None;
 
                     if let Some(event) = event {
-                        if event.event_type() != EventType::End {
+                        // both end and error events are the last ones to be sent
+                        if !matches!(event.event_type(), EventType::End | EventType::Error) {
                             self.ctx = Some(ctx);
                             self.receiver = Some(tx);
                         }
-- 
2.43.0


From 28fed63c3c5df46295dc099cb1db22ef7649ab0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:09 +0000
Subject: [PATCH 13/19] fix: return received data from encrypted reads at once
 and never read behind an error

---
 src/protocol/encrypted/io_impl.rs | 62 ++++++++++++++-----------------
 1 file changed, 28 insertions(+), 34 deletions(-)

diff --git a/src/protocol/encrypted/io_impl.rs b/src/protocol/encrypted/io_impl.rs
index 9182e21..615c87b 100644
--- a/src/protocol/encrypted/io_impl.rs
+++ b/src/protocol/encrypted/io_impl.rs
@@ -6,7 +6,7 @@ use crate::protocol::encrypted::crypt_handling::CipherBox;
 use bytes::{Buf, BufMut, Bytes};
 use std::cmp::min;
 use std::io;
-use std::io::Error;
+use std::io::{Error, ErrorKind};
 use std::pin::Pin;
 use std::task::{Context, Poll};
 use tokio::io::{AsyncRead, AsyncWrite, AsyncWriteExt, ReadBuf};
@@ -51,48 +51,42 @@ impl<T: 'static + AsyncRead + Send + Sync + Unpin> AsyncRead for EncryptedReadSt
         cx: &mut Context<'_>,
         buf: &mut ReadBuf<'_>,
     ) -> Poll<std::io::Result<()>> {
-        if self.fut.is_none() {
-            if self.remaining.len() > 0 {
-                let max_copy = min(buf.remaining(), self.remaining.len());
-                let bytes = self.remaining.copy_to_bytes(max_copy);
-                buf.put_slice(&bytes);
-                tracing::trace!("{} bytes read from buffer", bytes.len());
-            }
-
-            if buf.remaining() > 0 {
-                tracing::trace!("{} bytes remaining to read", buf.remaining());
+        if buf.remaining() == 0 {
+            return Poll::Ready(Ok(()));
+        }
+        // packages can be empty, an empty read however would mean the end of the stream
+        while self.remaining.is_empty() {
+            if self.fut.is_none() {
+                // there's no cipher after an error because nothing behind it can be trusted
+                let cipher = match self.cipher.take() {
+                    Some(cipher) => cipher,
+                    None => return Poll::Ready(Err(Error::from(ErrorKind::InvalidData))),
+                };
                 let reader = self.inner.take().unwrap();
-                let cipher = self.cipher.take().unwrap();
 
                 self.fut = Some(Box::pin(async move { read_bytes(reader, cipher).await }));
-            } else {
-                return Poll::Ready(Ok(()));
             }
-        }
-        match self.fut.as_mut().unwrap().as_mut().poll(cx) {
-            Poll::Ready((result, reader, cipher)) => {
-                self.inner = Some(reader);
-                self.cipher = Some(cipher);
-                match result {
-                    Ok(bytes) => {
-                        self.fut = None;
-                        self.remaining.put(bytes);
-                        let max_copy = min(self.remaining.len(), buf.remaining());
-                        let bytes = self.remaining.copy_to_bytes(max_copy);
-                        buf.put_slice(&bytes);
-                        tracing::trace!("{} bytes read from buffer", bytes.len());
-
-                        if buf.remaining() == 0 {
-                            Poll::Ready(Ok(()))
-                        } else {
-                            Poll::Pending
+            match self.fut.as_mut().unwrap().as_mut().poll(cx) {
+                Poll::Ready((result, reader, cipher)) => {
+                    self.fut = None;
+                    self.inner = Some(reader);
+                    match result {
+                        Ok(bytes) => {
+                            self.cipher = Some(cipher);
+                            self.remaining.put(bytes);
                         }
+                        Err(e) => return Poll::Ready(Err(e)),
                     }
-                    Err(e) => Poll::Ready(Err(e)),
                 }
+                Poll::Pending => return Poll::Pending,
             }
-            Poll::Pending => Poll::Pending,
         }
+        let max_copy = min(self.remaining.len(), buf.remaining());
+        let bytes = self.remaining.copy_to_bytes(max_copy);
+        buf.put_slice(&bytes);
+        tracing::trace!("{} bytes read from buffer", bytes.len());
+
+        Poll::Ready(Ok(()))
     }
 }
 
-- 
2.43.0


From 4424a96c7714a3e523dbef274feacfb182f4a4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:42 +0000
Subject: [PATCH 14/19] fix: finish pending packages before accepting more data
 in encrypted writes

---
 src/protocol/encrypted/io_impl.rs | 81 ++++++++++++++++++-------------
 1 file changed, 48 insertions(+), 33 deletions(-)

diff --git a/src/protocol/encrypted/io_impl.rs b/src/protocol/encrypted/io_impl.rs
index 615c87b..5a1a296 100644
--- a/src/protocol/encrypted/io_impl.rs
+++ b/src/protocol/encrypted/io_impl.rs
@@ -92,6 +92,28 @@ impl<T: 'static + AsyncRead + Send + Sync + Unpin> AsyncRead for EncryptedReadSt
 
 impl<T: 'static + AsyncWrite + Unpin + Send + Sync> Unpin for EncryptedWriteStream<T> {}
 
+impl<T: 'static + AsyncWrite + Unpin + Send + Sync> EncryptedWriteStream<T> {
+    /// Finishes a write or flush that is still in progress, so that the writer is available
+    /// afterwards. Nobody else does so when the caller has dropped that operation.
+    fn poll_unfinished(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
+        let fut = match self.fut_write.as_mut().or(self.fut_flush.as_mut()) {
+            Some(fut) => fut,
+            None => return Poll::Ready(Ok(())),
+        };
+        match fut.as_mut().poll(cx) {
+            Poll::Ready((result, writer, cipher)) => {
+                self.inner = Some(writer);
+                self.cipher = Some(cipher);
+                self.fut_write = None;
+                self.fut_flush = None;
+
+                Poll::Ready(result)
+            }
+            Poll::Pending => Poll::Pending,
+        }
+    }
+}
+
 impl<T: 'static + AsyncWrite + Unpin + Send + Sync> AsyncWrite for EncryptedWriteStream<T> {
     fn poll_write(
         mut self: Pin<&mut Self>,
@@ -100,39 +122,40 @@ impl<T: 'static + AsyncWrite + Unpin + Send + Sync> AsyncWrite for EncryptedWrit
     ) -> Poll<Result<usize, Error>> {
         let written_length = buf.len();
 
-        if self.fut_write.is_none() {
-            self.buffer.put(Bytes::from(buf.to_vec()));
-
-            if self.buffer.len() >= WRITE_BUF_SIZE {
-                tracing::trace!("buffer has reached sending size: {}", self.buffer.len());
-                let buffer_len = self.buffer.len();
-                let max_copy = min(u32::MAX as usize, buffer_len);
-                let plaintext = self.buffer.copy_to_bytes(max_copy);
-                let writer = self.inner.take().unwrap();
-                let cipher = self.cipher.take().unwrap();
-
-                self.fut_write = Some(Box::pin(write_bytes(plaintext, writer, cipher)))
-            } else {
-                return Poll::Ready(Ok(written_length));
-            }
+        match self.poll_unfinished(cx) {
+            Poll::Ready(Ok(())) => {}
+            Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
+            Poll::Pending => return Poll::Pending,
         }
+        // from here on the data counts as written and must not be passed to this function again
+        self.buffer.put(Bytes::from(buf.to_vec()));
 
-        match self.fut_write.as_mut().unwrap().as_mut().poll(cx) {
-            Poll::Ready((result, writer, cipher)) => {
-                self.inner = Some(writer);
-                self.cipher = Some(cipher);
-                self.fut_write = None;
+        if self.buffer.len() >= WRITE_BUF_SIZE {
+            tracing::trace!("buffer has reached sending size: {}", self.buffer.len());
+            let buffer_len = self.buffer.len();
+            let max_copy = min(u32::MAX as usize, buffer_len);
+            let plaintext = self.buffer.copy_to_bytes(max_copy);
+            let writer = self.inner.take().unwrap();
+            let cipher = self.cipher.take().unwrap();
 
-                Poll::Ready(result.map(|_| written_length))
+            self.fut_write = Some(Box::pin(write_bytes(plaintext, writer, cipher)));
+
+            if let Poll::Ready(Err(e)) = self.poll_unfinished(cx) {
+                return Poll::Ready(Err(e));
             }
-            Poll::Pending => Poll::Pending,
         }
+
+        Poll::Ready(Ok(written_length))
     }
 
     fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Error>> {
-        let buffer_len = self.buffer.len();
-
         if self.fut_flush.is_none() {
+            match self.poll_unfinished(cx) {
+                Poll::Ready(Ok(())) => {}
+                Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
+                Poll::Pending => return Poll::Pending,
+            }
+            let buffer_len = self.buffer.len();
             let max_copy = min(u32::MAX as usize, buffer_len);
             let plaintext = self.buffer.copy_to_bytes(max_copy);
             let writer = self.inner.take().unwrap();
@@ -155,16 +178,8 @@ impl<T: 'static + AsyncWrite + Unpin + Send + Sync> AsyncWrite for EncryptedWrit
                 }
             }))
         }
-        match self.fut_flush.as_mut().unwrap().as_mut().poll(cx) {
-            Poll::Ready((result, writer, cipher)) => {
-                self.inner = Some(writer);
-                self.cipher = Some(cipher);
-                self.fut_flush = None;
 
-                Poll::Ready(result)
-            }
-            Poll::Pending => Poll::Pending,
-        }
+        self.poll_unfinished(cx)
     }
 
     fn poll_shutdown(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Error>> {
-- 
2.43.0


From ee4fb15718c65349bb39678eabd0573d36a9b868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:04 +0000
Subject: [PATCH 15/19] fix: poll the shutdown of encrypted streams and keep
 the writer afterwards

---
 src/protocol/encrypted/io_impl.rs | 24 +++++++++++++-----------
 src/protocol/encrypted/mod.rs     |  2 +-
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/protocol/encrypted/io_impl.rs b/src/protocol/encrypted/io_impl.rs
index 5a1a296..dd91387 100644
--- a/src/protocol/encrypted/io_impl.rs
+++ b/src/protocol/encrypted/io_impl.rs
@@ -188,21 +188,23 @@ impl<T: 'static + AsyncWrite + Unpin + Send + Sync> AsyncWrite for EncryptedWrit
                 Poll::Ready(result) => match result {
                     Ok(_) => {
                         let mut writer = self.inner.take().unwrap();
-                        self.fut_shutdown = Some(Box::pin(async move { writer.shutdown().await }));
-                        Poll::Pending
+                        self.fut_shutdown = Some(Box::pin(async move {
+                            let result = writer.shutdown().await;
+                            (result, writer)
+                        }));
                     }
-                    Err(e) => Poll::Ready(Err(e)),
+                    Err(e) => return Poll::Ready(Err(e)),
                 },
-                Poll::Pending => Poll::Pending,
+                Poll::Pending => return Poll::Pending,
             }
-        } else {
-            match self.fut_shutdown.as_mut().unwrap().as_mut().poll(cx) {
-                Poll::Ready(result) => {
-                    self.fut_shutdown = None;
-                    Poll::Ready(result)
-                }
-                Poll::Pending => Poll::Pending,
+        }
+        match self.fut_shutdown.as_mut().unwrap().as_mut().poll(cx) {
+            Poll::Ready((result, writer)) => {
+                self.inner = Some(writer);
+                self.fut_shutdown = None;
+                Poll::Ready(result)
             }
+            Poll::Pending => Poll::Pending,
         }
     }
 }
diff --git a/src/protocol/encrypted/mod.rs b/src/protocol/encrypted/mod.rs
index ae08b7b..4beb00c 100644
--- a/src/protocol/encrypted/mod.rs
+++ b/src/protocol/encrypted/mod.rs
@@ -115,7 +115,7 @@ pub struct EncryptedWriteStream<T: 'static + AsyncWrite + Unpin + Send + Sync> {
     buffer: BytesMut,
     fut_write: OptionalFuture<(io::Result<()>, T, CipherBox)>,
     fut_flush: OptionalFuture<(io::Result<()>, T, CipherBox)>,
-    fut_shutdown: OptionalFuture<io::Result<()>>,
+    fut_shutdown: OptionalFuture<(io::Result<()>, T)>,
 }
 
 impl<T: 'static + AsyncWrite + Unpin + Send + Sync> EncryptedWriteStream<T> {
-- 
2.43.0


From c37095767b9690fcd62cc302c4834ccda7a214f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:52 +0000
Subject: [PATCH 16/19] fix: keep accepting encrypted connections when a
 handshake fails or stalls

---
 src/protocol/encrypted/mod.rs           | 12 +++++--
 src/protocol/encrypted/protocol_impl.rs | 45 ++++++++++++++++++++++---
 2 files changed, 51 insertions(+), 6 deletions(-)

diff --git a/src/protocol/encrypted/mod.rs b/src/protocol/encrypted/mod.rs
index 4beb00c..b8f0b29 100644
--- a/src/protocol/encrypted/mod.rs
+++ b/src/protocol/encrypted/mod.rs
@@ -10,10 +10,11 @@ use std::future::Future;
 use std::io;
 use std::pin::Pin;
 use tokio::io::{AsyncRead, AsyncReadExt, AsyncWrite};
+use tokio::sync::Mutex;
 use x25519_dalek::{PublicKey, SharedSecret, StaticSecret};
 
 use crate::prelude::encrypted::crypt_handling::CipherBox;
-use crate::prelude::{AsyncProtocolStream, AsyncStreamProtocolListener};
+use crate::prelude::{AsyncProtocolStream, AsyncStreamProtocolListener, IPCResult};
 use crate::utils::read_exact_length;
 
 pub type OptionalFuture<T> = Option<Pin<Box<dyn Future<Output = T> + Send + Sync>>>;
@@ -48,14 +49,21 @@ impl<T: Clone + Default> Default for EncryptionOptions<T> {
     }
 }
 
+type Handshake<S> = Pin<Box<dyn Future<Output = IPCResult<EncryptedStream<S>>> + Send>>;
+
 pub struct EncryptedListener<T: AsyncStreamProtocolListener> {
     inner: T,
     keys: Keys,
+    handshakes: Mutex<Vec<(Handshake<T::Stream>, T::RemoteAddressType)>>,
 }
 
 impl<T: AsyncStreamProtocolListener> EncryptedListener<T> {
     pub fn new(inner: T, keys: Keys) -> Self {
-        Self { inner, keys }
+        Self {
+            inner,
+            keys,
+            handshakes: Mutex::new(Vec::new()),
+        }
     }
 }
 
diff --git a/src/protocol/encrypted/protocol_impl.rs b/src/protocol/encrypted/protocol_impl.rs
index 4c90c98..7072d7d 100644
--- a/src/protocol/encrypted/protocol_impl.rs
+++ b/src/protocol/encrypted/protocol_impl.rs
@@ -1,9 +1,13 @@
 use crate::error::Result;
 use crate::prelude::encrypted::{EncryptedReadStream, EncryptedWriteStream};
 use crate::prelude::{AsyncProtocolStreamSplit, IPCResult};
-use crate::protocol::encrypted::{EncryptedListener, EncryptedStream, EncryptionOptions};
+use crate::protocol::encrypted::{
+    EncryptedListener, EncryptedStream, EncryptionOptions, Handshake,
+};
 use crate::protocol::{AsyncProtocolStream, AsyncStreamProtocolListener};
 use async_trait::async_trait;
+use std::future::poll_fn;
+use std::task::Poll;
 
 #[async_trait]
 impl<T: AsyncStreamProtocolListener> AsyncStreamProtocolListener for EncryptedListener<T> {
@@ -22,13 +26,46 @@ impl<T: AsyncStreamProtocolListener> AsyncStreamProtocolListener for EncryptedLi
     }
 
     async fn protocol_accept(&self) -> IPCResult<(Self::Stream, Self::RemoteAddressType)> {
-        let (inner_stream, remote_addr) = self.inner.protocol_accept().await?;
-        let stream = Self::Stream::from_server_key_exchange(inner_stream, &self.keys).await?;
+        let mut handshakes = self.handshakes.lock().await;
 
-        Ok((stream, remote_addr))
+        // a failing or stalled handshake must not keep others from connecting
+        loop {
+            let (result, remote_addr) = tokio::select! {
+                connection = self.inner.protocol_accept() => {
+                    let (inner_stream, remote_addr) = connection?;
+                    let keys = self.keys.clone();
+                    let handshake = Box::pin(async move {
+                        EncryptedStream::from_server_key_exchange(inner_stream, &keys).await
+                    });
+                    handshakes.push((handshake, remote_addr));
+                    continue;
+                }
+                handshake = next_handshake(&mut handshakes) => handshake,
+            };
+            match result {
+                Ok(stream) => return Ok((stream, remote_addr)),
+                Err(e) => tracing::warn!("connection of {:?} failed: {:?}", remote_addr, e),
+            }
+        }
     }
 }
 
+/// Waits until any of the handshakes is done and removes it
+async fn next_handshake<S: AsyncProtocolStream, A>(
+    handshakes: &mut Vec<(Handshake<S>, A)>,
+) -> (IPCResult<EncryptedStream<S>>, A) {
+    poll_fn(|cx| {
+        for i in 0..handshakes.len() {
+            if let Poll::Ready(result) = handshakes[i].0.as_mut().poll(cx) {
+                let (_, remote_addr) = handshakes.remove(i);
+                return Poll::Ready((result, remote_addr));
+            }
+        }
+        Poll::Pending
+    })
+    .await
+}
+
 #[async_trait]
 impl<T: AsyncProtocolStream> AsyncProtocolStream for EncryptedStream<T> {
     type AddressType = T::AddressType;
-- 
2.43.0


From f2ee5f7e48244d7788c87ac2f43904c2d1c1a488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:44 +0000
Subject: [PATCH 17/19] fix: keep the stream intact when an emit is cancelled

---
 src/ipc/stream_emitter/emit_metadata.rs |  9 +++-----
 src/ipc/stream_emitter/mod.rs           | 30 ++++++++++++++++++++++---
 2 files changed, 30 insertions(+), 9 deletions(-)

diff --git a/src/ipc/stream_emitter/emit_metadata.rs b/src/ipc/stream_emitter/emit_metadata.rs
index b5a3e85..a5ff0a4 100644
--- a/src/ipc/stream_emitter/emit_metadata.rs
+++ b/src/ipc/stream_emitter/emit_metadata.rs
@@ -8,10 +8,8 @@ use crate::ipc::stream_emitter::SendStream;
 use crate::payload::IntoPayload;
 use crate::{error, poll_unwrap};
 use std::future::Future;
-use std::ops::DerefMut;
 use std::pin::Pin;
 use std::task::Poll;
-use tokio::io::AsyncWriteExt;
 
 /// A metadata object returned after emitting an event.
 /// To send the event this object needs to be awaited
@@ -89,10 +87,9 @@ impl<P: IntoPayload + Send + Sync + 'static> Future for EmitMetadata<P> {
             self.fut = Some(Box::pin(async move {
                 let event_id = event.id();
                 let event_bytes = event.into_bytes()?;
-                let mut stream = stream.lock().await;
-                stream.deref_mut().write_all(&event_bytes[..]).await?;
-                stream.deref_mut().flush().await?;
-                tracing::trace!(bytes_len = event_bytes.len());
+                let bytes_len = event_bytes.len();
+                stream.lock().await.write_event(event_bytes).await?;
+                tracing::trace!(bytes_len);
 
                 Ok(event_id)
             }));
diff --git a/src/ipc/stream_emitter/mod.rs b/src/ipc/stream_emitter/mod.rs
index bc0f129..98fb36a 100644
--- a/src/ipc/stream_emitter/mod.rs
+++ b/src/ipc/stream_emitter/mod.rs
@@ -3,9 +3,11 @@ pub mod emit_metadata_with_response;
 pub mod emit_metadata_with_response_stream;
 mod event_metadata;
 
+use std::io;
 use std::sync::Arc;
 
-use tokio::io::AsyncWrite;
+use bytes::Bytes;
+use tokio::io::{AsyncWrite, AsyncWriteExt};
 use tokio::sync::Mutex;
 use tracing;
 
@@ -29,7 +31,26 @@ macro_rules! poll_unwrap {
     };
 }
 
-type SendStream = Arc<Mutex<dyn AsyncWrite + Send + Sync + Unpin + 'static>>;
+type SendStream = Arc<Mutex<EventWriter<dyn AsyncWrite + Send + Sync + Unpin + 'static>>>;
+
+/// Writes events to a stream one after the other
+pub(crate) struct EventWriter<W: ?Sized> {
+    /// The rest of an event when writing it has been cancelled
+    unsent: Bytes,
+    stream: W,
+}
+
+impl<W: AsyncWrite + Unpin + ?Sized> EventWriter<W> {
+    /// Writes and flushes the bytes of an event. When the future is dropped the event is
+    /// continued by the next write to keep the stream intact.
+    pub(crate) async fn write_event(&mut self, event_bytes: Bytes) -> io::Result<()> {
+        let mut stream = &mut self.stream;
+        AsyncWriteExt::write_all_buf(&mut stream, &mut self.unsent).await?;
+        self.unsent = event_bytes;
+        AsyncWriteExt::write_all_buf(&mut stream, &mut self.unsent).await?;
+        stream.flush().await
+    }
+}
 
 /// An abstraction over any type that implements the AsyncProtocolStream trait
 /// to emit events and share a connection across multiple
@@ -42,7 +63,10 @@ pub struct StreamEmitter {
 impl StreamEmitter {
     pub fn new<P: AsyncProtocolStream + 'static>(stream: P::OwnedSplitWriteHalf) -> Self {
         Self {
-            stream: Arc::new(Mutex::new(stream)),
+            stream: Arc::new(Mutex::new(EventWriter {
+                unsent: Bytes::new(),
+                stream,
+            })),
         }
     }
 
-- 
2.43.0


From e04e959c0987759cf02c6f30b29bfefe0df21ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:27 +0000
Subject: [PATCH 18/19] fix: keep accepting connections after a failed accept

---
 src/ipc/server.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/ipc/server.rs b/src/ipc/server.rs
index ec88fa9..982f9be 100644
--- a/src/ipc/server.rs
+++ b/src/ipc/server.rs
@@ -1,5 +1,5 @@
 use super::handle_connection;
-use crate::error::Result;
+use crate::error::{Error, Result};
 use crate::events::event_handler::EventHandler;
 use crate::ipc::context::{Context, ReplyListeners};
 use crate::ipc::stream_emitter::StreamEmitter;
@@ -15,6 +15,9 @@ use std::time::Duration;
 use tokio::sync::RwLock;
 use trait_bound_typemap::SendSyncTypeMap;
 
+/// Time until the next attempt when a connection could not be accepted
+const ACCEPT_RETRY_DELAY: Duration = Duration::from_millis(100);
+
 /// The IPC Server listening for connections.
 /// Use the [IPCBuilder](crate::builder::IPCBuilder) to create a server.
 /// Usually one does not need to use the IPCServer object directly.
@@ -43,7 +46,18 @@ impl IPCServer {
         let data = Arc::new(RwLock::new(self.data));
         tracing::info!("address = {:?}", address);
 
-        while let Ok((stream, remote_address)) = listener.protocol_accept().await {
+        loop {
+            let (stream, remote_address) = match listener.protocol_accept().await {
+                Ok(connection) => connection,
+                Err(Error::IoError(e)) => {
+                    // a connection can break before it is accepted and file descriptors can be
+                    // used up for a while, neither of which must stop the server
+                    tracing::warn!("failed to accept a connection: {:?}", e);
+                    tokio::time::sleep(ACCEPT_RETRY_DELAY).await;
+                    continue;
+                }
+                Err(_) => break,
+            };
             tracing::debug!("remote_address = {:?}", remote_address);
             let handler = Arc::clone(&handler);
             let namespaces = Arc::clone(&namespaces);
-- 
2.43.0


From edb5ac664acd9ab5759a0040308e3ee475944be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:27 +0000
Subject: [PATCH 19/19] fix: never repeat event ids

The counter ran into the bits of the time after 2^32 events, so that ids could repeat
---
 src/events/mod.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/events/mod.rs b/src/events/mod.rs
index 2e039d5..49f1bc2 100644
--- a/src/events/mod.rs
+++ b/src/events/mod.rs
@@ -13,11 +13,17 @@ pub mod payload_serializer;
 /// Generates a new event id
 pub(crate) fn generate_event_id() -> u64 {
     lazy_static::lazy_static! {
-        static ref COUNTER: Arc<AtomicU64> = Arc::new(AtomicU64::new(0));
+        static ref COUNTER: Arc<AtomicU64> = Arc::new(AtomicU64::new(first_event_id()));
     }
+
+    COUNTER.fetch_add(1, Ordering::SeqCst)
+}
+
+/// The id of the first event depends on the time, all others count on from there so that no id
+/// repeats, regardless of the clock and the number of events
+fn first_event_id() -> u64 {
     let epoch_elapsed = SystemTime::now().duration_since(UNIX_EPOCH).unwrap();
 
     (epoch_elapsed.as_secs() % u16::MAX as u64) << 48
         | (epoch_elapsed.subsec_millis() as u64) << 32
-        | COUNTER.fetch_add(1, Ordering::SeqCst)
 }
-- 
2.43.0

