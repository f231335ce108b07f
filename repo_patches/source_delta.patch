From f9cc3f482367e6737756a3b6f6c0c88581ff80bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:16 +0000
Subject: [PATCH 01/21] fix: send a handler's error message with the error
 response code

A message returned as HandlerError::MessageError was sent with
ResponseCode::Ok, so the caller saw a success.
---
 src/handler.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/handler.rs b/src/handler.rs
index 22787f0..2983a9d 100644
--- a/src/handler.rs
+++ b/src/handler.rs
@@ -76,7 +76,7 @@ fn convert<MSG: Message>(msg_res: HandlerResult<MSG>) -> MessageArgsResponse {
     match msg_res {
         Ok(message) => Ok((ResponseCode::Ok, message.try_into()?)),
         Err(err) => match err {
-            HandlerError::MessageError(message) => Ok((ResponseCode::Ok, message.try_into()?)),
+            HandlerError::MessageError(message) => Ok((ResponseCode::Error, message.try_into()?)),
             HandlerError::GeneralError(message) => Err(TChannelError::Error(message)),
             HandlerError::InternalError(err) => Err(err),
         },
-- 
2.43.0


From a1449af2e025029b0a7cb0ec1b0f041fb2ffb1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:16 +0000
Subject: [PATCH 02/21] fix: end the frame when the next arg's length does not
 fit

With less than two bytes left after an arg, the next arg was either
appended to the previous one or failed as a too long frame.
---
 src/fragmentation.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fragmentation.rs b/src/fragmentation.rs
index 05b64c6..ee33079 100644
--- a/src/fragmentation.rs
+++ b/src/fragmentation.rs
@@ -205,7 +205,10 @@ impl ArgsFragmenter {
             if status == Incomplete {
                 self.args.push_front(arg);
                 break;
-            } else if status == CompleteAtTheEnd {
+            } else if status == CompleteAtTheEnd
+                // no room for the length of the next arg, so it has to start in the next frame
+                || (payload_limit < ARG_LEN_LEN as i32 && !self.args.is_empty())
+            {
                 self.args.push_front(Bytes::new());
                 break;
             }
-- 
2.43.0


From 219a6b270b11a5741c2fa2af6462b6cf8da6dfbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:16 +0000
Subject: [PATCH 03/21] fix: do not take the empty start of a continuation for
 an arg of its own

A leading empty arg of a continuation frame only says that the previous
arg ended with the previous frame. It was added as another arg, which
shifted the args behind it.
---
 src/defragmentation.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/defragmentation.rs b/src/defragmentation.rs
index 30ece5e..c88f329 100644
--- a/src/defragmentation.rs
+++ b/src/defragmentation.rs
@@ -229,7 +229,9 @@ impl ArgsDefragmenter {
                     self.args.push(first_arg);
                 }
             },
-            // next arg (according to protocol specs an empty arg at the beginning means the previous arg ended at the end of previous frame)
+            // according to protocol specs an empty arg at the beginning means the previous arg ended at the end of previous frame
+            None if !self.args.is_empty() => {}
+            // empty arg1
             None => self.args.push(BytesMut::new()),
         }
     }
-- 
2.43.0


From ccc3f37c36bd86d317a50d90d6f43eb29642ffd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:05 +0000
Subject: [PATCH 04/21] fix: fail the calls waiting on a connection that is
 lost

When the read side of a client connection ended, the calls waiting for
responses waited forever, the pool kept handing out the dead connection
and a response cut off after its first fragment passed for complete.
---
 src/connection/mod.rs  | 26 ++++++++++++++++++++++++--
 src/connection/pool.rs |  6 +++---
 src/defragmentation.rs |  6 ++++--
 3 files changed, 31 insertions(+), 7 deletions(-)

diff --git a/src/connection/mod.rs b/src/connection/mod.rs
index 52efddb..1a73cb3 100644
--- a/src/connection/mod.rs
+++ b/src/connection/mod.rs
@@ -7,7 +7,7 @@ use futures::{future, StreamExt};
 use log::{debug, error};
 use std::collections::HashMap;
 use std::fmt::Debug;
-use std::sync::atomic::{AtomicU32, Ordering};
+use std::sync::atomic::{AtomicBool, AtomicU32, Ordering};
 use std::sync::Arc;
 use tokio::net::tcp::{OwnedReadHalf, OwnedWriteHalf};
 use tokio::net::TcpStream;
@@ -51,6 +51,8 @@ pub struct FramesDispatcher {
     #[new(default)]
     senders: RwLock<HashMap<u32, Sender<TFrameId>>>,
     buffer_size: usize,
+    #[new(default)]
+    closed: AtomicBool,
 }
 
 /// Dispatches frames to channels according to their IDs.
@@ -75,6 +77,9 @@ impl FramesDispatcher {
 
     pub async fn register(&self, id: u32, sender: Sender<TFrameId>) -> ConnectionResult<()> {
         let mut channels = self.senders.write().await;
+        if self.is_closed() {
+            return Err(ConnectionError::Error("Connection is closed".to_owned()));
+        }
         if channels.insert(id, sender).is_some() {
             debug!("Sender for id {} already exists", id);
             return Err(ConnectionError::Error(format!("Duplicated id: {}.", id)));
@@ -82,6 +87,17 @@ impl FramesDispatcher {
         Ok(())
     }
 
+    /// No more frames will come: ends all pending ids and refuses new ones.
+    pub async fn close(&self) {
+        let mut channels = self.senders.write().await;
+        self.closed.store(true, Ordering::SeqCst);
+        channels.clear();
+    }
+
+    pub fn is_closed(&self) -> bool {
+        self.closed.load(Ordering::SeqCst)
+    }
+
     async fn dispatch_first(&self, frame: TFrameId) -> ConnectionResult<Receiver<TFrameId>> {
         let id = *frame.id();
         debug!("Received frame with id: {}", id);
@@ -156,6 +172,11 @@ impl Connection {
         Ok((receiver, frame_output))
     }
 
+    /// Whether no response can arrive anymore.
+    pub fn is_closed(&self) -> bool {
+        self.pending_ids.is_closed()
+    }
+
     fn next_message_id(&self) -> u32 {
         self.next_message_id.fetch_add(1, Ordering::Relaxed)
     }
@@ -231,7 +252,8 @@ impl FrameReceiver {
             .filter_map(Self::print_if_err_and_skip)
             .map(|frame| self.frame_senders.dispatch_following(frame))
             .for_each(Self::print_if_err)
-            .await
+            .await;
+        self.frame_senders.close().await;
     }
 
     fn print_if_err_and_skip(
diff --git a/src/connection/pool.rs b/src/connection/pool.rs
index 7cdf9a0..0f24df0 100644
--- a/src/connection/pool.rs
+++ b/src/connection/pool.rs
@@ -102,9 +102,9 @@ impl bb8::ManageConnection for ConnectionManager {
         ping(conn).await
     }
 
-    fn has_broken(&self, _conn: &mut Self::Connection) -> bool {
-        debug!("Has broken? (not implemented)");
-        false
+    fn has_broken(&self, conn: &mut Self::Connection) -> bool {
+        debug!("Has broken?");
+        conn.is_closed()
     }
 }
 
diff --git a/src/defragmentation.rs b/src/defragmentation.rs
index c88f329..668cfbe 100644
--- a/src/defragmentation.rs
+++ b/src/defragmentation.rs
@@ -174,7 +174,7 @@ async fn read_continuation(
                 let mut continuation = CallContinue::decode(frame.payload_mut())?;
                 verify_args(continuation.args_mut()).map(|args| args_defragmenter.add(args))?;
                 if !continuation.flags().contains(Flags::MORE_FRAGMENTS_FOLLOW) {
-                    break;
+                    return Ok(());
                 }
             }
             Type::Error => {
@@ -193,7 +193,9 @@ async fn read_continuation(
             }
         };
     }
-    Ok(())
+    Err(TChannelError::Error(
+        "Connection closed before the last fragment".to_string(),
+    ))
 }
 
 fn verify_args(call_args: &mut CallArgs) -> CodecResult<&mut VecDeque<Option<Bytes>>> {
-- 
2.43.0


From 6413ca3c1d57948fcf02a93e335622b3b3ac5faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:21 +0000
Subject: [PATCH 05/21] fix: release both halves of a client connection when
 one of them ends

The receiving task of a connection nobody uses anymore lived until the
server closed the connection, the sending one of a connection closed by
the server until the connection was dropped from the pool.
---
 src/connection/mod.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/connection/mod.rs b/src/connection/mod.rs
index 1a73cb3..f6cac2f 100644
--- a/src/connection/mod.rs
+++ b/src/connection/mod.rs
@@ -3,7 +3,10 @@ use crate::frames::payloads::CodecResult;
 use crate::frames::{TFrame, TFrameId, TFrameIdCodec};
 use futures::prelude::*;
 use futures::{self, SinkExt};
-use futures::{future, StreamExt};
+use futures::{
+    future::{self, Either},
+    StreamExt,
+};
 use log::{debug, error};
 use std::collections::HashMap;
 use std::fmt::Debug;
@@ -147,8 +150,14 @@ impl Connection {
         let framed_write = FramedWrite::new(write, TFrameIdCodec {});
         let (sender, receiver) = mpsc::channel::<TFrameId>(buffer_size);
         let connection = Connection::new(sender, buffer_size);
-        FrameReceiver::spawn(framed_read, connection.pending_ids.clone());
-        FrameSender::spawn(framed_write, receiver, buffer_size);
+        let receiving = FrameReceiver::spawn(framed_read, connection.pending_ids.clone());
+        let sending = FrameSender::spawn(framed_write, receiver, buffer_size);
+        // Connection is of no use when either nothing can be received or nothing will be sent anymore.
+        tokio::spawn(async move {
+            match future::select(receiving, sending).await {
+                Either::Left((_, other)) | Either::Right((_, other)) => other.abort(),
+            }
+        });
         Ok(connection)
     }
 
-- 
2.43.0


From 022b5533cf03b5836037db10e477d179a3787076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:58 +0000
Subject: [PATCH 06/21] fix: answer a request that cannot be served with an
 error frame

An unknown service or endpoint, a handler returning an error or a
message which cannot be decoded closed the whole connection, together
with all other calls using it. Now just its caller gets an error.
---
 src/server.rs | 35 +++++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index 6bf76ca..30627d9 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -7,9 +7,8 @@ use crate::fragmentation::ResponseFragmenter;
 use crate::frames::headers::InitHeaderKey;
 use crate::frames::payloads::{Codec, CodecResult, ErrorCode, ErrorMsg, PROTOCOL_VERSION};
 use crate::frames::payloads::{Init, Tracing};
-use crate::frames::{TFrame, TFrameId, TFrameIdCodec, Type};
+use crate::frames::{TFrame, TFrameId, TFrameIdCodec, Type, FRAME_HEADER_LENGTH, FRAME_MAX_LENGTH};
 use crate::SubChannel;
-use futures::TryFutureExt;
 use futures::{self, SinkExt, StreamExt, TryStreamExt};
 use log::debug;
 use std::collections::HashMap;
@@ -21,6 +20,9 @@ use tokio::sync::mpsc;
 use tokio::sync::mpsc::Sender;
 use tokio_util::codec::{FramedRead, FramedWrite};
 
+/// Longest message of an error frame (next to code:1, tracing:25 and message length:2).
+const MAX_ERROR_MSG_LENGTH: usize = (FRAME_MAX_LENGTH - FRAME_HEADER_LENGTH) as usize - 1 - 25 - 2;
+
 #[derive(Debug)]
 pub struct Server {
     subchannels: SharedSubChannels,
@@ -84,6 +86,13 @@ impl Server {
 
     async fn dispatch_frame(&self, frame: TFrameId) -> TResult<Option<(u32, FrameInput)>> {
         let id = *frame.id();
+        if *frame.frame().frame_type() != Type::CallRequest {
+            // nothing but a call request begins a message, e.g. its remains may follow after an error response
+            if let Err(err) = self.frame_dispatchers.dispatch_following(frame).await {
+                debug!("Skipping frame (id {}): {}", id, err);
+            }
+            return Ok(None);
+        }
         self.frame_dispatchers
             .dispatch(frame)
             .await
@@ -158,15 +167,20 @@ struct FrameHandler {
 impl FrameHandler {
     pub async fn handle(&self, id: u32, frame_input: FrameInput) -> TResult<()> {
         debug!("Handling message (id {})", &id);
-        self.handle_input(id, frame_input)
-            .and_then(|frames| self.send_frames(frames))
-            .await
+        let frames = match self.handle_input(id, frame_input).await {
+            Ok(frames) => frames,
+            Err(err) => {
+                debug!("Failed to handle message (id {}): {}", id, err);
+                vec![self.to_error_frame(ErrorCode::UnexpectedError, err.to_string(), id)?]
+            }
+        };
+        self.send_frames(frames).await
     }
 
     async fn handle_input(&self, id: u32, frame_input: FrameInput) -> TResult<Vec<TFrameId>> {
-        let (request_fields, message_args) =
-            RequestDefragmenter::new(frame_input).read_request().await?;
+        let request = RequestDefragmenter::new(frame_input).read_request().await;
         self.frame_dispatchers.deregister(&id).await;
+        let (request_fields, message_args) = request?;
         let subchannel = self.get_subchannel(request_fields.service()).await?;
         let (response_code, response_args) = subchannel.handle(message_args).await?;
         match ResponseFragmenter::new(request_fields.service(), response_code, response_args)
@@ -206,7 +220,12 @@ impl FrameHandler {
         Ok(())
     }
 
-    fn to_error_frame(&self, code: ErrorCode, msg: String, id: u32) -> CodecResult<TFrameId> {
+    fn to_error_frame(&self, code: ErrorCode, mut msg: String, id: u32) -> CodecResult<TFrameId> {
+        let mut len = msg.len().min(MAX_ERROR_MSG_LENGTH);
+        while !msg.is_char_boundary(len) {
+            len -= 1;
+        }
+        msg.truncate(len);
         //TODO add meaningful tracing
         let tracing = Tracing::default();
         let err = ErrorMsg::new(code, tracing, msg);
-- 
2.43.0


From ae0eae919e83e77b20fdddee99a18ea64c16ba69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:46 +0000
Subject: [PATCH 07/21] fix: keep reading requests while others on the
 connection are incomplete

---
 src/server.rs | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index 30627d9..a2b252b 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -5,9 +5,12 @@ use crate::defragmentation::RequestDefragmenter;
 use crate::errors::{ConnectionError, TChannelError};
 use crate::fragmentation::ResponseFragmenter;
 use crate::frames::headers::InitHeaderKey;
-use crate::frames::payloads::{Codec, CodecResult, ErrorCode, ErrorMsg, PROTOCOL_VERSION};
+use crate::frames::payloads::{
+    CallRequestFields, Codec, CodecResult, ErrorCode, ErrorMsg, PROTOCOL_VERSION,
+};
 use crate::frames::payloads::{Init, Tracing};
 use crate::frames::{TFrame, TFrameId, TFrameIdCodec, Type, FRAME_HEADER_LENGTH, FRAME_MAX_LENGTH};
+use crate::messages::args::MessageArgs;
 use crate::SubChannel;
 use futures::{self, SinkExt, StreamExt, TryStreamExt};
 use log::debug;
@@ -32,6 +35,7 @@ pub struct Server {
 }
 
 type TFramedRead = FramedRead<OwnedReadHalf, TFrameIdCodec>;
+type Request = (CallRequestFields, MessageArgs);
 type TFramedWrite = FramedWrite<OwnedWriteHalf, TFrameIdCodec>;
 
 impl Server {
@@ -79,7 +83,11 @@ impl Server {
         framed_read
             .map_err(TChannelError::CodecError)
             .try_filter_map(|frame| self.dispatch_frame(frame))
-            .try_for_each_concurrent(self.server_tasks, |(id, frames)| handler.handle(id, frames))
+            // any number of messages may be arriving at once, just the handling of complete ones is limited
+            .map_ok(|(id, frames)| handler.read(id, frames))
+            .try_buffer_unordered(usize::MAX)
+            .boxed()
+            .try_for_each_concurrent(self.server_tasks, |(id, req)| handler.handle(id, req))
             .await
         //TODO send fatal protocol error when it fails
     }
@@ -165,9 +173,16 @@ struct FrameHandler {
 }
 
 impl FrameHandler {
-    pub async fn handle(&self, id: u32, frame_input: FrameInput) -> TResult<()> {
+    pub async fn read(&self, id: u32, frame_input: FrameInput) -> TResult<(u32, TResult<Request>)> {
+        debug!("Reading message (id {})", &id);
+        let request = RequestDefragmenter::new(frame_input).read_request().await;
+        self.frame_dispatchers.deregister(&id).await;
+        Ok((id, request))
+    }
+
+    pub async fn handle(&self, id: u32, request: TResult<Request>) -> TResult<()> {
         debug!("Handling message (id {})", &id);
-        let frames = match self.handle_input(id, frame_input).await {
+        let frames = match self.handle_request(id, request).await {
             Ok(frames) => frames,
             Err(err) => {
                 debug!("Failed to handle message (id {}): {}", id, err);
@@ -177,9 +192,7 @@ impl FrameHandler {
         self.send_frames(frames).await
     }
 
-    async fn handle_input(&self, id: u32, frame_input: FrameInput) -> TResult<Vec<TFrameId>> {
-        let request = RequestDefragmenter::new(frame_input).read_request().await;
-        self.frame_dispatchers.deregister(&id).await;
+    async fn handle_request(&self, id: u32, request: TResult<Request>) -> TResult<Vec<TFrameId>> {
         let (request_fields, message_args) = request?;
         let subchannel = self.get_subchannel(request_fields.service()).await?;
         let (response_code, response_args) = subchannel.handle(message_args).await?;
-- 
2.43.0


From e79a6baaacb55f86caf058c5388debe36dfb6d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:22 +0000
Subject: [PATCH 08/21] fix: report malformed payloads and unsupported
 checksums instead of panicking

---
 src/defragmentation.rs |  5 +++-
 src/frames/payloads.rs | 55 +++++++++++++++++++++++++++---------------
 2 files changed, 40 insertions(+), 20 deletions(-)

diff --git a/src/defragmentation.rs b/src/defragmentation.rs
index 668cfbe..d048985 100644
--- a/src/defragmentation.rs
+++ b/src/defragmentation.rs
@@ -201,7 +201,10 @@ async fn read_continuation(
 fn verify_args(call_args: &mut CallArgs) -> CodecResult<&mut VecDeque<Option<Bytes>>> {
     match call_args.checksum_type() {
         ChecksumType::None => Ok(call_args.args_mut()),
-        _ => todo!(),
+        other_type => Err(CodecError::Error(format!(
+            "Unsupported checksum type: {:?}",
+            other_type
+        ))),
     }
 }
 
diff --git a/src/frames/payloads.rs b/src/frames/payloads.rs
index 82c683c..1ef9e89 100644
--- a/src/frames/payloads.rs
+++ b/src/frames/payloads.rs
@@ -102,10 +102,10 @@ impl Codec for Tracing {
 
     fn decode(src: &mut Bytes) -> CodecResult<Self> {
         Ok(Tracing::new(
-            src.get_u64(),
-            src.get_u64(),
-            src.get_u64(),
-            decode_bitflag(src.get_u8(), TraceFlags::from_bits)?,
+            get(src, Bytes::get_u64)?,
+            get(src, Bytes::get_u64)?,
+            get(src, Bytes::get_u64)?,
+            decode_bitflag(get(src, Bytes::get_u8)?, TraceFlags::from_bits)?,
         ))
     }
 }
@@ -132,7 +132,7 @@ impl Codec for Init {
     }
 
     fn decode(src: &mut Bytes) -> CodecResult<Self> {
-        Ok(Init::new(src.get_u16(), decode_headers(src)?))
+        Ok(Init::new(get(src, Bytes::get_u16)?, decode_headers(src)?))
     }
 }
 
@@ -191,7 +191,7 @@ impl Codec for CallWithFieldsEncoded {
 
     fn decode(src: &mut Bytes) -> CodecResult<Self> {
         Ok(CallWithFieldsEncoded::new(
-            decode_bitflag(src.get_u8(), Flags::from_bits)?,
+            decode_bitflag(get(src, Bytes::get_u8)?, Flags::from_bits)?,
             CallRequestFields::decode(src)?.encode_bytes()?,
             CallArgs::decode(src)?,
         ))
@@ -236,7 +236,7 @@ impl Codec for CallRequestFields {
 
     fn decode(src: &mut Bytes) -> CodecResult<Self> {
         Ok(CallRequestFields::new(
-            src.get_u32(),
+            get(src, Bytes::get_u32)?,
             Tracing::decode(src)?,
             decode_small_string(src)?,
             decode_small_headers(src)?,
@@ -278,7 +278,7 @@ impl Codec for CallRequest {
 
     fn decode(src: &mut Bytes) -> CodecResult<Self> {
         Ok(CallRequest::new(
-            decode_bitflag(src.get_u8(), Flags::from_bits)?,
+            decode_bitflag(get(src, Bytes::get_u8)?, Flags::from_bits)?,
             CallRequestFields::decode(src)?,
             CallArgs::decode(src)?,
         ))
@@ -322,7 +322,7 @@ impl Codec for CallResponseFields {
 
     fn decode(src: &mut Bytes) -> CodecResult<Self> {
         Ok(CallResponseFields::new(
-            decode_bitflag(src.get_u8(), ResponseCode::from_u8)?,
+            decode_bitflag(get(src, Bytes::get_u8)?, ResponseCode::from_u8)?,
             Tracing::decode(src)?,
             decode_small_headers(src)?,
         ))
@@ -363,7 +363,7 @@ impl Codec for CallResponse {
 
     fn decode(src: &mut Bytes) -> CodecResult<Self> {
         Ok(CallResponse::new(
-            decode_bitflag(src.get_u8(), Flags::from_bits)?,
+            decode_bitflag(get(src, Bytes::get_u8)?, Flags::from_bits)?,
             CallResponseFields::decode(src)?,
             CallArgs::decode(src)?,
         ))
@@ -404,7 +404,7 @@ impl Codec for CallContinue {
 
     fn decode(src: &mut Bytes) -> CodecResult<Self> {
         Ok(CallContinue::new(
-            decode_bitflag(src.get_u8(), Flags::from_bits)?,
+            decode_bitflag(get(src, Bytes::get_u8)?, Flags::from_bits)?,
             CallArgs::decode(src)?,
         ))
     }
@@ -432,7 +432,7 @@ impl Codec for Cancel {
 
     fn decode(src: &mut Bytes) -> CodecResult<Self> {
         Ok(Cancel::new(
-            src.get_u32(),
+            get(src, Bytes::get_u32)?,
             Tracing::decode(src)?,
             decode_string(src)?,
         ))
@@ -457,7 +457,7 @@ impl Codec for Claim {
     }
 
     fn decode(src: &mut Bytes) -> CodecResult<Self> {
-        Ok(Claim::new(src.get_u32(), Tracing::decode(src)?))
+        Ok(Claim::new(get(src, Bytes::get_u32)?, Tracing::decode(src)?))
     }
 }
 
@@ -482,7 +482,7 @@ impl Codec for ErrorMsg {
 
     fn decode(src: &mut Bytes) -> CodecResult<Self> {
         Ok(ErrorMsg::new(
-            decode_bitflag(src.get_u8(), ErrorCode::from_u8)?,
+            decode_bitflag(get(src, Bytes::get_u8)?, ErrorCode::from_u8)?,
             Tracing::decode(src)?,
             decode_string(src)?,
         ))
@@ -547,13 +547,29 @@ fn encode_checksum(
 }
 
 fn decode_checksum(src: &mut Bytes) -> CodecResult<(ChecksumType, Option<u32>)> {
-    let checksum_type = decode_bitflag(src.get_u8(), ChecksumType::from_u8)?;
+    let checksum_type = decode_bitflag(get(src, Bytes::get_u8)?, ChecksumType::from_u8)?;
     match checksum_type {
         ChecksumType::None => Ok((ChecksumType::None, None)),
-        checksum => Ok((checksum, Some(src.get_u32()))),
+        checksum => Ok((checksum, Some(get(src, Bytes::get_u32)?))),
     }
 }
 
+fn get<T>(src: &mut Bytes, get_fn: impl Fn(&mut Bytes) -> T) -> CodecResult<T> {
+    check_remaining(src, std::mem::size_of::<T>())?;
+    Ok(get_fn(src))
+}
+
+fn check_remaining(src: &Bytes, len: usize) -> CodecResult<()> {
+    if src.remaining() < len {
+        return Err(CodecError::Error(format!(
+            "Payload too short: expected {} more bytes, got {}",
+            len,
+            src.remaining()
+        )));
+    }
+    Ok(())
+}
+
 fn decode_bitflag<T, F: Fn(u8) -> Option<T>>(byte: u8, decoder: F) -> CodecResult<T> {
     decoder(byte).ok_or_else(|| CodecError::Error(format!("Unknown flag: {}", byte)))
 }
@@ -637,8 +653,9 @@ fn decode_string_field<T: Into<usize>>(
     src: &mut Bytes,
     get_len: &dyn Fn(&mut Bytes) -> T,
 ) -> CodecResult<String> {
-    let len = get_len(src);
-    let bytes = src.copy_to_bytes(len.into());
+    let len = get(src, get_len)?.into();
+    check_remaining(src, len)?;
+    let bytes = src.copy_to_bytes(len);
     Ok(String::from_utf8(bytes.chunk().to_vec())?)
 }
 
@@ -660,7 +677,7 @@ fn decode_len<T: TryInto<usize>>(
     src: &mut Bytes,
     decode_len_fn: &dyn Fn(&mut Bytes) -> T,
 ) -> CodecResult<usize> {
-    decode_len_fn(src)
+    get(src, decode_len_fn)?
         .try_into()
         .map_err(|_| CodecError::Error("Failed to cast len to usize.".to_string()))
 }
-- 
2.43.0


From 48bb24969d7b3fadff1bc251b19826f0606e0a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:42 +0000
Subject: [PATCH 09/21] fix: give up incomplete requests when their connection
 ends

---
 src/server.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index a2b252b..9411f98 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -12,7 +12,7 @@ use crate::frames::payloads::{Init, Tracing};
 use crate::frames::{TFrame, TFrameId, TFrameIdCodec, Type, FRAME_HEADER_LENGTH, FRAME_MAX_LENGTH};
 use crate::messages::args::MessageArgs;
 use crate::SubChannel;
-use futures::{self, SinkExt, StreamExt, TryStreamExt};
+use futures::{self, future, stream, SinkExt, StreamExt, TryStreamExt};
 use log::debug;
 use std::collections::HashMap;
 use std::fmt::Debug;
@@ -82,6 +82,8 @@ impl Server {
 
         framed_read
             .map_err(TChannelError::CodecError)
+            .map_ok(Some)
+            .chain(stream::once(future::ok(None))) // end of connection
             .try_filter_map(|frame| self.dispatch_frame(frame))
             // any number of messages may be arriving at once, just the handling of complete ones is limited
             .map_ok(|(id, frames)| handler.read(id, frames))
@@ -92,7 +94,15 @@ impl Server {
         //TODO send fatal protocol error when it fails
     }
 
-    async fn dispatch_frame(&self, frame: TFrameId) -> TResult<Option<(u32, FrameInput)>> {
+    async fn dispatch_frame(&self, frame: Option<TFrameId>) -> TResult<Option<(u32, FrameInput)>> {
+        let frame = match frame {
+            Some(frame) => frame,
+            None => {
+                // what is missing from incomplete messages will never come
+                self.frame_dispatchers.close().await;
+                return Ok(None);
+            }
+        };
         let id = *frame.id();
         if *frame.frame().frame_type() != Type::CallRequest {
             // nothing but a call request begins a message, e.g. its remains may follow after an error response
-- 
2.43.0


From a04f8ad3185b3ed895bf21863ba0156ba11c185b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:27 +0000
Subject: [PATCH 10/21] fix: answer ping requests

---
 src/connection/mod.rs | 42 +++++++++++++++++++++++++++++++++++-------
 src/server.rs         | 16 +++++++++++++---
 2 files changed, 48 insertions(+), 10 deletions(-)

diff --git a/src/connection/mod.rs b/src/connection/mod.rs
index f6cac2f..17b3935 100644
--- a/src/connection/mod.rs
+++ b/src/connection/mod.rs
@@ -1,6 +1,7 @@
 use crate::errors::ConnectionError;
 use crate::frames::payloads::CodecResult;
-use crate::frames::{TFrame, TFrameId, TFrameIdCodec};
+use crate::frames::{TFrame, TFrameId, TFrameIdCodec, Type};
+use bytes::Bytes;
 use futures::prelude::*;
 use futures::{self, SinkExt};
 use futures::{
@@ -11,7 +12,7 @@ use log::{debug, error};
 use std::collections::HashMap;
 use std::fmt::Debug;
 use std::sync::atomic::{AtomicBool, AtomicU32, Ordering};
-use std::sync::Arc;
+use std::sync::{Arc, Weak};
 use tokio::net::tcp::{OwnedReadHalf, OwnedWriteHalf};
 use tokio::net::TcpStream;
 use tokio::sync::mpsc;
@@ -31,7 +32,7 @@ pub type FrameInput = Receiver<TFrameId>;
 #[derive(Debug, new)]
 pub struct FrameOutput {
     message_id: u32,
-    sender: Sender<TFrameId>,
+    sender: Arc<Sender<TFrameId>>,
     frames_dispatcher: Arc<FramesDispatcher>,
 }
 
@@ -130,7 +131,7 @@ impl FramesDispatcher {
 pub struct Connection {
     next_message_id: AtomicU32,
     pending_ids: Arc<FramesDispatcher>,
-    sender: Sender<TFrameId>,
+    sender: Arc<Sender<TFrameId>>,
     buffer_size: usize,
 }
 
@@ -139,7 +140,7 @@ impl Connection {
         Connection {
             next_message_id: AtomicU32::default(),
             pending_ids: Arc::new(FramesDispatcher::new(buffer_size)),
-            sender,
+            sender: Arc::new(sender),
             buffer_size,
         }
     }
@@ -150,7 +151,11 @@ impl Connection {
         let framed_write = FramedWrite::new(write, TFrameIdCodec {});
         let (sender, receiver) = mpsc::channel::<TFrameId>(buffer_size);
         let connection = Connection::new(sender, buffer_size);
-        let receiving = FrameReceiver::spawn(framed_read, connection.pending_ids.clone());
+        let receiving = FrameReceiver::spawn(
+            framed_read,
+            connection.pending_ids.clone(),
+            Arc::downgrade(&connection.sender),
+        );
         let sending = FrameSender::spawn(framed_write, receiver, buffer_size);
         // Connection is of no use when either nothing can be received or nothing will be sent anymore.
         tokio::spawn(async move {
@@ -237,16 +242,26 @@ impl FrameSender {
     }
 }
 
+pub fn ping_response(id: u32) -> TFrameId {
+    TFrameId::new(id, TFrame::new(Type::PingResponse, Bytes::new()))
+}
+
 struct FrameReceiver {
     frame_senders: Arc<FramesDispatcher>,
+    /// Does not keep the connection open on its own.
+    sender: Weak<Sender<TFrameId>>,
 }
 
 impl FrameReceiver {
     pub fn spawn(
         framed_read: FramedRead<OwnedReadHalf, TFrameIdCodec>,
         frame_senders: Arc<FramesDispatcher>,
+        sender: Weak<Sender<TFrameId>>,
     ) -> JoinHandle<()> {
-        let frame_receiver = FrameReceiver { frame_senders };
+        let frame_receiver = FrameReceiver {
+            frame_senders,
+            sender,
+        };
         tokio::spawn(async move {
             frame_receiver
                 .run(framed_read)
@@ -259,12 +274,25 @@ impl FrameReceiver {
         debug!("Starting FrameReceiver");
         framed_read
             .filter_map(Self::print_if_err_and_skip)
+            .filter_map(|frame| future::ready(self.answer_ping(frame)))
             .map(|frame| self.frame_senders.dispatch_following(frame))
             .for_each(Self::print_if_err)
             .await;
         self.frame_senders.close().await;
     }
 
+    /// Ids of ping requests are chosen by the remote, they have nothing to do with pending ids.
+    fn answer_ping(&self, frame: TFrameId) -> Option<TFrameId> {
+        if *frame.frame().frame_type() != Type::PingRequest {
+            return Some(frame);
+        }
+        if let Some(sender) = self.sender.upgrade() {
+            // responses have to be received even while nothing can be sent
+            tokio::spawn(async move { sender.send(ping_response(*frame.id())).await });
+        }
+        None
+    }
+
     fn print_if_err_and_skip(
         frame_res: CodecResult<TFrameId>,
     ) -> impl Future<Output = Option<TFrameId>> {
diff --git a/src/server.rs b/src/server.rs
index 9411f98..4b197a7 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -1,6 +1,8 @@
 use crate::channel::{SharedSubChannels, TResult};
 use crate::config::Config;
-use crate::connection::{ConnectionResult, FrameInput, FrameSender, FramesDispatcher};
+use crate::connection::{
+    ping_response, ConnectionResult, FrameInput, FrameSender, FramesDispatcher,
+};
 use crate::defragmentation::RequestDefragmenter;
 use crate::errors::{ConnectionError, TChannelError};
 use crate::fragmentation::ResponseFragmenter;
@@ -84,7 +86,7 @@ impl Server {
             .map_err(TChannelError::CodecError)
             .map_ok(Some)
             .chain(stream::once(future::ok(None))) // end of connection
-            .try_filter_map(|frame| self.dispatch_frame(frame))
+            .try_filter_map(|frame| self.dispatch_frame(frame, &handler.sender))
             // any number of messages may be arriving at once, just the handling of complete ones is limited
             .map_ok(|(id, frames)| handler.read(id, frames))
             .try_buffer_unordered(usize::MAX)
@@ -94,7 +96,11 @@ impl Server {
         //TODO send fatal protocol error when it fails
     }
 
-    async fn dispatch_frame(&self, frame: Option<TFrameId>) -> TResult<Option<(u32, FrameInput)>> {
+    async fn dispatch_frame(
+        &self,
+        frame: Option<TFrameId>,
+        sender: &Sender<TFrameId>,
+    ) -> TResult<Option<(u32, FrameInput)>> {
         let frame = match frame {
             Some(frame) => frame,
             None => {
@@ -104,6 +110,10 @@ impl Server {
             }
         };
         let id = *frame.id();
+        if *frame.frame().frame_type() == Type::PingRequest {
+            sender.send(ping_response(id)).await?;
+            return Ok(None);
+        }
         if *frame.frame().frame_type() != Type::CallRequest {
             // nothing but a call request begins a message, e.g. its remains may follow after an error response
             if let Err(err) = self.frame_dispatchers.dispatch_following(frame).await {
-- 
2.43.0


From 1658b96a8b0ff8a83377d3275095aa3ed11af95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:39 +0000
Subject: [PATCH 11/21] fix: continue messages just with continuation frames of
 their own kind

---
 src/defragmentation.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/defragmentation.rs b/src/defragmentation.rs
index d048985..5507a55 100644
--- a/src/defragmentation.rs
+++ b/src/defragmentation.rs
@@ -20,7 +20,7 @@ pub(crate) struct ResponseDefragmenter {
 
 impl ResponseDefragmenter {
     pub fn new(frame_input: FrameInput) -> ResponseDefragmenter {
-        let defragmenter = Defragmenter::new(frame_input);
+        let defragmenter = Defragmenter::new(frame_input, Type::CallResponseContinue);
         ResponseDefragmenter { defragmenter }
     }
 
@@ -50,7 +50,7 @@ pub struct RequestDefragmenter {
 
 impl RequestDefragmenter {
     pub fn new(frame_input: FrameInput) -> RequestDefragmenter {
-        let defragmenter = Defragmenter::new(frame_input);
+        let defragmenter = Defragmenter::new(frame_input, Type::CallRequestContinue);
         RequestDefragmenter { defragmenter }
     }
 
@@ -75,6 +75,7 @@ impl RequestDefragmenter {
 #[derive(Debug, new)]
 pub struct Defragmenter {
     frame_input: FrameInput,
+    continuation_type: Type,
 }
 
 impl Defragmenter {
@@ -102,7 +103,12 @@ impl Defragmenter {
             let message_args = MessageArgs::new(args_scheme, args_defragmenter.args());
             return Ok((fields, message_args));
         }
-        read_continuation(&mut self.frame_input, &mut args_defragmenter).await?;
+        read_continuation(
+            &mut self.frame_input,
+            self.continuation_type,
+            &mut args_defragmenter,
+        )
+        .await?;
         let message_args = MessageArgs::new(args_scheme, args_defragmenter.args());
         Ok((fields, message_args))
     }
@@ -163,13 +169,14 @@ fn get_args_scheme<FIELDS: CallFields>(fields: &FIELDS) -> CodecResult<ArgScheme
 
 async fn read_continuation(
     frame_input: &mut FrameInput,
+    continuation_type: Type,
     args_defragmenter: &mut ArgsDefragmenter,
 ) -> TResult<()> {
     debug!("Reading continuation");
     while let Some(frame_id) = frame_input.recv().await {
         let mut frame = frame_id.frame;
         match frame.frame_type() {
-            Type::CallResponseContinue | Type::CallRequestContinue => {
+            frame_type if *frame_type == continuation_type => {
                 debug!("Reading frame with type {:?}", frame.frame_type());
                 let mut continuation = CallContinue::decode(frame.payload_mut())?;
                 verify_args(continuation.args_mut()).map(|args| args_defragmenter.add(args))?;
-- 
2.43.0


From 293bb6b0700d29c00692ef1f266a4cc98ef6f4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:41 +0000
Subject: [PATCH 12/21] fix: keep serving when accepting one connection fails

---
 src/server.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/server.rs b/src/server.rs
index 4b197a7..a838c13 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -19,6 +19,7 @@ use log::debug;
 use std::collections::HashMap;
 use std::fmt::Debug;
 use std::sync::Arc;
+use std::time::Duration;
 use tokio::net::tcp::{OwnedReadHalf, OwnedWriteHalf};
 use tokio::net::{TcpListener, TcpStream};
 use tokio::sync::mpsc;
@@ -28,6 +29,9 @@ use tokio_util::codec::{FramedRead, FramedWrite};
 /// Longest message of an error frame (next to code:1, tracing:25 and message length:2).
 const MAX_ERROR_MSG_LENGTH: usize = (FRAME_MAX_LENGTH - FRAME_HEADER_LENGTH) as usize - 1 - 25 - 2;
 
+/// Pause after a failure to accept a connection.
+const ACCEPT_RETRY_DELAY: Duration = Duration::from_millis(100);
+
 #[derive(Debug)]
 pub struct Server {
     subchannels: SharedSubChannels,
@@ -54,7 +58,15 @@ impl Server {
         debug!("Starting server on {}", config.server_address);
         let listener = TcpListener::bind(config.server_address).await?;
         loop {
-            let (stream, addr) = listener.accept().await?;
+            let (stream, addr) = match listener.accept().await {
+                Ok(accepted) => accepted,
+                Err(err) => {
+                    // of the connection that was to be accepted, or lack of resources
+                    error!("Failed to accept connection: {}", err);
+                    tokio::time::sleep(ACCEPT_RETRY_DELAY).await;
+                    continue;
+                }
+            };
             debug!("Handling incoming connection from {}", addr);
             let subchannels = subchannels.clone();
             let mut server =
-- 
2.43.0


From a3cc70ca241620305d92209b03124727c2a07f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:42 +0000
Subject: [PATCH 13/21] fix: let handlers be unregistered from the shared
 subchannels that users get

---
 src/subchannel.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/subchannel.rs b/src/subchannel.rs
index ed22f77..2fb351f 100644
--- a/src/subchannel.rs
+++ b/src/subchannel.rs
@@ -106,7 +106,7 @@ impl SubChannel {
     }
 
     /// Unregisters request handler. Found handler will be dropped.
-    pub async fn unregister(&mut self, endpoint: impl AsRef<str>) -> TResult<()> {
+    pub async fn unregister(&self, endpoint: impl AsRef<str>) -> TResult<()> {
         let mut handlers = self.handlers.write().await;
         match handlers.remove(endpoint.as_ref()) {
             Some(_) => Ok(()),
-- 
2.43.0


From d6951e81ad6699f72d24f2373cf2d0d6b0a51a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:01 +0000
Subject: [PATCH 14/21] fix: start the server again once the one shut down
 released its address

---
 src/channel.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/channel.rs b/src/channel.rs
index 9199598..49eeeb0 100644
--- a/src/channel.rs
+++ b/src/channel.rs
@@ -24,6 +24,8 @@ pub struct TChannel {
     connection_pools: Arc<ConnectionPools>,
     subchannels: SharedSubChannels,
     server_handle: ServerHandle,
+    /// Held by server task as long as it may be bound to server address.
+    server_guard: Arc<tokio::sync::Mutex<()>>,
 }
 
 impl TChannel {
@@ -37,6 +39,7 @@ impl TChannel {
             connection_pools: Arc::new(connection_pools),
             subchannels,
             server_handle: Mutex::new(None),
+            server_guard: Arc::default(),
         })
     }
 
@@ -45,7 +48,14 @@ impl TChannel {
         let mut handle_lock = self.server_handle.lock().unwrap();
         if handle_lock.is_none() {
             debug!("Starting server"); //TODO lie
-            let handle = tokio::spawn(Server::run(self.config.clone(), self.subchannels.clone()));
+            let config = self.config.clone();
+            let subchannels = self.subchannels.clone();
+            let server_guard = self.server_guard.clone();
+            let handle = tokio::spawn(async move {
+                // previous server task stops some time after it was aborted
+                let _guard = server_guard.lock().await;
+                Server::run(config, subchannels).await
+            });
             *handle_lock = Some(handle);
         } else {
             return Err(TChannelError::Error("Server already started".to_string()));
-- 
2.43.0


From 1363792d8e2f5ffebbfc5898baf2f86928c5a9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:36 +0000
Subject: [PATCH 15/21] fix: give up on connections whose remote does not
 respond to the handshake or a ping

---
 src/connection/pool.rs | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/connection/pool.rs b/src/connection/pool.rs
index 0f24df0..24a43c5 100644
--- a/src/connection/pool.rs
+++ b/src/connection/pool.rs
@@ -9,14 +9,19 @@ use crate::frames::{TFrame, TFrameId, Type};
 use async_trait::async_trait;
 use bb8::{ErrorSink, Pool, RunError};
 use bytes::Bytes;
+use futures::Future;
 use log::{debug, error};
 use std::collections::HashMap;
 use std::fmt::Debug;
 use std::net::SocketAddr;
 use std::sync::Arc;
+use std::time::Duration;
 use tokio::net::TcpStream;
 use tokio::sync::RwLock;
 
+/// Time in which remote has to accept a connection or respond to a ping.
+const RESPONSE_TIMEOUT: Duration = Duration::from_secs(15);
+
 #[derive(Debug, Default, new)]
 pub struct ConnectionPools {
     config: Arc<Config>,
@@ -92,14 +97,17 @@ impl bb8::ManageConnection for ConnectionManager {
 
     async fn connect(&self) -> Result<Self::Connection, Self::Error> {
         debug!("Connecting to {}", self.addr);
-        let stream = TcpStream::connect(self.addr).await?;
-        let connection = Connection::connect(stream, self.frame_buffer_size).await?;
-        verify(connection).await
+        in_time(async {
+            let stream = TcpStream::connect(self.addr).await?;
+            let connection = Connection::connect(stream, self.frame_buffer_size).await?;
+            verify(connection).await
+        })
+        .await
     }
 
     async fn is_valid(&self, conn: &mut Self::Connection) -> Result<(), Self::Error> {
         debug!("Is valid?");
-        ping(conn).await
+        in_time(ping(conn)).await
     }
 
     fn has_broken(&self, conn: &mut Self::Connection) -> bool {
@@ -108,6 +116,17 @@ impl bb8::ManageConnection for ConnectionManager {
     }
 }
 
+/// Fails when remote does not respond, so that pool can try with another connection.
+async fn in_time<T>(checked: impl Future<Output = ConnectionResult<T>>) -> ConnectionResult<T> {
+    tokio::time::timeout(RESPONSE_TIMEOUT, checked)
+        .await
+        .unwrap_or_else(|_| {
+            Err(ConnectionError::Error(
+                "Remote is not responding".to_owned(),
+            ))
+        })
+}
+
 async fn verify(connection: Connection) -> ConnectionResult<Connection> {
     let mut frame_id = init_handshake(&connection).await?;
     match frame_id.frame().frame_type() {
-- 
2.43.0


From 84070bedbb83dab99c38097651a3880cf3ba2114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:36 +0000
Subject: [PATCH 16/21] fix: do not block on unexpected frames that follow a
 handshake or ping response

---
 src/connection/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/connection/mod.rs b/src/connection/mod.rs
index 17b3935..a790213 100644
--- a/src/connection/mod.rs
+++ b/src/connection/mod.rs
@@ -171,6 +171,8 @@ impl Connection {
         let (mut frame_input, frame_output) = self.new_frames_io().await?;
         frame_output.send(frame).await?;
         let response = frame_input.recv().await;
+        // nothing waits for further frames, they must not wait for being received either
+        drop(frame_input);
         frame_output.close().await;
         response.ok_or_else(|| ConnectionError::Error("Received no response".to_owned()))
     }
-- 
2.43.0


From 0f1fcb00ad0616cab0214dff2890797343af8ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:21 +0000
Subject: [PATCH 17/21] fix: close the connections of a dropped channel that is
 called through its own server

---
 src/channel.rs |  6 ++++--
 src/server.rs  | 16 ++++++++++------
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/channel.rs b/src/channel.rs
index 49eeeb0..1686249 100644
--- a/src/channel.rs
+++ b/src/channel.rs
@@ -7,11 +7,13 @@ use crate::SubChannel;
 use log::debug;
 use std::collections::HashMap;
 use std::ops::Deref;
-use std::sync::{Arc, Mutex};
+use std::sync::{Arc, Mutex, Weak};
 use tokio::sync::RwLock;
 use tokio::task::JoinHandle;
 
 pub(crate) type SharedSubChannels = Arc<RwLock<HashMap<String, Arc<SubChannel>>>>;
+/// Connections of a server do not keep alive channel's own connections (remotes of which might wait for each other).
+pub(crate) type WeakSubChannels = Weak<RwLock<HashMap<String, Arc<SubChannel>>>>;
 // Mutex to be Sync, Cell to get owned type on Drop impl TChannel, Option for lazy initialization.
 type ServerHandle = Mutex<Option<JoinHandle<ConnectionResult<()>>>>;
 
@@ -49,7 +51,7 @@ impl TChannel {
         if handle_lock.is_none() {
             debug!("Starting server"); //TODO lie
             let config = self.config.clone();
-            let subchannels = self.subchannels.clone();
+            let subchannels = Arc::downgrade(&self.subchannels);
             let server_guard = self.server_guard.clone();
             let handle = tokio::spawn(async move {
                 // previous server task stops some time after it was aborted
diff --git a/src/server.rs b/src/server.rs
index a838c13..84c49ee 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -1,4 +1,4 @@
-use crate::channel::{SharedSubChannels, TResult};
+use crate::channel::{TResult, WeakSubChannels};
 use crate::config::Config;
 use crate::connection::{
     ping_response, ConnectionResult, FrameInput, FrameSender, FramesDispatcher,
@@ -34,7 +34,7 @@ const ACCEPT_RETRY_DELAY: Duration = Duration::from_millis(100);
 
 #[derive(Debug)]
 pub struct Server {
-    subchannels: SharedSubChannels,
+    subchannels: WeakSubChannels,
     frame_dispatchers: Arc<FramesDispatcher>,
     buffer_size: usize,
     server_tasks: usize,
@@ -45,7 +45,7 @@ type Request = (CallRequestFields, MessageArgs);
 type TFramedWrite = FramedWrite<OwnedWriteHalf, TFrameIdCodec>;
 
 impl Server {
-    pub fn new(subchannels: SharedSubChannels, buffer_size: usize, server_tasks: usize) -> Server {
+    pub fn new(subchannels: WeakSubChannels, buffer_size: usize, server_tasks: usize) -> Server {
         Server {
             subchannels,
             frame_dispatchers: Arc::new(FramesDispatcher::new(buffer_size)),
@@ -54,7 +54,7 @@ impl Server {
         }
     }
 
-    pub async fn run(config: Arc<Config>, subchannels: SharedSubChannels) -> ConnectionResult<()> {
+    pub async fn run(config: Arc<Config>, subchannels: WeakSubChannels) -> ConnectionResult<()> {
         debug!("Starting server on {}", config.server_address);
         let listener = TcpListener::bind(config.server_address).await?;
         loop {
@@ -199,7 +199,7 @@ impl Server {
 
 #[derive(Debug, new)]
 struct FrameHandler {
-    subchannels: SharedSubChannels,
+    subchannels: WeakSubChannels,
     frame_dispatchers: Arc<FramesDispatcher>,
     sender: Sender<TFrameId>,
 }
@@ -252,7 +252,11 @@ impl FrameHandler {
     }
 
     async fn get_subchannel<STR: AsRef<str>>(&self, service: STR) -> TResult<Arc<SubChannel>> {
-        let subchannels = self.subchannels.read().await;
+        let subchannels = self
+            .subchannels
+            .upgrade()
+            .ok_or_else(|| TChannelError::Error("Channel is closed".to_string()))?;
+        let subchannels = subchannels.read().await;
         subchannels.get(service.as_ref()).cloned().ok_or_else(|| {
             TChannelError::Error(format!("Failed to find subchannel '{}'", service.as_ref()))
         })
-- 
2.43.0


From 7c47d70f1839028f7e1623fb452c377031cdb218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:13 +0000
Subject: [PATCH 18/21] fix: let answers to pings wait for their turn among the
 requests

---
 src/server.rs | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index 84c49ee..6722835 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -98,7 +98,7 @@ impl Server {
             .map_err(TChannelError::CodecError)
             .map_ok(Some)
             .chain(stream::once(future::ok(None))) // end of connection
-            .try_filter_map(|frame| self.dispatch_frame(frame, &handler.sender))
+            .try_filter_map(|frame| self.dispatch_frame(frame))
             // any number of messages may be arriving at once, just the handling of complete ones is limited
             .map_ok(|(id, frames)| handler.read(id, frames))
             .try_buffer_unordered(usize::MAX)
@@ -108,11 +108,11 @@ impl Server {
         //TODO send fatal protocol error when it fails
     }
 
+    /// Returns frames of a call to read, or none of them for a ping.
     async fn dispatch_frame(
         &self,
         frame: Option<TFrameId>,
-        sender: &Sender<TFrameId>,
-    ) -> TResult<Option<(u32, FrameInput)>> {
+    ) -> TResult<Option<(u32, Option<FrameInput>)>> {
         let frame = match frame {
             Some(frame) => frame,
             None => {
@@ -123,8 +123,7 @@ impl Server {
         };
         let id = *frame.id();
         if *frame.frame().frame_type() == Type::PingRequest {
-            sender.send(ping_response(id)).await?;
-            return Ok(None);
+            return Ok(Some((id, None)));
         }
         if *frame.frame().frame_type() != Type::CallRequest {
             // nothing but a call request begins a message, e.g. its remains may follow after an error response
@@ -136,7 +135,7 @@ impl Server {
         self.frame_dispatchers
             .dispatch(frame)
             .await
-            .map(|receiver_option| receiver_option.map(|receiver| (id, receiver)))
+            .map(|receiver_option| receiver_option.map(|receiver| (id, Some(receiver))))
             //TODO Figure out tracing.
             .map_err(|err| {
                 debug!("Err while dispatching frame: {}", err.to_string());
@@ -205,15 +204,27 @@ struct FrameHandler {
 }
 
 impl FrameHandler {
-    pub async fn read(&self, id: u32, frame_input: FrameInput) -> TResult<(u32, TResult<Request>)> {
+    pub async fn read(
+        &self,
+        id: u32,
+        frame_input: Option<FrameInput>,
+    ) -> TResult<(u32, Option<TResult<Request>>)> {
         debug!("Reading message (id {})", &id);
+        let frame_input = match frame_input {
+            Some(frame_input) => frame_input,
+            None => return Ok((id, None)),
+        };
         let request = RequestDefragmenter::new(frame_input).read_request().await;
         self.frame_dispatchers.deregister(&id).await;
-        Ok((id, request))
+        Ok((id, Some(request)))
     }
 
-    pub async fn handle(&self, id: u32, request: TResult<Request>) -> TResult<()> {
+    pub async fn handle(&self, id: u32, request: Option<TResult<Request>>) -> TResult<()> {
         debug!("Handling message (id {})", &id);
+        let request = match request {
+            Some(request) => request,
+            None => return self.send_frames(vec![ping_response(id)]).await,
+        };
         let frames = match self.handle_request(id, request).await {
             Ok(frames) => frames,
             Err(err) => {
-- 
2.43.0


From 5ec87535ce5b946a0e4377bc18aa27b2d7f48048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:54 +0000
Subject: [PATCH 19/21] fix: server connections end once their channel is
 dropped

Requests on connections of a dropped channel were answered with 'Channel is
closed' for as long as the connection lasted, so that clients with a pooled
connection never got to a channel that took over the address.
---
 src/server.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/server.rs b/src/server.rs
index 6722835..33cc124 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -96,6 +96,8 @@ impl Server {
 
         framed_read
             .map_err(TChannelError::CodecError)
+            // nobody is left to serve requests, their callers need a connection to whoever takes over
+            .try_take_while(|_| future::ok(self.subchannels.strong_count() > 0))
             .map_ok(Some)
             .chain(stream::once(future::ok(None))) // end of connection
             .try_filter_map(|frame| self.dispatch_frame(frame))
-- 
2.43.0


From 638184aae3f2e53fe82c5de6229dd0a40798dce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:47 +0000
Subject: [PATCH 20/21] fix: forget the ids of calls that were given up

---
 src/connection/mod.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/connection/mod.rs b/src/connection/mod.rs
index a790213..66275cc 100644
--- a/src/connection/mod.rs
+++ b/src/connection/mod.rs
@@ -15,6 +15,7 @@ use std::sync::atomic::{AtomicBool, AtomicU32, Ordering};
 use std::sync::{Arc, Weak};
 use tokio::net::tcp::{OwnedReadHalf, OwnedWriteHalf};
 use tokio::net::TcpStream;
+use tokio::runtime::Handle;
 use tokio::sync::mpsc;
 use tokio::sync::mpsc::{Receiver, Sender};
 use tokio::sync::Mutex;
@@ -49,6 +50,19 @@ impl FrameOutput {
     }
 }
 
+impl Drop for FrameOutput {
+    /// The message may have been given up before it got closed.
+    fn drop(&mut self) {
+        let id = self.message_id;
+        if let Ok(mut senders) = self.frames_dispatcher.senders.try_write() {
+            senders.remove(&id);
+        } else if let Ok(runtime) = Handle::try_current() {
+            let frames_dispatcher = self.frames_dispatcher.clone();
+            runtime.spawn(async move { frames_dispatcher.deregister(&id).await });
+        }
+    }
+}
+
 /// Pending Message Ids mapped to Senders of frames for given message Id.
 #[derive(Debug, Default, new)]
 pub struct FramesDispatcher {
-- 
2.43.0


From 6ea62e754867e81bca12f6c59477f176e7a960f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:24 +0000
Subject: [PATCH 21/21] fix: cancel requests given up before their last
 fragment

---
 src/connection/mod.rs | 34 ++++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/src/connection/mod.rs b/src/connection/mod.rs
index 66275cc..a514cc0 100644
--- a/src/connection/mod.rs
+++ b/src/connection/mod.rs
@@ -1,5 +1,5 @@
 use crate::errors::ConnectionError;
-use crate::frames::payloads::CodecResult;
+use crate::frames::payloads::{Cancel, Codec, CodecResult, Flags, Tracing};
 use crate::frames::{TFrame, TFrameId, TFrameIdCodec, Type};
 use bytes::Bytes;
 use futures::prelude::*;
@@ -35,24 +35,54 @@ pub struct FrameOutput {
     message_id: u32,
     sender: Arc<Sender<TFrameId>>,
     frames_dispatcher: Arc<FramesDispatcher>,
+    /// Whether the remote waits for further fragments of the message.
+    #[new(default)]
+    incomplete: AtomicBool,
 }
 
 impl FrameOutput {
     pub async fn send(&self, frame: TFrame) -> ConnectionResult<()> {
+        let incomplete = more_fragments_follow(&frame);
         let frame = TFrameId::new(self.message_id, frame);
         trace!("Passing frame {:?} to sender.", frame);
-        Ok(self.sender.send(frame).await?)
+        self.sender.send(frame).await?;
+        self.incomplete.store(incomplete, Ordering::Relaxed);
+        Ok(())
     }
 
     //TODO figure out how to automatically close it? impl Sink? do it on Drop (which is not async)?
     pub async fn close(&self) {
         self.frames_dispatcher.deregister(&self.message_id).await;
     }
+
+    /// Tells the remote that the remaining fragments will not come.
+    fn cancel(&self) {
+        let cancel = Cancel::new(0, Tracing::default(), "Request was given up".to_owned());
+        if let (Ok(payload), Ok(runtime)) = (cancel.encode_bytes(), Handle::try_current()) {
+            let frame = TFrameId::new(self.message_id, TFrame::new(Type::Cancel, payload));
+            let sender = self.sender.clone();
+            runtime.spawn(async move { sender.send(frame).await });
+        }
+    }
+}
+
+fn more_fragments_follow(frame: &TFrame) -> bool {
+    match frame.frame_type() {
+        Type::CallRequest | Type::CallRequestContinue => {
+            frame.payload().first().map_or(false, |flags| {
+                flags & Flags::MORE_FRAGMENTS_FOLLOW.bits() != 0
+            })
+        }
+        _ => false,
+    }
 }
 
 impl Drop for FrameOutput {
     /// The message may have been given up before it got closed.
     fn drop(&mut self) {
+        if self.incomplete.load(Ordering::Relaxed) {
+            self.cancel();
+        }
         let id = self.message_id;
         if let Ok(mut senders) = self.frames_dispatcher.senders.try_write() {
             senders.remove(&id);
-- 
2.43.0

