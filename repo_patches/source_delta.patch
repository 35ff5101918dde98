From 5b8b1efa51ba75009bbdb9449a85a89058a1496b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:14 +0000
Subject: [PATCH 01/16] fix: reject a final packet positioned before a packet
 already held

A group holding a packet beyond the position of a late final packet passed
the completeness check by count alone and was decoded with missing data.
---
 src/core/transport/wire/input/decoder.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/transport/wire/input/decoder.rs b/src/core/transport/wire/input/decoder.rs
index 9807414..0c1c0d2 100644
--- a/src/core/transport/wire/input/decoder.rs
+++ b/src/core/transport/wire/input/decoder.rs
@@ -100,6 +100,12 @@ impl Decoder {
             return Err(DecoderError::PacketBeyondLastIndex { id, index });
         }
 
+        // Check if we are trying to add a final packet when we already have
+        // a packet beyond it
+        if is_final && group.packets.keys().any(|i| *i > index) {
+            return Err(DecoderError::PacketBeyondLastIndex { id, index });
+        }
+
         // Add the packet to our group and, if it's final, mark it
         group.packets.insert(index, packet);
         if is_final {
-- 
2.43.0


From b883bbc33283895a480d5a3cc7c9e4d534d58d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:14 +0000
Subject: [PATCH 02/16] fix: do not overflow when the final packet has the
 largest index

A final packet with index u32::MAX made the completeness check overflow,
which panics in debug builds and wraps in release builds.
---
 src/core/transport/wire/input/decoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/transport/wire/input/decoder.rs b/src/core/transport/wire/input/decoder.rs
index 0c1c0d2..0008a56 100644
--- a/src/core/transport/wire/input/decoder.rs
+++ b/src/core/transport/wire/input/decoder.rs
@@ -131,8 +131,8 @@ impl Decoder {
         self.packet_groups
             .get(&group_id.into())
             .and_then(|g| {
-                let total_packets = g.packets.len() as u32;
-                g.final_index.map(|i| i + 1 == total_packets)
+                let total_packets = g.packets.len() as u64;
+                g.final_index.map(|i| u64::from(i) + 1 == total_packets)
             })
             .unwrap_or_default()
     }
-- 
2.43.0


From 456a26afe268528e1219735267fe21321cceacf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:21 +0000
Subject: [PATCH 03/16] fix: use the nonce of the final packet when packets
 arrive out of order

The nonce was taken from whichever packet completed the group, so encrypted
messages whose final packet was not the last to arrive could not be decrypted.
---
 src/core/transport/wire/input/decoder.rs | 13 ++++++++++++-
 src/core/transport/wire/input/mod.rs     |  5 ++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/core/transport/wire/input/decoder.rs b/src/core/transport/wire/input/decoder.rs
index 0008a56..f675a68 100644
--- a/src/core/transport/wire/input/decoder.rs
+++ b/src/core/transport/wire/input/decoder.rs
@@ -1,4 +1,6 @@
-use crate::core::transport::{constants, wire::packet::Packet};
+use crate::core::transport::{
+    constants, crypto::Nonce, wire::packet::Packet,
+};
 use crate::utils::TtlValue;
 use derive_more::{Display, Error};
 use std::collections::HashMap;
@@ -137,6 +139,15 @@ impl Decoder {
             .unwrap_or_default()
     }
 
+    /// Retrieves the nonce carried by the final packet of a group, if the
+    /// final packet has been received and it has one
+    pub fn nonce(&self, group_id: u32) -> Option<Nonce> {
+        self.packet_groups
+            .get(&group_id.into())
+            .and_then(|g| g.final_index.and_then(|i| g.packets.get(&i)))
+            .and_then(|p| p.nonce().cloned())
+    }
+
     /// Reconstructs the data represented by the packets
     /// NOTE: This currently produces a copy of all data instead of passing
     ///       back out ownership
diff --git a/src/core/transport/wire/input/mod.rs b/src/core/transport/wire/input/mod.rs
index 3d53473..1352af6 100644
--- a/src/core/transport/wire/input/mod.rs
+++ b/src/core/transport/wire/input/mod.rs
@@ -59,7 +59,6 @@ where
         }
 
         let group_id = p.id();
-        let nonce = p.nonce().cloned();
 
         // Ensure that packet groups are still valid
         self.decoder.remove_expired();
@@ -67,6 +66,10 @@ where
         // Add the packet, see if we are ready to decode the data, and do so
         let do_decode = add_packet_and_verify(&mut self.decoder, p)?;
         if do_decode {
+            // The nonce is only available in the final packet, which is not
+            // necessarily the packet that completed the group
+            let nonce = self.decoder.nonce(group_id);
+
             // Gather the complete data
             let data = decode_and_decrypt(
                 group_id,
-- 
2.43.0


From be7e391800780fe4bc21e64e1f6002221b86f14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:40 +0000
Subject: [PATCH 04/16] fix: send an empty message as a single, empty final
 packet

An empty payload produced no packets at all, so the receiving side never
learned of the message.
---
 src/core/transport/wire/output/encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/transport/wire/output/encoder.rs b/src/core/transport/wire/output/encoder.rs
index 5bd8d70..1646bc4 100644
--- a/src/core/transport/wire/output/encoder.rs
+++ b/src/core/transport/wire/output/encoder.rs
@@ -82,7 +82,7 @@ impl Encoder {
         // collective using the chunks
         let mut packets = Vec::new();
         let mut i = 0;
-        while i < data.len() {
+        while i < data.len() || packets.is_empty() {
             // Chunk length is determined by this logic:
             // 1. If we have room in the final packet for the remaining data,
             //    store it in the final packet
-- 
2.43.0


From e2032372e33f6f666df219974446112faea2e97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:48 +0000
Subject: [PATCH 05/16] fix: never emit a packet larger than the maximum packet
 size

The estimate of a packet's size uses the signature of fake data, but the
serialized size of a signature depends on its content, so real packets could
exceed the limit by several bytes.
---
 src/core/transport/wire/output/encoder.rs | 52 +++++++++++++++--------
 1 file changed, 35 insertions(+), 17 deletions(-)

diff --git a/src/core/transport/wire/output/encoder.rs b/src/core/transport/wire/output/encoder.rs
index 1646bc4..6df549b 100644
--- a/src/core/transport/wire/output/encoder.rs
+++ b/src/core/transport/wire/output/encoder.rs
@@ -107,24 +107,42 @@ impl Encoder {
             };
 
             // Ensure data section size does not exceed our remaining data
-            let data_size = std::cmp::min(data_size, remaining_data_size);
-
-            // Grab our chunk of data to store into a packet
-            let chunk = &data[i..i + data_size];
+            let mut data_size = std::cmp::min(data_size, remaining_data_size);
+
+            // The size of a serialized signature depends on its content, which
+            // means that our estimate can be too low; if so, we use less data
+            let packet = loop {
+                // Grab our chunk of data to store into a packet
+                let chunk = &data[i..i + data_size];
+
+                // Construct the packet based on whether or not is final
+                let packet = Self::make_new_packet(
+                    id,
+                    packets.len() as u32,
+                    if data_size == remaining_data_size {
+                        PacketType::Final { encryption }
+                    } else {
+                        PacketType::NotFinal
+                    },
+                    chunk,
+                    signer,
+                )
+                .map_err(|_| EncoderError::FailedToSignPacket)?;
+
+                let packet_size = packet
+                    .to_vec()
+                    .map_err(|_| EncoderError::FailedToEstimateDataSize)?
+                    .len();
+                if packet_size <= max_packet_size {
+                    break packet;
+                }
 
-            // Construct the packet based on whether or not is final
-            let packet = Self::make_new_packet(
-                id,
-                packets.len() as u32,
-                if can_fit_all_in_final_packet {
-                    PacketType::Final { encryption }
-                } else {
-                    PacketType::NotFinal
-                },
-                chunk,
-                signer,
-            )
-            .map_err(|_| EncoderError::FailedToSignPacket)?;
+                let overflow_size = packet_size - max_packet_size;
+                if overflow_size >= data_size {
+                    return Err(EncoderError::MaxPacketSizeTooSmall);
+                }
+                data_size -= overflow_size;
+            };
 
             // Store packet in our collection
             packets.push(packet);
-- 
2.43.0


From 77684643559e1619e62e2e44539b5a10b556333a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:52 +0000
Subject: [PATCH 06/16] fix: check and register a nonce atomically

Two threads could both pass the check for the same nonce before either of
them registered it.
---
 src/core/transport/crypto/nonce/cache.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/core/transport/crypto/nonce/cache.rs b/src/core/transport/crypto/nonce/cache.rs
index 0b542f0..9ed94bb 100644
--- a/src/core/transport/crypto/nonce/cache.rs
+++ b/src/core/transport/crypto/nonce/cache.rs
@@ -34,12 +34,16 @@ impl<T: Bicrypter> NonceCacheBicrypter<T> {
     ) -> Result<&'a [u8], CryptError> {
         if let Some(cache) = &self.cache {
             let nonce_vec = nonce.to_vec();
-            if cache.read().unwrap().contains(&nonce_vec) {
+
+            // Hold the lock for both the check and the update so that the
+            // same nonce cannot be registered twice concurrently
+            let mut cache = cache.write().unwrap();
+            if cache.contains(&nonce_vec) {
                 return Err(CryptError::NonceAlreadyUsed { nonce: nonce_vec });
             }
 
             // Mark that we have used the nonce
-            cache.write().unwrap().put(nonce_vec, ());
+            cache.put(nonce_vec, ());
         }
 
         Ok(nonce)
-- 
2.43.0


From e342e42f4cc7ecdc3f16d1c3b2fefa11da915138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:44 +0000
Subject: [PATCH 07/16] fix: close a file once it has been removed through its
 handle

The removed file stayed open in the file manager without a time-to-live, so it
was never reclaimed and opening the path again yielded the deleted file.
---
 src/core/server/action/handler/fs.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/core/server/action/handler/fs.rs b/src/core/server/action/handler/fs.rs
index dc5746d..ca04a00 100644
--- a/src/core/server/action/handler/fs.rs
+++ b/src/core/server/action/handler/fs.rs
@@ -150,13 +150,18 @@ pub async fn remove_file(
     debug!("handler::remove_file: {:?}", args);
     state.touch_file_id(args.id).await;
 
-    match state.fs_manager.lock().await.get_mut(args.id) {
+    let mut fs_manager = state.fs_manager.lock().await;
+    match fs_manager.get_mut(args.id) {
         Some(local_file) => match local_file.remove(args.sig).await {
             Ok(_) => {
+                // The file no longer exists, so it must not be left open
+                let handle = local_file.handle();
+                fs_manager.close_file(handle).map_err(FileIoError::Io)?;
+
                 state.remove_file_id(args.id).await;
                 Ok(FileRemovedArgs {
                     id: args.id,
-                    sig: local_file.sig(),
+                    sig: handle.sig,
                 })
             }
             Err(LocalFileError::SigMismatch) => Err(FileIoError::SigMismatch {
-- 
2.43.0


From d64d6df07cdf7552a673027722421c23963d8c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:48 +0000
Subject: [PATCH 08/16] fix: keep the resolved path of an open file when
 renaming it

A relative or otherwise unresolved destination was stored as is, so the open
file was no longer found by its path and could be opened a second time, or
renamed and removed by path while open.
---
 src/core/server/fs/file.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/server/fs/file.rs b/src/core/server/fs/file.rs
index ee2b38c..f10fd5b 100644
--- a/src/core/server/fs/file.rs
+++ b/src/core/server/fs/file.rs
@@ -145,7 +145,9 @@ impl LocalFile {
         // Update signature to reflect the change and update our internal
         // path so that we can continue to do renames/removals properly
         self.sig = OsRng.next_u32();
-        self.path = to.as_ref().to_path_buf();
+        self.path = fs::canonicalize(to.as_ref())
+            .await
+            .unwrap_or_else(|_| to.as_ref().to_path_buf());
 
         Ok(self.sig)
     }
-- 
2.43.0


From 3daee65f81accd4a19b6c55c78af883108724763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:22 +0000
Subject: [PATCH 09/16] fix: report a process as successful only if it exited
 successfully

The success flag reflected whether waiting for the process worked rather than
whether the process itself succeeded.
---
 src/core/server/proc.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/server/proc.rs b/src/core/server/proc.rs
index e39472b..72bc8e4 100644
--- a/src/core/server/proc.rs
+++ b/src/core/server/proc.rs
@@ -71,7 +71,10 @@ impl LocalProc {
                 if let Some(status) = exit_status {
                     self.exit_status = Some(ExitStatus {
                         id: self.id,
-                        is_success: status.is_ok(),
+                        is_success: status
+                            .as_ref()
+                            .map(|s| s.success())
+                            .unwrap_or(false),
                         exit_code: status.ok().and_then(|s| s.code()),
                     });
                 }
-- 
2.43.0


From 25f7464b6fdf473a57b5f5bc88c226923e0e12a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:28 +0000
Subject: [PATCH 10/16] fix: report an ignored operation of a sequence or batch
 as an error

---
 src/core/server/action/mod.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/core/server/action/mod.rs b/src/core/server/action/mod.rs
index cf3b43d..39495c7 100644
--- a/src/core/server/action/mod.rs
+++ b/src/core/server/action/mod.rs
@@ -319,14 +319,14 @@ fn route_and_execute(
                     for op in args.operations.drain(..) {
                         results.push(
                             match try_transform_request(op, results.last()) {
-                                Ok(req) => {
+                                Ok(req) => nested_reply(
                                     route_and_execute(
                                         Arc::clone(&state),
                                         req,
                                         max_depth - 1,
                                     )
-                                    .await
-                                }
+                                    .await,
+                                ),
                                 Err(x) => Reply::Error(ReplyError::from(
                                     format!("{}", x),
                                 )),
@@ -350,7 +350,7 @@ fn route_and_execute(
                         .await
                         .drain(..)
                         .map(|r| {
-                            r.unwrap_or_else(|x| {
+                            r.map(nested_reply).unwrap_or_else(|x| {
                                 Reply::Error(From::from(format!("{}", x)))
                             })
                         })
@@ -377,6 +377,18 @@ fn route_and_execute(
     .boxed()
 }
 
+/// Converts the reply to an operation within a sequence or batch into one
+/// that can be reported as part of the overall reply
+///
+/// An operation that is ignored has no reply of its own, and ignore cannot be
+/// serialized, so reporting it as-is would lose the reply to all operations
+fn nested_reply(reply: Reply) -> Reply {
+    match reply {
+        Reply::Ignore => Reply::Error(ReplyError::from("Operation ignored")),
+        x => x,
+    }
+}
+
 #[derive(Debug, Display, Error)]
 enum SequenceError {
     Abort,
-- 
2.43.0


From 52815d45caed9a8b8f0ccaaf3013cca394fae234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:29 +0000
Subject: [PATCH 11/16] fix: report a changed file signature as such to the
 caller

---
 src/core/client/connected.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/client/connected.rs b/src/core/client/connected.rs
index 739eb03..7cd9b2c 100644
--- a/src/core/client/connected.rs
+++ b/src/core/client/connected.rs
@@ -622,6 +622,9 @@ fn make_file_ask_error(x: Reply) -> FileAskError {
         Reply::Error(ReplyError::Io(args)) => {
             FileAskError::IoError(args.into())
         }
+        Reply::Error(ReplyError::FileSigChanged(args)) => {
+            FileAskError::FileSignatureChanged { id: args.id }
+        }
         x => From::from(make_ask_error(x)),
     }
 }
-- 
2.43.0


From ff9c93a91f9f9eb5d76110d942c4f5f245ee32f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:55 +0000
Subject: [PATCH 12/16] fix: search only the bytes read so far for a delimiter

---
 src/utils/delimiter.rs | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/src/utils/delimiter.rs b/src/utils/delimiter.rs
index 83bdb48..43e830d 100644
--- a/src/utils/delimiter.rs
+++ b/src/utils/delimiter.rs
@@ -5,7 +5,6 @@ pub const DEFAULT_DELIMITER: &[u8] = b"</>";
 
 #[derive(Clone, Copy)]
 struct PreReadResult {
-    buf_len: usize,
     delimiter_len: usize,
 }
 
@@ -73,17 +72,14 @@ impl DelimiterReader {
         // delimiter size and try again; this creates a sliding window where
         // we keep the max data size specified at all times
         if self.buf_pos > (buf_len - delimiter_len) {
-            let (pd_pos, pdelimiter_len) = self.find_partial_delimiter();
+            let (_, pdelimiter_len) = self.find_partial_delimiter();
             let shift_len = delimiter_len - pdelimiter_len;
             self.buf.rotate_left(shift_len);
             self.buf_filled -= shift_len;
-            self.buf_pos = pd_pos - shift_len;
+            self.buf_pos = buf_len - delimiter_len;
         };
 
-        PreReadResult {
-            buf_len,
-            delimiter_len,
-        }
+        PreReadResult { delimiter_len }
     }
 
     /// Performs update to buffer based on read bytes, copying data to external
@@ -94,10 +90,7 @@ impl DelimiterReader {
         bytes_read: Option<&usize>,
         preread_result: PreReadResult,
     ) -> usize {
-        let PreReadResult {
-            buf_len,
-            delimiter_len,
-        } = preread_result;
+        let PreReadResult { delimiter_len } = preread_result;
 
         // Mark where we will start reading and then update the filled count
         if let Some(bytes_read) = bytes_read {
@@ -106,8 +99,9 @@ impl DelimiterReader {
 
         // Scan for the delimiter starting from the last place searched
         let mut size = 0;
-        if self.buf_filled > 0 {
-            for i in self.buf_pos..=(buf_len - delimiter_len) {
+        if self.buf_filled >= delimiter_len {
+            // NOTE: Only what has been read so far can hold a delimiter
+            for i in self.buf_pos..=(self.buf_filled - delimiter_len) {
                 // If we have a match, we want to copy the contents (minus the delimiter) to the
                 // provided buffer, shift over any remaining data, and reset our buf filled count
                 if self.buf[i..i + delimiter_len] == self.delimiter[..] {
-- 
2.43.0


From fabeaef5a334c331160ae841e699646be3ff0196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:32 +0000
Subject: [PATCH 13/16] fix: end the receive loop of a TCP stream its other
 side has closed

---
 src/core/transport/wire/tcp.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/core/transport/wire/tcp.rs b/src/core/transport/wire/tcp.rs
index a6c2355..87dc797 100644
--- a/src/core/transport/wire/tcp.rs
+++ b/src/core/transport/wire/tcp.rs
@@ -115,6 +115,14 @@ where
             .read(&mut buf)
             .await
             .map_err(InboundWireError::IO)?;
+
+        // The remote side has closed the stream, nothing more will arrive
+        if size == 0 {
+            return Err(InboundWireError::IO(io::Error::from(
+                io::ErrorKind::UnexpectedEof,
+            )));
+        }
+
         let data = self.inbound_wire.process(&buf[..size])?;
 
         Ok((data, self.remote_addr))
-- 
2.43.0


From 78b17cd625183949874121efe16228c6dddbba93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:30 +0000
Subject: [PATCH 14/16] fix: touch an opened file before its eviction can
 intervene

---
 src/core/server/action/handler/fs.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/core/server/action/handler/fs.rs b/src/core/server/action/handler/fs.rs
index ca04a00..b72f09e 100644
--- a/src/core/server/action/handler/fs.rs
+++ b/src/core/server/action/handler/fs.rs
@@ -40,10 +40,11 @@ pub async fn open_file(
 ) -> Result<FileOpenedArgs, io::Error> {
     debug!("handler::open_file: {:?}", args);
 
-    let handle = state
-        .fs_manager
-        .lock()
-        .await
+    // NOTE: Hold onto the manager until the id has been touched, otherwise a
+    //       file already open whose lifetime has passed could be evicted
+    //       before its handle is returned
+    let mut fs_manager = state.fs_manager.lock().await;
+    let handle = fs_manager
         .open_file(
             &args.path,
             args.create_if_missing,
@@ -53,6 +54,7 @@ pub async fn open_file(
         .await?;
 
     state.touch_file_id(handle.id).await;
+    drop(fs_manager);
 
     Ok(FileOpenedArgs {
         id: handle.id,
-- 
2.43.0


From 03a3a1d594609d35ed54d50b872f83f1c97aaba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:53 +0000
Subject: [PATCH 15/16] fix: keep the address of a forward request or reply
 readable within a message

A message's content is untagged, so it is buffered and then treated as human
readable, while the address was written in its binary form: a message with a
forward anywhere in it, e.g. as one operation of a batch, could not be decoded
and was discarded as a whole.
---
 src/core/msg/content/reply/forward.rs   |  4 ++++
 src/core/msg/content/request/forward.rs |  4 ++++
 src/utils/serializers/mod.rs            |  1 +
 src/utils/serializers/socket_addr.rs    | 29 +++++++++++++++++++++++++
 4 files changed, 38 insertions(+)
 create mode 100644 src/utils/serializers/socket_addr.rs

diff --git a/src/core/msg/content/reply/forward.rs b/src/core/msg/content/reply/forward.rs
index 1dd4bc3..a51d8f2 100644
--- a/src/core/msg/content/reply/forward.rs
+++ b/src/core/msg/content/reply/forward.rs
@@ -5,6 +5,10 @@ use std::net::SocketAddr;
 
 #[derive(JsonSchema, Serialize, Deserialize, Clone, Debug, PartialEq, Eq)]
 pub struct ForwardArgs {
+    #[serde(
+        serialize_with = "crate::utils::serializers::socket_addr::serialize",
+        deserialize_with = "crate::utils::serializers::socket_addr::deserialize"
+    )]
     pub address: SocketAddr,
     pub reply: Box<Reply>,
 }
diff --git a/src/core/msg/content/request/forward.rs b/src/core/msg/content/request/forward.rs
index 2619c01..ee8463c 100644
--- a/src/core/msg/content/request/forward.rs
+++ b/src/core/msg/content/request/forward.rs
@@ -5,6 +5,10 @@ use std::net::SocketAddr;
 
 #[derive(JsonSchema, Serialize, Deserialize, Clone, Debug, PartialEq, Eq)]
 pub struct ForwardArgs {
+    #[serde(
+        serialize_with = "crate::utils::serializers::socket_addr::serialize",
+        deserialize_with = "crate::utils::serializers::socket_addr::deserialize"
+    )]
     pub address: SocketAddr,
     pub request: Box<Request>,
 }
diff --git a/src/utils/serializers/mod.rs b/src/utils/serializers/mod.rs
index 4c6c21f..e8f1a3f 100644
--- a/src/utils/serializers/mod.rs
+++ b/src/utils/serializers/mod.rs
@@ -1,2 +1,3 @@
 pub mod error_kind;
 pub mod io_error;
+pub mod socket_addr;
diff --git a/src/utils/serializers/socket_addr.rs b/src/utils/serializers/socket_addr.rs
new file mode 100644
index 0000000..ea29a0b
--- /dev/null
+++ b/src/utils/serializers/socket_addr.rs
@@ -0,0 +1,29 @@
+use serde::{de::Error, Deserialize, Deserializer, Serializer};
+use std::net::SocketAddr;
+
+/// Serializes an address as text, regardless of the format
+///
+/// An address has a different, binary form in formats that are not human
+/// readable, which does not survive being part of untagged content as the
+/// content is buffered and then always treated as human readable
+pub fn serialize<S>(
+    addr: &SocketAddr,
+    serializer: S,
+) -> std::result::Result<S::Ok, S::Error>
+where
+    S: Serializer,
+{
+    serializer.collect_str(addr)
+}
+
+/// Deserializes an address from text
+pub fn deserialize<'de, D>(
+    deserializer: D,
+) -> std::result::Result<SocketAddr, D::Error>
+where
+    D: Deserializer<'de>,
+{
+    String::deserialize(deserializer)?
+        .parse()
+        .map_err(D::Error::custom)
+}
-- 
2.43.0


From f63f78e6c4fea3795a2affd946ff780567d9bc2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:14 +0000
Subject: [PATCH 16/16] fix: keep sending to others after a datagram could not
 be sent

---
 src/core/event/udp.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/core/event/udp.rs b/src/core/event/udp.rs
index fab8228..5126757 100644
--- a/src/core/event/udp.rs
+++ b/src/core/event/udp.rs
@@ -93,7 +93,6 @@ async fn udp_socket_outbound_loop<S, E>(
     while let Some((msg, addr)) = rx.recv().await {
         if let Err(x) = writer.write_to(&msg, addr).await {
             error!("Failed to send: {}", x);
-            break;
         }
     }
 }
-- 
2.43.0

