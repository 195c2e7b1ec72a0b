From 47fce8c51c97ae713fdd81189cd6c7dd0e4b12d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:38 +0000
Subject: [PATCH 01/25] fix: SET replaces the stored value, atomically

The closure given to update returned the new value instead of storing it, so
SET on an existing key answered OK and kept the old value; between the failed
insert and the update the key could also be removed and the SET be lost.
---
 app/roster/src/domain/storage/mod.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/app/roster/src/domain/storage/mod.rs b/app/roster/src/domain/storage/mod.rs
index c02d037..3d28a61 100644
--- a/app/roster/src/domain/storage/mod.rs
+++ b/app/roster/src/domain/storage/mod.rs
@@ -84,11 +84,16 @@ impl StorageSegment {
             dbg!(old);
         }
 
-        if let Err((key, val)) = self.db.insert(key, val) {
-            let old = self.db.update(&key, |_, _| val);
-            Ok(old)
-        } else {
-            Ok(None)
+        // The entry is locked until the value is in place, so that a concurrent
+        // writer or the removal of an expired value can't make us lose it.
+        match self.db.entry(key) {
+            scc::hash_map::Entry::Occupied(mut entry) => {
+                Ok(Some(entry.insert(val)))
+            }
+            scc::hash_map::Entry::Vacant(entry) => {
+                entry.insert_entry(val);
+                Ok(None)
+            }
         }
     }
 
-- 
2.43.0


From 428a69b6097a4754c0fda4e688264d8c4c449f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:08 +0000
Subject: [PATCH 02/25] fix: an error on one connection no longer panics the
 server thread

Any protocol error, reset or failed write ended in panic!, which took the
whole server thread down. Only the connection has to end.
---
 app/roster/src/application/server/server_thread.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/app/roster/src/application/server/server_thread.rs b/app/roster/src/application/server/server_thread.rs
index 4e184d7..23408f1 100644
--- a/app/roster/src/application/server/server_thread.rs
+++ b/app/roster/src/application/server/server_thread.rs
@@ -112,7 +112,6 @@ impl ServerMonoThreadedHandle {
                             dbg!(err.backtrace());
                             dbg!(&err);
                             // error!(?err);
-                            panic!("blbl");
                         }
 
                         meta_conn.stop();
-- 
2.43.0


From 7f7c4ea64abf11803c8f38be099b104ca73d2021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:08 +0000
Subject: [PATCH 03/25] fix: frames read after the answering task ended don't
 panic

---
 app/roster/src/application/server/handle.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/app/roster/src/application/server/handle.rs b/app/roster/src/application/server/handle.rs
index 8a9c78c..0c66dce 100644
--- a/app/roster/src/application/server/handle.rs
+++ b/app/roster/src/application/server/handle.rs
@@ -82,7 +82,10 @@ impl Handler {
                         None => return Ok::<_, anyhow::Error>(()),
                     };
 
-                    tx.send(frame).unwrap();
+                    // Nobody answers anymore, the connection is ending.
+                    if tx.send(frame).is_err() {
+                        return Ok(());
+                    }
                 }
             };
 
-- 
2.43.0


From 175c6f3ac8c63163d587e0538a8dcfe78ce563ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:08 +0000
Subject: [PATCH 04/25] fix: answer the frames already read before a connection
 ends

The handler returned as soon as either task ended, while the other one was
still running: the connection was reported as stopped before its pending
requests were answered.
---
 app/roster/src/application/server/handle.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/app/roster/src/application/server/handle.rs b/app/roster/src/application/server/handle.rs
index 0c66dce..f1be83d 100644
--- a/app/roster/src/application/server/handle.rs
+++ b/app/roster/src/application/server/handle.rs
@@ -173,13 +173,12 @@ impl Handler {
             Ok::<_, anyhow::Error>(())
         });
 
-        monoio::select! {
-            r = accepting_frames_handle => {
-                r
-            }
-            r = answer_in_order_handle => {
-                r
-            }
-        }
+        // Every frame read before the end of the stream is answered, even when
+        // the reading ended first. When the answering ends first, it drops
+        // `shutdown_tx`, which ends the reading.
+        let answered = answer_in_order_handle.await;
+        let read = accepting_frames_handle.await;
+
+        answered.and(read)
     }
 }
-- 
2.43.0


From 5c368183a1e56ce5b8240fcaa6dfe66a50f5bacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:08 +0000
Subject: [PATCH 05/25] fix: a request received in several parts is put
 together

Each read overwrote the buffered start of an incomplete frame, and a frame
larger than the read buffer could never be completed.
---
 app/roster/src/application/server/connection.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/app/roster/src/application/server/connection.rs b/app/roster/src/application/server/connection.rs
index 7341ae6..6f8bec3 100644
--- a/app/roster/src/application/server/connection.rs
+++ b/app/roster/src/application/server/connection.rs
@@ -2,6 +2,7 @@ use std::fmt::Debug;
 use std::io::{self, Cursor};
 
 use bytes::BytesMut;
+use monoio::buf::IoBufMut;
 use monoio::io::{
     AsyncReadRent, BufReader, BufWriter, OwnedReadHalf, OwnedWriteHalf,
     Splitable,
@@ -63,9 +64,16 @@ impl ReadConnection {
             let mut in_going = BytesMut::new();
             std::mem::swap(&mut self.buffer, &mut in_going);
 
+            // Read after the bytes of the incomplete frame we already have.
+            let filled = in_going.len();
+            if in_going.capacity() - filled < 1024 {
+                in_going.reserve(4 * 1024);
+            }
+
             // TODO: Timeout
-            let (size, buf) = self.stream_r.read(in_going).await;
-            self.buffer = buf;
+            let (size, buf) =
+                self.stream_r.read(in_going.slice_mut(filled..)).await;
+            self.buffer = buf.into_inner();
 
             // There is not enough buffered data to read a frame. Attempt to
             // read more data from the socket.
-- 
2.43.0


From e8d1f80928f1480cf03e8c979d40a2652f41d3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:08 +0000
Subject: [PATCH 06/25] fix: replies are written completely and never overflow
 the write buffer

The result of write was ignored although it may be short, which truncated
large replies; and monoio's BufWriter overflows its buffer when a write that
fits into an empty buffer follows smaller unflushed ones.
---
 .../src/application/server/frame/write.rs     | 37 +++++++++++++++++--
 1 file changed, 34 insertions(+), 3 deletions(-)

diff --git a/app/roster/src/application/server/frame/write.rs b/app/roster/src/application/server/frame/write.rs
index 6b869f4..f162c11 100644
--- a/app/roster/src/application/server/frame/write.rs
+++ b/app/roster/src/application/server/frame/write.rs
@@ -1,8 +1,9 @@
 use std::io;
 use std::io::Cursor;
 
-use monoio::buf::IoBuf;
-use monoio::io::AsyncWriteRent;
+use monoio::buf::{IoBuf, IoVecBuf};
+use monoio::io::{AsyncWriteRent, AsyncWriteRentExt};
+use monoio::BufResult;
 
 use crate::application::server::frame::Frame;
 
@@ -84,11 +85,41 @@ async fn write_value(
     Ok(())
 }
 
+/// In-memory writer in which a frame is encoded.
+struct EncodedFrame(Vec<u8>);
+
+impl AsyncWriteRent for EncodedFrame {
+    async fn write<T: IoBuf>(&mut self, buf: T) -> BufResult<usize, T> {
+        let len = buf.bytes_init();
+        // Safety: an `IoBuf` has `bytes_init` readable bytes at `read_ptr`.
+        let slice = unsafe { std::slice::from_raw_parts(buf.read_ptr(), len) };
+        self.0.extend_from_slice(slice);
+        (Ok(len), buf)
+    }
+
+    async fn writev<T: IoVecBuf>(&mut self, buf: T) -> BufResult<usize, T> {
+        (Err(io::ErrorKind::Unsupported.into()), buf)
+    }
+
+    async fn flush(&mut self) -> io::Result<()> {
+        Ok(())
+    }
+
+    async fn shutdown(&mut self) -> io::Result<()> {
+        Ok(())
+    }
+}
+
 pub async fn write_frame(
     buf_w: &mut impl AsyncWriteRent,
     frame: &Frame,
 ) -> io::Result<()> {
-    write_value(buf_w, frame).await?;
+    // The frame is encoded as a whole and handed over in one go: a single
+    // `write` may be short, and the buffered stream only bypasses its buffer
+    // correctly when the buffer is empty.
+    let mut encoded = EncodedFrame(Vec::new());
+    write_value(&mut encoded, frame).await?;
+    buf_w.write_all(encoded.0).await.0?;
     // Ensure the encoded frame is written to the socket. The calls above
     // are to the buffered stream and writes. Calling `flush` writes the
     // remaining contents of the buffer to the socket.
-- 
2.43.0


From ae868c16392e4dbefc9612d94c8a528cf1e25e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:08 +0000
Subject: [PATCH 07/25] fix: a simple string or error that isn't UTF-8 is an
 error, not a panic

---
 app/roster/src/application/server/frame/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/app/roster/src/application/server/frame/mod.rs b/app/roster/src/application/server/frame/mod.rs
index c641924..669a492 100644
--- a/app/roster/src/application/server/frame/mod.rs
+++ b/app/roster/src/application/server/frame/mod.rs
@@ -125,14 +125,18 @@ impl Frame {
             b'+' => {
                 // Read the line and convert it to `Vec<u8>`
                 let line = get_line(src)?;
-                let string = ByteString::try_from(line).unwrap();
+                let string = ByteString::try_from(line).map_err(|_| {
+                    "protocol error; invalid frame format"
+                })?;
 
                 Ok(Frame::Simple(string))
             }
             b'-' => {
                 // Read the line and convert it to `Vec<u8>`
                 let line = get_line(src)?;
-                let string = ByteString::try_from(line).unwrap();
+                let string = ByteString::try_from(line).map_err(|_| {
+                    "protocol error; invalid frame format"
+                })?;
 
                 Ok(Frame::Error(string))
             }
-- 
2.43.0


From 7e2eb3a1cba530f20f11113eef5dae0af66fa9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:13 +0000
Subject: [PATCH 08/25] fix: absurd lengths in a frame neither overflow nor
 allocate

---
 .../src/application/server/frame/mod.rs       | 24 ++++++++++++-------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/app/roster/src/application/server/frame/mod.rs b/app/roster/src/application/server/frame/mod.rs
index 669a492..3dc8da2 100644
--- a/app/roster/src/application/server/frame/mod.rs
+++ b/app/roster/src/application/server/frame/mod.rs
@@ -89,7 +89,10 @@ impl Frame {
                     let len: usize = get_decimal_mut(src)?.try_into()?;
 
                     // skip that number of bytes + 2 (\r\n).
-                    skip_mut(src, len + 2)
+                    let n = len
+                        .checked_add(2)
+                        .ok_or("protocol error; invalid frame format")?;
+                    skip_mut(src, n)
                 }
             }
             b'*' => {
@@ -105,7 +108,8 @@ impl Frame {
                 let len = get_decimal_mut(src)?;
 
                 // Key and value frames
-                for _ in 0..(len * 2) {
+                for _ in 0..len {
+                    Frame::check(src)?;
                     Frame::check(src)?;
                 }
 
@@ -158,7 +162,9 @@ impl Frame {
                 } else {
                     // Read the bulk string
                     let len: usize = get_decimal(src)?.try_into()?;
-                    let n = len + 2;
+                    let n = len
+                        .checked_add(2)
+                        .ok_or("protocol error; invalid frame format")?;
 
                     if src.remaining() < n {
                         return Err(Error::Incomplete);
@@ -175,8 +181,9 @@ impl Frame {
                 }
             }
             b'*' => {
-                let len = get_decimal(src)?.try_into()?;
-                let mut out = Vec::with_capacity(len);
+                let len: usize = get_decimal(src)?.try_into()?;
+                // Each entry takes at least one byte.
+                let mut out = Vec::with_capacity(len.min(src.remaining()));
 
                 for _ in 0..len {
                     out.push(Frame::parse(src)?);
@@ -185,10 +192,11 @@ impl Frame {
                 Ok(Frame::Array(out))
             }
             b'%' => {
-                let len = get_decimal(src)?.try_into()?;
-                let mut out = IndexMap::with_capacity(len);
+                let len: usize = get_decimal(src)?.try_into()?;
+                // Each entry takes at least one byte.
+                let mut out = IndexMap::with_capacity(len.min(src.remaining()));
 
-                for _ in (0..(len * 2)).step_by(2) {
+                for _ in 0..len {
                     let key = Frame::parse(src)?;
                     let value = Frame::parse(src)?;
                     out.insert(key, value);
-- 
2.43.0


From 4807ed6e846b787aee7a1ec01b14ce369e50d6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:13 +0000
Subject: [PATCH 09/25] fix: a map as a map key, or an unknown frame type,
 doesn't panic

---
 app/roster/src/application/server/frame/mod.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/app/roster/src/application/server/frame/mod.rs b/app/roster/src/application/server/frame/mod.rs
index 3dc8da2..9589ab6 100644
--- a/app/roster/src/application/server/frame/mod.rs
+++ b/app/roster/src/application/server/frame/mod.rs
@@ -45,9 +45,10 @@ impl core::hash::Hash for Frame {
             Frame::Array(f0) => {
                 f0.hash(ra_expand_state);
             }
-            Frame::Map(_) => {
-                // TODO: Should test the behavior of redis in this case.
-                unimplemented!("")
+            Frame::Map(f0) => {
+                // The order of the entries is irrelevant for the equality of
+                // two maps, so it must be for their hash.
+                f0.len().hash(ra_expand_state);
             }
         }
     }
@@ -204,7 +205,11 @@ impl Frame {
 
                 Ok(Frame::Map(out))
             }
-            _ => unimplemented!(),
+            actual => Err(format!(
+                "protocol error; invalid frame type byte `{}`",
+                actual
+            )
+            .into()),
         }
     }
 }
-- 
2.43.0


From da5819f04c81e0432d18e51443ddac2b12e0d3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:13 +0000
Subject: [PATCH 10/25] fix: check rejects a null bulk string that isn't "$-1"

Any four bytes after the type were skipped, so that check and parse
disagreed about where the frame ends.
---
 app/roster/src/application/server/frame/mod.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/app/roster/src/application/server/frame/mod.rs b/app/roster/src/application/server/frame/mod.rs
index 9589ab6..b78adfd 100644
--- a/app/roster/src/application/server/frame/mod.rs
+++ b/app/roster/src/application/server/frame/mod.rs
@@ -83,8 +83,15 @@ impl Frame {
             }
             b'$' => {
                 if b'-' == peek_u8_mut(src)? {
-                    // Skip '-1\r\n'
-                    skip_mut(src, 4)
+                    let range = get_line_mut(src)?;
+
+                    if &src.get_ref()[range] != b"-1" {
+                        return Err(
+                            "protocol error; invalid frame format".into()
+                        );
+                    }
+
+                    Ok(())
                 } else {
                     // Read the bulk string
                     let len: usize = get_decimal_mut(src)?.try_into()?;
-- 
2.43.0


From 0ff2c1b94b96e491c95f822275ad36b34a1e3079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:13 +0000
Subject: [PATCH 11/25] fix: a bulk string must be terminated by CRLF

The two bytes after the data were skipped whatever they are, so a request
with a wrong length was executed with a truncated or shifted argument.
---
 app/roster/src/application/server/frame/mod.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/app/roster/src/application/server/frame/mod.rs b/app/roster/src/application/server/frame/mod.rs
index b78adfd..ce1a9c3 100644
--- a/app/roster/src/application/server/frame/mod.rs
+++ b/app/roster/src/application/server/frame/mod.rs
@@ -100,7 +100,16 @@ impl Frame {
                     let n = len
                         .checked_add(2)
                         .ok_or("protocol error; invalid frame format")?;
-                    skip_mut(src, n)
+                    skip_mut(src, n)?;
+
+                    let end = src.position() as usize;
+                    if &src.get_ref()[end - 2..end] != b"\r\n" {
+                        return Err(
+                            "protocol error; invalid frame format".into()
+                        );
+                    }
+
+                    Ok(())
                 }
             }
             b'*' => {
-- 
2.43.0


From 92f1cfc646793f1c09adc7e0f2e70ec515ab4891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:13 +0000
Subject: [PATCH 12/25] fix: deeply nested frames don't overflow the stack

---
 .../src/application/server/frame/mod.rs       | 37 ++++++++++++++++---
 1 file changed, 31 insertions(+), 6 deletions(-)

diff --git a/app/roster/src/application/server/frame/mod.rs b/app/roster/src/application/server/frame/mod.rs
index ce1a9c3..7802954 100644
--- a/app/roster/src/application/server/frame/mod.rs
+++ b/app/roster/src/application/server/frame/mod.rs
@@ -65,9 +65,23 @@ pub enum Error {
     Other(#[from] anyhow::Error),
 }
 
+/// How deep arrays and maps can be nested in a frame.
+const MAX_DEPTH: usize = 128;
+
 impl Frame {
     /// Checks if an entire message can be decoded from `src`
     pub fn check(src: &mut Cursor<&BytesMut>) -> Result<(), Error> {
+        Frame::check_nested(src, 0)
+    }
+
+    fn check_nested(
+        src: &mut Cursor<&BytesMut>,
+        depth: usize,
+    ) -> Result<(), Error> {
+        if depth > MAX_DEPTH {
+            return Err("protocol error; frames nested too deeply".into());
+        }
+
         match get_u8_mut(src)? {
             b'+' => {
                 get_line_mut_no_return(src)?;
@@ -116,7 +130,7 @@ impl Frame {
                 let len = get_decimal_mut(src)?;
 
                 for _ in 0..len {
-                    Frame::check(src)?;
+                    Frame::check_nested(src, depth + 1)?;
                 }
 
                 Ok(())
@@ -126,8 +140,8 @@ impl Frame {
 
                 // Key and value frames
                 for _ in 0..len {
-                    Frame::check(src)?;
-                    Frame::check(src)?;
+                    Frame::check_nested(src, depth + 1)?;
+                    Frame::check_nested(src, depth + 1)?;
                 }
 
                 Ok(())
@@ -142,6 +156,17 @@ impl Frame {
 
     /// The message has already been validated with `check`.
     pub fn parse(src: &mut Cursor<Bytes>) -> Result<Frame, Error> {
+        Frame::parse_nested(src, 0)
+    }
+
+    fn parse_nested(
+        src: &mut Cursor<Bytes>,
+        depth: usize,
+    ) -> Result<Frame, Error> {
+        if depth > MAX_DEPTH {
+            return Err("protocol error; frames nested too deeply".into());
+        }
+
         match get_u8(src)? {
             b'+' => {
                 // Read the line and convert it to `Vec<u8>`
@@ -203,7 +228,7 @@ impl Frame {
                 let mut out = Vec::with_capacity(len.min(src.remaining()));
 
                 for _ in 0..len {
-                    out.push(Frame::parse(src)?);
+                    out.push(Frame::parse_nested(src, depth + 1)?);
                 }
 
                 Ok(Frame::Array(out))
@@ -214,8 +239,8 @@ impl Frame {
                 let mut out = IndexMap::with_capacity(len.min(src.remaining()));
 
                 for _ in 0..len {
-                    let key = Frame::parse(src)?;
-                    let value = Frame::parse(src)?;
+                    let key = Frame::parse_nested(src, depth + 1)?;
+                    let value = Frame::parse_nested(src, depth + 1)?;
                     out.insert(key, value);
                 }
 
-- 
2.43.0


From b517751847570e4dc48b1b68d33b515fb25821a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:13 +0000
Subject: [PATCH 13/25] fix: ACL CAT answers an error instead of panicking

---
 app/roster/src/application/server/cmd/acl/cat.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/app/roster/src/application/server/cmd/acl/cat.rs b/app/roster/src/application/server/cmd/acl/cat.rs
index b989834..f9b21b2 100644
--- a/app/roster/src/application/server/cmd/acl/cat.rs
+++ b/app/roster/src/application/server/cmd/acl/cat.rs
@@ -3,6 +3,7 @@ use bytestring::ByteString;
 use super::super::parse::Parse;
 use crate::application::server::connection::WriteConnection;
 use crate::application::server::context::Context;
+use crate::application::server::frame::Frame;
 
 /// The command shows the available ACL categories if called without arguments.
 /// If a category name is given, the command shows all the Redis commands in the
@@ -54,15 +55,13 @@ impl AclCat {
     /// to execute a received command.
     pub(crate) async fn apply(
         self,
-        _dst: &mut WriteConnection,
+        dst: &mut WriteConnection,
         _ctx: Context,
     ) -> anyhow::Result<()> {
-        unimplemented!()
-
-        /*
-        let response = Frame::Simple(ByteString::from_static("OK"));
+        // TODO: There are no ACL categories yet.
+        let response =
+            Frame::Error(ByteString::from_static("ERR ACL CAT isn't supported"));
         dst.write_frame(&response).await?;
         Ok(())
-        */
     }
 }
-- 
2.43.0


From 7e962b1bd6c756afcff26bbed5ee55b654b4a23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:13 +0000
Subject: [PATCH 14/25] fix: line breaks in an unknown command name don't break
 the reply

---
 app/roster/src/application/server/cmd/unknown.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/app/roster/src/application/server/cmd/unknown.rs b/app/roster/src/application/server/cmd/unknown.rs
index b9e0dc8..225785a 100644
--- a/app/roster/src/application/server/cmd/unknown.rs
+++ b/app/roster/src/application/server/cmd/unknown.rs
@@ -28,9 +28,10 @@ impl CommandExecution for Unknown {
         dst: &mut WriteConnection,
         _ctx: Context,
     ) -> anyhow::Result<()> {
+        // The reply is a single line.
         let response = Frame::Error(ByteString::from(format!(
             "ERR unknown command '{}'",
-            self.command_name
+            self.command_name.replace(['\r', '\n'], " ")
         )));
 
         info!(?response);
-- 
2.43.0


From 7d7c3b5f191178d5e893da8accb2b30b35fad7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:13 +0000
Subject: [PATCH 15/25] fix: CLIENT SETNAME refuses names with spaces or
 special characters

They break the lines of CLIENT LIST and CLIENT INFO, and with line breaks the
replies themselves.
---
 .../src/application/server/cmd/client/set_name.rs  | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/app/roster/src/application/server/cmd/client/set_name.rs b/app/roster/src/application/server/cmd/client/set_name.rs
index 5f1929d..1f30de3 100644
--- a/app/roster/src/application/server/cmd/client/set_name.rs
+++ b/app/roster/src/application/server/cmd/client/set_name.rs
@@ -52,9 +52,17 @@ impl ClientSetName {
         dst: &mut WriteConnection,
         ctx: Context,
     ) -> anyhow::Result<()> {
-        ctx.connection.set_name(self.name).await;
-
-        let response = Frame::Simple(ByteString::from_static("OK"));
+        // Spaces, line breaks and other special characters would violate the
+        // format of the CLIENT LIST reply.
+        let response = if self.name.bytes().all(|b| b.is_ascii_graphic()) {
+            ctx.connection.set_name(self.name).await;
+            Frame::Simple(ByteString::from_static("OK"))
+        } else {
+            Frame::Error(ByteString::from_static(
+                "ERR Client names cannot contain spaces, newlines or special \
+                 characters.",
+            ))
+        };
         dst.write_frame(&response).await?;
 
         Ok(())
-- 
2.43.0


From 1e57ff8d87e21b5b19704853a4f6e22bc49f1fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:13 +0000
Subject: [PATCH 16/25] fix: CLIENT SETNAME with an empty string removes the
 name

---
 app/roster/src/application/server/supervisor/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/app/roster/src/application/server/supervisor/mod.rs b/app/roster/src/application/server/supervisor/mod.rs
index c5f59fe..588284d 100644
--- a/app/roster/src/application/server/supervisor/mod.rs
+++ b/app/roster/src/application/server/supervisor/mod.rs
@@ -117,7 +117,8 @@ impl MetadataConnection {
     /// Set the name of the connection
     pub async fn set_name(&self, name: ByteString) {
         let mut lock = self.name.write().await;
-        *lock = Some(name);
+        // The empty string removes the name.
+        *lock = (!name.is_empty()).then_some(name);
     }
 
     /// Set the name of the connection
-- 
2.43.0


From a284b20402dd0cec9a1154d1c857941e07f14a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:13 +0000
Subject: [PATCH 17/25] fix: SET refuses a zero or unrepresentable expire time

Large times to live wrapped around, so that the key expired at once or never.
---
 app/roster/src/application/server/cmd/set.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/app/roster/src/application/server/cmd/set.rs b/app/roster/src/application/server/cmd/set.rs
index 51f1e8c..4a0d2b3 100644
--- a/app/roster/src/application/server/cmd/set.rs
+++ b/app/roster/src/application/server/cmd/set.rs
@@ -52,6 +52,16 @@ pub struct Set {
     expire: Option<Duration>,
 }
 
+/// The expire time must be positive, and the clock counts the seconds in 32
+/// bits.
+fn valid_expire(expire: Duration) -> anyhow::Result<Duration> {
+    if expire.is_zero() || expire.as_secs() > i32::MAX as u64 {
+        return Err(anyhow::anyhow!("invalid expire time in `SET`"));
+    }
+
+    Ok(expire)
+}
+
 static OK_STR: ByteString = ByteString::from_static("OK");
 
 impl Set {
@@ -94,13 +104,13 @@ impl Set {
                 // An expiration is specified in seconds. The next value is an
                 // integer.
                 let secs = parse.next_int()?;
-                expire = Some(Duration::from_secs(secs));
+                expire = Some(valid_expire(Duration::from_secs(secs))?);
             }
             Ok(s) if s.to_uppercase() == "PX" => {
                 // An expiration is specified in milliseconds. The next value is
                 // an integer.
                 let ms = parse.next_int()?;
-                expire = Some(Duration::from_millis(ms));
+                expire = Some(valid_expire(Duration::from_millis(ms))?);
             }
             // Currently, roster does not support any of the other SET
             // options. An error here results in the connection being
-- 
2.43.0


From 6c8723a7baf353c0d6a624a0fc73655eedd89959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:13 +0000
Subject: [PATCH 18/25] fix: a failing accept doesn't take the server thread
 down

---
 .../src/application/server/server_thread.rs   | 25 ++++++++++++++-----
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/app/roster/src/application/server/server_thread.rs b/app/roster/src/application/server/server_thread.rs
index 23408f1..cb96c99 100644
--- a/app/roster/src/application/server/server_thread.rs
+++ b/app/roster/src/application/server/server_thread.rs
@@ -1,6 +1,7 @@
 use std::os::fd::AsRawFd;
 use std::rc::Rc;
 use std::thread::JoinHandle;
+use std::time::Duration;
 
 use monoio::net::{ListenerConfig, TcpListener};
 
@@ -80,19 +81,31 @@ impl ServerMonoThreadedHandle {
                     let shard = shard.clone();
 
                     // We accept the TCP Connection
-                    let (conn, addr) = listener
-                        .accept()
-                        .await
-                        .expect("Unable to accept connections");
+                    let (conn, addr) = match listener.accept().await {
+                        Ok(accepted) => accepted,
+                        Err(err) => {
+                            // The peer may be gone already, or we may be out
+                            // of descriptors or memory for now.
+                            dbg!(&err);
+                            monoio::time::sleep(Duration::from_millis(10))
+                                .await;
+                            continue;
+                        }
+                    };
 
-                    let laddr = conn.local_addr()?;
+                    // It fails when the connection is already gone.
+                    let Ok(laddr) = conn.local_addr() else {
+                        continue;
+                    };
                     let fd = conn.as_raw_fd();
 
                     let meta_conn =
                         self.supervisor.assign_new_connection(addr, laddr, fd);
                     let supervisor = self.supervisor.clone();
 
-                    conn.set_nodelay(true).unwrap();
+                    // It fails when the connection is already gone, which
+                    // the handler will notice.
+                    let _ = conn.set_nodelay(true);
                     let ctx =
                         Context::new(storage, supervisor, meta_conn.clone());
 
-- 
2.43.0


From a321e462185c7c31a6a5cb5e027198d1133ec083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:13 +0000
Subject: [PATCH 19/25] fix: ROSTER_BIND_ADDR and ROSTER_MAX_CONNECTION
 override the file

With _ as the separator of nested keys, ROSTER_BIND_ADDR was read as the key
bind.addr and had no effect.
---
 app/roster/src/infrastructure/config/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/app/roster/src/infrastructure/config/mod.rs b/app/roster/src/infrastructure/config/mod.rs
index c9e3af1..346eef3 100644
--- a/app/roster/src/infrastructure/config/mod.rs
+++ b/app/roster/src/infrastructure/config/mod.rs
@@ -27,7 +27,8 @@ impl Cfg {
             .add_source(
                 config::Environment::with_prefix("ROSTER")
                     .try_parsing(false)
-                    .separator("_"),
+                    .prefix_separator("_")
+                    .separator("__"),
             )
             .build()?;
 
-- 
2.43.0


From ea72be08d9ee82a2cddffe08175f7ac6a270c644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:33 +0000
Subject: [PATCH 20/25] fix: no more connections than the configured limit are
 served at once

---
 app/roster/src/application/server/mod.rs      |  2 +-
 .../src/application/server/server_thread.rs   | 39 +++++++++++++++++++
 2 files changed, 40 insertions(+), 1 deletion(-)

diff --git a/app/roster/src/application/server/mod.rs b/app/roster/src/application/server/mod.rs
index 8ee156f..184c4ca 100644
--- a/app/roster/src/application/server/mod.rs
+++ b/app/roster/src/application/server/mod.rs
@@ -27,7 +27,7 @@ use crate::infrastructure::hash::HASH_SLOT_MAX;
 #[builder(pattern = "owned", setter(into, strip_option))]
 pub struct ServerConfig {
     bind_addr: SocketAddr,
-    #[allow(dead_code)]
+    /// How many more connections can be served.
     connections_limit: Arc<AtomicU16>,
 }
 
diff --git a/app/roster/src/application/server/server_thread.rs b/app/roster/src/application/server/server_thread.rs
index cb96c99..dbe700f 100644
--- a/app/roster/src/application/server/server_thread.rs
+++ b/app/roster/src/application/server/server_thread.rs
@@ -1,5 +1,7 @@
 use std::os::fd::AsRawFd;
 use std::rc::Rc;
+use std::sync::atomic::{AtomicU16, Ordering};
+use std::sync::Arc;
 use std::thread::JoinHandle;
 use std::time::Duration;
 
@@ -35,6 +37,28 @@ pub struct ServerMonoThreadedHandle {
     supervisor: Supervisor,
 }
 
+/// One of the connections which can be served at the same time, given back when
+/// dropped.
+struct ConnectionSlot(Arc<AtomicU16>);
+
+impl ConnectionSlot {
+    /// Take one of the remaining slots, if there is any.
+    fn take(remaining: &Arc<AtomicU16>) -> Option<Self> {
+        remaining
+            .fetch_update(Ordering::AcqRel, Ordering::Acquire, |n| {
+                n.checked_sub(1)
+            })
+            .ok()
+            .map(|_| Self(remaining.clone()))
+    }
+}
+
+impl Drop for ConnectionSlot {
+    fn drop(&mut self) {
+        self.0.fetch_add(1, Ordering::AcqRel);
+    }
+}
+
 impl ServerMonoThreadedHandle {
     /// Start a new server thread on the cpu_core
     pub fn new(
@@ -93,6 +117,20 @@ impl ServerMonoThreadedHandle {
                         }
                     };
 
+                    // When the limit is reached, we wait until an active
+                    // connection terminates.
+                    let slot = loop {
+                        match ConnectionSlot::take(
+                            &self.config.connections_limit,
+                        ) {
+                            Some(slot) => break slot,
+                            None => {
+                                monoio::time::sleep(Duration::from_millis(10))
+                                    .await
+                            }
+                        }
+                    };
+
                     // It fails when the connection is already gone.
                     let Ok(laddr) = conn.local_addr() else {
                         continue;
@@ -128,6 +166,7 @@ impl ServerMonoThreadedHandle {
                         }
 
                         meta_conn.stop();
+                        drop(slot);
                         // handler.connection.stop().await.unwrap();
                     });
                 }
-- 
2.43.0


From e45412d958a0e45c6df6cdfef8ac44a4bee2f9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:42 +0000
Subject: [PATCH 21/25] fix: CLIENT LIST lists a connection once while the
 table grows

---
 app/roster/src/application/server/supervisor/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/app/roster/src/application/server/supervisor/mod.rs b/app/roster/src/application/server/supervisor/mod.rs
index 588284d..c705b0f 100644
--- a/app/roster/src/application/server/supervisor/mod.rs
+++ b/app/roster/src/application/server/supervisor/mod.rs
@@ -79,6 +79,10 @@ impl Supervisor {
             })
             .await;
 
+        // A connection is met more than once when the table grows meanwhile.
+        result.sort_unstable_by_key(|conn| conn.id);
+        result.dedup_by_key(|conn| conn.id);
+
         result
     }
 }
-- 
2.43.0


From fd264f123ade95bb771afbf276082677ddeab070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:42 +0000
Subject: [PATCH 22/25] fix: an ended connection is forgotten by the supervisor

---
 app/roster/src/application/server/server_thread.rs  | 3 ++-
 app/roster/src/application/server/supervisor/mod.rs | 6 ++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/app/roster/src/application/server/server_thread.rs b/app/roster/src/application/server/server_thread.rs
index dbe700f..1ef2fb9 100644
--- a/app/roster/src/application/server/server_thread.rs
+++ b/app/roster/src/application/server/server_thread.rs
@@ -140,6 +140,7 @@ impl ServerMonoThreadedHandle {
                     let meta_conn =
                         self.supervisor.assign_new_connection(addr, laddr, fd);
                     let supervisor = self.supervisor.clone();
+                    let connections = self.supervisor.clone();
 
                     // It fails when the connection is already gone, which
                     // the handler will notice.
@@ -165,7 +166,7 @@ impl ServerMonoThreadedHandle {
                             // error!(?err);
                         }
 
-                        meta_conn.stop();
+                        connections.remove_connection(&meta_conn).await;
                         drop(slot);
                         // handler.connection.stop().await.unwrap();
                     });
diff --git a/app/roster/src/application/server/supervisor/mod.rs b/app/roster/src/application/server/supervisor/mod.rs
index c705b0f..2c4ccb5 100644
--- a/app/roster/src/application/server/supervisor/mod.rs
+++ b/app/roster/src/application/server/supervisor/mod.rs
@@ -64,6 +64,12 @@ impl Supervisor {
         conn
     }
 
+    /// Stop a connection which ended and forget about it.
+    pub async fn remove_connection(&self, conn: &MetadataConnection) {
+        conn.stop();
+        self.current_connections.remove_async(&conn.id).await;
+    }
+
     /// Get the list of [MetadataConnection] for normal connection.
     pub async fn get_normal_connection(&self) -> Vec<Arc<MetadataConnection>> {
         let mut result = Vec::new();
-- 
2.43.0


From 554badd7b9bd9cf0023222f2e7d4cbf9e605d171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:01 +0000
Subject: [PATCH 23/25] fix: serve on cpus other than the first ones

A thread binds itself to the cpu of its number, which fails, and ended the
whole server, when the cpus allowed to the process (by a cpuset) are others.
---
 app/roster/src/application/server/server_thread.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/app/roster/src/application/server/server_thread.rs b/app/roster/src/application/server/server_thread.rs
index 1ef2fb9..e800cb5 100644
--- a/app/roster/src/application/server/server_thread.rs
+++ b/app/roster/src/application/server/server_thread.rs
@@ -82,7 +82,11 @@ impl ServerMonoThreadedHandle {
 
     pub fn initialize(self) -> JoinHandle<()> {
         std::thread::spawn(move || {
-            monoio::utils::bind_to_cpu_set(Some(self.cpu)).unwrap();
+            // The cpus we may use are not always the first ones, within a
+            // cpuset for instance, then we run on any of them.
+            if let Err(err) = monoio::utils::bind_to_cpu_set(Some(self.cpu)) {
+                dbg!(&err);
+            }
 
             let mut rt = monoio::RuntimeBuilder::<Driver>::new()
                 .with_entries(1024)
-- 
2.43.0


From c13775300495e27bd421ee48ff73bdcea1a06dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:59 +0000
Subject: [PATCH 24/25] fix: list only the clients asked for

CLIENT LIST took its TYPE and ID filters and listed every client anyway.
---
 .../src/application/server/cmd/client/list.rs      | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/app/roster/src/application/server/cmd/client/list.rs b/app/roster/src/application/server/cmd/client/list.rs
index 3623e0e..c47a230 100644
--- a/app/roster/src/application/server/cmd/client/list.rs
+++ b/app/roster/src/application/server/cmd/client/list.rs
@@ -18,9 +18,7 @@ use crate::application::server::frame::Frame;
 /// client-id arguments.
 #[derive(Debug, Default)]
 pub struct ClientList {
-    #[allow(dead_code)]
     r#type: ClientType,
-    #[allow(dead_code)]
     ids: Option<Vec<u64>>,
 }
 
@@ -101,7 +99,17 @@ impl ClientList {
         dst: &mut WriteConnection,
         ctx: Context,
     ) -> anyhow::Result<()> {
-        let connections = ctx.supervisor.get_normal_connection().await;
+        // There are only normal connections for now.
+        let mut connections = match self.r#type {
+            ClientType::Normal => ctx.supervisor.get_normal_connection().await,
+            ClientType::Replica | ClientType::Master | ClientType::Pubsub => {
+                Vec::new()
+            }
+        };
+
+        if let Some(ids) = self.ids.filter(|ids| !ids.is_empty()) {
+            connections.retain(|conn| ids.contains(&conn.id));
+        }
 
         // TODO(@miaxos): lot of things missing here
         let mut conn_frames = Vec::with_capacity(connections.len());
-- 
2.43.0


From c234f90d5ecbe59f0e176e9ef14431f919479824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:21 +0000
Subject: [PATCH 25/25] fix: hash maps by their entries

---
 app/roster/src/application/server/frame/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/app/roster/src/application/server/frame/mod.rs b/app/roster/src/application/server/frame/mod.rs
index 7802954..3299770 100644
--- a/app/roster/src/application/server/frame/mod.rs
+++ b/app/roster/src/application/server/frame/mod.rs
@@ -48,7 +48,13 @@ impl core::hash::Hash for Frame {
             Frame::Map(f0) => {
                 // The order of the entries is irrelevant for the equality of
                 // two maps, so it must be for their hash.
+                let entries = f0.iter().fold(0u64, |sum, entry| {
+                    let mut hasher = std::hash::DefaultHasher::new();
+                    entry.hash(&mut hasher);
+                    sum.wrapping_add(core::hash::Hasher::finish(&hasher))
+                });
                 f0.len().hash(ra_expand_state);
+                entries.hash(ra_expand_state);
             }
         }
     }
-- 
2.43.0

