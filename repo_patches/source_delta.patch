From 68ce44c64fe1ff592941f8495dfa158a22a0cef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:59 +0000
Subject: [PATCH 01/21] fix: an error on one connection must not take the
 server down

The connection task panicked on every error returned by its handler (protocol
error, unsupported argument, peer reset, truncated frame). With panic=abort
(dev and release profiles) that aborts the whole server, so any client could
stop it. Only the faulty connection is terminated now.
---
 app/roster/src/application/server/server_thread.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/app/roster/src/application/server/server_thread.rs b/app/roster/src/application/server/server_thread.rs
index 4e184d7..b83a58f 100644
--- a/app/roster/src/application/server/server_thread.rs
+++ b/app/roster/src/application/server/server_thread.rs
@@ -108,11 +108,12 @@ impl ServerMonoThreadedHandle {
                             shard,
                         };
 
+                        // An error terminates this connection only, it should
+                        // not impact any other connected client.
                         if let Err(err) = handler.run(ctx).await {
                             dbg!(err.backtrace());
                             dbg!(&err);
                             // error!(?err);
-                            panic!("blbl");
                         }
 
                         meta_conn.stop();
-- 
2.43.0


From 2a662f1d4799dfdaac0e4a454e85fe8dda5fbb13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:59 +0000
Subject: [PATCH 02/21] fix: do not panic when a frame arrives after its
 connection failed

The reading task unwrapped the send to the answering task. A frame received
after the answering task had stopped on an error panicked the reading task.
---
 app/roster/src/application/server/handle.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/app/roster/src/application/server/handle.rs b/app/roster/src/application/server/handle.rs
index 8a9c78c..1045192 100644
--- a/app/roster/src/application/server/handle.rs
+++ b/app/roster/src/application/server/handle.rs
@@ -82,7 +82,11 @@ impl Handler {
                         None => return Ok::<_, anyhow::Error>(()),
                     };
 
-                    tx.send(frame).unwrap();
+                    // The task answering the frames stops on the first error,
+                    // there is nobody left to read for.
+                    if tx.send(frame).is_err() {
+                        return Ok(());
+                    }
                 }
             };
 
-- 
2.43.0


From 54c0be0bbcc2b00f7b4afc67a2bb8bfe8bd32bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:59 +0000
Subject: [PATCH 03/21] fix: keep the beginning of a frame when reading its
 remainder

The read was given the whole buffer, so the bytes of a frame received in
several reads overwrote each other (monoio writes at the start of the buffer),
and a frame filling the buffer was seen as an end of stream. Every command
split across TCP segments, or larger than 4KB, was lost. Read after the bytes
already buffered and make room when there is none.
---
 app/roster/src/application/server/connection.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/app/roster/src/application/server/connection.rs b/app/roster/src/application/server/connection.rs
index 7341ae6..bb48161 100644
--- a/app/roster/src/application/server/connection.rs
+++ b/app/roster/src/application/server/connection.rs
@@ -2,6 +2,7 @@ use std::fmt::Debug;
 use std::io::{self, Cursor};
 
 use bytes::BytesMut;
+use monoio::buf::IoBufMut;
 use monoio::io::{
     AsyncReadRent, BufReader, BufWriter, OwnedReadHalf, OwnedWriteHalf,
     Splitable,
@@ -63,9 +64,17 @@ impl ReadConnection {
             let mut in_going = BytesMut::new();
             std::mem::swap(&mut self.buffer, &mut in_going);
 
+            // The buffer may already hold the beginning of a frame: we read
+            // after it, and we need some room to do so.
+            let filled = in_going.len();
+            if in_going.capacity() == filled {
+                in_going.reserve(4 * 1024);
+            }
+
             // TODO: Timeout
-            let (size, buf) = self.stream_r.read(in_going).await;
-            self.buffer = buf;
+            let (size, buf) =
+                self.stream_r.read(in_going.slice_mut(filled..)).await;
+            self.buffer = buf.into_inner();
 
             // There is not enough buffered data to read a frame. Attempt to
             // read more data from the socket.
-- 
2.43.0


From 9b067a8dc27d321ea59f49d078a35045c223cfb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:31 +0000
Subject: [PATCH 04/21] fix: write a reply as a whole, whatever its size

BufWriter doesn't check the room left in its buffer and a write on the socket
can be partial: a reply between 8 KiB - 4 and 8 KiB corrupted the heap and a big
reply to a slow reader was truncated.
---
 .../src/application/server/frame/write.rs     | 38 +++++++++++++++++--
 1 file changed, 35 insertions(+), 3 deletions(-)

diff --git a/app/roster/src/application/server/frame/write.rs b/app/roster/src/application/server/frame/write.rs
index 6b869f4..fa2e3f5 100644
--- a/app/roster/src/application/server/frame/write.rs
+++ b/app/roster/src/application/server/frame/write.rs
@@ -1,8 +1,9 @@
 use std::io;
 use std::io::Cursor;
 
-use monoio::buf::IoBuf;
-use monoio::io::AsyncWriteRent;
+use monoio::buf::{IoBuf, IoVecBuf};
+use monoio::io::{AsyncWriteRent, AsyncWriteRentExt};
+use monoio::BufResult;
 
 use crate::application::server::frame::Frame;
 
@@ -84,11 +85,42 @@ async fn write_value(
     Ok(())
 }
 
+/// Where a whole frame is encoded before it is handed to the stream.
+///
+/// A write on the stream can be partial, and [monoio::io::BufWriter] doesn't
+/// check the room left in its buffer when it gathers several writes, so the
+/// parts of a frame can't be written one by one.
+struct EncodedFrame(Vec<u8>);
+
+impl AsyncWriteRent for EncodedFrame {
+    async fn write<T: IoBuf>(&mut self, buf: T) -> BufResult<usize, T> {
+        let len = buf.bytes_init();
+        // SAFETY: `IoBuf` guarantees `bytes_init` initialized bytes.
+        let bytes = unsafe { std::slice::from_raw_parts(buf.read_ptr(), len) };
+        self.0.extend_from_slice(bytes);
+        (Ok(len), buf)
+    }
+
+    async fn writev<T: IoVecBuf>(&mut self, buf_vec: T) -> BufResult<usize, T> {
+        (Err(io::ErrorKind::Unsupported.into()), buf_vec)
+    }
+
+    async fn flush(&mut self) -> io::Result<()> {
+        Ok(())
+    }
+
+    async fn shutdown(&mut self) -> io::Result<()> {
+        Ok(())
+    }
+}
+
 pub async fn write_frame(
     buf_w: &mut impl AsyncWriteRent,
     frame: &Frame,
 ) -> io::Result<()> {
-    write_value(buf_w, frame).await?;
+    let mut encoded = EncodedFrame(Vec::new());
+    write_value(&mut encoded, frame).await?;
+    buf_w.write_all(encoded.0).await.0?;
     // Ensure the encoded frame is written to the socket. The calls above
     // are to the buffered stream and writes. Calling `flush` writes the
     // remaining contents of the buffer to the socket.
-- 
2.43.0


From 96867d0f9fdfdff29518eee562f340f1fb260a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:07 +0000
Subject: [PATCH 05/21] fix: never lose a SET racing with the expiration of the
 previous value

---
 app/roster/src/domain/storage/mod.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/app/roster/src/domain/storage/mod.rs b/app/roster/src/domain/storage/mod.rs
index c02d037..781611b 100644
--- a/app/roster/src/domain/storage/mod.rs
+++ b/app/roster/src/domain/storage/mod.rs
@@ -84,11 +84,16 @@ impl StorageSegment {
             dbg!(old);
         }
 
-        if let Err((key, val)) = self.db.insert(key, val) {
-            let old = self.db.update(&key, |_, _| val);
-            Ok(old)
-        } else {
-            Ok(None)
+        // The entry is locked: a concurrent removal of the previous value, when
+        // it expired, can't happen in the middle of the update.
+        match self.db.entry(key) {
+            scc::hash_map::Entry::Occupied(mut oqp) => {
+                Ok(Some(oqp.insert(val)))
+            }
+            scc::hash_map::Entry::Vacant(vac) => {
+                vac.insert_entry(val);
+                Ok(None)
+            }
         }
     }
 
-- 
2.43.0


From 7d93d774d6b1f10b581e132d25e246736cc333a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:07 +0000
Subject: [PATCH 06/21] fix: ACL CAT must not take the server down

---
 app/roster/src/application/server/cmd/acl/cat.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/app/roster/src/application/server/cmd/acl/cat.rs b/app/roster/src/application/server/cmd/acl/cat.rs
index b989834..3eb78cf 100644
--- a/app/roster/src/application/server/cmd/acl/cat.rs
+++ b/app/roster/src/application/server/cmd/acl/cat.rs
@@ -3,6 +3,7 @@ use bytestring::ByteString;
 use super::super::parse::Parse;
 use crate::application::server::connection::WriteConnection;
 use crate::application::server::context::Context;
+use crate::application::server::frame::Frame;
 
 /// The command shows the available ACL categories if called without arguments.
 /// If a category name is given, the command shows all the Redis commands in the
@@ -54,15 +55,14 @@ impl AclCat {
     /// to execute a received command.
     pub(crate) async fn apply(
         self,
-        _dst: &mut WriteConnection,
+        dst: &mut WriteConnection,
         _ctx: Context,
     ) -> anyhow::Result<()> {
-        unimplemented!()
-
-        /*
-        let response = Frame::Simple(ByteString::from_static("OK"));
+        // TODO: Not implemented yet, it shouldn't take the server down.
+        let response = Frame::Error(ByteString::from_static(
+            "ERR 'ACL CAT' is not implemented",
+        ));
         dst.write_frame(&response).await?;
         Ok(())
-        */
     }
 }
-- 
2.43.0


From b6315482dc5288e45381c5a2878e17fcad2ea3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:54 +0000
Subject: [PATCH 07/21] fix: refuse simple strings which are not UTF-8 instead
 of panicking

---
 app/roster/src/application/server/frame/mod.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/app/roster/src/application/server/frame/mod.rs b/app/roster/src/application/server/frame/mod.rs
index c641924..e30ce1b 100644
--- a/app/roster/src/application/server/frame/mod.rs
+++ b/app/roster/src/application/server/frame/mod.rs
@@ -4,6 +4,7 @@
 use std::convert::TryInto;
 use std::io::Cursor;
 use std::num::TryFromIntError;
+use std::str::Utf8Error;
 use std::string::FromUtf8Error;
 
 use bytes::{Buf, Bytes, BytesMut};
@@ -125,14 +126,14 @@ impl Frame {
             b'+' => {
                 // Read the line and convert it to `Vec<u8>`
                 let line = get_line(src)?;
-                let string = ByteString::try_from(line).unwrap();
+                let string = ByteString::try_from(line)?;
 
                 Ok(Frame::Simple(string))
             }
             b'-' => {
                 // Read the line and convert it to `Vec<u8>`
                 let line = get_line(src)?;
-                let string = ByteString::try_from(line).unwrap();
+                let string = ByteString::try_from(line)?;
 
                 Ok(Frame::Error(string))
             }
@@ -349,6 +350,12 @@ impl From<FromUtf8Error> for Error {
     }
 }
 
+impl From<Utf8Error> for Error {
+    fn from(_src: Utf8Error) -> Error {
+        "protocol error; invalid frame format".into()
+    }
+}
+
 impl From<TryFromIntError> for Error {
     fn from(_src: TryFromIntError) -> Error {
         "protocol error; invalid frame format".into()
-- 
2.43.0


From d884c7ee7c6293c89a8e39c13f6bbf3f66dba3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:54 +0000
Subject: [PATCH 08/21] fix: a map can be the key of a map without panicking

---
 app/roster/src/application/server/frame/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/app/roster/src/application/server/frame/mod.rs b/app/roster/src/application/server/frame/mod.rs
index e30ce1b..06a55ba 100644
--- a/app/roster/src/application/server/frame/mod.rs
+++ b/app/roster/src/application/server/frame/mod.rs
@@ -46,9 +46,12 @@ impl core::hash::Hash for Frame {
             Frame::Array(f0) => {
                 f0.hash(ra_expand_state);
             }
-            Frame::Map(_) => {
+            Frame::Map(f0) => {
                 // TODO: Should test the behavior of redis in this case.
-                unimplemented!("")
+                //
+                // Two equal maps may not have the same ordering, so we can't
+                // hash the entries in order.
+                f0.len().hash(ra_expand_state);
             }
         }
     }
-- 
2.43.0


From d1be1edddac5a4d36065242edda87a03451196b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:54 +0000
Subject: [PATCH 09/21] fix: refuse the lengths which overflow instead of
 panicking

---
 app/roster/src/application/server/frame/mod.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/app/roster/src/application/server/frame/mod.rs b/app/roster/src/application/server/frame/mod.rs
index 06a55ba..3034641 100644
--- a/app/roster/src/application/server/frame/mod.rs
+++ b/app/roster/src/application/server/frame/mod.rs
@@ -68,6 +68,8 @@ pub enum Error {
     Other(#[from] anyhow::Error),
 }
 
+const INVALID_LEN: &str = "protocol error; invalid length";
+
 impl Frame {
     /// Checks if an entire message can be decoded from `src`
     pub fn check(src: &mut Cursor<&BytesMut>) -> Result<(), Error> {
@@ -93,7 +95,7 @@ impl Frame {
                     let len: usize = get_decimal_mut(src)?.try_into()?;
 
                     // skip that number of bytes + 2 (\r\n).
-                    skip_mut(src, len + 2)
+                    skip_mut(src, len.checked_add(2).ok_or(INVALID_LEN)?)
                 }
             }
             b'*' => {
@@ -109,7 +111,7 @@ impl Frame {
                 let len = get_decimal_mut(src)?;
 
                 // Key and value frames
-                for _ in 0..(len * 2) {
+                for _ in 0..len.checked_mul(2).ok_or(INVALID_LEN)? {
                     Frame::check(src)?;
                 }
 
@@ -158,7 +160,7 @@ impl Frame {
                 } else {
                     // Read the bulk string
                     let len: usize = get_decimal(src)?.try_into()?;
-                    let n = len + 2;
+                    let n = len.checked_add(2).ok_or(INVALID_LEN)?;
 
                     if src.remaining() < n {
                         return Err(Error::Incomplete);
-- 
2.43.0


From 7f636256e9f8cc75d95790ae7f497a14c6ce95be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:54 +0000
Subject: [PATCH 10/21] fix: bound the nesting of frames, it overflowed the
 stack

---
 app/roster/src/application/server/frame/mod.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/app/roster/src/application/server/frame/mod.rs b/app/roster/src/application/server/frame/mod.rs
index 3034641..47fe58f 100644
--- a/app/roster/src/application/server/frame/mod.rs
+++ b/app/roster/src/application/server/frame/mod.rs
@@ -68,11 +68,25 @@ pub enum Error {
     Other(#[from] anyhow::Error),
 }
 
+/// How deep frames can be nested, as they are checked & parsed recursively.
+const MAX_DEPTH: usize = 32;
+
 const INVALID_LEN: &str = "protocol error; invalid length";
 
 impl Frame {
     /// Checks if an entire message can be decoded from `src`
     pub fn check(src: &mut Cursor<&BytesMut>) -> Result<(), Error> {
+        Frame::check_nested(src, MAX_DEPTH)
+    }
+
+    fn check_nested(
+        src: &mut Cursor<&BytesMut>,
+        depth: usize,
+    ) -> Result<(), Error> {
+        if depth == 0 {
+            return Err("protocol error; too many nested frames".into());
+        }
+
         match get_u8_mut(src)? {
             b'+' => {
                 get_line_mut_no_return(src)?;
@@ -102,7 +116,7 @@ impl Frame {
                 let len = get_decimal_mut(src)?;
 
                 for _ in 0..len {
-                    Frame::check(src)?;
+                    Frame::check_nested(src, depth - 1)?;
                 }
 
                 Ok(())
@@ -112,7 +126,7 @@ impl Frame {
 
                 // Key and value frames
                 for _ in 0..len.checked_mul(2).ok_or(INVALID_LEN)? {
-                    Frame::check(src)?;
+                    Frame::check_nested(src, depth - 1)?;
                 }
 
                 Ok(())
-- 
2.43.0


From a11646a0ca12c29dafb3f718c1bca93711fd7a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:54 +0000
Subject: [PATCH 11/21] fix: the name of an unknown command can't inject
 replies

---
 app/roster/src/application/server/cmd/unknown.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/app/roster/src/application/server/cmd/unknown.rs b/app/roster/src/application/server/cmd/unknown.rs
index b9e0dc8..89e16f3 100644
--- a/app/roster/src/application/server/cmd/unknown.rs
+++ b/app/roster/src/application/server/cmd/unknown.rs
@@ -30,7 +30,8 @@ impl CommandExecution for Unknown {
     ) -> anyhow::Result<()> {
         let response = Frame::Error(ByteString::from(format!(
             "ERR unknown command '{}'",
-            self.command_name
+            // An error is a single line, the name can't add other ones.
+            self.command_name.replace(['\r', '\n'], " ")
         )));
 
         info!(?response);
-- 
2.43.0


From 13ddc5f412a2611cf5785f8a0708e4b420d06598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:54 +0000
Subject: [PATCH 12/21] fix: refuse the client names which break the CLIENT
 LIST format

---
 .../src/application/server/cmd/client/set_name.rs    | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/app/roster/src/application/server/cmd/client/set_name.rs b/app/roster/src/application/server/cmd/client/set_name.rs
index 5f1929d..bb6c884 100644
--- a/app/roster/src/application/server/cmd/client/set_name.rs
+++ b/app/roster/src/application/server/cmd/client/set_name.rs
@@ -52,9 +52,15 @@ impl ClientSetName {
         dst: &mut WriteConnection,
         ctx: Context,
     ) -> anyhow::Result<()> {
-        ctx.connection.set_name(self.name).await;
-
-        let response = Frame::Simple(ByteString::from_static("OK"));
+        let response = if self.name.bytes().all(|c| c.is_ascii_graphic()) {
+            ctx.connection.set_name(self.name).await;
+            Frame::Simple(ByteString::from_static("OK"))
+        } else {
+            Frame::Error(ByteString::from_static(
+                "ERR Client names cannot contain spaces, newlines or special \
+                 characters.",
+            ))
+        };
         dst.write_frame(&response).await?;
 
         Ok(())
-- 
2.43.0


From a97341da93e3df12b4ae77d99bde92a4e8cd19a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:54 +0000
Subject: [PATCH 13/21] fix: an empty client name removes the name of the
 connection

---
 app/roster/src/application/server/supervisor/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/app/roster/src/application/server/supervisor/mod.rs b/app/roster/src/application/server/supervisor/mod.rs
index c5f59fe..d9816c6 100644
--- a/app/roster/src/application/server/supervisor/mod.rs
+++ b/app/roster/src/application/server/supervisor/mod.rs
@@ -114,10 +114,10 @@ impl MetadataConnection {
             .store(true, std::sync::atomic::Ordering::Relaxed);
     }
 
-    /// Set the name of the connection
+    /// Set the name of the connection, the empty string removes it.
     pub async fn set_name(&self, name: ByteString) {
         let mut lock = self.name.write().await;
-        *lock = Some(name);
+        *lock = Some(name).filter(|name| !name.is_empty());
     }
 
     /// Set the name of the connection
-- 
2.43.0


From bfe7a4a123042e8fd2a67c519adafc9efa616771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:54 +0000
Subject: [PATCH 14/21] fix: an expiration far in the future must not overflow

---
 app/roster/src/application/server/cmd/set.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/app/roster/src/application/server/cmd/set.rs b/app/roster/src/application/server/cmd/set.rs
index 51f1e8c..2fc6b40 100644
--- a/app/roster/src/application/server/cmd/set.rs
+++ b/app/roster/src/application/server/cmd/set.rs
@@ -52,6 +52,10 @@ pub struct Set {
     expire: Option<Duration>,
 }
 
+/// An [Instant](coarsetime::Instant) holds its seconds on 32 bits: past this
+/// limit (~68 years), an expiration is considered to never be reached.
+const EXPIRE_MAX_SECS: u64 = i32::MAX as u64;
+
 static OK_STR: ByteString = ByteString::from_static("OK");
 
 impl Set {
@@ -124,7 +128,10 @@ impl CommandExecution for Set {
         dst: &mut WriteConnection,
         ctx: Context,
     ) -> anyhow::Result<()> {
-        let expired = self.expire.map(|dur| ctx.now() + dur.into());
+        let expired = self
+            .expire
+            .filter(|dur| dur.as_secs() <= EXPIRE_MAX_SECS)
+            .map(|dur| ctx.now() + dur.into());
 
         // let now = Instant::now();
         let response = match ctx.storage.set_async(
-- 
2.43.0


From f364db5a0a354796af12cd789d611faf420b1232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:30 +0000
Subject: [PATCH 15/21] fix: apply the filters of CLIENT LIST

---
 .../src/application/server/cmd/client/list.rs      | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/app/roster/src/application/server/cmd/client/list.rs b/app/roster/src/application/server/cmd/client/list.rs
index 3623e0e..aaa40dc 100644
--- a/app/roster/src/application/server/cmd/client/list.rs
+++ b/app/roster/src/application/server/cmd/client/list.rs
@@ -18,9 +18,7 @@ use crate::application::server::frame::Frame;
 /// client-id arguments.
 #[derive(Debug, Default)]
 pub struct ClientList {
-    #[allow(dead_code)]
     r#type: ClientType,
-    #[allow(dead_code)]
     ids: Option<Vec<u64>>,
 }
 
@@ -106,6 +104,18 @@ impl ClientList {
         // TODO(@miaxos): lot of things missing here
         let mut conn_frames = Vec::with_capacity(connections.len());
         for conn in connections {
+            // Every connection is a normal one for now.
+            if !matches!(self.r#type, ClientType::Normal) {
+                continue;
+            }
+
+            match &self.ids {
+                Some(ids) if !ids.is_empty() && !ids.contains(&conn.id()) => {
+                    continue;
+                }
+                _ => {}
+            }
+
             conn_frames.push(Frame::Simple(conn.format_conn().await));
         }
 
-- 
2.43.0


From cb1852f828db3c36b254ef0d3cac141a3561419e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:21 +0000
Subject: [PATCH 16/21] fix: a connection is over once its last frame is
 answered

The connection was removed from CLIENT LIST as soon as the peer stopped sending,
while its pipelined commands were still being answered.
---
 app/roster/src/application/server/handle.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/app/roster/src/application/server/handle.rs b/app/roster/src/application/server/handle.rs
index 1045192..458ed69 100644
--- a/app/roster/src/application/server/handle.rs
+++ b/app/roster/src/application/server/handle.rs
@@ -110,7 +110,7 @@ impl Handler {
             result
         });
 
-        let answer_in_order_handle = monoio::spawn(async move {
+        let mut answer_in_order_handle = monoio::spawn(async move {
             if let Some(current_command) = current_command {
                 current_command.apply(&mut connection, ctx.clone()).await?;
             }
@@ -176,9 +176,13 @@ impl Handler {
 
         monoio::select! {
             r = accepting_frames_handle => {
-                r
+                // There is nothing left to read, but the frames already
+                // received are still being answered: the connection is over
+                // once it's done.
+                let answered = answer_in_order_handle.await;
+                r.and(answered)
             }
-            r = answer_in_order_handle => {
+            r = &mut answer_in_order_handle => {
                 r
             }
         }
-- 
2.43.0


From 923057f914b69f33b0811962a76be8a3a7f89ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:21 +0000
Subject: [PATCH 17/21] fix: failing to accept a connection must not take the
 server down

---
 .../src/application/server/server_thread.rs    | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/app/roster/src/application/server/server_thread.rs b/app/roster/src/application/server/server_thread.rs
index b83a58f..2331b5a 100644
--- a/app/roster/src/application/server/server_thread.rs
+++ b/app/roster/src/application/server/server_thread.rs
@@ -1,6 +1,7 @@
 use std::os::fd::AsRawFd;
 use std::rc::Rc;
 use std::thread::JoinHandle;
+use std::time::Duration;
 
 use monoio::net::{ListenerConfig, TcpListener};
 
@@ -20,6 +21,9 @@ cfg_if::cfg_if! {
     }
 }
 
+/// Delay before trying again to accept a connection.
+const RETRY_DELAY: Duration = Duration::from_millis(10);
+
 /// This structure is used only in a single thread.
 pub struct ServerMonoThreadedHandle {
     config: ServerConfig,
@@ -80,10 +84,16 @@ impl ServerMonoThreadedHandle {
                     let shard = shard.clone();
 
                     // We accept the TCP Connection
-                    let (conn, addr) = listener
-                        .accept()
-                        .await
-                        .expect("Unable to accept connections");
+                    let (conn, addr) = match listener.accept().await {
+                        Ok(accepted) => accepted,
+                        // It's transient (no more file descriptors, connection
+                        // already aborted), we have to serve the others.
+                        Err(err) => {
+                            dbg!(&err);
+                            monoio::time::sleep(RETRY_DELAY).await;
+                            continue;
+                        }
+                    };
 
                     let laddr = conn.local_addr()?;
                     let fd = conn.as_raw_fd();
-- 
2.43.0


From f9fec78cdfe001baf0c395102da59dcc32188a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:42 +0000
Subject: [PATCH 18/21] fix: enforce the maximum number of concurrent
 connections

---
 app/roster/src/application/server/mod.rs      |  2 +-
 .../src/application/server/server_thread.rs   | 35 +++++++++++++++++++
 2 files changed, 36 insertions(+), 1 deletion(-)

diff --git a/app/roster/src/application/server/mod.rs b/app/roster/src/application/server/mod.rs
index 8ee156f..563f217 100644
--- a/app/roster/src/application/server/mod.rs
+++ b/app/roster/src/application/server/mod.rs
@@ -27,7 +27,7 @@ use crate::infrastructure::hash::HASH_SLOT_MAX;
 #[builder(pattern = "owned", setter(into, strip_option))]
 pub struct ServerConfig {
     bind_addr: SocketAddr,
-    #[allow(dead_code)]
+    /// How many connections can still be served.
     connections_limit: Arc<AtomicU16>,
 }
 
diff --git a/app/roster/src/application/server/server_thread.rs b/app/roster/src/application/server/server_thread.rs
index 2331b5a..5a1b699 100644
--- a/app/roster/src/application/server/server_thread.rs
+++ b/app/roster/src/application/server/server_thread.rs
@@ -1,5 +1,7 @@
 use std::os::fd::AsRawFd;
 use std::rc::Rc;
+use std::sync::atomic::{AtomicU16, Ordering};
+use std::sync::Arc;
 use std::thread::JoinHandle;
 use std::time::Duration;
 
@@ -24,6 +26,31 @@ cfg_if::cfg_if! {
 /// Delay before trying again to accept a connection.
 const RETRY_DELAY: Duration = Duration::from_millis(10);
 
+/// One of the connections allowed by the limit of concurrent connections, given
+/// back when it's dropped.
+struct ConnectionPermit(Arc<AtomicU16>);
+
+impl ConnectionPermit {
+    async fn acquire(available: Arc<AtomicU16>) -> Self {
+        while available
+            .fetch_update(Ordering::Relaxed, Ordering::Relaxed, |nb| {
+                nb.checked_sub(1)
+            })
+            .is_err()
+        {
+            monoio::time::sleep(RETRY_DELAY).await;
+        }
+
+        Self(available)
+    }
+}
+
+impl Drop for ConnectionPermit {
+    fn drop(&mut self) {
+        self.0.fetch_add(1, Ordering::Relaxed);
+    }
+}
+
 /// This structure is used only in a single thread.
 pub struct ServerMonoThreadedHandle {
     config: ServerConfig,
@@ -95,6 +122,13 @@ impl ServerMonoThreadedHandle {
                         }
                     };
 
+                    // When the limit is reached, we do not accept any other
+                    // connection until an active one terminates.
+                    let permit = ConnectionPermit::acquire(
+                        self.config.connections_limit.clone(),
+                    )
+                    .await;
+
                     let laddr = conn.local_addr()?;
                     let fd = conn.as_raw_fd();
 
@@ -127,6 +161,7 @@ impl ServerMonoThreadedHandle {
                         }
 
                         meta_conn.stop();
+                        drop(permit);
                         // handler.connection.stop().await.unwrap();
                     });
                 }
-- 
2.43.0


From cefaefa4ed126ced616824e7d57080733562ef5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:36 +0000
Subject: [PATCH 19/21] fix: a connection appears once in CLIENT LIST

An entry can be visited twice by a scan if the map is resized meanwhile.
---
 app/roster/src/application/server/supervisor/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/app/roster/src/application/server/supervisor/mod.rs b/app/roster/src/application/server/supervisor/mod.rs
index d9816c6..1c6f6fe 100644
--- a/app/roster/src/application/server/supervisor/mod.rs
+++ b/app/roster/src/application/server/supervisor/mod.rs
@@ -79,6 +79,10 @@ impl Supervisor {
             })
             .await;
 
+        // An entry can be visited twice if the map is resized meanwhile.
+        result.sort_unstable_by_key(|conn| conn.id);
+        result.dedup_by_key(|conn| conn.id);
+
         result
     }
 }
-- 
2.43.0


From ccc3ddea7d246ad48767dd06704ca02b775a94bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:28 +0000
Subject: [PATCH 20/21] fix: refuse bulk strings which do not end with CRLF

---
 app/roster/src/application/server/frame/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/app/roster/src/application/server/frame/mod.rs b/app/roster/src/application/server/frame/mod.rs
index 47fe58f..b09a96a 100644
--- a/app/roster/src/application/server/frame/mod.rs
+++ b/app/roster/src/application/server/frame/mod.rs
@@ -184,6 +184,12 @@ impl Frame {
                     let len = pos + len;
                     let data = src.get_ref().slice(pos..len);
 
+                    if !src.get_ref()[len..].starts_with(b"\r\n") {
+                        return Err(
+                            "protocol error; invalid frame format".into()
+                        );
+                    }
+
                     // skip that number of bytes + 2 (\r\n).
                     skip(src, n)?;
 
-- 
2.43.0


From de018e66f37893b410c6c6f21efca787d65ea3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:06 +0000
Subject: [PATCH 21/21] fix: forget the connections which are over

---
 app/roster/src/application/server/server_thread.rs  | 9 ++++++---
 app/roster/src/application/server/supervisor/mod.rs | 6 ++++++
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/app/roster/src/application/server/server_thread.rs b/app/roster/src/application/server/server_thread.rs
index 5a1b699..b216204 100644
--- a/app/roster/src/application/server/server_thread.rs
+++ b/app/roster/src/application/server/server_thread.rs
@@ -137,8 +137,11 @@ impl ServerMonoThreadedHandle {
                     let supervisor = self.supervisor.clone();
 
                     conn.set_nodelay(true).unwrap();
-                    let ctx =
-                        Context::new(storage, supervisor, meta_conn.clone());
+                    let ctx = Context::new(
+                        storage,
+                        supervisor.clone(),
+                        meta_conn.clone(),
+                    );
 
                     // We map it to an `Handler` which is able to understand
                     // the Redis protocol
@@ -160,7 +163,7 @@ impl ServerMonoThreadedHandle {
                             // error!(?err);
                         }
 
-                        meta_conn.stop();
+                        supervisor.remove_connection(&meta_conn);
                         drop(permit);
                         // handler.connection.stop().await.unwrap();
                     });
diff --git a/app/roster/src/application/server/supervisor/mod.rs b/app/roster/src/application/server/supervisor/mod.rs
index 1c6f6fe..5ce2897 100644
--- a/app/roster/src/application/server/supervisor/mod.rs
+++ b/app/roster/src/application/server/supervisor/mod.rs
@@ -64,6 +64,12 @@ impl Supervisor {
         conn
     }
 
+    /// The connection is over, it's not kept with the current ones anymore.
+    pub fn remove_connection(&self, conn: &MetadataConnection) {
+        conn.stop();
+        self.current_connections.remove(&conn.id);
+    }
+
     /// Get the list of [MetadataConnection] for normal connection.
     pub async fn get_normal_connection(&self) -> Vec<Arc<MetadataConnection>> {
         let mut result = Vec::new();
-- 
2.43.0

