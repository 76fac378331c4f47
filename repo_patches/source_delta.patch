From 17673552d3499e40206d975322d2de7ff70bca5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:34 +0000
Subject: [PATCH 01/23] hook: let cfg(vt6_mc) builds take std items of the
 tokio dispatch from a controlled scheduler

---
 src/server/tokio/dispatch.rs    | 3 +++
 src/server/tokio/mod.rs         | 3 +++
 src/server/tokio/receiver.rs    | 3 +++
 src/server/tokio/transmitter.rs | 3 +++
 4 files changed, 12 insertions(+)

diff --git a/src/server/tokio/dispatch.rs b/src/server/tokio/dispatch.rs
index 6366e50..fb50245 100644
--- a/src/server/tokio/dispatch.rs
+++ b/src/server/tokio/dispatch.rs
@@ -11,6 +11,9 @@ use futures::future::{AbortHandle, AbortRegistration, Abortable, Aborted};
 use std::collections::HashMap;
 use std::sync::{Arc, Mutex, RwLock, RwLockWriteGuard};
 use tokio::sync::Notify;
+//Verification hook (off in every normal build): take locks etc. from a controlled `std`.
+#[cfg(vt6_mc)]
+use tokio::mc_std as std;
 
 struct ConnectionPoolEntry<A: server::Application> {
     conn: server::Connection<A, Dispatch<A>>,
diff --git a/src/server/tokio/mod.rs b/src/server/tokio/mod.rs
index b1af3f5..f6ae8a3 100644
--- a/src/server/tokio/mod.rs
+++ b/src/server/tokio/mod.rs
@@ -4,6 +4,9 @@
 * Refer to the file "LICENSE" for details.
 *******************************************************************************/
 
+//for the verification hook `cfg(vt6_mc)`
+#![allow(unexpected_cfgs)]
+
 mod dispatch;
 pub use dispatch::*;
 mod receiver;
diff --git a/src/server/tokio/receiver.rs b/src/server/tokio/receiver.rs
index 9c9cec6..aeda055 100644
--- a/src/server/tokio/receiver.rs
+++ b/src/server/tokio/receiver.rs
@@ -9,6 +9,9 @@ use crate::server::tokio as my;
 use futures::future::{AbortRegistration, Abortable};
 use std::sync::Arc;
 use tokio::io::AsyncReadExt;
+//Verification hook (off in every normal build): take locks etc. from a controlled `std`.
+#[cfg(vt6_mc)]
+use tokio::mc_std as std;
 
 impl server::ReceiveBuffer for bytes::BytesMut {
     fn contents(&self) -> &[u8] {
diff --git a/src/server/tokio/transmitter.rs b/src/server/tokio/transmitter.rs
index 98b4892..b10da18 100644
--- a/src/server/tokio/transmitter.rs
+++ b/src/server/tokio/transmitter.rs
@@ -10,6 +10,9 @@ use futures::future::{AbortRegistration, Abortable};
 use std::sync::Arc;
 use tokio::io::AsyncWriteExt;
 use tokio::sync::Notify;
+//Verification hook (off in every normal build): take locks etc. from a controlled `std`.
+#[cfg(vt6_mc)]
+use tokio::mc_std as std;
 
 pub(crate) struct SendBuffer {
     //Assuming a 64-bit platform, this makes sizeof(SendBuffer) = 4080. General-purpose allocators
-- 
2.43.0


From 34414f845d65f271b4399bf8b23e85124cbd3bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:53 +0000
Subject: [PATCH 02/23] fix: do not overflow when generating the client ID for
 index u32::MAX

---
 src/client/core/client_id.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/client/core/client_id.rs b/src/client/core/client_id.rs
index 4ff3f24..d1f19eb 100644
--- a/src/client/core/client_id.rs
+++ b/src/client/core/client_id.rs
@@ -151,7 +151,7 @@ fn get_size_for_number(num: u32) -> usize {
     //There are 10 + 2*26 - 1 = 61 codewords for each given length, except that the
     //codeword 0x00 is not used to avoid ambiguities in the ClientIDSuffix
     //encoding. Hence the `+ 1` below.
-    (1 + (num + 1) / 61) as usize
+    (1 + (u64::from(num) + 1) / 61) as usize
 }
 
 const LOOKUP_TABLE: [u8; 62] = [
@@ -163,7 +163,7 @@ const LOOKUP_TABLE: [u8; 62] = [
 
 fn encode_number(num: u32, buf: &mut [u8]) {
     //shift all numbers by 1 to account for the omitted codeword "0"
-    let mut num = num + 1;
+    let mut num = u64::from(num) + 1;
     for byte_mut in buf.iter_mut() {
         if num >= 61 {
             num -= 61;
-- 
2.43.0


From cf414013938e7ab4b94ecffbf4a0fc4fb9ed9699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:53 +0000
Subject: [PATCH 03/23] fix: reject integers with a plus sign, negative zero or
 zeroes after the minus sign

---
 src/common/core/decode_argument.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/common/core/decode_argument.rs b/src/common/core/decode_argument.rs
index aae9b1d..df0aa69 100644
--- a/src/common/core/decode_argument.rs
+++ b/src/common/core/decode_argument.rs
@@ -77,6 +77,10 @@ macro_rules! impl_DecodeArgument_for_integer {
                 if arg != b"0" && arg[0] == b'0' {
                     return None;
                 }
+                //forbid signs that the encoding never contains ("+1", "-0", "-01")
+                if arg[0] == b'+' || arg.starts_with(b"-0") {
+                    return None;
+                }
 
                 core::str::from_utf8(arg).ok()?.parse().ok()
             }
-- 
2.43.0


From 4f8afa0342363475d98fe2ccecc88cc68293be10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:55 +0000
Subject: [PATCH 04/23] fix: do not abort the process in
 Environment::discover() when FD 60 does not exist

---
 src/client/env.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/client/env.rs b/src/client/env.rs
index 663cd8d..71a8255 100644
--- a/src/client/env.rs
+++ b/src/client/env.rs
@@ -10,7 +10,7 @@ use crate::msg::posix::ParentHello;
 use core::fmt;
 use std::fs::File;
 use std::io::Read;
-use std::os::unix::io::FromRawFd;
+use std::os::unix::io::{FromRawFd, IntoRawFd};
 
 ///General information about the current client process.
 ///
@@ -67,6 +67,9 @@ impl Environment {
                 if matches!(e.raw_os_error(), Some(errno) if errno == libc::EBADF || errno == libc::EINVAL)
                 {
                     env.has_vt6_terminal = false;
+                    //FD 60 might not be open at all, so it cannot be closed through `impl Drop for
+                    //File` (std aborts the process in debug builds when that fails)
+                    unsafe { libc::close(f.into_raw_fd()) };
                     return Ok(env);
                 } else {
                     return Err(e);
-- 
2.43.0


From 6a31e50fbc8b4359d81fc301da45c247ae18ffeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:23 +0000
Subject: [PATCH 05/23] fix: do not lose the parent-hello when a signal
 interrupts reading from FD 60

---
 src/client/env.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/client/env.rs b/src/client/env.rs
index 71a8255..5987ede 100644
--- a/src/client/env.rs
+++ b/src/client/env.rs
@@ -61,7 +61,7 @@ impl Environment {
         //NOTE: `impl Drop for File` will close FD 60 when this method returns.
 
         //the first read on FD 60 decides if we are on a VT6 terminal or not
-        match f.read(&mut env.buf) {
+        match read_once(&mut f, &mut env.buf) {
             Ok(filled) => env.filled = filled,
             Err(e) => {
                 if matches!(e.raw_os_error(), Some(errno) if errno == libc::EBADF || errno == libc::EINVAL)
@@ -79,7 +79,7 @@ impl Environment {
 
         //continue reading until we have a full parent-hello message or EOF or parse error
         while matches!(msg::Message::parse(&env.buf[0..env.filled]), Err(e) if e.is_incomplete()) {
-            let filled = f.read(&mut env.buf[env.filled..])?;
+            let filled = read_once(&mut f, &mut env.buf[env.filled..])?;
             env.filled += filled;
             if filled == 0 {
                 //we reached EOF on FD 60, so no more reads necessary
@@ -105,6 +105,17 @@ impl Environment {
     }
 }
 
+//Like `f.read(buf)`, but tries again if interrupted by a signal. (The caller of `discover()` could
+//not do that since FD 60 gets closed on error.)
+fn read_once(f: &mut File, buf: &mut [u8]) -> std::io::Result<usize> {
+    loop {
+        match f.read(buf) {
+            Err(e) if e.kind() == std::io::ErrorKind::Interrupted => continue,
+            result => return result,
+        }
+    }
+}
+
 ///Provides access to the data contained in [struct Environment](struct.Environment.html).
 ///
 ///Unlike `Environment`, which is a singleton by design, instances of this type can be cloned and
-- 
2.43.0


From d38550542135921c8e09aeb2b333f081112b6221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:41 +0000
Subject: [PATCH 06/23] fix: handle incoming messages in a loop instead of
 recursively, to not overflow the stack

---
 src/server/connection.rs | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/server/connection.rs b/src/server/connection.rs
index c7bfbf4..328450d 100644
--- a/src/server/connection.rs
+++ b/src/server/connection.rs
@@ -171,10 +171,13 @@ impl<A: server::Application, D: server::Dispatch<A>> Connection<A, D> {
     ///Handle data sent by the client. This interface is called by the Dispatch whenever data has
     ///been read from the client socket associated with this Connection instance.
     pub fn handle_incoming<B: ReceiveBuffer>(&mut self, buf: &mut B) {
-        if !buf.contents().is_empty() {
+        //handling the previous message (or error) may have changed into a different state, so
+        //disambiguate again each time (NOTE: a loop instead of tail calls because rustc does not
+        //guarantee to optimize those, and clients can send us a lot of messages at once)
+        while !buf.contents().is_empty() {
             use server::StdoutConnector;
             use ConnectionState::*;
-            match self.state {
+            let is_complete = match self.state {
                 Handshake => self.handle_incoming_msgio::<B>(buf, HandlerObj::<A>::handshake()),
                 Msgio(_) => self.handle_incoming_msgio::<B>(buf, HandlerObj::<A>::message()),
                 Stdin(_) => {
@@ -186,17 +189,27 @@ impl<A: server::Application, D: server::Dispatch<A>> Connection<A, D> {
                     let n = server::Notification::IncomingBytesDiscarded(buf.contents());
                     self.dispatch.application().notify(&n);
                     buf.discard(buf.contents().len());
+                    true
                 }
                 Stdout(ref mut connector) => {
                     connector.receive(buf.contents());
                     buf.discard(buf.contents().len());
+                    true
                 }
-                Teardown => {}
+                Teardown => false,
+            };
+            if !is_complete {
+                break;
             }
         }
     }
 
-    fn handle_incoming_msgio<B: ReceiveBuffer>(&mut self, buf: &mut B, handler: HandlerObj<A>) {
+    //Returns false if there is no full message in the buffer yet.
+    fn handle_incoming_msgio<B: ReceiveBuffer>(
+        &mut self,
+        buf: &mut B,
+        handler: HandlerObj<A>,
+    ) -> bool {
         match msg::Message::parse(buf.contents()) {
             Ok((msg, bytes_parsed)) => {
                 use server::HandlerError::*;
@@ -234,7 +247,7 @@ impl<A: server::Application, D: server::Dispatch<A>> Connection<A, D> {
             }
             Err(e) if e.kind == msg::ParseErrorKind::UnexpectedEOF => {
                 //if we don't have a full message yet, wait until the next read
-                return;
+                return false;
             }
             Err(e) => {
                 match handler {
@@ -261,8 +274,6 @@ impl<A: server::Application, D: server::Dispatch<A>> Connection<A, D> {
                 buf.discard(bytes_to_discard);
             }
         }
-        //handling the previous message (or error) may have changed into a different state, so
-        //tail-call back into handle_incoming() to disambiguate again
-        self.handle_incoming(buf)
+        true
     }
 }
-- 
2.43.0


From f905304d785bc39511197d33981c7956be862c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:42 +0000
Subject: [PATCH 07/23] fix: enforce the 1024-byte limit on received messages
 instead of buffering without bound

---
 src/server/connection.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/server/connection.rs b/src/server/connection.rs
index 328450d..978f296 100644
--- a/src/server/connection.rs
+++ b/src/server/connection.rs
@@ -210,7 +210,9 @@ impl<A: server::Application, D: server::Dispatch<A>> Connection<A, D> {
         buf: &mut B,
         handler: HandlerObj<A>,
     ) -> bool {
-        match msg::Message::parse(buf.contents()) {
+        //messages longer than 1024 bytes are forbidden by [vt6/foundation, sect. 3.1.2]
+        let max_message_len = std::cmp::min(buf.contents().len(), 1024);
+        match msg::Message::parse(&buf.contents()[0..max_message_len]) {
             Ok((msg, bytes_parsed)) => {
                 use server::HandlerError::*;
                 let handle_result = match handler {
@@ -245,7 +247,7 @@ impl<A: server::Application, D: server::Dispatch<A>> Connection<A, D> {
                 }
                 buf.discard(bytes_parsed);
             }
-            Err(e) if e.kind == msg::ParseErrorKind::UnexpectedEOF => {
+            Err(e) if e.kind == msg::ParseErrorKind::UnexpectedEOF && max_message_len < 1024 => {
                 //if we don't have a full message yet, wait until the next read
                 return false;
             }
-- 
2.43.0


From a5cec89ba1f2efa6984922d098bada4d3b02540c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:12 +0000
Subject: [PATCH 08/23] fix: tear down the connection instead of panicking when
 a reply is too long for a message

---
 src/server/tokio/dispatch.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/server/tokio/dispatch.rs b/src/server/tokio/dispatch.rs
index fb50245..2b2644c 100644
--- a/src/server/tokio/dispatch.rs
+++ b/src/server/tokio/dispatch.rs
@@ -354,8 +354,15 @@ impl<A: server::Application> server::Dispatch<A> for Dispatch<A> {
                 }
             };
             //if the fill_if_ok() errors out this time, it's because the rendered message is
-            //legimitately too long, so it's a good time to panic
-            send_buffer.fill_if_ok(|buf| msg.encode(buf)).unwrap();
+            //legimitately too long; since messages often contain strings chosen by the client (e.g.
+            //the message type in a `nope`), this must not affect anything except this connection
+            if send_buffer.fill_if_ok(|buf| msg.encode(buf)).is_err() {
+                std::mem::drop(tx);
+                let n = server::Notification::ConnectionIOError("message too long".into());
+                self.0.app.notify(&n);
+                conn.set_state(server::ConnectionState::Teardown);
+                return;
+            }
         }
 
         //wake up the transmitter job if necessary
-- 
2.43.0


From 0d83b83828e8c9506542fe5dbc1f96a11fd3c270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:13 +0000
Subject: [PATCH 09/23] fix: unregister all clients at or below the ID given in
 core1.client-end

---
 src/server/core/msg.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/server/core/msg.rs b/src/server/core/msg.rs
index 3335763..b742e10 100644
--- a/src/server/core/msg.rs
+++ b/src/server/core/msg.rs
@@ -115,9 +115,13 @@ impl<A: server::Application, Next: server::core::MessageHandlerExt<A>> server::H
                     return Err(InvalidMessage);
                 }
 
+                //the client IDs and secrets at or below this client ID are not valid anymore
+                let d = conn.dispatch();
+                d.application()
+                    .unregister_clients(ClientSelector::AtOrBelow(msg.client_id));
+
                 //tear down all client connections at or below this client ID
                 let owned_client_id = OwnedClientID::from(&msg.client_id);
-                let d = conn.dispatch();
                 d.enqueue_broadcast(Box::new(move |conn| {
                     let selector = ClientSelector::AtOrBelow(owned_client_id.as_ref());
                     if let ConnectionState::Msgio(ref connector) = conn.state() {
-- 
2.43.0


From 8c585431b8605624cb8d1bf3daa223e7d03b851f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:13 +0000
Subject: [PATCH 10/23] fix: do not lose a shutdown() right after the server
 socket was created

---
 src/server/tokio/dispatch.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/server/tokio/dispatch.rs b/src/server/tokio/dispatch.rs
index 2b2644c..9a53f52 100644
--- a/src/server/tokio/dispatch.rs
+++ b/src/server/tokio/dispatch.rs
@@ -245,12 +245,13 @@ impl<A: server::Application> Dispatch<A> {
     ///Runs the dispatch's event loop. Returns `Ok(())` when `self.shutdown()` was called, or `Err`
     ///on unexpected IO errors.
     pub async fn run_listener(&self) -> std::io::Result<()> {
-        let listener = tokio::net::UnixListener::bind(&self.0.path)?;
-
-        //set up an AbortHandle that shutdown() can use to intercept our loop
+        //set up an AbortHandle that shutdown() can use to intercept our loop (this comes first, so
+        //that shutdown() works from the moment when the server socket starts to exist)
         let (ah, ar) = AbortHandle::new_pair();
         *(self.0.abort.lock().unwrap()) = Some(ah);
 
+        let listener = tokio::net::UnixListener::bind(&self.0.path)?;
+
         //run the listener.accept() loop until IO error or abortion via shutdown()
         let accept_future = async {
             loop {
-- 
2.43.0


From 5fff5ab57f9c016ad384f672e1be194824c88c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:14 +0000
Subject: [PATCH 11/23] fix: always notify ConnectionOpened before
 ConnectionClosed

---
 src/server/tokio/dispatch.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/server/tokio/dispatch.rs b/src/server/tokio/dispatch.rs
index 9a53f52..0739046 100644
--- a/src/server/tokio/dispatch.rs
+++ b/src/server/tokio/dispatch.rs
@@ -256,11 +256,12 @@ impl<A: server::Application> Dispatch<A> {
         let accept_future = async {
             loop {
                 let (stream, _addr) = listener.accept().await?;
+                //this needs to be sent before anyone else can make the connection close again
+                self.0.app.notify(&server::Notification::ConnectionOpened);
                 let (stream_reader, stream_writer) = stream.into_split();
                 let (conn_id, rx_abort, tx_abort, tx_notify) = self.0.create_connection_object();
                 my::spawn_receiver(self.0.clone(), rx_abort, conn_id, stream_reader);
                 my::spawn_transmitter(self.0.clone(), tx_abort, conn_id, stream_writer, tx_notify);
-                self.0.app.notify(&server::Notification::ConnectionOpened);
             }
         };
         match Abortable::new(accept_future, ar).await {
-- 
2.43.0


From 14edefb1993c211c4cb16f953bacad39b2b8d693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:35 +0000
Subject: [PATCH 12/23] fix: do not show connections to broadcasts before
 messages can be enqueued for them

---
 src/server/tokio/dispatch.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/server/tokio/dispatch.rs b/src/server/tokio/dispatch.rs
index 0739046..764f30b 100644
--- a/src/server/tokio/dispatch.rs
+++ b/src/server/tokio/dispatch.rs
@@ -87,7 +87,6 @@ impl<A: server::Application> InnerDispatch<A> {
                 tx_abort: tx_ah,
             },
         );
-        std::mem::drop(pool); //release the write lock
 
         let tx_notify = Arc::new(Notify::new());
         let tx_connector = TxConnector {
@@ -95,6 +94,8 @@ impl<A: server::Application> InnerDispatch<A> {
             bufs: Vec::new(),
         };
         self.tx.write().unwrap().insert(conn_id, tx_connector);
+        //NOTE: only now can broadcasts be allowed to see (and send something on) this connection
+        std::mem::drop(pool); //release the write lock
 
         (conn_id, rx_ar, tx_ar, tx_notify)
     }
-- 
2.43.0


From 6b397b9a3c692864ab4f57e29806d81c32abdcbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:56 +0000
Subject: [PATCH 13/23] fix: do not leave broadcasts stuck that were enqueued
 while the connection pool was in use

---
 src/server/tokio/dispatch.rs | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/server/tokio/dispatch.rs b/src/server/tokio/dispatch.rs
index 764f30b..4b5e54b 100644
--- a/src/server/tokio/dispatch.rs
+++ b/src/server/tokio/dispatch.rs
@@ -96,6 +96,7 @@ impl<A: server::Application> InnerDispatch<A> {
         self.tx.write().unwrap().insert(conn_id, tx_connector);
         //NOTE: only now can broadcasts be allowed to see (and send something on) this connection
         std::mem::drop(pool); //release the write lock
+        self.run_pending_broadcasts();
 
         (conn_id, rx_ar, tx_ar, tx_notify)
     }
@@ -106,7 +107,7 @@ impl<A: server::Application> InnerDispatch<A> {
     pub(crate) fn connection_mut<'a>(self: &'a Arc<Self>, conn_id: u64) -> ConnectionRefMut<'a, A> {
         ConnectionRefMut {
             inner: self,
-            guard: self.pool.write().unwrap(),
+            guard: Some(self.pool.write().unwrap()),
             conn_id,
         }
     }
@@ -196,6 +197,19 @@ impl<A: server::Application> InnerDispatch<A> {
             }
         }
     }
+
+    fn run_pending_broadcasts(self: &Arc<Self>) {
+        //This function is called after enqueueing a broadcast, and after each release of a
+        //`self.pool.write()` lock: A broadcast that was enqueued while we were holding the lock,
+        //but after the last time when do_maintenance() looked at the queue, would otherwise get
+        //stuck there. If try_write() fails, the current holder of the lock will get here later.
+        while !self.bc_queue.lock().unwrap().is_empty() {
+            match self.pool.try_write() {
+                Ok(mut pool) => self.do_maintenance(&mut pool),
+                Err(_) => break,
+            }
+        }
+    }
 }
 
 ////////////////////////////////////////////////////////////////////////////////
@@ -208,13 +222,14 @@ impl<A: server::Application> InnerDispatch<A> {
 
 pub(crate) struct ConnectionRefMut<'a, A: server::Application> {
     inner: &'a Arc<InnerDispatch<A>>,
-    guard: RwLockWriteGuard<'a, ConnectionPool<A>>,
+    guard: Option<RwLockWriteGuard<'a, ConnectionPool<A>>>, //only `None` during drop()
     conn_id: u64,
 }
 
 impl<'a, A: server::Application> ConnectionRefMut<'a, A> {
     pub(crate) fn alive(&mut self) -> Option<&mut server::Connection<A, Dispatch<A>>> {
         self.guard
+            .as_mut()?
             .conns
             .get_mut(&self.conn_id)
             .map(|conn_ref| &mut conn_ref.conn)
@@ -223,9 +238,11 @@ impl<'a, A: server::Application> ConnectionRefMut<'a, A> {
 
 impl<'a, A: server::Application> Drop for ConnectionRefMut<'a, A> {
     fn drop(&mut self) {
-        self.inner
-            .do_maintenance_on_conn(&mut self.guard, self.conn_id);
-        self.inner.do_maintenance(&mut self.guard);
+        if let Some(mut guard) = self.guard.take() {
+            self.inner.do_maintenance_on_conn(&mut guard, self.conn_id);
+            self.inner.do_maintenance(&mut guard);
+        }
+        self.inner.run_pending_broadcasts();
     }
 }
 
@@ -276,6 +293,7 @@ impl<A: server::Application> Dispatch<A> {
             conn.rx_abort.abort();
             conn.tx_abort.abort();
         }
+        self.0.run_pending_broadcasts();
 
         //clean up the server socket
         std::mem::drop(listener);
@@ -311,9 +329,7 @@ impl<A: server::Application> server::Dispatch<A> for Dispatch<A> {
         //This part is important because, if we didn't have it, and there is nothing currently
         //being received or transmitted, the broadcast would just needlessly sit in the queue until
         //the next time a client sends data to us.
-        if let Ok(mut pool_lock) = self.0.pool.try_write() {
-            self.0.do_maintenance(&mut pool_lock);
-        }
+        self.0.run_pending_broadcasts();
     }
 
     fn enqueue_message<M: msg::EncodeMessage>(
-- 
2.43.0


From b4fd9e8ad1317f3a6ca8c6babd15093a4497d5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:11 +0000
Subject: [PATCH 14/23] fix: close all client connections and wait for their
 jobs before run_listener() returns

---
 src/server/tokio/dispatch.rs    | 32 +++++++++++++++++++++++++-------
 src/server/tokio/receiver.rs    |  6 +++++-
 src/server/tokio/transmitter.rs |  6 +++++-
 3 files changed, 35 insertions(+), 9 deletions(-)

diff --git a/src/server/tokio/dispatch.rs b/src/server/tokio/dispatch.rs
index 4b5e54b..d2baa4f 100644
--- a/src/server/tokio/dispatch.rs
+++ b/src/server/tokio/dispatch.rs
@@ -198,6 +198,20 @@ impl<A: server::Application> InnerDispatch<A> {
         }
     }
 
+    fn tear_down_all_connections(self: &Arc<Self>) {
+        let mut pool = self.pool.write().unwrap();
+        let all_conn_ids: Vec<_> = pool.conns.keys().copied().collect();
+        for conn_id in all_conn_ids {
+            if let Some(conn_entry) = pool.conns.get_mut(&conn_id) {
+                let state = server::ConnectionState::Teardown;
+                conn_entry.conn.set_state(state);
+            }
+            self.do_maintenance_on_conn(&mut pool, conn_id);
+        }
+        std::mem::drop(pool); //release the write lock
+        self.run_pending_broadcasts();
+    }
+
     fn run_pending_broadcasts(self: &Arc<Self>) {
         //This function is called after enqueueing a broadcast, and after each release of a
         //`self.pool.write()` lock: A broadcast that was enqueued while we were holding the lock,
@@ -270,6 +284,9 @@ impl<A: server::Application> Dispatch<A> {
 
         let listener = tokio::net::UnixListener::bind(&self.0.path)?;
 
+        //each receiver/transmitter job holds a clone of `jobs_tx` for as long as it runs
+        let (jobs_tx, mut jobs_rx) = tokio::sync::mpsc::channel::<()>(1);
+
         //run the listener.accept() loop until IO error or abortion via shutdown()
         let accept_future = async {
             loop {
@@ -278,8 +295,10 @@ impl<A: server::Application> Dispatch<A> {
                 self.0.app.notify(&server::Notification::ConnectionOpened);
                 let (stream_reader, stream_writer) = stream.into_split();
                 let (conn_id, rx_abort, tx_abort, tx_notify) = self.0.create_connection_object();
-                my::spawn_receiver(self.0.clone(), rx_abort, conn_id, stream_reader);
-                my::spawn_transmitter(self.0.clone(), tx_abort, conn_id, stream_writer, tx_notify);
+                let (d, token) = (self.0.clone(), jobs_tx.clone());
+                my::spawn_receiver(d, rx_abort, conn_id, stream_reader, token);
+                let (d, token) = (self.0.clone(), jobs_tx.clone());
+                my::spawn_transmitter(d, tx_abort, conn_id, stream_writer, tx_notify, token);
             }
         };
         match Abortable::new(accept_future, ar).await {
@@ -289,11 +308,10 @@ impl<A: server::Application> Dispatch<A> {
         };
 
         //tell all receiver/transmitter jobs to quit it
-        for conn in self.0.pool.write().unwrap().conns.values() {
-            conn.rx_abort.abort();
-            conn.tx_abort.abort();
-        }
-        self.0.run_pending_broadcasts();
+        self.0.tear_down_all_connections();
+        //...and wait until they have done so, i.e. until the last clone of `jobs_tx` was dropped
+        std::mem::drop(jobs_tx);
+        jobs_rx.recv().await;
 
         //clean up the server socket
         std::mem::drop(listener);
diff --git a/src/server/tokio/receiver.rs b/src/server/tokio/receiver.rs
index aeda055..b60061a 100644
--- a/src/server/tokio/receiver.rs
+++ b/src/server/tokio/receiver.rs
@@ -33,6 +33,7 @@ pub(crate) fn spawn_receiver<A: server::Application>(
     abort_reg: AbortRegistration,
     conn_id: u64,
     mut reader: tokio::net::unix::OwnedReadHalf,
+    token: tokio::sync::mpsc::Sender<()>,
 ) {
     let job = async move {
         let mut buf = bytes::BytesMut::with_capacity(1024);
@@ -65,5 +66,8 @@ pub(crate) fn spawn_receiver<A: server::Application>(
             }
         }
     };
-    tokio::spawn(Abortable::new(job, abort_reg));
+    tokio::spawn(async move {
+        let _ = Abortable::new(job, abort_reg).await;
+        std::mem::drop(token); //only after everything owned by the job has been dropped
+    });
 }
diff --git a/src/server/tokio/transmitter.rs b/src/server/tokio/transmitter.rs
index b10da18..6567f54 100644
--- a/src/server/tokio/transmitter.rs
+++ b/src/server/tokio/transmitter.rs
@@ -87,6 +87,7 @@ pub(crate) fn spawn_transmitter<A: server::Application>(
     conn_id: u64,
     mut writer: tokio::net::unix::OwnedWriteHalf,
     tx_notify: Arc<Notify>,
+    token: tokio::sync::mpsc::Sender<()>,
 ) {
     let mut buf = None;
     let job = async move {
@@ -120,5 +121,8 @@ pub(crate) fn spawn_transmitter<A: server::Application>(
             }
         }
     };
-    tokio::spawn(Abortable::new(job, abort_reg));
+    tokio::spawn(async move {
+        let _ = Abortable::new(job, abort_reg).await;
+        std::mem::drop(token); //only after everything owned by the job has been dropped
+    });
 }
-- 
2.43.0


From 8ae6b4834267daa217b5f958859256a48f080c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:40 +0000
Subject: [PATCH 15/23] Verification hook for the example server (cfg vt6_mc)

---
 example-server/src/main.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/example-server/src/main.rs b/example-server/src/main.rs
index 62a7003..ad3d924 100644
--- a/example-server/src/main.rs
+++ b/example-server/src/main.rs
@@ -4,12 +4,18 @@
 * Refer to the file "LICENSE" for details.
 *******************************************************************************/
 
+//for cfg(vt6_mc) below
+#![allow(unexpected_cfgs)]
+
 use std::sync::{Arc, Mutex};
 use vt6::common::core::{msg, ClientID};
 use vt6::server::{
     Application, ClientCredentials, ClientIdentity, ClientSelector, Connection, Dispatch, Handler,
     HandshakeHandler, MessageHandler, Notification, ScreenCredentials, ScreenIdentity,
 };
+//Verification hook (off in every normal build): take locks etc. from a controlled `std`.
+#[cfg(vt6_mc)]
+use tokio::mc_std as std;
 
 #[tokio::main]
 async fn main() -> std::io::Result<()> {
-- 
2.43.0


From fa584bfecb6cde46924e0425e5202f3246470078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:00 +0000
Subject: [PATCH 16/23] fix: shutdown() before run_listener() is first polled
 was lost

---
 src/server/tokio/dispatch.rs | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/server/tokio/dispatch.rs b/src/server/tokio/dispatch.rs
index d2baa4f..9f2d98d 100644
--- a/src/server/tokio/dispatch.rs
+++ b/src/server/tokio/dispatch.rs
@@ -41,7 +41,8 @@ pub(crate) struct InnerDispatch<A: server::Application> {
     //can only be obtained by holding the `self.pool` lock).
     path: std::path::PathBuf,
     pub(crate) app: A,
-    abort: Mutex<Option<AbortHandle>>,
+    //The AbortRegistration is for the next call to run_listener().
+    abort: Mutex<(AbortHandle, Option<AbortRegistration>)>,
     pool: RwLock<ConnectionPool<A>>,
     tx: RwLock<HashMap<u64, TxConnector>>,
     //This #[allow] is here because factoring out `type Broadcast<A>` or something like that does
@@ -52,10 +53,11 @@ pub(crate) struct InnerDispatch<A: server::Application> {
 
 impl<A: server::Application> InnerDispatch<A> {
     fn new(path: std::path::PathBuf, app: A) -> Arc<Self> {
+        let (ah, ar) = AbortHandle::new_pair();
         Arc::new(InnerDispatch {
             path,
             app,
-            abort: Mutex::new(None),
+            abort: Mutex::new((ah, Some(ar))),
             pool: RwLock::new(ConnectionPool {
                 conns: HashMap::new(),
                 next_connection_id: 0,
@@ -65,6 +67,19 @@ impl<A: server::Application> InnerDispatch<A> {
         })
     }
 
+    fn take_abort_registration(&self) -> AbortRegistration {
+        let mut abort = self.abort.lock().unwrap();
+        match abort.1.take() {
+            Some(ar) => ar,
+            None => {
+                //run_listener() was called before, so that call has used the first registration
+                let (ah, ar) = AbortHandle::new_pair();
+                abort.0 = ah;
+                ar
+            }
+        }
+    }
+
     pub(crate) fn dispatch(self: &Arc<Self>) -> Dispatch<A> {
         Dispatch(self.clone())
     }
@@ -277,10 +292,8 @@ impl<A: server::Application> Dispatch<A> {
     ///Runs the dispatch's event loop. Returns `Ok(())` when `self.shutdown()` was called, or `Err`
     ///on unexpected IO errors.
     pub async fn run_listener(&self) -> std::io::Result<()> {
-        //set up an AbortHandle that shutdown() can use to intercept our loop (this comes first, so
-        //that shutdown() works from the moment when the server socket starts to exist)
-        let (ah, ar) = AbortHandle::new_pair();
-        *(self.0.abort.lock().unwrap()) = Some(ah);
+        //shutdown() intercepts our loop through this (it may have been called already)
+        let ar = self.0.take_abort_registration();
 
         let listener = tokio::net::UnixListener::bind(&self.0.path)?;
 
@@ -321,10 +334,7 @@ impl<A: server::Application> Dispatch<A> {
     ///Ask the event loop to shutdown. After this call, the `self.run_listener()` future will
     ///resolve to `Ok(())` once all client connections and the server socket have been dismantled.
     pub fn shutdown(&self) {
-        use std::ops::Deref;
-        if let Some(ref handle) = self.0.abort.lock().unwrap().deref() {
-            handle.abort();
-        }
+        self.0.abort.lock().unwrap().0.abort();
     }
 }
 
-- 
2.43.0


From c1ba55fe24ebad185ebe4cea4628345347ecec3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:03 +0000
Subject: [PATCH 17/23] fix: install the example server's SIGINT handler before
 its socket exists

---
 example-server/src/main.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/example-server/src/main.rs b/example-server/src/main.rs
index ad3d924..de40056 100644
--- a/example-server/src/main.rs
+++ b/example-server/src/main.rs
@@ -54,16 +54,16 @@ async fn main() -> std::io::Result<()> {
     log::info!("server socket is at {}", socket_path.to_str().unwrap());
     let dispatch = vt6::server::tokio::Dispatch::new(socket_path, app.clone())?;
 
-    //shutdown server on Ctrl-C
+    //shutdown server on Ctrl-C (the signal handler is installed before the server socket exists, so
+    //that an early Ctrl-C does not kill us without cleaning up the socket)
     {
+        use tokio::signal::unix::{signal, SignalKind};
+        let mut stream = signal(SignalKind::interrupt())?;
         let dispatch = dispatch.clone();
         tokio::spawn(async move {
-            use tokio::signal::unix::{signal, SignalKind};
-            let mut stream = signal(SignalKind::interrupt())?;
             stream.recv().await;
             log::info!("interrupt received: shutting down...");
             dispatch.shutdown();
-            Ok(()) as std::io::Result<()>
         });
     }
 
-- 
2.43.0


From 7e7d477e68a308e86563f79573e1f7cb6058c423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:58 +0000
Subject: [PATCH 18/23] fix: a handler that ends the connection and returns an
 error made the server panic

---
 src/server/connection.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/server/connection.rs b/src/server/connection.rs
index 978f296..b2c6840 100644
--- a/src/server/connection.rs
+++ b/src/server/connection.rs
@@ -225,6 +225,8 @@ impl<A: server::Application, D: server::Dispatch<A>> Connection<A, D> {
                     (Err(_), HandlerObj::HandshakeHandler(_)) => {
                         self.set_state(ConnectionState::Teardown);
                     }
+                    //the handler may have decided to dismantle the connection because of the error
+                    (Err(_), _) if !self.state.can_receive_messages() => {}
                     //error handling according to [vt6/foundation, sect. 3.3.2]
                     (Err(InvalidMessage), HandlerObj::MessageHandler(_)) => {
                         self.enqueue_message(&Nope(msg.parsed_type()));
-- 
2.43.0


From f5b7cdde9e750fe8056d5052cfa2103421c550ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:58 +0000
Subject: [PATCH 19/23] fix: running out of file descriptors ended the event
 loop

---
 src/server/tokio/dispatch.rs    | 71 +++++++++++++++++++++++++++++----
 src/server/tokio/receiver.rs    |  2 +-
 src/server/tokio/transmitter.rs |  2 +-
 3 files changed, 65 insertions(+), 10 deletions(-)

diff --git a/src/server/tokio/dispatch.rs b/src/server/tokio/dispatch.rs
index 9f2d98d..ad548ad 100644
--- a/src/server/tokio/dispatch.rs
+++ b/src/server/tokio/dispatch.rs
@@ -275,6 +275,51 @@ impl<'a, A: server::Application> Drop for ConnectionRefMut<'a, A> {
     }
 }
 
+////////////////////////////////////////////////////////////////////////////////
+// job tracking
+
+///Counts the receiver/transmitter jobs.
+struct Jobs {
+    running: Mutex<usize>,
+    ended: Notify,
+}
+
+///Held by each receiver/transmitter job for as long as it runs.
+pub(crate) struct JobToken(Arc<Jobs>);
+
+impl Jobs {
+    fn new() -> Arc<Self> {
+        Arc::new(Jobs {
+            running: Mutex::new(0),
+            ended: Notify::new(),
+        })
+    }
+
+    fn token(self: &Arc<Self>) -> JobToken {
+        *self.running.lock().unwrap() += 1;
+        JobToken(self.clone())
+    }
+
+    fn any_running(&self) -> bool {
+        *self.running.lock().unwrap() > 0
+    }
+}
+
+impl Drop for JobToken {
+    fn drop(&mut self) {
+        *self.0.running.lock().unwrap() -= 1;
+        self.0.ended.notify_one();
+    }
+}
+
+///Whether accept() failed only because there are too many connections (or other open files) now.
+fn is_out_of_resources(e: &std::io::Error) -> bool {
+    match e.raw_os_error() {
+        Some(errno) => [libc::EMFILE, libc::ENFILE, libc::ENOBUFS, libc::ENOMEM].contains(&errno),
+        None => false,
+    }
+}
+
 ////////////////////////////////////////////////////////////////////////////////
 // public API
 
@@ -297,20 +342,29 @@ impl<A: server::Application> Dispatch<A> {
 
         let listener = tokio::net::UnixListener::bind(&self.0.path)?;
 
-        //each receiver/transmitter job holds a clone of `jobs_tx` for as long as it runs
-        let (jobs_tx, mut jobs_rx) = tokio::sync::mpsc::channel::<()>(1);
+        //each receiver/transmitter job holds a token for as long as it runs
+        let jobs = Jobs::new();
 
         //run the listener.accept() loop until IO error or abortion via shutdown()
         let accept_future = async {
             loop {
-                let (stream, _addr) = listener.accept().await?;
+                let any_jobs = jobs.any_running();
+                let stream = match listener.accept().await {
+                    Ok((stream, _addr)) => stream,
+                    Err(e) if any_jobs && is_out_of_resources(&e) => {
+                        //the next client has to wait until some other client is gone
+                        jobs.ended.notified().await;
+                        continue;
+                    }
+                    Err(e) => return Err(e),
+                };
                 //this needs to be sent before anyone else can make the connection close again
                 self.0.app.notify(&server::Notification::ConnectionOpened);
                 let (stream_reader, stream_writer) = stream.into_split();
                 let (conn_id, rx_abort, tx_abort, tx_notify) = self.0.create_connection_object();
-                let (d, token) = (self.0.clone(), jobs_tx.clone());
+                let (d, token) = (self.0.clone(), jobs.token());
                 my::spawn_receiver(d, rx_abort, conn_id, stream_reader, token);
-                let (d, token) = (self.0.clone(), jobs_tx.clone());
+                let (d, token) = (self.0.clone(), jobs.token());
                 my::spawn_transmitter(d, tx_abort, conn_id, stream_writer, tx_notify, token);
             }
         };
@@ -322,9 +376,10 @@ impl<A: server::Application> Dispatch<A> {
 
         //tell all receiver/transmitter jobs to quit it
         self.0.tear_down_all_connections();
-        //...and wait until they have done so, i.e. until the last clone of `jobs_tx` was dropped
-        std::mem::drop(jobs_tx);
-        jobs_rx.recv().await;
+        //...and wait until they have done so
+        while jobs.any_running() {
+            jobs.ended.notified().await;
+        }
 
         //clean up the server socket
         std::mem::drop(listener);
diff --git a/src/server/tokio/receiver.rs b/src/server/tokio/receiver.rs
index b60061a..6c2b46f 100644
--- a/src/server/tokio/receiver.rs
+++ b/src/server/tokio/receiver.rs
@@ -33,7 +33,7 @@ pub(crate) fn spawn_receiver<A: server::Application>(
     abort_reg: AbortRegistration,
     conn_id: u64,
     mut reader: tokio::net::unix::OwnedReadHalf,
-    token: tokio::sync::mpsc::Sender<()>,
+    token: my::JobToken,
 ) {
     let job = async move {
         let mut buf = bytes::BytesMut::with_capacity(1024);
diff --git a/src/server/tokio/transmitter.rs b/src/server/tokio/transmitter.rs
index 6567f54..bfca38a 100644
--- a/src/server/tokio/transmitter.rs
+++ b/src/server/tokio/transmitter.rs
@@ -87,7 +87,7 @@ pub(crate) fn spawn_transmitter<A: server::Application>(
     conn_id: u64,
     mut writer: tokio::net::unix::OwnedWriteHalf,
     tx_notify: Arc<Notify>,
-    token: tokio::sync::mpsc::Sender<()>,
+    token: my::JobToken,
 ) {
     let mut buf = None;
     let job = async move {
-- 
2.43.0


From 2bcbf91818f8c79886db1844f2592ed722f1379f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:44 +0000
Subject: [PATCH 20/23] fix: tell the standard library how many arguments a
 MessageIterator has left

ExactSizeIterator requires that size_hint() returns the exact length; with the
default implementation, e.g. arguments().skip(1).len() panicked.
---
 src/common/core/msg/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/common/core/msg/mod.rs b/src/common/core/msg/mod.rs
index 641fcd7..5cfc8d8 100644
--- a/src/common/core/msg/mod.rs
+++ b/src/common/core/msg/mod.rs
@@ -346,6 +346,11 @@ impl<'s> Iterator for MessageIterator<'s> {
     fn next(&mut self) -> Option<Self::Item> {
         self.next_or_error().unwrap_or(None)
     }
+
+    //This needs to agree with `len()` below (the standard library relies on that).
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        (self.remaining_items, Some(self.remaining_items))
+    }
 }
 
 impl<'s> core::iter::ExactSizeIterator for MessageIterator<'s> {
-- 
2.43.0


From ef726b3ef719e26ca251389afb545c4bd1777faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:07 +0000
Subject: [PATCH 21/23] fix: shutdown() is not lost when run_listener() fails
 and is called again

---
 src/server/tokio/dispatch.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/server/tokio/dispatch.rs b/src/server/tokio/dispatch.rs
index ad548ad..9698c94 100644
--- a/src/server/tokio/dispatch.rs
+++ b/src/server/tokio/dispatch.rs
@@ -337,11 +337,11 @@ impl<A: server::Application> Dispatch<A> {
     ///Runs the dispatch's event loop. Returns `Ok(())` when `self.shutdown()` was called, or `Err`
     ///on unexpected IO errors.
     pub async fn run_listener(&self) -> std::io::Result<()> {
+        let listener = tokio::net::UnixListener::bind(&self.0.path)?;
+
         //shutdown() intercepts our loop through this (it may have been called already)
         let ar = self.0.take_abort_registration();
 
-        let listener = tokio::net::UnixListener::bind(&self.0.path)?;
-
         //each receiver/transmitter job holds a token for as long as it runs
         let jobs = Jobs::new();
 
@@ -370,7 +370,15 @@ impl<A: server::Application> Dispatch<A> {
         };
         match Abortable::new(accept_future, ar).await {
             Ok(Ok(())) => {}
-            Ok(Err(e)) => return Err(e),
+            Ok(Err(e)) => {
+                //if shutdown() is called from now on, the next call to run_listener() will see it
+                let mut abort = self.0.abort.lock().unwrap();
+                if !abort.0.is_aborted() {
+                    let (ah, ar) = AbortHandle::new_pair();
+                    *abort = (ah, Some(ar));
+                    return Err(e);
+                }
+            }
             Err(Aborted) => {}
         };
 
-- 
2.43.0


From cb18036a72fe70198037811b69d483d82a6edb59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:50 +0000
Subject: [PATCH 22/23] fix: run_listener() awaits the connections of an
 earlier call that has failed

---
 src/server/tokio/dispatch.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/server/tokio/dispatch.rs b/src/server/tokio/dispatch.rs
index 9698c94..2f938f2 100644
--- a/src/server/tokio/dispatch.rs
+++ b/src/server/tokio/dispatch.rs
@@ -43,6 +43,8 @@ pub(crate) struct InnerDispatch<A: server::Application> {
     pub(crate) app: A,
     //The AbortRegistration is for the next call to run_listener().
     abort: Mutex<(AbortHandle, Option<AbortRegistration>)>,
+    //Each receiver/transmitter job holds a token for as long as it runs.
+    jobs: Arc<Jobs>,
     pool: RwLock<ConnectionPool<A>>,
     tx: RwLock<HashMap<u64, TxConnector>>,
     //This #[allow] is here because factoring out `type Broadcast<A>` or something like that does
@@ -58,6 +60,7 @@ impl<A: server::Application> InnerDispatch<A> {
             path,
             app,
             abort: Mutex::new((ah, Some(ar))),
+            jobs: Jobs::new(),
             pool: RwLock::new(ConnectionPool {
                 conns: HashMap::new(),
                 next_connection_id: 0,
@@ -342,8 +345,8 @@ impl<A: server::Application> Dispatch<A> {
         //shutdown() intercepts our loop through this (it may have been called already)
         let ar = self.0.take_abort_registration();
 
-        //each receiver/transmitter job holds a token for as long as it runs
-        let jobs = Jobs::new();
+        //this includes jobs from an earlier call to run_listener() that ended with an IO error
+        let jobs = &self.0.jobs;
 
         //run the listener.accept() loop until IO error or abortion via shutdown()
         let accept_future = async {
-- 
2.43.0


From 96665ef9493d3f42cd9baea90f1ed90f4609ee47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:00 +0000
Subject: [PATCH 23/23] fix: a width does not apply to each character of a
 displayed message

Message's Display used char's Display for each character, which honours the
width, fill and precision of the formatter. So format!("{:>5}", msg) padded
every single character of the arguments, and format!("{:.0}", msg) dropped
them altogether.
---
 src/common/core/msg/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/common/core/msg/mod.rs b/src/common/core/msg/mod.rs
index 5cfc8d8..4c7e59a 100644
--- a/src/common/core/msg/mod.rs
+++ b/src/common/core/msg/mod.rs
@@ -462,12 +462,14 @@ impl<'s> Message<'s> {
 
 impl<'s> core::fmt::Display for Message<'s> {
     fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result {
+        use core::fmt::Write;
+
         write!(f, "({}", self.parsed_type)?;
         for arg in self.arguments.clone() {
             let escaped = arg.is_empty() || arg.iter().any(|&x| char_needs_escaping(x));
             f.write_str(if escaped { " \"" } else { " " })?;
             for byte in arg.iter().flat_map(|&b| core::ascii::escape_default(b)) {
-                (byte as char).fmt(f)?;
+                f.write_char(byte as char)?;
             }
             if escaped {
                 f.write_str("\"")?;
-- 
2.43.0

