From 1a20b08ab49cf535451425fce8e96306961850e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:30 +0000
Subject: [PATCH 01/13] fix: end all streams when the connection is closed
 locally

Active::close() left the streams' state untouched, so readers and writers
parked on a stream were never woken and is_closed() stayed false.
---
 yamux/src/connection.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/yamux/src/connection.rs b/yamux/src/connection.rs
index ee17d39..0b5c779 100644
--- a/yamux/src/connection.rs
+++ b/yamux/src/connection.rs
@@ -380,7 +380,9 @@ impl<T: AsyncRead + AsyncWrite + Unpin> Active<T> {
     }
 
     /// Gracefully close the connection to the remote.
-    fn close(self) -> Closing<T> {
+    fn close(mut self) -> Closing<T> {
+        self.drop_all_streams();
+
         let pending_frames = self
             .pending_read_frame
             .into_iter()
-- 
2.43.0


From be52531f0a547bf16b67952431f842d1eac0b143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:31 +0000
Subject: [PATCH 02/13] fix: do not send a second FIN when a stream is closed
 twice

---
 yamux/src/connection/stream.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yamux/src/connection/stream.rs b/yamux/src/connection/stream.rs
index 6eb6dd4..aa54cdf 100644
--- a/yamux/src/connection/stream.rs
+++ b/yamux/src/connection/stream.rs
@@ -408,7 +408,8 @@ impl AsyncWrite for Stream {
     }
 
     fn poll_close(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<io::Result<()>> {
-        if self.is_closed() {
+        // Closing is idempotent, we must not send a second FIN.
+        if !self.shared().state().can_write() {
             return Poll::Ready(Ok(()));
         }
         ready!(self
-- 
2.43.0


From 8d332e3d64b61d8732b4aeffbb5e33b8ad59e0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:31 +0000
Subject: [PATCH 03/13] fix: announce a stream that is closed before it sent
 anything

The FIN of an outbound stream which was never written to lacked the SYN flag,
so the remote did not know the stream and ignored it.
---
 yamux/src/connection/stream.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/yamux/src/connection/stream.rs b/yamux/src/connection/stream.rs
index aa54cdf..da2fbf3 100644
--- a/yamux/src/connection/stream.rs
+++ b/yamux/src/connection/stream.rs
@@ -416,14 +416,20 @@ impl AsyncWrite for Stream {
             .sender
             .poll_ready(cx)
             .map_err(|_| self.write_zero_err())?);
-        let ack = if self.flag == Flag::Ack {
-            self.flag = Flag::None;
-            true
-        } else {
-            false
-        };
         log::trace!("{}/{}: close", self.conn, self.id);
-        let cmd = StreamCommand::CloseStream { ack };
+        let cmd = match self.flag {
+            // Nothing has been sent yet, so the remote learns about the stream from this frame.
+            Flag::Syn => {
+                let mut frame = Frame::close_stream(self.id, false).left();
+                self.add_flag(frame.header_mut());
+                StreamCommand::SendFrame(frame)
+            }
+            Flag::Ack => {
+                self.flag = Flag::None;
+                StreamCommand::CloseStream { ack: true }
+            }
+            Flag::None => StreamCommand::CloseStream { ack: false },
+        };
         self.sender
             .start_send(cmd)
             .map_err(|_| self.write_zero_err())?;
-- 
2.43.0


From eaa7d85a57d24f9f1074a59b70e214ba593632a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:43 +0000
Subject: [PATCH 04/13] fix: an inbound stream is acknowledged by a window
 update, too

A window update carrying the ACK flag did not mark the stream as acknowledged,
so is_pending_ack() stayed true although the ACK had been sent.
---
 yamux/src/connection/stream.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/yamux/src/connection/stream.rs b/yamux/src/connection/stream.rs
index da2fbf3..ebf58e7 100644
--- a/yamux/src/connection/stream.rs
+++ b/yamux/src/connection/stream.rs
@@ -229,6 +229,10 @@ impl Stream {
 
         let mut frame = Frame::window_update(self.id, credit).right();
         self.add_flag(frame.header_mut());
+        if frame.header().flags().contains(ACK) {
+            self.shared()
+                .update_state(self.conn, self.id, State::Open { acknowledged: true });
+        }
         let cmd = StreamCommand::SendFrame(frame);
         self.sender
             .start_send(cmd)
-- 
2.43.0


From 77c5b19a445183be416568b00a26a86bf2b9eca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:04 +0000
Subject: [PATCH 05/13] fix: reject an inbound stream with the session id

A client accepted stream 0, which is reserved for the session.
---
 yamux/src/connection.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yamux/src/connection.rs b/yamux/src/connection.rs
index 0b5c779..e413432 100644
--- a/yamux/src/connection.rs
+++ b/yamux/src/connection.rs
@@ -891,7 +891,7 @@ impl<T: AsyncRead + AsyncWrite + Unpin> Active<T> {
             return id.is_session();
         }
         match self.mode {
-            Mode::Client => id.is_server(),
+            Mode::Client => id.is_server() && !id.is_session(),
             Mode::Server => id.is_client(),
         }
     }
-- 
2.43.0


From 9de01d217f8609670196991c9efd57a45a324a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:04 +0000
Subject: [PATCH 06/13] fix: end the connection when writing to the socket
 fails

The error returned by poll_ready was ignored and the next frame was started,
in the middle of the one whose transmission had failed.
---
 yamux/src/connection.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/yamux/src/connection.rs b/yamux/src/connection.rs
index e413432..6a90731 100644
--- a/yamux/src/connection.rs
+++ b/yamux/src/connection.rs
@@ -402,7 +402,9 @@ impl<T: AsyncRead + AsyncWrite + Unpin> Active<T> {
 
     fn poll(&mut self, cx: &mut Context<'_>) -> Poll<Result<Stream>> {
         loop {
-            if self.socket.poll_ready_unpin(cx).is_ready() {
+            if let Poll::Ready(result) = self.socket.poll_ready_unpin(cx) {
+                result?;
+
                 // Note `next_ping` does not register a waker and thus if not called regularly (idle
                 // connection) no ping is sent. This is deliberate as an idle connection does not
                 // need RTT measurements to increase its stream receive window.
-- 
2.43.0


From 7d697addcddcfbe42134c8e2cba4e899bc55a2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:05 +0000
Subject: [PATCH 07/13] fix: wake the task opening a stream whenever the ACK
 backlog shrinks

Not only an ACK takes a stream out of the backlog: so do FIN, RST, closing or
dropping the stream, and the end of the connection.
---
 yamux/src/connection.rs | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/yamux/src/connection.rs b/yamux/src/connection.rs
index 6a90731..84ed657 100644
--- a/yamux/src/connection.rs
+++ b/yamux/src/connection.rs
@@ -439,11 +439,15 @@ impl<T: AsyncRead + AsyncWrite + Unpin> Active<T> {
                             frame.header().stream_id(),
                             frame.header()
                         );
+                        if frame.header().flags().contains(header::FIN) {
+                            self.wake_new_outbound();
+                        }
                         self.pending_write_frame.replace(frame.into());
                         continue;
                     }
                     Poll::Ready(Some((id, Some(StreamCommand::CloseStream { ack })))) => {
                         log::trace!("{}/{}: sending close", self.id, id);
+                        self.wake_new_outbound();
                         self.pending_write_frame
                             .replace(Frame::close_stream(id, ack).into());
                         continue;
@@ -519,6 +523,7 @@ impl<T: AsyncRead + AsyncWrite + Unpin> Active<T> {
 
     fn on_drop_stream(&mut self, stream_id: StreamId) -> Option<Frame<()>> {
         let s = self.streams.remove(&stream_id).expect("stream not found");
+        self.wake_new_outbound();
 
         log::trace!("{}: removing dropped stream {}", self.id, stream_id);
         let frame = {
@@ -584,9 +589,14 @@ impl<T: AsyncRead + AsyncWrite + Unpin> Active<T> {
                     .lock()
                     .update_state(self.id, id, State::Open { acknowledged: true });
             }
-            if let Some(waker) = self.new_outbound_stream_waker.take() {
-                waker.wake();
-            }
+        }
+
+        // Streams leave the backlog of unacknowledged streams when they are acknowledged or closed.
+        if [header::ACK, header::FIN, header::RST]
+            .into_iter()
+            .any(|flag| frame.header().flags().contains(flag))
+        {
+            self.wake_new_outbound();
         }
 
         let action = match frame.header().tag() {
@@ -912,5 +922,13 @@ impl<T> Active<T> {
                 w.wake()
             }
         }
+        self.wake_new_outbound();
+    }
+
+    /// Wake the task waiting in `poll_new_outbound` because the ACK backlog may have shrunk.
+    fn wake_new_outbound(&mut self) {
+        if let Some(waker) = self.new_outbound_stream_waker.take() {
+            waker.wake();
+        }
     }
 }
-- 
2.43.0


From c15d5149cc4f9034541e4fb7389af4a99140a8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:32 +0000
Subject: [PATCH 08/13] fix: wake the task driving the connection when a stream
 is opened

Commands of a stream opened while the driver was parked, and other streams
existed, went unnoticed. Likewise, the driver did not learn about the end of
the connection caused by poll_new_outbound.
---
 yamux/src/connection.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/yamux/src/connection.rs b/yamux/src/connection.rs
index 84ed657..6168b22 100644
--- a/yamux/src/connection.rs
+++ b/yamux/src/connection.rs
@@ -294,7 +294,7 @@ struct Active<T> {
 
     streams: IntMap<StreamId, Arc<Mutex<stream::Shared>>>,
     stream_receivers: SelectAll<TaggedStream<StreamId, mpsc::Receiver<StreamCommand>>>,
-    no_streams_waker: Option<Waker>,
+    driver_waker: Option<Waker>,
 
     pending_read_frame: Option<Frame<()>>,
     pending_write_frame: Option<Frame<()>>,
@@ -366,7 +366,7 @@ impl<T: AsyncRead + AsyncWrite + Unpin> Active<T> {
             socket,
             streams: IntMap::default(),
             stream_receivers: SelectAll::default(),
-            no_streams_waker: None,
+            driver_waker: None,
             next_id: match mode {
                 Mode::Client => 1,
                 Mode::Server => 2,
@@ -396,6 +396,9 @@ impl<T: AsyncRead + AsyncWrite + Unpin> Active<T> {
     /// This should be called in the context of an unrecoverable error on the connection.
     fn cleanup(mut self, error: ConnectionError) -> Cleanup {
         self.drop_all_streams();
+        if let Some(waker) = self.driver_waker.take() {
+            waker.wake();
+        }
 
         Cleanup::new(self.stream_receivers, error)
     }
@@ -459,10 +462,7 @@ impl<T: AsyncRead + AsyncWrite + Unpin> Active<T> {
                         };
                         continue;
                     }
-                    Poll::Ready(None) => {
-                        self.no_streams_waker = Some(cx.waker().clone());
-                    }
-                    Poll::Pending => {}
+                    Poll::Ready(None) | Poll::Pending => {}
                 }
             }
 
@@ -494,6 +494,9 @@ impl<T: AsyncRead + AsyncWrite + Unpin> Active<T> {
             }
 
             // If we make it this far, at least one of the above must have registered a waker.
+            // None of them notices a new outbound stream, or that `poll_new_outbound` ended the
+            // connection, so remember the waker for that.
+            self.driver_waker = Some(cx.waker().clone());
             return Poll::Pending;
         }
     }
@@ -831,7 +834,7 @@ impl<T: AsyncRead + AsyncWrite + Unpin> Active<T> {
 
         let (sender, receiver) = mpsc::channel(10); // 10 is an arbitrary number.
         self.stream_receivers.push(TaggedStream::new(id, receiver));
-        if let Some(waker) = self.no_streams_waker.take() {
+        if let Some(waker) = self.driver_waker.take() {
             waker.wake();
         }
 
@@ -851,7 +854,7 @@ impl<T: AsyncRead + AsyncWrite + Unpin> Active<T> {
 
         let (sender, receiver) = mpsc::channel(10); // 10 is an arbitrary number.
         self.stream_receivers.push(TaggedStream::new(id, receiver));
-        if let Some(waker) = self.no_streams_waker.take() {
+        if let Some(waker) = self.driver_waker.take() {
             waker.wake();
         }
 
-- 
2.43.0


From 3203547dedbc52d72ae56f925e3a58e26a84572e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:33 +0000
Subject: [PATCH 09/13] fix: keep reading while a reply to the remote waits to
 be sent

When a ping arrived while the socket accepted no more bytes, reading stopped
until the pong was sent. Two endpoints in that state never made progress.
---
 yamux/src/connection.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/yamux/src/connection.rs b/yamux/src/connection.rs
index 6168b22..499ecbe 100644
--- a/yamux/src/connection.rs
+++ b/yamux/src/connection.rs
@@ -42,6 +42,9 @@ pub use stream::{Packet, State, Stream};
 /// Next connection identifier, used for debug logging.
 static NEXT_ID: AtomicU32 = AtomicU32::new(1);
 
+/// How many replies to the remote may wait to be sent before we stop reading.
+const MAX_PENDING_READ_FRAMES: usize = 16;
+
 /// How the connection is used.
 #[derive(Copy, Clone, Debug, Hash, PartialEq, Eq)]
 pub enum Mode {
@@ -296,7 +299,7 @@ struct Active<T> {
     stream_receivers: SelectAll<TaggedStream<StreamId, mpsc::Receiver<StreamCommand>>>,
     driver_waker: Option<Waker>,
 
-    pending_read_frame: Option<Frame<()>>,
+    pending_read_frames: VecDeque<Frame<()>>,
     pending_write_frame: Option<Frame<()>>,
     new_outbound_stream_waker: Option<Waker>,
 
@@ -371,7 +374,7 @@ impl<T: AsyncRead + AsyncWrite + Unpin> Active<T> {
                 Mode::Client => 1,
                 Mode::Server => 2,
             },
-            pending_read_frame: None,
+            pending_read_frames: VecDeque::new(),
             pending_write_frame: None,
             new_outbound_stream_waker: None,
             rtt: rtt::Rtt::new(),
@@ -384,7 +387,7 @@ impl<T: AsyncRead + AsyncWrite + Unpin> Active<T> {
         self.drop_all_streams();
 
         let pending_frames = self
-            .pending_read_frame
+            .pending_read_frames
             .into_iter()
             .chain(self.pending_write_frame)
             .collect::<VecDeque<Frame<()>>>();
@@ -419,8 +422,8 @@ impl<T: AsyncRead + AsyncWrite + Unpin> Active<T> {
                 // Privilege pending `Pong` and `GoAway` `Frame`s
                 // over `Frame`s from the receivers.
                 if let Some(frame) = self
-                    .pending_read_frame
-                    .take()
+                    .pending_read_frames
+                    .pop_front()
                     .or_else(|| self.pending_write_frame.take())
                 {
                     self.socket.start_send_unpin(frame)?;
@@ -466,7 +469,9 @@ impl<T: AsyncRead + AsyncWrite + Unpin> Active<T> {
                 }
             }
 
-            if self.pending_read_frame.is_none() {
+            // Keep reading while replies are waiting to be sent: both ends waiting for the other one
+            // to read would be a deadlock.
+            if self.pending_read_frames.len() < MAX_PENDING_READ_FRAMES {
                 match self.socket.poll_next_unpin(cx) {
                     Poll::Ready(Some(frame)) => {
                         match self.on_frame(frame?)? {
@@ -477,11 +482,11 @@ impl<T: AsyncRead + AsyncWrite + Unpin> Active<T> {
                             }
                             Action::Ping(f) => {
                                 log::trace!("{}/{}: pong", self.id, f.header().stream_id());
-                                self.pending_read_frame.replace(f.into());
+                                self.pending_read_frames.push_back(f.into());
                             }
                             Action::Terminate(f) => {
                                 log::trace!("{}: sending term", self.id);
-                                self.pending_read_frame.replace(f.into());
+                                self.pending_read_frames.push_back(f.into());
                             }
                         }
                         continue;
-- 
2.43.0


From fdad3e39f7113737d2d86a8121bf926981f8b809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:57 +0000
Subject: [PATCH 10/13] fix: read while the connection is closing

Closing waits for the remaining frames to be written, which may never happen
when the remote, too, waits for its frames to be read.
---
 yamux/src/connection/closing.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/yamux/src/connection/closing.rs b/yamux/src/connection/closing.rs
index 062d789..d7940f7 100644
--- a/yamux/src/connection/closing.rs
+++ b/yamux/src/connection/closing.rs
@@ -5,7 +5,7 @@ use crate::Result;
 use crate::{frame, StreamId};
 use futures::channel::mpsc;
 use futures::stream::{Fuse, SelectAll};
-use futures::{ready, AsyncRead, AsyncWrite, SinkExt, StreamExt};
+use futures::{AsyncRead, AsyncWrite, SinkExt, StreamExt};
 use std::collections::VecDeque;
 use std::future::Future;
 use std::pin::Pin;
@@ -36,6 +36,13 @@ where
             socket,
         }
     }
+
+    /// Read and ignore what the remote sends.
+    ///
+    /// The remote may not read our frames before we have read what it is sending.
+    fn discard_inbound(&mut self, cx: &mut Context<'_>) {
+        while let Poll::Ready(Some(Ok(_))) = self.socket.poll_next_unpin(cx) {}
+    }
 }
 
 impl<T> Future for Closing<T>
@@ -75,7 +82,10 @@ where
                     }
                 }
                 State::FlushingPendingFrames => {
-                    ready!(this.socket.poll_ready_unpin(cx))?;
+                    if this.socket.poll_ready_unpin(cx)?.is_pending() {
+                        this.discard_inbound(cx);
+                        return Poll::Pending;
+                    }
 
                     match this.pending_frames.pop_front() {
                         Some(frame) => this.socket.start_send_unpin(frame)?,
@@ -83,7 +93,10 @@ where
                     }
                 }
                 State::ClosingSocket => {
-                    ready!(this.socket.poll_close_unpin(cx))?;
+                    if this.socket.poll_close_unpin(cx)?.is_pending() {
+                        this.discard_inbound(cx);
+                        return Poll::Pending;
+                    }
 
                     return Poll::Ready(Ok(()));
                 }
-- 
2.43.0


From 5a5ec5db63f77dba5297b0f13313b144b4dfadd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:49 +0000
Subject: [PATCH 11/13] fix: reading a stream must not steal the wake-up of its
 writer

With the stream's halves in different tasks, a reader that wanted to send a
window update replaced the waker the writer had registered with the channel to
the connection. The writer then was never woken.
---
 yamux/src/connection/stream.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/yamux/src/connection/stream.rs b/yamux/src/connection/stream.rs
index ebf58e7..12d4dfd 100644
--- a/yamux/src/connection/stream.rs
+++ b/yamux/src/connection/stream.rs
@@ -96,6 +96,9 @@ pub struct Stream {
     conn: connection::Id,
     config: Arc<Config>,
     sender: mpsc::Sender<StreamCommand>,
+    /// Used for sending window updates only: reading and writing may happen in different tasks
+    /// and a [`mpsc::Sender`] remembers only one of them.
+    window_update_sender: mpsc::Sender<StreamCommand>,
     flag: Flag,
     shared: Arc<Mutex<Shared>>,
 }
@@ -129,6 +132,7 @@ impl Stream {
             id,
             conn,
             config: config.clone(),
+            window_update_sender: sender.clone(),
             sender,
             flag: Flag::Ack,
             shared: Arc::new(Mutex::new(Shared::new(
@@ -153,6 +157,7 @@ impl Stream {
             id,
             conn,
             config: config.clone(),
+            window_update_sender: sender.clone(),
             sender,
             flag: Flag::Syn,
             shared: Arc::new(Mutex::new(Shared::new(
@@ -219,7 +224,7 @@ impl Stream {
         }
 
         ready!(self
-            .sender
+            .window_update_sender
             .poll_ready(cx)
             .map_err(|_| self.write_zero_err())?);
 
@@ -234,7 +239,7 @@ impl Stream {
                 .update_state(self.conn, self.id, State::Open { acknowledged: true });
         }
         let cmd = StreamCommand::SendFrame(frame);
-        self.sender
+        self.window_update_sender
             .start_send(cmd)
             .map_err(|_| self.write_zero_err())?;
 
-- 
2.43.0


From dfadfcc1b36859c7d978be90d4fcd7d06833bd9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:07 +0000
Subject: [PATCH 12/13] fix: a read does not fail when the connection ends
 during it

---
 yamux/src/connection/stream.rs | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/yamux/src/connection/stream.rs b/yamux/src/connection/stream.rs
index 12d4dfd..e078707 100644
--- a/yamux/src/connection/stream.rs
+++ b/yamux/src/connection/stream.rs
@@ -265,12 +265,9 @@ impl futures::stream::Stream for Stream {
             return Poll::Ready(None);
         }
 
-        match self.send_window_update(cx) {
-            Poll::Ready(Ok(())) => {}
-            Poll::Ready(Err(e)) => return Poll::Ready(Some(Err(e))),
-            // Continue reading buffered data even though sending a window update blocked.
-            Poll::Pending => {}
-        }
+        // Continue reading buffered data even though sending a window update blocked, or failed
+        // because the connection has just ended.
+        let _ = self.send_window_update(cx);
 
         let mut shared = self.shared();
 
@@ -318,12 +315,9 @@ impl AsyncRead for Stream {
             return Poll::Ready(Ok(0));
         }
 
-        match self.send_window_update(cx) {
-            Poll::Ready(Ok(())) => {}
-            Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
-            // Continue reading buffered data even though sending a window update blocked.
-            Poll::Pending => {}
-        }
+        // Continue reading buffered data even though sending a window update blocked, or failed
+        // because the connection has just ended.
+        let _ = self.send_window_update(cx);
 
         // Copy data from stream buffer.
         let mut shared = self.shared();
-- 
2.43.0


From a1c07886a59a6681b6fb6b80ff0a0e7569abd86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:07 +0000
Subject: [PATCH 13/13] fix: mark a stream as closed before telling the
 connection

---
 yamux/src/connection/stream.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/yamux/src/connection/stream.rs b/yamux/src/connection/stream.rs
index e078707..f118629 100644
--- a/yamux/src/connection/stream.rs
+++ b/yamux/src/connection/stream.rs
@@ -433,11 +433,13 @@ impl AsyncWrite for Stream {
             }
             Flag::None => StreamCommand::CloseStream { ack: false },
         };
+        // The connection may handle the command as soon as it is sent and will then let a waiting
+        // `poll_new_outbound` look at this state.
+        self.shared()
+            .update_state(self.conn, self.id, State::SendClosed);
         self.sender
             .start_send(cmd)
             .map_err(|_| self.write_zero_err())?;
-        self.shared()
-            .update_state(self.conn, self.id, State::SendClosed);
         Poll::Ready(Ok(()))
     }
 }
-- 
2.43.0

