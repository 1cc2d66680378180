From 8cfc861543b5cd37366c4eea40c9969cc68f6411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:46:19 +0000
Subject: [PATCH 01/34] fix: wake a blocked stream writer when the stream or
 session ends

A writer waiting for send window kept its waker in the stream.
Nothing woke it when the reader learned that the stream was closed or
reset, or that the session was gone, so the write never returned.
---
 yamux/src/stream.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/yamux/src/stream.rs b/yamux/src/stream.rs
index 0c27408..ee25e51 100644
--- a/yamux/src/stream.rs
+++ b/yamux/src/stream.rs
@@ -340,6 +340,10 @@ impl AsyncRead for StreamHandle {
         self.check_self_state()?;
 
         if let Err(e) = self.recv_frames(cx) {
+            // the stream can no longer be written, a blocked writer must notice it
+            if let Some(waker) = self.writeable_wake.take() {
+                waker.wake()
+            }
             match e {
                 // read flag error or read data error
                 Error::UnexpectedFlag | Error::RecvWindowExceeded | Error::InvalidMsgType => {
-- 
2.43.0


From 493d2d6c91172d6b50099d1126da3bd9c3692ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:46:19 +0000
Subject: [PATCH 02/34] fix: return received data to the reader after the
 session is gone

A read took bytes out of the stream's buffer and then failed with
BrokenPipe when the window update could not be sent any more.
The bytes were lost although they had arrived.
---
 yamux/src/stream.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/yamux/src/stream.rs b/yamux/src/stream.rs
index ee25e51..37712e7 100644
--- a/yamux/src/stream.rs
+++ b/yamux/src/stream.rs
@@ -372,15 +372,13 @@ impl AsyncRead for StreamHandle {
         buf[..n].copy_from_slice(&b);
         match self.state {
             StreamState::RemoteClosing | StreamState::Closed | StreamState::Reset => (),
+            // the data is already taken out of the buffer, so it must be returned
+            // even if the session is gone, the next read will report that
             StreamState::LocalClosing => {
-                if self.close().is_err() {
-                    return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
-                }
+                let _ignore = self.close();
             }
             _ => {
-                if self.send_window_update().is_err() {
-                    return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
-                }
+                let _ignore = self.send_window_update();
             }
         }
 
-- 
2.43.0


From 03476287ea894d37930ab29eeb88db1cd7b690bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:46:19 +0000
Subject: [PATCH 03/34] fix: keep the keepalive timer of a session registered
 after a tick

The interval was polled only once per wakeup. After a tick its waker was
not registered for the next one, so with a silent peer no further ping
was sent and the missing answer was never noticed.
---
 yamux/src/session.rs | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/yamux/src/session.rs b/yamux/src/session.rs
index ecf7ea0..1d8a57a 100644
--- a/yamux/src/session.rs
+++ b/yamux/src/session.rs
@@ -627,21 +627,27 @@ where
             );
         }
 
+        let mut ticked = false;
         if let Some(ref mut interval) = self.keepalive {
-            match Pin::new(interval).as_mut().poll_next(cx) {
-                Poll::Ready(Some(_)) => {
-                    if self.local_go_away {
-                        // The remote peer has not responded to our sent go away code.
-                        // Assume that remote peer has gone away and this session should be closed.
-                        self.remote_go_away = true;
-                    } else {
-                        self.keep_alive(cx, Instant::now())?;
+            // Poll until it is pending, otherwise nothing wakes the session at the next tick
+            loop {
+                match Pin::new(&mut *interval).as_mut().poll_next(cx) {
+                    Poll::Ready(Some(_)) => ticked = true,
+                    Poll::Ready(None) => {
+                        debug!("yamux::Session poll keepalive interval finished");
+                        break;
                     }
+                    Poll::Pending => break,
                 }
-                Poll::Ready(None) => {
-                    debug!("yamux::Session poll keepalive interval finished");
-                }
-                Poll::Pending => (),
+            }
+        }
+        if ticked {
+            if self.local_go_away {
+                // The remote peer has not responded to our sent go away code.
+                // Assume that remote peer has gone away and this session should be closed.
+                self.remote_go_away = true;
+            } else {
+                self.keep_alive(cx, Instant::now())?;
             }
         }
 
-- 
2.43.0


From 75aead5bcb9933e5ae061581e5d28844e721a58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:46:19 +0000
Subject: [PATCH 04/34] fix: apply the frame size limit to data frames only

The length field of ping, window update and go away frames is a value,
not a body length. A ping whose id exceeded the maximum frame size
ended the session.
---
 yamux/src/frame.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yamux/src/frame.rs b/yamux/src/frame.rs
index 25686df..fb27221 100644
--- a/yamux/src/frame.rs
+++ b/yamux/src/frame.rs
@@ -293,7 +293,8 @@ impl Decoder for FrameCodec {
                 let flags = Flags(header_data.get_u16());
                 let stream_id = header_data.get_u32();
                 let length = header_data.get_u32();
-                if length > self.max_frame_size {
+                // only a data frame has a body, for the others it is a plain value
+                if ty == Type::Data && length > self.max_frame_size {
                     let err = io::Error::new(
                         io::ErrorKind::InvalidData,
                         format!("yamux.length={}", length),
-- 
2.43.0


From f74b0823f196bd515edbda73c4d2033e1134d935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:07:13 +0000
Subject: [PATCH 05/34] fix: reject address bytes whose numbers are not in
 shortest form

The varint decoder accepts padded and overlong numbers. An address read
from such bytes was unequal to itself after a round trip through text.
---
 multiaddr/src/protocol.rs | 35 ++++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/multiaddr/src/protocol.rs b/multiaddr/src/protocol.rs
index 9a4ed59..4fc4abb 100644
--- a/multiaddr/src/protocol.rs
+++ b/multiaddr/src/protocol.rs
@@ -87,22 +87,21 @@ impl<'a> Protocol<'a> {
     /// Parse a single `Protocol` value from its byte slice representation,
     /// returning the protocol as well as the remaining byte slice.
     pub fn from_bytes(input: &'a [u8]) -> Result<(Self, &'a [u8]), Error> {
-        use unsigned_varint::decode;
         fn split_header(n: usize, input: &[u8]) -> Result<(&[u8], &[u8]), Error> {
             if input.len() < n {
                 return Err(Error::DataLessThanLen);
             }
             Ok(input.split_at(n))
         }
-        let (id, input) = decode::u32(input)?;
+        let (id, input) = read_u32(input)?;
         match id {
             DNS4 => {
-                let (n, input) = decode::usize(input)?;
+                let (n, input) = read_usize(input)?;
                 let (data, rest) = split_header(n, input)?;
                 Ok((Protocol::DNS4(Cow::Borrowed(str::from_utf8(data)?)), rest))
             }
             DNS6 => {
-                let (n, input) = decode::usize(input)?;
+                let (n, input) = read_usize(input)?;
                 let (data, rest) = split_header(n, input)?;
                 Ok((Protocol::DNS6(Cow::Borrowed(str::from_utf8(data)?)), rest))
             }
@@ -129,12 +128,12 @@ impl<'a> Protocol<'a> {
                 Ok((Protocol::IP6(addr), rest))
             }
             TLS => {
-                let (n, input) = decode::usize(input)?;
+                let (n, input) = read_usize(input)?;
                 let (data, rest) = split_header(n, input)?;
                 Ok((Protocol::TLS(Cow::Borrowed(str::from_utf8(data)?)), rest))
             }
             P2P => {
-                let (n, input) = decode::usize(input)?;
+                let (n, input) = read_usize(input)?;
                 let (data, rest) = split_header(n, input)?;
                 check_p2p(data)?;
                 Ok((Protocol::P2P(Cow::Borrowed(data)), rest))
@@ -256,10 +255,32 @@ impl<'a> From<Ipv6Addr> for Protocol<'a> {
     }
 }
 
+/// Read a number, only its shortest encoding is valid: an address has exactly one byte
+/// representation.
+fn read_u32(input: &[u8]) -> Result<(u32, &[u8]), Error> {
+    use unsigned_varint::{decode, encode};
+    let (n, rest) = decode::u32(input)?;
+    if encode::u32(n, &mut encode::u32_buffer()) != &input[..input.len() - rest.len()] {
+        return Err(Error::InvalidMultiaddr);
+    }
+    Ok((n, rest))
+}
+
+/// The same as `read_u32`, for lengths
+fn read_usize(input: &[u8]) -> Result<(usize, &[u8]), Error> {
+    use unsigned_varint::{decode, encode};
+    let (n, rest) = decode::usize(input)?;
+    if encode::usize(n, &mut encode::usize_buffer()) != &input[..input.len() - rest.len()] {
+        return Err(Error::InvalidMultiaddr);
+    }
+    Ok((n, rest))
+}
+
 fn check_p2p(data: &[u8]) -> Result<(), Error> {
     let (code, bytes) = unsigned_varint::decode::u16(&data)?;
 
-    if code != SHA256_CODE {
+    // only the shortest form of the code is valid
+    if code != SHA256_CODE || data[0] != SHA256_CODE as u8 {
         return Err(Error::UnknownHash);
     }
 
-- 
2.43.0


From 05fc6125eaca318f9f0f7fdd07b889f6aecf7c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:07:13 +0000
Subject: [PATCH 06/34] fix: reject peer ids whose hash code is not in shortest
 form

The same digest could be carried by several unequal peer ids.
---
 secio/src/peer_id.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/secio/src/peer_id.rs b/secio/src/peer_id.rs
index 48ddc2e..061ef03 100644
--- a/secio/src/peer_id.rs
+++ b/secio/src/peer_id.rs
@@ -33,7 +33,8 @@ impl PeerId {
 
         let (code, bytes) = decode::u16(&data).map_err(|_| ())?;
 
-        if code != SHA256_CODE {
+        // only the shortest form of the code is valid, a peer has exactly one id
+        if code != SHA256_CODE || data[0] != SHA256_CODE as u8 {
             return Err(());
         }
 
-- 
2.43.0


From 0cfdb7708cca90cd37e891f336f690906d0f533b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:40:17 +0000
Subject: [PATCH 07/34] verif hook: run the service on a simulated network
 under cfg(verif)

---
 tentacle/src/runtime/mod.rs           |   2 +
 tentacle/src/runtime/sim.rs           | 196 ++++++++++++++++++++++++++
 tentacle/src/runtime/tokio_runtime.rs |  10 ++
 3 files changed, 208 insertions(+)
 create mode 100644 tentacle/src/runtime/sim.rs

diff --git a/tentacle/src/runtime/mod.rs b/tentacle/src/runtime/mod.rs
index 189c1cd..ef08b40 100644
--- a/tentacle/src/runtime/mod.rs
+++ b/tentacle/src/runtime/mod.rs
@@ -16,6 +16,8 @@ mod async_runtime;
     all(target_arch = "wasm32", feature = "wasm-timer")
 ))]
 mod generic_timer;
+#[cfg(all(not(target_arch = "wasm32"), feature = "tokio-runtime", verif))]
+pub mod sim;
 #[cfg(all(not(target_arch = "wasm32"), feature = "tokio-runtime"))]
 mod tokio_runtime;
 #[cfg(target_arch = "wasm32")]
diff --git a/tentacle/src/runtime/sim.rs b/tentacle/src/runtime/sim.rs
new file mode 100644
index 0000000..a3cbbbf
--- /dev/null
+++ b/tentacle/src/runtime/sim.rs
@@ -0,0 +1,196 @@
+//! Simulated sockets and controlled scheduling, only built with `--cfg verif`
+//!
+//! Everything the crate takes from the operating system (listeners, connections) and from the
+//! scheduler (the order in which its tasks run) goes through one installed `Simulator`.
+
+use futures::future::BoxFuture;
+use socket2::Socket;
+use std::{
+    fmt,
+    future::Future,
+    io,
+    net::{SocketAddr, TcpListener as StdListen},
+    pin::Pin,
+    sync::{Arc, Mutex},
+    task::{Context, Poll},
+};
+use tokio::prelude::{AsyncRead, AsyncWrite};
+
+pub use tokio::task::JoinHandle;
+
+/// One end of a simulated connection
+pub trait Link: AsyncRead + AsyncWrite + Send + Unpin {
+    /// Address of the other end
+    fn peer_addr(&self) -> io::Result<SocketAddr>;
+}
+
+/// A simulated listening socket
+pub trait Accept: Send + Sync + Unpin {
+    /// The address listened on
+    fn local_addr(&self) -> io::Result<SocketAddr>;
+    /// Next incoming connection
+    fn poll_accept(
+        &mut self,
+        cx: &mut Context<'_>,
+    ) -> Poll<io::Result<(Box<dyn Link>, SocketAddr)>>;
+}
+
+/// Surrounds every poll of one task
+pub trait Gate: Send {
+    /// Returns false to put the poll off; the task is then scheduled again
+    fn enter(&mut self) -> bool;
+    /// After the poll
+    fn leave(&mut self);
+}
+
+/// The simulated environment
+pub trait Simulator: Send + Sync {
+    /// Listen on an address
+    fn bind(&self, addr: SocketAddr) -> io::Result<Box<dyn Accept>>;
+    /// Connect to an address
+    fn connect(&self, addr: SocketAddr) -> BoxFuture<'static, io::Result<Box<dyn Link>>>;
+    /// A new task
+    fn gate(&self) -> Box<dyn Gate>;
+}
+
+static CURRENT: Mutex<Option<Arc<dyn Simulator>>> = Mutex::new(None);
+
+/// Use this simulator from now on
+pub fn install(sim: Arc<dyn Simulator>) {
+    *CURRENT.lock().unwrap() = Some(sim);
+}
+
+fn current() -> Arc<dyn Simulator> {
+    CURRENT.lock().unwrap().clone().expect("no simulator")
+}
+
+struct Gated {
+    gate: Box<dyn Gate>,
+}
+
+impl Gated {
+    fn poll<F: Future>(&mut self, inner: Pin<&mut F>, cx: &mut Context<'_>) -> Poll<F::Output> {
+        if !self.gate.enter() {
+            cx.waker().wake_by_ref();
+            return Poll::Pending;
+        }
+        let res = inner.poll(cx);
+        self.gate.leave();
+        res
+    }
+}
+
+/// Spawn a task whose polls pass through the simulator
+pub fn spawn<F>(future: F) -> JoinHandle<F::Output>
+where
+    F: Future + Send + 'static,
+    F::Output: Send + 'static,
+{
+    let mut gated = Gated {
+        gate: current().gate(),
+    };
+    let mut future = Box::pin(future);
+    tokio::spawn(futures::future::poll_fn(move |cx| {
+        gated.poll(future.as_mut(), cx)
+    }))
+}
+
+/// Run at once
+pub fn block_in_place<F, R>(f: F) -> R
+where
+    F: FnOnce() -> R,
+{
+    f()
+}
+
+/// Run as an ordinary task
+pub fn spawn_blocking<F, R>(f: F) -> JoinHandle<R>
+where
+    F: FnOnce() -> R + Send + 'static,
+    R: Send + 'static,
+{
+    spawn(async move { f() })
+}
+
+/// Simulated listener
+pub struct TcpListener(Box<dyn Accept>);
+
+impl TcpListener {
+    /// Listen on an address
+    pub async fn bind(addr: &SocketAddr) -> io::Result<TcpListener> {
+        current().bind(*addr).map(TcpListener)
+    }
+
+    /// The address listened on
+    pub fn local_addr(&self) -> io::Result<SocketAddr> {
+        self.0.local_addr()
+    }
+
+    /// Next incoming connection
+    pub fn poll_accept(
+        &mut self,
+        cx: &mut Context<'_>,
+    ) -> Poll<io::Result<(TcpStream, SocketAddr)>> {
+        self.0
+            .poll_accept(cx)
+            .map(|res| res.map(|(link, addr)| (TcpStream(link), addr)))
+    }
+}
+
+impl fmt::Debug for TcpListener {
+    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+        write!(f, "TcpListener")
+    }
+}
+
+/// Simulated connection
+pub struct TcpStream(Box<dyn Link>);
+
+impl TcpStream {
+    /// Address of the other end
+    pub fn peer_addr(&self) -> io::Result<SocketAddr> {
+        self.0.peer_addr()
+    }
+}
+
+impl fmt::Debug for TcpStream {
+    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+        write!(f, "TcpStream")
+    }
+}
+
+impl AsyncRead for TcpStream {
+    fn poll_read(
+        mut self: Pin<&mut Self>,
+        cx: &mut Context<'_>,
+        buf: &mut [u8],
+    ) -> Poll<io::Result<usize>> {
+        Pin::new(&mut *self.0).poll_read(cx, buf)
+    }
+}
+
+impl AsyncWrite for TcpStream {
+    fn poll_write(
+        mut self: Pin<&mut Self>,
+        cx: &mut Context<'_>,
+        buf: &[u8],
+    ) -> Poll<io::Result<usize>> {
+        Pin::new(&mut *self.0).poll_write(cx, buf)
+    }
+
+    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
+        Pin::new(&mut *self.0).poll_flush(cx)
+    }
+
+    fn poll_shutdown(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
+        Pin::new(&mut *self.0).poll_shutdown(cx)
+    }
+}
+
+pub(crate) fn from_std(listen: StdListen) -> io::Result<TcpListener> {
+    current().bind(listen.local_addr()?).map(TcpListener)
+}
+
+pub(crate) async fn connect_std(_stream: Socket, addr: &SocketAddr) -> io::Result<TcpStream> {
+    current().connect(*addr).await.map(TcpStream)
+}
diff --git a/tentacle/src/runtime/tokio_runtime.rs b/tentacle/src/runtime/tokio_runtime.rs
index 9168a3e..169c542 100644
--- a/tentacle/src/runtime/tokio_runtime.rs
+++ b/tentacle/src/runtime/tokio_runtime.rs
@@ -1,10 +1,18 @@
+#[cfg(not(verif))]
 pub use tokio::{
     net::{TcpListener, TcpStream},
     spawn,
     task::{block_in_place, spawn_blocking, JoinHandle},
 };
 
+#[cfg(verif)]
+pub use super::sim::{block_in_place, spawn, spawn_blocking, JoinHandle, TcpListener, TcpStream};
+#[cfg(verif)]
+pub(crate) use super::sim::{connect_std, from_std};
+
+#[cfg(not(verif))]
 use socket2::Socket;
+#[cfg(not(verif))]
 use std::{
     io,
     net::{SocketAddr, TcpListener as StdListen},
@@ -13,10 +21,12 @@ use std::{
 #[cfg(feature = "tokio-timer")]
 pub use tokio::time::{delay_for, interval, timeout, Delay, Interval, Timeout};
 
+#[cfg(not(verif))]
 pub(crate) fn from_std(listen: StdListen) -> io::Result<TcpListener> {
     TcpListener::from_std(listen)
 }
 
+#[cfg(not(verif))]
 pub(crate) async fn connect_std(stream: Socket, addr: &SocketAddr) -> io::Result<TcpStream> {
     // on windows, if not set reuse address, but use socket2 and tokio `connect_std` function
     // will cause a error "Os {code: 10022, kind: InvalidInput, message: "An invalid parameter was provided." }"
-- 
2.43.0


From 33c4d74cc8da800b2a15a218561b8591302c36d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:40:17 +0000
Subject: [PATCH 08/34] fix: tell session protocol handles about the end of
 their session

A handle whose protocol was open when the session ended never got
`disconnected`. Its stream was stopped before the close event arrived.
---
 tentacle/src/protocol_handle_stream.rs | 31 +++++++++++++++++++-------
 tentacle/src/service.rs                |  6 +++--
 2 files changed, 27 insertions(+), 10 deletions(-)

diff --git a/tentacle/src/protocol_handle_stream.rs b/tentacle/src/protocol_handle_stream.rs
index 3926f42..217e425 100644
--- a/tentacle/src/protocol_handle_stream.rs
+++ b/tentacle/src/protocol_handle_stream.rs
@@ -379,6 +379,8 @@ pub struct SessionProtocolStream<T> {
     notify_sender: mpsc::Sender<u64>,
     notify_receiver: mpsc::Receiver<u64>,
     current_task: bool,
+    /// The handle has been told that the protocol is open
+    opened: bool,
     panic_report: mpsc::Sender<SessionEvent>,
     shutdown: Arc<AtomicBool>,
     future_task_sender: mpsc::Sender<BoxedFutureTask>,
@@ -410,6 +412,7 @@ where
             context,
             panic_report,
             current_task: false,
+            opened: false,
             shutdown,
             future_task_sender,
             flag,
@@ -438,17 +441,16 @@ where
         }
 
         match event {
-            Opened { version } => block_in_place(self.flag.connected(), || {
-                self.handle
-                    .connected(self.handle_context.as_mut(&self.context), &version)
-            }),
-            Closed => {
-                block_in_place(self.flag.disconnected(), || {
+            Opened { version } => {
+                self.opened = true;
+                block_in_place(self.flag.connected(), || {
                     self.handle
-                        .disconnected(self.handle_context.as_mut(&self.context))
-                });
+                        .connected(self.handle_context.as_mut(&self.context), &version)
+                })
             }
+            Closed => self.disconnect(),
             Disconnected => {
+                self.disconnect();
                 self.close();
             }
             Received { data } => block_in_place(self.flag.received(), || {
@@ -476,6 +478,19 @@ where
         self.current_task = false;
     }
 
+    /// Tell the handle that the protocol is closed, by itself or with its session
+    pub(crate) fn disconnect(&mut self) {
+        if self.opened {
+            self.opened = false;
+            self.current_task = true;
+            block_in_place(self.flag.disconnected(), || {
+                self.handle
+                    .disconnected(self.handle_context.as_mut(&self.context))
+            });
+            self.current_task = false;
+        }
+    }
+
     fn handle_poll(&mut self, cx: &mut Context) -> bool {
         match Pin::new(&mut self.handle).poll(cx, self.handle_context.as_mut(&self.context)) {
             Poll::Ready(None) => {
diff --git a/tentacle/src/service.rs b/tentacle/src/service.rs
index 98c3f23..ac82190 100644
--- a/tentacle/src/service.rs
+++ b/tentacle/src/service.rs
@@ -500,7 +500,7 @@ where
                     self.session_proto_handles
                         .insert((id, *proto_id), Buffer::new(sender));
 
-                    let stream = SessionProtocolStream::new(
+                    let mut stream = SessionProtocolStream::new(
                         handle,
                         self.service_context.clone_self(),
                         Arc::clone(&session_control.inner),
@@ -514,7 +514,9 @@ where
                     );
                     let (sender, receiver) = futures::channel::oneshot::channel();
                     let handle = crate::runtime::spawn(async move {
-                        future::select(stream.for_each(|_| future::ready(())), receiver).await;
+                        future::select((&mut stream).for_each(|_| future::ready(())), receiver)
+                            .await;
+                        stream.disconnect();
                     });
                     handles.push((Some(sender), handle));
                 }
-- 
2.43.0


From 3aa0ac44a17991d2e1c7a33ee413b986ad9fc798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:40:17 +0000
Subject: [PATCH 09/34] fix: report open protocols as closed before their
 session, once

When the remote side closed a session, protocols reported through
`handle_proto` got no Disconnected event. The close event could also be
sent twice by two tasks, the second one overtaking the first.
---
 tentacle/src/session.rs | 51 +++++++++++++++++++----------------------
 1 file changed, 23 insertions(+), 28 deletions(-)

diff --git a/tentacle/src/session.rs b/tentacle/src/session.rs
index f6db4fc..65a2e51 100644
--- a/tentacle/src/session.rs
+++ b/tentacle/src/session.rs
@@ -601,13 +601,9 @@ impl Session {
                 }
             }
             SessionEvent::SessionClose { .. } => {
-                if self.substreams.is_empty() {
-                    // if no proto open, just close session
-                    self.close_session();
-                } else {
-                    self.state = SessionState::LocalClose;
-                    self.close_all_proto(cx);
-                }
+                // if no proto open, just close session
+                self.state = SessionState::LocalClose;
+                self.close_all_proto(cx);
             }
             SessionEvent::ProtocolOpen { proto_id, .. } => {
                 if self.proto_streams.contains_key(&proto_id) {
@@ -704,24 +700,32 @@ impl Session {
     /// Try close all protocol
     #[inline]
     fn close_all_proto(&mut self, cx: &mut Context) {
-        if self.context.closed.load(Ordering::SeqCst) {
-            self.close_session()
-        } else {
-            for (pid, buffer) in self.substreams.iter_mut() {
-                buffer.push_high(ProtocolEvent::Close {
-                    id: *pid,
-                    proto_id: 0.into(),
-                });
-                buffer.try_send(cx);
-            }
-            self.context.closed.store(true, Ordering::SeqCst);
+        for (pid, buffer) in self.substreams.iter_mut() {
+            buffer.push_high(ProtocolEvent::Close {
+                id: *pid,
+                proto_id: 0.into(),
+            });
+            buffer.try_send(cx);
         }
+        self.context.closed.store(true, Ordering::SeqCst);
     }
 
     /// Close session
     fn close_session(&mut self) {
+        // the close event must be sent only once
+        self.state = SessionState::LocalClose;
         self.context.closed.store(true, Ordering::SeqCst);
 
+        let id = self.context.id;
+        let protos = ::std::mem::take(&mut self.proto_streams);
+        for (proto_id, _) in protos {
+            // make sure close protocol is early than close session
+            if self.event.contains(&proto_id) {
+                self.service_sender
+                    .push(SessionEvent::ProtocolClose { id, proto_id });
+            }
+        }
+
         let (mut sender, mut events) = self.service_sender.take();
         events.push_back(SessionEvent::SessionClose {
             id: self.context.id,
@@ -819,21 +823,12 @@ impl Stream for Session {
                     "Session({:?}) finished, LocalClose||Abnormal",
                     self.context.id
                 );
-                let id = self.context.id;
-                let protos = ::std::mem::take(&mut self.proto_streams);
-                for (proto_id, _) in protos {
-                    // make sure close protocol is early than close session
-                    if self.event.contains(&proto_id) {
-                        self.service_sender
-                            .push(SessionEvent::ProtocolClose { id, proto_id });
-                    }
-                }
                 self.close_session();
                 return self.wait_handle_poll(cx);
             }
             SessionState::RemoteClose => {
                 // try close all protocol stream, and then close session
-                if self.proto_streams.is_empty() {
+                if self.proto_streams.is_empty() || self.context.closed.load(Ordering::SeqCst) {
                     debug!("Session({:?}) finished, RemoteClose", self.context.id);
                     self.close_session();
                     return self.wait_handle_poll(cx);
-- 
2.43.0


From f54ed466f5020685dc53986bcedf9ac34f906275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:40:17 +0000
Subject: [PATCH 10/34] fix: give back the pending size of messages that are
 never sent

Messages for a protocol that is not open, and messages still queued when
a protocol closes, stayed in the pending data size of the session.
---
 tentacle/src/session.rs   | 21 ++++++++++++++++++++-
 tentacle/src/substream.rs | 21 ++++++++++++++++++++-
 2 files changed, 40 insertions(+), 2 deletions(-)

diff --git a/tentacle/src/session.rs b/tentacle/src/session.rs
index 65a2e51..c6531a9 100644
--- a/tentacle/src/session.rs
+++ b/tentacle/src/session.rs
@@ -4,7 +4,10 @@ use std::collections::{HashMap, HashSet};
 use std::{
     io::{self, ErrorKind},
     pin::Pin,
-    sync::{atomic::Ordering, Arc},
+    sync::{
+        atomic::{AtomicUsize, Ordering},
+        Arc,
+    },
     task::{Context, Poll},
     time::Duration,
 };
@@ -167,6 +170,8 @@ pub(crate) struct Session {
 
     /// Sub streams maps a stream id to a sender of sub stream
     substreams: HashMap<StreamId, PriorityBuffer<ProtocolEvent>>,
+    /// Size of the data handed to each sub stream and not yet sent
+    unsent: HashMap<StreamId, Arc<AtomicUsize>>,
     proto_streams: HashMap<ProtocolId, StreamId>,
 
     /// Clone to new sub stream
@@ -234,6 +239,7 @@ impl Session {
             keep_buffer: meta.keep_buffer,
             next_stream: 0,
             substreams: HashMap::default(),
+            unsent: HashMap::default(),
             proto_streams: HashMap::default(),
             proto_event_sender,
             proto_event_receiver,
@@ -428,6 +434,8 @@ impl Session {
             PriorityBuffer::new(session_to_proto_sender.clone()),
         );
         self.proto_streams.insert(proto_id, self.next_stream);
+        let unsent = Arc::new(AtomicUsize::new(0));
+        self.unsent.insert(self.next_stream, unsent.clone());
         let raw_part = substream.into_parts();
 
         match proto.spawn {
@@ -453,6 +461,7 @@ impl Session {
                     self.proto_event_sender.clone(),
                     session_to_proto_receiver,
                     self.context.clone(),
+                    unsent,
                 )
                 .proto_id(proto_id)
                 .stream_id(self.next_stream)
@@ -473,6 +482,7 @@ impl Session {
                     self.proto_event_sender.clone(),
                     session_to_proto_receiver,
                     self.context.clone(),
+                    unsent,
                 )
                 .proto_id(proto_id)
                 .stream_id(self.next_stream)
@@ -519,6 +529,11 @@ impl Session {
                 debug!("session [{}] proto [{}] closed", self.context.id, proto_id);
                 if self.substreams.remove(&id).is_some() {
                     self.proto_streams.remove(&proto_id);
+                    // what the sub stream has not sent will never be sent
+                    if let Some(unsent) = self.unsent.remove(&id) {
+                        self.context
+                            .decr_pending_data_size(unsent.swap(0, Ordering::AcqRel));
+                    }
                     if self.event.contains(&proto_id) {
                         self.event_output(
                             cx,
@@ -584,6 +599,9 @@ impl Session {
             SessionEvent::ProtocolMessage { proto_id, data, .. } => {
                 if let Some(stream_id) = self.proto_streams.get(&proto_id) {
                     if let Some(buffer) = self.substreams.get_mut(stream_id) {
+                        if let Some(unsent) = self.unsent.get(stream_id) {
+                            unsent.fetch_add(data.len(), Ordering::AcqRel);
+                        }
                         let event = ProtocolEvent::Message {
                             id: *stream_id,
                             proto_id,
@@ -597,6 +615,7 @@ impl Session {
                         buffer.try_send(cx);
                     }
                 } else {
+                    self.context.decr_pending_data_size(data.len());
                     trace!("protocol {} not ready", proto_id);
                 }
             }
diff --git a/tentacle/src/substream.rs b/tentacle/src/substream.rs
index a97bb55..f541f7e 100644
--- a/tentacle/src/substream.rs
+++ b/tentacle/src/substream.rs
@@ -4,7 +4,10 @@ use std::{
     collections::VecDeque,
     io::{self, ErrorKind},
     pin::Pin,
-    sync::{atomic::Ordering, Arc},
+    sync::{
+        atomic::{AtomicUsize, Ordering},
+        Arc,
+    },
     task::{Context, Poll},
 };
 use tokio::prelude::{AsyncRead, AsyncWrite};
@@ -73,6 +76,8 @@ pub(crate) struct Substream<U> {
     proto_id: ProtocolId,
 
     context: Arc<SessionContext>,
+    /// Size of the data received from session and not yet sent
+    unsent: Arc<AtomicUsize>,
     event: bool,
 
     config: SessionConfig,
@@ -142,6 +147,7 @@ where
             Poll::Ready(()) => {
                 sink.as_mut().start_send(frame)?;
                 self.context.decr_pending_data_size(data_size);
+                self.unsent.fetch_sub(data_size, Ordering::AcqRel);
                 Ok(false)
             }
             Poll::Pending => {
@@ -512,6 +518,8 @@ pub(crate) struct SubstreamBuilder {
     event: bool,
 
     context: Arc<SessionContext>,
+    /// Size of the data received from session and not yet sent
+    unsent: Arc<AtomicUsize>,
 
     service_proto_sender: Option<Buffer<ServiceProtocolEvent>>,
     session_proto_sender: Option<Buffer<SessionProtocolEvent>>,
@@ -528,6 +536,7 @@ impl SubstreamBuilder {
         event_sender: mpsc::Sender<ProtocolEvent>,
         event_receiver: priority_mpsc::Receiver<ProtocolEvent>,
         context: Arc<SessionContext>,
+        unsent: Arc<AtomicUsize>,
     ) -> Self {
         SubstreamBuilder {
             service_proto_sender: None,
@@ -536,6 +545,7 @@ impl SubstreamBuilder {
             event_receiver,
             event_sender,
             context,
+            unsent,
             id: 0,
             proto_id: 0.into(),
             keep_buffer: false,
@@ -594,6 +604,7 @@ impl SubstreamBuilder {
             proto_id: self.proto_id,
             config: self.config,
             context: self.context,
+            unsent: self.unsent,
             event: self.event,
 
             high_write_buf: VecDeque::new(),
@@ -633,6 +644,8 @@ pub(crate) struct SubstreamWritePart<U> {
     event_receiver: priority_mpsc::Receiver<ProtocolEvent>,
 
     context: Arc<SessionContext>,
+    /// Size of the data received from session and not yet sent
+    unsent: Arc<AtomicUsize>,
 }
 
 impl<U> SubstreamWritePart<U>
@@ -671,6 +684,7 @@ where
             Poll::Ready(()) => {
                 sink.as_mut().start_send(frame)?;
                 self.context.decr_pending_data_size(data_size);
+                self.unsent.fetch_sub(data_size, Ordering::AcqRel);
                 Ok(false)
             }
             Poll::Pending => {
@@ -948,6 +962,8 @@ pub(crate) struct SubstreamWritePartBuilder {
     config: SessionConfig,
 
     context: Arc<SessionContext>,
+    /// Size of the data received from session and not yet sent
+    unsent: Arc<AtomicUsize>,
 
     /// Send event to session
     event_sender: mpsc::Sender<ProtocolEvent>,
@@ -960,11 +976,13 @@ impl SubstreamWritePartBuilder {
         event_sender: mpsc::Sender<ProtocolEvent>,
         event_receiver: priority_mpsc::Receiver<ProtocolEvent>,
         context: Arc<SessionContext>,
+        unsent: Arc<AtomicUsize>,
     ) -> Self {
         SubstreamWritePartBuilder {
             event_receiver,
             event_sender,
             context,
+            unsent,
             id: 0,
             proto_id: 0.into(),
             config: SessionConfig::default(),
@@ -999,6 +1017,7 @@ impl SubstreamWritePartBuilder {
             proto_id: self.proto_id,
             config: self.config,
             context: self.context,
+            unsent: self.unsent,
 
             high_write_buf: VecDeque::new(),
 
-- 
2.43.0


From bd7007d35d9f44984506db92ffacd5a5aa113c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:40:17 +0000
Subject: [PATCH 11/34] fix: close a protocol stream exactly once after an
 error

After a flush error on a broken connection the session was never told
that the protocol is closed, so it could not be opened again. After a
codec error the handles were told twice and the error was dropped.
---
 tentacle/src/substream.rs | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/tentacle/src/substream.rs b/tentacle/src/substream.rs
index f541f7e..1c22041 100644
--- a/tentacle/src/substream.rs
+++ b/tentacle/src/substream.rs
@@ -244,7 +244,7 @@ where
         }
     }
 
-    /// When send or receive message error, output error and close stream
+    /// When send or receive message error, output error, the stream must be closed then
     fn error_close(&mut self, cx: &mut Context, error: io::Error) {
         self.dead = true;
         match error.kind() {
@@ -255,12 +255,14 @@ where
             | ErrorKind::UnexpectedEof => return,
             _ => (),
         }
-        self.event_sender.push(ProtocolEvent::Error {
-            id: self.id,
-            proto_id: self.proto_id,
-            error,
-        });
-        self.close_proto_stream(cx);
+        self.output_event(
+            cx,
+            ProtocolEvent::Error {
+                id: self.id,
+                proto_id: self.proto_id,
+                error,
+            },
+        );
     }
 
     /// Handling commands send by session
@@ -488,6 +490,7 @@ where
                 self.id, err
             );
             self.error_close(cx, err);
+            self.close_proto_stream(cx);
             return Poll::Ready(None);
         }
 
@@ -798,7 +801,7 @@ where
         }
     }
 
-    /// When send or receive message error, output error and close stream
+    /// When send or receive message error, output error, the stream must be closed then
     fn error_close(&mut self, cx: &mut Context, error: io::Error) {
         self.dead = true;
         match error.kind() {
@@ -809,12 +812,14 @@ where
             | ErrorKind::UnexpectedEof => return,
             _ => (),
         }
-        self.event_sender.push(ProtocolEvent::Error {
-            id: self.id,
-            proto_id: self.proto_id,
-            error,
-        });
-        self.close_proto_stream(cx);
+        self.output_event(
+            cx,
+            ProtocolEvent::Error {
+                id: self.id,
+                proto_id: self.proto_id,
+                error,
+            },
+        );
     }
 
     fn close_proto_stream(&mut self, cx: &mut Context) {
@@ -878,6 +883,7 @@ where
                 self.id, err
             );
             self.error_close(cx, err);
+            self.close_proto_stream(cx);
             return Poll::Ready(None);
         }
 
-- 
2.43.0


From 42c9bd3f9d6d43bcfcbe402c39f62df9eed371a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:40:17 +0000
Subject: [PATCH 12/34] fix: close the connections of a service that shuts down
 quickly

The sessions were forgotten without being told, and their tasks kept the
connections open.
---
 tentacle/src/service.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tentacle/src/service.rs b/tentacle/src/service.rs
index ac82190..965eb18 100644
--- a/tentacle/src/service.rs
+++ b/tentacle/src/service.rs
@@ -1304,9 +1304,10 @@ where
                     self.session_proto_handles.clear();
 
                     // don't care about any session action
-                    sessions
-                        .into_iter()
-                        .for_each(|i| self.session_close(cx, i, Source::Internal));
+                    sessions.into_iter().for_each(|i| {
+                        self.session_close(cx, i, Source::External);
+                        self.session_close(cx, i, Source::Internal)
+                    });
                 } else {
                     sessions
                         .into_iter()
-- 
2.43.0


From e2bda33b392574841e1472ffaa92c2d8dd6cc8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:40:17 +0000
Subject: [PATCH 13/34] fix: do not report the handle of a closed session as
 failed

A listen address update that reached a handle which had already ended
with its session was reported as a handle error and shut the service
down.
---
 tentacle/src/service.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/tentacle/src/service.rs b/tentacle/src/service.rs
index 965eb18..7cc9d54 100644
--- a/tentacle/src/service.rs
+++ b/tentacle/src/service.rs
@@ -462,6 +462,15 @@ where
                 }
                 SendResult::Ok => (),
                 SendResult::Disconnect => {
+                    // the handle of a closed session has ended normally
+                    if self
+                        .sessions
+                        .get(session_id)
+                        .map(|control| control.inner.closed.load(Ordering::SeqCst))
+                        .unwrap_or(true)
+                    {
+                        continue;
+                    }
                     error = true;
                     self.handle.handle_error(
                         &mut self.service_context,
-- 
2.43.0


From 14c8da2ab9d5424a2a4e0b5e16731d1b63b85805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:40:17 +0000
Subject: [PATCH 14/34] fix: keep session notify working after a protocol was
 closed

For protocols with events the sender to the session handle was dropped
when the protocol closed, although the handle lives as long as the
session.
---
 tentacle/src/service.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/tentacle/src/service.rs b/tentacle/src/service.rs
index 7cc9d54..ca8b0f3 100644
--- a/tentacle/src/service.rs
+++ b/tentacle/src/service.rs
@@ -946,7 +946,6 @@ where
                 )
             }
         }
-        self.session_proto_handles.remove(&(session_id, proto_id));
     }
 
     fn send_pending_task(&mut self, cx: &mut Context) {
-- 
2.43.0


From 2fe3b3c5353ee20cbc2e5e8e201aab2b91fd6316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:40:17 +0000
Subject: [PATCH 15/34] fix: run one timer per notify token

Setting a token again started a second timer, and a timer that was
removed still fired once more.
---
 tentacle/src/protocol_handle_stream.rs | 56 +++++++++++++++++---------
 1 file changed, 38 insertions(+), 18 deletions(-)

diff --git a/tentacle/src/protocol_handle_stream.rs b/tentacle/src/protocol_handle_stream.rs
index 217e425..e1d1691 100644
--- a/tentacle/src/protocol_handle_stream.rs
+++ b/tentacle/src/protocol_handle_stream.rs
@@ -92,9 +92,11 @@ pub struct ServiceProtocolStream<T> {
     handle_context: ProtocolContext,
     sessions: HashMap<SessionId, Arc<SessionContext>>,
     receiver: mpsc::Receiver<ServiceProtocolEvent>,
-    notify: HashMap<u64, Duration>,
-    notify_sender: mpsc::Sender<u64>,
-    notify_receiver: mpsc::Receiver<u64>,
+    /// The interval of each timer and the number it was started with
+    notify: HashMap<u64, (Duration, u64)>,
+    next_notify: u64,
+    notify_sender: mpsc::Sender<(u64, u64)>,
+    notify_receiver: mpsc::Receiver<(u64, u64)>,
     panic_report: mpsc::Sender<SessionEvent>,
     current_task: CurrentTask,
     shutdown: Arc<AtomicBool>,
@@ -124,6 +126,7 @@ where
             notify_sender,
             notify_receiver,
             notify: HashMap::new(),
+            next_notify: 0,
             current_task: CurrentTask::Idle,
             shutdown,
             panic_report,
@@ -205,8 +208,12 @@ where
             }
             SetNotify { interval, token } => {
                 self.current_task.run();
-                self.notify.entry(token).or_insert(interval);
-                self.set_notify(token);
+                // a running timer goes on as it is
+                if !self.notify.contains_key(&token) {
+                    self.notify.insert(token, (interval, self.next_notify));
+                    self.next_notify += 1;
+                    self.set_notify(token);
+                }
             }
             RemoveNotify { token } => {
                 self.current_task.run();
@@ -232,13 +239,13 @@ where
     }
 
     fn set_notify(&mut self, token: u64) {
-        if let Some(&interval) = self.notify.get(&token) {
+        if let Some(&(interval, number)) = self.notify.get(&token) {
             let mut sender = self.notify_sender.clone();
             // NOTE: A Interval/Delay will block tokio runtime from gracefully shutdown.
             //       So we spawn it in FutureTaskManager
             let task = async move {
                 crate::runtime::delay_for(interval).await;
-                if sender.send(token).await.is_err() {
+                if sender.send((token, number)).await.is_err() {
                     trace!("service notify token {} send err", token)
                 }
             };
@@ -311,8 +318,11 @@ where
         };
 
         match Pin::new(&mut self.notify_receiver).as_mut().poll_next(cx) {
-            Poll::Ready(Some(token)) => {
-                self.handle_event(ServiceProtocolEvent::Notify { token });
+            Poll::Ready(Some((token, number))) => {
+                // the timer may have been removed in the meantime
+                if self.notify.get(&token).map(|timer| timer.1) == Some(number) {
+                    self.handle_event(ServiceProtocolEvent::Notify { token });
+                }
                 is_pending &= false
             }
             Poll::Ready(None) => unreachable!(),
@@ -375,9 +385,11 @@ pub struct SessionProtocolStream<T> {
     handle_context: ProtocolContext,
     context: Arc<SessionContext>,
     receiver: mpsc::Receiver<SessionProtocolEvent>,
-    notify: HashMap<u64, Duration>,
-    notify_sender: mpsc::Sender<u64>,
-    notify_receiver: mpsc::Receiver<u64>,
+    /// The interval of each timer and the number it was started with
+    notify: HashMap<u64, (Duration, u64)>,
+    next_notify: u64,
+    notify_sender: mpsc::Sender<(u64, u64)>,
+    notify_receiver: mpsc::Receiver<(u64, u64)>,
     current_task: bool,
     /// The handle has been told that the protocol is open
     opened: bool,
@@ -409,6 +421,7 @@ where
             notify_sender,
             notify_receiver,
             notify: HashMap::new(),
+            next_notify: 0,
             context,
             panic_report,
             current_task: false,
@@ -465,8 +478,12 @@ where
                 self.set_notify(token);
             }
             SetNotify { token, interval } => {
-                self.notify.entry(token).or_insert(interval);
-                self.set_notify(token);
+                // a running timer goes on as it is
+                if !self.notify.contains_key(&token) {
+                    self.notify.insert(token, (interval, self.next_notify));
+                    self.next_notify += 1;
+                    self.set_notify(token);
+                }
             }
             RemoveNotify { token } => {
                 self.notify.remove(&token);
@@ -503,13 +520,13 @@ where
     }
 
     fn set_notify(&mut self, token: u64) {
-        if let Some(&interval) = self.notify.get(&token) {
+        if let Some(&(interval, number)) = self.notify.get(&token) {
             let mut sender = self.notify_sender.clone();
             // NOTE: A Interval/Delay will block tokio runtime from gracefully shutdown.
             //       So we spawn it in FutureTaskManager
             let task = async move {
                 crate::runtime::delay_for(interval).await;
-                if sender.send(token).await.is_err() {
+                if sender.send((token, number)).await.is_err() {
                     trace!("session notify token {} send err", token)
                 }
             };
@@ -566,8 +583,11 @@ where
         };
 
         match Pin::new(&mut self.notify_receiver).as_mut().poll_next(cx) {
-            Poll::Ready(Some(token)) => {
-                self.handle_event(SessionProtocolEvent::Notify { token });
+            Poll::Ready(Some((token, number))) => {
+                // the timer may have been removed in the meantime
+                if self.notify.get(&token).map(|timer| timer.1) == Some(number) {
+                    self.handle_event(SessionProtocolEvent::Notify { token });
+                }
                 is_pending &= false
             }
             Poll::Ready(None) => unreachable!(),
-- 
2.43.0


From 9938a465a11e932d9c941d04da2e4b16751e252e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:14:57 +0000
Subject: [PATCH 16/34] fix: allow dialing an address again after an immediate
 dial failure

The address stayed marked as being dialed when the transport refused it
at once, and later dials of it were ignored.
---
 tentacle/src/service.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tentacle/src/service.rs b/tentacle/src/service.rs
index ca8b0f3..1fd43e5 100644
--- a/tentacle/src/service.rs
+++ b/tentacle/src/service.rs
@@ -315,8 +315,8 @@ where
     /// Use by inner
     #[inline(always)]
     fn dial_inner(&mut self, address: Multiaddr, target: TargetProtocol) -> Result<()> {
-        self.dial_protocols.insert(address.clone(), target);
         let dial_future = self.multi_transport.dial(address.clone())?;
+        self.dial_protocols.insert(address.clone(), target);
 
         let key_pair = self.service_context.key_pair().cloned();
         let timeout = self.config.timeout;
-- 
2.43.0


From 397f9c39e3946aef1fac115d14113ffc5eebf14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:14:57 +0000
Subject: [PATCH 17/34] fix: report dials refused by the connection limit

A dialed connection that was ready when the limit had been reached was
dropped without a word, and the address could not be dialed again.
---
 tentacle/src/service.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/tentacle/src/service.rs b/tentacle/src/service.rs
index 1fd43e5..3d0623e 100644
--- a/tentacle/src/service.rs
+++ b/tentacle/src/service.rs
@@ -7,6 +7,7 @@ use log::{debug, error, log_enabled, trace, warn};
 use std::{
     borrow::Cow,
     collections::{HashMap, HashSet},
+    io,
     pin::Pin,
     sync::{
         atomic::{AtomicBool, AtomicUsize, Ordering},
@@ -1039,6 +1040,18 @@ where
                 }
                 if !self.reached_max_connection_limit() {
                     self.session_open(cx, handle, public_key, address, ty, listen_address);
+                } else if ty.is_outbound() {
+                    self.dial_protocols.remove(&address);
+                    self.handle.handle_error(
+                        &mut self.service_context,
+                        ServiceError::DialerError {
+                            address,
+                            error: DialerErrorKind::IoError(io::Error::new(
+                                io::ErrorKind::Other,
+                                "reached max connection limit",
+                            )),
+                        },
+                    )
                 }
             }
             SessionEvent::HandshakeError { ty, error, address } => {
-- 
2.43.0


From 8f69623f39d646a943f70d1f6744ddb7b248ef97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:14:57 +0000
Subject: [PATCH 18/34] fix: never exceed the configured connection number

One more session than configured was allowed.
---
 tentacle/src/service.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tentacle/src/service.rs b/tentacle/src/service.rs
index 3d0623e..48510df 100644
--- a/tentacle/src/service.rs
+++ b/tentacle/src/service.rs
@@ -637,7 +637,7 @@ where
         self.sessions
             .len()
             .checked_add(self.state.into_inner().unwrap_or_default())
-            .map(|count| self.config.max_connection_number < count)
+            .map(|count| self.config.max_connection_number <= count)
             .unwrap_or_default()
     }
 
-- 
2.43.0


From 42eb75fb60f8f21bf1a4ce739824a63b5dd97d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:14:57 +0000
Subject: [PATCH 19/34] fix: open no session or listener while shutting down

A session or listener that became ready after the close request kept the
service from ever finishing.
---
 tentacle/src/service.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tentacle/src/service.rs b/tentacle/src/service.rs
index 48510df..511a51b 100644
--- a/tentacle/src/service.rs
+++ b/tentacle/src/service.rs
@@ -1038,6 +1038,10 @@ where
                 if ty.is_outbound() {
                     self.state.decrease();
                 }
+                if self.state == State::PreShutdown {
+                    // the service is closing, no new session
+                    return;
+                }
                 if !self.reached_max_connection_limit() {
                     self.session_open(cx, handle, public_key, address, ty, listen_address);
                 } else if ty.is_outbound() {
@@ -1163,6 +1167,10 @@ where
                 listen_address,
                 incoming,
             } => {
+                if self.state == State::PreShutdown {
+                    // the service is closing, no new listener
+                    return;
+                }
                 self.handle.handle_event(
                     &mut self.service_context,
                     ServiceEvent::ListenStarted {
-- 
2.43.0


From b4b5a9c8b3fad1dea57085fe55343872543e6368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:14:57 +0000
Subject: [PATCH 20/34] fix: keep a starting listener when the same address is
 asked for again

The error of the second request removed the entry of the first one and
reported its listener as closed.
---
 tentacle/src/service.rs | 16 ++++++++++++----
 tentacle/src/session.rs |  8 ++++++++
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/tentacle/src/service.rs b/tentacle/src/service.rs
index 511a51b..8f7bc9e 100644
--- a/tentacle/src/service.rs
+++ b/tentacle/src/service.rs
@@ -285,7 +285,7 @@ where
                         listen_address: addr,
                         incoming,
                     },
-                    Err(error) => SessionEvent::ListenError { address, error },
+                    Err(error) => SessionEvent::ListenStartError { address, error },
                 };
                 if let Err(err) = sender.send(event).await {
                     error!("Listen address result send back error: {:?}", err);
@@ -1136,11 +1136,19 @@ where
                         &mut self.service_context,
                         ServiceEvent::ListenClose { address },
                     )
-                } else {
-                    // try start listen error
-                    self.state.decrease();
                 }
             }
+            #[cfg(not(target_arch = "wasm32"))]
+            SessionEvent::ListenStartError { address, error } => {
+                self.state.decrease();
+                self.handle.handle_error(
+                    &mut self.service_context,
+                    ServiceError::ListenError {
+                        address,
+                        error: ListenErrorKind::TransportError(error),
+                    },
+                )
+            }
             SessionEvent::SessionTimeout { id } => {
                 if let Some(session_control) = self.sessions.get(&id) {
                     self.handle.handle_error(
diff --git a/tentacle/src/session.rs b/tentacle/src/session.rs
index c6531a9..184bc68 100644
--- a/tentacle/src/session.rs
+++ b/tentacle/src/session.rs
@@ -76,12 +76,20 @@ pub(crate) enum SessionEvent {
         /// error
         error: TransportErrorKind,
     },
+    /// An established listener failed
     ListenError {
         /// listen address
         address: Multiaddr,
         /// error
         error: TransportErrorKind,
     },
+    /// A listener could not be started
+    ListenStartError {
+        /// listen address
+        address: Multiaddr,
+        /// error
+        error: TransportErrorKind,
+    },
     /// Protocol data
     ProtocolMessage {
         /// Session id
-- 
2.43.0


From 176e9443b51cec64b064f320b45080ee002f9897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:14:57 +0000
Subject: [PATCH 21/34] fix: report panics of a handle in poll and in late
 disconnects

A handle that panicked in `poll`, or when it was told about the end of a
closed session, was gone without a report, and the service kept running.
---
 tentacle/src/protocol_handle_stream.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/tentacle/src/protocol_handle_stream.rs b/tentacle/src/protocol_handle_stream.rs
index e1d1691..3d1613c 100644
--- a/tentacle/src/protocol_handle_stream.rs
+++ b/tentacle/src/protocol_handle_stream.rs
@@ -159,6 +159,7 @@ where
             .collect::<Vec<_>>();
         for session_id in closed_sessions {
             if let Some(session) = self.sessions.remove(&session_id) {
+                self.current_task.run_with_id(session_id);
                 self.handle
                     .disconnected(self.handle_context.as_mut(&session));
             }
@@ -228,7 +229,10 @@ where
     }
 
     fn handle_poll(&mut self, cx: &mut Context) -> bool {
-        match Pin::new(&mut self.handle).poll(cx, &mut self.handle_context) {
+        self.current_task.run();
+        let res = Pin::new(&mut self.handle).poll(cx, &mut self.handle_context);
+        self.current_task.idle();
+        match res {
             Poll::Ready(None) => {
                 self.need_poll = false;
                 true
@@ -509,7 +513,10 @@ where
     }
 
     fn handle_poll(&mut self, cx: &mut Context) -> bool {
-        match Pin::new(&mut self.handle).poll(cx, self.handle_context.as_mut(&self.context)) {
+        self.current_task = true;
+        let res = Pin::new(&mut self.handle).poll(cx, self.handle_context.as_mut(&self.context));
+        self.current_task = false;
+        match res {
             Poll::Ready(None) => {
                 self.need_poll = false;
                 true
-- 
2.43.0


From 6a26c800324a459d85bd19c8a0ec9fb5e6ecbbbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:14:57 +0000
Subject: [PATCH 22/34] fix: keep accepting after a connection without peer
 address

The tcp listener returned without waiting for the next connection, and
never accepted again.
---
 tentacle/src/transports/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tentacle/src/transports/mod.rs b/tentacle/src/transports/mod.rs
index 4c57241..6723c27 100644
--- a/tentacle/src/transports/mod.rs
+++ b/tentacle/src/transports/mod.rs
@@ -300,6 +300,8 @@ mod os {
                         )))),
                         Err(err) => {
                             debug!("stream get peer address error: {:?}", err);
+                            // there may be more connections to accept
+                            cx.waker().wake_by_ref();
                             Poll::Pending
                         }
                     },
-- 
2.43.0


From 02e48bf436e89517d20d2d053cd0faafd4b33489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:14:57 +0000
Subject: [PATCH 23/34] fix: go on reading after a websocket frame without data

After a ping, pong, text or empty frame the reader was not woken again
by the data that followed.
---
 tentacle/src/transports/ws.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tentacle/src/transports/ws.rs b/tentacle/src/transports/ws.rs
index 8621a68..8b332e8 100644
--- a/tentacle/src/transports/ws.rs
+++ b/tentacle/src/transports/ws.rs
@@ -356,6 +356,8 @@ impl AsyncRead for WsStream {
                 };
 
                 if data.is_empty() {
+                    // nothing for the reader, but there may be more
+                    cx.waker().wake_by_ref();
                     return Poll::Pending;
                 }
                 // when input buffer is big enough
-- 
2.43.0


From 7e5e2bddd5399f2f6d4f893ea3b74c1c1be6676f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:14:58 +0000
Subject: [PATCH 24/34] fix: keep accepting while a websocket handshake is
 under way

The websocket listener waited only for the handshake of the connection
it had just accepted. A peer that stalled or gave up stopped it for
good.
---
 tentacle/src/transports/ws.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tentacle/src/transports/ws.rs b/tentacle/src/transports/ws.rs
index 8b332e8..00a1f01 100644
--- a/tentacle/src/transports/ws.rs
+++ b/tentacle/src/transports/ws.rs
@@ -247,10 +247,13 @@ impl Stream for WebsocketListener {
                             },
                         }
                     });
+                    // there may be more connections to accept
+                    cx.waker().wake_by_ref();
                     self.poll_pending(cx)
                 }
                 Err(err) => {
                     debug!("stream get peer address error: {:?}", err);
+                    cx.waker().wake_by_ref();
                     Poll::Pending
                 }
             },
-- 
2.43.0


From c85330fb6f5338439e3685a915d11482520a0eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:45:48 +0000
Subject: [PATCH 25/34] fix: tell a protocol's handles it is closed before it
 can be opened again

---
 tentacle/src/substream.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/tentacle/src/substream.rs b/tentacle/src/substream.rs
index 1c22041..8428c50 100644
--- a/tentacle/src/substream.rs
+++ b/tentacle/src/substream.rs
@@ -1,4 +1,9 @@
-use futures::{channel::mpsc, prelude::*, stream::iter, SinkExt, StreamExt};
+use futures::{
+    channel::{mpsc, oneshot},
+    prelude::*,
+    stream::iter,
+    SinkExt, StreamExt,
+};
 use log::debug;
 use std::{
     collections::VecDeque,
@@ -200,12 +205,19 @@ where
             self.event_sender.clear()
         }
 
+        // the session may open the protocol again as soon as it knows, the handles must
+        // have been told before
+        let mut told = Vec::new();
+
         if let Some(ref mut service_proto_sender) = self.service_proto_sender {
             let (mut sender, mut events) = service_proto_sender.take();
             events.push_back(ServiceProtocolEvent::Disconnected {
                 id: self.context.id,
             });
+            let (done, wait) = oneshot::channel::<()>();
+            told.push(wait);
             crate::runtime::spawn(async move {
+                let _done = done;
                 let mut iter = iter(events).map(Ok);
                 if let Err(e) = sender.send_all(&mut iter).await {
                     debug!("stream close event send to proto handle error: {:?}", e)
@@ -219,7 +231,10 @@ where
             if self.context.closed.load(Ordering::SeqCst) {
                 events.push_back(SessionProtocolEvent::Disconnected);
             }
+            let (done, wait) = oneshot::channel::<()>();
+            told.push(wait);
             crate::runtime::spawn(async move {
+                let _done = done;
                 let mut iter = iter(events).map(Ok);
                 if let Err(e) = sender.send_all(&mut iter).await {
                     debug!("stream close event send to proto handle error: {:?}", e)
@@ -234,6 +249,9 @@ where
                 proto_id: self.proto_id,
             });
             crate::runtime::spawn(async move {
+                for wait in told {
+                    let _ignore = wait.await;
+                }
                 let mut iter = iter(events).map(Ok);
                 if let Err(e) = sender.send_all(&mut iter).await {
                     debug!("stream close event send to session error: {:?}", e)
-- 
2.43.0


From 2f4f174c0ed1ead5047c320173928e47e162720b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:45:48 +0000
Subject: [PATCH 26/34] verif hook: name the key agreements from outside

---
 secio/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/secio/src/lib.rs b/secio/src/lib.rs
index e9fef86..00e07b7 100644
--- a/secio/src/lib.rs
+++ b/secio/src/lib.rs
@@ -1,6 +1,7 @@
 //! Aes Encrypted communication and handshake process implementation
 
 #![deny(missing_docs)]
+#![cfg_attr(verif, allow(missing_docs))]
 use rand::RngCore;
 
 pub use crate::{handshake::handshake_struct::PublicKey, peer_id::PeerId};
@@ -22,6 +23,10 @@ mod sha256_compat;
 /// Supported algorithms
 mod support;
 
+#[cfg(verif)]
+#[doc(hidden)]
+pub use crate::dh_compat::KeyAgreement;
+
 /// Public key generated temporarily during the handshake
 pub type EphemeralPublicKey = Vec<u8>;
 
-- 
2.43.0


From e048cc0c71cf875b0489bb1caf5e69f3358ccf53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:59:49 +0000
Subject: [PATCH 27/34] fix: take a remote key in any encoding as the same
 identity

A peer could send its public key uncompressed or in hybrid form.
The key was reported as sent, so one key had several peer ids.
The key is now brought to the compressed form first.
This also recognises the own key in another form.
---
 secio/src/handshake/handshake_context.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/secio/src/handshake/handshake_context.rs b/secio/src/handshake/handshake_context.rs
index c97bb21..e793a08 100644
--- a/secio/src/handshake/handshake_context.rs
+++ b/secio/src/handshake/handshake_context.rs
@@ -144,7 +144,10 @@ impl HandshakeContext<Local> {
         // NOTE: Libp2p uses protobuf bytes to calculate order, but here we only use the original pubkey and nonce
         let nonce = propose.rand;
 
-        let public_key = match PublicKey::decode(&propose.pubkey) {
+        // the same key has several encodings, but is only one identity
+        let public_key = match PublicKey::decode(&propose.pubkey)
+            .and_then(|key| PublicKey::secp256k1_raw_key(key.inner_ref()).ok())
+        {
             Some(pubkey) => pubkey,
             None => {
                 debug!("failed to parse remote's public key flatbuffer message");
-- 
2.43.0


From 91b851d6397a0b8710de82ffd9ea3fa671f0c718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:59:49 +0000
Subject: [PATCH 28/34] fix: split a write that does not fit in one encrypted
 frame

A single write larger than the maximum frame length less the tag failed
with an error and broke the stream.
It now writes as much as fits and returns that count.
---
 secio/src/codec/secure_stream.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/secio/src/codec/secure_stream.rs b/secio/src/codec/secure_stream.rs
index fe8df5a..34e7b20 100644
--- a/secio/src/codec/secure_stream.rs
+++ b/secio/src/codec/secure_stream.rs
@@ -16,6 +16,9 @@ use std::{
 
 use crate::{crypto::BoxStreamCipher, error::SecioError};
 
+/// Every cipher adds a tag of this size to a frame
+const TAG_SIZE: usize = 16;
+
 enum RecvBuf {
     Vec(Vec<u8>),
     Byte(BytesMut),
@@ -216,6 +219,9 @@ where
         match self.socket.poll_ready_unpin(cx) {
             Poll::Ready(Ok(_)) => {
                 trace!("poll_write buf.len={}", buf.len());
+                // what does not fit in one frame is left to the next write
+                let max = self.socket.codec().max_frame_length();
+                let buf = &buf[..min(buf.len(), max.saturating_sub(TAG_SIZE))];
                 let frame = self.encode_buffer(buf);
                 self.socket.start_send_unpin(frame)?;
                 let _ignore = self.socket.poll_flush_unpin(cx)?;
-- 
2.43.0


From 0e6e1e9a8f6489ee6db3e434d51ea227a8c08bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:59:49 +0000
Subject: [PATCH 29/34] fix: keep empty reads and writes from disturbing the
 encrypted stream

An empty frame was read as the end of the stream.
A read into an empty buffer could replace data that was still waiting.
An empty frame is now skipped.
A read into an empty buffer returns at once.
---
 secio/src/codec/secure_stream.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/secio/src/codec/secure_stream.rs b/secio/src/codec/secure_stream.rs
index 34e7b20..8bfe236 100644
--- a/secio/src/codec/secure_stream.rs
+++ b/secio/src/codec/secure_stream.rs
@@ -166,6 +166,11 @@ where
         cx: &mut Context<'_>,
         buf: &mut [u8],
     ) -> Poll<io::Result<usize>> {
+        // nothing fits, so nothing may be taken from the socket
+        if buf.is_empty() {
+            return Poll::Ready(Ok(0));
+        }
+
         // when there is something in recv_buffer
         let copied = self.drain(buf);
         if copied > 0 {
@@ -182,6 +187,11 @@ where
                 // when input buffer is big enough
                 let n = decoded.len();
                 trace!("poll_read decoded.len={}", n);
+                // an empty frame is not the end of the stream
+                if n == 0 {
+                    cx.waker().wake_by_ref();
+                    return Poll::Pending;
+                }
                 if buf.len() >= n {
                     buf[..n].copy_from_slice(decoded.as_ref());
                     Poll::Ready(Ok(n))
-- 
2.43.0


From 95092c4f18c0e8228b57013f2390f8e9d8ca671b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:15:32 +0000
Subject: [PATCH 30/34] fix: deliver to other protocols while one protocol's
 queue is full

A session stopped handing out buffered messages at the first protocol whose
queue was full. The messages of all other protocols then waited for that one.
Stop only when the session itself is given up.
---
 tentacle/src/session.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tentacle/src/session.rs b/tentacle/src/session.rs
index 184bc68..0688986 100644
--- a/tentacle/src/session.rs
+++ b/tentacle/src/session.rs
@@ -380,8 +380,8 @@ impl Session {
                         self.context.pending_data_size()
                     );
                     buffer.clear();
+                    break;
                 }
-                break;
             }
         }
     }
-- 
2.43.0


From b0c7384ea04381052d08c3cf74f80dc4a0aafc1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:15:32 +0000
Subject: [PATCH 31/34] fix: refuse a protocol version that was not offered

The side that opens a protocol took whatever version the reply named.
A reply with a version that was not offered now counts as no common version.
---
 tentacle/src/protocol_select/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tentacle/src/protocol_select/mod.rs b/tentacle/src/protocol_select/mod.rs
index 2b0eb6b..cb36d52 100644
--- a/tentacle/src/protocol_select/mod.rs
+++ b/tentacle/src/protocol_select/mod.rs
@@ -151,6 +151,7 @@ pub(crate) async fn client_select<T: AsyncWrite + AsyncRead + Send + Unpin>(
     proto_info: ProtocolInfo,
 ) -> Result<(Framed<T, LengthDelimitedCodec>, String, Option<String>), io::Error> {
     let mut socket = Framed::new(handle, LengthDelimitedCodec::new());
+    let offered = proto_info.support_versions.clone();
 
     let data = proto_info.encode();
     trace!("client_select send_proto(len={}): {:#x}", data.len(), data);
@@ -177,7 +178,10 @@ pub(crate) async fn client_select<T: AsyncWrite + AsyncRead + Send + Unpin>(
         // Due to possible business data in the buffer, it cannot be directly discarded.
         socket,
         remote_info.name,
-        remote_info.support_versions.pop(),
+        remote_info
+            .support_versions
+            .pop()
+            .filter(|version| offered.contains(version)),
     ))
 }
 
-- 
2.43.0


From 5f9d985b09ef29e74b87b7e82468282aa1d51602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:56:51 +0000
Subject: [PATCH 32/34] fix: report the identify timeout for peers that did not
 identify themselves

The check was the wrong way round: peers that had sent their message were
reported after the timeout, and silent peers never were.
---
 protocols/identify/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protocols/identify/src/lib.rs b/protocols/identify/src/lib.rs
index 5e47b6e..9681634 100644
--- a/protocols/identify/src/lib.rs
+++ b/protocols/identify/src/lib.rs
@@ -341,7 +341,7 @@ impl<T: Callback> ServiceProtocol for IdentifyProtocol<T> {
         }
 
         for (session_id, info) in &self.remote_infos {
-            if info.has_received && (info.connected_at + info.timeout) <= Instant::now() {
+            if !info.has_received && (info.connected_at + info.timeout) <= Instant::now() {
                 debug!("{:?} receive identify message timeout", info.peer_id);
                 if self
                     .callback
-- 
2.43.0


From 44f3e67ff8548b25d770d8ac68f9b47da98d1f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:56:51 +0000
Subject: [PATCH 33/34] fix: remember that a ping is under way

The flag was never set. Every right pong was treated as an unexpected one
and led to a disconnect, and a missing pong was never reported.
---
 protocols/ping/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/protocols/ping/src/lib.rs b/protocols/ping/src/lib.rs
index 115b04b..712a73b 100644
--- a/protocols/ping/src/lib.rs
+++ b/protocols/ping/src/lib.rs
@@ -229,6 +229,7 @@ where
                                 }
                             }
                             ps.nonce = send_nonce;
+                            ps.processing = true;
                             Some(*session_id)
                         }
                     })
-- 
2.43.0


From e58927635902bdcea9afbdb6abcc8259043203bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:56:51 +0000
Subject: [PATCH 34/34] fix: read the nonce of a ping message without assuming
 alignment

A message from the network is not aligned to four bytes. The plain read was
undefined behaviour, and debug builds aborted on it.
---
 protocols/ping/src/lib.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/protocols/ping/src/lib.rs b/protocols/ping/src/lib.rs
index 712a73b..83352df 100644
--- a/protocols/ping/src/lib.rs
+++ b/protocols/ping/src/lib.rs
@@ -362,11 +362,15 @@ impl PingMessage {
         match reader.payload().to_enum() {
             protocol_mol::PingPayloadUnionReader::Ping(reader) => {
                 let le = reader.nonce().raw_data().as_ptr() as *const u32;
-                Some(PingPayload::Ping(u32::from_le(unsafe { *le })))
+                Some(PingPayload::Ping(u32::from_le(unsafe {
+                    le.read_unaligned()
+                })))
             }
             protocol_mol::PingPayloadUnionReader::Pong(reader) => {
                 let le = reader.nonce().raw_data().as_ptr() as *const u32;
-                Some(PingPayload::Pong(u32::from_le(unsafe { *le })))
+                Some(PingPayload::Pong(u32::from_le(unsafe {
+                    le.read_unaligned()
+                })))
             }
         }
     }
-- 
2.43.0

