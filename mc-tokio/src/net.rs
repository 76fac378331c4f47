//! Unix sockets in memory. The socket file is a real one (an inode of type socket at the given path).

use crate::mc::{self, rt};
use real::io::{AsyncRead, AsyncWrite, ReadBuf};
use std::cell::{RefCell, RefMut};
use std::collections::VecDeque;
use std::io;
use std::path::{Path, PathBuf};
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll, Waker};

#[derive(Default)]
pub(crate) struct Net {
    listeners: Vec<(PathBuf, Shared<Listening>)>,
    pub(crate) accepted: usize,
    /// Sockets accepted by the server whose server side is not closed yet.
    pub(crate) open: usize,
    /// What reading and writing has failed with.
    faults: Vec<String>,
    accept_faults: usize,
    /// What the next such operation that could do something fails with.
    forced: Option<(Op, i32)>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Op {
    Accept,
    Read,
    Write,
}
/// Lets the next operation of this kind (that would not have to wait) fail.
pub fn fail_next(op: Op, errno: i32) {
    rt().unwrap().net.forced = Some((op, errno));
}
pub fn fault_is_pending() -> bool {
    rt().unwrap().net.forced.is_some()
}
fn forced(op: Op) -> Option<i32> {
    match rt().unwrap().net.forced {
        Some((o, e)) if o == op => {
            rt().unwrap().net.forced = None;
            Some(e)
        }
        _ => None,
    }
}

/// Shared between coroutines of one OS thread only.
struct Shared<T>(Arc<RefCell<T>>);
unsafe impl<T> Send for Shared<T> {}
unsafe impl<T> Sync for Shared<T> {}
impl<T> Clone for Shared<T> {
    fn clone(&self) -> Self {
        Shared(self.0.clone())
    }
}
impl<T> Shared<T> {
    #[allow(clippy::arc_with_non_send_sync)]
    fn new(t: T) -> Self {
        Shared(Arc::new(RefCell::new(t)))
    }
    fn b(&self) -> RefMut<'_, T> {
        self.0.borrow_mut()
    }
}

#[derive(Default)]
struct Listening {
    backlog: VecDeque<Shared<Sock>>,
    waker: Option<Waker>,
    /// Not known to have nothing to accept. (Whoever is ready asks the kernel, which first looks for a
    /// free descriptor and only then for a connection.)
    ready: bool,
    closed: bool,
}

#[derive(Default)]
struct Sock {
    to_server: VecDeque<u8>,
    to_client: VecDeque<u8>,
    /// The client sends nothing more.
    client_shut: bool,
    client_closed: bool,
    /// The client closed without reading everything.
    reset: bool,
    /// The server sends nothing more.
    server_shut: bool,
    /// Server side halves that exist.
    halves: u8,
    server_closed: bool,
    reader: Option<Waker>,
    writer: Option<Waker>,
}
impl Sock {
    fn wake_reader(&mut self) {
        if let Some(w) = self.reader.take() {
            w.wake()
        }
    }
    fn wake_writer(&mut self) {
        if let Some(w) = self.writer.take() {
            w.wake()
        }
    }
    fn server_close(&mut self) {
        self.server_shut = true;
        self.server_closed = true;
        if let Some(r) = rt() {
            r.net.open -= 1;
        }
    }
}

/// How many connections the server has accepted, and how many of these it has not closed.
pub fn server_sockets() -> (usize, usize) {
    let n = &rt().unwrap().net;
    (n.accepted, n.open)
}

/// The errors with which reading from or writing to accepted sockets has failed.
pub fn faults() -> Vec<String> {
    rt().unwrap().net.faults.clone()
}
/// How often accepting has failed with `accept_error`.
pub fn accept_faults() -> usize {
    rt().unwrap().net.accept_faults
}

fn fault(errno: i32) -> io::Error {
    let e = io::Error::from_raw_os_error(errno);
    mc::uncounted(|| rt().unwrap().net.faults.push(e.to_string()));
    e
}

////////////////////////////////////////////////////////////////////////////////
// the server's side

#[derive(Clone, Debug, Default)]
pub struct SocketAddr(Option<PathBuf>);
impl SocketAddr {
    pub fn is_unnamed(&self) -> bool {
        self.0.is_none()
    }
    pub fn as_pathname(&self) -> Option<&Path> {
        self.0.as_deref()
    }
}

pub struct UnixListener {
    path: PathBuf,
    l: Shared<Listening>,
}
impl std::fmt::Debug for UnixListener {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("UnixListener")
    }
}

impl UnixListener {
    pub fn bind<P: AsRef<Path>>(path: P) -> io::Result<UnixListener> {
        mc::point("bind");
        let path = path.as_ref().to_path_buf();
        use std::os::unix::ffi::OsStrExt;
        let c = std::ffi::CString::new(path.as_os_str().as_bytes())?;
        //creates a socket inode, like bind() does
        if unsafe { libc::mknod(c.as_ptr(), libc::S_IFSOCK | 0o700, 0) } != 0 {
            let e = io::Error::last_os_error();
            return Err(if e.raw_os_error() == Some(libc::EEXIST) { io::Error::from_raw_os_error(libc::EADDRINUSE) } else { e });
        }
        mc::uncounted(|| {
            let l = Shared::new(Listening::default());
            rt().unwrap().net.listeners.push((path.clone(), l.clone()));
            Ok(UnixListener { path, l })
        })
    }
    pub fn poll_accept(&self, cx: &mut Context<'_>) -> Poll<io::Result<(UnixStream, SocketAddr)>> {
        mc::point("accept");
        let mut l = self.l.b();
        let n = &rt().unwrap().net;
        if l.ready && mc::cfg().max_open.is_some_and(|max| n.open >= max) {
            return Poll::Ready(Err(io::Error::from_raw_os_error(libc::EMFILE)));
        }
        if let Some(e) = mc::cfg().accept_error {
            if !l.backlog.is_empty() && mc::choose(2) == 1 {
                rt().unwrap().net.accept_faults += 1;
                return Poll::Ready(Err(io::Error::from_raw_os_error(e)));
            }
        }
        if !l.backlog.is_empty() {
            if let Some(e) = forced(Op::Accept) {
                return Poll::Ready(Err(io::Error::from_raw_os_error(e)));
            }
        }
        match l.backlog.pop_front() {
            Some(s) => {
                let n = &mut rt().unwrap().net;
                n.accepted += 1;
                n.open += 1;
                s.b().halves = 2;
                Poll::Ready(Ok((UnixStream { r: Half { s: s.clone(), write: false }, w: Half { s, write: true } }, SocketAddr(None))))
            }
            None => {
                l.ready = false;
                l.waker = Some(cx.waker().clone());
                Poll::Pending
            }
        }
    }
    pub async fn accept(&self) -> io::Result<(UnixStream, SocketAddr)> {
        std::future::poll_fn(|cx| self.poll_accept(cx)).await
    }
    pub fn local_addr(&self) -> io::Result<SocketAddr> {
        Ok(SocketAddr(Some(self.path.clone())))
    }
}

impl Drop for UnixListener {
    fn drop(&mut self) {
        let mut l = self.l.b();
        l.closed = true;
        for s in l.backlog.drain(..) {
            //never accepted
            let mut s = s.b();
            s.server_shut = true;
            s.server_closed = true;
        }
    }
}

/// One half of the server's side.
struct Half {
    s: Shared<Sock>,
    write: bool,
}
impl Drop for Half {
    fn drop(&mut self) {
        let mut s = self.s.b();
        if self.write {
            s.server_shut = true;
        }
        s.halves -= 1;
        if s.halves == 0 {
            s.server_close();
        }
    }
}

impl Half {
    fn read(&self, cx: Option<&mut Context<'_>>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        mc::point("read");
        let mut s = self.s.b();
        if buf.remaining() == 0 {
            return Poll::Ready(Ok(()));
        }
        let n = s.to_server.len().min(buf.remaining());
        if n > 0 {
            if let Some(e) = forced(Op::Read) {
                return Poll::Ready(Err(fault(e)));
            }
            let c = mc::cfg();
            let mut alternatives = vec![n];
            if c.short_reads && n > 1 {
                alternatives.push(1);
                if n > 2 {
                    alternatives.push(n - 1);
                }
                if n > 5 {
                    alternatives.push(n / 2);
                }
            }
            if c.io_errors {
                alternatives.push(0);
            }
            let n = alternatives[mc::choose(alternatives.len())];
            if n == 0 {
                return Poll::Ready(Err(fault(libc::ECONNRESET)));
            }
            let (a, b) = s.to_server.as_slices();
            let k = n.min(a.len());
            buf.put_slice(&a[..k]);
            buf.put_slice(&b[..n - k]);
            s.to_server.drain(..n);
            return Poll::Ready(Ok(()));
        }
        if s.reset {
            s.reset = false;
            return Poll::Ready(Err(fault(libc::ECONNRESET)));
        }
        if s.client_shut || s.client_closed {
            return Poll::Ready(Ok(()));
        }
        match cx {
            Some(cx) => {
                s.reader = Some(cx.waker().clone());
                Poll::Pending
            }
            None => Poll::Ready(Err(io::ErrorKind::WouldBlock.into())),
        }
    }
    fn write(&self, cx: Option<&mut Context<'_>>, buf: &[u8]) -> Poll<io::Result<usize>> {
        mc::point("write");
        let mut s = self.s.b();
        if s.client_closed || s.server_shut {
            return Poll::Ready(Err(fault(libc::EPIPE)));
        }
        if buf.is_empty() {
            return Poll::Ready(Ok(0));
        }
        let c = mc::cfg();
        let n = c.capacity.saturating_sub(s.to_client.len()).min(buf.len());
        if n == 0 {
            return match cx {
                Some(cx) => {
                    s.writer = Some(cx.waker().clone());
                    Poll::Pending
                }
                None => Poll::Ready(Err(io::ErrorKind::WouldBlock.into())),
            };
        }
        if let Some(e) = forced(Op::Write) {
            return Poll::Ready(Err(fault(e)));
        }
        let mut alternatives = vec![n];
        if c.short_writes && n > 1 {
            alternatives.push(1);
            if n > 2 {
                alternatives.push(n - 1);
            }
            if n > 5 {
                alternatives.push(n / 2);
            }
        }
        if c.io_errors {
            alternatives.push(0);
        }
        let n = alternatives[mc::choose(alternatives.len())];
        if n == 0 {
            return Poll::Ready(Err(fault(libc::EPIPE)));
        }
        mc::uncounted(|| s.to_client.extend(&buf[..n]));
        Poll::Ready(Ok(n))
    }
    fn shutdown(&self) -> Poll<io::Result<()>> {
        mc::point("shutdown");
        self.s.b().server_shut = true;
        Poll::Ready(Ok(()))
    }
    async fn readable(&self) -> io::Result<()> {
        std::future::poll_fn(|cx| {
            mc::point("readable");
            let mut s = self.s.b();
            if s.to_server.is_empty() && !s.client_shut && !s.client_closed && !s.reset {
                s.reader = Some(cx.waker().clone());
                return Poll::Pending;
            }
            Poll::Ready(Ok(()))
        })
        .await
    }
    async fn writable(&self) -> io::Result<()> {
        std::future::poll_fn(|cx| {
            mc::point("writable");
            let mut s = self.s.b();
            if s.to_client.len() >= mc::cfg().capacity && !s.client_closed && !s.server_shut {
                s.writer = Some(cx.waker().clone());
                return Poll::Pending;
            }
            Poll::Ready(Ok(()))
        })
        .await
    }
    fn try_read(&self, b: &mut [u8]) -> io::Result<usize> {
        let mut rb = ReadBuf::new(b);
        match self.read(None, &mut rb) {
            Poll::Ready(r) => r.map(|_| rb.filled().len()),
            Poll::Pending => unreachable!(),
        }
    }
    fn try_write(&self, b: &[u8]) -> io::Result<usize> {
        match self.write(None, b) {
            Poll::Ready(r) => r,
            Poll::Pending => unreachable!(),
        }
    }
}

pub struct UnixStream {
    r: Half,
    w: Half,
}

macro_rules! reader {
    ($t:ty, $f:tt) => {
        impl AsyncRead for $t {
            fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
                self.$f.read(Some(cx), buf)
            }
        }
        impl $t {
            pub async fn readable(&self) -> io::Result<()> {
                self.$f.readable().await
            }
            pub fn try_read(&self, b: &mut [u8]) -> io::Result<usize> {
                self.$f.try_read(b)
            }
            pub fn try_read_buf<B: bytes::BufMut>(&self, buf: &mut B) -> io::Result<usize> {
                let mut tmp = [0u8; 4096];
                let want = buf.chunk_mut().len().min(4096);
                let n = self.$f.try_read(&mut tmp[..want])?;
                buf.put_slice(&tmp[..n]);
                Ok(n)
            }
        }
    };
}
macro_rules! writer {
    ($t:ty, $f:tt) => {
        impl AsyncWrite for $t {
            fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
                self.$f.write(Some(cx), buf)
            }
            fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
                Poll::Ready(Ok(()))
            }
            fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
                self.$f.shutdown()
            }
        }
        impl $t {
            pub async fn writable(&self) -> io::Result<()> {
                self.$f.writable().await
            }
            pub fn try_write(&self, b: &[u8]) -> io::Result<usize> {
                self.$f.try_write(b)
            }
        }
    };
}
macro_rules! both {
    ($($t:ident),*) => {$(
        impl std::fmt::Debug for $t {
            fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str(stringify!($t))
            }
        }
        impl $t {
            pub fn peer_addr(&self) -> io::Result<SocketAddr> {
                Ok(SocketAddr(None))
            }
            pub fn local_addr(&self) -> io::Result<SocketAddr> {
                Ok(SocketAddr(None))
            }
        }
    )*};
}

pub struct OwnedReadHalf(Half);
pub struct OwnedWriteHalf(Half);
impl OwnedReadHalf {
    pub fn reunite(self, o: OwnedWriteHalf) -> Result<UnixStream, ()> {
        Ok(UnixStream { r: self.0, w: o.0 })
    }
}
impl OwnedWriteHalf {
    pub fn forget(self) {
        //keeps the write direction open
        let shut = self.0.s.b().server_shut;
        let s = self.0.s.clone();
        drop(self);
        s.b().server_shut = shut;
    }
}
impl UnixStream {
    pub fn into_split(self) -> (OwnedReadHalf, OwnedWriteHalf) {
        (OwnedReadHalf(self.r), OwnedWriteHalf(self.w))
    }
}
mod halves {
    use super::*;
    pub struct ReadHalf<'a>(pub(super) &'a Half);
    pub struct WriteHalf<'a>(pub(super) &'a Half);
    impl UnixStream {
        pub fn split(&mut self) -> (ReadHalf<'_>, WriteHalf<'_>) {
            (ReadHalf(&self.r), WriteHalf(&self.w))
        }
    }
    impl AsyncRead for ReadHalf<'_> {
        fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
            self.0.read(Some(cx), buf)
        }
    }
    impl AsyncWrite for WriteHalf<'_> {
        fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
            self.0.write(Some(cx), buf)
        }
        fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
            Poll::Ready(Ok(()))
        }
        fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
            self.0.shutdown()
        }
    }
}
reader!(UnixStream, r);
writer!(UnixStream, w);
mod inner {
    use super::*;
    reader!(OwnedReadHalf, 0);
    writer!(OwnedWriteHalf, 0);
}
both!(UnixStream, OwnedReadHalf, OwnedWriteHalf);

pub mod unix {
    pub use super::halves::{ReadHalf, WriteHalf};
    pub use super::{OwnedReadHalf, OwnedWriteHalf, SocketAddr};
}

////////////////////////////////////////////////////////////////////////////////
// the client's side

pub struct Client {
    s: Shared<Sock>,
}

/// Has a socket been bound at the path, and not been closed?
pub fn listening(path: &Path) -> bool {
    rt().unwrap().net.listeners.iter().any(|l| l.0 == path && !l.1.b().closed)
}

impl Client {
    pub fn connect(path: &Path) -> Option<Client> {
        mc::point("connect");
        let l = rt()?.net.listeners.iter().rev().find(|l| l.0 == path && !l.1.b().closed)?.1.clone();
        let s = Shared::new(Sock::default());
        let mut l = l.b();
        l.ready = true;
        l.backlog.push_back(s.clone());
        if let Some(w) = l.waker.take() {
            w.wake()
        }
        Some(Client { s })
    }
    /// False if the server has closed the connection.
    pub fn send(&self, b: &[u8]) -> bool {
        mc::point("send");
        let mut s = self.s.b();
        if s.server_closed {
            return false;
        }
        s.to_server.extend(b);
        s.wake_reader();
        true
    }
    /// Takes everything that has arrived.
    pub fn take(&self) -> Vec<u8> {
        let mut s = self.s.b();
        let v: Vec<u8> = s.to_client.drain(..).collect();
        if !v.is_empty() {
            s.wake_writer();
        }
        v
    }
    /// Takes at most n bytes of what has arrived.
    pub fn take_some(&self, n: usize) -> Vec<u8> {
        let mut s = self.s.b();
        let n = n.min(s.to_client.len());
        let v: Vec<u8> = s.to_client.drain(..n).collect();
        if !v.is_empty() {
            s.wake_writer();
        }
        v
    }
    pub fn available(&self) -> usize {
        self.s.b().to_client.len()
    }
    /// The server will not send anything more.
    pub fn eof(&self) -> bool {
        self.s.b().server_shut
    }
    pub fn server_closed(&self) -> bool {
        self.s.b().server_closed
    }
    /// Bytes that the server has not read.
    pub fn unread(&self) -> usize {
        self.s.b().to_server.len()
    }
    pub fn shut(&self) {
        mc::point("client shutdown");
        let mut s = self.s.b();
        s.client_shut = true;
        s.wake_reader();
    }
    pub fn close(&self) {
        mc::point("client close");
        let mut s = self.s.b();
        if s.client_closed {
            return;
        }
        s.client_closed = true;
        s.client_shut = true;
        s.reset = !s.to_client.is_empty();
        s.to_client.clear();
        s.wake_reader();
        s.wake_writer();
    }
}
