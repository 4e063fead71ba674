//! Simulated network. The harness is the other end of every connection.
use crate::io::{AsyncRead, AsyncWrite, ReadBuf};
use std::collections::VecDeque;
use std::io;
use std::net::SocketAddr;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

/// Addresses
pub trait ToSocketAddrs {
    /// the address
    fn addr(&self) -> SocketAddr;
}
impl ToSocketAddrs for SocketAddr {
    fn addr(&self) -> SocketAddr {
        *self
    }
}
impl ToSocketAddrs for str {
    fn addr(&self) -> SocketAddr {
        self.parse().unwrap()
    }
}
impl ToSocketAddrs for String {
    fn addr(&self) -> SocketAddr {
        self.parse().unwrap()
    }
}
impl<T: ToSocketAddrs + ?Sized> ToSocketAddrs for &T {
    fn addr(&self) -> SocketAddr {
        (**self).addr()
    }
}

#[derive(Default)]
struct Wire {
    inbound: VecDeque<Vec<u8>>, // to the server; a read returns bytes of one segment only
    eof: bool,
    reset: bool,
    read_waker: Option<Waker>,
    outbound: Vec<u8>, // from the server
    window: Option<usize>, // how many more bytes the peer takes
    gone: bool,        // the peer accepts no more bytes
    write_waker: Option<Waker>,
    server_closed_write: bool,
    server_closed: bool,
    reads: u64,
    other: Option<Peer>, // the other end, if it is a TcpStream as well
}
/// Test side of a connection.
#[derive(Clone)]
pub struct Peer(Arc<Mutex<Wire>>);
impl std::fmt::Debug for Peer {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Peer")
    }
}
fn wake(w: Option<Waker>) {
    if let Some(w) = w {
        w.wake();
    }
}
impl Peer {
    /// one segment arrives at the server
    pub fn push(&self, b: &[u8]) {
        if b.is_empty() {
            return;
        }
        let w = {
            let mut s = self.0.lock().unwrap();
            s.inbound.push_back(b.to_vec());
            s.read_waker.take()
        };
        wake(w);
    }
    /// the peer sends no more (and takes no more if `gone`)
    pub fn close(&self, gone: bool) {
        let (r, w) = {
            let mut s = self.0.lock().unwrap();
            s.eof = true;
            s.gone |= gone;
            (s.read_waker.take(), s.write_waker.take())
        };
        wake(r);
        wake(w);
    }
    /// the connection breaks
    pub fn reset(&self) {
        self.0.lock().unwrap().reset = true;
        self.close(true);
    }
    /// how many more bytes the peer takes before the sender has to wait
    pub fn window(&self, n: Option<usize>) {
        let w = {
            let mut s = self.0.lock().unwrap();
            s.window = n;
            s.write_waker.take()
        };
        wake(w);
    }
    /// what the server has sent since the last call
    pub fn take(&self) -> Vec<u8> {
        std::mem::take(&mut self.0.lock().unwrap().outbound)
    }
    /// the server has closed the connection (at least its sending side)
    pub fn closed(&self) -> bool {
        let s = self.0.lock().unwrap();
        s.server_closed || s.server_closed_write
    }
    /// the server holds neither half of the connection any more
    pub fn released(&self) -> bool {
        self.0.lock().unwrap().server_closed
    }
    /// bytes not read by the server yet
    pub fn unread(&self) -> usize {
        self.0.lock().unwrap().inbound.iter().map(|x| x.len()).sum()
    }
    /// number of reads the server made
    pub fn reads(&self) -> u64 {
        self.0.lock().unwrap().reads
    }
}

struct ListenState {
    addr: SocketAddr,
    queue: VecDeque<io::Result<(TcpStream, SocketAddr)>>,
    waker: Option<Waker>,
    open: bool,
}
static mut LISTENERS: Vec<Arc<Mutex<ListenState>>> = Vec::new();
#[allow(static_mut_refs)]
fn listeners() -> &'static mut Vec<Arc<Mutex<ListenState>>> {
    unsafe { &mut LISTENERS }
}
/// A client connects to the listener at `addr`. None: nobody listens there.
pub fn dial(addr: SocketAddr, from: SocketAddr) -> Option<Peer> {
    let wire = Arc::new(Mutex::new(Wire::default()));
    let s = TcpStream { held: Arc::new(Held(wire.clone())), addr, peer: from };
    offer(addr, Ok((s, from)))?;
    Some(Peer(wire))
}
/// Accepting fails once at the listener at `addr`.
pub fn fail_accept(addr: SocketAddr) {
    offer(addr, Err(io::Error::from(io::ErrorKind::ConnectionAborted)));
}
fn offer(addr: SocketAddr, c: io::Result<(TcpStream, SocketAddr)>) -> Option<()> {
    for l in listeners().iter() {
        let w = {
            let mut g = l.lock().unwrap();
            if g.addr != addr || !g.open {
                continue;
            }
            g.queue.push_back(c);
            g.waker.take()
        };
        wake(w);
        return Some(());
    }
    None
}
/// Simulated listener.
pub struct TcpListener(Arc<Mutex<ListenState>>);
impl std::fmt::Debug for TcpListener {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("TcpListener")
    }
}
impl Drop for TcpListener {
    fn drop(&mut self) {
        let q = {
            let mut g = self.0.lock().unwrap();
            g.open = false;
            std::mem::take(&mut g.queue)
        };
        drop(q);
    }
}
impl TcpListener {
    /// bind
    pub async fn bind<A: ToSocketAddrs>(a: A) -> io::Result<TcpListener> {
        let addr = a.addr();
        for l in listeners().iter() {
            let g = l.lock().unwrap();
            if g.addr == addr && g.open {
                return Err(io::Error::from(io::ErrorKind::AddrInUse));
            }
        }
        let l = Arc::new(Mutex::new(ListenState { addr, queue: VecDeque::new(), waker: None, open: true }));
        listeners().push(l.clone());
        Ok(TcpListener(l))
    }
    /// accept
    pub async fn accept(&self) -> io::Result<(TcpStream, SocketAddr)> {
        crate::future::poll_fn(|cx| self.poll_accept(cx)).await
    }
    /// accept
    pub fn poll_accept(&self, cx: &mut Context<'_>) -> Poll<io::Result<(TcpStream, SocketAddr)>> {
        let mut g = self.0.lock().unwrap();
        match g.queue.pop_front() {
            Some(c) => Poll::Ready(c),
            None => {
                g.waker = Some(cx.waker().clone());
                Poll::Pending
            }
        }
    }
    /// address
    pub fn local_addr(&self) -> io::Result<SocketAddr> {
        Ok(self.0.lock().unwrap().addr)
    }
}

struct Held(Arc<Mutex<Wire>>);
impl std::fmt::Debug for Held {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Held")
    }
}
impl Drop for Held {
    fn drop(&mut self) {
        let o = {
            let mut s = self.0.lock().unwrap();
            s.server_closed = true;
            s.server_closed_write = true;
            s.other.take()
        };
        if let Some(o) = o {
            o.close(true);
        }
    }
}
/// Simulated connection.
pub struct TcpStream {
    held: Arc<Held>,
    addr: SocketAddr,
    peer: SocketAddr,
}
impl std::fmt::Debug for TcpStream {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("TcpStream")
    }
}
fn poll_read(w: &Held, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
    let mut s = w.0.lock().unwrap();
    if s.reset {
        return Poll::Ready(Err(io::Error::from(io::ErrorKind::ConnectionReset)));
    }
    s.reads += 1;
    if buf.remaining() == 0 {
        return Poll::Ready(Ok(()));
    }
    if let Some(seg) = s.inbound.front_mut() {
        let n = seg.len().min(buf.remaining());
        buf.put_slice(&seg[..n]);
        if n == seg.len() {
            s.inbound.pop_front();
        } else {
            seg.drain(..n);
        }
        return Poll::Ready(Ok(()));
    }
    if s.eof {
        return Poll::Ready(Ok(()));
    }
    s.read_waker = Some(cx.waker().clone());
    Poll::Pending
}
fn poll_write(w: &Held, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
    let mut s = w.0.lock().unwrap();
    if s.reset || s.gone || s.server_closed_write {
        return Poll::Ready(Err(io::Error::from(io::ErrorKind::BrokenPipe)));
    }
    let n = match s.window {
        None => b.len(),
        Some(0) => {
            s.write_waker = Some(cx.waker().clone());
            return Poll::Pending;
        }
        Some(k) => {
            let n = k.min(b.len());
            s.window = Some(k - n);
            n
        }
    };
    match s.other.clone() {
        None => s.outbound.extend_from_slice(&b[..n]),
        Some(o) => {
            drop(s);
            o.push(&b[..n]);
        }
    }
    Poll::Ready(Ok(n))
}
fn shut(w: &Held) {
    let o = {
        let mut s = w.0.lock().unwrap();
        s.server_closed_write = true;
        s.other.clone()
    };
    if let Some(o) = o {
        o.close(false);
    }
}
macro_rules! reader {
    ($t:ty) => {
        impl AsyncRead for $t {
            fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
                poll_read(&self.held, cx, buf)
            }
        }
    };
}
macro_rules! writer {
    ($t:ty) => {
        impl AsyncWrite for $t {
            fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
                poll_write(&self.held, cx, b)
            }
            fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
                Poll::Ready(Ok(()))
            }
            fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
                shut(&self.held);
                Poll::Ready(Ok(()))
            }
        }
    };
}
reader!(TcpStream);
writer!(TcpStream);
static mut CALLS: Option<Vec<Peer>> = None;
/// Connections the program makes go to the harness from now on (see `calls`).
pub fn answer() {
    unsafe { CALLS = Some(Vec::new()) }
}
/// The connections the program has made since the last call; none with the given listener.
#[allow(static_mut_refs)]
pub fn calls() -> Vec<Peer> {
    unsafe { CALLS.as_mut().map(std::mem::take).unwrap_or_default() }
}
static mut NEXT_PORT: u16 = 40000;
impl TcpStream {
    /// connect
    #[allow(static_mut_refs)]
    pub async fn connect<A: ToSocketAddrs>(a: A) -> io::Result<TcpStream> {
        let addr = a.addr();
        crate::sim::yield_once().await;
        let from = unsafe {
            NEXT_PORT += 1;
            SocketAddr::from(([10, 0, 0, 2], NEXT_PORT))
        };
        let here = Arc::new(Mutex::new(Wire::default()));
        let stream = TcpStream { held: Arc::new(Held(here.clone())), addr: from, peer: addr };
        if let Some(c) = unsafe { CALLS.as_mut() } {
            c.push(Peer(here));
            crate::sim::yield_once().await;
            return Ok(stream);
        }
        match dial(addr, from) {
            None => {
                stream.held.0.lock().unwrap().other = None;
                Err(io::Error::from(io::ErrorKind::ConnectionRefused))
            }
            Some(there) => {
                there.0.lock().unwrap().other = Some(Peer(here.clone()));
                here.lock().unwrap().other = Some(there);
                Ok(stream)
            }
        }
    }
    /// split
    pub fn into_split(self) -> (tcp::OwnedReadHalf, tcp::OwnedWriteHalf) {
        (
            tcp::OwnedReadHalf { held: self.held.clone(), peer: self.peer },
            tcp::OwnedWriteHalf { held: self.held, peer: self.peer, keep: false },
        )
    }
    /// peer
    pub fn peer_addr(&self) -> io::Result<SocketAddr> {
        Ok(self.peer)
    }
    /// local
    pub fn local_addr(&self) -> io::Result<SocketAddr> {
        Ok(self.addr)
    }
    /// no effect here
    pub fn set_nodelay(&self, _: bool) -> io::Result<()> {
        Ok(())
    }
    /// no effect here
    pub fn nodelay(&self) -> io::Result<bool> {
        Ok(false)
    }
    /// no effect here
    pub fn set_linger(&self, _: Option<std::time::Duration>) -> io::Result<()> {
        Ok(())
    }
    /// no effect here
    pub fn set_ttl(&self, _: u32) -> io::Result<()> {
        Ok(())
    }
    /// split
    pub fn split(&mut self) -> (tcp::ReadHalf<'_>, tcp::WriteHalf<'_>) {
        (
            tcp::ReadHalf { held: self.held.clone(), peer: self.peer, life: std::marker::PhantomData },
            tcp::WriteHalf { held: self.held.clone(), peer: self.peer, life: std::marker::PhantomData },
        )
    }
}
macro_rules! ready {
    ($t:ty) => {
        impl $t {
            /// something to read, or the end
            pub async fn readable(&self) -> io::Result<()> {
                crate::future::poll_fn(|cx| readable(&self.held, cx)).await
            }
            /// room to write
            pub async fn writable(&self) -> io::Result<()> {
                crate::future::poll_fn(|cx| writable(&self.held, cx)).await
            }
            /// read what there is
            pub fn try_read(&self, b: &mut [u8]) -> io::Result<usize> {
                try_read(&self.held, b, false)
            }
            /// look at what there is
            pub async fn peek(&self, b: &mut [u8]) -> io::Result<usize> {
                crate::future::poll_fn(|cx| readable(&self.held, cx)).await?;
                try_read(&self.held, b, true)
            }
            /// write as much as there is room for
            pub fn try_write(&self, b: &[u8]) -> io::Result<usize> {
                let w = std::task::Waker::noop();
                match poll_write(&self.held, &mut Context::from_waker(w), b) {
                    Poll::Ready(r) => r,
                    Poll::Pending => Err(io::Error::from(io::ErrorKind::WouldBlock)),
                }
            }
        }
    };
}
fn readable(w: &Held, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
    let mut s = w.0.lock().unwrap();
    if s.reset || s.eof || !s.inbound.is_empty() {
        return Poll::Ready(Ok(()));
    }
    s.read_waker = Some(cx.waker().clone());
    Poll::Pending
}
fn writable(w: &Held, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
    let mut s = w.0.lock().unwrap();
    if s.window == Some(0) && !s.reset && !s.gone && !s.server_closed_write {
        s.write_waker = Some(cx.waker().clone());
        return Poll::Pending;
    }
    Poll::Ready(Ok(()))
}
fn try_read(w: &Held, b: &mut [u8], keep: bool) -> io::Result<usize> {
    let mut s = w.0.lock().unwrap();
    if s.reset {
        return Err(io::Error::from(io::ErrorKind::ConnectionReset));
    }
    s.reads += 1;
    if b.is_empty() {
        return Ok(0);
    }
    let eof = s.eof;
    match s.inbound.front_mut() {
        Some(seg) => {
            let n = seg.len().min(b.len());
            b[..n].copy_from_slice(&seg[..n]);
            if !keep {
                seg.drain(..n);
                if seg.is_empty() {
                    s.inbound.pop_front();
                }
            }
            Ok(n)
        }
        None if eof => Ok(0),
        None => Err(io::Error::from(io::ErrorKind::WouldBlock)),
    }
}
ready!(TcpStream);
ready!(tcp::OwnedReadHalf);
ready!(tcp::OwnedWriteHalf);
/// Halves
pub mod tcp {
    use super::*;
    /// Reading half.
    pub struct OwnedReadHalf {
        pub(super) held: Arc<Held>,
        pub(super) peer: SocketAddr,
    }
    /// Writing half.
    pub struct OwnedWriteHalf {
        pub(super) held: Arc<Held>,
        pub(super) peer: SocketAddr,
        pub(super) keep: bool,
    }
    impl Drop for OwnedWriteHalf {
        fn drop(&mut self) {
            if !self.keep {
                shut(&self.held);
            }
        }
    }
    impl OwnedWriteHalf {
        /// do not shut down
        pub fn forget(mut self) {
            self.keep = true;
        }
        /// together again
        pub fn reunite(self, r: OwnedReadHalf) -> Result<TcpStream, ReuniteError> {
            r.reunite(self)
        }
    }
    impl OwnedReadHalf {
        /// together again
        pub fn reunite(self, mut w: OwnedWriteHalf) -> Result<TcpStream, ReuniteError> {
            if !Arc::ptr_eq(&self.held, &w.held) {
                return Err(ReuniteError(self, w));
            }
            w.keep = true;
            Ok(TcpStream { held: self.held, addr: self.peer, peer: self.peer })
        }
    }
    /// Not two halves of one
    #[derive(Debug)]
    pub struct ReuniteError(pub OwnedReadHalf, pub OwnedWriteHalf);
    /// Borrowed reading half.
    #[derive(Debug)]
    pub struct ReadHalf<'a> {
        pub(super) held: Arc<Held>,
        pub(super) peer: SocketAddr,
        pub(super) life: std::marker::PhantomData<&'a mut TcpStream>,
    }
    /// Borrowed writing half.
    #[derive(Debug)]
    pub struct WriteHalf<'a> {
        pub(super) held: Arc<Held>,
        pub(super) peer: SocketAddr,
        pub(super) life: std::marker::PhantomData<&'a mut TcpStream>,
    }
    impl ReadHalf<'_> {
        /// peer
        pub fn peer_addr(&self) -> io::Result<SocketAddr> {
            Ok(self.peer)
        }
    }
    impl WriteHalf<'_> {
        /// peer
        pub fn peer_addr(&self) -> io::Result<SocketAddr> {
            Ok(self.peer)
        }
    }
    reader!(ReadHalf<'_>);
    writer!(WriteHalf<'_>);
    impl OwnedReadHalf {
        /// peer
        pub fn peer_addr(&self) -> io::Result<SocketAddr> {
            Ok(self.peer)
        }
    }
    impl OwnedWriteHalf {
        /// peer
        pub fn peer_addr(&self) -> io::Result<SocketAddr> {
            Ok(self.peer)
        }
    }
    impl std::fmt::Debug for OwnedReadHalf {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("OwnedReadHalf")
        }
    }
    impl std::fmt::Debug for OwnedWriteHalf {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("OwnedWriteHalf")
        }
    }
    reader!(OwnedReadHalf);
    writer!(OwnedWriteHalf);
}
