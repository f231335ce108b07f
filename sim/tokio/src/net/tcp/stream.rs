use crate::future::poll_fn;
use crate::io::{AsyncRead, AsyncWrite, Interest, ReadBuf, Ready};
use crate::net::tcp::split::{split, ReadHalf, WriteHalf};
use crate::net::tcp::split_owned::{split_owned, OwnedReadHalf, OwnedWriteHalf};
use crate::net::{to_socket_addrs, ToSocketAddrs};

use std::future::Future;
use std::io;
use std::net::{Shutdown, SocketAddr};
use std::pin::Pin;
use std::task::{Context, Poll};
use std::time::Duration;

/// A TCP stream between a local and a remote socket.
#[derive(Debug)]
pub struct TcpStream {
    conn: usize,
    side: usize,
    nodelay: std::cell::Cell<bool>,
}

unsafe impl Sync for TcpStream {}

struct Connecting {
    id: usize,
    taken: bool,
}

impl Future for Connecting {
    type Output = io::Result<TcpStream>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let coop = ready!(crate::coop::poll_proceed(cx));
        let id = self.id;
        let r = ready!(simcore::with(|w| w.poll_connect(id, cx)));
        coop.made_progress();
        self.taken = true;
        Poll::Ready(r.map(|c| TcpStream::new(c, 0)))
    }
}

impl Drop for Connecting {
    fn drop(&mut self) {
        let (id, taken) = (self.id, self.taken);
        simcore::try_with(|w| w.connect_cancel(id, taken));
    }
}

impl TcpStream {
    pub(crate) fn new(conn: usize, side: usize) -> TcpStream {
        TcpStream { conn, side, nodelay: std::cell::Cell::new(false) }
    }

    /// The number of the simulated connection and the side of it that this socket is.
    pub fn sim_conn(&self) -> (usize, usize) {
        (self.conn, self.side)
    }

    /// Opens a TCP connection to a remote host.
    pub async fn connect<A: ToSocketAddrs>(addr: A) -> io::Result<TcpStream> {
        let addrs = to_socket_addrs(addr).await?;
        let mut last_err = None;
        for addr in addrs {
            match TcpStream::connect_addr(addr).await {
                Ok(stream) => return Ok(stream),
                Err(e) => last_err = Some(e),
            }
        }
        Err(last_err.unwrap_or_else(|| {
            io::Error::new(io::ErrorKind::InvalidInput, "could not resolve to any address")
        }))
    }

    pub(crate) async fn connect_addr(addr: SocketAddr) -> io::Result<TcpStream> {
        let id = simcore::with(|w| {
            let n = w.cur_node;
            w.connect_start(n, addr)
        });
        Connecting { id, taken: false }.await
    }

    /// Returns the local address that this stream is bound to.
    pub fn local_addr(&self) -> io::Result<SocketAddr> {
        Ok(simcore::with(|w| w.conns[self.conn].ends[self.side].local))
    }

    /// Returns the remote address that this stream is connected to.
    pub fn peer_addr(&self) -> io::Result<SocketAddr> {
        simcore::with(|w| {
            let e = &w.conns[self.conn].ends[self.side];
            if e.err.is_some() {
                Err(simcore::net::err(io::ErrorKind::NotConnected))
            } else {
                Ok(e.peer)
            }
        })
    }

    /// Returns the value of the `SO_ERROR` option.
    pub fn take_error(&self) -> io::Result<Option<io::Error>> {
        Ok(None)
    }

    /// Waits for any of the requested ready states.
    pub async fn ready(&self, interest: Interest) -> io::Result<Ready> {
        poll_fn(|cx| {
            let coop = ready!(crate::coop::poll_proceed(cx));
            simcore::with(|w| {
                let r = interest.is_readable() && w.read_ready(self.conn, self.side);
                let wr = interest.is_writable() && w.write_ready(self.conn, self.side);
                if r || wr {
                    coop.made_progress();
                    return Poll::Ready(Ok(Ready::of(r, wr)));
                }
                if interest.is_readable() {
                    w.wait(self.conn, self.side, true, cx);
                }
                if interest.is_writable() {
                    w.wait(self.conn, self.side, false, cx);
                }
                Poll::Pending
            })
        })
        .await
    }

    /// Waits for the socket to become readable.
    pub async fn readable(&self) -> io::Result<()> {
        self.ready(Interest::READABLE).await.map(|_| ())
    }

    /// Polls for read readiness.
    pub fn poll_read_ready(&self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        simcore::with(|w| {
            if w.read_ready(self.conn, self.side) {
                Poll::Ready(Ok(()))
            } else {
                w.wait(self.conn, self.side, true, cx);
                Poll::Pending
            }
        })
    }

    /// Polls for write readiness.
    pub fn poll_write_ready(&self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        simcore::with(|w| {
            if w.write_ready(self.conn, self.side) {
                Poll::Ready(Ok(()))
            } else {
                w.wait(self.conn, self.side, false, cx);
                Poll::Pending
            }
        })
    }

    /// Tries to read data from the stream into the provided buffer.
    pub fn try_read(&self, buf: &mut [u8]) -> io::Result<usize> {
        simcore::with(|w| {
            if !w.read_ready(self.conn, self.side) {
                return Err(simcore::net::err(io::ErrorKind::WouldBlock));
            }
            let wk = simcore::noop_waker();
            let mut cx = Context::from_waker(&wk);
            match w.poll_read(self.conn, self.side, &mut cx, buf) {
                Poll::Ready(r) => r,
                Poll::Pending => Err(simcore::net::err(io::ErrorKind::WouldBlock)),
            }
        })
    }

    /// Tries to read data from the stream into the provided buffers.
    pub fn try_read_vectored(&self, bufs: &mut [io::IoSliceMut<'_>]) -> io::Result<usize> {
        match bufs.iter_mut().find(|b| !b.is_empty()) {
            Some(b) => self.try_read(b),
            None => Ok(0),
        }
    }

    cfg_io_util! {
        /// Tries to read data from the stream into the provided buffer.
        pub fn try_read_buf<B: bytes::BufMut>(&self, buf: &mut B) -> io::Result<usize> {
            let mut v = vec![0; buf.remaining_mut().min(8192)];
            let n = self.try_read(&mut v)?;
            buf.put_slice(&v[..n]);
            Ok(n)
        }
    }

    /// Tries to read or write from the socket using a user-provided IO operation.
    pub fn try_io<R>(&self, _interest: Interest, f: impl FnOnce() -> io::Result<R>) -> io::Result<R> {
        f()
    }

    /// Waits for the socket to become writable.
    pub async fn writable(&self) -> io::Result<()> {
        self.ready(Interest::WRITABLE).await.map(|_| ())
    }

    /// Tries to write a buffer to the stream.
    pub fn try_write(&self, buf: &[u8]) -> io::Result<usize> {
        simcore::with(|w| {
            if !w.write_ready(self.conn, self.side) {
                return Err(simcore::net::err(io::ErrorKind::WouldBlock));
            }
            let wk = simcore::noop_waker();
            let mut cx = Context::from_waker(&wk);
            match w.poll_write(self.conn, self.side, &mut cx, buf) {
                Poll::Ready(r) => r,
                Poll::Pending => Err(simcore::net::err(io::ErrorKind::WouldBlock)),
            }
        })
    }

    /// Tries to write several buffers to the stream.
    pub fn try_write_vectored(&self, bufs: &[io::IoSlice<'_>]) -> io::Result<usize> {
        match bufs.iter().find(|b| !b.is_empty()) {
            Some(b) => self.try_write(b),
            None => Ok(0),
        }
    }

    /// Receives data without removing it from the queue.
    pub async fn peek(&self, buf: &mut [u8]) -> io::Result<usize> {
        poll_fn(|cx| self.poll_peek_raw(cx, buf)).await
    }

    /// Attempts to receive data without removing it from the queue.
    pub fn poll_peek(&self, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<usize>> {
        let n = ready!(self.poll_peek_raw(cx, buf.initialize_unfilled()))?;
        buf.advance(n);
        Poll::Ready(Ok(n))
    }

    fn poll_peek_raw(&self, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        let coop = ready!(crate::coop::poll_proceed(cx));
        simcore::with(|w| {
            let q = &w.conns[self.conn].dirs[1 - self.side].rcv;
            if !q.is_empty() {
                coop.made_progress();
                let n = q.len().min(buf.len());
                for (i, b) in q.iter().take(n).enumerate() {
                    buf[i] = *b;
                }
                return Poll::Ready(Ok(n));
            }
            if w.read_ready(self.conn, self.side) {
                coop.made_progress();
                return w.poll_read(self.conn, self.side, cx, &mut []);
            }
            w.wait(self.conn, self.side, true, cx);
            Poll::Pending
        })
    }

    pub(super) fn shutdown_std(&self, how: Shutdown) -> io::Result<()> {
        if how == Shutdown::Read {
            return Ok(());
        }
        simcore::with(|w| w.shutdown_write(self.conn, self.side))
    }

    /// Gets the value of the `TCP_NODELAY` option on this socket.
    pub fn nodelay(&self) -> io::Result<bool> {
        Ok(self.nodelay.get())
    }

    /// Sets the value of the `TCP_NODELAY` option on this socket.
    pub fn set_nodelay(&self, nodelay: bool) -> io::Result<()> {
        self.nodelay.set(nodelay);
        Ok(())
    }

    /// Reads the linger duration for this socket.
    pub fn linger(&self) -> io::Result<Option<Duration>> {
        Ok(None)
    }

    /// Sets the linger duration of this socket.
    pub fn set_linger(&self, _dur: Option<Duration>) -> io::Result<()> {
        Ok(())
    }

    /// Gets the value of the `IP_TTL` option for this socket.
    pub fn ttl(&self) -> io::Result<u32> {
        Ok(64)
    }

    /// Sets the value for the `IP_TTL` option on this socket.
    pub fn set_ttl(&self, _ttl: u32) -> io::Result<()> {
        Ok(())
    }

    /// Splits a `TcpStream` into a read half and a write half.
    pub fn split<'a>(&'a mut self) -> (ReadHalf<'a>, WriteHalf<'a>) {
        split(self)
    }

    /// Splits a `TcpStream` into an owned read half and an owned write half.
    pub fn into_split(self) -> (OwnedReadHalf, OwnedWriteHalf) {
        split_owned(self)
    }

    pub(crate) fn poll_read_priv(&self, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        if buf.remaining() == 0 {
            return Poll::Ready(Ok(()));
        }
        let coop = ready!(crate::coop::poll_proceed(cx));
        let b = buf.initialize_unfilled();
        let r = ready!(simcore::with(|w| w.poll_read(self.conn, self.side, cx, b)));
        coop.made_progress();
        Poll::Ready(r.map(|n| buf.advance(n)))
    }

    pub(super) fn poll_write_priv(&self, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        let coop = ready!(crate::coop::poll_proceed(cx));
        let r = ready!(simcore::with(|w| w.poll_write(self.conn, self.side, cx, buf)));
        coop.made_progress();
        Poll::Ready(r)
    }

    pub(super) fn poll_write_vectored_priv(
        &self,
        cx: &mut Context<'_>,
        bufs: &[io::IoSlice<'_>],
    ) -> Poll<io::Result<usize>> {
        let mut v = vec![];
        for b in bufs {
            v.extend_from_slice(b);
        }
        self.poll_write_priv(cx, &v)
    }
}

impl Drop for TcpStream {
    fn drop(&mut self) {
        let (c, s) = (self.conn, self.side);
        simcore::try_with(|w| w.sock_close(c, s));
    }
}

impl AsyncRead for TcpStream {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        self.poll_read_priv(cx, buf)
    }
}

impl AsyncWrite for TcpStream {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        self.poll_write_priv(cx, buf)
    }

    fn poll_write_vectored(
        self: Pin<&mut Self>,
        cx: &mut Context<'_>,
        bufs: &[io::IoSlice<'_>],
    ) -> Poll<io::Result<usize>> {
        self.poll_write_vectored_priv(cx, bufs)
    }

    fn is_write_vectored(&self) -> bool {
        true
    }

    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }

    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.shutdown_std(Shutdown::Write)?;
        Poll::Ready(Ok(()))
    }
}
