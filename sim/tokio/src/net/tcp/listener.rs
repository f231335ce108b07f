use crate::net::{to_socket_addrs, TcpStream, ToSocketAddrs};

use std::io;
use std::net::SocketAddr;
use std::task::{Context, Poll};

/// A TCP socket server, listening for connections.
#[derive(Debug)]
pub struct TcpListener {
    id: usize,
    addr: SocketAddr,
}

impl TcpListener {
    /// Creates a new TcpListener, which will be bound to the specified address.
    pub async fn bind<A: ToSocketAddrs>(addr: A) -> io::Result<TcpListener> {
        let addrs = to_socket_addrs(addr).await?;
        let mut last_err = None;
        for addr in addrs {
            match TcpListener::bind_addr(addr) {
                Ok(listener) => return Ok(listener),
                Err(e) => last_err = Some(e),
            }
        }
        Err(last_err.unwrap_or_else(|| {
            io::Error::new(io::ErrorKind::InvalidInput, "could not resolve to any address")
        }))
    }

    pub(crate) fn bind_addr(addr: SocketAddr) -> io::Result<TcpListener> {
        simcore::with(|w| {
            let node = w.cur_node;
            let id = w.bind(node, addr).map_err(simcore::net::err)?;
            let addr = SocketAddr::new(w.listeners[id].ip, w.listeners[id].port);
            Ok(TcpListener { id, addr })
        })
    }

    /// Accepts a new incoming connection from this listener.
    pub async fn accept(&self) -> io::Result<(TcpStream, SocketAddr)> {
        crate::future::poll_fn(|cx| self.poll_accept(cx)).await
    }

    /// Polls to accept a new incoming connection to this listener.
    pub fn poll_accept(&self, cx: &mut Context<'_>) -> Poll<io::Result<(TcpStream, SocketAddr)>> {
        let coop = ready!(crate::coop::poll_proceed(cx));
        let r = ready!(simcore::with(|w| w.poll_accept(self.id, cx)));
        coop.made_progress();
        Poll::Ready(r.map(|c| {
            let peer = simcore::with(|w| w.conns[c].ends[1].peer);
            (TcpStream::new(c, 1), peer)
        }))
    }

    /// Returns the local address that this listener is bound to.
    pub fn local_addr(&self) -> io::Result<SocketAddr> {
        Ok(self.addr)
    }

    /// Gets the value of the `IP_TTL` option for this socket.
    pub fn ttl(&self) -> io::Result<u32> {
        Ok(64)
    }

    /// Sets the value for the `IP_TTL` option on this socket.
    pub fn set_ttl(&self, _ttl: u32) -> io::Result<()> {
        Ok(())
    }
}

impl Drop for TcpListener {
    fn drop(&mut self) {
        let id = self.id;
        simcore::try_with(|w| w.listener_close(id));
    }
}
