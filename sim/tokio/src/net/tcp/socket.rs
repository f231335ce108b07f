use crate::net::{TcpListener, TcpStream};

use std::cell::Cell;
use std::io;
use std::net::SocketAddr;

/// A TCP socket that has not yet been converted to a `TcpStream` or `TcpListener`.
#[derive(Debug)]
pub struct TcpSocket {
    addr: Cell<Option<SocketAddr>>,
    v6: bool,
    reuse: Cell<bool>,
}

unsafe impl Sync for TcpSocket {}

impl TcpSocket {
    /// Creates a new socket configured for IPv4.
    pub fn new_v4() -> io::Result<TcpSocket> {
        Ok(TcpSocket { addr: Cell::new(None), v6: false, reuse: Cell::new(false) })
    }
    /// Creates a new socket configured for IPv6.
    pub fn new_v6() -> io::Result<TcpSocket> {
        Ok(TcpSocket { addr: Cell::new(None), v6: true, reuse: Cell::new(false) })
    }
    /// Allows the socket to bind to an in-use address.
    pub fn set_reuseaddr(&self, v: bool) -> io::Result<()> {
        self.reuse.set(v);
        Ok(())
    }
    /// Retrieves the value set for `SO_REUSEADDR` on this socket.
    pub fn reuseaddr(&self) -> io::Result<bool> {
        Ok(self.reuse.get())
    }
    /// Allows the socket to bind to an in-use port.
    pub fn set_reuseport(&self, _v: bool) -> io::Result<()> {
        Ok(())
    }
    /// Sets the size of the TCP send buffer on this socket.
    pub fn set_send_buffer_size(&self, _size: u32) -> io::Result<()> {
        Ok(())
    }
    /// Sets the size of the TCP receive buffer on this socket.
    pub fn set_recv_buffer_size(&self, _size: u32) -> io::Result<()> {
        Ok(())
    }
    /// Binds the socket to the given address.
    pub fn bind(&self, addr: SocketAddr) -> io::Result<()> {
        self.addr.set(Some(addr));
        Ok(())
    }
    /// Establishes a TCP connection with a peer at the specified socket address.
    pub async fn connect(self, addr: SocketAddr) -> io::Result<TcpStream> {
        TcpStream::connect_addr(addr).await
    }
    /// Converts the socket into a `TcpListener`.
    pub fn listen(self, _backlog: u32) -> io::Result<TcpListener> {
        let addr = match self.addr.get() {
            Some(a) => a,
            None if self.v6 => "[::]:0".parse().unwrap(),
            None => "0.0.0.0:0".parse().unwrap(),
        };
        TcpListener::bind_addr(addr)
    }
}
