//! Connections that the harness drives byte by byte.

use crate::wire::*;
use simcore::{now, sleep_until, with, Ns};
use std::future::Future;
use std::net::SocketAddr;
use std::pin::Pin;
use std::task::Poll;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::TcpStream;

pub struct Raw {
    pub s: TcpStream,
    pub buf: Vec<u8>,
    /// offset of the first byte not yet taken as part of a frame
    pub at: usize,
    pub eof: bool,
    pub err: bool,
    pub conn: usize,
    /// 0: opened by the harness, 1: accepted by it
    pub side: usize,
    /// id of the frame taken last
    pub last_id: u32,
}

/// Waits for a future until the given time.
pub async fn by<F: Future>(until: Ns, f: F) -> Option<F::Output> {
    let mut f = Box::pin(f);
    let mut t = sleep_until(until);
    std::future::poll_fn(move |cx| {
        if let Poll::Ready(v) = f.as_mut().poll(cx) {
            return Poll::Ready(Some(v));
        }
        if now() >= until {
            return Poll::Ready(None);
        }
        if Pin::new(&mut t).poll(cx).is_ready() {
            return Poll::Ready(None);
        }
        Poll::Pending
    })
    .await
}

impl Raw {
    pub fn new(s: TcpStream) -> Raw {
        let (conn, side) = s.sim_conn();
        Raw { s, buf: vec![], at: 0, eof: false, err: false, conn, side, last_id: 0 }
    }

    pub async fn connect(a: SocketAddr) -> Option<Raw> {
        TcpStream::connect(a).await.ok().map(Raw::new)
    }

    /// Reads once. False at the end of the stream, after an error, or at the given time.
    pub async fn fill(&mut self, until: Ns) -> bool {
        if self.eof || self.err {
            return false;
        }
        let mut b = vec![0u8; 65536];
        let r = by(until, self.s.read(&mut b)).await;
        match r {
            None => false,
            Some(Ok(0)) => {
                self.eof = true;
                false
            }
            Some(Ok(n)) => {
                self.buf.extend_from_slice(&b[..n]);
                true
            }
            Some(Err(_)) => {
                self.err = true;
                false
            }
        }
    }

    fn next(&mut self) -> Option<Frame> {
        let b = &self.buf[self.at..];
        if b.len() < 16 {
            return None;
        }
        let n = u16::from_be_bytes([b[0], b[1]]) as usize;
        if n < 16 || b.len() < n {
            return None;
        }
        let f = Frame {
            ty: b[2],
            id: u32::from_be_bytes([b[4], b[5], b[6], b[7]]),
            payload: b[16..n].to_vec(),
            at: self.at,
            end: self.at + n,
        };
        self.at += n;
        self.last_id = f.id;
        Some(f)
    }

    pub async fn frame(&mut self, until: Ns) -> Option<Frame> {
        loop {
            if let Some(f) = self.next() {
                return Some(f);
            }
            if !self.fill(until).await {
                return None;
            }
        }
    }

    /// The next frame if it has arrived already; takes in what there is.
    pub fn ready_frame(&mut self) -> Option<Frame> {
        if let Some(f) = self.next() {
            return Some(f);
        }
        let mut b = vec![0u8; 65536];
        while !self.eof && !self.err {
            match self.s.try_read(&mut b) {
                Ok(0) => self.eof = true,
                Ok(n) => self.buf.extend_from_slice(&b[..n]),
                Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => break,
                Err(_) => self.err = true,
            }
        }
        self.next()
    }

    /// Writes some bytes; meanwhile takes in what arrives.
    pub async fn write_some(&mut self, b: &[u8], until: Ns) -> Option<usize> {
        use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};
        if self.err {
            return None;
        }
        let mut t = sleep_until(until);
        let r = std::future::poll_fn(|cx| {
            loop {
                let mut v = vec![0u8; 65536];
                let mut rb = ReadBuf::new(&mut v);
                if self.eof {
                    break;
                }
                match Pin::new(&mut self.s).poll_read(cx, &mut rb) {
                    Poll::Ready(Ok(())) if rb.filled().is_empty() => self.eof = true,
                    Poll::Ready(Ok(())) => self.buf.extend_from_slice(rb.filled()),
                    Poll::Ready(Err(_)) => return Poll::Ready(None),
                    Poll::Pending => break,
                }
            }
            match Pin::new(&mut self.s).poll_write(cx, b) {
                Poll::Ready(Ok(n)) => return Poll::Ready(Some(n)),
                Poll::Ready(Err(_)) => return Poll::Ready(None),
                Poll::Pending => {}
            }
            if now() >= until || Pin::new(&mut t).poll(cx).is_ready() {
                return Poll::Ready(Some(0));
            }
            Poll::Pending
        })
        .await;
        if r.is_none() {
            self.err = true;
        }
        r
    }

    pub async fn send(&mut self, b: &[u8]) -> bool {
        if self.err {
            return false;
        }
        if self.s.write_all(b).await.is_err() {
            self.err = true;
            return false;
        }
        true
    }

    pub async fn send_by(&mut self, b: &[u8], until: Ns) -> bool {
        by(until, self.send(b)).await.unwrap_or(false)
    }

    /// No more bytes will follow.
    pub async fn finish(&mut self) {
        let _ = self.s.shutdown().await;
    }

    pub fn abort(&mut self) {
        self.err = true;
        let (c, s) = (self.conn, self.side);
        with(|w| w.sock_abort(c, s));
    }

    /// The client's part of the handshake.
    pub async fn greet(&mut self, id: u32, until: Ns) -> Option<Frame> {
        let h = vec![("host_port".to_string(), "0.0.0.0:0".to_string()), ("process_name".to_string(), "raw".to_string())];
        if !self.send(&frame(INIT_REQ, id, &init_payload(2, &h))).await {
            return None;
        }
        self.frame(until).await
    }

    /// The server's part of the handshake.
    pub async fn welcome(&mut self, until: Ns) -> bool {
        match self.frame(until).await {
            Some(f) if f.ty == INIT_REQ => {
                let h = vec![("host_port".to_string(), "10.0.0.9:1".to_string()), ("process_name".to_string(), "raw".to_string())];
                self.send(&frame(INIT_RES, f.id, &init_payload(2, &h))).await
            }
            _ => false,
        }
    }
}
