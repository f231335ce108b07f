//! Simulated TCP: listeners, connection establishment, byte streams with latency, segmentation, finite buffers,
//! half-close, resets, partitions, crashes.

use crate::world::*;
use std::collections::{BTreeMap, VecDeque};
use std::io::{self, ErrorKind};
use std::net::{IpAddr, Ipv4Addr, SocketAddr};
use std::task::{Context, Poll, Waker};

#[derive(Clone, Debug)]
pub struct NetCfg {
    pub lat_min: Ns,
    pub lat_max: Ns,
    /// max segment size handed to the receiver at once; 0: unlimited
    pub seg_max: usize,
    /// 0: whole segments; otherwise segments are split at random with probability num/16
    pub split_p: u32,
    /// short reads / writes probability num/16
    pub short_read_p: u32,
    pub short_write_p: u32,
    pub sndbuf: usize,
    pub rcvbuf: usize,
}

impl Default for NetCfg {
    fn default() -> Self {
        NetCfg {
            lat_min: 50_000,
            lat_max: 50_000,
            seg_max: 0,
            split_p: 0,
            short_read_p: 0,
            short_write_p: 0,
            sndbuf: 256 * 1024,
            rcvbuf: 256 * 1024,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fin {
    None,
    Queued,
    Inflight,
    Delivered,
}

enum Pkt {
    /// with the offset of the first byte
    Data(u64, Vec<u8>),
    Fin(u64),
    Rst,
}

/// What happens when a planned cut point of a connection is reached.
#[derive(Clone, Debug, PartialEq)]
pub enum CutAct {
    /// reset seen by both ends, nothing after the cut point arrives
    ResetBoth,
    /// only the receiving end of this direction learns (RST), the sender finds out when it next sends
    ResetReceiver,
    /// only the sending end of this direction learns
    ResetSender,
    /// the process that sends this direction dies (kernel closes its sockets)
    KillSender,
    /// the process that receives this direction dies
    KillReceiver,
    /// the sending host loses power
    PowerSender,
    PowerReceiver,
    /// nothing passes in either direction of this host pair for the given time
    Partition(Ns),
    /// this direction stalls for the given time
    Stall(Ns),
    /// the sending direction ends (FIN) at this byte and the connection is closed from the sender
    FinSender,
}

/// Applied to the nth connection opened from a node to another.
#[derive(Clone, Debug)]
pub struct ConnPlan {
    pub from: NodeId,
    pub to: NodeId,
    pub nth: usize,
    /// 0: client to server bytes, 1: server to client bytes
    pub dir: usize,
    pub at: u64,
    pub act: CutAct,
    pub fired: bool,
}

pub struct Dir {
    pub sendq: VecDeque<u8>,
    pub inflight: usize,
    pub rcv: VecDeque<u8>,
    pub fin: Fin,
    last_at: Ns,
    stalled: VecDeque<Pkt>,
    /// arrived before what precedes it
    early: BTreeMap<u64, Pkt>,
    stall_since: Option<Ns>,
    hold_until: Ns,
    /// a planned cut is about to happen
    cut_hold: bool,
    /// bytes accepted from the sending application
    pub sent: u64,
    /// bytes put on the wire
    pub wired: u64,
    /// bytes handed to the receiving host
    pub delivered: u64,
    /// bytes read by the receiving application
    pub read: u64,
    /// everything the sending application wrote
    pub tap: Vec<u8>,
    /// times at which tap reached a length (for timing checks): (len, time)
    pub tap_times: Vec<(u64, Ns)>,
    pub rd_times: Vec<(u64, Ns)>,
    /// no further bytes pass
    pub dead: bool,
    /// unacknowledged data is being retransmitted to an end that does not know the connection
    probing: bool,
    /// data arrived whose acknowledgement was lost
    unacked: bool,
}

impl Dir {
    fn new() -> Dir {
        Dir {
            sendq: VecDeque::new(),
            inflight: 0,
            rcv: VecDeque::new(),
            fin: Fin::None,
            last_at: 0,
            stalled: VecDeque::new(),
            early: BTreeMap::new(),
            stall_since: None,
            hold_until: 0,
            cut_hold: false,
            sent: 0,
            wired: 0,
            delivered: 0,
            read: 0,
            tap: vec![],
            tap_times: vec![],
            rd_times: vec![],
            dead: false,
            probing: false,
            unacked: false,
        }
    }
}

pub struct End {
    pub node: NodeId,
    pub inc: u32,
    pub local: SocketAddr,
    pub peer: SocketAddr,
    rd_waker: Option<Waker>,
    wr_waker: Option<Waker>,
    pub err: Option<ErrorKind>,
    err_reported: bool,
    pub wr_shut: bool,
    /// the application dropped the socket
    pub closed: bool,
    /// the host lost power while this end existed
    pub gone: bool,
    /// no longer a live endpoint: packets get an RST
    pub dead: bool,
    /// the application holds (or held) the socket
    pub taken: bool,
    pub broken_at: Option<Ns>,
    pub closed_at: Option<Ns>,
    pub harness: bool,
}

pub struct Conn {
    pub id: usize,
    pub ends: [End; 2],
    pub dirs: [Dir; 2],
    pub opened_at: Ns,
    pub nth: usize,
    pub accepted_at: Option<Ns>,
    pub port: u16,
}

pub struct Listener {
    pub node: NodeId,
    pub inc: u32,
    pub ip: IpAddr,
    pub port: u16,
    pub open: bool,
    queue: VecDeque<usize>,
    waker: Option<Waker>,
    pub opened_at: Ns,
    pub closed_at: Option<Ns>,
    pub accepted: u64,
}

pub struct Connect {
    result: Option<Result<usize, ErrorKind>>,
    waker: Option<Waker>,
    cancelled: bool,
    from: NodeId,
    inc: u32,
    addr: SocketAddr,
    started: Ns,
    attempt: u32,
    harness: bool,
}

pub fn err(k: ErrorKind) -> io::Error {
    // carry the errno a kernel would report
    let code = match k {
        ErrorKind::ConnectionRefused => libc::ECONNREFUSED,
        ErrorKind::ConnectionReset => libc::ECONNRESET,
        ErrorKind::ConnectionAborted => libc::ECONNABORTED,
        ErrorKind::BrokenPipe => libc::EPIPE,
        ErrorKind::TimedOut => libc::ETIMEDOUT,
        ErrorKind::AddrInUse => libc::EADDRINUSE,
        ErrorKind::AddrNotAvailable => libc::EADDRNOTAVAIL,
        ErrorKind::NotConnected => libc::ENOTCONN,
        ErrorKind::WouldBlock => libc::EAGAIN,
        ErrorKind::OutOfMemory => libc::ENOMEM,
        ErrorKind::PermissionDenied => libc::EACCES,
        ErrorKind::Interrupted => libc::EINTR,
        _ => libc::EMFILE,
    };
    io::Error::from_raw_os_error(code)
}

impl World {
    fn latency(&mut self) -> Ns {
        let (a, b) = (self.netcfg.lat_min, self.netcfg.lat_max);
        if b <= a {
            return a;
        }
        // 64 steps are enough to decide any order
        let k = self.s.below(64) as u64;
        a + (b - a) * k / 63
    }

    fn is_blocked(&self, a: NodeId, b: NodeId) -> bool {
        a != b && self.blocked.contains(&(a, b))
    }

    // ----- fault injection -----

    pub fn block(&mut self, a: NodeId, b: NodeId) {
        if self.blocked.insert((a, b)) {
            self.count("fault.partition_one_way");
            self.tr(|| format!("link {}->{} blocked", a, b));
        }
    }

    pub fn partition(&mut self, a: NodeId, b: NodeId) {
        self.block(a, b);
        self.block(b, a);
    }

    pub fn heal(&mut self, a: NodeId, b: NodeId) {
        if !self.blocked.remove(&(a, b)) {
            return;
        }
        self.tr(|| format!("link {}->{} healed", a, b));
        for c in 0..self.conns.len() {
            for d in 0..2 {
                if self.conns[c].ends[d].node == a && self.conns[c].ends[1 - d].node == b {
                    self.unstall(c, d);
                }
            }
        }
    }

    pub fn heal_all(&mut self) {
        let v: Vec<_> = self.blocked.iter().cloned().collect();
        for (a, b) in v {
            self.heal(a, b);
        }
    }

    fn unstall(&mut self, c: usize, d: usize) {
        let now = self.now;
        let since = match self.conns[c].dirs[d].stall_since.take() {
            Some(s) => s,
            None => {
                self.pump(c, d);
                return;
            }
        };
        // the retransmission timer fires somewhere within its backed-off period
        let back = (now - since).min(120 * crate::SEC);
        let wait = back / 16 * self.s.below(16) as u64;
        let pk: Vec<Pkt> = self.conns[c].dirs[d].stalled.drain(..).collect();
        let lat = self.latency();
        let mut at = (now + wait + lat).max(self.conns[c].dirs[d].last_at);
        for p in pk {
            at += 1;
            self.send_pkt_at(c, d, p, at);
        }
        self.pump(c, d);
    }

    fn start_stall(&mut self, c: usize, d: usize) {
        if self.conns[c].dirs[d].stall_since.is_some() {
            return;
        }
        let now = self.now;
        self.conns[c].dirs[d].stall_since = Some(now);
        let t = 924 * crate::SEC;
        self.after(t, move |w| {
            if w.conns[c].dirs[d].stall_since == Some(now) {
                w.count("net.retransmit_timeout");
                w.tr(|| format!("conn {} dir {}: retransmission timeout", c, d));
                w.end_error(c, d, ErrorKind::TimedOut);
            }
        });
    }

    /// Both ends see a reset now.
    pub fn reset_conn(&mut self, c: usize) {
        self.count("fault.reset");
        self.tr(|| format!("conn {} reset", c));
        for s in 0..2 {
            self.end_error(c, s, ErrorKind::ConnectionReset);
        }
    }

    pub fn reset_end(&mut self, c: usize, side: usize) {
        self.count("fault.reset_one_end");
        self.tr(|| format!("conn {} end {} reset", c, side));
        self.end_error(c, side, ErrorKind::ConnectionReset);
    }

    /// End `side` of the connection becomes unusable with the given error.
    fn end_error(&mut self, c: usize, side: usize, k: ErrorKind) {
        let now = self.now;
        let purge = self.s.chance(1, 2);
        let conn = &mut self.conns[c];
        if conn.ends[side].dead {
            return;
        }
        conn.ends[side].dead = true;
        if !conn.ends[side].closed {
            conn.ends[side].err = Some(k);
            conn.ends[side].broken_at.get_or_insert(now);
        }
        let out = &mut conn.dirs[side];
        out.sendq.clear();
        out.dead = true;
        out.stall_since = None;
        out.stalled.clear();
        let inn = &mut conn.dirs[1 - side];
        if purge {
            inn.rcv.clear();
        }
        let mut a = conn.ends[side].rd_waker.take();
        let mut b = conn.ends[side].wr_waker.take();
        self.wake_opt(&mut a);
        self.wake_opt(&mut b);
        self.note(0x21, (c * 2 + side) as u64);
        if !self.conns[c].dirs[1 - side].sendq.is_empty() {
            self.pump(c, 1 - side);
        }
    }

    /// The process on a node dies; the kernel closes its sockets.
    pub fn kill_process(&mut self, node: NodeId) {
        self.count("fault.process_kill");
        self.tr(|| format!("process on node {} killed", node));
        self.kill_tasks(node);
        for l in 0..self.listeners.len() {
            if self.listeners[l].node == node && self.listeners[l].open {
                self.listener_close(l);
            }
        }
        for c in 0..self.conns.len() {
            for s in 0..2 {
                if self.conns[c].ends[s].node == node && !self.conns[c].ends[s].closed && !self.conns[c].ends[s].gone {
                    self.sock_close(c, s);
                }
            }
        }
    }

    /// The host loses power: nothing is sent, peers are not told.
    pub fn power_off(&mut self, node: NodeId) {
        self.count("fault.power_off");
        self.tr(|| format!("node {} loses power", node));
        self.kill_tasks(node);
        self.nodes[node].up = false;
        let now = self.now;
        for l in 0..self.listeners.len() {
            if self.listeners[l].node == node && self.listeners[l].open {
                self.listeners[l].open = false;
                self.listeners[l].closed_at = Some(now);
                self.listeners[l].queue.clear();
                let mut w = self.listeners[l].waker.take();
                if let Some(w) = w.take() {
                    self.trash.push(w);
                }
            }
        }
        for c in 0..self.conns.len() {
            for s in 0..2 {
                let e = &mut self.conns[c].ends[s];
                if e.node == node && !e.gone {
                    e.gone = true;
                    e.closed = true;
                    e.closed_at.get_or_insert(now);
                    let (a, b) = (e.rd_waker.take(), e.wr_waker.take());
                    let d = &mut self.conns[c].dirs[s];
                    d.sendq.clear();
                    d.dead = true;
                    d.stalled.clear();
                    d.stall_since = None;
                    self.trash.extend(a);
                    self.trash.extend(b);
                }
            }
        }
    }

    pub fn power_on(&mut self, node: NodeId) {
        self.nodes[node].up = true;
        self.tr(|| format!("node {} has power again", node));
        // retransmissions of what peers sent meanwhile now reach a host that does not know the connection
        for c in 0..self.conns.len() {
            for d in 0..2 {
                if self.conns[c].ends[1 - d].node == node {
                    if self.conns[c].dirs[d].stall_since.is_some() {
                        self.unstall(c, d);
                    } else if !self.conns[c].dirs[d].sendq.is_empty() {
                        self.pump(c, d);
                    }
                }
            }
        }
    }

    // ----- listening -----

    pub fn bind(&mut self, node: NodeId, addr: SocketAddr) -> Result<usize, ErrorKind> {
        let ip_ok = match addr.ip() {
            IpAddr::V4(ip) => ip.is_unspecified() || ip.is_loopback() || ip == self.nodes[node].ip,
            IpAddr::V6(ip) => ip.is_unspecified() || ip.is_loopback(),
        };
        if !ip_ok {
            return Err(ErrorKind::AddrNotAvailable);
        }
        let mut port = addr.port();
        if port == 0 {
            port = self.nodes[node].next_port;
            self.nodes[node].next_port += 1;
        }
        let clash = self.listeners.iter().any(|l| {
            l.open && l.node == node && l.port == port && (l.ip == addr.ip() || l.ip.is_unspecified() || addr.ip().is_unspecified())
        });
        if clash {
            self.count("net.addr_in_use");
            self.tr(|| format!("node {} bind port {}: address in use", node, port));
            return Err(ErrorKind::AddrInUse);
        }
        let id = self.listeners.len();
        let inc = self.nodes[node].inc;
        self.listeners.push(Listener {
            node,
            inc,
            ip: addr.ip(),
            port,
            open: true,
            queue: VecDeque::new(),
            waker: None,
            opened_at: self.now,
            closed_at: None,
            accepted: 0,
        });
        self.note(0x31, id as u64);
        self.tr(|| format!("node {} listens on port {}", node, port));
        Ok(id)
    }

    pub fn listener_close(&mut self, l: usize) {
        if !self.listeners[l].open {
            return;
        }
        self.listeners[l].open = false;
        self.listeners[l].closed_at = Some(self.now);
        let node = self.listeners[l].node;
        let port = self.listeners[l].port;
        self.tr(|| format!("node {} stops listening on port {}", node, port));
        self.note(0x32, l as u64);
        if let Some(w) = self.listeners[l].waker.take() {
            self.trash.push(w);
        }
        let q: Vec<usize> = self.listeners[l].queue.drain(..).collect();
        for c in q {
            self.send_rst(c, 1);
            self.conns[c].ends[1].closed = true;
            self.conns[c].ends[1].dead = true;
        }
    }

    pub fn poll_accept(&mut self, l: usize, cx: &mut Context<'_>) -> Poll<io::Result<usize>> {
        let node = self.listeners[l].node;
        if !self.listeners[l].open {
            // killed process; its tasks are about to be dropped
            return Poll::Pending;
        }
        if let Some(k) = self.nodes[node].accept_faults.pop_front() {
            self.count("fault.accept_error");
            self.tr(|| format!("node {}: accept fails with {:?}", node, k));
            if k == ErrorKind::ConnectionAborted {
                if let Some(c) = self.listeners[l].queue.pop_front() {
                    self.send_rst(c, 1);
                    self.conns[c].ends[1].closed = true;
                    self.conns[c].ends[1].dead = true;
                }
            }
            return Poll::Ready(Err(err(k)));
        }
        match self.listeners[l].queue.pop_front() {
            Some(c) => {
                self.listeners[l].accepted += 1;
                self.conns[c].ends[1].taken = true;
                self.conns[c].ends[1].harness = self.cur_harness();
                self.conns[c].accepted_at = Some(self.now);
                self.note(0x33, c as u64);
                self.tr(|| format!("node {} accepts conn {}", node, c));
                Poll::Ready(Ok(c))
            }
            None => {
                let old = self.listeners[l].waker.replace(cx.waker().clone());
                self.trash.extend(old);
                Poll::Pending
            }
        }
    }

    /// An accept fault queued while the listener is idle must be noticed.
    pub fn inject_accept_error(&mut self, node: NodeId, k: ErrorKind) {
        self.nodes[node].accept_faults.push_back(k);
        for l in 0..self.listeners.len() {
            if self.listeners[l].node == node {
                let mut w = self.listeners[l].waker.take();
                self.wake_opt(&mut w);
            }
        }
    }

    fn cur_harness(&self) -> bool {
        self.tasks.get(&self.cur_task).map(|t| t.harness).unwrap_or(true)
    }

    // ----- connecting -----

    pub fn connect_start(&mut self, node: NodeId, addr: SocketAddr) -> usize {
        let id = self.connects.len();
        let inc = self.nodes[node].inc;
        let harness = self.cur_harness();
        self.connects.push(Connect {
            result: None,
            waker: None,
            cancelled: false,
            from: node,
            inc,
            addr,
            started: self.now,
            attempt: 0,
            harness,
        });
        self.count("net.connect_attempts");
        self.tr(|| format!("node {} connects to {}", node, addr));
        self.syn(id);
        id
    }

    fn syn(&mut self, id: usize) {
        let lat = self.latency();
        self.after(lat, move |w| w.syn_arrives(id));
        // retry timer: 1, 3, 7, ... 127 s after the start
        let n = self.connects[id].attempt;
        let wait = (1u64 << n) * crate::SEC;
        self.after(wait, move |w| {
            if w.connects[id].result.is_some() || w.connects[id].cancelled || w.connects[id].attempt != n {
                return;
            }
            if n >= 6 {
                w.connect_done(id, Err(ErrorKind::TimedOut));
            } else {
                w.connects[id].attempt += 1;
                w.syn(id);
            }
        });
    }

    fn connect_done(&mut self, id: usize, r: Result<usize, ErrorKind>) {
        if self.connects[id].result.is_some() {
            return;
        }
        let from = self.connects[id].from;
        self.tr(|| format!("node {} connect: {:?}", from, r));
        match &r {
            Ok(_) => self.count("net.connected"),
            Err(ErrorKind::ConnectionRefused) => self.count("net.connect_refused"),
            Err(_) => self.count("net.connect_failed"),
        }
        self.connects[id].result = Some(r);
        let mut w = self.connects[id].waker.take();
        self.wake_opt(&mut w);
    }

    fn syn_arrives(&mut self, id: usize) {
        if self.connects[id].cancelled || self.connects[id].result.is_some() {
            return;
        }
        let (from, addr) = (self.connects[id].from, self.connects[id].addr);
        if self.nodes[from].inc != self.connects[id].inc {
            return;
        }
        let to = match self.node_by_ip(from, addr.ip()) {
            Some(n) => n,
            None => return, // black hole
        };
        if !self.nodes[to].up || self.nodes[to].syn_drop || self.is_blocked(from, to) || self.is_blocked(to, from) {
            self.count("fault.syn_lost");
            return;
        }
        let lat = self.latency();
        let lis = self.listeners.iter().position(|l| {
            l.open && l.node == to && l.port == addr.port() && (l.ip == addr.ip() || l.ip.is_unspecified())
        });
        if self.nodes[to].refuse {
            self.count("fault.connect_refused");
        }
        let lis = match lis {
            Some(l) if !self.nodes[to].refuse => l,
            _ => {
                self.after(lat, move |w| w.connect_done(id, Err(ErrorKind::ConnectionRefused)));
                return;
            }
        };
        let nth = self.conns.iter().filter(|c| c.ends[0].node == from && c.ends[1].node == to).count();
        let cid = self.conns.len();
        let cport = self.nodes[from].next_port;
        self.nodes[from].next_port = cport.wrapping_add(1).max(40000);
        let src_ip = if addr.ip().is_loopback() || addr.ip().is_unspecified() {
            IpAddr::V4(Ipv4Addr::LOCALHOST)
        } else {
            IpAddr::V4(self.nodes[from].ip)
        };
        let la = SocketAddr::new(src_ip, cport);
        let mk = |node, inc, local, peer, harness| End {
            node,
            inc,
            local,
            peer,
            rd_waker: None,
            wr_waker: None,
            err: None,
            err_reported: false,
            wr_shut: false,
            closed: false,
            gone: false,
            dead: false,
            taken: false,
            broken_at: None,
            closed_at: None,
            harness,
        };
        let (i0, i1) = (self.nodes[from].inc, self.nodes[to].inc);
        let h = self.connects[id].harness;
        self.conns.push(Conn {
            id: cid,
            ends: [mk(from, i0, la, addr, h), mk(to, i1, addr, la, false)],
            dirs: [Dir::new(), Dir::new()],
            opened_at: self.now,
            nth,
            accepted_at: None,
            port: addr.port(),
        });
        self.note(0x41, cid as u64);
        self.tr(|| format!("conn {}: node {} -> node {} port {} established", cid, from, to, addr.port()));
        self.listeners[lis].queue.push_back(cid);
        let mut w = self.listeners[lis].waker.take();
        self.wake_opt(&mut w);
        self.after(lat, move |w| {
            if w.connects[id].cancelled || w.nodes[from].inc != w.connects[id].inc {
                // nobody waits for it any more
                if !w.conns[cid].ends[0].closed {
                    w.sock_close(cid, 0);
                }
                return;
            }
            if w.connects[id].result.is_some() {
                w.sock_close(cid, 0);
                return;
            }
            w.conns[cid].ends[0].taken = true;
            w.connect_done(id, Ok(cid));
        });
    }

    pub fn poll_connect(&mut self, id: usize, cx: &mut Context<'_>) -> Poll<io::Result<usize>> {
        match self.connects[id].result {
            Some(Ok(c)) => Poll::Ready(Ok(c)),
            Some(Err(k)) => Poll::Ready(Err(err(k))),
            None => {
                let old = self.connects[id].waker.replace(cx.waker().clone());
                self.trash.extend(old);
                Poll::Pending
            }
        }
    }

    pub fn connect_cancel(&mut self, id: usize, taken: bool) {
        let w = self.connects[id].waker.take();
        self.trash.extend(w);
        self.connects[id].cancelled = true;
        if !taken {
            if let Some(Ok(c)) = self.connects[id].result {
                if !self.conns[c].ends[0].closed {
                    self.sock_close(c, 0);
                }
            }
        }
    }

    pub fn connect_started(&self, id: usize) -> Ns {
        self.connects[id].started
    }

    // ----- byte streams -----

    fn send_pkt(&mut self, c: usize, d: usize, p: Pkt) {
        let lat = self.latency();
        let at = (self.now + lat).max(self.conns[c].dirs[d].last_at).max(self.conns[c].dirs[d].hold_until);
        self.send_pkt_at(c, d, p, at);
    }

    fn send_pkt_at(&mut self, c: usize, d: usize, p: Pkt, at: Ns) {
        self.conns[c].dirs[d].last_at = at;
        self.at(at, move |w| w.arrive(c, d, p));
    }

    fn send_rst(&mut self, c: usize, from: usize) {
        self.count("net.rst_sent");
        let d = &mut self.conns[c].dirs[from];
        d.dead = true;
        d.sendq.clear();
        self.send_pkt(c, from, Pkt::Rst);
    }

    /// Data of direction `d` met an end that does not know the connection any more: it is retransmitted until the
    /// sender learns that, or gives up.
    fn probe(&mut self, c: usize, d: usize) {
        if !self.conns[c].dirs[d].probing {
            self.conns[c].dirs[d].probing = true;
            self.probe_after(c, d, crate::SEC, self.now + 924 * crate::SEC);
        }
    }

    fn probe_after(&mut self, c: usize, d: usize, wait: Ns, until: Ns) {
        self.after(wait, move |w| {
            let e = &w.conns[c].ends[d];
            if e.dead || e.gone {
                return;
            }
            if w.now > until {
                w.count("net.retransmit_timeout");
                w.end_error(c, d, ErrorKind::TimedOut);
                return;
            }
            let (src, dst) = (w.conns[c].ends[d].node, w.conns[c].ends[1 - d].node);
            if !w.is_blocked(src, dst) && w.nodes[dst].up {
                w.count("net.retransmitted_to_dead_end");
                w.send_rst(c, 1 - d);
            }
            w.probe_after(c, d, (wait * 2).min(120 * crate::SEC), until);
        });
    }

    fn arrive(&mut self, c: usize, d: usize, p: Pkt) {
        let (src, dst) = (self.conns[c].ends[d].node, self.conns[c].ends[1 - d].node);
        if self.is_blocked(src, dst) || !self.nodes[dst].up {
            self.count("net.segment_held");
            if self.conns[c].ends[d].gone || self.conns[c].ends[d].dead && !matches!(p, Pkt::Rst) {
                // nobody retransmits
                return;
            }
            if matches!(p, Pkt::Rst) {
                // lost for good: resets are not retransmitted, but the other end's data is
                let o = &self.conns[c].dirs[1 - d];
                if !o.sendq.is_empty() || o.inflight > 0 || o.unacked {
                    self.probe(c, 1 - d);
                }
                return;
            }
            self.conns[c].dirs[d].stalled.push_back(p);
            self.start_stall(c, d);
            return;
        }
        let now = self.now;
        let e = &self.conns[c].ends[1 - d];
        if e.gone {
            if !matches!(p, Pkt::Rst) {
                // a restarted host does not know this connection
                self.count("net.rst_from_restarted_host");
                self.send_rst(c, 1 - d);
                self.probe(c, d);
            }
            return;
        }
        if e.dead {
            if matches!(p, Pkt::Data(..)) {
                self.send_rst(c, 1 - d);
                self.probe(c, d);
            }
            return;
        }
        match p {
            Pkt::Data(off, v) => {
                self.conns[c].dirs[d].unacked = self.is_blocked(dst, src) || !self.nodes[src].up;
                if off > self.conns[c].dirs[d].delivered {
                    self.conns[c].dirs[d].early.insert(off, Pkt::Data(off, v));
                    self.count("net.out_of_order_segment");
                    return;
                }
                self.conns[c].dirs[d].inflight -= v.len();
                if e_closed(&self.conns[c].ends[1 - d]) {
                    self.conns[c].ends[1 - d].dead = true;
                    self.send_rst(c, 1 - d);
                    self.probe(c, d);
                    return;
                }
                self.note(0x51, (c as u64) << 32 | (d as u64) << 31 | v.len() as u64);
                let n = v.len();
                let dir = &mut self.conns[c].dirs[d];
                dir.rcv.extend(v);
                dir.delivered += n as u64;
                let tot = dir.delivered;
                self.tr(|| format!("conn {} {}: {} bytes arrive (total {})", c, arrow(d), n, tot));
                let mut w = self.conns[c].ends[1 - d].rd_waker.take();
                self.wake_opt(&mut w);
                if let Some(p) = self.conns[c].dirs[d].early.remove(&tot) {
                    self.arrive(c, d, p);
                }
            }
            Pkt::Fin(off) => {
                if off > self.conns[c].dirs[d].delivered {
                    self.conns[c].dirs[d].early.insert(off, Pkt::Fin(off));
                    return;
                }
                self.note(0x52, (c * 2 + d) as u64);
                self.tr(|| format!("conn {} {}: FIN arrives", c, arrow(d)));
                self.conns[c].dirs[d].fin = Fin::Delivered;
                self.conns[c].ends[1 - d].broken_at.get_or_insert(now);
                let mut w = self.conns[c].ends[1 - d].rd_waker.take();
                self.wake_opt(&mut w);
            }
            Pkt::Rst => {
                self.tr(|| format!("conn {} {}: RST arrives", c, arrow(d)));
                self.count("net.rst_received");
                let k = if self.conns[c].dirs[d].fin == Fin::Delivered { ErrorKind::BrokenPipe } else { ErrorKind::ConnectionReset };
                self.end_error(c, 1 - d, k);
            }
        }
    }

    /// Move bytes from the sender's buffer to the wire.
    fn pump(&mut self, c: usize, d: usize) {
        loop {
            let (src, dst) = (self.conns[c].ends[d].node, self.conns[c].ends[1 - d].node);
            if self.conns[c].dirs[d].dead || self.conns[c].dirs[d].cut_hold {
                return;
            }
            if self.is_blocked(src, dst) || !self.nodes[dst].up {
                if !self.conns[c].dirs[d].sendq.is_empty() || self.conns[c].dirs[d].fin == Fin::Queued {
                    self.start_stall(c, d);
                }
                return;
            }
            if !self.conns[c].dirs[d].stalled.is_empty() {
                return;
            }
            let dir = &self.conns[c].dirs[d];
            if dir.sendq.is_empty() {
                if dir.fin == Fin::Queued {
                    self.conns[c].dirs[d].fin = Fin::Inflight;
                    let off = self.conns[c].dirs[d].wired;
                    self.send_pkt(c, d, Pkt::Fin(off));
                }
                return;
            }
            let used = dir.inflight + dir.rcv.len();
            let room = self.netcfg.rcvbuf.saturating_sub(used);
            if room == 0 {
                let r = &self.conns[c].ends[1 - d];
                if r.gone || r.dead {
                    // the window probe meets a host that does not know the connection
                    self.probe(c, d);
                }
                return;
            }
            let mut n = dir.sendq.len().min(room);
            let wired = dir.wired;
            if self.netcfg.seg_max > 0 {
                n = n.min(self.netcfg.seg_max);
            }
            if self.netcfg.split_p > 0 && n > 1 && self.s.chance(self.netcfg.split_p, 16) {
                // small pieces are as likely as large ones
                let bits = 32 - (n as u32 - 1).leading_zeros();
                let b = self.s.below(bits + 1);
                let cap = (1u32 << b).min(n as u32).max(1);
                let k = 1 + self.s.below(cap);
                n = (k as usize).min(n);
                self.count("net.split_segment");
            }
            // planned cut points
            let mut cut = None;
            for (i, p) in self.plans.iter().enumerate() {
                if !p.fired
                    && p.dir == d
                    && p.from == self.conns[c].ends[0].node
                    && p.to == self.conns[c].ends[1].node
                    && p.nth == self.conns[c].nth
                    && p.at >= wired
                    && p.at < wired + n as u64
                    && cut.map(|(_, at)| p.at < at).unwrap_or(true)
                {
                    cut = Some((i, p.at));
                }
            }
            if let Some((_, at)) = cut {
                n = (at - wired) as usize;
            }
            if n > 0 {
                let v: Vec<u8> = self.conns[c].dirs[d].sendq.drain(..n).collect();
                self.conns[c].dirs[d].inflight += n;
                self.conns[c].dirs[d].wired += n as u64;
                self.send_pkt(c, d, Pkt::Data(wired, v));
                let mut w = self.conns[c].ends[d].wr_waker.take();
                self.wake_opt(&mut w);
            }
            if let Some((i, at)) = cut {
                self.plans[i].fired = true;
                let act = self.plans[i].act.clone();
                self.tr(|| format!("conn {} {}: planned {:?} at byte {}", c, arrow(d), act, at));
                let when = self.conns[c].dirs[d].last_at.max(self.now);
                match act {
                    CutAct::Stall(t) => {
                        self.count("fault.stall");
                        self.conns[c].dirs[d].hold_until = when + t;
                    }
                    act => {
                        self.conns[c].dirs[d].cut_hold = true;
                        self.at(when, move |w| w.cut_fires(c, d, act));
                        return;
                    }
                }
            }
        }
    }

    fn cut_fires(&mut self, c: usize, d: usize, act: CutAct) {
        let (src, dst) = (self.conns[c].ends[d].node, self.conns[c].ends[1 - d].node);
        self.conns[c].dirs[d].cut_hold = false;
        if self.plans.is_empty() {
            // faults have stopped meanwhile
            self.pump(c, d);
            return;
        }
        if matches!(act, CutAct::KillSender | CutAct::FinSender) {
            // the process ended before it wrote the rest
            self.conns[c].dirs[d].sendq.clear();
        }
        match act {
            CutAct::ResetBoth => {
                self.count("fault.cut_reset_both");
                self.reset_conn(c)
            }
            CutAct::ResetReceiver => {
                self.count("fault.cut_reset_receiver");
                // the sender's next packet is answered by an RST
                self.reset_end(c, 1 - d);
            }
            CutAct::ResetSender => {
                self.count("fault.cut_reset_sender");
                self.reset_end(c, d)
            }
            CutAct::KillSender => {
                self.count("fault.cut_kill");
                self.kill_process(src)
            }
            CutAct::KillReceiver => {
                self.count("fault.cut_kill");
                self.kill_process(dst)
            }
            CutAct::PowerSender => self.power_off(src),
            CutAct::PowerReceiver => self.power_off(dst),
            CutAct::Partition(t) => {
                self.count("fault.cut_partition");
                self.partition(src, dst);
                self.after(t, move |w| {
                    w.heal(src, dst);
                    w.heal(dst, src);
                });
            }
            CutAct::FinSender => {
                self.count("fault.cut_fin");
                // a proxy between the ends closes politely towards the receiver and resets the sender
                self.reset_end(c, d);
                self.conns[c].dirs[d].fin = Fin::Inflight;
                let off = self.conns[c].dirs[d].wired;
                    self.send_pkt(c, d, Pkt::Fin(off));
            }
            CutAct::Stall(_) => {}
        }
        self.pump(c, d);
    }

    pub fn poll_read(&mut self, c: usize, side: usize, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        let d = 1 - side;
        let conn = &mut self.conns[c];
        if conn.ends[side].gone || conn.ends[side].inc != self.nodes[conn.ends[side].node].inc {
            return Poll::Pending;
        }
        let avail = conn.dirs[d].rcv.len();
        if avail > 0 {
            let mut n = avail.min(buf.len());
            if n > 1 && self.netcfg.short_read_p > 0 && self.s.chance(self.netcfg.short_read_p, 16) {
                n = 1 + self.s.below(n as u32) as usize;
                self.count("net.short_read");
            }
            let now = self.now;
            let dir = &mut self.conns[c].dirs[d];
            let (a, b) = dir.rcv.as_slices();
            let k = n.min(a.len());
            buf[..k].copy_from_slice(&a[..k]);
            if k < n {
                buf[k..n].copy_from_slice(&b[..n - k]);
            }
            dir.rcv.drain(..n);
            dir.read += n as u64;
            dir.rd_times.push((dir.read, now));
            self.note(0x61, n as u64);
            self.pump(c, d);
            return Poll::Ready(Ok(n));
        }
        if let Some(k) = conn.ends[side].err {
            if !conn.ends[side].err_reported {
                conn.ends[side].err_reported = true;
                return Poll::Ready(Err(err(k)));
            }
            return Poll::Ready(Ok(0));
        }
        if conn.dirs[d].fin == Fin::Delivered {
            return Poll::Ready(Ok(0));
        }
        let old = conn.ends[side].rd_waker.replace(cx.waker().clone());
        self.trash.extend(old);
        Poll::Pending
    }

    /// Readable without consuming?
    pub fn read_ready(&self, c: usize, side: usize) -> bool {
        let conn = &self.conns[c];
        !conn.dirs[1 - side].rcv.is_empty() || conn.ends[side].err.is_some() || conn.dirs[1 - side].fin == Fin::Delivered
    }

    pub fn write_ready(&self, c: usize, side: usize) -> bool {
        let conn = &self.conns[c];
        conn.ends[side].err.is_some() || conn.ends[side].wr_shut || conn.dirs[side].sendq.len() < self.netcfg.sndbuf
    }

    pub fn wait(&mut self, c: usize, side: usize, read: bool, cx: &mut Context<'_>) {
        let e = &mut self.conns[c].ends[side];
        let slot = if read { &mut e.rd_waker } else { &mut e.wr_waker };
        let old = slot.replace(cx.waker().clone());
        self.trash.extend(old);
    }

    pub fn poll_write(&mut self, c: usize, side: usize, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        let now = self.now;
        let conn = &mut self.conns[c];
        if conn.ends[side].gone || conn.ends[side].inc != self.nodes[conn.ends[side].node].inc {
            return Poll::Pending;
        }
        if let Some(k) = conn.ends[side].err {
            if !conn.ends[side].err_reported {
                conn.ends[side].err_reported = true;
                return Poll::Ready(Err(err(k)));
            }
            return Poll::Ready(Err(err(ErrorKind::BrokenPipe)));
        }
        if conn.ends[side].wr_shut {
            return Poll::Ready(Err(err(ErrorKind::BrokenPipe)));
        }
        if buf.is_empty() {
            return Poll::Ready(Ok(0));
        }
        let space = self.netcfg.sndbuf.saturating_sub(conn.dirs[side].sendq.len());
        if space == 0 {
            let old = conn.ends[side].wr_waker.replace(cx.waker().clone());
            self.trash.extend(old);
            self.count("net.send_buffer_full");
            return Poll::Pending;
        }
        let mut n = space.min(buf.len());
        if n > 1 && self.netcfg.short_write_p > 0 && self.s.chance(self.netcfg.short_write_p, 16) {
            n = 1 + self.s.below(n as u32) as usize;
            self.count("net.short_write");
        }
        let dir = &mut self.conns[c].dirs[side];
        if !dir.dead {
            dir.sendq.extend(&buf[..n]);
        }
        dir.sent += n as u64;
        dir.tap.extend_from_slice(&buf[..n]);
        dir.tap_times.push((dir.sent, now));
        self.note(0x62, n as u64);
        self.pump(c, side);
        Poll::Ready(Ok(n))
    }

    pub fn shutdown_write(&mut self, c: usize, side: usize) -> io::Result<()> {
        let conn = &mut self.conns[c];
        if conn.ends[side].wr_shut || conn.ends[side].gone {
            return Ok(());
        }
        conn.ends[side].wr_shut = true;
        let mut w = conn.ends[side].wr_waker.take();
        self.wake_opt(&mut w);
        let conn = &mut self.conns[c];
        if conn.ends[side].dead {
            return Err(err(ErrorKind::NotConnected));
        }
        if conn.dirs[side].fin == Fin::None {
            conn.dirs[side].fin = Fin::Queued;
            self.pump(c, side);
        }
        Ok(())
    }

    /// The application (or the kernel on behalf of a dead process) closes the socket.
    pub fn sock_close(&mut self, c: usize, side: usize) {
        let now = self.now;
        let conn = &mut self.conns[c];
        if conn.ends[side].closed {
            return;
        }
        conn.ends[side].closed = true;
        conn.ends[side].closed_at = Some(now);
        let (a, b) = (conn.ends[side].rd_waker.take(), conn.ends[side].wr_waker.take());
        self.trash.extend(a);
        self.trash.extend(b);
        self.note(0x71, (c * 2 + side) as u64);
        self.tr(|| format!("conn {} end {} closed", c, side));
        let conn = &mut self.conns[c];
        if conn.ends[side].dead {
            return;
        }
        if !conn.dirs[1 - side].rcv.is_empty() {
            conn.ends[side].dead = true;
            self.count("net.close_with_unread_data");
            self.send_rst(c, side);
            if !self.conns[c].dirs[1 - side].sendq.is_empty() {
                self.probe(c, 1 - side);
            }
            return;
        }
        if conn.dirs[side].fin == Fin::None {
            conn.dirs[side].fin = Fin::Queued;
            self.pump(c, side);
        }
    }

    /// Close with SO_LINGER 0
    pub fn sock_abort(&mut self, c: usize, side: usize) {
        let now = self.now;
        let conn = &mut self.conns[c];
        if conn.ends[side].closed {
            return;
        }
        conn.ends[side].closed = true;
        conn.ends[side].closed_at = Some(now);
        let (a, b) = (conn.ends[side].rd_waker.take(), conn.ends[side].wr_waker.take());
        self.trash.extend(a);
        self.trash.extend(b);
        if !self.conns[c].ends[side].dead {
            self.conns[c].ends[side].dead = true;
            self.send_rst(c, side);
        }
    }

    /// Sockets of the code under test still open on a node.
    pub fn open_socks(&self, node: NodeId) -> usize {
        self.conns
            .iter()
            .map(|c| {
                c.ends
                    .iter()
                    .filter(|e| e.node == node && e.taken && !e.closed && !e.harness && e.inc == self.nodes[node].inc)
                    .count()
            })
            .sum()
    }

    pub fn open_listeners(&self, node: NodeId) -> usize {
        self.listeners.iter().filter(|l| l.node == node && l.open).count()
    }
}

fn e_closed(e: &End) -> bool {
    e.closed
}

fn arrow(d: usize) -> &'static str {
    if d == 0 {
        "->"
    } else {
        "<-"
    }
}
