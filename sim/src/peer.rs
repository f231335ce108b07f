//! Peers that follow the protocol but are not this library: they encode and fragment messages in every legal way.

use crate::content::*;
use crate::env::*;
use crate::raw::*;
use crate::wire::*;
use simcore::{now, sleep_ns, Ns, MS, SEC};
use std::collections::{BTreeMap, VecDeque};
use std::net::SocketAddr;
use simcore::hsync::Mutex;
use std::sync::Arc;

/// A generator of a peer's own, so that its choices cost one choice of the run.
pub struct Rng(simcore::Rng);

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(simcore::Rng::new(seed))
    }
    pub fn next(&mut self) -> u64 {
        self.0.next()
    }
    pub fn below(&mut self, n: u32) -> u32 {
        self.0.below(n as u64) as u32
    }
}

/// How a peer encodes its messages.
#[derive(Clone, Copy, Debug)]
pub struct Style {
    /// out of 16: a frame ends early after a fragment
    pub cut: u32,
    /// out of 16: empty fragments appear
    pub empty: u32,
    /// largest frame
    pub frame: usize,
    /// more transport headers, tracing values
    pub extras: bool,
    /// pings per message, out of 16
    pub pings: u32,
    /// pings at once
    pub burst: u32,
    /// out of 16: calls that are over are cancelled, or claimed
    pub late: u32,
}

pub fn style(r: &mut Rng) -> Style {
    let t = |r: &mut Rng, v: &[u32]| v[r.below(v.len() as u32) as usize];
    Style {
        cut: t(r, &[0, 2, 8, 15]),
        empty: t(r, &[0, 0, 2, 8]),
        frame: t(r, &[65535, 65535, 65534, 4000, 300]) as usize,
        extras: r.below(2) == 0,
        pings: t(r, &[0, 0, 2, 8, 14]),
        burst: t(r, &[1, 1, 2, 6]),
        late: t(r, &[0, 0, 2, 8]),
    }
}

/// Splits the arguments of a message into the argument lists of its frames.
pub fn split(r: &mut Rng, st: &Style, args: &[Vec<u8>], first_room: usize, room: usize) -> Vec<Vec<Vec<u8>>> {
    let mut out: Vec<Vec<Vec<u8>>> = vec![];
    let mut cur: Vec<Vec<u8>> = vec![];
    let mut left = first_room;
    let total: usize = args.iter().map(|a| a.len()).sum();
    // keeps the number of frames reasonable
    let small_ok = total < 3000;
    let mut budget = 40;
    macro_rules! flush {
        () => {
            out.push(std::mem::take(&mut cur));
            left = room;
        };
    }
    for (i, a) in args.iter().enumerate() {
        let mut p = 0;
        // a fragment that continues an argument is the first one of its frame, whatever its length
        if i > 0 && left < 2 {
            flush!();
            cur.push(vec![]);
            left -= 2;
        }
        loop {
            if left < 2 {
                flush!();
            }
            let max = (a.len() - p).min(left - 2);
            let mut n = max;
            if budget > 0 && r.below(16) < st.cut && max > 0 {
                budget -= 1;
                n = match r.below(4) {
                    0 if small_ok => r.below(max.min(4) as u32 + 1) as usize,
                    1 if small_ok => r.below(max as u32 + 1) as usize,
                    2 => max / 2,
                    _ => max - r.below(max.min(3) as u32) as usize,
                };
            }
            if budget > 0 && r.below(16) < st.empty {
                budget -= 1;
                n = 0;
            }
            cur.push(a[p..p + n].to_vec());
            left -= n + 2;
            p += n;
            if p < a.len() {
                flush!();
                continue;
            }
            // the argument is complete; the frame may end here all the same
            while budget > 0 && i < 2 && r.below(32) < st.cut {
                budget -= 1;
                flush!();
                cur.push(vec![]);
                left -= 2;
            }
            break;
        }
    }
    // a message may end with an empty fragment
    while budget > 0 && r.below(16) < st.empty {
        budget -= 1;
        flush!();
        cur.push(vec![]);
        left -= 2;
    }
    let _ = left;
    out.push(cur);
    out
}

fn extras(r: &mut Rng, c: &mut Call, request: bool) {
    let mut add = |k: &str, v: String| c.headers.push((k.to_string(), v));
    if r.below(12) == 0 {
        for i in 0..r.below(230) {
            add(&format!("h{}", i), String::new());
        }
    }
    for _ in 0..r.below(4) {
        match r.below(6) {
            0 => add("re", "n".into()),
            1 => add("se", "2".into()),
            2 => add("fd", "zone-a".into()),
            3 => add("sk", String::new()),
            4 => add("rd", "v".repeat(r.below(250) as usize)),
            _ => add("\u{3b1}", "\u{3b2}".into()),
        }
    }
    c.headers.dedup_by(|a, b| a.0 == b.0);
    let mut seen = std::collections::BTreeSet::new();
    c.headers.retain(|h| seen.insert(h.0.clone()));
    // any order
    let n = c.headers.len();
    for i in (1..n).rev() {
        c.headers.swap(i, r.below(i as u32 + 1) as usize);
    }
    c.tracing = bytes(r.next(), 25);
    c.tracing[24] &= 1;
    if request {
        c.ttl = if r.below(8) == 0 { u32::MAX } else { 1 + r.below(1_000_000) };
    }
}

/// The frames of one message.
#[allow(clippy::too_many_arguments)]
pub fn encode(r: &mut Rng, st: &Style, request: bool, id: u32, service: &str, code: u8, scheme: &str, args: &[Vec<u8>]) -> VecDeque<Vec<u8>> {
    let mut c = Call { ttl: 1000, code, tracing: vec![0; 25], service: service.to_string(), ..Call::default() };
    c.headers.push(("as".into(), scheme.into()));
    if request {
        c.headers.push(("cn".into(), "some caller".into()));
    }
    if st.extras {
        extras(r, &mut c, request);
    }
    let ty = if request { CALL_REQ } else { CALL_RES };
    let head = call_payload(ty, &c).len() + 16;
    let frame_max = st.frame.max(head + 40);
    // an argument's length field limits what a frame carries as well
    let parts = split(r, st, args, frame_max - head, frame_max - 18);
    let n = parts.len();
    simcore::with(|w| {
        w.count("peer.message");
        if n > 1 {
            w.count("peer.fragmented_message");
        }
        for (i, p) in parts.iter().enumerate() {
            if p.iter().enumerate().any(|(k, a)| a.is_empty() && (i + 1 < n || (i > 0 && k == 0))) {
                w.count("peer.empty_fragment");
            }
        }
    });
    let mut out = VecDeque::new();
    for (i, p) in parts.into_iter().enumerate() {
        let more = if i + 1 < n { 1 } else { 0 };
        if i == 0 {
            c.flags = more;
            c.args = p;
            out.push_back(frame(ty, id, &call_payload(ty, &c)));
        } else {
            let t = if request { CALL_REQ_C } else { CALL_RES_C };
            let k = Call { flags: more, args: p, ..Call::default() };
            out.push_back(frame(t, id, &call_payload(t, &k)));
        }
    }
    out
}

/// A message of proper frames that cannot be understood, or not be served.
pub fn odd(r: &mut Rng, st: &Style, request: bool, id: u32, service: &str, x: &Content) -> VecDeque<Vec<u8>> {
    let (ty, cont) = if request { (CALL_REQ, CALL_REQ_C) } else { (CALL_RES, CALL_RES_C) };
    let mut args = x.args().to_vec();
    let mut scheme = x.scheme().to_string();
    let mut kind = r.below(10);
    let mut service = service.to_string();
    let many = Style { cut: st.cut.max(8), frame: st.frame.min(600 + 2 * service.len()), ..*st };
    let mut fs;
    loop {
        match kind {
            0 => scheme = ["http", "thrift", "sthrift", "jsonx", "", "RAW", "\u{fc}"][r.below(7) as usize].into(),
            1 => {
                // a header of the raw format must be text, an argument of the JSON format must be JSON
                let k = if scheme == "raw" { r.below(2) } else { 1 + r.below(2) } as usize;
                args[k] = match (scheme.as_str(), r.below(4)) {
                    ("raw", _) => [args[k].clone(), vec![0xc3], vec![0x28, 0xff]].concat(),
                    (_, 0 | 1) => b"[1]".to_vec(),
                    (_, 2) => b"{\"a\":".to_vec(),
                    _ => [args[k].clone(), b"}".to_vec()].concat(),
                };
            }
            2 if request => service = "no such service".into(),
            3 if request => args[0] = b"no such endpoint".to_vec(),
            _ => {}
        }
        let style = if kind == 9 || r.below(2) == 0 { &many } else { st };
        let code = (r.below(4) == 0) as u8;
        fs = encode(r, style, request, id, &service, code, &scheme, &args);
        if kind == 9 && fs.len() < 2 {
            kind = 4;
            continue;
        }
        break;
    }
    if request && (kind == 0 || kind == 1 || kind == 2 || kind == 3) || kind < 2 {
        simcore::with(|w| w.count("peer.odd_message"));
        return fs;
    }
    let first = parse_call(ty, &fs[0][16..]).expect("own message");
    let mut c = first.clone();
    match kind {
        2 | 3 | 4 if fs[0].len() < 65500 => {
            c.csum_type = 1 + r.below(3) as u8;
            c.csum = r.next() as u32;
            fs[0] = frame(ty, id, &call_payload(ty, &c));
        }
        5 => {
            // fixed fields are missing
            let n = r.below(25) as usize;
            fs[0] = frame(ty, id, &call_payload(ty, &c)[..n]);
        }
        2 | 3 | 4 | 6 => {
            c.headers.retain(|h| h.0 != "as");
            fs[0] = frame(ty, id, &call_payload(ty, &c));
        }
        7 if !request => {
            c.code = 2 + r.below(254) as u8;
            fs[0] = frame(ty, id, &call_payload(ty, &c));
        }
        8 if !request => fs[0][2] = [CALL_RES_C, PING_RES, INIT_RES, CALL_REQ, CALL_REQ_C][r.below(5) as usize],
        7 | 8 => {
            // a length that exceeds the frame
            c.args = vec![];
            let mut p = call_payload(ty, &c);
            p.extend([0xff, 0xf0, 1, 2, 3]);
            fs[0] = frame(ty, id, &p);
        }
        _ => {
            let k = 1 + r.below(fs.len() as u32 - 1) as usize;
            let flags = fs[k][16];
            match r.below(5) {
                0 => fs[k][17] = 1 + r.below(255) as u8,
                1 => fs[k] = frame(cont, id, &[flags]),
                2 => fs[k] = frame(cont, id, &[flags, 0, 0xff, 0xff, 1]),
                3 => fs[k] = frame(cont, id, &[]),
                _ if request => fs[k][2] = [CALL_RES_C, PING_RES, INIT_REQ, CANCEL][r.below(4) as usize],
                _ => {
                    let e = frame(ERROR, id, &error_payload(1 + r.below(8) as u8, "no end"));
                    fs[k] = if r.below(2) == 0 { e } else { frame(CALL_REQ_C, id, &fs[k][16..].to_vec()) };
                }
            }
        }
    }
    simcore::with(|w| w.count("peer.odd_message"));
    fs
}

/// A cancel or claim frame.
fn afterthought(r: &mut Rng, id: u32) -> Vec<u8> {
    let mut p = (r.next() as u32).to_be_bytes().to_vec();
    p.extend(bytes(r.next(), 24));
    p.push(r.below(2) as u8);
    simcore::with(|w| w.count("peer.late_cancel"));
    if r.below(3) == 0 {
        return frame(CLAIM, id, &p);
    }
    p.extend([0, 5]);
    p.extend(b"never");
    frame(CANCEL, id, &p)
}

pub fn init_headers(r: &mut Rng) -> Headers {
    match r.below(4) {
        0 => vec![],
        1 => vec![("host_port".into(), "0.0.0.0:0".into()), ("process_name".into(), "peer".into())],
        2 => (0..1 + r.below(30)).map(|i| (format!("key{}", i), "v".repeat(r.below(300) as usize))).collect(),
        _ => vec![
            ("tchannel_language".into(), "".into()),
            ("".into(), "no key".into()),
            ("\u{fc}".into(), "x".repeat(60_000)),
        ],
    }
}

/// Sends the frames of several messages, interleaved.
pub struct Mux {
    pub active: Vec<VecDeque<Vec<u8>>>,
    /// all messages begin before any of them ends
    pub level: bool,
}

impl Mux {
    pub fn has(&self, id: u32) -> bool {
        self.active.iter().any(|v| v.front().map(|f| f[4..8] == id.to_be_bytes()).unwrap_or(false))
    }
    pub fn next(&mut self, r: &mut Rng) -> Option<Vec<u8>> {
        if self.active.is_empty() {
            return None;
        }
        let mut i = r.below(self.active.len() as u32) as usize;
        if self.level && self.active[i].len() < 2 {
            let n = self.active.len();
            i = (0..n).map(|k| (i + k) % n).find(|k| self.active[*k].len() > 1).unwrap_or(i);
        }
        let f = self.active[i].pop_front();
        if self.active[i].is_empty() {
            self.active.swap_remove(i);
        }
        f
    }
}

/// Assembles the call messages of a stream as frames come in.
#[derive(Default)]
pub struct Inbox {
    open: BTreeMap<u32, (Call, Assembly)>,
}

pub enum Got {
    Message(u32, Call, Vec<Vec<u8>>),
    Nothing,
    Bad(String),
}

impl Inbox {
    pub fn add(&mut self, f: &Frame) -> Got {
        let first = f.ty == CALL_REQ || f.ty == CALL_RES;
        let c = match parse_call(f.ty, &f.payload) {
            Ok(c) => c,
            Err(e) => return Got::Bad(format!("{}: {}", type_name(f.ty), e)),
        };
        let more = c.more();
        let mut a = if first {
            if self.open.contains_key(&f.id) {
                return Got::Bad(format!("{} with id {} while another is incomplete", type_name(f.ty), f.id));
            }
            (c.clone(), Assembly::default())
        } else {
            match self.open.remove(&f.id) {
                Some(a) => a,
                None => return Got::Bad(format!("{} without a beginning (id {})", type_name(f.ty), f.id)),
            }
        };
        a.1.add(&c.args);
        if more {
            self.open.insert(f.id, a);
            return Got::Nothing;
        }
        Got::Message(f.id, a.0, a.1.args)
    }
}

/// Performs the given calls over one connection of its own, all of them planned in the history.
pub async fn legal_client(env: Env, to: SocketAddr, calls: Vec<usize>, seed: u64, until: Ns) {
    odd_client(env, to, calls, seed, until, 0).await
}

/// Clients with more calls than that begin all of them before they end any.
pub const WIDE: usize = 40;

/// Some more requests (`odd` out of 16) cannot be served.
pub async fn odd_client(env: Env, to: SocketAddr, calls: Vec<usize>, seed: u64, until: Ns, odds: u32) {
    let mut r = Rng::new(seed);
    let st = style(&mut r);
    let mut c = match by(until, Raw::connect(to)).await {
        Some(Some(c)) => c,
        _ => {
            env.viol("peer-refused", format!("a client could not connect to {}", to));
            return;
        }
    };
    let iid = r.next() as u32;
    let init = frame(INIT_REQ, iid, &init_payload(2, &init_headers(&mut r)));
    c.send_by(&init, until).await;
    match c.frame(until).await {
        Some(f) if f.ty == INIT_RES && f.id == iid && parse_init(&f.payload).map(|i| i.version == 2).unwrap_or(false) => {}
        f => {
            env.viol("peer-refused", format!("a valid init request (id {}) got {:?}", iid, f.map(|f| (type_name(f.ty), f.id))));
            return;
        }
    }
    // ids are any distinct numbers; those of finished calls may be used again
    let base = match r.below(8) {
        0 | 1 | 2 | 3 => r.next() as u32,
        4 => u32::MAX,
        5 => 0xffff,
        _ => 1,
    };
    let rest = env.h().slow_peers;
    let mut rests = if rest > 0 { 2 } else { 0 };
    let stride = [1u32, 1, 7, 0x1000_0001][r.below(4) as usize];
    let mut mux = Mux { active: vec![], level: false };
    let mut pending: BTreeMap<u32, usize> = BTreeMap::new();
    let mut pings: BTreeMap<u32, i64> = BTreeMap::new();
    let wide = calls.len() > WIDE;
    let par = if wide { calls.len() } else { 1 + r.below(6) as usize };
    let st = if wide { Style { cut: st.cut.max(6), pings: st.pings / 8, ..st } } else { st };
    mux.level = wide;
    let mut queue: VecDeque<usize> = calls.iter().cloned().collect();
    let mut free: Vec<u32> = vec![];
    let mut next = 0u32;
    let mut inbox = Inbox::default();
    let mut unserved: BTreeMap<u32, Ns> = BTreeMap::new();
    let mut most = if odds > 0 { 12 } else { 0 };
    let mut slow_reader = if r.below(4) == 0 { 1 + r.below(20) as u64 } else { 0 };
    loop {
        while pending.len() < par && !queue.is_empty() {
            let id = queue.pop_front().unwrap();
            let wid = if !free.is_empty() && r.below(3) == 0 {
                free.pop().unwrap()
            } else {
                next += 1;
                base.wrapping_add(stride.wrapping_mul(next))
            };
            let spec = {
                let mut h = env.h();
                h.begin(id);
                h.calls[id].inc = simcore::with(|w| w.nodes[h.calls[id].spec.client].inc);
                h.calls[id].spec.clone()
            };
            env.note(format!("peer call {} starts as id {}: {:?}", id, wid, spec.req));
            pending.insert(wid, id);
            mux.active.push(encode(&mut r, &st, true, wid, &spec.service, 0, spec.req.scheme(), &spec.req.args()));
        }
        if odds > 0 && most > 0 && unserved.len() < 3 && r.below(16) < odds {
            most -= 1;
            next += 1;
            let wid = match free.pop() {
                Some(w) if r.below(2) == 0 => w,
                _ => base.wrapping_add(stride.wrapping_mul(next)),
            };
            let (service, req) = {
                let h = env.h();
                let s = &h.calls[calls[r.below(calls.len() as u32) as usize]].spec;
                (s.service.clone(), s.req.clone())
            };
            let fs = odd(&mut r, &st, true, wid, &service, &req);
            unserved.insert(wid, now());
            mux.active.push(fs);
        }
        if r.below(16) < st.late && r.below(4) == 0 {
            let id = match free.last() {
                Some(id) if r.below(2) == 0 => *id,
                _ => base.wrapping_sub(1 + r.below(1000)),
            };
            if !pending.contains_key(&id) && !unserved.contains_key(&id) {
                let b = afterthought(&mut r, id);
                mux.active.push(VecDeque::from(vec![b]));
            }
        }
        if rests > 0 && !mux.active.is_empty() && r.below(6) == 0 {
            rests -= 1;
            simcore::with(|w| w.count("peer.rest_between_frames"));
            sleep_ns(rest).await;
        }
        // one frame out, then whatever came in
        if let Some(f) = mux.next(&mut r) {
            let mut b = f;
            if r.below(16) < st.pings {
                let mut p = vec![];
                for _ in 0..1 + r.below(st.burst) {
                    let pid = match r.below(3) {
                        0 => *pending.keys().next().unwrap_or(&7),
                        1 => iid,
                        _ => r.next() as u32,
                    };
                    *pings.entry(pid).or_insert(0) += 1;
                    simcore::with(|w| w.count("peer.ping"));
                    p.extend(frame(PING_REQ, pid, &[]));
                }
                if r.below(2) == 0 {
                    b.extend_from_slice(&p);
                } else {
                    b = [p, b].concat();
                }
            }
            if !send_reading(&mut c, &b, until).await {
                env.viol("peer-lost", "the connection of a legal client ended while it sent");
                return;
            }
        }
        if slow_reader > 0 {
            slow_reader -= 1;
            sleep_ns(20 * MS).await;
        }
        let wait = if mux.active.is_empty() { until } else { now() };
        while let Some(f) = if mux.active.is_empty() { c.frame(wait).await } else { c.ready_frame() } {
            match f.ty {
                CALL_RES | CALL_RES_C => match inbox.add(&f) {
                    Got::Nothing => {}
                    Got::Bad(e) => {
                        env.viol("peer-bad-frame", e);
                        return;
                    }
                    Got::Message(wid, k, args) => match pending.remove(&wid) {
                        None if unserved.contains_key(&wid) => {
                            env.viol("unserved-call-succeeds", format!("a request that cannot be understood or served (id {}) is answered with a response", wid));
                            return;
                        }
                        None => {
                            env.viol("peer-bad-frame", format!("response with id {} nobody waits for", wid));
                            return;
                        }
                        Some(id) => {
                            let o = match Content::of_args(k.scheme().unwrap_or(""), &args) {
                                Some(x) if k.code == 0 => Outcome::Ok(x),
                                Some(x) => Outcome::MsgErr(x),
                                None => Outcome::Internal(2, "undecodable".into()),
                            };
                            done(&env, id, o);
                            free.push(wid);
                        }
                    },
                },
                ERROR => match (pending.remove(&f.id), parse_error(&f.payload)) {
                    (Some(id), Ok(e)) => {
                        done(&env, id, Outcome::General(e.msg));
                        // the rest of the request follows all the same
                        if !mux.has(f.id) {
                            free.push(f.id);
                        }
                    }
                    (None, Ok(_)) if unserved.remove(&f.id).is_some() => {
                        if !mux.has(f.id) {
                            free.push(f.id);
                        }
                    }
                    (None, _) => {
                        env.viol("peer-bad-frame", format!("error frame with id {} nobody waits for", f.id));
                        return;
                    }
                    (_, Err(e)) => {
                        env.viol("peer-bad-frame", e);
                        return;
                    }
                },
                PING_RES => {
                    let n = pings.entry(f.id).or_insert(0);
                    *n -= 1;
                    if *n < 0 {
                        env.viol("peer-bad-frame", format!("ping response with id {} nobody asked for", f.id));
                        return;
                    }
                }
                t => {
                    env.viol("peer-bad-frame", format!("a client got a {} frame", type_name(t)));
                    return;
                }
            }
            if mux.active.is_empty() && pending.len() < par && !queue.is_empty() {
                break;
            }
            if pending.is_empty() && unserved.is_empty() && queue.is_empty() && mux.active.is_empty() && pings.values().all(|n| *n == 0) {
                break;
            }
        }
        if pending.is_empty() && unserved.is_empty() && queue.is_empty() && mux.active.is_empty() && pings.values().all(|n| *n == 0) {
            break;
        }
        if c.eof || c.err {
            env.viol("peer-lost", "the connection of a legal client ended while it waited");
            return;
        }
        if now() >= until {
            if let Some((id, t)) = unserved.iter().next() {
                env.viol("unserved-call-hangs", format!("a request that cannot be understood or served (id {}, sent at {:.3} ms) is not answered", id, *t as f64 / 1e6));
            } else if pending.is_empty() {
                env.viol("ping-unanswered", "pings of a legal client are not answered");
            }
            return;
        }
    }
    env.probe("legal-client-done");
    if r.below(2) == 0 {
        c.finish().await;
    }
}

/// Writes while taking in what arrives, so that neither side blocks for ever.
pub async fn send_reading(c: &mut Raw, b: &[u8], until: Ns) -> bool {
    let mut p = 0;
    while p < b.len() {
        match c.write_some(&b[p..], until).await {
            Some(n) if n > 0 => p += n,
            _ => return false,
        }
    }
    true
}

fn done(env: &Env, id: usize, o: Outcome) {
    env.note(format!("peer call {} ends: {}", id, o.brief()));
    let mut h = env.h();
    let c = &mut h.calls[id];
    c.end = Some(now());
    c.outcome = Some(o);
}

/// Serves planned requests the way another implementation might.
pub async fn legal_server(env: Env, node: usize, a: SocketAddr, seed: u64) {
    let l = match tokio::net::TcpListener::bind(a).await {
        Ok(l) => l,
        Err(e) => {
            env.viol("harness", format!("legal server: {}", e));
            return;
        }
    };
    let mut k = 0;
    loop {
        let s = match l.accept().await {
            Ok((s, _)) => s,
            Err(_) => return,
        };
        k += 1;
        // the same implementation on all connections: what a client does not accept it never accepts
        let m = Manner { init: Some(seed), ..Manner::default() };
        spawn_h(node, serve_as(env.clone(), node, Raw::new(s), simcore::Rng::new(seed ^ (k * 0x9e37)).next(), m));
    }
}

/// How a foreign server answers the init request of a connection.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Hello {
    Good,
    Version(u16),
    Error,
    WrongId,
    WrongType(u8),
    Truncated,
    Empty,
    Garbage,
    Silence,
    Close,
    Reset,
    Partial,
    /// extra frames of other ids before the right one
    Noise,
}

impl Hello {
    pub fn good(&self) -> bool {
        matches!(self, Hello::Good | Hello::Noise)
    }
}

/// Performs the server's part of the handshake. False: the connection is not to be used any further.
pub async fn hello(r: &mut Rng, c: &mut Raw, m: &Manner, until: Ns) -> bool {
    let (how, delay) = (m.hello, m.delay);
    if how == Hello::Close {
        return false;
    }
    let f = match c.frame(until).await {
        Some(f) if f.ty == INIT_REQ => f,
        _ => return false,
    };
    if delay > 0 {
        sleep_ns(delay).await;
    }
    let hs = match m.init {
        Some(seed) => init_headers(&mut Rng::new(seed)),
        None => init_headers(r),
    };
    let full = init_payload(2, &hs);
    let b = match how {
        Hello::Good => frame(INIT_RES, f.id, &full),
        Hello::Noise => {
            let mut b = frame(PING_REQ, f.id, &[]);
            b.extend(frame(ERROR, 0x7000_0001, &error_payload(3, "of somebody else")));
            b.extend(frame(INIT_RES, f.id, &full));
            b
        }
        Hello::Version(v) => frame(INIT_RES, f.id, &init_payload(v, &hs)),
        Hello::Error => frame(ERROR, f.id, &error_payload(0xff, "no")),
        Hello::WrongId => frame(INIT_RES, f.id.wrapping_add(1 + r.below(1000)), &full),
        Hello::WrongType(t) => frame(t, f.id, if r.below(2) == 0 { &full } else { &[] }),
        Hello::Truncated => {
            let full = if full.len() < 6 { init_payload(2, &vec![("a".into(), "b".into())]) } else { full };
            let n = r.below(full.len() as u32) as usize;
            frame(INIT_RES, f.id, &full[..n])
        }
        Hello::Empty => frame(INIT_RES, f.id, &[]),
        Hello::Garbage => {
            let mut b = bytes(r.next(), 1 + r.below(200) as usize);
            b[0] = 0;
            if b.len() > 1 {
                b[1] &= 15;
            }
            b
        }
        Hello::Partial => {
            let x = frame(INIT_RES, f.id, &full);
            let n = r.below(x.len() as u32) as usize;
            x[..n].to_vec()
        }
        Hello::Silence => vec![],
        Hello::Reset => {
            c.abort();
            return false;
        }
        Hello::Close => return false,
    };
    if !b.is_empty() && !c.send_by(&b, until).await {
        return false;
    }
    true
}

/// How a foreign server behaves on one connection.
#[derive(Clone, Copy, Debug)]
pub struct Manner {
    pub hello: Hello,
    /// what chooses the init headers
    pub init: Option<u64>,
    pub delay: Ns,
    /// out of 16: a request gets something else than its proper answer
    pub evil: u32,
    /// out of 16: frames that belong to no call follow
    pub noise: u32,
    /// the connection ends after this time
    pub life: Ns,
    /// 0 closed, 1 reset, 2 half-closed and kept
    pub end: u32,
    /// what makes the stream undecodable is sent after that many requests; the connection stays open
    pub poison: Option<(u32, u32)>,
    /// pauses without reading, out of 64 per frame
    pub stalls: u32,
    /// so many frames under the same id follow the answer to an init or ping request
    pub surplus: u32,
}

impl Default for Manner {
    fn default() -> Manner {
        Manner { hello: Hello::Good, init: None, delay: 0, evil: 0, noise: 0, life: 3600 * SEC, end: 0, poison: None, stalls: 0, surplus: 0 }
    }
}

/// Well-formed and other frames under ids that no call has.
fn stray(r: &mut Rng, id: u32, finished: &[u32], good: &Content) -> Vec<u8> {
    let id = if !finished.is_empty() && r.below(2) == 0 {
        finished[r.below(finished.len() as u32) as usize]
    } else {
        id.wrapping_add(0x4000_0000 + r.below(0x2000_0000))
    };
    let mut c = Call { tracing: vec![0; 25], ..Call::default() };
    c.headers = vec![("as".into(), good.scheme().into())];
    c.args = good.args().to_vec();
    c.args[0].truncate(300);
    c.args[1].truncate(3000);
    c.args[2].truncate(3000);
    simcore::with(|w| w.count("fault.stray_frame"));
    match r.below(8) {
        0 | 1 => frame(CALL_RES, id, &call_payload(CALL_RES, &c)),
        2 => {
            c.flags = 1;
            frame(CALL_RES, id, &call_payload(CALL_RES, &c))
        }
        3 => frame(CALL_RES_C, id, &call_payload(CALL_RES_C, &Call { args: c.args, ..Call::default() })),
        4 | 5 => frame(ERROR, id, &error_payload(1 + r.below(8) as u8, "not yours")),
        6 => frame(PING_RES, id, &[]),
        _ => frame([CALL_RES, CALL_RES_C, ERROR][r.below(3) as usize], id, &bytes(r.next(), r.below(90) as usize)),
    }
}

/// Frames that come after everything was said about an id.
fn surplus(r: &mut Rng, id: u32, most: u32) -> Vec<u8> {
    let n = 1 + r.below(most);
    let mixed = r.below(2) == 0;
    let mut b = vec![];
    for _ in 0..n {
        simcore::with(|w| w.count("fault.surplus_frame"));
        let k = if mixed { r.below(4) } else { 0 };
        b.extend(match k {
            0 => frame(PING_RES, id, &[]),
            1 => frame(INIT_RES, id, &init_payload(2, &vec![])),
            2 => frame(ERROR, id, &error_payload(5, "late")),
            _ => frame(CALL_RES_C, id, &bytes(r.next(), r.below(40) as usize)),
        });
    }
    b
}

/// Answers the handshake in the given way and serves planned requests from then on.
pub async fn serve_as(env: Env, node: usize, mut c: Raw, seed: u64, m: Manner) {
    let how = m.hello;
    let mut r = Rng::new(seed);
    let st = style(&mut r);
    let far = now() + m.life;
    if !hello(&mut r, &mut c, &m, far).await {
        return;
    }
    if m.surplus > 0 && how == Hello::Good {
        let id = c.last_id;
        let b = surplus(&mut r, id, m.surplus);
        if !send_reading(&mut c, &b, far).await {
            return;
        }
    }
    serving(&env, node, &mut c, &mut r, st, m, far).await;
    match m.end {
        1 => c.abort(),
        2 => {
            c.finish().await;
            while c.fill(now() + 60 * SEC).await {}
        }
        _ => {}
    }
}

async fn serving(env: &Env, node: usize, c: &mut Raw, r: &mut Rng, st: Style, m: Manner, far: Ns) {
    let how = m.hello;
    let mut finished: Vec<u32> = vec![];
    let mut recent: Vec<u32> = vec![];
    let mut asked = 0u32;
    let replies: Arc<Mutex<Vec<(u32, Content, String, Out, bool)>>> = Arc::default();
    let mut mux = Mux { active: vec![], level: false };
    let mut inbox = Inbox::default();
    let mut pings: BTreeMap<u32, i64> = BTreeMap::new();
    let mut waiting = 0usize;
    let mut last_id = 0;
    let rest = env.h().slow_peers;
    let mut rests = if rest > 0 { 2 } else { 0 };
    let mut rested = 0;
    loop {
        {
            let mut v = replies.lock().unwrap();
            for (id, c, service, out, broken) in v.drain(..) {
                waiting -= 1;
                let good = c.clone();
                let mut fs = match out {
                    _ if broken => odd(r, &st, false, id, &service, &c),
                    _ if m.evil > 0 && r.below(16) < m.evil => {
                        simcore::with(|w| w.count("fault.broken_reply"));
                        let key = r.next();
                        crate::hostile::nasty_reply(r, id, &service, &c, key)
                    }
                    Out::Ok | Out::MsgErr => {
                        encode(r, &st, false, id, &service, if out == Out::Ok { 0 } else { 1 }, c.scheme(), &c.args())
                    }
                    Out::Gen(s) | Out::Int(_, s) => {
                        let mut n = s.len().min(60_000);
                        while !s.is_char_boundary(n) {
                            n -= 1;
                        }
                        let code = [1u8, 2, 3, 4, 5, 6, 7, 8][r.below(8) as usize];
                        VecDeque::from(vec![frame(ERROR, id, &error_payload(code, &s[..n]))])
                    }
                    Out::Panic => VecDeque::new(),
                };
                if m.noise > 0 {
                    // the id is of no use to anybody once its answer is complete
                    if m.evil == 0 {
                        recent.push(id);
                    }
                    while r.below(16) < m.noise {
                        let at = r.below(fs.len() as u32 + 1) as usize;
                        let f = stray(r, id, &finished, &good);
                        fs.insert(at, f);
                    }
                    if r.below(16) < m.noise && m.evil == 0 {
                        // the answer once more
                        let again: Vec<Vec<u8>> = vec![stray(r, id, &[id], &good), stray(r, id, &[id], &good)];
                        fs.extend(again);
                    }
                }
                mux.active.push(fs);
            }
        }
        if mux.active.is_empty() {
            finished.append(&mut recent);
        }
        if let Some((n, kind)) = m.poison {
            if asked >= n {
                poison(env, c, r, kind, far).await;
                return;
            }
        }
        if m.stalls > 0 && r.below(64) < m.stalls {
            sleep_ns([MS, 200 * MS, 2 * SEC][r.below(3) as usize]).await;
        }
        if now() >= far {
            return;
        }
        if rests > 0 && !mux.active.is_empty() && now() >= rested && r.below(6) == 0 {
            rests -= 1;
            simcore::with(|w| w.count("peer.rest_between_frames"));
            rested = now() + rest;
        }
        let resting = now() < rested;
        if let Some(f) = if resting { None } else { mux.next(r) } {
            let mut b = f;
            if r.below(16) < st.pings {
                let mut p = vec![];
                for _ in 0..1 + r.below(st.burst) {
                    let pid = if r.below(2) == 0 { last_id } else { r.next() as u32 };
                    *pings.entry(pid).or_insert(0) += 1;
                    simcore::with(|w| w.count("peer.ping"));
                    p.extend(frame(PING_REQ, pid, &[]));
                }
                b = if r.below(2) == 0 { [b, p].concat() } else { [p, b].concat() };
            }
            if !send_reading(c, &b, far).await {
                return;
            }
        }
        let idle = mux.active.is_empty() || resting;
        let f = if idle { c.frame(far.min(now() + if waiting > 0 { MS } else { 50 * MS })).await } else { c.ready_frame() };
        let f = match f {
            Some(f) => f,
            None => {
                if c.eof || c.err {
                    return;
                }
                continue;
            }
        };
        if !how.good() && !matches!(f.ty, PING_REQ | PING_RES) {
            env.viol(
                "call-without-handshake",
                format!("a client sends a {} frame on connection {}, where its init request was answered with {:?}", type_name(f.ty), c.conn, how),
            );
            return;
        }
        match f.ty {
            CALL_REQ | CALL_REQ_C => match inbox.add(&f) {
                Got::Nothing => {}
                Got::Bad(e) => {
                    env.viol("peer-bad-frame", e);
                    return;
                }
                Got::Message(id, k, args) => {
                    last_id = id;
                    asked += 1;
                    let x = Content::of_args(k.scheme().unwrap_or(""), &args);
                    let resp = x.as_ref().and_then(|x| {
                        let mut h = env.h();
                        let p = h.planned(node, &k.service, x);
                        let bad = h.groups.get(&(node, k.service.clone(), x.clone())).map(|g| h.calls[g.calls[0]].spec.expect == Expect::BadReply);
                        if let Some(g) = h.groups.get_mut(&(node, k.service.clone(), x.clone())) {
                            g.invs += 1;
                            g.returned += 1;
                        }
                        p.map(|p| (p, bad.unwrap_or(false)))
                    });
                    match resp {
                        None => env.viol("invented-request", format!("a foreign server got a request nobody made: id {} service {:?} {:?}", id, k.service, x)),
                        Some((p, bad)) => {
                            waiting += 1;
                            let q = replies.clone();
                            spawn_h(node, async move {
                                if p.delay > 0 {
                                    sleep_ns(p.delay).await;
                                }
                                q.lock().unwrap().push((id, p.reply, k.service, p.out, bad));
                            });
                        }
                    }
                }
            },
            PING_RES => {
                let n = pings.entry(f.id).or_insert(0);
                *n -= 1;
                // what follows a broken frame may look like a ping
                if *n < 0 && how != Hello::Noise && m.evil == 0 {
                    env.viol("peer-bad-frame", format!("ping response with id {} nobody asked for", f.id));
                }
            }
            PING_REQ => {
                let mut b = frame(PING_RES, f.id, &[]);
                if m.surplus > 0 {
                    b.extend(surplus(r, f.id, m.surplus));
                }
                mux.active.push(VecDeque::from(vec![b]));
            }
            CANCEL | CLAIM => {}
            t => env.viol("peer-bad-frame", format!("a server got a {} frame", type_name(t))),
        }
    }
}

/// Makes what follows impossible to understand, and stays.
async fn poison(env: &Env, c: &mut Raw, r: &mut Rng, kind: u32, far: Ns) {
    let mut b = frame(CALL_RES, 1, &[0; 40]);
    match kind % 3 {
        0 => {
            b[0] = 0;
            b[1] = r.below(16) as u8;
        }
        1 => b[2] = [0u8, 5, 0x15, 0xfe][r.below(4) as usize],
        _ => {
            b = vec![0, 0];
            b.extend(bytes(r.next(), 60));
        }
    }
    let at = with_tap_len(c);
    if c.send_by(&b, far).await {
        simcore::with(|w| w.count("fault.undecodable_stream"));
        env.h().poisoned.push((c.conn, at + 56));
    }
    while c.fill(far).await {}
}

fn with_tap_len(c: &Raw) -> u64 {
    simcore::with(|w| w.conns[c.conn].dirs[c.side].tap.len() as u64)
}
