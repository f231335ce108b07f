//! Checks everything the library wrote to its connections against the protocol, from the recorded bytes alone.

use crate::content::*;
use crate::env::*;
use crate::oracle::*;
use crate::wire::*;
use simcore::with;
use std::collections::{BTreeMap, BTreeSet, HashMap};

struct View {
    conn: usize,
    taps: [Vec<u8>; 2],
    harness: [bool; 2],
    node: [usize; 2],
    inc: [u32; 2],
    peer: std::net::SocketAddr,
    /// nothing disturbed the connection up to now
    intact: bool,
    /// everything written was also read
    drained: [bool; 2],
}

fn views() -> Vec<View> {
    with(|w| {
        w.conns
            .iter()
            .map(|c| View {
                conn: c.id,
                taps: [c.dirs[0].tap.clone(), c.dirs[1].tap.clone()],
                harness: [c.ends[0].harness, c.ends[1].harness],
                node: [c.ends[0].node, c.ends[1].node],
                inc: [c.ends[0].inc, c.ends[1].inc],
                peer: c.ends[0].peer,
                intact: c.ends.iter().all(|e| e.err.is_none() && !e.closed && !e.gone && !e.dead && e.broken_at.is_none()),
                drained: [c.dirs[0].read == c.dirs[0].sent, c.dirs[1].read == c.dirs[1].sent],
            })
            .collect()
    })
}

/// How much of a direction the application at its end had read at a time.
pub fn read_by(c: usize, d: usize, t: simcore::Ns) -> u64 {
    with(|w| {
        let r = &w.conns[c].dirs[d].rd_times;
        let i = r.partition_point(|(_, at)| *at <= t);
        if i == 0 {
            0
        } else {
            r[i - 1].0
        }
    })
}

/// When the application had read that many bytes of a direction.
pub fn read_at(c: usize, d: usize, len: u64) -> Option<simcore::Ns> {
    with(|w| w.conns[c].dirs[d].rd_times.iter().find(|(l, _)| *l >= len).map(|x| x.1))
}

/// A message found in a stream.
pub struct Found {
    pub id: u32,
    pub first: Call,
    pub args: Vec<Vec<u8>>,
    pub at: usize,
    pub end: usize,
    pub frames: usize,
    pub complete: bool,
}

/// Puts the messages of a stream together, strictly.
pub fn messages(b: &[u8], ty: u8, cont: u8) -> Result<Vec<Found>, String> {
    let mut out: Vec<Found> = vec![];
    let mut open: BTreeMap<u32, (usize, Assembly)> = BTreeMap::new();
    for f in frames(b).0 {
        if f.ty == ty {
            let c = parse_call(ty, &f.payload).map_err(|e| format!("{} frame at byte {}: {}", type_name(ty), f.at, e))?;
            if open.contains_key(&f.id) {
                return Err(format!("{} frame at byte {}: id {} has an unfinished message", type_name(ty), f.at, f.id));
            }
            if c.args.is_empty() {
                return Err(format!("{} frame at byte {} has no arguments", type_name(ty), f.at));
            }
            let mut a = Assembly::default();
            a.add(&c.args);
            let more = c.more();
            out.push(Found { id: f.id, args: a.args.clone(), first: c, at: f.at, end: f.end, frames: 1, complete: !more });
            if more {
                open.insert(f.id, (out.len() - 1, a));
            }
        } else if f.ty == cont {
            let c = parse_call(cont, &f.payload).map_err(|e| format!("{} frame at byte {}: {}", type_name(cont), f.at, e))?;
            let (i, mut a) = match open.remove(&f.id) {
                Some(x) => x,
                None => return Err(format!("{} frame at byte {}: id {} has no unfinished message", type_name(cont), f.at, f.id)),
            };
            if c.args.is_empty() {
                return Err(format!("{} frame at byte {} has no arguments", type_name(cont), f.at));
            }
            a.add(&c.args);
            if a.args.len() > 3 {
                return Err(format!("{} frame at byte {}: the message has {} arguments", type_name(cont), f.at, a.args.len()));
            }
            out[i].args = a.args.clone();
            out[i].end = f.end;
            out[i].frames += 1;
            if c.more() {
                open.insert(f.id, (i, a));
            } else {
                out[i].complete = true;
            }
        }
    }
    Ok(out)
}

fn reserved(b: &[u8], f: &Frame) -> bool {
    b[f.at + 3] == 0 && b[f.at + 8..f.at + 16].iter().all(|x| *x == 0)
}

/// `settled`: nothing is in progress any more, so intact connections must be complete.
pub fn check(env: &Env, settled: bool) {
    let mut h = env.h();
    for v in views() {
        for d in 0..2 {
            if v.harness[d] {
                continue;
            }
            let who = format!("connection {}, written by node {} ({})", v.conn, v.node[d], if d == 0 { "client" } else { "server" });
            let (fs, upto, bad) = frames(&v.taps[d]);
            if let Some(e) = bad {
                h.viol("wire-invalid", format!("{}: {}", who, e));
                continue;
            }
            if settled && v.intact && upto < v.taps[d].len() && v.drained[d] {
                h.viol("wire-incomplete", format!("{}: an incomplete frame at byte {} is never finished", who, upto));
            }
            for f in &fs {
                if !reserved(&v.taps[d], f) {
                    h.viol("wire-invalid", format!("{}: reserved header bytes of the frame at byte {} are not zero", who, f.at));
                    break;
                }
            }
            let r = if d == 0 { client(&mut h, &v, &fs, settled) } else { server(&mut h, &v, &fs, settled) };
            if let Err((class, e)) = r {
                h.viol(class, format!("{}: {}", who, e));
            }
        }
    }
}

type Res = Result<(), (&'static str, String)>;

fn invalid<T>(e: String) -> Result<T, (&'static str, String)> {
    Err(("wire-invalid", e))
}

fn client(h: &mut Hist, v: &View, fs: &[Frame], settled: bool) -> Res {
    let mut used: BTreeSet<u32> = BTreeSet::new();
    let mut called: BTreeSet<u32> = BTreeSet::new();
    let mut cancelled: BTreeSet<u32> = BTreeSet::new();
    let mut pinged: BTreeMap<u32, i64> = BTreeMap::new();
    for f in frames(&v.taps[1]).0 {
        if f.ty == PING_REQ {
            *pinged.entry(f.id).or_insert(0) += 1;
        }
    }
    for (i, f) in fs.iter().enumerate() {
        if (i == 0) != (f.ty == INIT_REQ) {
            return invalid(format!("frame {} at byte {} is {}", i, f.at, type_name(f.ty)));
        }
        match f.ty {
            INIT_REQ => {
                let p = parse_init(&f.payload).or_else(|e| invalid(format!("init request: {}", e)))?;
                if p.version != 2 {
                    return invalid(format!("init request of version {}", p.version));
                }
            }
            CALL_REQ | CALL_REQ_C => {
                if cancelled.contains(&f.id) {
                    return invalid(format!("{} frame at byte {}: id {} was cancelled", type_name(f.ty), f.at, f.id));
                }
                called.insert(f.id);
            }
            CANCEL => {
                parse_cancel(&f.payload).or_else(|e| invalid(format!("cancel frame at byte {}: {}", f.at, e)))?;
                if !called.contains(&f.id) || !cancelled.insert(f.id) {
                    return invalid(format!("cancel frame at byte {} with id {}, under which no call is in progress", f.at, f.id));
                }
            }
            PING_REQ => {
                if !f.payload.is_empty() {
                    return invalid(format!("ping request with a payload of {} bytes", f.payload.len()));
                }
            }
            PING_RES => {
                if !f.payload.is_empty() {
                    return invalid(format!("ping response with a payload of {} bytes", f.payload.len()));
                }
                let n = pinged.entry(f.id).or_insert(0);
                *n -= 1;
                if *n < 0 {
                    return Err(("wire-answer", format!("ping response (id {}) nobody asked for", f.id)));
                }
            }
            t => return invalid(format!("a client wrote a frame of type {}", type_name(t))),
        }
        if matches!(f.ty, INIT_REQ | CALL_REQ | PING_REQ) && !used.insert(f.id) {
            return Err(("wire-id-reused", format!("id {} of the {} at byte {} was used before", f.id, type_name(f.ty), f.at)));
        }
    }
    let ms = messages(&v.taps[0], CALL_REQ, CALL_REQ_C).or_else(invalid)?;
    let mine: Vec<(usize, String, [Vec<u8>; 3], &'static str, bool, bool)> = h
        .calls
        .iter()
        .enumerate()
        .filter(|(_, c)| c.spec.client == v.node[0] && c.spec.addr == v.peer && c.start.is_some() && c.inc == v.inc[0])
        .map(|(i, c)| (i, c.spec.service.clone(), c.spec.req.args(), c.spec.req.scheme(), c.abandoned, c.outcome.is_some()))
        .collect();
    let some_abandoned = mine.iter().any(|c| c.4);
    let mut times: BTreeMap<usize, u32> = BTreeMap::new();
    let mut by_content: HashMap<(&str, &[Vec<u8>], &str), Vec<usize>> = HashMap::new();
    for x in &mine {
        by_content.entry((&x.1, &x.2[..], x.3)).or_default().push(x.0);
    }
    for m in ms {
        let c = &m.first;
        if c.headers.iter().filter(|(k, _)| k == "as" || k == "cn").count() != 2 {
            return invalid(format!("call request (id {}) without its required headers: {:?}", m.id, c.headers));
        }
        if !m.complete {
            if settled && v.intact && v.drained[0] && !some_abandoned && !cancelled.contains(&m.id) {
                return Err(("wire-incomplete", format!("the call request with id {} is never finished", m.id)));
            }
            continue;
        }
        if m.args.len() != 3 {
            return invalid(format!("call request (id {}) with {} arguments", m.id, m.args.len()));
        }
        if h.lax {
            continue;
        }
        let hits = by_content.get(&(&c.service[..], &m.args[..], c.scheme().unwrap_or(""))).cloned().unwrap_or_default();
        if hits.is_empty() {
            return Err((
                "wire-content",
                format!(
                    "call request (id {}, {} frames) for service {:?} carries arguments of {:?} bytes that no call gave",
                    m.id,
                    m.frames,
                    brief_service(&c.service),
                    m.args.iter().map(|a| a.len()).collect::<Vec<_>>()
                ),
            ));
        }
        let n = times.entry(hits[0]).or_insert(0);
        *n += 1;
        if *n as usize > hits.len() {
            return Err(("wire-sent-twice", format!("the request of call {} was sent {} times (last id {})", hits[0], n, m.id)));
        }
    }
    Ok(())
}

/// Whether this library would accept these fields; None where the protocol leaves it open.
fn servable(c: &Call) -> Option<bool> {
    if c.csum_type != 0 {
        return None;
    }
    Some(true)
}

fn server(h: &mut Hist, v: &View, fs: &[Frame], settled: bool) -> Res {
    let asked = frames(&v.taps[0]).0;
    let init = asked.first().filter(|f| f.ty == INIT_REQ).map(|f| f.id);
    let mut calls: BTreeMap<u32, i64> = BTreeMap::new();
    let mut pings: BTreeMap<u32, i64> = BTreeMap::new();
    for f in &asked {
        match f.ty {
            CALL_REQ => *calls.entry(f.id).or_insert(0) += 1,
            PING_REQ => *pings.entry(f.id).or_insert(0) += 1,
            _ => {}
        }
    }
    let strict = messages(&v.taps[0], CALL_REQ, CALL_REQ_C);
    let mut answers: BTreeMap<u32, i64> = BTreeMap::new();
    for (i, f) in fs.iter().enumerate() {
        if (i == 0) != (f.ty == INIT_RES) {
            return invalid(format!("frame {} at byte {} is {}", i, f.at, type_name(f.ty)));
        }
        match f.ty {
            INIT_RES => {
                let p = parse_init(&f.payload).or_else(|e| invalid(format!("init response: {}", e)))?;
                if p.version != 2 {
                    return invalid(format!("init response of version {}", p.version));
                }
                if Some(f.id) != init {
                    return Err(("wire-answer", format!("init response with id {}, the request had {:?}", f.id, init)));
                }
            }
            PING_RES => {
                if !f.payload.is_empty() {
                    return invalid(format!("ping response with a payload of {} bytes", f.payload.len()));
                }
                let n = pings.entry(f.id).or_insert(0);
                *n -= 1;
                if *n < 0 {
                    return Err(("wire-answer", format!("ping response (id {}) nobody asked for", f.id)));
                }
            }
            CALL_RES | ERROR => {
                if f.ty == ERROR {
                    parse_error(&f.payload).or_else(|e| invalid(format!("error frame at byte {}: {}", f.at, e)))?;
                }
                let n = answers.entry(f.id).or_insert(0);
                *n += 1;
                if *n > *calls.get(&f.id).unwrap_or(&0) {
                    return Err((
                        "wire-answer",
                        format!("{} at byte {}: answer {} to {} requests with id {}", type_name(f.ty), f.at, n, calls.get(&f.id).unwrap_or(&0), f.id),
                    ));
                }
            }
            CALL_RES_C => {}
            t => return invalid(format!("a server wrote a frame of type {}", type_name(t))),
        }
    }
    let ms = messages(&v.taps[1], CALL_RES, CALL_RES_C).or_else(invalid)?;
    let reqs = match strict {
        Ok(r) => r,
        // the peer did not follow the protocol, answers cannot be matched
        Err(_) => return Ok(()),
    };
    let unique = reqs.iter().map(|r| r.id).collect::<BTreeSet<_>>().len() == reqs.len();
    if !unique {
        return Ok(());
    }
    let by_id: HashMap<u32, &Found> = reqs.iter().map(|r| (r.id, r)).collect();
    let find = |id: u32| by_id.get(&id).copied();
    for m in &ms {
        let r = match find(m.id) {
            Some(r) => r,
            None => return Err(("wire-answer", format!("call response with unknown id {}", m.id))),
        };
        let at = written_at(v.conn, 1, m.at as u64 + 1);
        if !r.complete || read_by(v.conn, 0, at) < r.end as u64 {
            return Err(("wire-answer", format!("call response (id {}) to a request that has not arrived completely", m.id)));
        }
        if m.first.scheme().is_none() {
            return invalid(format!("call response (id {}) without an arg scheme", m.id));
        }
        if !m.complete {
            if settled && v.intact && v.drained[1] {
                return Err(("wire-incomplete", format!("the call response with id {} is never finished", m.id)));
            }
            continue;
        }
        if m.args.len() != 3 {
            return invalid(format!("call response (id {}) with {} arguments", m.id, m.args.len()));
        }
        let scheme = r.first.scheme().unwrap_or("").to_string();
        if let Some(c) = Content::of_args(&scheme, &r.args) {
            if let Some(p) = h.planned(v.node[1], &r.first.service, &c) {
                let code = match p.out {
                    Out::Ok => 0,
                    Out::MsgErr => 1,
                    _ => 9,
                };
                let g = h.groups.get(&(v.node[1], r.first.service.clone(), c.clone())).map(|g| h.calls[g.calls[0]].spec.expect);
                if g == Some(Expect::Served) {
                    if code != m.first.code {
                        return Err(("wire-content", format!("call response (id {}) with code {}, the handler returned {}", m.id, m.first.code, out_brief(&p.out))));
                    }
                    if p.reply.args()[..] != m.args[..] || m.first.scheme() != Some(p.reply.scheme()) {
                        return Err(("wire-content", format!("call response (id {}, {} frames) is not what the handler returned", m.id, m.frames)));
                    }
                }
            }
        }
    }
    if settled && v.intact && v.drained[1] && v.drained[0] {
        for r in reqs.iter().filter(|r| r.complete && servable(&r.first) == Some(true)) {
            if answers.get(&r.id).copied().unwrap_or(0) == 0 {
                return Err(("wire-unanswered", format!("the request with id {} ({} frames, service {:?}) is never answered", r.id, r.frames, brief_service(&r.first.service))));
            }
        }
        if let Some((id, n)) = unanswered(v, 1) {
            return Err(("wire-unanswered", format!("{} pings with id {} are never answered", n, id)));
        }
    }
    Ok(())
}

/// Pings that were read on an undisturbed connection and got no answer although everything came to rest.
pub fn pings(env: &Env) {
    for v in views() {
        for d in 0..2 {
            if v.harness[d] || !v.intact || !v.drained[0] || !v.drained[1] {
                continue;
            }
            if let Some((id, n)) = unanswered(&v, d) {
                env.viol("ping-unanswered", format!("connection {}: {} pings with id {} are never answered by the {}", v.conn, n, id, if d == 0 { "client" } else { "server" }));
            }
        }
    }
}

fn unanswered(v: &View, d: usize) -> Option<(u32, i64)> {
    let mut open: BTreeMap<u32, i64> = BTreeMap::new();
    for f in frames(&v.taps[1 - d]).0 {
        if f.ty == PING_REQ {
            *open.entry(f.id).or_insert(0) += 1;
        }
    }
    for f in frames(&v.taps[d]).0 {
        if f.ty == PING_RES {
            *open.entry(f.id).or_insert(0) -= 1;
        }
    }
    open.into_iter().find(|(_, n)| *n > 0)
}

/// No call on a connection before a valid answer to its init request was read.
pub fn handshakes(env: &Env) {
    for v in views() {
        if v.harness[0] {
            continue;
        }
        let fs = frames(&v.taps[0]).0;
        let init = fs.iter().find(|f| f.ty == INIT_REQ).map(|f| f.id);
        let call = match fs.iter().find(|f| !matches!(f.ty, INIT_REQ | PING_REQ | PING_RES)) {
            Some(f) => f,
            None => continue,
        };
        let t = written_at(v.conn, 0, call.at as u64 + 1);
        let got = read_by(v.conn, 1, t);
        let good = frames(&v.taps[1]).0.iter().any(|f| {
            f.ty == INIT_RES && Some(f.id) == init && f.end as u64 <= got && parse_init(&f.payload).map(|i| i.version == 2).unwrap_or(false)
        });
        if !good {
            env.viol(
                "call-without-handshake",
                format!("connection {}: a {} frame is written before a valid init response was read", v.conn, type_name(call.ty)),
            );
        }
    }
}

/// What an init request that is valid got for an answer, on connections the harness opened.
pub fn init_answers(env: &Env) {
    for v in views() {
        if v.harness[1] {
            continue;
        }
        let asked = frames(&v.taps[0]).0;
        let n = frames(&v.taps[1]).0.iter().filter(|f| f.ty == INIT_RES).count();
        let good = match asked.first() {
            Some(f) => f.ty == INIT_REQ && parse_init(&f.payload).map(|i| i.version == 2).unwrap_or(false),
            None => false,
        };
        if n > 1 {
            env.viol("init-answered-twice", format!("connection {}: {} init responses", v.conn, n));
        }
        if good && n == 0 && v.intact && v.drained[0] {
            env.viol("init-unanswered", format!("connection {}: a valid init request gets no init response", v.conn));
        }
    }
}
