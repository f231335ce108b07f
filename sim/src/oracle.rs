//! Checks over the recorded history of a run.

use crate::content::*;
use crate::env::*;
use crate::wire;
use simcore::{now, with, Ns, SEC};
use std::collections::BTreeMap;

pub fn ms(t: Ns) -> f64 {
    t as f64 / 1e6
}

/// Nothing failed in this run: every call must have ended as its handler decided.
pub fn all_served(env: &Env, late: bool) {
    let mut h = env.h();
    let n = h.calls.len();
    for id in 0..n {
        let c = h.calls[id].clone();
        if c.start.is_none() {
            if !late && !c.excused {
                h.viol("harness", format!("call {} was never started", id));
            }
            continue;
        }
        if c.abandoned || c.excused {
            continue;
        }
        let what = format!("call {} ({:?} to {} of node {})", id, c.spec.req, brief_service(&c.spec.service), c.spec.server);
        let got = match &c.outcome {
            None => {
                h.viol("call-hangs", format!("{} started at {:.3} ms and never ended", what, ms(c.start.unwrap())));
                continue;
            }
            Some(o) => o.clone(),
        };
        if c.may_fail && matches!(got, Outcome::General(_) | Outcome::Internal(..)) {
            continue;
        }
        judge(&mut h, id, &what, &got);
    }
    // conservation: one invocation per call
    for (k, g) in h.groups.clone() {
        let c0 = &h.calls[g.calls[0]].spec;
        if c0.expect != Expect::Served || c0.resp.out == Out::Panic {
            continue;
        }
        if g.calls.iter().any(|i| h.calls[*i].may_fail || h.calls[*i].excused) {
            continue;
        }
        let done = g.calls.iter().filter(|i| h.calls[**i].outcome.is_some()).count() as u32;
        let begun = g.begun;
        if g.invs < done || g.invs > begun {
            let m = format!("{} of {} calls of {:?} to node {} ended but its handler ran {} times", done, begun, k.2, k.0, g.invs);
            h.viol("invocation-count", m);
        }
    }
}

pub fn brief_service(s: &str) -> String {
    s.chars().take(24).collect()
}

/// The outcome of a call that nothing disturbed.
pub fn judge(h: &mut Hist, id: usize, what: &str, got: &Outcome) {
    let s = h.calls[id].spec.clone();
    if *got == Outcome::Panicked {
        h.viol("call-panicked", format!("{}: send() panicked", what));
        return;
    }
    if s.expect != Expect::Served || s.resp.out == Out::Panic {
        // an error of any kind, but no reply
        match got {
            Outcome::Ok(c) => h.viol("unserved-call-succeeds", format!("{} cannot be served ({:?}) but got Ok {:?}", what, s.expect, c)),
            Outcome::MsgErr(c) => {
                h.viol("unserved-call-gets-message", format!("{} cannot be served ({:?}) but got a message error {:?}", what, s.expect, c))
            }
            _ => {}
        }
        return;
    }
    match (&s.resp.out, got) {
        (Out::Ok, Outcome::Ok(c)) | (Out::MsgErr, Outcome::MsgErr(c)) => {
            if *c != s.resp.reply {
                let m = diff(&s.resp.reply, c);
                h.viol("wrong-reply", format!("{}: expected reply {:?}, got {:?}: {}", what, s.resp.reply, c, m));
            }
        }
        (Out::Ok, o) => h.viol("call-failed", format!("{}: handler succeeded, caller got {}", what, o.brief())),
        (Out::MsgErr, o) => {
            h.viol("message-error-lost", format!("{}: handler returned a message error, caller got {}", what, o.brief()))
        }
        (_, Outcome::Ok(c)) => h.viol("error-became-success", format!("{}: handler returned {}, caller got Ok {:?}", what, out_brief(&s.resp.out), c)),
        (_, Outcome::MsgErr(c)) => {
            h.viol("error-became-message", format!("{}: handler returned {}, caller got MessageError {:?}", what, out_brief(&s.resp.out), c))
        }
        _ => {}
    }
}

pub fn out_brief(o: &Out) -> String {
    format!("{:?}", o).chars().take(60).collect()
}

fn diff(a: &Content, b: &Content) -> String {
    for (n, x, y) in [("endpoint", a.ep.as_bytes(), b.ep.as_bytes()), ("header", &a.hdr[..], &b.hdr[..]), ("body", &a.body[..], &b.body[..])] {
        if x != y {
            let p = x.iter().zip(y.iter()).position(|(p, q)| p != q).unwrap_or(x.len().min(y.len()));
            return format!("{} differs at byte {}", n, p);
        }
    }
    "formats differ".into()
}

/// Whatever failed: a success or message error must carry exactly the reply the handler gave for that call.
pub fn no_lies(env: &Env) {
    let mut h = env.h();
    for id in 0..h.calls.len() {
        let c = h.calls[id].clone();
        let what = format!("call {} ({:?} to node {})", id, c.spec.req, c.spec.server);
        match &c.outcome {
            Some(Outcome::Ok(_)) | Some(Outcome::MsgErr(_)) | Some(Outcome::Panicked) => {
                let o = c.outcome.clone().unwrap();
                judge(&mut h, id, &what, &o);
            }
            _ => {}
        }
    }
}

/// Calls that have not ended although nothing can end them any more.
pub fn no_hangs(env: &Env, why: &str) {
    let mut h = env.h();
    for id in 0..h.calls.len() {
        let c = h.calls[id].clone();
        if c.start.is_none() || c.abandoned || c.excused || c.outcome.is_some() {
            continue;
        }
        let alive = with(|w| w.nodes[c.spec.client].inc == c.inc);
        if alive {
            h.viol(
                "call-hangs",
                format!("call {} ({:?} to node {}) started at {:.3} ms and never ended {}", id, c.spec.req, c.spec.server, ms(c.start.unwrap()), why),
            );
        }
    }
}

/// Largest number of handler invocations of a node that ran at the same time.
pub fn max_parallel(h: &Hist, node: usize) -> usize {
    let mut ev: BTreeMap<u64, i64> = BTreeMap::new();
    for i in h.invs.iter().filter(|i| i.node == node) {
        *ev.entry(i.seq_enter).or_insert(0) += 1;
        if i.exit.is_some() {
            *ev.entry(i.seq_exit).or_insert(0) -= 1;
        }
    }
    let (mut cur, mut max) = (0i64, 0i64);
    for d in ev.values() {
        cur += d;
        max = max.max(cur);
    }
    max as usize
}

/// The beginning of a call request found in the bytes a client wrote to a connection.
#[derive(Clone, Debug)]
pub struct SentCall {
    pub conn: usize,
    pub id: u32,
    pub at: Ns,
    pub service: String,
    pub args: Vec<Vec<u8>>,
}

/// The time at which a direction's sender had written a number of bytes.
pub fn written_at(c: usize, d: usize, len: u64) -> Ns {
    with(|w| {
        let t = &w.conns[c].dirs[d].tap_times;
        let i = t.partition_point(|(l, _)| *l < len);
        t.get(i).map(|x| x.1).unwrap_or(w.now)
    })
}

/// All requests that the process of a node began to send.
pub fn sent_calls(node: usize) -> Vec<SentCall> {
    let taps: Vec<(usize, Vec<u8>)> = with(|w| {
        w.conns.iter().filter(|c| c.ends[0].node == node && !c.ends[0].harness).map(|c| (c.id, c.dirs[0].tap.clone())).collect()
    });
    let mut out = vec![];
    for (conn, tap) in taps {
        for f in wire::frames(&tap).0 {
            if f.ty == wire::CALL_REQ {
                if let Ok(c) = wire::parse_call(f.ty, &f.payload) {
                    out.push(SentCall { conn, id: f.id, at: written_at(conn, 0, f.end as u64), service: c.service, args: c.args });
                }
            }
        }
    }
    out
}

/// The request that belongs to a call (contents must be unique).
pub fn find_sent<'a>(sent: &'a [SentCall], c: &CallRec) -> Option<&'a SentCall> {
    let a = c.spec.req.args();
    sent.iter().find(|s| {
        let to = with(|w| w.conns[s.conn].ends[0].peer);
        to == c.spec.addr
            && s.service == c.spec.service
            && s.args.first() == Some(&a[0])
            && s.args.get(1).map(|h| !h.is_empty() && a[1].starts_with(h)).unwrap_or(false)
            && with(|w| w.conns[s.conn].ends[0].inc) == c.inc
    })
}

/// The client's host has no reason to know that the other end of this connection is gone.
fn silently_dead(conn: usize) -> bool {
    with(|w| {
        let c = &w.conns[conn];
        c.ends[0].broken_at.is_none() && (c.ends[1].dead || c.ends[1].gone || c.ends[1].closed || c.ends[1].broken_at.is_some())
    })
}

/// Hangs and late ends after everything that could disturb a call is over. `since` is when that was.
pub fn fate_of_calls(env: &Env, limit: Ns) {
    let mut h = env.h();
    let mut sent = std::collections::BTreeMap::new();
    for id in 0..h.calls.len() {
        let c = h.calls[id].clone();
        if c.start.is_none() || c.abandoned || c.excused || with(|w| w.nodes[c.spec.client].inc != c.inc) {
            continue;
        }
        let s = sent.entry(c.spec.client).or_insert_with(|| sent_calls(c.spec.client));
        let on = find_sent(s, &c).cloned();
        let what = format!("call {} ({:?} to node {})", id, c.spec.req, c.spec.server);
        match on {
            Some(s) => {
                let broken = with(|w| w.conns[s.conn].ends[0].broken_at);
                match (broken, c.end) {
                    (Some(t), None) if now() > t + limit => h.viol(
                        "call-hangs",
                        format!("{} is sent on connection {}, which breaks at {:.3} ms; the call never ends", what, s.conn, ms(t)),
                    ),
                    (Some(t), Some(e)) if e > t.max(c.start.unwrap()) + limit => h.viol(
                        "call-ends-late",
                        format!("{} is sent on connection {}, which breaks at {:.3} ms; the call ends at {:.3} ms", what, s.conn, ms(t), ms(e)),
                    ),
                    (None, None) if !silently_dead(s.conn) => {
                        h.viol("call-hangs", format!("{} is sent on connection {}, which is intact; the call never ends", what, s.conn))
                    }
                    _ => {}
                }
            }
            None => {
                if c.end.is_none() {
                    let dead = with(|w| {
                        w.conns.iter().any(|x| {
                            x.ends[0].node == c.spec.client && x.ends[0].peer == c.spec.addr && x.ends[0].inc == c.inc && !x.ends[0].harness
                        })
                    }) && with(|w| w.conns.len()) > 0
                        && (0..with(|w| w.conns.len())).any(|x| {
                            with(|w| w.conns[x].ends[0].node == c.spec.client && w.conns[x].ends[0].peer == c.spec.addr) && silently_dead(x)
                        });
                    if !dead {
                        h.viol("call-hangs", format!("{} started at {:.3} ms, is not sent and never ends", what, ms(c.start.unwrap())));
                    }
                }
            }
        }
    }
}

/// Calls from a client to a server until they succeed again: every attempt must end, few may fail.
pub async fn recovers(env: &Env, client: usize, server: usize, tag: u64, attempts_fail: u32) -> bool {
    let spec = env.h().nodes[server].spec.clone().unwrap();
    let reg = match spec.regs.first() {
        Some(r) => r.clone(),
        None => return true,
    };
    let a = crate::gen::addr(env, server);
    let start = now();
    let mut failed = 0;
    let mut ok = 0;
    let mut n = 0;
    while ok < 3 {
        let key = 0x9_0000_0000 + tag * 1000 + n;
        n += 1;
        let req = make(reg.fmt, &reg.ep, key, 30, 40);
        let reply = make(reg.fmt, "r", key ^ 0x5555, 30, 40);
        let id = env.h().add_call(CallSpec {
            client,
            server,
            addr: a,
            service: reg.service.clone(),
            req,
            resp: Resp { delay: 0, out: Out::Ok, reply, fwd: None },
            expect: Expect::Served,
            cancel: None,
        });
        if env.chan(client).is_none() {
            env.viol("harness", format!("client {} has no channel", client));
            return false;
        }
        let r = crate::raw::by(now() + 190 * SEC, env.call_there(id)).await;
        env.h().calls[id].excused = true;
        match r {
            None => {
                env.viol("no-recovery", format!("faults are over; call {} from node {} to node {} does not end in 190 s", id, client, server));
                return false;
            }
            Some(Some(Outcome::Ok(_))) => ok += 1,
            Some(o) => {
                ok = 0;
                failed += 1;
                env.probe("probe-failed");
                if failed > attempts_fail {
                    env.viol(
                        "no-recovery",
                        format!(
                            "faults ended {:.1} s ago; {} calls from node {} to node {} have failed since, the last with {}",
                            (now() - start) as f64 / 1e9,
                            failed,
                            client,
                            server,
                            o.map(|o| o.brief()).unwrap_or_default()
                        ),
                    );
                    return false;
                }
            }
        }
    }
    if now() - start > 320 * SEC {
        env.viol("slow-recovery", format!("calls from node {} to node {} succeed only {:.1} s after all faults ended", client, server, (now() - start) as f64 / 1e9));
    }
    true
}
