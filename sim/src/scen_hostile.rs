//! Scenarios in which the other side breaks the protocol.

use crate::content::*;
use crate::env::*;
use crate::fault::*;
use crate::gen::*;
use crate::hostile::*;
use crate::oracle::*;
use crate::peer::*;
use crate::raw::*;
use crate::run::*;
use crate::scen::*;
use crate::scen_fault::{fprof, stormy};
use crate::scen_peer::*;
use crate::tap;
use crate::wire::*;
use simcore::{now, sleep_ns, with, Choices, NetCfg, Ns, MS, SEC};

/// Sends bytes in pieces, possibly with pauses.
pub async fn send_pieces(c: &mut Raw, b: &[u8], r: &mut Rng, until: Ns) -> bool {
    let mode = r.below(4);
    let mut p = 0;
    let mut budget = 30;
    while p < b.len() {
        let left = b.len() - p;
        let n = if budget == 0 {
            left
        } else {
            match mode {
                0 | 1 => left,
                2 => 1 + r.below(left.min(20) as u32) as usize,
                _ => 1 + r.below(left as u32) as usize,
            }
        };
        budget -= (budget > 0) as u32;
        if !send_reading(c, &b[p..p + n], until).await {
            return false;
        }
        p += n;
        if p < b.len() && r.below(3) == 0 {
            sleep_ns([MS / 10, 3 * MS, 100 * MS][r.below(3) as usize]).await;
        }
    }
    true
}

/// How a client that breaks the rules opens its connection.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Opening {
    Nothing,
    Version(u16),
    WrongType(u8),
    Truncated,
    TooFewHeaders,
    Error,
    ShortFrame,
    UnknownType,
    Empty,
    /// valid, but the calls do not wait for the answer
    Eager,
    /// valid, then the connection just stays open
    Idle,
    /// half a valid request
    Half,
    Second,
}

pub fn opening(g: &mut Choices) -> Opening {
    match g.below(14) {
        0 => Opening::Nothing,
        1 | 2 => Opening::Version(pick(g, &[3u16, 1, 0, 65535, 0x0200, 258])),
        3 | 4 => Opening::WrongType(pick(g, &[INIT_RES, CALL_RES, PING_REQ, PING_RES, CANCEL, CLAIM, CALL_REQ_C, CALL_REQ, CALL_RES_C])),
        5 => Opening::Truncated,
        6 => Opening::TooFewHeaders,
        7 => Opening::Error,
        8 => Opening::ShortFrame,
        9 => Opening::UnknownType,
        10 => Opening::Empty,
        11 => Opening::Eager,
        12 => Opening::Idle,
        _ => Opening::Half,
    }
}

impl Opening {
    pub fn valid(&self) -> bool {
        matches!(self, Opening::Eager | Opening::Idle)
    }
    pub fn bytes(&self, r: &mut Rng, id: u32) -> Vec<u8> {
        let hs = init_headers(r);
        let full = init_payload(2, &hs);
        match self {
            Opening::Nothing => vec![],
            Opening::Version(v) => frame(INIT_REQ, id, &init_payload(*v, &hs)),
            Opening::WrongType(t) => frame(*t, id, if r.below(3) == 0 { &[] } else { &full }),
            Opening::Truncated => {
                let full = init_payload(2, &vec![("key".into(), "value".into())]);
                let n = r.below(full.len() as u32) as usize;
                frame(INIT_REQ, id, &full[..n])
            }
            Opening::TooFewHeaders => {
                let mut p = init_payload(2, &vec![("key".into(), "value".into())]);
                p[3] = 2 + r.below(50) as u8;
                frame(INIT_REQ, id, &p)
            }
            Opening::Error => frame(ERROR, id, &error_payload(1, "first")),
            Opening::ShortFrame => {
                let mut b = frame(INIT_REQ, id, &full);
                b[0] = 0;
                b[1] = r.below(16) as u8;
                b
            }
            Opening::UnknownType => {
                let mut b = frame(INIT_REQ, id, &full);
                b[2] = [0u8, 5, 0x12, 0x15, 0xc2, 0xd2, 0xfe][r.below(7) as usize];
                b
            }
            Opening::Empty => frame(INIT_REQ, id, &[]),
            Opening::Eager | Opening::Idle | Opening::Second => frame(INIT_REQ, id, &full),
            Opening::Half => {
                let b = frame(INIT_REQ, id, &full);
                let n = 1 + r.below(b.len() as u32 - 1) as usize;
                b[..n].to_vec()
            }
        }
    }
}

#[derive(Clone, Debug)]
struct BadConn {
    node: usize,
    server: usize,
    start: Ns,
    open: Opening,
    wait: bool,
    calls: Vec<usize>,
    end: u32,
    seed: u64,
}

async fn bad_client(env: Env, b: BadConn) {
    let mut r = Rng::new(b.seed);
    sleep_ns(b.start).await;
    let until = now() + 20 * SEC;
    let mut c = match by(until, Raw::connect(addr(&env, b.server))).await {
        Some(Some(c)) => c,
        _ => return,
    };
    let id = r.next() as u32;
    with(|w| w.count("fault.bad_opening"));
    let mut out = b.open.bytes(&mut r, id);
    if b.wait {
        send_pieces(&mut c, &out, &mut r, until).await;
        c.frame(now() + 500 * MS).await;
        out.clear();
    }
    let st = style(&mut r);
    let mut mux = Mux { active: vec![], level: false };
    if b.open != Opening::Idle {
        for (k, call) in b.calls.iter().enumerate() {
            let spec = env.h().calls[*call].spec.clone();
            if b.open.valid() {
                env.h().begin(*call);
            }
            mux.active.push(encode(&mut r, &st, true, id.wrapping_add(k as u32 + 1), &spec.service, 0, spec.req.scheme(), &spec.req.args()));
        }
    }
    while let Some(f) = mux.next(&mut r) {
        out.extend(f);
    }
    send_pieces(&mut c, &out, &mut r, until).await;
    match b.end {
        0 => c.abort(),
        1 => {
            c.finish().await;
            while c.fill(now() + 3 * SEC).await {}
        }
        2 => {}
        _ => while c.fill(now() + 10 * SEC).await {},
    }
}

pub fn hello_kind(g: &mut Choices) -> Hello {
    match g.below(16) {
        0 | 1 => Hello::Version(pick(g, &[3u16, 1, 0, 65535, 0x0200, 258])),
        2 => Hello::Error,
        3 => Hello::WrongId,
        4 | 5 => Hello::WrongType(pick(g, &[CALL_RES, PING_RES, INIT_REQ, CALL_RES_C, CALL_REQ, CANCEL])),
        6 => Hello::Truncated,
        7 => Hello::Empty,
        8 => Hello::Garbage,
        9 => Hello::Silence,
        10 => Hello::Close,
        11 => Hello::Reset,
        12 => Hello::Partial,
        13 => Hello::Noise,
        _ => Hello::Good,
    }
}

/// A foreign server that answers the handshakes of its connections in the given ways, the last one for ever.
pub async fn odd_server(env: Env, node: usize, port: u16, hellos: Vec<(Hello, Ns)>, seed: u64) {
    let l = match tokio::net::TcpListener::bind(at(node, port)).await {
        Ok(l) => l,
        Err(e) => {
            env.viol("harness", format!("odd server: {}", e));
            return;
        }
    };
    let mut k = 0;
    loop {
        let s = match l.accept().await {
            Ok((s, _)) => s,
            Err(_) => return,
        };
        let (h, d) = hellos[k.min(hellos.len() - 1)];
        k += 1;
        if !h.good() {
            with(|w| w.count("fault.bad_handshake"));
        }
        spawn_h(node, serve_as(env.clone(), node, Raw::new(s), seed.wrapping_add(k as u64 * 77), Manner { hello: h, delay: d, ..Manner::default() }));
    }
}

pub async fn c10(ctx: Ctx) {
    let mode = ctx.g().below(8);
    match mode {
        0..=2 => c10_server(&ctx).await,
        3..=6 => c10_client(&ctx).await,
        _ => {
            let p = fprof(Prof { clients: (1, 2), jobs: (1, 2), calls: 3, max_calls: 10, gaps: vec![0, MS, 300 * MS, 3 * SEC], ..Prof::default() });
            let f = FaultProf { faults: (1, 4), plans: (1, 3), window: 10 * SEC, kill_clients: true, power: true, pause: true, impostor: true };
            stormy(&ctx, &p, &f, 60 * SEC).await;
            no_lies(&ctx.env);
        }
    }
    // whoever connected last
    sleep_ns(30 * SEC).await;
    tap::handshakes(&ctx.env);
    tap::init_answers(&ctx.env);
}

async fn c10_server(ctx: &Ctx) {
    let env = ctx.env.clone();
    let p = fprof(Prof { servers: (1, 1), clients: (1, 1), jobs: (1, 2), calls: 2, max_calls: 6, big: 2, eps: 3, ..Prof::default() });
    let (lib, s, mut w, nc, bad, legal) = {
        let mut g = ctx.g();
        let sc = sched(&mut g);
        let (s, c) = nodes(&mut g, &env, &p);
        let w = work(&mut g, &env, &p, &c, &s);
        let mut bad = vec![];
        let n = 1 + g.below(6);
        for _ in 0..n {
            g.begin();
            let node = foreign(&env, false, 0, vec![]);
            let open = opening(&mut g);
            let wait = g.chance(1, 2);
            let k = 1 + g.below(2);
            let calls: Vec<usize> = (0..k).map(|_| call(&mut g, &env, &p, node, &s)).collect();
            bad.push(BadConn {
                node,
                server: s[0],
                start: pick(&mut g, &p.gaps),
                open,
                wait,
                calls,
                end: g.below(4),
                seed: seed(&mut g),
            });
            g.end();
        }
        let node = foreign(&env, false, 0, vec![]);
        let k = 1 + g.below(3);
        let calls: Vec<usize> = (0..k).map(|_| call(&mut g, &env, &p, node, &s)).collect();
        let legal = (node, calls, seed(&mut g));
        let mut lib = s.clone();
        lib.extend(c);
        let mut w2 = w.clone();
        note_calls(ctx, &mut w2);
        let nc = net(&mut g, w2.bytes * 2 + 250_000);
        set_cfg(sc, nc.clone());
        (lib, s, w, nc, bad, legal)
    };
    describe(ctx);
    for b in &bad {
        ctx.describe(format!("{:?}", b));
        let mut h = env.h();
        for c in &b.calls {
            h.calls[*c].excused = true;
        }
    }
    ctx.nontrivial();
    if !boot_these(&env, &lib).await {
        return;
    }
    launch(&env, &w);
    note_calls(ctx, &mut w);
    w.bytes = w.bytes * 2 + w.calls * 2000;
    let bound = time_bound(&w, &nc) + 20 * SEC;
    let until = now() + bound;
    for b in bad {
        env.job(b.node, bad_client(env.clone(), b.clone()));
    }
    env.job(legal.0, legal_client(env.clone(), addr(&env, s[0]), legal.1, legal.2, until));
    let done = env.wait_jobs(until).await;
    all_served(&env, !done);
}

async fn c10_client(ctx: &Ctx) {
    let env = ctx.env.clone();
    let p = fprof(Prof {
        servers: (0, 0),
        clients: (1, 2),
        jobs: (1, 3),
        calls: 2,
        max_calls: 6,
        big: 2,
        test_p: 2,
        gaps: vec![0, 0, MS, 300 * MS, 3 * SEC],
        ..Prof::default()
    });
    let (lib, w, hellos, srv, sd) = {
        let mut g = ctx.g();
        let sc = sched(&mut g);
        let (_, c) = nodes(&mut g, &env, &p);
        let regs = vec![Reg { service: service_name(0), ep: ep_name(0), fmt: Fmt::Raw, asynch: true }];
        let srv = foreign(&env, true, 7100, regs);
        let w = work(&mut g, &env, &p, &c, &[srv]);
        let n = 1 + g.below(5);
        let hellos: Vec<(Hello, Ns)> =
            (0..n).map(|_| (hello_kind(&mut g), pick(&mut g, &[0, 0, MS, 400 * MS, 3 * SEC, 14 * SEC]))).collect();
        let nc = net(&mut g, w.bytes * 2);
        set_cfg(sc, nc);
        (c, w, hellos, srv, seed(&mut g))
    };
    describe(ctx);
    ctx.describe(format!("handshakes {:?}", hellos));
    ctx.nontrivial();
    let some_good = hellos.iter().any(|h| h.0.good());
    {
        let mut h = env.h();
        for c in h.calls.iter_mut() {
            c.may_fail = some_good;
            if !some_good {
                c.spec.expect = Expect::NoHost;
            }
        }
    }
    if !boot_these(&env, &lib).await {
        return;
    }
    simcore::spawn_as(srv, true);
    tokio::spawn(odd_server(env.clone(), srv, 7100, hellos, sd));
    sleep_ns(MS).await;
    launch(&env, &w);
    let until = now() + w.delays + w.calls as u64 * 60 * SEC + 60 * SEC;
    let done = env.wait_jobs(until).await;
    all_served(&env, !done);
    // the handshake takes at most 15 s, an attempt to get a connection 30 s
    let mut h = env.h();
    for id in 0..h.calls.len() {
        let c = h.calls[id].clone();
        if let (Some(s), Some(e)) = (c.start, c.end) {
            if e - s > 120 * SEC + h.cost(&c.spec).1 {
                h.viol("call-ends-late", format!("call {} takes {:.1} s", id, (e - s) as f64 / 1e9));
            }
        }
    }
}

#[derive(Clone, Debug)]
pub enum Op {
    Nasty(u64),
    Many(u64, u32),
    Stall(Ns),
    Read(Ns),
    Half,
}

#[derive(Clone, Debug)]
pub struct Attack {
    pub node: usize,
    server: usize,
    start: Ns,
    /// none: a valid handshake that waits for its answer
    open: Option<Opening>,
    ops: Vec<Op>,
    pieces: bool,
    end: u32,
    seed: u64,
}

/// What hostile clients of a server do.
pub fn attacks(g: &mut Choices, env: &Env, p: &Prof, server: usize) -> Vec<Attack> {
    let mut attacks = vec![];
    let n = 1 + g.below(5);
    for _ in 0..n {
        g.begin();
        let node = foreign(env, false, 0, vec![]);
        let open = if g.chance(1, 4) { Some(opening(g)) } else { None };
        let k = g.below(8);
        let ops = (0..k)
            .map(|_| {
                g.begin();
                let o = match g.below(10) {
                    0..=4 => Op::Nasty(seed(g)),
                    5 => Op::Many(seed(g), 2 + g.below(30)),
                    6 => Op::Stall(pick(g, &[MS, 50 * MS, 2 * SEC])),
                    7 => Op::Half,
                    _ => Op::Read(pick(g, &[MS, 50 * MS, 2 * SEC])),
                };
                g.end();
                o
            })
            .collect();
        attacks.push(Attack {
            node,
            server: server,
            start: pick(g, &p.gaps),
            open,
            ops,
            pieces: g.chance(1, 2),
            end: g.below(5),
            seed: seed(g),
        });
        g.end();
    }
    attacks
}

pub async fn attack(env: Env, a: Attack, t: Target) {
    let mut r = Rng::new(a.seed);
    sleep_ns(a.start).await;
    let until = now() + 90 * SEC;
    let mut c = match by(until, Raw::connect(addr(&env, a.server))).await {
        Some(Some(c)) => c,
        _ => return,
    };
    with(|w| w.count("fault.hostile_client"));
    let mut ids = vec![];
    match a.open {
        None => {
            let b = Opening::Idle.bytes(&mut r, 1);
            if !send_pieces(&mut c, &b, &mut r, until).await || c.frame(until).await.is_none() {
                return;
            }
        }
        Some(o) => {
            let b = o.bytes(&mut r, 1);
            send_pieces(&mut c, &b, &mut r, until).await;
        }
    }
    let mut b = vec![];
    for (i, op) in a.ops.iter().enumerate() {
        let key = a.seed.wrapping_mul(31).wrapping_add(i as u64 * 1000) | 1 << 60;
        match op {
            Op::Nasty(s) => b.extend(nasty(&mut Rng::new(*s), &t, &mut ids, key)),
            Op::Many(s, n) => {
                let mut r = Rng::new(*s);
                for k in 0..*n {
                    b.extend(nasty(&mut r, &t, &mut ids, key + 2 * k as u64));
                    if b.len() > 300_000 {
                        break;
                    }
                }
            }
            Op::Stall(d) => {
                flush(&mut c, &mut b, &mut r, a.pieces, until).await;
                sleep_ns(*d).await
            }
            Op::Read(d) => {
                flush(&mut c, &mut b, &mut r, a.pieces, until).await;
                let t = now() + d;
                while c.fill(t).await {}
            }
            Op::Half => {
                flush(&mut c, &mut b, &mut r, a.pieces, until).await;
                // the last frame stays incomplete
                let f = nasty(&mut r, &t, &mut ids, key);
                let n = r.below(f.len().max(1) as u32) as usize;
                b.extend(&f[..n]);
                break;
            }
        }
    }
    flush(&mut c, &mut b, &mut r, a.pieces, until).await;
    match a.end {
        0 => c.abort(),
        1 => {
            c.finish().await;
            while c.fill(now() + 30 * SEC).await {}
        }
        2 => {}
        // stays, and does not read
        3 => sleep_ns(60 * SEC).await,
        _ => while c.fill(now() + 60 * SEC).await {},
    }
}

/// Does not read in order to write: whoever writes to such a client has to wait.
async fn flush(c: &mut Raw, b: &mut Vec<u8>, r: &mut Rng, pieces: bool, until: Ns) {
    if b.is_empty() {
        return;
    }
    let x = std::mem::take(b);
    if pieces {
        send_pieces(c, &x, r, until.min(now() + 20 * SEC)).await;
    } else {
        c.send_by(&x, until.min(now() + 20 * SEC)).await;
    }
}

/// Handlers ran only for requests that some peer really sent.
pub fn only_real_requests(env: &Env) {
    let mut h = env.h();
    let mut found: Vec<(usize, Maybe, bool)> = vec![];
    with(|w| {
        for c in w.conns.iter().filter(|c| c.ends[0].harness && !c.ends[1].harness) {
            for m in maybe_messages(&c.dirs[0].tap, CALL_REQ, CALL_REQ_C) {
                found.push((c.ends[1].node, m, false));
            }
        }
    });
    for i in 0..h.invs.len() {
        let v = h.invs[i].clone();
        let x = match &v.content {
            Some(x) => x,
            None => continue,
        };
        match found.iter_mut().find(|(n, m, used)| !used && *n == v.node && m.first.service == v.service && same(x, &m.args)) {
            Some(f) => {
                f.2 = true;
                with(|w| w.count("peer.request_handled"));
            }
            None => h.viol(
                "handler-ran-for-garbage",
                format!("handler {}/{} ran with {:?}, which is not in any complete request a peer sent (any more)", v.service, v.ep, x),
            ),
        }
    }
}

/// Connects again and again and ends each connection in a way, or each in another one.
async fn comers(a: std::net::SocketAddr, n: u32, kind: u32, seed: u64, t: Target) {
    let mut r = Rng::new(seed);
    let mut ids = vec![];
    for i in 0..n {
        let until = now() + 3 * SEC;
        let mut c = match by(until, Raw::connect(a)).await {
            Some(Some(c)) => c,
            _ => continue,
        };
        with(|w| w.count("fault.short_connections"));
        let kind = if kind == 8 { r.below(8) } else { kind };
        if kind >= 4 && c.greet(1, until).await.is_none() {
            continue;
        }
        let req = t.regs.first().map(|reg| {
            let m = make(reg.fmt, &reg.ep, seed.wrapping_mul(77).wrapping_add(i as u64) | 1 << 61, 10, 50);
            let mut k = Call { ttl: 1000, tracing: vec![0; 25], service: reg.service.clone(), ..Call::default() };
            k.headers = vec![("as".into(), m.scheme().into()), ("cn".into(), "c".into())];
            k.args = m.args().to_vec();
            k
        });
        match kind {
            0 => {}
            1 => {
                c.send_by(&frame(INIT_REQ, 1, &init_payload(3, &vec![])), until).await;
                while c.fill(until).await {}
            }
            2 => {
                c.send_by(&[0, 40, 1, 0, 0, 0], until).await;
            }
            3 => {
                c.send_by(&[0, 3, 1, 0, 0, 0, 0, 0], until).await;
                while c.fill(until).await {}
            }
            4 => {}
            5 => {
                let f = nasty(&mut r, &t, &mut ids, seed ^ i as u64);
                c.send_by(&f, until).await;
            }
            _ => {
                if let Some(mut k) = req {
                    // whole, or in part
                    k.flags = (kind == 6) as u8;
                    c.send_by(&frame(CALL_REQ, 7, &call_payload(CALL_REQ, &k)), until).await;
                    if r.below(2) == 1 {
                        sleep_ns(2 * MS).await;
                    }
                }
            }
        }
        if r.below(2) == 1 {
            c.abort();
        }
    }
}

pub async fn c08(ctx: Ctx) {
    let env = ctx.env.clone();
    let p = fprof(Prof {
        servers: (1, 1),
        clients: (1, 2),
        jobs: (1, 3),
        calls: 3,
        max_calls: 12,
        max_frames: 2,
        big: 2,
        eps: 3,
        gaps: vec![0, 0, MS, 20 * MS, 300 * MS, 3 * SEC],
        ..Prof::default()
    });
    let (lib, s, c, mut w, nc, attacks, legal, idle, churn, target) = {
        let mut g = ctx.g();
        let sc = sched(&mut g);
        let (s, c) = nodes(&mut g, &env, &p);
        let regs = env.h().nodes[s[0]].spec.as_ref().unwrap().regs.clone();
        let w = work(&mut g, &env, &p, &c, &s);
        let attacks = attacks(&mut g, &env, &p, s[0]);
        let node = foreign(&env, false, 0, vec![]);
        let k = 1 + g.below(3);
        let calls: Vec<usize> = (0..k).map(|_| call(&mut g, &env, &p, node, &s)).collect();
        let legal = (node, calls, seed(&mut g));
        let idle = pick(&mut g, &[0u32, 0, 0, 0, 0, 0, 0, 0, 0, 30, 30, 30, 300]);
        // connections that come and go, one way or another
        let churn = match g.below(48) {
            47 => Some((pick(&mut g, &[300u32, 1100]), g.below(9), 1 + g.below(20))),
            k if k >= 44 => Some((pick(&mut g, &[40u32, 140]), g.below(9), 1 + g.below(20))),
            _ => None,
        };
        let sc = if churn.is_some() { simcore::SchedCfg { max_polls: 6_000_000, ..sc } } else { sc };
        let mut lib = s.clone();
        lib.extend(&c);
        let mut w2 = w.clone();
        note_calls(&ctx, &mut w2);
        w2.bytes += 100_000;
        let nc = net(&mut g, w2.bytes * 2 + 250_000);
        set_cfg(sc, nc.clone());
        (lib, s, c, w, nc, attacks, legal, idle, churn, Target { regs })
    };
    describe(&ctx);
    for a in &attacks {
        ctx.describe(format!("{:?}", a));
    }
    ctx.nontrivial();
    env.h().lax = true;
    if !boot_these(&env, &lib).await {
        return;
    }
    for a in attacks {
        spawn_h(a.node, attack(env.clone(), a.clone(), target.clone()));
    }
    if idle > 0 {
        let node = legal.0;
        let a = addr(&env, s[0]);
        spawn_h(node, async move {
            let mut v = vec![];
            for _ in 0..idle {
                if let Some(Some(mut c)) = by(now() + 5 * SEC, Raw::connect(a)).await {
                    if v.len() % 2 == 1 {
                        c.send_by(&frame(INIT_REQ, 1, &init_payload(2, &vec![])), now() + 5 * SEC).await;
                    }
                    v.push(c);
                }
            }
            with(|w| w.count_n("fault.idle_connections", v.len() as u64));
            sleep_ns(100 * SEC).await;
        });
    }
    launch(&env, &w);
    note_calls(&ctx, &mut w);
    w.bytes = w.bytes * 2 + w.calls * 2000 + 100_000;
    let bound = time_bound(&w, &nc);
    let mut done = env.wait_jobs(now() + bound).await;
    if let (Some((n, kind, par)), true) = (churn, done) {
        ctx.describe(format!("{} connections of kind {} come and go, {} at a time", n, kind, par));
        for k in 0..par {
            let (node, a) = (legal.0, addr(&env, s[0]));
            env.job(node, comers(a, n / par + 1, kind, legal.2.wrapping_add(k as u64), target.clone()));
        }
        env.wait_jobs(now() + 10_000 * SEC).await;
        done = env.h().jobs_live == 0;
    }
    if done {
        // a newcomer, and again those who called before
        env.job(legal.0, legal_client(env.clone(), addr(&env, s[0]), legal.1, legal.2, now() + bound));
        let done = env.wait_jobs(now() + bound).await;
        all_served(&env, !done);
        if done {
            for (i, x) in c.iter().enumerate() {
                if !recovers(&env, *x, s[0], i as u64 * 10, 0).await {
                    break;
                }
            }
        }
    } else {
        let mut h = env.h();
        for c in legal.1 {
            h.calls[c].excused = true;
        }
        drop(h);
        all_served(&env, true);
    }
    only_real_requests(&env);
    // those who came last
    sleep_ns(30 * SEC).await;
    tap::init_answers(&env);
}

/// A foreign server whose connections behave in the given manners, the last one for ever.
pub async fn manner_server(env: Env, node: usize, port: u16, ms: Vec<Manner>, seed: u64) {
    let l = match tokio::net::TcpListener::bind(at(node, port)).await {
        Ok(l) => l,
        Err(e) => {
            env.viol("harness", format!("hostile server: {}", e));
            return;
        }
    };
    let mut k = 0;
    loop {
        let s = match l.accept().await {
            Ok((s, _)) => s,
            Err(_) => return,
        };
        let m = ms[k.min(ms.len() - 1)];
        k += 1;
        spawn_h(node, serve_as(env.clone(), node, Raw::new(s), seed.wrapping_add(k as u64 * 77), m));
    }
}

/// Successes at calls to a foreign server must be complete replies that were read by then.
pub fn only_real_replies(env: &Env, server: usize) {
    let mut h = env.h();
    let mut sent = std::collections::BTreeMap::new();
    let mut replies: std::collections::BTreeMap<usize, Vec<Maybe>> = Default::default();
    for id in 0..h.calls.len() {
        let c = h.calls[id].clone();
        if c.spec.server != server {
            continue;
        }
        let (x, ok) = match &c.outcome {
            Some(Outcome::Ok(x)) => (x, true),
            Some(Outcome::MsgErr(x)) => (x, false),
            Some(Outcome::Panicked) => {
                h.viol("call-panicked", format!("call {}: send() panicked", id));
                continue;
            }
            _ => continue,
        };
        let s = sent.entry(c.spec.client).or_insert_with(|| sent_calls(c.spec.client));
        let s = match find_sent(s, &c) {
            Some(s) => s.clone(),
            None => {
                h.viol("success-without-reply", format!("call {} was never sent and ends with {}", id, c.outcome.as_ref().unwrap().brief()));
                continue;
            }
        };
        let rs = replies
            .entry(s.conn)
            .or_insert_with(|| maybe_messages(&with(|w| w.conns[s.conn].dirs[1].tap.clone()), CALL_RES, CALL_RES_C));
        let read = tap::read_by(s.conn, 1, c.end.unwrap());
        let found = rs.iter().any(|m| m.id == s.id && (m.first.code == 0) == ok && m.end as u64 <= read && same(x, &m.args));
        if !found {
            h.viol(
                "success-without-reply",
                format!(
                    "call {} (id {} on connection {}) ends with {}, but no complete response with that content and id was read by then",
                    id,
                    s.id,
                    s.conn,
                    c.outcome.as_ref().unwrap().brief()
                ),
            );
        }
        with(|w| w.count("peer.reply_matched"));
    }
}

pub fn hostile_world(ctx: &Ctx, p: &Prof, manner: &dyn Fn(&mut Choices) -> Manner) -> (Vec<usize>, Work, usize, Vec<Manner>, u64, NetCfg) {
    let env = ctx.env.clone();
    let mut g = ctx.g();
    let sc = sched(&mut g);
    let (s, c) = nodes(&mut g, &env, p);
    let regs = two_regs(&mut g, p.json);
    let srv = foreign(&env, true, 7100, regs);
    let mut targets = vec![srv, srv];
    targets.extend(&s);
    let w = work(&mut g, &env, p, &c, &targets);
    let n = 1 + g.below(4);
    let ms: Vec<Manner> = (0..n)
        .map(|_| {
            g.begin();
            let m = manner(&mut g);
            g.end();
            m
        })
        .collect();
    // handshakes of foreign peers may be long, and must get through in time
    let nc = net(&mut g, w.bytes * 2 + 250_000);
    set_cfg(sc, nc.clone());
    let mut lib = s;
    lib.extend(c);
    let sd = seed(&mut g);
    (lib, w, srv, ms, sd, nc)
}

pub async fn c09(ctx: Ctx) {
    let env = ctx.env.clone();
    let mild = ctx.g().chance(1, 3);
    let p = fprof(Prof {
        servers: (0, 1),
        clients: (1, 2),
        jobs: (1, 3),
        calls: 3,
        max_calls: 12,
        max_frames: 3,
        big: 4,
        par: 8,
        outcomes: 3,
        test_p: 5,
        ..Prof::default()
    });
    let (lib, w, srv, ms, sd, nc) = hostile_world(&ctx, &p, &|g| {
        if mild {
            Manner { noise: pick(g, &[8u32, 2, 14]), surplus: pick(g, &[0u32, 1, 6, 40, 200]), ..Manner::default() }
        } else {
            Manner {
                init: None,
                hello: if g.chance(1, 5) { hello_kind(g) } else { Hello::Good },
                delay: 0,
                evil: pick(g, &[8u32, 2, 4, 14]),
                noise: pick(g, &[0u32, 4]),
                life: pick(g, &[2 * SEC, 200 * MS, 8 * SEC, 20 * MS]),
                end: g.below(3),
                poison: None,
                stalls: pick(g, &[0u32, 0, 3]),
                surplus: pick(g, &[0u32, 0, 6, 200]),
            }
        }
    });
    describe(&ctx);
    ctx.describe(format!("server {} behaves: {:?}", srv, ms));
    ctx.nontrivial();
    if !mild {
        let mut h = env.h();
        for c in h.calls.iter_mut().filter(|c| c.spec.server == srv) {
            c.excused = true;
        }
        for (k, g) in h.groups.iter_mut() {
            if k.0 == srv {
                g.returned = u32::MAX / 2;
            }
        }
    }
    if !boot_these(&env, &lib).await {
        return;
    }
    simcore::spawn_as(srv, true);
    tokio::spawn(manner_server(env.clone(), srv, 7100, ms, sd));
    sleep_ns(MS).await;
    launch(&env, &w);
    let mut w2 = w.clone();
    w2.bytes = w.bytes * 2 + w.calls * 3000;
    let bound = time_bound(&w2, &nc);
    let until = now() + bound + if mild { 0 } else { w.calls as u64 * 60 * SEC };
    let done = env.wait_jobs(until).await;
    all_served(&env, !done);
    let mut h = env.h();
    for id in 0..h.calls.len() {
        let c = h.calls[id].clone();
        if c.start.is_none() || (c.spec.server == srv && mild) {
            continue;
        }
        let limit = if c.spec.server == srv { 60 * SEC } else { 0 } + bound;
        match c.end {
            None if c.spec.server == srv => h.viol(
                "call-hangs",
                format!("call {} to the hostile server started at {:.3} ms and never ended", id, ms_of(c.start.unwrap())),
            ),
            Some(e) if e - c.start.unwrap() > limit => {
                h.viol("call-ends-late", format!("call {} to node {} takes {:.1} s", id, c.spec.server, (e - c.start.unwrap()) as f64 / 1e9))
            }
            _ => {}
        }
    }
    drop(h);
    only_real_replies(&env, srv);
}

fn ms_of(t: Ns) -> f64 {
    t as f64 / 1e6
}

/// Servers whose streams become impossible to understand while the connections stay open.
pub async fn c04_poison(ctx: Ctx) {
    let env = ctx.env.clone();
    let p = fprof(Prof {
        servers: (0, 0),
        clients: (1, 2),
        jobs: (1, 4),
        calls: 2,
        max_calls: 10,
        max_frames: 3,
        big: 6,
        par: 10,
        test_p: 2,
        delays: vec![0, MS, 10 * MS, 100 * MS, SEC],
        ..Prof::default()
    });
    let (lib, w, srv, ms, sd, nc) = hostile_world(&ctx, &p, &|g| Manner {
        noise: pick(g, &[0u32, 0, 4]),
        life: 3600 * SEC,
        poison: Some((g.below(5), g.below(3))),
        ..Manner::default()
    });
    describe(&ctx);
    ctx.describe(format!("server {} behaves: {:?}", srv, ms));
    ctx.nontrivial();
    {
        let mut h = env.h();
        for (_, g) in h.groups.iter_mut() {
            g.returned = u32::MAX / 2;
        }
    }
    if !boot_these(&env, &lib).await {
        return;
    }
    simcore::spawn_as(srv, true);
    tokio::spawn(manner_server(env.clone(), srv, 7100, ms, sd));
    sleep_ns(MS).await;
    launch(&env, &w);
    let bound = time_bound(&w, &nc) + w.calls as u64 * 35 * SEC;
    env.wait_jobs(now() + bound).await;
    sleep_ns(5 * SEC).await;
    only_real_replies(&env, srv);
    let poisoned = env.h().poisoned.clone();
    let mut h = env.h();
    let mut sent = std::collections::BTreeMap::new();
    for id in 0..h.calls.len() {
        let c = h.calls[id].clone();
        if c.start.is_none() {
            continue;
        }
        let s = sent.entry(c.spec.client).or_insert_with(|| sent_calls(c.spec.client));
        let on = match find_sent(s, &c) {
            Some(s) => s.conn,
            None => {
                if c.end.map(|e| e - c.start.unwrap() > 60 * SEC).unwrap_or(true) {
                    h.viol("call-hangs", format!("call {} is not sent and does not end (in time)", id));
                }
                continue;
            }
        };
        let at = poisoned.iter().find(|(x, _)| *x == on).and_then(|(_, off)| tap::read_at(on, 1, *off));
        let at = match at {
            Some(t) => t.max(c.start.unwrap()),
            None => continue,
        };
        match c.end {
            None => h.viol("call-hangs", format!("call {} is sent on connection {}, whose stream is broken since {:.3} ms; it never ends", id, on, ms_of(at))),
            Some(e) if e > at + 2 * SEC => h.viol(
                "call-ends-late",
                format!("call {} is sent on connection {}, whose stream is broken since {:.3} ms; it ends at {:.3} ms", id, on, ms_of(at), ms_of(e)),
            ),
            _ => {}
        }
    }
}
