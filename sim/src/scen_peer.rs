//! Scenarios in which one side of the protocol is played by the harness.

use crate::content::*;
use crate::env::*;
use crate::gen::*;
use crate::oracle::*;
use crate::peer::*;
use crate::run::*;
use crate::scen::*;
use crate::fault::*;
use crate::scen_fault::{fprof, stormy};
use crate::tap;
use simcore::{now, sleep_ns, with, Choices, MS, SEC};
use std::net::{IpAddr, SocketAddr};

/// A node that runs no library code.
pub fn foreign(env: &Env, server: bool, port: u16, regs: Vec<Reg>) -> usize {
    let _ = server;
    env.add_node(NodeSpec { server: false, cfg: Cfg { port, ..Cfg::default() }, regs })
}

pub fn at(node: usize, port: u16) -> SocketAddr {
    SocketAddr::new(IpAddr::V4(node_ip(node)), port)
}

pub fn seed(g: &mut Choices) -> u64 {
    g.below(u32::MAX) as u64
}

/// Boots the library's nodes only.
pub async fn boot_these(env: &Env, nodes: &[usize]) -> bool {
    for n in nodes {
        env.boot(*n);
    }
    let s: Vec<usize> = env.servers();
    if env.wait_listening(&s, 30 * SEC).await {
        let until = now() + 30 * SEC;
        while !nodes.iter().all(|n| env.h().nodes[*n].ready) && now() < until {
            sleep_ns(MS).await;
        }
        env.note_idle();
        return true;
    }
    env.viol("server-not-listening", "a server was started but does not listen 30 s later");
    false
}

pub fn note_calls(ctx: &Ctx, w: &mut Work) {
    let h = ctx.env.h();
    w.bytes = 0;
    w.delays = 0;
    w.calls = h.calls.len();
    for c in &h.calls {
        let (bytes, delay, calls) = h.cost(&c.spec);
        w.bytes += bytes;
        w.delays += delay;
        w.calls += calls - 1;
    }
}

pub fn two_regs(g: &mut Choices, json: u32) -> Vec<Reg> {
    let n = 1 + g.below(3);
    (0..n)
        .map(|e| Reg { service: service_name(e % 2), ep: ep_name(e), fmt: if g.chance(json, 16) { Fmt::Json } else { Fmt::Raw }, asynch: true })
        .collect()
}

pub async fn c12(ctx: Ctx) {
    let p = Prof {
        servers: (1, 1),
        clients: (1, 2),
        jobs: (1, 2),
        calls: 3,
        max_calls: 10,
        max_frames: 4,
        big: 6,
        eps: 5,
        par: 8,
        outcomes: 3,
        test_p: 3,
        ..Prof::default()
    };
    let slow = ctx.g().chance(1, 8);
    let p = if slow { Prof { test_p: 0, ..p } } else { p };
    if slow {
        // some peers rest in the middle of their messages
        let t = pick(&mut ctx.g(), &[70 * SEC, 16 * SEC, 35 * SEC, 700 * SEC]);
        ctx.env.h().slow_peers = t;
    }
    if peers(&ctx, &p, 0).await && comes_to_rest(&ctx.env).await {
        tap::pings(&ctx.env);
    }
}

/// Requests and replies that cannot be understood, among proper ones on the same connections (C06).
pub async fn misfits(ctx: &Ctx) {
    let p = fprof(Prof {
        servers: (1, 1),
        clients: (1, 2),
        jobs: (1, 2),
        calls: 4,
        max_calls: 12,
        max_frames: 3,
        big: 4,
        par: 8,
        outcomes: 2,
        test_p: 3,
        ..Prof::default()
    });
    let odds = {
        let mut g = ctx.g();
        pick(&mut g, &[4, 1, 10])
    };
    peers(ctx, &p, odds).await;
}

/// Calls among library nodes and legal peers; everything must be served.
async fn peers(ctx: &Ctx, p: &Prof, odds: u32) -> bool {
    let env = ctx.env.clone();
    let (lib, plans, mut w, nc, fservers) = {
        let mut g = ctx.g();
        let sc = sched(&mut g);
        let (s, c) = nodes(&mut g, &env, p);
        let mut targets = s.clone();
        let mut fs = vec![];
        if !g.chance(1, 3) {
            let regs = two_regs(&mut g, p.json);
            let n = foreign(&env, true, 7100, regs);
            fs.push((n, seed(&mut g)));
            targets.push(n);
            targets.push(n);
        }
        let w = work(&mut g, &env, p, &c, &targets);
        if odds > 0 {
            for x in env.h().calls.iter_mut() {
                if fs.iter().any(|f| f.0 == x.spec.server) && g.chance(odds, 16) {
                    x.spec.expect = Expect::BadReply;
                }
            }
        }
        let mut plans = vec![];
        let mut wide = false;
        let nf = if fs.is_empty() { 1 + g.below(2) } else { g.below(3) };
        for _ in 0..nf {
            g.begin();
            let n = foreign(&env, false, 0, vec![]);
            let conns = 1 + g.below(2);
            for _ in 0..conns {
                let k = 1 + g.below(7);
                let calls: Vec<usize> = (0..k).map(|_| call(&mut g, &env, p, n, &s)).collect();
                let sd = seed(&mut g);
                plans.push((n, s[0], calls, sd));
            }
            g.end();
        }
        if odds == 0 && g.chance(1, 20) {
            let n = foreign(&env, false, 0, vec![]);
            let k = pick(&mut g, &[70u32, 130, 270, 45]);
            let q = Prof { max_frames: 1, big: 0, outcomes: 1, ..p.clone() };
            let calls: Vec<usize> = (0..k).map(|_| call(&mut g, &env, &q, n, &s)).collect();
            let sd = seed(&mut g);
            plans.push((n, s[0], calls, sd));
            wide = true;
        }
        let mut lib = s.clone();
        lib.extend(c);
        let mut w2 = w.clone();
        note_calls(ctx, &mut w2);
        let nc = net(&mut g, w2.bytes * 2 + 250_000);
        set_cfg(if wide { simcore::SchedCfg { max_polls: 6_000_000, ..sc } } else { sc }, nc.clone());
        (lib, plans, w, nc, fs)
    };
    describe(ctx);
    ctx.nontrivial();
    if !boot_these(&env, &lib).await {
        return false;
    }
    for (n, sd) in &fservers {
        simcore::spawn_as(*n, true);
        tokio::spawn(legal_server(env.clone(), *n, at(*n, 7100), *sd));
    }
    sleep_ns(MS).await;
    launch(&env, &w);
    note_calls(ctx, &mut w);
    w.bytes = w.bytes * 2 + w.calls * 2000;
    let bound = time_bound(&w, &nc) + 10 * SEC + 40 * env.h().slow_peers;
    let until = now() + bound;
    for (n, s, calls, sd) in plans {
        let a = addr(&env, s);
        env.job(n, odd_client(env.clone(), a, calls, sd, until, odds));
    }
    let done = env.wait_jobs(until).await;
    if !done {
        env.probe("not-done-in-time");
    }
    all_served(&env, !done);
    done
}

/// Requests of calls that were given up go on: waits until nothing is sent or received any more.
pub async fn comes_to_rest(env: &Env) -> bool {
    let moved = || with(|w| w.conns.iter().flat_map(|c| c.dirs.iter()).map(|d| d.sent + d.delivered + d.read).sum::<u64>());
    let delay = env.h().calls.iter().map(|c| c.spec.resp.delay).max().unwrap_or(0);
    let until = now() + 600 * SEC;
    let mut last = moved();
    while now() < until {
        sleep_ns(2 * delay + 3 * SEC).await;
        let m = moved();
        if m == last {
            return true;
        }
        last = m;
    }
    false
}

pub async fn c11(ctx: Ctx) {
    if ctx.g().below(32) == 31 {
        marathon(&ctx).await;
        tap::check(&ctx.env, true);
        return;
    }
    let mode = ctx.g().below(8);
    let p = fprof(Prof {
        servers: (1, 2),
        clients: (1, 2),
        jobs: (1, 3),
        calls: 3,
        max_calls: 16,
        max_frames: 5,
        big: 8,
        par: 8,
        outcomes: 4,
        unservable: 2,
        test_p: 4,
        ..Prof::default()
    });
    let settled = match mode {
        0 | 1 => {
            let p = Prof { cancels: if mode == 1 { 4 } else { 0 }, ..p };
            faultless(&ctx, &p).await;
            true
        }
        2 | 3 => {
            let p = Prof { servers: (1, 1), unservable: 0, max_calls: 8, ..p };
            peers(&ctx, &p, 0).await
        }
        4 => {
            // a lifetime that ends while calls are under way
            let p = Prof {
                lifetimes: vec![Some(SEC), Some(20 * SEC)],
                gaps: vec![MS, 100 * MS, 3 * SEC, 31 * SEC],
                cancels: 1,
                ..p
            };
            faultless(&ctx, &p).await;
            true
        }
        _ => {
            let p = Prof { cancels: if mode == 5 { 3 } else { 0 }, ..p };
            let f = FaultProf { faults: (0, 4), plans: (0, 2), window: 5 * SEC, kill_clients: mode == 7, power: true, pause: true, impostor: true };
            match stormy(&ctx, &p, &f, 250 * SEC).await {
                Some(_) => true,
                None => false,
            }
        }
    };
    sleep_ns(5 * SEC).await;
    let quiet = comes_to_rest(&ctx.env).await;
    let idle = ctx.env.h().jobs_live == 0;
    tap::check(&ctx.env, settled && quiet && idle);
}
