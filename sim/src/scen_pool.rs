//! Connections of a channel to its hosts (C14).

use crate::env::*;
use crate::gen::*;
use crate::oracle::*;
use crate::peer::*;
use crate::run::*;
use crate::scen::*;
use crate::scen_fault::fprof;
use crate::scen_peer::*;
use simcore::{now, sleep_ns, with, Ns, MS, SEC};
use std::collections::BTreeMap;
use std::net::SocketAddr;

pub async fn c14(ctx: Ctx) {
    let k = ctx.g().below(6);
    match k {
        0..=2 => limits(ctx).await,
        3 => lifetimes(ctx).await,
        _ => tested(ctx).await,
    }
}

/// Connections opened by the library, by client and address: (connection, opened at).
fn opened(client: usize) -> BTreeMap<SocketAddr, Vec<(usize, Ns)>> {
    with(|w| {
        let mut m: BTreeMap<SocketAddr, Vec<(usize, Ns)>> = BTreeMap::new();
        for c in w.conns.iter().filter(|c| c.ends[0].node == client && !c.ends[0].harness) {
            m.entry(c.ends[0].peer).or_default().push((c.id, c.opened_at));
        }
        m
    })
}

/// Requests are sent to the addresses of their calls and nowhere else.
fn right_hosts(env: &Env, clients: &[usize]) {
    for n in clients {
        let sent = sent_calls(*n);
        let mut h = env.h();
        let mut per: BTreeMap<(String, Vec<u8>, Vec<u8>), Vec<SocketAddr>> = BTreeMap::new();
        for s in &sent {
            let to = with(|w| w.conns[s.conn].ends[0].peer);
            let k = (s.service.clone(), s.args.first().cloned().unwrap_or_default(), s.args.get(1).cloned().unwrap_or_default());
            per.entry(k).or_default().push(to);
        }
        for id in 0..h.calls.len() {
            let c = h.calls[id].clone();
            if c.spec.client != *n || c.start.is_none() {
                continue;
            }
            let a = c.spec.req.args();
            for ((service, ep, hdr), to) in &per {
                if *service == c.spec.service && *ep == a[0] && !hdr.is_empty() && a[1].starts_with(hdr) {
                    with(|w| w.count("pool.requests_seen"));
                    for t in to {
                        if *t != c.spec.addr {
                            h.viol("wrong-host", format!("call {} names {} and is sent to {}", id, c.spec.addr, t));
                        }
                    }
                    if to.len() > 1 {
                        h.viol("request-sent-twice", format!("call {} is sent {} times", id, to.len()));
                    }
                }
            }
        }
    }
}

/// No faults, no expiry.
async fn limits(ctx: Ctx) {
    let env = ctx.env.clone();
    let p = fprof(Prof {
        servers: (1, 2),
        clients: (1, 2),
        jobs: (1, 4),
        calls: 4,
        max_calls: 40,
        par: 11,
        big: 2,
        max_conn: vec![1, 2, 3, 5, 10],
        lifetimes: vec![None, Some(3600 * SEC)],
        test_p: 5,
        gaps: vec![0, 0, MS, 20 * MS, SEC, 40 * SEC],
        forward: 2,
        ..Prof::default()
    });
    let (lib, c, w, srv, sd, nc) = {
        let mut g = ctx.g();
        let sc = sched(&mut g);
        let (s, mut c) = nodes(&mut g, &env, &p);
        let mut targets = s.clone();
        // same port on different hosts
        if g.chance(1, 2) {
            for n in &s {
                env.h().nodes[*n].spec.as_mut().unwrap().cfg.port = 7000;
            }
        }
        // another server on the same host, at another port
        let srv = if g.chance(1, 3) {
            let regs = two_regs(&mut g, p.json);
            let n = foreign(&env, true, 7100, regs);
            targets.push(n);
            targets.push(n);
            Some(n)
        } else {
            None
        };
        if g.chance(1, 5) {
            c.extend(&s);
        }
        let w = work(&mut g, &env, &p, &c, &targets);
        for x in env.h().calls.iter_mut() {
            if Some(x.spec.server) == srv {
                x.spec.addr = at(s[0], 7100);
            }
            if let Some(f) = &mut x.spec.resp.fwd {
                if Some(f.server) == srv {
                    std::sync::Arc::make_mut(f).addr = at(s[0], 7100);
                }
            }
        }
        let nc = net(&mut g, w.bytes * 2 + 250_000);
        if transmission(&w, &nc) > 12 * SEC {
            // a ping behind large messages may take longer than the 15 s after which a connection is replaced
            for n in env.h().nodes.iter_mut() {
                if let Some(s) = n.spec.as_mut() {
                    s.cfg.test = false;
                }
            }
        }
        set_cfg(sc, nc.clone());
        let mut lib = s;
        lib.extend(c.iter().filter(|x| !lib.contains(x)).cloned().collect::<Vec<_>>());
        (lib, c, w, srv, seed(&mut g), nc)
    };
    describe(&ctx);
    ctx.nontrivial();
    if !boot_these(&env, &lib).await {
        return;
    }
    if let Some(n) = srv {
        spawn_h(lib[0], legal_server(env.clone(), n, at(lib[0], 7100), sd));
        sleep_ns(MS).await;
    }
    launch(&env, &w);
    let bound = time_bound(&w, &nc) + w.calls as u64 * 10 * nc.lat_max;
    let done = env.wait_jobs(now() + bound).await;
    all_served(&env, !done);
    right_hosts(&env, &c);
    for n in &c {
        let max = env.h().nodes[*n].spec.as_ref().unwrap().cfg.max_conn as usize;
        for (a, v) in opened(*n) {
            // one that was not used for 10 minutes may have been given up and replaced
            let fresh = |t: Ns| {
                with(|w| {
                    v.iter()
                        .filter(|(id, at)| {
                            let used = w.conns[*id].dirs[0].tap_times.iter().map(|x| x.1).filter(|x| *x <= t).max();
                            *at <= t && used.unwrap_or(0).max(*at) + 590 * SEC > t
                        })
                        .count()
                })
            };
            if let Some((_, t)) = v.iter().find(|(_, t)| fresh(*t) > max) {
                env.viol(
                    "too-many-connections",
                    format!("node {} opened {} connections to {} and may have {}: {:?}, at {:.3} ms", n, v.len(), a, max, v, ms(*t)),
                );
            }
            with(|w| w.count_n("pool.connections", v.len() as u64));
            if v.len() == max {
                with(|w| w.count("pool.limit_reached"));
            }
        }
    }
}

/// A pool is cleaned every 30 s, which leaves connections alone that are just checked out (during a ping, say). A
/// time of cleaning between two moments at which the connection was surely not in use.
fn quiet_tick(conn: usize, first: Ns, from: Ns, to: Ns) -> Option<Ns> {
    let mut t = first;
    loop {
        t += 30 * SEC;
        if t + 300 * MS > to {
            return None;
        }
        if t < from + 300 * MS {
            continue;
        }
        let busy = with(|w| w.conns[conn].dirs[0].tap_times.iter().any(|(_, at)| *at + 16 * SEC > t && *at < t + 200 * MS));
        if !busy {
            return Some(t);
        }
    }
}

/// Connections get old while calls go on.
async fn lifetimes(ctx: Ctx) {
    let env = ctx.env.clone();
    let p = fprof(Prof {
        servers: (1, 1),
        clients: (1, 2),
        jobs: (1, 3),
        calls: 6,
        max_calls: 30,
        par: 6,
        big: 1,
        max_conn: vec![1, 1, 2, 4],
        tasks: vec![0, 8],
        lifetimes: vec![Some(SEC), Some(5 * SEC), Some(20 * SEC), Some(45 * SEC)],
        test_p: 5,
        delays: vec![0, 0, SEC, 40 * SEC],
        eps: 6,
        gaps: vec![SEC, 0, 10 * SEC, 30 * SEC, 70 * SEC],
        ..Prof::default()
    });
    let (_, c, w, bound) = match setup(&ctx, &p).await {
        Some(x) => x,
        None => return,
    };
    ctx.nontrivial();
    launch(&env, &w);
    let done = env.wait_jobs(now() + bound).await;
    all_served(&env, !done);
    if !done {
        return;
    }
    sleep_ns(100 * SEC).await;
    // idle pools still hold what is young only
    for n in &c {
        let cfg = env.h().nodes[*n].spec.as_ref().unwrap().cfg.clone();
        let life = cfg.lifetime.unwrap();
        let sent = sent_calls(*n);
        for (a, v) in opened(*n) {
            let first = v[0].1;
            for (id, at) in v {
                let late = sent.iter().filter(|s| s.conn == id).map(|s| s.at).max();
                if let Some(t) = late {
                    if let Some(tick) = quiet_tick(id, first, at + life, t) {
                        env.viol(
                            "outlived",
                            format!(
                                "connection {} of node {} to {} opened at {:.3} ms, its lifetime is {} s, a request is sent on it at {:.3} ms, though it was idle when the pool was cleaned at about {:.3} ms",
                                id,
                                n,
                                a,
                                ms(at),
                                life / SEC,
                                ms(t),
                                ms(tick)
                            ),
                        );
                    }
                }
                let closed = with(|w| w.conns[id].ends[0].closed);
                if !closed && now() > at + life + 95 * SEC {
                    env.viol(
                        "not-retired",
                        format!("connection {} of node {} to {} opened at {:.3} ms, its lifetime is {} s; it is idle and still open at {:.3} ms", id, n, a, ms(at), life / SEC, ms(now())),
                    );
                }
                if closed {
                    with(|w| w.count("pool.retired"));
                }
            }
        }
    }
}

/// Pooled connections die while they are idle; the next call finds a good one.
async fn tested(ctx: Ctx) {
    let env = ctx.env.clone();
    let p = fprof(Prof {
        servers: (1, 1),
        clients: (1, 1),
        jobs: (1, 3),
        calls: 3,
        max_calls: 8,
        par: 10,
        big: 1,
        max_conn: vec![1, 2, 4],
        test_p: 16,
        delays: vec![0, 0, MS, 100 * MS],
        lifetimes: vec![None, Some(3600 * SEC), Some(60 * SEC)],
        ..Prof::default()
    });
    let (s, c, mut w, nc, rounds) = {
        let mut g = ctx.g();
        let sc = sched(&mut g);
        let (s, c) = nodes(&mut g, &env, &p);
        let mut rounds = vec![];
        let mut bytes = 0;
        for k in 0..2 + g.below(4) {
            g.begin();
            let mc = env.h().nodes[c[0]].spec.as_ref().unwrap().cfg.max_conn;
            let what = if k == 0 { 9 } else { g.below(if mc == 1 { 6 } else { 5 }) };
            let one = g.chance(1, 2);
            let n = if one { 1 } else { 1 + g.below(5) };
            let calls: Vec<usize> = (0..n).map(|_| call(&mut g, &env, &p, c[0], &s)).collect();
            bytes += 100_000;
            rounds.push((what, calls, g.below(4), pick(&mut g, &[2 * SEC, SEC, 40 * SEC])));
            g.end();
        }
        let nc = net(&mut g, bytes);
        set_cfg(sc, nc.clone());
        (s[0], c[0], Work::default(), nc, rounds)
    };
    note_calls(&ctx, &mut w);
    let bound = time_bound(&w, &nc);
    describe(&ctx);
    for r in &rounds {
        ctx.describe(format!("round: event {}, calls {:?} after {} s", r.0, r.1, r.3 / SEC));
    }
    ctx.nontrivial();
    if !boot_these(&env, &[s, c]).await {
        return;
    }
    for (what, calls, n, rest) in rounds {
        let conns: Vec<usize> = opened(c).into_values().flatten().map(|x| x.0).collect();
        match what {
            0 | 1 => {
                with(|w| {
                    w.count("fault.idle_reset");
                    for id in conns {
                        if what == 0 || id % 4 == n as usize {
                            w.reset_conn(id);
                        }
                    }
                });
            }
            2 | 3 => {
                with(|w| {
                    w.count("fault.server_restart");
                    w.kill_process(s)
                });
                sleep_ns(n as u64 * 300 * MS).await;
                env.boot(s);
            }
            4 => {
                with(|w| {
                    w.count("fault.idle_end_reset");
                    for id in conns {
                        w.reset_end(id, 1);
                    }
                });
            }
            5 => {
                with(|w| {
                    w.count("fault.power_cycle");
                    w.power_off(s)
                });
                sleep_ns(n as u64 * 300 * MS).await;
                with(|w| w.power_on(s));
                env.boot(s);
            }
            _ => {}
        }
        if !env.wait_listening(&[s], 30 * SEC).await {
            env.viol("server-not-listening", "a server was started again but does not listen 30 s later");
            return;
        }
        sleep_ns(rest).await;
        for id in calls {
            let env2 = env.clone();
            env.job(c, async move {
                if let Some(ch) = env2.chan(c) {
                    env2.call(ch, id).await;
                }
            });
        }
        if !env.wait_jobs(now() + bound + 15 * SEC).await {
            break;
        }
    }
    all_served(&env, true);
}
