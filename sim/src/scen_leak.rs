//! What is left of connections and channels when nobody needs them any more (C18).

use crate::env::*;
use crate::fault::*;
use crate::gen::*;
use crate::hostile::Target;
use crate::oracle::*;
use crate::peer::*;
use crate::run::*;
use crate::scen::*;
use crate::scen_fault::{fprof, stormy};
use crate::scen_hostile::*;
use crate::scen_peer::*;
use simcore::{now, sleep_ns, with, Ns, MS, SEC};

pub async fn c18(ctx: Ctx) {
    let k = ctx.g().below(10);
    match k {
        0..=2 => visitors(ctx).await,
        3 | 4 => storm(ctx).await,
        5 | 6 => drops(ctx).await,
        7 => rounds(ctx).await,
        _ => bad_servers(ctx).await,
    }
}

fn left(node: usize) -> (usize, usize, usize) {
    with(|w| (w.live_tasks(node), w.open_socks(node), w.open_listeners(node)))
}

/// Connections one end of which has no way to learn that the other is gone: their hosts find out after all.
fn reveal() {
    let v: Vec<usize> = with(|w| {
        w.conns
            .iter()
            .filter(|c| {
                (0..2).any(|s| {
                    let (a, b) = (&c.ends[s], &c.ends[1 - s]);
                    !a.closed && !a.gone && !a.dead && a.broken_at.is_none() && (b.dead || b.gone || b.closed || b.broken_at.is_some())
                })
            })
            .map(|c| c.id)
            .collect()
    });
    for c in v {
        with(|w| {
            w.count("leak.silently_dead");
            w.reset_conn(c)
        });
    }
}

/// Waits until a node has no more than this many tasks, sockets and listeners.
async fn comes_to_rest(env: &Env, node: usize, tasks: usize, socks: usize, listeners: usize, limit: Ns, what: &str) -> bool {
    let end = now() + limit;
    loop {
        let l = left(node);
        if l.0 <= tasks && l.1 <= socks && l.2 <= listeners {
            with(|w| w.count("leak.rests_checked"));
            return true;
        }
        if now() >= end {
            let class = if l.2 > listeners {
                "listener-left"
            } else if l.1 > socks {
                "socket-left"
            } else {
                "task-left"
            };
            env.viol(
                class,
                format!("{}: {:.0} s later node {} still has {} tasks, {} sockets, {} listening (at most {}, {}, {} are due)", what, limit as f64 / 1e9, node, l.0, l.1, l.2, tasks, socks, listeners),
            );
            return false;
        }
        sleep_ns(50 * MS).await;
    }
}

/// All channels go; nothing stays.
async fn all_dropped(env: &Env, clients: &[usize], servers: &[usize], busy: bool) {
    for n in clients {
        env.drop_chan(*n);
    }
    for n in clients {
        if !comes_to_rest(env, *n, 0, 0, 0, 100 * SEC, "the channel was dropped and its calls have ended").await {
            return;
        }
    }
    reveal();
    if !busy {
        for n in servers {
            let idle = env.h().nodes[*n].idle_tasks.max(1);
            if !comes_to_rest(env, *n, idle, 0, 1, 100 * SEC, "all clients are gone").await {
                return;
            }
        }
    }
    for n in servers {
        env.drop_chan(*n);
    }
    for n in servers {
        if !comes_to_rest(env, *n, 100_000, 100_000, 0, 2 * SEC, "the server's channel was dropped").await {
            return;
        }
    }
    for n in servers {
        if !comes_to_rest(env, *n, 0, 0, 0, 100 * SEC, "all channels were dropped").await {
            return;
        }
    }
}

/// What the library allocated is free again. Processes that were killed keep theirs.
fn memory_is_free(env: &Env) {
    with(|w| w.count("leak.memory_checked"));
    let (blocks, bytes) = simcore::mem::held();
    if blocks > 8 {
        env.viol(
            "memory-left",
            format!("{} blocks of memory ({} bytes) are still held after all channels were dropped, of (size, blocks): {:?}", blocks, bytes, simcore::mem::sizes()),
        );
    }
}

/// Clients of all kinds come and go.
async fn visitors(ctx: Ctx) {
    let env = ctx.env.clone();
    let p = fprof(Prof {
        servers: (1, 1),
        clients: (0, 2),
        jobs: (0, 2),
        calls: 3,
        max_calls: 10,
        max_frames: 2,
        big: 2,
        eps: 3,
        cancels: 4,
        outcomes: 2,
        panics: 1,
        gaps: vec![0, 0, MS, 20 * MS, 300 * MS, 3 * SEC],
        patience: Some(300 * SEC),
        ..Prof::default()
    });
    let (s, c, w, attacks, legal, target, close) = {
        let mut g = ctx.g();
        let sc = sched(&mut g);
        let (s, c) = nodes(&mut g, &env, &p);
        let regs = env.h().nodes[s[0]].spec.as_ref().unwrap().regs.clone();
        let w = work(&mut g, &env, &p, &c, &s);
        let mut attacks = vec![];
        for _ in 0..1 + g.below(3) {
            attacks.extend(crate::scen_hostile::attacks(&mut g, &env, &p, s[0]));
        }
        let node = foreign(&env, false, 0, vec![]);
        let k = g.below(3);
        let calm = Prof { panics: 0, ..p.clone() };
        let calls: Vec<usize> = (0..k).map(|_| call(&mut g, &env, &calm, node, &s)).collect();
        let legal = (node, calls, seed(&mut g));
        let nc = net(&mut g, w.bytes * 2 + 450_000);
        set_cfg(sc, nc);
        (s[0], c, w, attacks, legal, Target { regs }, g.below(4))
    };
    for c in env.h().calls.iter_mut() {
        c.may_fail = true;
        c.excused = true;
    }
    describe(&ctx);
    for a in &attacks {
        ctx.describe(format!("{:?}", a));
    }
    ctx.nontrivial();
    env.h().lax = true;
    let mut lib = vec![s];
    lib.extend(&c);
    if !boot_these(&env, &lib).await {
        return;
    }
    sleep_ns(SEC).await;
    let base = left(s);
    for a in attacks {
        env.job(a.node, attack(env.clone(), a.clone(), target.clone()));
    }
    if !legal.1.is_empty() {
        env.job(legal.0, legal_client(env.clone(), addr(&env, s), legal.1, legal.2, now() + 300 * SEC));
    }
    launch(&env, &w);
    if close == 0 {
        sleep_ns(SEC).await;
        // the listening socket goes first
        if let Some(c) = env.chan(s) {
            spawn_h(s, async move {
                let _ = c.shutdown_server();
            });
        }
    }
    env.wait_jobs(now() + 1000 * SEC).await;
    for n in &c {
        env.drop_chan(*n);
    }
    for n in &c {
        comes_to_rest(&env, *n, 0, 0, 0, 100 * SEC, "the channel was dropped and its calls have ended").await;
    }
    // requests in progress may take their time
    let busy: Ns = {
        let h = env.h();
        h.calls.iter().map(|c| h.cost(&c.spec).1).sum()
    };
    let (tasks, listeners) = if close == 0 { (base.0 - 1, 0) } else { (base.0, 1) };
    if !comes_to_rest(&env, s, tasks, 0, listeners, busy + 60 * SEC, "all clients are gone").await {
        return;
    }
    env.drop_chan(s);
    comes_to_rest(&env, s, 0, 0, 0, 40 * SEC, "the server's channel was dropped").await;
}

/// Faults of all kinds; then everything is dropped.
async fn storm(ctx: Ctx) {
    let p = fprof(Prof {
        servers: (1, 2),
        clients: (1, 2),
        jobs: (1, 3),
        calls: 3,
        max_calls: 14,
        max_frames: 3,
        big: 4,
        cancels: 3,
        outcomes: 2,
        unservable: 1,
        test_p: 4,
        gaps: vec![0, MS, 20 * MS, 300 * MS, 3 * SEC, 20 * SEC],
        patience: Some(200 * SEC),
        ..Prof::default()
    });
    let f = FaultProf { faults: (1, 5), plans: (0, 3), window: 20 * SEC, kill_clients: true, power: true, pause: true, impostor: true };
    let env = ctx.env.clone();
    let (s, c) = match stormy(&ctx, &p, &f, 500 * SEC).await {
        Some((s, c, _)) => (s, c),
        None => return,
    };
    env.wait_jobs(now() + 3000 * SEC).await;
    sleep_ns(150 * SEC).await;
    reveal();
    let busy = env.h().calls.iter().any(|c| s.contains(&c.spec.client));
    all_dropped(&env, &c, &s, busy).await;
}

/// Channels that call each other, and themselves, are dropped while calls are in progress.
async fn drops(ctx: Ctx) {
    let env = ctx.env.clone();
    let p = fprof(Prof {
        servers: (1, 2),
        clients: (0, 2),
        jobs: (1, 3),
        calls: 3,
        max_calls: 16,
        max_frames: 3,
        big: 3,
        par: 8,
        cancels: 2,
        outcomes: 2,
        unservable: 1,
        test_p: 4,
        lifetimes: vec![Some(60 * SEC), None, Some(SEC)],
        gaps: vec![0, 0, MS, 20 * MS, 300 * MS, 3 * SEC],
        delays: vec![0, MS, 100 * MS, SEC],
        ..Prof::default()
    });
    let (s, c, w, bound, when) = {
        let mut g = ctx.g();
        let sc = sched(&mut g);
        let (s, c) = nodes(&mut g, &env, &p);
        let mut callers = c.clone();
        if c.is_empty() || g.chance(1, 2) {
            callers.extend(&s);
        }
        let w = work(&mut g, &env, &p, &callers, &s);
        let nc = net(&mut g, w.bytes);
        set_cfg(sc, nc.clone());
        let refused = env.h().calls.iter().filter(|c| c.spec.expect == Expect::NoHost).count() as u64;
        let bound = time_bound(&w, &nc) + refused * 31 * SEC;
        let mut all = s.clone();
        all.extend(&c);
        let when: Vec<(usize, Ns, bool)> =
            all.iter().map(|n| (*n, pick(&mut g, &[1000 * SEC, 0, MS, 10 * MS, 100 * MS, SEC, 3 * SEC]), g.chance(1, 2))).collect();
        (s, c, w, bound, when)
    };
    describe(&ctx);
    ctx.describe(format!("channels are dropped (node, when, subchannels are kept): {:?}", when));
    ctx.nontrivial();
    if !env.boot_all().await {
        env.viol("server-not-listening", "a server was started but does not listen 30 s later");
        return;
    }
    let disturbed = when.iter().any(|(n, t, _)| s.contains(n) && *t < 1000 * SEC);
    if disturbed {
        for c in env.h().calls.iter_mut() {
            c.may_fail = true;
        }
    }
    for (n, t, keep) in &when {
        let (env, n, t, keep) = (env.clone(), *n, *t, *keep);
        if t < 1000 * SEC {
            spawn_h(0, async move {
                sleep_ns(t).await;
                let gone = if keep { env.drop_but_keep(n).await } else { env.drop_chan(n) };
                if gone {
                    with(|w| w.count(if keep { "leak.subchannels_outlive" } else { "leak.dropped_in_use" }));
                }
            });
        }
    }
    launch(&env, &w);
    let t = now();
    let extra = if disturbed { w.calls as u64 * 60 * SEC } else { 0 };
    if !env.wait_jobs(t + bound + extra).await {
        env.viol("call-hangs", "calls of channels that were dropped, or calls to them, do not end");
        return;
    }
    all_served(&env, true);
    simcore::sleep_until(t + 4 * SEC).await;
    for n in s.iter().chain(&c) {
        env.drop_kept(*n);
    }
    all_dropped(&env, &c, &s, true).await;
    memory_is_free(&env);
}

/// The same things again and again use no more than before.
async fn rounds(ctx: Ctx) {
    let env = ctx.env.clone();
    let p = fprof(Prof {
        servers: (1, 1),
        clients: (1, 2),
        jobs: (1, 3),
        calls: 2,
        max_calls: 8,
        max_frames: 2,
        big: 2,
        cancels: 5,
        outcomes: 3,
        panics: 1,
        test_p: 6,
        max_conn: vec![1],
        lifetimes: vec![None],
        patience: Some(200 * SEC),
        ..Prof::default()
    });
    let (s, c, works, resets, attacks, target) = {
        let mut g = ctx.g();
        let sc = sched(&mut g);
        let (s, c) = nodes(&mut g, &env, &p);
        let n = 3 + g.below(2);
        let mut works = vec![];
        let mut resets = vec![];
        let mut bad = vec![];
        for i in 0..n {
            let p = Prof { max_calls: p.max_calls, ..p.clone() };
            works.push(work(&mut g, &env, &p, &c, &s));
            resets.push((g.below(3), pick(&mut g, &[MS, 30 * MS, 300 * MS])));
            bad.push(if g.chance(1, 2) && i > 0 { crate::scen_hostile::attacks(&mut g, &env, &p, s[0]) } else { vec![] });
        }
        let regs = env.h().nodes[s[0]].spec.as_ref().unwrap().regs.clone();
        let nc = net(&mut g, works.iter().map(|w| w.bytes).sum::<usize>() + 350_000);
        set_cfg(sc, nc);
        (s[0], c, works, resets, bad, Target { regs })
    };
    for c in env.h().calls.iter_mut() {
        c.may_fail = true;
        c.excused = true;
    }
    env.h().lax = true;
    describe(&ctx);
    ctx.describe(format!("resets {:?}", resets));
    ctx.nontrivial();
    let mut lib = vec![s];
    lib.extend(&c);
    if !boot_these(&env, &lib).await {
        return;
    }
    let mut all = vec![];
    for (i, w) in works.iter().enumerate() {
        launch(&env, w);
        for a in &attacks[i] {
            env.job(a.node, attack(env.clone(), a.clone(), target.clone()));
        }
        for _ in 0..resets[i].0 {
            sleep_ns(resets[i].1).await;
            let v: Vec<usize> = with(|w| w.conns.iter().filter(|c| c.ends.iter().all(|e| !e.closed && !e.gone && !e.dead && !e.harness)).map(|c| c.id).collect());
            if let Some(c) = v.last() {
                with(|w| w.reset_conn(*c));
            }
        }
        env.wait_jobs(now() + 1500 * SEC).await;
        sleep_ns(60 * SEC).await;
        for (k, n) in c.iter().enumerate() {
            if !recovers(&env, *n, s, (i * 10 + k) as u64, 3).await {
                return;
            }
        }
        sleep_ns(60 * SEC).await;
        all.push(lib.iter().map(|n| left(*n)).collect::<Vec<_>>());
    }
    with(|w| w.count_n("leak.rounds", all.len() as u64));
    // the first round may not have made connections for all
    for (i, a) in all.iter().enumerate().skip(1) {
        for (k, x) in a.iter().enumerate() {
            let b = all[0][k];
            if x.0 > b.0 || x.1 > b.1 || x.2 > b.2 {
                env.viol(
                    "grows",
                    format!("node {} at rest has (tasks, sockets, listeners) {:?} after round 1 and {:?} after round {} of calls", lib[k], b, x, i + 1),
                );
                return;
            }
        }
    }
    all_dropped(&env, &c, &[s], false).await;
    memory_is_free(&env);
}

/// Servers that end connections, in all ways and at all moments.
async fn bad_servers(ctx: Ctx) {
    let env = ctx.env.clone();
    let p = fprof(Prof {
        servers: (0, 0),
        clients: (1, 2),
        jobs: (1, 3),
        calls: 3,
        max_calls: 10,
        max_frames: 3,
        big: 4,
        par: 8,
        outcomes: 3,
        test_p: 3,
        cancels: 3,
        patience: Some(300 * SEC),
        ..Prof::default()
    });
    let (lib, w, srv, ms, sd, _) = hostile_world(&ctx, &p, &|g| Manner {
        init: None,
        hello: if g.chance(1, 4) { hello_kind(g) } else { Hello::Good },
        delay: pick(g, &[0, MS, SEC, 16 * SEC]),
        evil: pick(g, &[0u32, 8, 4]),
        noise: pick(g, &[0u32, 4]),
        life: pick(g, &[2 * SEC, 200 * MS, 8 * SEC, 20 * MS]),
        end: g.below(3),
        poison: if g.chance(1, 6) { Some((g.below(4), g.below(3))) } else { None },
        stalls: pick(g, &[0u32, 0, 3]),
        surplus: pick(g, &[0u32, 0, 0, 6, 200]),
    });
    describe(&ctx);
    ctx.describe(format!("server {} behaves: {:?}", srv, ms));
    ctx.nontrivial();
    {
        let mut h = env.h();
        h.lax = true;
        for c in h.calls.iter_mut() {
            c.excused = true;
        }
        for g in h.groups.values_mut() {
            g.returned = u32::MAX / 2;
        }
    }
    if !boot_these(&env, &lib).await {
        return;
    }
    simcore::spawn_as(srv, true);
    tokio::spawn(manner_server(env.clone(), srv, 7100, ms, sd));
    sleep_ns(MS).await;
    launch(&env, &w);
    env.wait_jobs(now() + 4000 * SEC).await;
    // connections last 8 s, half-closed ones are kept for a minute
    sleep_ns(100 * SEC).await;
    for n in &lib {
        if !comes_to_rest(&env, *n, 100_000, 0, 0, 60 * SEC, "the servers have closed all connections").await {
            return;
        }
    }
    all_dropped(&env, &lib, &[], false).await;
    memory_is_free(&env);
}
