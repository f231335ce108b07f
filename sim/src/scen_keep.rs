//! What is kept for calls and connections that are over (C19).

use crate::content::*;
use crate::env::*;
use crate::gen::*;
use crate::hostile::Target;
use crate::peer::*;
use crate::run::*;
use crate::scen::*;
use crate::scen_fault::fprof;
use crate::scen_hostile::{attack, attacks};
use crate::scen_peer::*;
use simcore::{now, sleep_ns, with, Ns, MS, SEC};

#[derive(Clone, Debug)]
struct Rest {
    blocks: i64,
    bytes: i64,
    tasks: usize,
    socks: usize,
}

fn rest(lib: &[usize]) -> Rest {
    let (blocks, bytes) = simcore::mem::held();
    let (tasks, socks) = with(|w| (lib.iter().map(|n| w.live_tasks(*n)).sum(), lib.iter().map(|n| w.open_socks(*n)).sum()));
    Rest { blocks, bytes, tasks, socks }
}

pub async fn c19(ctx: Ctx) {
    let env = ctx.env.clone();
    let mode = ctx.g().below(9);
    if mode == 8 {
        return many(ctx).await;
    }
    let broken = mode >= 6;
    let visited = mode == 5;
    let p = fprof(Prof {
        servers: (1, 1),
        clients: (1, 2),
        jobs: (1, 3),
        calls: 4,
        max_calls: 14,
        max_frames: 2,
        big: 2,
        par: 8,
        outcomes: 4,
        unservable: 2,
        cancels: 6,
        panics: if broken { 1 } else { 0 },
        test_p: 3,
        max_conn: vec![1, 1, 2],
        lifetimes: vec![None],
        gaps: vec![0, 0, MS, 20 * MS],
        patience: Some(100 * SEC),
        ..Prof::default()
    });
    let (lib, w, fservers, plans, resets, attacks, target) = {
        let mut g = ctx.g();
        let sc = sched(&mut g);
        let (s, c) = nodes(&mut g, &env, &p);
        let mut targets = s.clone();
        let mut fs = vec![];
        if g.chance(1, 3) {
            let regs = two_regs(&mut g, p.json);
            let n = foreign(&env, true, 7100, regs);
            fs.push((n, seed(&mut g)));
            targets.push(n);
        }
        let w = work(&mut g, &env, &p, &c, &targets);
        // a pool keeps those who wait for a host that cannot be reached until it can be reached
        let dead: Vec<usize> = {
            let h = env.h();
            (0..h.calls.len()).filter(|i| h.calls[*i].spec.expect == Expect::NoHost).collect()
        };
        for i in dead {
            let n = env.h().calls[i].spec.server;
            let a = addr(&env, n);
            let mut h = env.h();
            h.calls[i].spec.addr = a;
            h.calls[i].spec.expect = Expect::Served;
        }
        let odds = pick(&mut g, &[0u32, 4, 10]);
        for x in env.h().calls.iter_mut() {
            if fs.iter().any(|f| f.0 == x.spec.server) && g.chance(odds, 16) {
                x.spec.expect = Expect::BadReply;
            }
        }
        let mut plans = vec![];
        if g.chance(1, 3) {
            let n = foreign(&env, false, 0, vec![]);
            let k = 1 + g.below(4);
            let calm = Prof { panics: 0, cancels: 0, patience: None, unservable: 0, ..p.clone() };
            let calls: Vec<usize> = (0..k).map(|_| call(&mut g, &env, &calm, n, &s)).collect();
            plans.push((n, s[0], calls, seed(&mut g)));
        }
        let resets: Vec<Ns> = if broken { (0..1 + g.below(3)).map(|_| pick(&mut g, &[MS, 5 * MS, 30 * MS, 300 * MS])).collect() } else { vec![] };
        let attacks = if visited { attacks(&mut g, &env, &p, s[0]) } else { vec![] };
        let regs = env.h().nodes[s[0]].spec.as_ref().unwrap().regs.clone();
        let mut lib = s.clone();
        lib.extend(c);
        let mut w2 = w.clone();
        note_calls(&ctx, &mut w2);
        let nc = net(&mut g, (w2.bytes * 2 + 30_000) * ROUNDS);
        set_cfg(simcore::SchedCfg { max_polls: 6_000_000, ..sc }, nc);
        (lib, w, fs, plans, resets, attacks, Target { regs })
    };
    {
        let mut h = env.h();
        h.lax = true;
        for c in h.calls.iter_mut() {
            c.may_fail = true;
            c.excused = true;
        }
    }
    describe(&ctx);
    ctx.describe(format!("foreign servers {:?}, foreign clients {:?}, resets {:?}", fservers, plans, resets));
    for a in &attacks {
        ctx.describe(format!("{:?}", a));
    }
    ctx.nontrivial();
    if !boot_these(&env, &lib).await {
        return;
    }
    for (n, sd) in &fservers {
        simcore::spawn_as(*n, true);
        tokio::spawn(legal_server(env.clone(), *n, at(*n, 7100), *sd));
    }
    sleep_ns(MS).await;
    let mut all: Vec<Rest> = vec![];
    for i in 0..ROUNDS {
        new_names(&env, i);
        launch(&env, &w);
        for (n, s, calls, sd) in &plans {
            let a = addr(&env, *s);
            env.job(*n, odd_client(env.clone(), a, calls.clone(), *sd, now() + 300 * SEC, 3));
        }
        for a in &attacks {
            env.job(a.node, attack(env.clone(), a.clone(), target.clone()));
        }
        for t in &resets {
            sleep_ns(*t).await;
            let v: Vec<usize> = with(|w| w.conns.iter().filter(|c| c.ends.iter().all(|e| !e.closed && !e.gone && !e.dead && !e.harness)).map(|c| c.id).collect());
            if let Some(c) = v.last() {
                with(|w| w.reset_conn(*c));
            }
        }
        if !env.wait_jobs(now() + 1000 * SEC).await || !comes_to_rest(&env).await {
            env.probe("no-rest");
            return;
        }
        if broken {
            // until pools have given up their connections
            sleep_ns(700 * SEC).await;
        }
        all.push(rest(&lib));
    }
    grows(&env, &all);
    nothing_left(&env, &lib).await;
}

const ROUNDS: usize = 16;
/// the first rounds may still open connections and fill buffers
const WARM: usize = 3;

/// The same calls again and again must not leave more and more.
fn grows(env: &Env, all: &[Rest]) {
    let (a, b) = (&all[WARM], &all[all.len() - 1]);
    let rounds = all.len() - 1 - WARM;
    let socks = (b.socks as i64 - a.socks as i64).max(0);
    let blocks = b.blocks - a.blocks;
    with(|w| w.count("keep.growth_checked"));
    if b.tasks as i64 - a.tasks as i64 > 3 * socks + 3 {
        env.viol("tasks-grow", format!("{} tasks after round {}, {} after {} more rounds of the same calls ({} new connections)", a.tasks, WARM + 1, b.tasks, rounds, socks));
    }
    if socks > 6 {
        env.viol("connections-grow", format!("{} sockets after round {}, {} after {} more rounds of the same calls", a.socks, WARM + 1, b.socks, rounds));
    }
    // queues keep up to three spare blocks each
    let tasks = (b.tasks as i64 - a.tasks as i64).clamp(0, 3);
    if blocks > 6 + 3 * b.socks as i64 + 20 * socks + 12 * tasks {
        env.viol(
            "memory-grows",
            format!(
                "{} blocks of memory ({} bytes) are held after round {}, {} ({} bytes) after {} more rounds of the same calls ({} new connections); blocks after each round: {:?}; held in the end (size, blocks): {:?}",
                a.blocks,
                a.bytes,
                WARM + 1,
                b.blocks,
                b.bytes,
                rounds,
                socks,
                all.iter().map(|r| r.blocks).collect::<Vec<_>>(),
                simcore::mem::sizes()
            ),
        );
    }
}

/// Endpoints that do not exist have other names each time.
fn new_names(env: &Env, round: usize) {
    let servers = env.servers();
    for c in env.h().calls.iter_mut() {
        if servers.contains(&c.spec.server) && c.spec.expect == Expect::NoEndpoint && c.spec.req.ep.len() < 1000 {
            let mut ep = c.spec.req.ep.clone();
            ep.truncate(ep.find("#round").unwrap_or(ep.len()));
            c.spec.req.ep = format!("{}#round{}", ep, round);
        }
    }
}

/// Once all channels are dropped their memory is free.
async fn nothing_left(env: &Env, lib: &[usize]) {
    for n in lib {
        env.drop_chan(*n);
    }
    sleep_ns(100 * SEC).await;
    let r = rest(lib);
    with(|w| w.count("keep.ends_checked"));
    if r.blocks > 8 {
        env.viol(
            "memory-left",
            format!("{} blocks of memory ({} bytes) are still held 100 s after all channels were dropped, of (size, blocks): {:?}", r.blocks, r.bytes, simcore::mem::sizes()),
        );
    }
}

/// Many small calls on a few connections: not even a few bytes may stay for each.
async fn many(ctx: Ctx) {
    let env = ctx.env.clone();
    let rounds = 10;
    let (lib, jobs, per) = {
        let mut g = ctx.g();
        let sc = sched(&mut g);
        let p = Prof { services: 1, eps: 1, json: 0, lifetimes: vec![None], max_conn: vec![1, 1, 2], ..Prof::default() };
        let (s, c) = nodes(&mut g, &env, &p);
        env.h().nodes[s[0]].spec.as_mut().unwrap().regs = vec![Reg { service: "svc".into(), ep: "ep".into(), fmt: Fmt::Raw, asynch: true }];
        let kind = g.below(4);
        let n = 90 + g.below(80);
        let par = 1 + g.below(6);
        set_cfg(
            simcore::SchedCfg { max_polls: 6_000_000, ..sc },
            simcore::NetCfg { lat_min: 20_000, lat_max: 20_000 + 30_000 * g.below(2) as u64, ..simcore::NetCfg::default() },
        );
        let addr = addr(&env, s[0]);
        let odds = g.below(8);
        let mut jobs: Vec<Vec<usize>> = vec![];
        for j in 0..par {
            let mut v = vec![];
            for k in 0..n / par {
                let k = j * n + k;
                let served = kind == 0 || !g.chance(odds, 16);
                let (service, ep) = match kind {
                    1 if !served => ("no such service", "ep"),
                    2 if !served => ("svc", "no such endpoint"),
                    _ => ("svc", "ep"),
                };
                let cancel = if kind == 3 && !served { Some(if g.chance(1, 2) { Cancel::Polls(g.below(12)) } else { Cancel::After(g.below(64) as u64 * 20_000) }) } else { None };
                v.push(env.h().add_call(CallSpec {
                    client: c[0],
                    server: s[0],
                    addr,
                    service: service.into(),
                    req: make(Fmt::Raw, ep, 70_000_000 + k as u64, 2, 12),
                    resp: Resp { delay: 0, out: Out::Ok, reply: make(Fmt::Raw, "r", k as u64, 1, 12), fwd: None },
                    expect: if ep == "ep" { Expect::Served } else { Expect::NoEndpoint },
                    cancel,
                }));
            }
            jobs.push(v);
        }
        ctx.describe(format!("{} rounds of {} calls in {} rows, of kind {}, {} of 16 of them not served", rounds, n, par, kind, odds));
        let mut lib = s.clone();
        lib.extend(&c);
        (lib, jobs.into_iter().map(|v| (c[0], v)).collect::<Vec<_>>(), n)
    };
    {
        let mut h = env.h();
        h.lax = true;
        for c in h.calls.iter_mut() {
            c.may_fail = true;
            c.excused = true;
        }
    }
    describe(&ctx);
    ctx.nontrivial();
    if !boot_these(&env, &lib).await {
        return;
    }
    let mut all = vec![];
    for i in 0..rounds {
        new_names(&env, i);
        for (node, calls) in &jobs {
            let (env2, node, calls) = (env.clone(), *node, calls.clone());
            env.job(node, async move {
                for id in calls {
                    if let Some(c) = env2.chan(node) {
                        env2.call(c, id).await;
                    }
                }
            });
        }
        if !env.wait_jobs(now() + 1000 * SEC).await || !comes_to_rest(&env).await {
            env.probe("no-rest");
            return;
        }
        all.push(rest(&lib));
    }
    grows(&env, &all);
    let (a, b) = (&all[WARM], &all[rounds - 1]);
    with(|w| w.count("keep.bytes_checked"));
    if b.socks <= a.socks && b.bytes - a.bytes > 6000 {
        env.viol(
            "memory-grows",
            format!(
                "{} bytes are held after {} small calls, {} bytes after {}; blocks (size, number): {:?}",
                a.bytes,
                (WARM as u32 + 1) * per,
                b.bytes,
                rounds as u32 * per,
                simcore::mem::sizes()
            ),
        );
    }
    nothing_left(&env, &lib).await;
}
