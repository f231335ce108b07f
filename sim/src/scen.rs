//! The scenarios: what each property's runs do.

use crate::content::*;
use crate::env::*;
use crate::gen::*;
use crate::oracle::*;
use crate::run::*;
use crate::scen_fault;
use crate::scen_hostile;
use crate::scen_keep;
use crate::scen_leak;
use crate::scen_life;
use crate::scen_peer;
use crate::scen_pool;
use crate::scen_tasks;
use crate::scen_reg;
use simcore::{now, with, Ns, MS, SEC};

pub fn find(prop: &str) -> Option<Scenario> {
    Some(match prop {
        "C01" => |c| Box::pin(c01(c)),
        "C02" => |c| Box::pin(c02(c)),
        "C03" => |c| Box::pin(scen_fault::c03(c)),
        "C04" => |c| Box::pin(scen_fault::c04(c)),
        "C05" => |c| Box::pin(scen_fault::c05(c)),
        "C06" => |c| Box::pin(scen_fault::c06(c)),
        "C17" => |c| Box::pin(scen_fault::c17(c)),
        "C07" => |c| Box::pin(c07(c)),
        "C08" => |c| Box::pin(scen_hostile::c08(c)),
        "C09" => |c| Box::pin(scen_hostile::c09(c)),
        "C10" => |c| Box::pin(scen_hostile::c10(c)),
        "C11" => |c| Box::pin(scen_peer::c11(c)),
        "C12" => |c| Box::pin(scen_peer::c12(c)),
        "C13" => |c| Box::pin(scen_reg::c13(c)),
        "C14" => |c| Box::pin(scen_pool::c14(c)),
        "C15" => |c| Box::pin(scen_life::c15(c)),
        "C18" => |c| Box::pin(scen_leak::c18(c)),
        "C19" => |c| Box::pin(scen_keep::c19(c)),
        "C16" => |c| Box::pin(scen_tasks::c16(c)),
        _ => return None,
    })
}

/// Generates nodes, a workload, schedule and network of a profile; boots the nodes.
pub async fn setup(ctx: &Ctx, p: &Prof) -> Option<(Vec<usize>, Vec<usize>, Work, Ns)> {
    let (s, c, w, nc) = {
        let mut g = ctx.g();
        let sc = sched(&mut g);
        let (s, c) = nodes(&mut g, &ctx.env, p);
        let mut callers = c.clone();
        if g.chance(1, 6) {
            // servers call each other too
            callers.extend(s.iter());
        }
        let w = work(&mut g, &ctx.env, p, &callers, &s);
        let nc = net(&mut g, w.bytes);
        set_cfg(sc, nc.clone());
        (s, c, w, nc)
    };
    describe(ctx);
    if !ctx.env.boot_all().await {
        ctx.env.viol("server-not-listening", "a server was started but does not listen 30 s later");
        return None;
    }
    // attempts to reach a host that refuses go on for 30 s
    let refused = ctx.env.h().calls.iter().filter(|c| c.spec.expect == crate::env::Expect::NoHost).count() as u64;
    let bound = time_bound(&w, &nc) + refused * 31 * SEC;
    Some((s, c, w, bound))
}

pub fn describe(ctx: &Ctx) {
    let h = ctx.env.h();
    for (i, n) in h.nodes.iter().enumerate() {
        if let Some(s) = &n.spec {
            let regs: Vec<String> =
                s.regs.iter().map(|r| format!("{}/{}:{:?}{}", brief_service(&r.service), brief_service(&r.ep), r.fmt, if r.asynch { "" } else { " sync" })).collect();
            ctx.describe(format!("node {}: {} {:?} handlers {:?}", i, if s.server { "server" } else { "client" }, s.cfg, regs));
        }
    }
    with(|w| {
        ctx.describe(format!("schedule {:?}", w.sched));
        ctx.describe(format!("network {:?}", w.netcfg));
    });
}

pub async fn faultless(ctx: &Ctx, p: &Prof) {
    let (_, _, w, bound) = match setup(ctx, p).await {
        Some(x) => x,
        None => return,
    };
    if w.calls > 1 {
        ctx.nontrivial();
    }
    launch(&ctx.env, &w);
    let done = ctx.env.wait_jobs(now() + bound).await;
    if !done {
        ctx.env.probe("not-done-in-time");
    }
    all_served(&ctx.env, !done);
}

async fn c01(ctx: Ctx) {
    if ctx.g().below(96) == 95 {
        let frames = pick(&mut ctx.g(), &[320, 320, 320, 700]);
        // messages of hundreds of frames
        let p = Prof { jobs: (1, 1), calls: 1, max_calls: 2, max_frames: frames, big: 16, par: 4, eps: 1, delays: vec![0], fbs: vec![100, 1, 3, 1000], ..Prof::default() };
        with(|w| w.count("work.huge_messages"));
        return faultless(&ctx, &p).await;
    }
    let p = Prof { jobs: (1, 2), calls: 2, max_calls: 6, max_frames: 5, big: 10, par: 2, delays: vec![0, 0, MS], long: 1, ..Prof::default() };
    faultless(&ctx, &p).await;
}

/// A great many small calls on one connection, which never comes to an end, some of them slow.
pub async fn marathon(ctx: &Ctx) {
    let env = ctx.env.clone();
    let (jobs, until) = {
        let mut g = ctx.g();
        let sc = sched(&mut g);
        let p = Prof { services: 1, eps: 1, json: 0, lifetimes: vec![None], max_conn: vec![1, 1, 2], ..Prof::default() };
        let (s, c) = nodes(&mut g, &env, &p);
        env.h().nodes[s[0]].spec.as_mut().unwrap().regs = vec![Reg { service: "svc".into(), ep: "ep".into(), fmt: Fmt::Raw, asynch: true }];
        // seldom more than fit into two bytes
        let n = match g.below(64) {
            63 => 66_000 + g.below(2000),
            k if k < 16 => 4100 + g.below(1000),
            k if k < 32 => 2050 + g.below(100),
            _ => 1000 + g.below(600),
        };
        let par = 1 + g.below(6);
        let slow = pick(&mut g, &[0u32, 0, 1, 3]);
        let sc = simcore::SchedCfg { max_polls: 6_000_000, yield_gap: if n > 5000 { 0 } else { sc.yield_gap }, ..sc };
        set_cfg(sc, simcore::NetCfg { lat_min: 20_000, lat_max: 20_000 + 30_000 * g.below(2) as u64, ..simcore::NetCfg::default() });
        let addr = addr(&env, s[0]);
        let mut add = |k: u32, delay: Ns| {
            let req = make(Fmt::Raw, "ep", 70_000_000 + k as u64, 2, 12);
            let reply = make(Fmt::Raw, "r", k as u64, 1, 12);
            env.h().add_call(CallSpec {
                client: c[0],
                server: s[0],
                addr,
                service: "svc".into(),
                req,
                resp: Resp { delay, out: Out::Ok, reply, fwd: None },
                expect: Expect::Served,
                cancel: None,
            })
        };
        let mut jobs: Vec<Vec<usize>> = vec![];
        for j in 0..par {
            jobs.push((0..n / par).map(|k| add(j * n + k, 0)).collect());
        }
        let tasks = env.h().nodes[s[0]].spec.as_ref().unwrap().cfg.tasks as u32;
        if tasks == 0 || tasks > slow {
            for j in 0..slow {
                let d = pick(&mut g, &[5 * SEC, 300 * MS, 40 * SEC]);
                let k = if d >= 5 * SEC { 3 } else { 20 };
                jobs.push((0..k).map(|k| add(1_000_000 * (j + 1) + k, d)).collect());
            }
        }
        let jobs: Vec<(usize, Vec<usize>)> = jobs.into_iter().map(|v| (c[0], v)).collect();
        ctx.describe(format!("{} calls in {} rows, {} of them slow ones", n, jobs.len(), slow));
        (jobs, 400 * SEC + n as u64 * 2 * MS)
    };
    describe(ctx);
    ctx.nontrivial();
    if !env.boot_all().await {
        env.viol("server-not-listening", "a server was started but does not listen 30 s later");
        return;
    }
    for (node, calls) in jobs {
        let env2 = env.clone();
        env.job(node, async move {
            for id in calls {
                if let Some(c) = env2.chan(node) {
                    env2.call(c, id).await;
                }
            }
        });
    }
    let done = env.wait_jobs(now() + until).await;
    with(|w| w.count("net.long_connections"));
    all_served(&env, !done);
}

/// Hundreds of calls at once.
async fn crowd(ctx: &Ctx) {
    let env = ctx.env.clone();
    let (jobs, until) = {
        let mut g = ctx.g();
        let sc = sched(&mut g);
        let p = Prof { clients: (1, 2), services: 2, eps: 4, json: 2, fbs: vec![100, 1, 3, 1000], max_conn: vec![1, 1, 2, 10], ..Prof::default() };
        let (s, c) = nodes(&mut g, &env, &p);
        let n = pick(&mut g, &[130u32, 260, 300, 600, 1100]);
        let d = pick(&mut g, &[0, 0, MS, 100 * MS]);
        let sc = simcore::SchedCfg { max_polls: 6_000_000, ..sc };
        set_cfg(sc, simcore::NetCfg { lat_min: 20_000, lat_max: 20_000 + 30_000 * g.below(2) as u64, ..simcore::NetCfg::default() });
        let addr = addr(&env, s[0]);
        let regs = env.h().nodes[s[0]].spec.as_ref().unwrap().regs.clone();
        let mut jobs = vec![];
        for k in 0..n {
            let reg = &regs[k as usize % regs.len()];
            let req = make(reg.fmt, &reg.ep, 71_000_000 + k as u64, 8, 40);
            let reply = make(reg.fmt, "r", k as u64, 8, 40);
            let delay = if reg.asynch { d } else { 0 };
            let client = c[k as usize % c.len()];
            let id = env.h().add_call(CallSpec {
                client,
                server: s[0],
                addr,
                service: reg.service.clone(),
                req,
                resp: Resp { delay, out: Out::Ok, reply, fwd: None },
                expect: Expect::Served,
                cancel: None,
            });
            jobs.push((client, id));
        }
        ctx.describe(format!("{} calls at once", n));
        (jobs, 60 * SEC + n as u64 * (d + 5 * MS))
    };
    describe(ctx);
    ctx.nontrivial();
    if !env.boot_all().await {
        env.viol("server-not-listening", "a server was started but does not listen 30 s later");
        return;
    }
    for (node, id) in jobs {
        let env2 = env.clone();
        env.job(node, async move {
            if let Some(c) = env2.chan(node) {
                env2.call(c, id).await;
            }
        });
    }
    let done = env.wait_jobs(now() + until).await;
    with(|w| w.count("work.crowds"));
    all_served(&env, !done);
}

async fn c02(ctx: Ctx) {
    let kind = ctx.g().below(48);
    match kind {
        47 => return marathon(&ctx).await,
        46 => return crowd(&ctx).await,
        _ => {}
    }
    let p = Prof { servers: (1, 2), clients: (1, 3), jobs: (1, 4), calls: 4, max_calls: 30, par: 10, services: 3, eps: 4, forward: 2, long: 1, ..Prof::default() };
    faultless(&ctx, &p).await;
}

async fn c07(ctx: Ctx) {
    let p = Prof { jobs: (1, 3), calls: 4, max_calls: 20, outcomes: 9, eps: 4, servers: (1, 2), forward: 2, long: 1, ..Prof::default() };
    faultless(&ctx, &p).await;
}

pub fn all() -> Vec<&'static str> {
    ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19"]
        .iter()
        .cloned()
        .filter(|p| find(p).is_some())
        .collect()
}

/// Whether a kind of violation says that this property is broken.
pub fn relevant(prop: &str, class: &str) -> bool {
    match class {
        "handler-reentered" => prop == "C16",
        _ => true,
    }
}

pub fn quick_runs(_prop: &str) -> u64 {
    60_000
}

/// How the runs of a property are made, and which of them count as non-trivial.
pub fn rule(prop: &str) -> String {
    let (made, counts) = match prop {
        "C01" => ("1-2 clients each send 1-6 calls, sizes biased to frame boundaries (1 run in 96: hundreds of frames), some handlers and pauses of up to an hour, no faults", "more than one call is made"),
        "C02" => ("1-3 clients, 1-2 servers, up to 30 calls in up to 4 jobs over few connections, handlers that call on before they answer, small buffers and task limits, no faults; 1 run in 48 sends 1000-5000 (seldom 66000) calls over one connection, 1 in 48 has 130-1100 calls at once", "more than one call is made"),
        "C03" => ("calls with breaking connections, killed processes, lost power and cancelled callers at random bytes and moments", "at least one fault or cut was planned"),
        "C04" => ("1-2 clients with calls in flight; connections are cut at random bytes or moments in either direction, or fed with garbage", "every run: each has a planned break or poisoned stream"),
        "C05" => ("random sequences of faults on hosts and links while calls go on (1 run in 16: a host away for minutes to hours, or breaking again and again), then a healthy period with further calls", "every run: each has a sequence of faults"),
        "C06" => ("mixes of servable and unservable calls, among them panicking handlers, requests and replies that cannot be understood and continuations that end in an error, over shared connections", "every run: each has unservable calls"),
        "C07" => ("calls of all formats whose handlers return every kind of outcome", "more than one call is made"),
        "C08" => ("1-4 hostile raw peers send random, mutated and structured streams to a server while other clients call it", "every run: each has hostile peers"),
        "C09" => ("hostile raw servers answer a client in random, mutated and structured ways; the client also calls a healthy host", "every run: each has a hostile server"),
        "C10" => ("raw peers with every kind of first frame against a server, raw servers with every kind of init answer against a client, and streams with interleaved handshakes", "every run: each has a peer with a chosen first frame"),
        "C11" => ("random workloads of library and reference peers, with and without faults; all bytes of all connections are parsed; 1 run in 32 sends 1000-5000 calls on one connection", "more than one call is made"),
        "C12" => ("reference clients and servers that choose random legal encodings: fragment splits, interleavings, order of answers, headers, tracing, late cancels, pings (all answered at rest), peers that rest for minutes within a message, segmentation", "every run: each has a reference peer"),
        "C13" => ("histories of subchannel, register, unregister and call operations of concurrent tasks; handlers may be busy", "every run: each has several operations"),
        "C14" => ("concurrent calls to several hosts with all pool sizes, lifetimes and connection tests; idle connections are killed in a third of the runs", "every run"),
        "C15" => ("histories of start, shutdown, drop and calls of several tasks on several channels, with failing accepts", "every run: each has start and shutdown operations"),
        "C16" => ("slow and fast handlers with all task limits and arrival orders; some callers give up or lose their connection, some servers register and remove handlers meanwhile", "every run: each has slow handlers"),
        "C17" => ("calls of which some are dropped at random moments, before, while or after sending, with all buffer sizes", "more than one call is made"),
        "C18" => ("histories of connects, calls, failures, hostile peers and drops, some of them of channels whose subchannels are kept, then quiet; live tasks, open sockets and held memory are counted", "every run"),
        "C19" => ("the same calls, some of them failing or abandoned, are repeated in 16 rounds on connections that stay open or are reset, among them calls of and to reference and hostile peers, or 900-1700 small calls on one connection; after each round every block of memory, task and socket of the library is counted, and again when all channels were dropped", "every run"),
        _ => ("", ""),
    };
    format!(
        "A run is generated from its seed: nodes, configurations, calls with contents and handler outcomes, schedule (who runs next, preemption, forced yields, time steps), network (latency, segment sizes, buffer sizes) and faults. {}. Runs are distinct by the hash of their executions; a run counts as non-trivial if: {}.",
        made, counts
    )
}
