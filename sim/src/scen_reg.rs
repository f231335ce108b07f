//! Histories of registering, unregistering and calling (C13).

use crate::content::*;
use crate::env::*;
use crate::gen::*;
use crate::oracle::*;
use crate::run::*;
use crate::scen::*;
use crate::scen_fault::fprof;
use simcore::{now, sleep_ns, with, Choices, Ns, MS, SEC, US};
use std::collections::{BTreeMap, HashSet};
use std::net::SocketAddr;
use simcore::hsync::Mutex;
use std::sync::Arc;
use tchannel_rs::SubChannel;

#[derive(Clone, Debug)]
enum Op {
    Sub(usize),
    Reg(usize, usize, bool, Option<Cancel>),
    Unreg(usize, usize, Option<Cancel>),
    Call(usize),
    /// a burst of operations at the same time
    All(Vec<Op>),
    Sleep(Ns),
}

#[derive(Clone, Debug, PartialEq)]
enum Did {
    Registered(usize),
    /// the registration failed
    Refused,
    Unregistered,
    WasMissing,
    /// may have happened or not
    MaybeRegister(usize),
    MaybeUnregister,
    Reached(usize),
    FoundNothing,
}

#[derive(Clone, Debug)]
struct Event {
    key: (usize, usize),
    inv: u64,
    ret: u64,
    did: Did,
    what: String,
}

#[derive(Default)]
struct Log {
    events: Vec<Event>,
    subs: Vec<(usize, usize, Arc<SubChannel>)>,
    calls: Vec<(usize, (usize, usize), u64, u64)>,
}

struct Names {
    services: Vec<String>,
    /// (service, endpoint) -> format
    fmts: BTreeMap<(usize, usize), Fmt>,
    eps: Vec<String>,
}

type Shared = (Env, Arc<Mutex<Log>>, Arc<Names>);

fn tick(env: &Env) -> u64 {
    let mut h = env.h();
    h.seq += 1;
    h.seq
}

fn op(g: &mut Choices, env: &Env, n: &Names, node: usize, server: usize, a: SocketAddr, level: u32, calls: &mut usize) -> Op {
    g.begin();
    let s = g.below(n.services.len() as u32) as usize;
    let e = g.below(n.eps.len() as u32) as usize;
    let local = node == server;
    let cancel = if g.chance(1, 8) { Some(if g.chance(1, 2) { Cancel::Polls(g.below(4)) } else { Cancel::After(g.below(40) as u64 * 10 * US) }) } else { None };
    let o = match g.below(16) {
        0..=3 if local => Op::Reg(s, e, !g.chance(1, 4), cancel),
        4..=6 if local => Op::Unreg(s, e, cancel),
        7 => Op::Sub(s),
        8 | 9 if level == 0 => {
            let k = 2 + g.below(4);
            Op::All((0..k).map(|_| op(g, env, n, node, server, a, 1, calls)).collect())
        }
        10 | 11 if level == 0 => Op::Sleep(pick(g, &[MS, 10 * US, 100 * US, 20 * MS])),
        _ if *calls < 40 => {
            *calls += 1;
            let p = Prof { delays: vec![0, 0, 0, MS, 10 * MS], big: 1, ..Prof::default() };
            Op::Call(plan_call(g, env, &p, n, node, server, a, (s, e)))
        }
        _ => Op::Sleep(MS),
    };
    g.end();
    o
}

#[allow(clippy::too_many_arguments)]
fn plan_call(g: &mut Choices, env: &Env, p: &Prof, n: &Names, client: usize, server: usize, a: SocketAddr, k: (usize, usize)) -> usize {
    let fmt = n.fmts[&k];
    let reg = Reg { service: n.services[k.0].clone(), ep: n.eps[k.1].clone(), fmt, asynch: true };
    let key = env.h().calls.len() as u64 * 7919 + 13;
    let req = make(fmt, &reg.ep, key, 24 + g.below(40) as usize, g.below(200) as usize);
    let rs = resp(g, p, &reg, &req, key);
    env.h().add_call(CallSpec { client, server, addr: a, service: reg.service, req, resp: rs, expect: Expect::Served, cancel: None })
}

fn run_op(sh: Shared, node: usize, o: Op) -> futures::future::BoxFuture<'static, ()> {
    Box::pin(async move {
        let (env, log, n) = sh.clone();
        let chan = match env.chan(node) {
            Some(c) => c,
            None => return,
        };
        let get = |s: usize| {
            let chan = chan.clone();
            let name = n.services[s].clone();
            let env = env.clone();
            let log = log.clone();
            async move {
                match chan.subchannel(&name).await {
                    Ok(x) => {
                        log.lock().unwrap().subs.push((node, s, x.clone()));
                        Some(x)
                    }
                    Err(e) => {
                        env.viol("subchannel-failed", format!("{}: {}", name, e));
                        None
                    }
                }
            }
        };
        match o {
            Op::Sleep(d) => sleep_ns(d).await,
            Op::All(v) => {
                let mut hs = vec![];
                for x in v {
                    simcore::spawn_as(node, true);
                    hs.push(tokio::spawn(run_op(sh.clone(), node, x)));
                }
                for h in hs {
                    let _ = h.await;
                }
            }
            Op::Sub(s) => {
                get(s).await;
            }
            Op::Reg(s, e, asynch, cancel) => {
                let sub = match get(s).await {
                    Some(s) => s,
                    None => return,
                };
                let reg = Reg { service: n.services[s].clone(), ep: n.eps[e].clone(), fmt: n.fmts[&(s, e)], asynch };
                let inv = tick(&env);
                let mut inst = 0;
                let r = limited(register_noting(&env, node, &sub, &reg, &mut inst), cancel).await;
                let ret = tick(&env);
                let did = match &r {
                    Some(Ok(())) => Did::Registered(inst),
                    Some(Err(_)) => Did::Refused,
                    None if inst == 0 => return,
                    None => Did::MaybeRegister(inst),
                };
                event(&env, &log, Event { key: (s, e), inv, ret, did, what: format!("register {:?}/{:?} as {} gives {:?}", reg.service, reg.ep, inst, r) });
            }
            Op::Unreg(s, e, cancel) => {
                let sub = match get(s).await {
                    Some(s) => s,
                    None => return,
                };
                let inv = tick(&env);
                let r = limited(sub.unregister(&n.eps[e]), cancel).await;
                let ret = tick(&env);
                let did = match &r {
                    Some(Ok(())) => Did::Unregistered,
                    Some(Err(_)) => Did::WasMissing,
                    None => Did::MaybeUnregister,
                };
                let r = r.map(|r| r.map_err(|e| e.to_string()));
                event(&env, &log, Event { key: (s, e), inv, ret, did, what: format!("unregister {:?}/{:?} gives {:?}", n.services[s], n.eps[e], r) });
            }
            Op::Call(id) => {
                let key = {
                    let h = env.h();
                    let c = &h.calls[id].spec;
                    let s = n.services.iter().position(|x| *x == c.service).unwrap();
                    let e = n.eps.iter().position(|x| *x == c.req.ep).unwrap();
                    (s, e)
                };
                let inv = tick(&env);
                env.call(chan, id).await;
                let ret = tick(&env);
                log.lock().unwrap().calls.push((id, key, inv, ret));
            }
        }
    })
}

fn event(env: &Env, log: &Arc<Mutex<Log>>, e: Event) {
    env.note(format!("{} ({} - {})", e.what, e.inv, e.ret));
    log.lock().unwrap().events.push(e);
}

pub async fn c13(ctx: Ctx) {
    let env = ctx.env.clone();
    let (server, clients, names, jobs, nc, bytes, busy, replace) = {
        let mut g = ctx.g();
        let sc = sched(&mut g);
        let p = fprof(Prof { servers: (1, 1), clients: (1, 2), services: 1, eps: 1, ..Prof::default() });
        let (s, c) = nodes(&mut g, &env, &p);
        env.h().nodes[s[0]].spec.as_mut().unwrap().regs.clear();
        let ns = 1 + g.below(3) as usize;
        let ne = 1 + g.below(3) as usize;
        let mut services: Vec<String> = vec![];
        for _ in 0..ns {
            let x = pick(&mut g, &["svc", "svc ", "Svc", "", "sv", "svc2", "svcx", "\u{fc}", "u\u{308}"]).to_string();
            if !services.contains(&x) {
                services.push(x);
            }
        }
        let mut eps: Vec<String> = vec![];
        for _ in 0..ne {
            let x = pick(&mut g, &["ep", "ep ", "Ep", "", "e", "ep2", "xep", "svc", "\u{fc}", "u\u{308}"]).to_string();
            if !eps.contains(&x) {
                eps.push(x);
            }
        }
        // many of them at once
        let crowd = g.chance(1, 12);
        if crowd {
            let (ns, ne) = pick(&mut g, &[(1, 20), (1, 80), (3, 12), (20, 2), (60, 1)]);
            for i in services.len()..ns {
                services.push(format!("svc{}", i * 10));
            }
            for i in eps.len()..ne {
                eps.push(format!("ep{}", i * 10));
            }
        }
        let mut fmts = BTreeMap::new();
        for a in 0..services.len() {
            for b in 0..eps.len() {
                fmts.insert((a, b), if g.chance(1, 4) { Fmt::Json } else { Fmt::Raw });
            }
        }
        let names = Names { services, eps, fmts };
        let a = addr(&env, s[0]);
        // requests that are being handled during all of it
        let mut busy = vec![];
        let replace = g.chance(1, 2);
        if g.chance(1, 3) {
            let k = 1 + g.below(3) as usize;
            env.h().nodes[s[0]].spec.as_mut().unwrap().cfg.tasks = pick(&mut g, &[0, 16, 4]);
            for i in 0..k {
                let service = names.services[g.below(names.services.len() as u32) as usize].clone();
                let reg = Reg { service: service.clone(), ep: format!("busy{}", i), fmt: Fmt::Raw, asynch: true };
                env.h().nodes[s[0]].spec.as_mut().unwrap().regs.push(reg.clone());
                let req = make(Fmt::Raw, &reg.ep, 77_000 + i as u64, 30, 30);
                let resp = Resp { delay: 1_000_000 * SEC, out: Out::Ok, reply: req.clone(), fwd: None };
                let client = c[g.below(c.len() as u32) as usize];
                let id = env.h().add_call(CallSpec { client, server: s[0], addr: a, service, req, resp, expect: Expect::Served, cancel: None });
                env.h().calls[id].excused = true;
                busy.push(id);
            }
        }
        let mut jobs: Vec<(usize, Vec<Op>)> = vec![];
        let mut calls = 0;
        if crowd {
            jobs.push((s[0], names.fmts.keys().map(|k| Op::Reg(k.0, k.1, true, None)).collect()));
        }
        for k in 0..2 + g.below(5) {
            g.begin();
            let node = if k == 0 || g.chance(2, 3) { s[0] } else { c[g.below(c.len() as u32) as usize] };
            let m = 1 + g.below(8);
            let v = (0..m).map(|_| op(&mut g, &env, &names, node, s[0], a, 0, &mut calls)).collect();
            jobs.push((node, v));
            g.end();
        }
        let bytes: usize = 100_000 + env.h().calls.iter().map(|c| c.spec.req.len() + c.spec.resp.reply.len() + 400).sum::<usize>();
        let nc = net(&mut g, bytes);
        set_cfg(sc, nc.clone());
        (s[0], c, names, jobs, nc, bytes, busy, replace)
    };
    describe(&ctx);
    if names.fmts.len() > 9 {
        with(|w| w.count("registry.many_endpoints"));
    }
    for (n, v) in &jobs {
        ctx.describe(format!("task on node {}: {:?}", n, v));
    }
    ctx.describe(format!("services {:?} endpoints {:?}", names.services, names.eps));
    ctx.nontrivial();
    if !env.boot_all().await {
        env.viol("server-not-listening", "a server was started but does not listen 30 s later");
        return;
    }
    let names = Arc::new(names);
    let log: Arc<Mutex<Log>> = Arc::default();
    let sh: Shared = (env.clone(), log.clone(), names.clone());
    for id in &busy {
        let node = env.h().calls[*id].spec.client;
        let (id, env2) = (*id, env.clone());
        spawn_h(node, async move {
            if let Some(c) = env2.chan(node) {
                env2.call(c, id).await;
            }
        });
    }
    if !busy.is_empty() {
        let w = Work { bytes, calls: busy.len(), ..Work::default() };
        sleep_ns(time_bound(&w, &nc)).await;
        with(|w| w.count_n("registry.handlers_busy", busy.len() as u64));
    }
    for (node, v) in jobs {
        let sh = sh.clone();
        env.job(node, async move {
            for o in v {
                run_op(sh.clone(), node, o).await;
            }
        });
    }
    let n = env.h().calls.len();
    let w = Work { bytes, calls: n + names.fmts.len(), delays: SEC * n as u64, ..Work::default() };
    let bound = time_bound(&w, &nc) + 60 * SEC;
    let done = env.wait_jobs(now() + bound).await;
    if !done {
        env.viol("registry-stuck", format!("operations and calls do not end within {:.1} s", bound as f64 / 1e9));
    } else {
        // what is registered in the end
        for k in names.fmts.keys() {
            let id = {
                let mut g = ctx.g();
                let p = Prof { delays: vec![0], big: 0, ..Prof::default() };
                plan_call(&mut g, &env, &p, &names, clients[0], server, addr(&env, server), *k)
            };
            let sh = sh.clone();
            let node = clients[0];
            env.job(node, async move { run_op(sh, node, Op::Call(id)).await });
        }
        if !env.wait_jobs(now() + bound).await {
            env.viol("call-hangs", "calls after all operations do not end");
        }
    }
    if replace {
        if let Some(id) = busy.first() {
            let id = *id;
            let env2 = env.clone();
            env.job(server, async move { replaced(env2, server, id).await });
            if !env.wait_jobs(now() + bound).await {
                env.viol("registry-stuck", "the handler of an endpoint is to be replaced while it handles a request; that does not end");
            }
        }
    }
    let mut log = log.lock().unwrap();
    same_subchannels(&env, &log, &names);
    reads(&env, &mut log);
    let mut by_key: BTreeMap<(usize, usize), Vec<Event>> = BTreeMap::new();
    for e in &log.events {
        by_key.entry(e.key).or_default().push(e.clone());
    }
    for (k, v) in by_key {
        with(|w| w.count_n("registry.operations", v.len() as u64));
        match linearizable(&v) {
            Some(true) => with(|w| w.count("registry.endpoint_histories")),
            None => env.probe("history-too-large"),
            Some(false) => {
                let mut v = v;
                v.sort_by_key(|e| e.inv);
                let t: Vec<String> = v.iter().map(|e| format!("{}-{} {}", e.inv, e.ret, e.what)).collect();
                env.viol(
                    "registry-not-consistent",
                    format!("no order of these operations explains their results at {:?}/{:?}: {}", names.services[k.0], names.eps[k.1], t.join("; ")),
                );
            }
        }
    }
}

/// Another handler takes the place of one that handles a request.
async fn replaced(env: Env, server: usize, busy: usize) {
    let (spec, chan) = match env.chan(server) {
        Some(c) => (env.h().calls[busy].spec.clone(), c),
        None => return,
    };
    let sub = match chan.subchannel(&spec.service).await {
        Ok(s) => s,
        Err(e) => return env.viol("subchannel-failed", format!("{}: {}", spec.service, e)),
    };
    let reg = Reg { service: spec.service.clone(), ep: spec.req.ep.clone(), fmt: Fmt::Raw, asynch: true };
    if register(&env, server, &sub, &reg).await.is_ok() {
        return env.viol("registered-twice", format!("{}/{}", reg.service, reg.ep));
    }
    if let Err(e) = sub.unregister(&reg.ep).await {
        return env.viol("unregister-failed", format!("{}/{}: {}", reg.service, reg.ep, e));
    }
    let inst = match register(&env, server, &sub, &reg).await {
        Ok(i) => i,
        Err(e) => return env.viol("register-failed", format!("{}/{}: {}", reg.service, reg.ep, e)),
    };
    let req = make(Fmt::Raw, &reg.ep, 78_000, 30, 30);
    let reply = make(Fmt::Raw, "r", 78_001, 30, 30);
    let resp = Resp { delay: 0, out: Out::Ok, reply, fwd: None };
    let id = env.h().add_call(CallSpec { client: spec.client, req, resp, ..spec });
    if let Some(o) = env.call_there(id).await {
        judge(&mut env.h(), id, "call to an endpoint whose handler was replaced", &o);
    }
    let ran: Vec<usize> = env.h().invs.iter().filter(|i| i.call == Some(id)).map(|i| i.inst).collect();
    if ran != [inst] {
        env.viol("wrong-handler", format!("handlers {:?} ran after {} was registered", ran, inst));
    }
    with(|w| w.count("registry.handlers_replaced"));
}

fn same_subchannels(env: &Env, log: &Log, names: &Names) {
    let mut of: BTreeMap<(usize, usize), usize> = BTreeMap::new();
    let mut back: BTreeMap<usize, (usize, usize)> = BTreeMap::new();
    for (node, s, x) in &log.subs {
        let p = Arc::as_ptr(x) as usize;
        if *of.entry((*node, *s)).or_insert(p) != p {
            env.viol("two-subchannels", format!("node {} has got two different subchannels for service {:?}", node, names.services[*s]));
        }
        if *back.entry(p).or_insert((*node, *s)) != (*node, *s) {
            env.viol("shared-subchannel", format!("node {}: services {:?} and {:?} share a subchannel", node, names.services[*s], names.services[back[&p].1]));
        }
        with(|w| w.count("registry.subchannels"));
    }
}

/// What each call says about the registry.
fn reads(env: &Env, log: &mut Log) {
    let calls = log.calls.clone();
    for (id, key, inv, ret) in calls {
        let c = env.h().calls[id].clone();
        let ran: Vec<(usize, u64)> = env.h().invs.iter().filter(|i| i.call == Some(id)).map(|i| (i.inst, i.seq_enter)).collect();
        let what = format!("call {} of {:?}/{:?}", id, c.spec.service, c.spec.req.ep);
        let o = match &c.outcome {
            Some(o) => o.clone(),
            None => continue,
        };
        match &o {
            Outcome::Ok(_) | Outcome::MsgErr(_) | Outcome::Panicked => judge(&mut env.h(), id, &what, &o),
            o if !ran.is_empty() => env.viol("call-failed", format!("{}: handler succeeded, caller got {}", what, o.brief())),
            _ => {}
        }
        let e = match ran.first() {
            Some((inst, at)) => Event { key, inv, ret: *at, did: Did::Reached(*inst), what: format!("{} reaches handler {}", what, inst) },
            None => Event { key, inv, ret, did: Did::FoundNothing, what: format!("{} gets {}", what, o.brief()) },
        };
        log.events.push(e);
    }
}

/// Whether some order that respects which operation ended before another began explains all results.
fn linearizable(v: &[Event]) -> Option<bool> {
    if v.len() > 62 {
        return None;
    }
    let all: u64 = (1 << v.len()) - 1;
    let mut seen: HashSet<(u64, usize)> = HashSet::new();
    let mut stack = vec![(0u64, 0usize)];
    while let Some((done, state)) = stack.pop() {
        if done == all {
            return Some(true);
        }
        if !seen.insert((done, state)) {
            continue;
        }
        if seen.len() > 400_000 {
            return None;
        }
        let first_ret = v.iter().enumerate().filter(|(i, _)| done & (1 << i) == 0).map(|(_, e)| e.ret).min().unwrap();
        for (i, e) in v.iter().enumerate() {
            if done & (1 << i) != 0 || e.inv > first_ret {
                continue;
            }
            let d = done | (1 << i);
            match e.did {
                Did::Registered(x) if state == 0 => stack.push((d, x)),
                Did::Refused if state != 0 => stack.push((d, state)),
                Did::Unregistered if state != 0 => stack.push((d, 0)),
                Did::WasMissing if state == 0 => stack.push((d, 0)),
                Did::Reached(x) if state == x => stack.push((d, state)),
                Did::FoundNothing if state == 0 => stack.push((d, 0)),
                Did::MaybeRegister(x) => {
                    stack.push((d, state));
                    if state == 0 {
                        stack.push((d, x));
                    }
                }
                Did::MaybeUnregister => {
                    stack.push((d, state));
                    stack.push((d, 0));
                }
                _ => {}
            }
        }
    }
    Some(false)
}
