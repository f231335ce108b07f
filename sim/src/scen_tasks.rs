//! How many requests are handled at a time, and in which order (C16).

use crate::content::*;
use crate::env::*;
use crate::gen::*;
use crate::oracle::*;
use crate::peer::*;
use crate::raw::*;
use crate::run::*;
use crate::scen::*;
use crate::scen_fault::fprof;
use crate::scen_peer::*;
use crate::wire::*;
use simcore::{now, sleep_ns, sleep_until, with, Choices, NetCfg, Ns, MS, SEC};
use std::collections::BTreeMap;

pub async fn c16(ctx: Ctx) {
    let k = ctx.g().below(8);
    match k {
        0 | 1 => mixed(ctx).await,
        2 | 3 => exact(ctx).await,
        4 => slow_and_fast(ctx).await,
        5 => uploads(ctx).await,
        6 => turns(ctx).await,
        _ => interrupted(ctx).await,
    }
}

/// The most invocations that ran at the same time, per connection.
fn most(env: &Env, server: usize) -> BTreeMap<usize, usize> {
    let h = env.h();
    let mut ev: BTreeMap<usize, BTreeMap<u64, i64>> = BTreeMap::new();
    let mut sent: BTreeMap<usize, Vec<SentCall>> = BTreeMap::new();
    for i in h.invs.iter().filter(|i| i.node == server) {
        if let Some(c) = i.call {
            let s = sent.entry(h.calls[c].spec.client).or_insert_with(|| sent_calls(h.calls[c].spec.client));
            // idle connections are closed and new ones made
            let key = match find_sent(s, &h.calls[c]) {
                Some(s) => s.conn,
                // clients played by the harness have one connection
                None if s.is_empty() => 1_000_000 + h.calls[c].spec.client,
                None => continue,
            };
            let e = ev.entry(key).or_default();
            *e.entry(i.seq_enter).or_insert(0) += 1;
            if i.exit.is_some() {
                *e.entry(i.seq_exit).or_insert(0) -= 1;
            }
        }
    }
    ev.into_iter()
        .map(|(n, e)| {
            let (mut cur, mut max) = (0i64, 0i64);
            for d in e.values() {
                cur += d;
                max = max.max(cur);
            }
            (n, max as usize)
        })
        .collect()
}

/// No more requests of a connection than the server has tasks may run at a time.
fn within_limit(env: &Env, server: usize) {
    let tasks = env.h().nodes[server].spec.as_ref().unwrap().cfg.tasks;
    for (conn, n) in most(env, server) {
        if tasks > 0 && n > tasks {
            env.viol("too-many-handlers", format!("{} handlers run at the same time for connection {}; the limit is {}", n, conn, tasks));
        }
        if n == tasks {
            with(|w| w.count("tasks.limit_reached"));
        }
        with(|w| w.count("tasks.connections_checked"));
    }
}

async fn mixed(ctx: Ctx) {
    let p = fprof(Prof {
        clients: (1, 3),
        jobs: (1, 4),
        calls: 4,
        max_calls: 40,
        par: 11,
        big: 2,
        tasks: vec![1, 2, 3, 4, 0],
        max_conn: vec![1],
        lifetimes: vec![None],
        cancels: 2,
        outcomes: 2,
        unservable: 1,
        delays: vec![0, MS, 10 * MS, 100 * MS, SEC],
        eps: 8,
        ..Prof::default()
    });
    let (s, _, w, bound) = match setup(&ctx, &p).await {
        Some(x) => x,
        None => return,
    };
    ctx.nontrivial();
    launch(&ctx.env, &w);
    let done = ctx.env.wait_jobs(now() + bound).await;
    all_served(&ctx.env, !done);
    within_limit(&ctx.env, s[0]);
}

struct World {
    server: usize,
    clients: Vec<usize>,
    eps: usize,
    tasks: usize,
    nc: NetCfg,
}

/// A server with many endpoints of one service and clients with one connection each.
fn small(g: &mut Choices, env: &Env, clients: (u32, u32), tasks: &[usize], bytes: usize) -> World {
    let sc = sched(g);
    let p = fprof(Prof {
        clients,
        tasks: tasks.to_vec(),
        max_conn: vec![1],
        lifetimes: vec![None],
        services: 1,
        eps: 1,
        ..Prof::default()
    });
    let (s, c) = nodes(g, env, &p);
    let eps = 14;
    let tasks = {
        let mut h = env.h();
        let spec = h.nodes[s[0]].spec.as_mut().unwrap();
        let fmt = spec.regs[0].fmt;
        spec.regs = (0..eps)
            .map(|e| Reg { service: service_name(0), ep: format!("ep{}", e), fmt: if e % 3 == 0 { fmt } else { Fmt::Raw }, asynch: true })
            .collect();
        spec.cfg.tasks
    };
    let nc = net(g, bytes);
    set_cfg(sc, nc.clone());
    World { server: s[0], clients: c, eps, tasks, nc }
}

fn plan(g: &mut Choices, env: &Env, w: &World, client: usize, ep: usize, delay: Ns, big: bool) -> usize {
    let reg = env.h().nodes[w.server].spec.as_ref().unwrap().regs[ep].clone();
    let key = env.h().calls.len() as u64 * 7919 + 13;
    let n = if big { 60_000 + g.below(20_000) as usize } else { g.below(300) as usize };
    let req = make(reg.fmt, &reg.ep, key, 24, n);
    let reply = make(reg.fmt, "r", key ^ 0x5555, 10, g.below(300) as usize);
    let resp = Resp { delay, out: Out::Ok, reply, fwd: None };
    let addr = addr(env, w.server);
    env.h().add_call(CallSpec {
        client,
        server: w.server,
        addr,
        service: reg.service,
        req,
        resp,
        expect: Expect::Served,
        cancel: None,
    })
}

fn start(env: &Env, id: usize) {
    let client = env.h().calls[id].spec.client;
    let env2 = env.clone();
    env.job(client, async move {
        if let Some(c) = env2.chan(client) {
            env2.call(c, id).await;
        }
    });
}

fn transfer(env: &Env, nc: &NetCfg) -> Ns {
    let h = env.h();
    let bytes = h.calls.iter().map(|c| c.spec.req.len() + c.spec.resp.reply.len() + 400).sum::<usize>();
    let w = Work { bytes, calls: h.calls.len(), ..Work::default() };
    time_bound(&w, nc) - 10 * SEC
}

/// Entered by a time.
fn entered(env: &Env, ids: &[usize], by: Ns) -> usize {
    let h = env.h();
    ids.iter().filter(|i| h.invs.iter().any(|v| v.call == Some(**i) && v.enter <= by)).count()
}

/// More slow requests for different endpoints than tasks: exactly as many as there are tasks run at once.
async fn exact(ctx: Ctx) {
    let env = ctx.env.clone();
    let (w, groups, gap) = {
        let mut g = ctx.g();
        let w = small(&mut g, &env, (1, 3), &[2, 1, 3, 4, 5, 8, 0], 200_000);
        // each client has endpoints of its own, a handler serves one request at a time
        let each = w.eps / w.clients.len();
        let groups: Vec<Vec<usize>> = (0..w.clients.len())
            .map(|c| {
                let n = if w.tasks == 0 { each } else { (w.tasks + g.below(4) as usize).min(each) };
                let n = if g.chance(1, 4) { 1 + g.below(n as u32) as usize } else { n };
                (0..n).map(|e| plan(&mut g, &env, &w, w.clients[c], c * each + e, 1000 * SEC, false)).collect()
            })
            .collect();
        (w, groups, pick(&mut g, &[0u64, MS, 100 * MS]))
    };
    describe(&ctx);
    ctx.nontrivial();
    if !env.boot_all().await {
        env.viol("server-not-listening", "a server was started but does not listen 30 s later");
        return;
    }
    let settle = transfer(&env, &w.nc);
    for id in groups.iter().flatten() {
        start(&env, *id);
        if gap > 0 {
            sleep_ns(gap).await;
        }
    }
    let t = now() + settle;
    sleep_until(t).await;
    let mut rounds = 0;
    for ids in &groups {
        let n = entered(&env, ids, t);
        let due = if w.tasks == 0 { ids.len() } else { w.tasks.min(ids.len()) };
        if n != due {
            env.viol(
                if n > due { "too-many-handlers" } else { "too-few-handlers" },
                format!(
                    "{} of {} slow requests of a connection for different endpoints are being handled after {:.1} s; the server has {} tasks, {} connections make requests",
                    n,
                    ids.len(),
                    settle as f64 / 1e9,
                    w.tasks,
                    groups.len()
                ),
            );
        } else {
            with(|w| w.count("tasks.exact"));
        }
        rounds = rounds.max(ids.len() as u64 / due.max(1) as u64 + 2);
    }
    let done = env.wait_jobs(now() + rounds * 1000 * SEC + settle).await;
    all_served(&env, !done);
    within_limit(&env, w.server);
}

/// Fewer slow requests than tasks: others are not delayed.
async fn slow_and_fast(ctx: Ctx) {
    let env = ctx.env.clone();
    let (w, slow, fast) = {
        let mut g = ctx.g();
        let w = small(&mut g, &env, (1, 2), &[4, 2, 3, 8, 0], 400_000);
        let t = if w.tasks == 0 { 9 } else { w.tasks };
        // any number of slow requests, as long as they come from another connection
        let flood = w.clients.len() > 1 && g.chance(1, 2);
        let k = if flood { (t + g.below(3) as usize).min(9) } else { 1 + g.below((t - 1) as u32) as usize };
        let same = g.chance(1, 3);
        let slow: Vec<usize> = (0..k)
            .map(|e| {
                let big = g.chance(1, 4);
                plan(&mut g, &env, &w, w.clients[0], if same { 0 } else { e }, 1000 * SEC, big)
            })
            .collect();
        let mut fast = vec![];
        for _ in 0..1 + g.below(8) {
            let from = flood as u32;
            let c = w.clients[(from + g.below(w.clients.len() as u32 - from)) as usize];
            let e = 9 + g.below(4) as usize;
            let d = pick(&mut g, &[0, MS, 10 * MS]);
            let big = g.chance(1, 5);
            fast.push((plan(&mut g, &env, &w, c, e, d, big), pick(&mut g, &[0u64, MS, SEC])));
        }
        (w, slow, fast)
    };
    describe(&ctx);
    ctx.describe(format!("slow calls {:?}, then fast calls {:?}", slow, fast));
    ctx.nontrivial();
    if !env.boot_all().await {
        env.viol("server-not-listening", "a server was started but does not listen 30 s later");
        return;
    }
    let settle = transfer(&env, &w.nc);
    let (first, registering) = {
        let mut g = ctx.g();
        (g.chance(1, 2), g.chance(1, 2))
    };
    if first {
        for id in &slow {
            start(&env, *id);
        }
        sleep_ns(settle).await;
    }
    if registering {
        spawn_h(w.server, more_handlers(env.clone(), w.server, slow[0]));
    }
    let t = now();
    for (k, (id, gap)) in fast.iter().enumerate() {
        if *gap > 0 {
            sleep_ns(*gap).await;
        }
        if !first && k < slow.len() {
            start(&env, slow[k]);
        }
        start(&env, *id);
    }
    let gaps: Ns = fast.iter().map(|f| f.1 + 10 * MS).sum();
    sleep_until(t + gaps + settle).await;
    {
        let mut h = env.h();
        for (id, _) in &fast {
            if h.calls[*id].end.is_none() {
                h.viol(
                    "slow-delays-fast",
                    format!("call {} is not served within {:.1} s while {} slow requests are handled by {} tasks", id, (gaps + settle) as f64 / 1e9, slow.len(), w.tasks),
                );
            }
        }
        with(|w| w.count_n("tasks.fast_calls", fast.len() as u64));
    }
    if !first {
        for id in slow.iter().skip(fast.len()) {
            env.h().calls[*id].excused = true;
        }
    }
    let done = env.wait_jobs(now() + (slow.len() as u64 + 1) * 1000 * SEC + settle).await;
    all_served(&env, !done);
    within_limit(&env, w.server);
}

/// The server registers and removes other handlers of the service that it is serving.
async fn more_handlers(env: Env, server: usize, beside: usize) {
    let (chan, service) = match env.chan(server) {
        Some(c) => (c, env.h().calls[beside].spec.service.clone()),
        None => return,
    };
    let sub = match chan.subchannel(&service).await {
        Ok(s) => s,
        Err(e) => return env.viol("subchannel-failed", format!("{}: {}", service, e)),
    };
    for i in 0..3 {
        sleep_ns(MS).await;
        let reg = Reg { service: service.clone(), ep: format!("extra-{}", i), fmt: Fmt::Raw, asynch: true };
        if let Err(e) = register(&env, server, &sub, &reg).await {
            return env.viol("register-failed", format!("{}/{}: {}", service, reg.ep, e));
        }
        if i > 0 {
            if let Err(e) = sub.unregister(&reg.ep).await {
                return env.viol("unregister-failed", format!("{}/{}: {}", service, reg.ep, e));
            }
        }
        with(|w| w.count("tasks.handlers_registered_meanwhile"));
    }
}

/// Requests that are still arriving take no task.
async fn uploads(ctx: Ctx) {
    let env = ctx.env.clone();
    let (w, client, partial, fast, order) = {
        let mut g = ctx.g();
        let w = small(&mut g, &env, (0, 0), &[1, 2, 3, 4, 0], 300_000);
        let client = foreign(&env, false, 0, vec![]);
        let k = 1 + g.below(6) as usize;
        let partial: Vec<usize> = (0..k).map(|e| plan(&mut g, &env, &w, client, 1 + e % 2, pick_delay(e), false)).collect();
        let fast: Vec<usize> = (0..1 + g.below(3) as usize).map(|_| plan(&mut g, &env, &w, client, 1, 0, false)).collect();
        let order = g.chance(1, 2);
        (w, client, partial, fast, order)
    };
    describe(&ctx);
    ctx.describe(format!("requests {:?} begin, {:?} arrive as a whole", partial, fast));
    ctx.nontrivial();
    if !boot_these(&env, &[w.server]).await {
        return;
    }
    let settle = transfer(&env, &w.nc);
    let env2 = env.clone();
    env.job(client, async move {
        let env = env2;
        let until = now() + 20 * settle;
        let mut c = match by(until, Raw::connect(addr(&env, w.server))).await {
            Some(Some(c)) => c,
            _ => return env.viol("peer-refused", "a client could not connect"),
        };
        if c.greet(1, until).await.map(|f| f.ty != INIT_RES).unwrap_or(true) {
            return env.viol("peer-refused", "no proper init response");
        }
        let mut rest = vec![];
        let mut inbox = Inbox::default();
        let begin = |id: usize| {
            let mut h = env.h();
            h.begin(id);
            h.calls[id].spec.clone()
        };
        let parts = |id: usize, spec: &CallSpec| {
            let mut k = Call { ttl: 1000, tracing: vec![0; 25], service: spec.service.clone(), flags: 1, ..Call::default() };
            k.headers = vec![("as".into(), spec.req.scheme().into()), ("cn".into(), "c".into())];
            k.args = spec.req.args().to_vec();
            let last = k.args.pop().unwrap();
            let a = frame(CALL_REQ, 100 + id as u32, &call_payload(CALL_REQ, &k));
            let k2 = Call { args: vec![vec![], last], ..Call::default() };
            let b = frame(CALL_REQ_C, 100 + id as u32, &call_payload(CALL_REQ_C, &k2));
            (a, b)
        };
        for id in &partial {
            let spec = begin(*id);
            let (a, b) = parts(*id, &spec);
            if !send_reading(&mut c, &a, until).await {
                return env.viol("peer-lost", "the connection ended");
            }
            rest.push((*id, b));
        }
        for id in &fast {
            let spec = begin(*id);
            let (a, b) = parts(*id, &spec);
            if !send_reading(&mut c, &[a, b].concat(), until).await {
                return env.viol("peer-lost", "the connection ended");
            }
        }
        let t = now() + settle;
        let mut left = fast.clone();
        let all = |left: &mut Vec<usize>, f: Frame, inbox: &mut Inbox| match f.ty {
            CALL_RES | CALL_RES_C => {
                if let Got::Message(wid, k, args) = inbox.add(&f) {
                    let id = wid.wrapping_sub(100) as usize;
                    left.retain(|x| *x != id);
                    let o = match Content::of_args(k.scheme().unwrap_or(""), &args) {
                        Some(x) if k.code == 0 => Outcome::Ok(x),
                        _ => Outcome::Internal(2, "undecodable".into()),
                    };
                    let mut h = env.h();
                    if let Some(c) = h.calls.get_mut(id) {
                        c.end = Some(now());
                        c.outcome = Some(o);
                    }
                }
            }
            t => env.viol("peer-bad-frame", format!("{} frame with id {}", type_name(t), f.id)),
        };
        while !left.is_empty() {
            match c.frame(t).await {
                Some(f) => all(&mut left, f, &mut inbox),
                None => break,
            }
        }
        if !left.is_empty() {
            env.viol(
                "uploads-delay-others",
                format!("requests {:?} are not served within {:.1} s while {} others have arrived in part; {} tasks", left, settle as f64 / 1e9, partial.len(), w.tasks),
            );
            return;
        }
        with(|w| w.count("tasks.uploads"));
        if order {
            rest.reverse();
        }
        let mut left = partial.clone();
        for (_, b) in rest {
            if !send_reading(&mut c, &b, until).await {
                return env.viol("peer-lost", "the connection ended");
            }
        }
        while !left.is_empty() {
            match c.frame(until).await {
                Some(f) => all(&mut left, f, &mut inbox),
                None => break,
            }
        }
    });
    let done = env.wait_jobs(now() + 30 * settle).await;
    all_served(&env, !done);
}

fn pick_delay(e: usize) -> Ns {
    [0, MS, 50 * MS][e % 3]
}

/// One endpoint is kept busy; whoever waits for it gets its turn.
async fn turns(ctx: Ctx) {
    let env = ctx.env.clone();
    let (w, busy, waiting) = {
        let mut g = ctx.g();
        let w = small(&mut g, &env, (2, 3), &[4, 1, 2, 8, 0], 300_000);
        let par = 1 + g.below(6) as usize;
        let n = 30;
        let busy: Vec<Vec<usize>> = (0..par).map(|_| (0..n / par).map(|_| plan(&mut g, &env, &w, w.clients[0], 0, SEC, false)).collect()).collect();
        let mut waiting = vec![];
        for _ in 0..1 + g.below(4) {
            let c = w.clients[1 + g.below(w.clients.len() as u32 - 1) as usize];
            waiting.push((plan(&mut g, &env, &w, c, 0, 0, false), g.below(20) as u64 * 700 * MS));
        }
        (w, busy, waiting)
    };
    describe(&ctx);
    ctx.nontrivial();
    if !env.boot_all().await {
        env.viol("server-not-listening", "a server was started but does not listen 30 s later");
        return;
    }
    let settle = transfer(&env, &w.nc);
    let par = busy.len();
    for v in busy {
        let env2 = env.clone();
        let node = w.clients[0];
        env.job(node, async move {
            for id in v {
                if let Some(c) = env2.chan(node) {
                    env2.call(c, id).await;
                }
            }
        });
    }
    for (id, at) in &waiting {
        let env2 = env.clone();
        let id = *id;
        let at = *at;
        let node = env.h().calls[id].spec.client;
        env.job(node, async move {
            sleep_ns(at).await;
            if let Some(c) = env2.chan(node) {
                env2.call(c, id).await;
            }
        });
    }
    let done = env.wait_jobs(now() + 60 * SEC + 30 * settle).await;
    all_served(&env, !done);
    let mut h = env.h();
    for (id, _) in &waiting {
        let c = h.calls[*id].clone();
        if let (Some(s), Some(e)) = (c.start, c.end) {
            // at most those in front of it, a second each
            let limit = (par as u64 + 1) * SEC + waiting.len() as u64 * SEC + settle;
            if e - s > limit {
                h.viol("unfair", format!("call {} to a busy endpoint takes {:.1} s, {} others compete", id, (e - s) as f64 / 1e9, par));
            }
        }
    }
    drop(h);
    within_limit(&env, w.server);
}

/// A connection breaks while its request is being handled; the handler is free for others then.
async fn interrupted(ctx: Ctx) {
    let env = ctx.env.clone();
    let (w, held, how, after, waits) = {
        let mut g = ctx.g();
        let w = small(&mut g, &env, (1, 2), &[4, 1, 2, 8, 0], 300_000);
        let client = w.clients[0];
        let n = 1 + g.below(3) as usize;
        let d = pick(&mut g, &[20 * SEC, 5 * SEC]);
        let held: Vec<usize> = (0..n).map(|_| plan(&mut g, &env, &w, client, 0, d, false)).collect();
        let other = *w.clients.last().unwrap();
        let after: Vec<usize> = (0..1 + g.below(3) as usize).map(|_| plan(&mut g, &env, &w, other, 0, 10 * MS, false)).collect();
        (w, held, g.below(3), after, g.chance(1, 2))
    };
    describe(&ctx);
    ctx.describe(format!("calls {:?} are interrupted ({}), then {:?}", held, how, after));
    ctx.nontrivial();
    if !env.boot_all().await {
        env.viol("server-not-listening", "a server was started but does not listen 30 s later");
        return;
    }
    let settle = transfer(&env, &w.nc);
    for id in &held {
        env.h().calls[*id].may_fail = true;
        start(&env, *id);
    }
    sleep_ns(SEC).await;
    let client = w.clients[0];
    with(|w| {
        w.count("fault.interrupted_request");
        match how {
            0 => {
                let v: Vec<usize> = w.conns.iter().filter(|c| c.ends[0].node == client && !c.ends[0].closed).map(|c| c.id).collect();
                for c in v {
                    w.reset_conn(c);
                }
            }
            1 => w.kill_process(client),
            _ => {
                let v: Vec<usize> = w.conns.iter().filter(|c| c.ends[0].node == client && !c.ends[0].closed).map(|c| c.id).collect();
                for c in v {
                    w.reset_end(c, 0);
                }
            }
        }
    });
    if how == 1 {
        for id in &held {
            env.h().calls[*id].excused = true;
        }
        sleep_ns(10 * MS).await;
        env.boot(client);
    }
    if waits {
        sleep_ns(settle).await;
    } else {
        sleep_ns(100 * MS).await;
    }
    let t = now();
    for id in &after {
        start(&env, *id);
    }
    let d = env.h().calls[held[0]].spec.resp.delay;
    let limit = held.len() as u64 * (d + SEC) + 35 * SEC + settle;
    env.wait_jobs(t + limit).await;
    let mut h = env.h();
    let other = h.calls[after[0]].spec.client;
    for id in &after {
        let c = h.calls[*id].clone();
        match (&c.outcome, other == client) {
            (None, _) => h.viol("handler-stuck", format!("call {} is not served within {:.1} s after another connection to its handler broke", id, limit as f64 / 1e9)),
            // its own pool may have to learn of the broken connection
            (Some(o), true) if o.is_err() => {}
            (Some(o), _) => judge(&mut h, *id, &format!("call {}", id), o),
        }
    }
    drop(h);
    within_limit(&env, w.server);
}
