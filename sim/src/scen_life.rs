//! Starting and stopping servers, over and over (C15).

use crate::content::*;
use crate::env::*;
use crate::gen::*;
use crate::oracle::*;
use crate::raw::*;
use crate::run::*;
use crate::scen::*;
use crate::scen_fault::fprof;
use crate::scen_peer::*;
use crate::wire::*;
use simcore::{now, sleep_ns, sleep_until, with, Choices, NetCfg, Ns, MS, SEC, US};
use std::io::ErrorKind;
use std::net::SocketAddr;
use simcore::hsync::Mutex;
use std::sync::Arc;
use tchannel_rs::TChannel;

const UP_WITHIN: Ns = 2 * SEC;
const DOWN_WITHIN: Ns = 20 * MS;

#[derive(Clone, Debug)]
enum Op {
    Start,
    Stop,
    Sleep(Ns),
    /// until the next full five seconds
    Align,
    Accept(Vec<ErrorKind>),
    /// drop the channel and make a new one some time later
    Renew(Ns),
}

/// What the server is expected to be, since when.
#[derive(Default)]
struct Model {
    /// (time, running)
    turns: Vec<(Ns, bool)>,
    renewed: Vec<Ns>,
    /// operations in progress, all operations since there was none
    open: u32,
    since: Ns,
    group: Vec<Done>,
    clock: u32,
    /// the operations allow for either state
    unsure: bool,
}

/// An operation: what it was (to start?), whether it succeeded, the order of its start and its end among others'.
#[derive(Clone, Debug)]
struct Done {
    start: bool,
    ok: Option<bool>,
    inv: u32,
    ret: u32,
}

/// Every state in which these operations, some of them concurrent, may leave a server; none if their results
/// contradict every order in which they may have taken place.
fn outcomes(on: bool, ops: &[Done]) -> Vec<bool> {
    fn go(on: bool, left: &mut Vec<Done>, out: &mut Vec<bool>) {
        if left.is_empty() {
            if !out.contains(&on) {
                out.push(on);
            }
            return;
        }
        let first_end = left.iter().map(|d| d.ret).min().unwrap();
        for i in 0..left.len() {
            let d = left[i].clone();
            // nothing comes before what ended before it began
            if d.inv > first_end {
                continue;
            }
            let next = match (d.start, d.ok) {
                (true, Some(true)) if !on => true,
                (true, Some(false)) if on => true,
                (true, _) => continue,
                (false, _) => false,
            };
            left.remove(i);
            go(next, left, out);
            left.insert(i, d);
            if out.len() == 2 {
                return;
            }
        }
    }
    let mut out = vec![];
    go(on, &mut ops.to_vec(), &mut out);
    out
}

impl Model {
    fn running(&self) -> bool {
        self.turns.last().map(|t| t.1).unwrap_or(false)
    }
    fn turn(&mut self, on: bool) {
        if self.running() != on {
            // within a group of concurrent operations anything may happen from its start on
            self.turns.push((if self.since > 0 { self.since } else { now() }, on));
        }
    }
    /// State and the time since it has lasted, at present.
    fn state(&self) -> (bool, Ns) {
        self.turns.last().map(|t| (t.1, t.0)).unwrap_or((false, 0))
    }
}

#[derive(Clone)]
struct Life {
    env: Env,
    server: usize,
    port: u16,
    m: Arc<Mutex<Model>>,
    limit: Ns,
}

fn kinds(g: &mut Choices) -> Vec<ErrorKind> {
    let n = 1 + g.below(6);
    (0..n)
        .map(|_| pick(g, &[ErrorKind::Other, ErrorKind::ConnectionAborted, ErrorKind::ConnectionReset, ErrorKind::OutOfMemory, ErrorKind::PermissionDenied, ErrorKind::Interrupted]))
        .collect()
}

fn ops(g: &mut Choices, renew: bool, n: u32) -> Vec<Op> {
    let mut v = vec![];
    for _ in 0..n {
        g.begin();
        v.push(match g.below(16) {
            0..=4 => Op::Start,
            5..=8 => Op::Stop,
            9 => Op::Accept(kinds(g)),
            10 | 11 => Op::Align,
            12 if renew => Op::Renew(pick(g, &[SEC, 10 * SEC])),
            _ => Op::Sleep(pick(g, &[3 * SEC, MS, 10 * US, US, 100 * US, 100 * MS, SEC, 40 * SEC])),
        });
        g.end();
    }
    v
}

impl Life {
    fn chan(&self) -> Option<Arc<TChannel>> {
        self.env.chan(self.server)
    }

    /// Runs an operation and, once none is in progress, compares what they gave with what they may have given.
    fn op(&self, start: bool) {
        let Some(c) = self.chan() else { return };
        let i = {
            let mut m = self.m.lock().unwrap();
            if m.open == 0 && !m.unsure {
                m.since = now();
            }
            m.open += 1;
            m.clock += 1;
            let d = Done { start, ok: None, inv: m.clock, ret: u32::MAX };
            m.group.push(d);
            m.group.len() - 1
        };
        let name = if start { "start_server" } else { "shutdown_server" };
        let r = if start { c.start_server() } else { c.shutdown_server() };
        self.env.note(format!("{} gives {:?}", name, r.is_ok()));
        if let (false, Err(e)) = (start, &r) {
            self.env.viol("shutdown-failed", e.to_string());
        }
        with(|w| w.count(if start { "life.starts" } else { "life.shutdowns" }));
        let mut m = self.m.lock().unwrap();
        m.open -= 1;
        m.clock += 1;
        m.group[i].ret = m.clock;
        m.group[i].ok = Some(r.is_ok());
        if m.open > 0 {
            return;
        }
        let group = std::mem::take(&mut m.group);
        if group.len() > 1 {
            with(|w| w.count("life.concurrent_operations"));
        }
        let was = m.running();
        let after = outcomes(was, &group);
        match after[..] {
            [on] => {
                if on == was && group.iter().any(|d| d.start != on && d.ok == Some(true)) {
                    m.turn(!on);
                }
                m.turn(on)
            }
            [] => {
                m.turn(true);
                m.since = 0;
                drop(m);
                let state = if was { "running" } else { "stopped" };
                match &group[..] {
                    [d] if d.ok == Some(true) => self.env.viol("started-twice", "start_server of a running server reports success"),
                    [_] => self.env.viol("start-failed", format!("start_server of a stopped server: {}", r.err().map(|e| e.to_string()).unwrap_or_default())),
                    _ => self.env.viol("started-twice", format!("no order of these operations on a {} server explains their results: {:?}", state, group)),
                }
                return;
            }
            _ => {
                m.unsure = true;
                return;
            }
        }
        m.since = 0;
    }

    fn start(&self) {
        self.op(true);
        self.settle();
    }

    fn stop(&self) {
        self.op(false);
        self.settle();
    }

    /// Concurrent operations may have left the server running or not: from here on it runs.
    fn settle(&self) {
        let c = {
            let mut m = self.m.lock().unwrap();
            if !m.unsure || m.open > 0 {
                return;
            }
            m.unsure = false;
            // what happened in between is over by now
            m.turn(false);
            m.turn(true);
            m.since = 0;
            self.chan()
        };
        if let Some(c) = c {
            simcore::held(1);
            let _ = c.start_server();
            simcore::held(-1);
            with(|w| w.count("life.ambiguous"));
        }
    }

    async fn renew(&self, pause: Ns) {
        if self.m.lock().unwrap().open > 0 {
            return;
        }
        simcore::held(1);
        let dropped = self.env.drop_chan(self.server);
        simcore::held(-1);
        if !dropped {
            return;
        }
        {
            let mut m = self.m.lock().unwrap();
            m.turn(false);
            m.renewed.push(now());
        }
        with(|w| w.count("life.channels_dropped"));
        sleep_ns(pause).await;
        self.env.boot(self.server);
        while self.chan().is_none() {
            sleep_ns(MS).await;
        }
    }

    async fn run(&self, v: Vec<Op>) {
        for o in v {
            match o {
                Op::Start => self.start(),
                Op::Stop => self.stop(),
                Op::Sleep(d) => sleep_ns(d).await,
                Op::Align => sleep_until((now() / (5 * SEC) + 1) * 5 * SEC).await,
                Op::Accept(k) => {
                    for k in k {
                        with(|w| w.inject_accept_error(self.server, k));
                    }
                }
                Op::Renew(p) => self.renew(p).await,
            }
        }
    }

    /// A new connection is refused, or served, as the server is stopped or runs.
    async fn knock(&self) {
        let a = at(self.server, self.port);
        let (on, since) = self.m.lock().unwrap().state();
        let old = now() - since;
        let turns = self.m.lock().unwrap().turns.len();
        let same = |m: &Mutex<Model>| m.lock().unwrap().turns.len() == turns;
        if !on && (since == 0 || old >= DOWN_WITHIN) {
            let c = by(now() + 10 * SEC, Raw::connect(a)).await;
            if same(&self.m) {
                with(|w| w.count("life.knocks_stopped"));
                if let Some(Some(_)) = c {
                    self.env.viol("accepts-while-stopped", format!("a connection is accepted {:.3} s after the server was stopped", old as f64 / 1e9));
                }
            }
        } else if on && old >= UP_WITHIN {
            let mut ok = false;
            for _ in 0..12 {
                let until = now() + self.limit;
                if let Some(Some(mut c)) = by(until, Raw::connect(a)).await {
                    if c.greet(3, until).await.map(|f| f.ty == INIT_RES).unwrap_or(false) {
                        ok = true;
                        break;
                    }
                }
                sleep_ns(300 * MS).await;
                if !same(&self.m) {
                    return;
                }
            }
            if same(&self.m) {
                with(|w| w.count("life.knocks_running"));
                if !ok {
                    self.env.viol("not-accepting", format!("no connection is served though the server was started {:.3} s before", old as f64 / 1e9));
                }
            }
        }
    }

    /// The first call of a new client.
    async fn visit(&self, client: usize, tag: u64) {
        let (on, since) = self.m.lock().unwrap().state();
        let turns = self.m.lock().unwrap().turns.len();
        if !on || now() - since < UP_WITHIN {
            return;
        }
        let id = small_call(&self.env, client, self.server, at(self.server, self.port), 5_000 + tag, "svc");
        let chan = match TChannel::new(Cfg::default().build(client)) {
            Ok(c) => Arc::new(c),
            Err(e) => return self.env.viol("harness", e.to_string()),
        };
        self.env.h().calls[id].excused = true;
        let r = by(now() + self.limit, self.env.call(chan, id)).await;
        if self.m.lock().unwrap().turns.len() != turns {
            return;
        }
        with(|w| w.count("life.first_calls"));
        match r {
            Some(Some(o)) => judge(&mut self.env.h(), id, "first call of a new client to a running server", &o),
            _ => self.env.viol("call-hangs", "the first call of a new client to a running server does not end"),
        }
    }

    /// The record of listening sockets agrees with what was asked for.
    fn review(&self) {
        let m = self.m.lock().unwrap();
        let ls: Vec<(Ns, Ns)> = with(|w| {
            w.listeners.iter().filter(|l| l.node == self.server && l.port == self.port).map(|l| (l.opened_at, l.closed_at.unwrap_or(Ns::MAX))).collect()
        });
        for (i, a) in ls.iter().enumerate() {
            for b in &ls[i + 1..] {
                if a.0 < b.1 && b.0 < a.1 {
                    self.env.viol("two-listeners", "two sockets listen at the same address");
                }
            }
        }
        let mut t = m.turns.clone();
        if t.first().map(|x| x.1).unwrap_or(true) {
            t.insert(0, (0, false));
        }
        for (i, (from, on)) in t.iter().enumerate() {
            let to = t.get(i + 1).map(|x| x.0).unwrap_or(now());
            let lag = if *on { UP_WITHIN } else if i == 0 { 0 } else { DOWN_WITHIN };
            if to <= from + lag {
                continue;
            }
            let from = from + lag;
            let covered = ls.iter().any(|l| l.0 <= from && l.1 >= to);
            let touched = ls.iter().any(|l| l.0 < to && l.1 > from);
            with(|w| w.count("life.periods_checked"));
            if *on && !covered {
                self.env.viol("not-listening", format!("the server runs from {:.6} s on but does not listen all the time", (from - lag) as f64 / 1e9));
            }
            if !*on && touched {
                self.env.viol("listens-while-stopped", format!("the server is stopped at {:.6} s and listens later than {} ms", (from - lag) as f64 / 1e9, lag / MS));
            }
        }
    }
}

fn small_call(env: &Env, client: usize, server: usize, addr: SocketAddr, key: u64, service: &str) -> usize {
    let req = make(Fmt::Raw, "ep", key, 30, 40);
    let reply = make(Fmt::Raw, "r", key ^ 0x5555, 30, 40);
    let spec = CallSpec {
        client,
        server,
        addr,
        service: service.into(),
        req,
        resp: Resp { delay: 0, out: Out::Ok, reply, fwd: None },
        expect: Expect::Served,
        cancel: None,
    };
    env.h().add_call(spec)
}

pub async fn c15(ctx: Ctx) {
    let env = ctx.env.clone();
    let (server, other, clients, lists, times, limit, tail) = {
        let mut g = ctx.g();
        let sc = sched(&mut g);
        let p = fprof(Prof { servers: (2, 2), clients: (1, 2), services: 1, eps: 1, max_conn: vec![1, 2], ..Prof::default() });
        let (s, c) = nodes(&mut g, &env, &p);
        {
            let mut h = env.h();
            for n in &s {
                let spec = h.nodes[*n].spec.as_mut().unwrap();
                spec.regs = vec![Reg { service: "svc".into(), ep: "ep".into(), fmt: Fmt::Raw, asynch: true }];
            }
            let spec = h.nodes[s[0]].spec.as_mut().unwrap();
            spec.server = false;
        }
        let renew = g.chance(1, 2);
        let n = 1 + g.below(3);
        let lists: Vec<Vec<Op>> = (0..n)
            .map(|i| {
                let k = 2 + g.below(12);
                ops(&mut g, renew && i == 0, k)
            })
            .collect();
        // when clients come
        let times: Vec<(u32, Ns)> = (0..g.below(12)).map(|_| (g.below(5), pick(&mut g, &[0, 3 * SEC, MS, 100 * MS, SEC, 40 * SEC]))).collect();
        let nc = net(&mut g, 60_000);
        set_cfg(sc, nc.clone());
        let limit = limit(&nc);
        (s[0], s[1], c, lists, times, limit, g.below(3))
    };
    describe(&ctx);
    for v in &lists {
        ctx.describe(format!("operations {:?}", v));
    }
    ctx.describe(format!("clients {:?}, then {}", times, tail));
    ctx.nontrivial();
    if !env.boot_all().await {
        env.viol("server-not-listening", "a server was started but does not listen 30 s later");
        return;
    }
    let end = now() + SEC;
    while !env.all_nodes().iter().all(|n| env.h().nodes[*n].ready) && now() < end {
        sleep_ns(MS).await;
    }
    let port = env.h().nodes[server].spec.as_ref().unwrap().cfg.port;
    let l = Life { env: env.clone(), server, port, m: Arc::default(), limit };
    // another channel of the same process
    let neighbour = neighbour(&env, server).await;
    let stop = Arc::new(Mutex::new(false));
    for v in lists {
        let l = l.clone();
        env.job(server, async move { l.run(v).await });
    }
    for (i, c) in clients.iter().enumerate() {
        let (l, c, times) = (l.clone(), *c, times.clone());
        env.job(c, async move {
            for (k, (what, pause)) in times.iter().enumerate() {
                sleep_ns(*pause).await;
                match what {
                    0 => l.knock().await,
                    1 => l.visit(c, (i * 100 + k) as u64).await,
                    2 => bystander(&l.env, c, server, at(server, 7100), (i * 100 + k) as u64, "neighbour", l.limit).await,
                    3 => {
                        let a = addr(&l.env, other);
                        bystander(&l.env, c, other, a, 300 + (i * 100 + k) as u64, "svc", l.limit).await
                    }
                    _ => regular(&l, c, (i * 100 + k) as u64).await,
                }
            }
        });
    }
    env.wait_jobs(now() + 3000 * SEC).await;
    *stop.lock().unwrap() = true;
    // whatever happened, it can be started
    let l2 = l.clone();
    env.job(server, async move {
        match tail {
            0 => {
                if !l2.m.lock().unwrap().running() {
                    l2.start();
                }
            }
            1 => {
                l2.stop();
                l2.start();
            }
            _ => {
                // another channel gets the address
                l2.renew(DOWN_WITHIN).await;
                l2.start();
            }
        }
        sleep_ns(UP_WITHIN).await;
        l2.knock().await;
    });
    env.wait_jobs(now() + 40 * limit).await;
    let l2 = l.clone();
    let c = clients[0];
    env.job(c, async move { l2.visit(c, 900).await });
    env.wait_jobs(now() + 2 * limit).await;
    for (i, c) in clients.iter().enumerate() {
        let mc = env.h().nodes[*c].spec.as_ref().unwrap().cfg.max_conn;
        if !recovers(&env, *c, server, 100 + i as u64, 2 * mc + 1).await {
            break;
        }
        let env2 = env.clone();
        let (c, a) = (*c, addr(&env, other));
        env.job(c, async move {
            bystander(&env2, c, server, at(server, 7100), 800 + i as u64, "neighbour", limit).await;
            bystander(&env2, c, other, a, 850 + i as u64, "svc", limit).await;
        });
        env.wait_jobs(now() + 2 * limit).await;
    }
    l.review();
    no_lies(&env);
    drop(neighbour);
    sleep_until(now() + MS).await;
}

fn limit(nc: &NetCfg) -> Ns {
    time_bound(&Work { bytes: 3000, calls: 3, ..Work::default() }, nc) + 20 * SEC
}

/// A channel next to the one that is started and stopped.
async fn neighbour(env: &Env, server: usize) -> Option<Arc<TChannel>> {
    let (tx, rx) = futures::channel::oneshot::channel();
    let env2 = env.clone();
    spawn_h(server, async move {
        let env = env2;
        let c = match TChannel::new(Cfg { port: 7100, ..Cfg::default() }.build(server)) {
            Ok(c) => Arc::new(c),
            Err(_) => return,
        };
        if let Ok(s) = c.subchannel("neighbour").await {
            let reg = Reg { service: "neighbour".into(), ep: "ep".into(), fmt: Fmt::Raw, asynch: true };
            let _ = register(&env, server, &s, &reg).await;
        }
        if let Err(e) = c.start_server() {
            env.viol("start-failed", e.to_string());
        }
        let _ = tx.send(c);
    });
    let c = rx.await.ok();
    sleep_ns(UP_WITHIN).await;
    c
}

/// A call to a server that nobody stops.
async fn bystander(env: &Env, client: usize, server: usize, a: SocketAddr, tag: u64, service: &str, limit: Ns) {
    let id = small_call(env, client, server, a, 10_000 + tag, service);
    if let Some(c) = env.chan(client) {
        env.h().calls[id].excused = true;
        match by(now() + limit, env.call(c, id)).await {
            Some(Some(o)) => judge(&mut env.h(), id, "call to a server that was left alone", &o),
            _ => env.viol("call-hangs", "a call to a server that was left alone does not end"),
        }
        with(|w| w.count("life.bystander_calls"));
    }
}

/// A call of a client that may have connections from before.
async fn regular(l: &Life, client: usize, tag: u64) {
    let id = small_call(&l.env, client, l.server, at(l.server, l.port), 20_000 + tag, "svc");
    if let Some(c) = l.env.chan(client) {
        let (steady, turns) = {
            let m = l.m.lock().unwrap();
            (m.turns.len() == 1 && now() - m.turns[0].0 >= UP_WITHIN, m.turns.len())
        };
        l.env.h().calls[id].excused = true;
        // while nobody listens attempts go on for 30 s
        match by(now() + l.limit + 35 * SEC, l.env.call(c, id)).await {
            Some(Some(o)) => {
                if steady && l.m.lock().unwrap().turns.len() == turns {
                    with(|w| w.count("life.steady_calls"));
                    judge(&mut l.env.h(), id, "call to a server that has not been stopped", &o);
                }
            }
            _ => l.env.viol("call-hangs", format!("call {} does not end", id)),
        }
    }
}
