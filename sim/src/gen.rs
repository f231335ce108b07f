//! Generators shared by the scenarios: schedules, networks, configurations, workloads.

use crate::content::*;
use crate::env::*;
use simcore::{Choices, ConnPlan, CutAct, NetCfg, Ns, Policy, SchedCfg, MS, SEC, US};
use std::net::{IpAddr, SocketAddr};

pub fn pick<T: Clone>(g: &mut Choices, v: &[T]) -> T {
    v[g.below(v.len() as u32) as usize].clone()
}

pub fn sched(g: &mut Choices) -> SchedCfg {
    g.begin();
    let policy = pick(g, &[Policy::Fifo, Policy::Uniform, Policy::Mostly, Policy::Priority, Policy::Lifo]);
    let yield_gap = pick(g, &[0u32, 0, 3, 12, 60, 300]);
    let poll_cost = pick(g, &[2_000u64, 2_000, 100, 40_000]);
    let preempt_gap = pick(g, &[0u32, 0, 1, 2, 5, 20]);
    g.end();
    SchedCfg { policy, yield_gap, preempt_gap, poll_cost, max_polls: 1_500_000 }
}

/// A network for about `total` bytes of traffic.
pub fn net(g: &mut Choices, total: usize) -> NetCfg {
    g.begin();
    let (lat_min, lat_max) =
        pick(g, &[(50 * US, 50 * US), (20 * US, 900 * US), (MS, 40 * MS), (US, 5 * MS), (10 * MS, 10 * MS), (US, 2 * US)]);
    let floor = total / 4000 + 1;
    let seg_max = match pick(g, &[0usize, 0, 16384, 1460, 536, 97, 16, 1]) {
        0 => 0,
        n => n.max(floor),
    };
    let split_p = if seg_max == 0 || seg_max > floor * 8 { pick(g, &[0u32, 0, 1, 4]) } else { 0 };
    let split_p = if total < 20_000 && g.chance(1, 4) { 14 } else { split_p };
    let short_read_p = pick(g, &[0u32, 0, 3, 10]);
    let short_write_p = pick(g, &[0u32, 0, 3, 10]);
    let sndbuf = pick(g, &[262_144usize, 65_536, 16_384, 4_096, 700, 64]).max(floor * 2);
    let rcvbuf = pick(g, &[262_144usize, 65_536, 16_384, 4_096, 700, 64]).max(floor * 2);
    g.end();
    NetCfg { lat_min, lat_max, seg_max, split_p, short_read_p, short_write_p, sndbuf, rcvbuf }
}

#[derive(Clone)]
pub struct Prof {
    pub servers: (u32, u32),
    pub clients: (u32, u32),
    pub jobs: (u32, u32),
    /// mean number of calls per job
    pub calls: u32,
    pub max_calls: u32,
    pub max_frames: u32,
    /// probability (of 16) that a message may be large
    pub big: u32,
    pub fbs: Vec<usize>,
    pub tasks: Vec<usize>,
    pub max_conn: Vec<u32>,
    pub lifetimes: Vec<Option<Ns>>,
    pub test_p: u32,
    pub outcomes: u32,
    pub unservable: u32,
    pub cancels: u32,
    pub panics: u32,
    pub delays: Vec<Ns>,
    pub par: u32,
    pub json: u32,
    pub services: u32,
    pub eps: u32,
    pub gaps: Vec<Ns>,
    /// no two requests are alike
    pub unique: bool,
    /// calls are given up after this time
    pub patience: Option<Ns>,
    /// probability (of 16) that a handler makes a call before it answers
    pub forward: u32,
    /// probability (of 64) that a pause or a handler takes very long
    pub long: u32,
}

impl Default for Prof {
    fn default() -> Prof {
        Prof {
            servers: (1, 1),
            clients: (1, 1),
            jobs: (1, 3),
            calls: 3,
            max_calls: 24,
            max_frames: 3,
            big: 4,
            fbs: vec![100, 1, 2, 3, 8],
            tasks: vec![4, 1, 2, 3, 8, 0],
            max_conn: vec![1, 2, 3],
            lifetimes: vec![Some(60 * SEC), None],
            test_p: 0,
            outcomes: 0,
            unservable: 0,
            cancels: 0,
            panics: 0,
            delays: vec![0, 0, MS, 10 * MS, 100 * MS],
            par: 6,
            json: 5,
            services: 2,
            eps: 3,
            gaps: vec![0, 0, MS, 20 * MS],
            unique: false,
            patience: None,
            forward: 0,
            long: 0,
        }
    }
}

#[derive(Clone, Debug)]
pub enum Step {
    /// these calls at the same time, each in its own task or all in one
    Calls(Vec<usize>, bool),
    Sleep(Ns),
}

#[derive(Clone, Debug)]
pub struct Job {
    pub node: usize,
    pub start: Ns,
    pub steps: Vec<Step>,
}

#[derive(Clone, Debug, Default)]
pub struct Work {
    pub jobs: Vec<Job>,
    pub bytes: usize,
    pub calls: usize,
    pub delays: Ns,
}

pub fn cfg(g: &mut Choices, p: &Prof, port: u16) -> Cfg {
    g.begin();
    let c = Cfg {
        fbs: pick(g, &p.fbs),
        tasks: pick(g, &p.tasks),
        max_conn: pick(g, &p.max_conn),
        lifetime: pick(g, &p.lifetimes),
        test: g.chance(p.test_p, 16),
        port,
        any_ip: g.chance(1, 8),
    };
    g.end();
    c
}

pub fn range(g: &mut Choices, r: (u32, u32)) -> u32 {
    r.0 + g.below(r.1 - r.0 + 1)
}

pub fn service_name(i: u32) -> String {
    match i {
        0 => "svc".into(),
        1 => "another service".into(),
        2 => "\u{dc}ml\u{e4}ut".into(),
        3 => "s".repeat(200),
        _ => format!("service{}", i),
    }
}

pub fn ep_name(i: u32) -> String {
    match i {
        0 => "ep".into(),
        1 => "second-endpoint".into(),
        2 => "e\u{301}p".into(),
        3 => "E".repeat(300),
        4 => "x".into(),
        _ => format!("endpoint{}", i),
    }
}

/// Names that differ in little, or hardly look like names.
fn odd_service(g: &mut Choices, i: u32) -> String {
    match g.below(14) {
        0 => "svc ".into(),
        1 => " svc".into(),
        2 => "Svc".into(),
        3 => String::new(),
        4 => "sv".into(),
        5 => "svc2".into(),
        6 => "svc/ep::x".into(),
        7 => "svc\0".into(),
        8 => "a\r\nb\t".into(),
        9 => "\u{1f980}".repeat(63),
        10 => "L".repeat(255),
        11 => "as".into(),
        12 => "\u{fe}\u{ff}".into(),
        _ => format!("{}", i),
    }
}

fn odd_ep(g: &mut Choices, i: u32) -> String {
    match g.below(16) {
        0 => "ep ".into(),
        1 => " ep".into(),
        2 => "Ep".into(),
        3 => String::new(),
        4 => "e".into(),
        5 => "ep2".into(),
        6 => "svc/ep::x?y=z&t".into(),
        7 => "ep\0".into(),
        8 => "\n".into(),
        9 => "\u{1f980}".repeat(100),
        10 => "L".repeat(256),
        11 => "M".repeat(4000),
        12 => "\u{feff}ep".into(),
        13 => "\"{}\"".into(),
        14 => "E\u{301}P".into(),
        _ => format!("{}", i),
    }
}

/// `n` different names
fn names(g: &mut Choices, n: u32, usual: fn(u32) -> String, odd: fn(&mut Choices, u32) -> String) -> Vec<String> {
    let some_odd = g.chance(1, 4);
    let mut v: Vec<String> = vec![];
    for i in 0..n {
        let x = if some_odd && g.chance(1, 2) { odd(g, i) } else { usual(i) };
        v.push(if v.contains(&x) { usual(i) } else { x });
    }
    v
}

/// Nodes: servers first, then clients. Every channel can do both.
pub fn nodes(g: &mut Choices, env: &Env, p: &Prof) -> (Vec<usize>, Vec<usize>) {
    let ns = range(g, p.servers);
    let nc = range(g, p.clients);
    let mut s = vec![];
    let mut c = vec![];
    let nsvc = 1 + g.below(p.services);
    let neps = 1 + g.below(p.eps);
    let services = names(g, nsvc, service_name, odd_service);
    let eps = names(g, neps, ep_name, odd_ep);
    for i in 0..ns {
        let mut regs = vec![];
        for service in &services {
            for ep in &eps {
                g.begin();
                let fmt = if g.chance(p.json, 16) { Fmt::Json } else { Fmt::Raw };
                let asynch = !g.chance(1, 4);
                g.end();
                regs.push(Reg { service: service.clone(), ep: ep.clone(), fmt, asynch });
            }
        }
        let cf = cfg(g, p, 7000 + i as u16);
        s.push(env.add_node(NodeSpec { server: true, cfg: cf, regs }));
    }
    for _ in 0..nc {
        let cf = cfg(g, p, 8888);
        c.push(env.add_node(NodeSpec { server: false, cfg: cf, regs: vec![] }));
    }
    (s, c)
}

pub fn addr(env: &Env, server: usize) -> SocketAddr {
    let port = env.h().nodes[server].spec.as_ref().unwrap().cfg.port;
    SocketAddr::new(IpAddr::V4(node_ip(server)), port)
}

pub fn resp(g: &mut Choices, p: &Prof, reg: &Reg, _req: &Content, key: u64) -> Resp {
    let big = g.chance(p.big, 16);
    let ep = match g.below(4) {
        0 => reg.ep.clone(),
        1 => String::new(),
        2 => "reply".to_string(),
        _ => "r".repeat(g.below(300) as usize),
    };
    let cap = first_cap(&reg.service, req_scheme(reg.fmt), false);
    let (h, b) = gen_sizes(g, cap, ep.len(), if big { p.max_frames } else { 1 });
    let reply = make(reg.fmt, &ep, key ^ 0x5555_0000, h, b);
    let mut delay = if reg.asynch { pick(g, &p.delays) } else { 0 };
    if delay > 4 && g.chance(1, 2) {
        delay = delay / 4 * (1 + g.below(8) as u64);
    }
    if p.long > 0 && reg.asynch && g.chance(p.long, 64) {
        delay = pick(g, &[16 * SEC, 35 * SEC, 65 * SEC, 130 * SEC, 700 * SEC, 4000 * SEC]);
    }
    let out = if p.panics > 0 && g.chance(p.panics, 16) {
        Out::Panic
    } else if p.outcomes > 0 && g.chance(p.outcomes, 16) {
        match g.below(3) {
            0 => Out::MsgErr,
            1 => Out::Gen(err_text(g, key)),
            _ => Out::Int(g.below(4) as u8, err_text(g, key)),
        }
    } else {
        Out::Ok
    };
    Resp { delay, out, reply, fwd: None }
}

fn err_text(g: &mut Choices, key: u64) -> String {
    let n = pick(g, &[10usize, 0, 300, 5000, 65400, 65490, 65519, 65536, 70000, 200_000]);
    text(key ^ 0xe44, n)
}

pub fn req_scheme(f: Fmt) -> &'static str {
    match f {
        Fmt::Raw => "raw",
        Fmt::Json => "json",
    }
}

/// One call from a client to a registered handler of a server (or to nothing, if the profile asks for it).
pub fn call(g: &mut Choices, env: &Env, p: &Prof, client: usize, servers: &[usize]) -> usize {
    g.begin();
    let server = servers[g.below(servers.len() as u32) as usize];
    let regs = env.h().nodes[server].spec.as_ref().unwrap().regs.clone();
    let reg = regs[g.below(regs.len() as u32) as usize].clone();
    let key = env.h().calls.len() as u64 * 7919 + 13;
    let big = g.chance(p.big, 16);
    let mut service = reg.service.clone();
    let mut ep = reg.ep.clone();
    let mut fmt = reg.fmt;
    let mut expect = Expect::Served;
    if p.unservable > 0 && g.chance(p.unservable, 16) {
        match g.below(6) {
            0 => {
                service = pick(g, &["nobody".to_string(), String::new(), "svc2".into(), "sv".into(), "Svc".into()]);
                if regs.iter().any(|r| r.service == service) {
                    service = "nobody".to_string();
                }
                expect = Expect::NoService;
            }
            1 => {
                ep = pick(g, &["nothing".to_string(), String::new(), "ep ".into(), "Ep".into(), "q".repeat(70_000)]);
                if regs.iter().any(|r| r.ep == ep) {
                    ep = "nothing".to_string();
                }
                expect = Expect::NoEndpoint;
            }
            2 => {
                fmt = if fmt == Fmt::Raw { Fmt::Json } else { Fmt::Raw };
                expect = Expect::WrongFormat;
            }
            3 => {
                service = "z".repeat(256 + g.below(20) as usize);
                expect = Expect::Unsendable;
            }
            4 => {
                // nobody listens there
                expect = Expect::NoHost;
            }
            _ => {
                expect = Expect::WrongFormat;
                fmt = if fmt == Fmt::Raw { Fmt::Json } else { Fmt::Raw };
            }
        }
    }
    let cap = first_cap(&service, req_scheme(fmt), true);
    let (mut h, b) = gen_sizes(g, cap, ep.len(), if big { p.max_frames } else { 1 });
    if p.unique {
        h = h.max(24);
    }
    let mut req = make(fmt, &ep, key, h, b);
    let mut rs = resp(g, p, &reg, &req, key);
    if expect == Expect::Served {
        // equal requests have equal replies
        if let Some(r) = env.h().planned(server, &service, &req) {
            rs = r;
        }
    }
    if rs.reply == req {
        rs.reply = make(reg.fmt, &req.ep, key ^ 0x77, 20, 20);
    }
    let mut addr = addr(env, server);
    if expect == Expect::NoHost {
        addr.set_port(9);
    }
    if expect == Expect::WrongFormat && fmt == Fmt::Raw {
        // must not be valid JSON for the JSON handler; it is sent as raw anyway
        req.body.push(b'!');
    }
    let cancel = if p.cancels > 0 && g.chance(p.cancels, 16) {
        Some(match g.below(3) {
            0 => Cancel::Polls(g.below(12)),
            1 => Cancel::After(g.below(64) as u64 * 50 * US),
            _ => Cancel::After(g.below(64) as u64 * 4 * MS),
        })
    } else {
        p.patience.map(Cancel::After)
    };
    g.end();
    let id = env.h().add_call(CallSpec { client, server, addr, service, req, resp: rs, expect, cancel });
    id
}

pub fn work(g: &mut Choices, env: &Env, p: &Prof, callers: &[usize], servers: &[usize]) -> Work {
    let mut w = Work::default();
    for &node in callers {
        let mut nj = 0;
        loop {
            g.begin();
            let more = nj < p.jobs.0 || (nj < p.jobs.1 && g.chance(1, 2));
            if !more {
                g.end();
                break;
            }
            nj += 1;
            let start = pick(g, &p.gaps);
            let mut steps = vec![];
            loop {
                g.begin();
                let first = steps.is_empty();
                if w.calls as u32 >= p.max_calls || (!first && !g.chance(p.calls - 1, p.calls)) {
                    g.end();
                    break;
                }
                let mut d = pick(g, &p.gaps);
                if p.long > 0 && g.chance(p.long, 64) {
                    d = pick(g, &[16 * SEC, 35 * SEC, 65 * SEC, 130 * SEC, 700 * SEC, 4000 * SEC]);
                }
                if d > 0 {
                    steps.push(Step::Sleep(d));
                }
                let n = if g.chance(p.par, 16) { 2 + g.below(5) } else { 1 };
                let n = n.min(p.max_calls - w.calls as u32);
                let one_task = g.chance(1, 3);
                let v: Vec<usize> = (0..n).map(|_| call(g, env, p, node, servers)).collect();
                w.calls += v.len();
                steps.push(Step::Calls(v, one_task));
                g.end();
            }
            w.jobs.push(Job { node, start, steps });
            g.end();
        }
    }
    if p.forward > 0 {
        relays(g, env, p, servers);
    }
    let h = env.h();
    for c in &h.calls {
        let (bytes, delay, calls) = h.cost(&c.spec);
        w.bytes += bytes;
        w.delays += delay;
        w.calls += calls - 1;
    }
    w
}

/// Some handlers ask others before they answer: those of later servers, or later ones of their own server, so that
/// nobody waits for himself.
fn relays(g: &mut Choices, env: &Env, p: &Prof, servers: &[usize]) {
    let n = env.h().calls.len();
    for id in 0..n {
        g.begin();
        if !g.chance(p.forward, 16) {
            g.end();
            continue;
        }
        let (s, first) = {
            let h = env.h();
            let s = h.calls[id].spec.clone();
            let first = h.groups[&(s.server, s.service.clone(), s.req.clone())].calls[0] == id;
            (s, first)
        };
        let own = env.h().nodes[s.server].spec.clone().unwrap();
        let pos = own.regs.iter().position(|r| r.service == s.service && r.ep == s.req.ep && r.asynch);
        let mut to: Vec<(usize, Reg)> = vec![];
        for t in servers.iter().filter(|t| **t > s.server) {
            let regs = env.h().nodes[*t].spec.as_ref().unwrap().regs.clone();
            to.extend(regs.into_iter().map(|r| (*t, r)));
        }
        if own.cfg.tasks == 0 {
            if let Some(k) = pos {
                to.extend(own.regs[k + 1..].iter().map(|r| (s.server, r.clone())));
            }
        }
        if pos.is_none() || s.expect != Expect::Served || !first || to.is_empty() {
            g.end();
            continue;
        }
        let (t, reg) = pick(g, &to);
        let key = 40_000_000 + id as u64 * 7919;
        let big = g.chance(p.big, 16);
        let mut service = reg.service.clone();
        let mut expect = Expect::Served;
        if p.unservable > 0 && g.chance(1, 6) {
            service = "nobody".into();
            expect = Expect::NoService;
        }
        let cap = first_cap(&service, req_scheme(reg.fmt), true);
        let (h, b) = gen_sizes(g, cap, reg.ep.len(), if big { p.max_frames } else { 1 });
        let req = make(reg.fmt, &reg.ep, key, h.max(24), b);
        let mut rs = resp(g, &Prof { panics: 0, ..p.clone() }, &reg, &req, key);
        if rs.reply == req {
            rs.reply = make(reg.fmt, &req.ep, key ^ 0x77, 20, 20);
        }
        let addr = addr(env, t);
        let f = CallSpec { client: s.server, server: t, addr, service, req, resp: rs, expect, cancel: None };
        env.h().calls[id].spec.resp.fwd = Some(std::sync::Arc::new(f));
        g.end();
    }
}

/// Starts all jobs of a workload.
pub fn launch(env: &Env, w: &Work) {
    for j in &w.jobs {
        let env2 = env.clone();
        let j = j.clone();
        env.job(j.node, async move {
            if j.start > 0 {
                simcore::sleep_ns(j.start).await;
            }
            for s in &j.steps {
                run_step(&env2, j.node, s).await;
            }
        });
    }
}

async fn run_step(env: &Env, node: usize, s: &Step) {
    match s {
        Step::Sleep(d) => simcore::sleep_ns(*d).await,
        Step::Calls(v, one_task) => {
            if v.len() == 1 {
                if let Some(c) = env.via(node, v[0]) {
                    env.call(c, v[0]).await;
                }
            } else if *one_task {
                let mut fs = vec![];
                for id in v {
                    if let Some(c) = env.via(node, *id) {
                        fs.push(env.call(c, *id));
                    }
                }
                futures::future::join_all(fs).await;
            } else {
                let mut hs = vec![];
                for id in v {
                    if let Some(c) = env.via(node, *id) {
                        let env = env.clone();
                        let id = *id;
                        simcore::spawn_as(node, true);
                        hs.push(tokio::spawn(async move {
                            env.call(c, id).await;
                        }));
                    }
                }
                for h in hs {
                    let _ = h.await;
                }
            }
        }
    }
}

/// Upper bound for a workload to finish when nothing fails: handlers one after the other, transfers through the
/// smallest window, plus slack.
/// Time that suffices to transmit everything.
pub fn transmission(w: &Work, nc: &NetCfg) -> Ns {
    let window = nc.sndbuf.min(nc.rcvbuf).max(1);
    let window = if nc.short_write_p > 0 { window / 8 + 1 } else { window };
    let rounds = (w.bytes / window + w.calls * 8 + 20) as u64;
    rounds * (4 * nc.lat_max + 2 * MS)
}

pub fn time_bound(w: &Work, nc: &NetCfg) -> Ns {
    let gaps: Ns = w.jobs.iter().map(|j| j.start + j.steps.iter().map(|s| if let Step::Sleep(d) = s { *d } else { 0 }).sum::<Ns>()).sum();
    20 * SEC + w.delays + gaps + transmission(w, nc)
}

pub fn cut_act(g: &mut Choices) -> CutAct {
    match g.below(10) {
        0 => CutAct::ResetBoth,
        1 => CutAct::ResetReceiver,
        2 => CutAct::ResetSender,
        3 => CutAct::KillSender,
        4 => CutAct::KillReceiver,
        5 => CutAct::FinSender,
        6 => CutAct::PowerSender,
        7 => CutAct::PowerReceiver,
        8 => CutAct::Partition((1 + g.below(40) as u64) * SEC),
        _ => CutAct::Stall((1 + g.below(40) as u64) * 100 * MS),
    }
}

pub fn plan(g: &mut Choices, from: usize, to: usize, bytes: usize, act: CutAct) -> ConnPlan {
    let dir = g.below(2) as usize;
    let nth = if g.chance(1, 4) { 1 + g.below(2) as usize } else { 0 };
    let at = match g.below(4) {
        0 => g.below(80) as u64,
        1 => g.below(600) as u64,
        2 => 65_000 + g.below(1200) as u64,
        _ => g.below(bytes.max(2) as u32) as u64,
    };
    ConnPlan { from, to, nth, dir, at, act, fired: false }
}
