//! Scenarios in which connections, hosts and processes fail.

use crate::content::*;
use crate::env::*;
use crate::fault::*;
use crate::gen::*;
use crate::oracle::*;
use crate::run::*;
use crate::scen::*;
use simcore::{now, sleep_ns, with, MS, SEC};

/// A workload with faults. Returns the nemesis after the faults were stopped and the jobs had time to end.
pub async fn stormy(ctx: &Ctx, p: &Prof, f: &FaultProf, settle: u64) -> Option<(Vec<usize>, Vec<usize>, Nemesis)> {
    let (s, c, w, bound) = setup(ctx, p).await?;
    let (list, plans, delays) = {
        let mut g = ctx.g();
        let delays = vec![pick(&mut g, &[10 * MS, 0, 300 * MS, 2 * SEC, 20 * SEC]), pick(&mut g, &[50 * MS, SEC])];
        let (l, pl) = faults(&mut g, f, &s, &c, w.bytes);
        (l, pl, delays)
    };
    for (t, x) in &list {
        ctx.describe(format!("fault at {:.1} ms: {:?}", *t as f64 / 1e6, x));
    }
    for x in &plans {
        ctx.describe(format!("cut: {:?}", x));
    }
    if !list.is_empty() || !plans.is_empty() {
        ctx.nontrivial();
    }
    with(|w| w.plans = plans);
    let n = Nemesis::new(&ctx.env, delays);
    let last = list.last().map(|x| x.0).unwrap_or(0);
    n.run(list);
    launch(&ctx.env, &w);
    let t = now();
    ctx.env.wait_jobs(t + bound.min(f.window * 2) + f.window).await;
    if now() < t + last {
        simcore::sleep_until(t + last + MS).await;
    }
    if !n.stop().await {
        return None;
    }
    ctx.env.wait_jobs(now() + settle).await;
    Some((s, c, n))
}

pub fn fprof(p: Prof) -> Prof {
    Prof { unique: true, ..p }
}

pub async fn c03(ctx: Ctx) {
    let p = fprof(Prof {
        servers: (1, 2),
        clients: (1, 2),
        jobs: (1, 3),
        calls: 3,
        max_calls: 16,
        max_frames: 4,
        big: 8,
        cancels: 3,
        unservable: 1,
        outcomes: 2,
        gaps: vec![0, 0, MS, 20 * MS, 300 * MS, 3 * SEC],
        ..Prof::default()
    });
    let f = FaultProf { faults: (0, 4), plans: (0, 3), window: 10 * SEC, kill_clients: true, power: true, pause: true, impostor: true };
    if stormy(&ctx, &p, &f, 150 * SEC).await.is_some() {
        sleep_ns(60 * SEC).await;
    }
    no_lies(&ctx.env);
}

pub async fn c04(ctx: Ctx) {
    if ctx.g().chance(1, 4) {
        return crate::scen_hostile::c04_poison(ctx).await;
    }
    let p = fprof(Prof {
        servers: (1, 1),
        clients: (1, 2),
        jobs: (1, 4),
        calls: 2,
        max_calls: 14,
        max_frames: 4,
        big: 8,
        par: 10,
        delays: vec![0, MS, 10 * MS, 100 * MS, SEC],
        gaps: vec![0, 0, MS, 20 * MS, 300 * MS],
        ..Prof::default()
    });
    let f = FaultProf { faults: (0, 2), plans: (1, 3), window: 2 * SEC, kill_clients: false, power: true, pause: false, impostor: false };
    if stormy(&ctx, &p, &f, 250 * SEC).await.is_some() {
        fate_of_calls(&ctx.env, 2 * SEC);
    }
    no_lies(&ctx.env);
}

/// A host that is away for hours, or fails again and again, while its clients go on trying.
async fn outage(ctx: &Ctx) {
    let env = ctx.env.clone();
    let p = fprof(Prof { jobs: (1, 1), calls: 1, max_calls: 1, big: 0, clients: (1, 2), test_p: 4, ..Prof::default() });
    let (s, c, _, _) = match setup(ctx, &p).await {
        Some(x) => x,
        None => return,
    };
    let (kind, mode, gap, tries, par, patience) = {
        let mut g = ctx.g();
        let kind = g.below(9);
        let gap = pick(&mut g, &[SEC, 7 * SEC, 31 * SEC, 100 * SEC, 20 * MS]);
        let tries = pick(&mut g, &[12u32, 30, 70, 130]);
        let patience = pick(&mut g, &[40 * SEC, 5 * SEC, 100 * SEC]);
        (kind, g.below(7), gap, tries, 1 + g.below(3), patience)
    };
    ctx.describe(format!("outage of kind {} ({}), {} times {} calls every {} ms, given up after {} s", kind, mode, tries, par, gap / MS, patience / SEC));
    ctx.nontrivial();
    let n = Nemesis::new(&env, vec![300 * MS]);
    let long = 10_000_000 * SEC;
    match kind {
        0 => n.inject(Fault::Refuse(s[0], long)),
        1 => n.inject(Fault::SynDrop(s[0], long)),
        2 => n.inject(Fault::Power(s[0], long)),
        3 => n.inject(Fault::Kill(s[0], long)),
        4 => n.inject(Fault::Impostor(s[0], mode, long)),
        5 => {
            for x in &c {
                n.inject(Fault::Part(s[0], *x, mode % 2 == 0, long));
            }
        }
        _ => {}
    }
    with(|w| w.count("fault.long_outage"));
    let reg = env.h().nodes[s[0]].spec.as_ref().unwrap().regs[0].clone();
    let a = addr(&env, s[0]);
    let mut key = 0x8_0000_0000u64;
    for k in 0..tries {
        // hosts that break again and again
        match kind {
            6 => n.inject(Fault::Kill(s[0], 300 * MS)),
            7 => (0..par).for_each(|_| n.inject(Fault::Reset(k))),
            8 => n.inject(Fault::AcceptErr(s[0], k % 3, 1)),
            _ => {}
        }
        for x in &c {
            for _ in 0..par {
                key += 1;
                let req = make(reg.fmt, &reg.ep, key, 30, 40);
                let reply = make(reg.fmt, "r", key ^ 0x5555, 30, 40);
                let id = env.h().add_call(CallSpec {
                    client: *x,
                    server: s[0],
                    addr: a,
                    service: reg.service.clone(),
                    req,
                    resp: Resp { delay: 0, out: Out::Ok, reply, fwd: None },
                    expect: Expect::Served,
                    cancel: Some(Cancel::After(patience)),
                });
                let env2 = env.clone();
                let x = *x;
                env.job(x, async move {
                    if let Some(c) = env2.chan(x) {
                        env2.call(c, id).await;
                    }
                });
            }
        }
        sleep_ns(gap).await;
    }
    env.wait_jobs(now() + patience + SEC).await;
    if !n.stop().await {
        return;
    }
    for (i, c) in c.iter().enumerate() {
        let mc = env.h().nodes[*c].spec.as_ref().unwrap().cfg.max_conn;
        if !recovers(&env, *c, s[0], i as u64 * 10, 2 * mc + 1).await {
            return;
        }
    }
    no_lies(&env);
}

pub async fn c05(ctx: Ctx) {
    if ctx.g().chance(1, 16) {
        return outage(&ctx).await;
    }
    let p = fprof(Prof {
        servers: (1, 2),
        clients: (1, 2),
        jobs: (1, 3),
        calls: 3,
        max_calls: 14,
        big: 2,
        test_p: 4,
        gaps: vec![0, MS, 20 * MS, 300 * MS, 3 * SEC, 20 * SEC],
        ..Prof::default()
    });
    let f = FaultProf { faults: (1, 6), plans: (0, 2), window: 60 * SEC, kill_clients: false, power: true, pause: true, impostor: true };
    if let Some((s, c, _)) = stormy(&ctx, &p, &f, SEC).await {
        for (i, c) in c.iter().enumerate() {
            for (k, s) in s.iter().enumerate() {
                let mc = ctx.env.h().nodes[*c].spec.as_ref().unwrap().cfg.max_conn;
                if !recovers(&ctx.env, *c, *s, (i * 10 + k) as u64, 2 * mc + 1).await {
                    no_lies(&ctx.env);
                    return;
                }
            }
        }
        ctx.env.wait_jobs(now() + 200 * SEC).await;
        fate_of_calls(&ctx.env, 400 * SEC);
    }
    no_lies(&ctx.env);
}

pub async fn c06(ctx: Ctx) {
    if ctx.g().chance(1, 3) {
        return crate::scen_peer::misfits(&ctx).await;
    }
    let panics = ctx.g().chance(1, 3);
    let p = fprof(Prof {
        servers: (1, 2),
        clients: (1, 3),
        jobs: (1, 3),
        calls: 4,
        max_calls: 24,
        max_frames: 3,
        big: 3,
        par: 8,
        unservable: 6,
        outcomes: 2,
        panics: if panics { 2 } else { 0 },
        forward: if panics { 0 } else { 2 },
        ..Prof::default()
    });
    let (s, c, w, bound) = match setup(&ctx, &p).await {
        Some(x) => x,
        None => return,
    };
    ctx.nontrivial();
    // connections on which a panicking handler may be met
    {
        let mut h = ctx.env.h();
        let hit: Vec<(usize, usize)> =
            h.calls.iter().filter(|c| c.spec.resp.out == Out::Panic).map(|c| (c.spec.client, c.spec.server)).collect();
        for c in h.calls.iter_mut() {
            if hit.contains(&(c.spec.client, c.spec.server)) {
                c.may_fail = true;
            }
        }
    }
    launch(&ctx.env, &w);
    let extra = w.calls as u64 * 31 * SEC;
    let done = ctx.env.wait_jobs(now() + bound + extra).await;
    all_served(&ctx.env, !done);
    for (i, c) in c.iter().enumerate() {
        for (k, s) in s.iter().enumerate() {
            let mc = ctx.env.h().nodes[*c].spec.as_ref().unwrap().cfg.max_conn;
            let allowed = if panics { 2 * mc + 1 } else { 0 };
            if !recovers(&ctx.env, *c, *s, (i * 10 + k) as u64, allowed).await {
                return;
            }
        }
    }
}

pub async fn c17(ctx: Ctx) {
    let p = fprof(Prof {
        servers: (1, 1),
        clients: (1, 2),
        jobs: (1, 4),
        calls: 4,
        max_calls: 24,
        max_frames: 4,
        big: 5,
        par: 8,
        cancels: 8,
        max_conn: vec![1, 1, 2],
        delays: vec![0, MS, 10 * MS, 100 * MS],
        ..Prof::default()
    });
    faultless(&ctx, &p).await;
}
