//! The nemesis: faults at generated moments, cut points inside connections, restarts, and the end of all faults.

use crate::env::*;
use crate::gen::*;
use crate::raw::*;
use simcore::{now, sleep_ns, with, Choices, Ns, MS, SEC};
use std::collections::BTreeMap;
use std::io::ErrorKind;
use simcore::hsync::Mutex;
use std::sync::Arc;

#[derive(Clone, Debug)]
pub enum Fault {
    /// some open connection is reset
    Reset(u32),
    ResetEnd(u32, usize),
    Kill(usize, Ns),
    Power(usize, Ns),
    Part(usize, usize, bool, Ns),
    Pause(usize, Ns),
    Refuse(usize, Ns),
    SynDrop(usize, Ns),
    AcceptErr(usize, u32, u32),
    /// another program takes the server's port for a while
    Impostor(usize, u32, Ns),
}

#[derive(Clone, Default)]
pub struct FaultProf {
    pub faults: (u32, u32),
    pub plans: (u32, u32),
    pub window: Ns,
    pub kill_clients: bool,
    pub power: bool,
    pub pause: bool,
    pub impostor: bool,
}

fn span(g: &mut Choices) -> Ns {
    match g.below(5) {
        0 => (1 + g.below(50) as u64) * MS,
        1 => (1 + g.below(30) as u64) * 100 * MS,
        2 => (1 + g.below(16) as u64) * SEC,
        3 => (14 + g.below(5) as u64) * SEC,
        _ => (20 + g.below(60) as u64) * SEC,
    }
}

pub fn faults(g: &mut Choices, p: &FaultProf, servers: &[usize], clients: &[usize], bytes: usize) -> (Vec<(Ns, Fault)>, Vec<simcore::ConnPlan>) {
    let mut out = vec![];
    let n = range(g, p.faults);
    for _ in 0..n {
        g.begin();
        let at = match g.below(3) {
            0 => g.below(1000) as u64 * (p.window / 50_000).max(1),
            _ => g.below(1000) as u64 * (p.window / 1000).max(1),
        };
        let s = servers[g.below(servers.len() as u32) as usize];
        let c = clients[g.below(clients.len() as u32) as usize];
        let f = match g.below(16) {
            0 | 1 | 2 => Fault::Reset(g.below(1000)),
            3 | 4 => Fault::ResetEnd(g.below(1000), g.below(2) as usize),
            5 | 6 => Fault::Kill(s, span(g)),
            7 if p.power => Fault::Power(s, span(g)),
            8 | 9 => Fault::Part(s, c, g.chance(1, 2), span(g)),
            10 if p.pause => Fault::Pause(if g.chance(1, 3) { c } else { s }, span(g)),
            11 => Fault::Refuse(s, span(g)),
            12 => Fault::SynDrop(s, span(g)),
            13 => Fault::AcceptErr(s, g.below(3), 1 + g.below(4)),
            14 if p.impostor => Fault::Impostor(s, g.below(7), span(g)),
            15 if p.kill_clients => Fault::Kill(c, span(g)),
            _ => Fault::Part(c, s, false, span(g)),
        };
        g.end();
        out.push((at, f));
    }
    out.sort_by_key(|x| x.0);
    let mut plans = vec![];
    let n = range(g, p.plans);
    for _ in 0..n {
        g.begin();
        let s = servers[g.below(servers.len() as u32) as usize];
        let c = clients[g.below(clients.len() as u32) as usize];
        let mut act = cut_act(g);
        use simcore::CutAct::*;
        if !p.power && (act == PowerSender || act == PowerReceiver) {
            act = ResetBoth;
        }
        let mut pl = plan(g, c, s, bytes, act);
        if !p.kill_clients {
            match (&pl.act, pl.dir) {
                (KillSender, 0) | (KillReceiver, 1) | (PowerSender, 0) | (PowerReceiver, 1) => pl.act = ResetBoth,
                _ => {}
            }
        }
        g.end();
        plans.push(pl);
    }
    (out, plans)
}

#[derive(Clone)]
pub struct Nemesis {
    pub env: Env,
    st: Arc<Mutex<St>>,
}

#[derive(Default)]
struct St {
    stop: bool,
    booted: BTreeMap<usize, u32>,
    down: BTreeMap<usize, Ns>,
    delays: Vec<Ns>,
    next: usize,
    restarts: u64,
}

impl Nemesis {
    /// Call after the nodes were booted.
    pub fn new(env: &Env, delays: Vec<Ns>) -> Nemesis {
        let n = Nemesis { env: env.clone(), st: Arc::new(Mutex::new(St { delays, ..Default::default() })) };
        {
            let mut st = n.st.lock().unwrap();
            for x in env.all_nodes() {
                st.booted.insert(x, with(|w| w.nodes[x].inc));
            }
        }
        let k = n.clone();
        spawn_h(0, async move {
            loop {
                sleep_ns(50 * MS).await;
                if k.st.lock().unwrap().stop {
                    return;
                }
                k.keep(false);
            }
        });
        n
    }

    /// Restarts the nodes whose processes died and whose time has come.
    fn keep(&self, all: bool) {
        for n in self.env.all_nodes() {
            let (inc, up) = with(|w| (w.nodes[n].inc, w.nodes[n].up));
            let boot = {
                let mut st = self.st.lock().unwrap();
                if up && st.booted.get(&n) == Some(&inc) {
                    continue;
                }
                let d = if st.delays.is_empty() { SEC } else { st.delays[st.next % st.delays.len()] };
                if !st.down.contains_key(&n) {
                    st.next += 1;
                    st.down.insert(n, now() + d);
                }
                let due = st.down[&n] <= now() || all;
                if due {
                    st.down.remove(&n);
                    st.restarts += 1;
                }
                due
            };
            if boot {
                with(|w| {
                    if !w.nodes[n].up {
                        w.power_on(n);
                    }
                    // whatever uses the node's port in the meantime
                    w.kill_process(n);
                    w.count("fault.process_restart");
                });
                let inc = with(|w| w.nodes[n].inc);
                self.st.lock().unwrap().booted.insert(n, inc);
                self.env.boot(n);
            }
        }
    }

    pub fn run(&self, list: Vec<(Ns, Fault)>) {
        let k = self.clone();
        spawn_h(0, async move {
            let t0 = now();
            for (at, f) in list {
                simcore::sleep_until(t0 + at).await;
                if k.st.lock().unwrap().stop {
                    return;
                }
                k.inject(f);
            }
        });
    }

    fn later(&self, d: Ns, f: impl FnOnce(&Nemesis) + Send + 'static) {
        let k = self.clone();
        spawn_h(0, async move {
            sleep_ns(d).await;
            if !k.st.lock().unwrap().stop {
                f(&k);
            }
        });
    }

    fn live_conn(&self, r: u32) -> Option<usize> {
        with(|w| {
            let v: Vec<usize> = w
                .conns
                .iter()
                .filter(|c| c.ends.iter().all(|e| !e.closed && !e.gone && !e.dead))
                .map(|c| c.id)
                .collect();
            if v.is_empty() {
                None
            } else {
                Some(v[r as usize % v.len()])
            }
        })
    }

    pub fn inject(&self, f: Fault) {
        match f {
            Fault::Reset(r) => {
                if let Some(c) = self.live_conn(r) {
                    with(|w| w.reset_conn(c));
                }
            }
            Fault::ResetEnd(r, s) => {
                if let Some(c) = self.live_conn(r) {
                    with(|w| w.reset_end(c, s));
                }
            }
            Fault::Kill(n, d) => {
                let alive = with(|w| w.nodes[n].up) && !self.st.lock().unwrap().down.contains_key(&n);
                if alive {
                    self.st.lock().unwrap().down.insert(n, now() + d);
                    with(|w| w.kill_process(n));
                }
            }
            Fault::Power(n, d) => {
                let alive = with(|w| w.nodes[n].up) && !self.st.lock().unwrap().down.contains_key(&n);
                if alive {
                    self.st.lock().unwrap().down.insert(n, now() + d);
                    with(|w| w.power_off(n));
                }
            }
            Fault::Part(a, b, both, d) => {
                with(|w| {
                    w.block(a, b);
                    if both {
                        w.block(b, a);
                    }
                });
                self.later(d, move |_| {
                    with(|w| {
                        w.heal(a, b);
                        if both {
                            w.heal(b, a);
                        }
                    })
                });
            }
            Fault::Pause(n, d) => {
                with(|w| w.pause(n));
                self.later(d, move |_| with(|w| w.resume(n)));
            }
            Fault::Refuse(n, d) => {
                with(|w| w.nodes[n].refuse = true);
                self.later(d, move |_| with(|w| w.nodes[n].refuse = false));
            }
            Fault::SynDrop(n, d) => {
                with(|w| {
                    w.nodes[n].syn_drop = true;
                    w.count("fault.syn_drop");
                });
                self.later(d, move |_| with(|w| w.nodes[n].syn_drop = false));
            }
            Fault::AcceptErr(n, k, times) => {
                let kind = [ErrorKind::ConnectionAborted, ErrorKind::Other, ErrorKind::OutOfMemory][k as usize];
                for _ in 0..times {
                    with(|w| w.inject_accept_error(n, kind));
                }
            }
            Fault::Impostor(n, mode, d) => {
                let alive = with(|w| w.nodes[n].up) && !self.st.lock().unwrap().down.contains_key(&n);
                if alive {
                    self.st.lock().unwrap().down.insert(n, now() + d);
                    with(|w| {
                        w.kill_process(n);
                        w.count("fault.impostor");
                    });
                    let a = addr(&self.env, n);
                    spawn_h(n, impostor(n, a, mode));
                }
            }
        }
    }

    /// Ends all faults and brings everything up. False if a server does not come back.
    pub async fn stop(&self) -> bool {
        self.st.lock().unwrap().stop = true;
        with(|w| {
            w.plans.clear();
            w.heal_all();
            for n in 0..w.nodes.len() {
                w.nodes[n].refuse = false;
                w.nodes[n].syn_drop = false;
                w.nodes[n].accept_faults.clear();
                if w.nodes[n].paused {
                    w.resume(n);
                }
            }
        });
        self.keep(true);
        self.env.note("all faults stop");
        if self.env.wait_listening(&self.env.servers(), 30 * SEC).await {
            true
        } else {
            self.env.viol("server-not-listening", "faults have stopped, the processes were started, and a server does not listen 30 s later");
            false
        }
    }
}

/// A foreign program on the server's port.
async fn impostor(node: usize, a: std::net::SocketAddr, mode: u32) {
    let l = match tokio::net::TcpListener::bind(a).await {
        Ok(l) => l,
        Err(_) => return,
    };
    loop {
        let (s, _) = match l.accept().await {
            Ok(x) => x,
            Err(_) => return,
        };
        spawn_h(node, async move {
            let mut r = Raw::new(s);
            let far = now() + 3600 * SEC;
            match mode {
                // says nothing
                0 => {
                    while r.fill(far).await {}
                }
                // closes at once
                1 => {}
                // closes after the first bytes
                2 => {
                    r.fill(far).await;
                }
                // resets
                3 => {
                    r.fill(far).await;
                    r.abort();
                }
                // answers with something else
                4 => {
                    r.fill(far).await;
                    r.send(b"HTTP/1.1 400 Bad Request\r\nContent-Length: 0\r\n\r\n").await;
                    while r.fill(far).await {}
                }
                // half an answer
                5 => {
                    r.fill(far).await;
                    let f = crate::wire::frame(crate::wire::INIT_RES, 1, &crate::wire::init_payload(2, &vec![]));
                    r.send(&f[..f.len() - 2]).await;
                    while r.fill(far).await {}
                }
                // another version
                _ => {
                    if let Some(f) = r.frame(far).await {
                        let f = crate::wire::frame(crate::wire::INIT_RES, f.id, &crate::wire::init_payload(3, &vec![]));
                        r.send(&f).await;
                    }
                    while r.fill(far).await {}
                }
            }
        });
    }
}
