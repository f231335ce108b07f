//! One simulated run inside a process of its own, and its result.

use crate::env::*;
use serde_json::{json, Value};
use simcore::{now, with, Choices, NetCfg, SchedCfg, World};
use std::cell::RefCell;
use std::future::Future;
use std::pin::Pin;
use simcore::hsync::{Mutex, MutexGuard};
use std::sync::Arc;

#[derive(Clone)]
pub struct Ctx {
    pub g: Arc<Mutex<Choices>>,
    pub env: Env,
    pub tier: u32,
    pub desc: Arc<Mutex<Vec<String>>>,
    pub nontrivial: Arc<Mutex<bool>>,
}

impl Ctx {
    pub fn g(&self) -> MutexGuard<'_, Choices> {
        self.g.lock().unwrap()
    }
    pub fn describe(&self, s: impl Into<String>) {
        self.desc.lock().unwrap().push(s.into());
    }
    pub fn nontrivial(&self) {
        *self.nontrivial.lock().unwrap() = true;
    }
}

pub type Fut = Pin<Box<dyn Future<Output = ()>>>;
pub type Scenario = fn(Ctx) -> Fut;

#[derive(Clone, Debug)]
pub enum Input {
    Seed(u64),
    Logs { g: Vec<u32>, s: Vec<u32>, entropy: u64 },
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut z = a.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ b.wrapping_add(0xD1B5_4A32_D192_ED03).rotate_left(17);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Input {
    fn streams(&self) -> (Choices, Choices, u64) {
        match self {
            Input::Seed(s) => (Choices::random(mix(*s, 1)), Choices::random(mix(*s, 2)), mix(*s, 3)),
            Input::Logs { g, s, entropy } => (Choices::replay(g.clone()), Choices::replay(s.clone()), *entropy),
        }
    }
    pub fn entropy(&self) -> u64 {
        match self {
            Input::Seed(s) => mix(*s, 3),
            Input::Logs { entropy, .. } => *entropy,
        }
    }
}

thread_local! {
    static CUR: RefCell<Option<(Ctx, i32, bool)>> = const { RefCell::new(None) };
}

/// Collects everything a finished (or stopped) run has to tell.
fn result(ctx: &Ctx, extra: Option<(&str, String)>, full: bool) -> Value {
    let w = unsafe { &mut *simcore::world_ptr() };
    let mut h = ctx.env.h();
    let mut panics = vec![];
    for p in &w.panics {
        if p.msg.contains(PANIC_MARK) {
            continue;
        }
        panics.push(format!("[{:.6}s] node {} panicked: {}", p.at as f64 / 1e9, p.node, p.msg));
    }
    let mut viols: Vec<Viol> = std::mem::take(&mut h.viols);
    for p in panics {
        viols.push(Viol { class: "panic".into(), msg: p });
    }
    if let Some((c, m)) = extra {
        viols.insert(0, Viol { class: c.into(), msg: m });
    }
    let stats: serde_json::Map<String, Value> = w.stats.iter().map(|(k, v)| (k.to_string(), json!(v))).collect();
    let mut v = json!({
        "viols": viols.iter().map(|v| json!([v.class, v.msg])).collect::<Vec<_>>(),
        "hash": w.hash,
        "sim_ns": w.now,
        "polls": w.polls,
        "stats": stats,
        "probes": h.probes,
        "calls": h.calls.len(),
        "invs": h.invs.len(),
        "conns": w.conns.len(),
        "bytes": w.conns.iter().map(|c| c.dirs[0].delivered + c.dirs[1].delivered).sum::<u64>(),
        "nontrivial": *ctx.nontrivial.lock().unwrap(),
    });
    if full || !viols.is_empty() {
        let g = ctx.g.try_lock();
        if let Ok(g) = g {
            v["g"] = json!(g.log);
            v["spans"] = json!(g.spans.iter().map(|(a, b)| json!([a, b])).collect::<Vec<_>>());
        }
        v["s"] = json!(w.s.log);
        v["desc"] = json!(*ctx.desc.lock().unwrap());
        let mut calls = vec![];
        for (i, c) in h.calls.iter().enumerate() {
            calls.push(format!(
                "call {}: node {} -> node {} ({}) service {:?} {:?} expect {:?} cancel {:?}; handler: after {} ms {:?} reply {:?}; start {:?} end {:?} -> {}",
                i,
                c.spec.client,
                c.spec.server,
                c.spec.addr,
                c.spec.service.chars().take(20).collect::<String>(),
                c.spec.req,
                c.spec.expect,
                c.spec.cancel,
                c.spec.resp.delay as f64 / 1e6,
                short(&format!("{:?}", c.spec.resp.out)),
                c.spec.resp.reply,
                c.start,
                c.end,
                match &c.outcome {
                    Some(o) => o.brief(),
                    None if c.abandoned => "abandoned".into(),
                    None => "-".into(),
                }
            ));
            if calls.len() >= 60 {
                break;
            }
        }
        v["call_list"] = json!(calls);
        if w.trace_on {
            v["trace"] = json!(w.trace);
        }
    }
    v
}

fn short(s: &str) -> String {
    s.chars().take(80).collect()
}

fn emit(v: &Value, fd: i32) -> ! {
    let b = serde_json::to_vec(v).unwrap();
    let mut p = 0;
    while p < b.len() {
        let n = unsafe { libc::write(fd, b[p..].as_ptr() as *const libc::c_void, b.len() - p) };
        if n <= 0 {
            break;
        }
        p += n as usize;
    }
    unsafe { libc::_exit(0) }
}

fn stop_with(class: &str, msg: String) -> ! {
    let (ctx, fd, full) = CUR.with(|c| c.borrow().clone()).expect("a run is active");
    let v = result(&ctx, Some((class, msg)), full);
    emit(&v, fd)
}

fn on_overrun() -> ! {
    let t = now();
    stop_with("livelock", format!("[{:.6}s] more than the allowed number of task polls: the tasks never come to rest", t as f64 / 1e9))
}

extern "C" fn on_cpu(_: libc::c_int) {
    if !simcore::active() {
        unsafe { libc::_exit(9) }
    }
    let w = unsafe { &*simcore::world_ptr() };
    let (n, t) = (w.cur_node, w.now);
    stop_with("endless-loop", format!("[{:.6}s] code on node {} computes without end", t as f64 / 1e9, n))
}

struct Log;
impl log::Log for Log {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        let m: String = format!("{}", r.args()).chars().take(300).collect();
        eprintln!("[{:>14.6}s] node {} {} {}: {}", now() as f64 / 1e9, simcore::cur_node(), r.level(), r.target(), m);
    }
    fn flush(&self) {}
}

/// Runs one scenario on this (fresh) thread and never returns.
fn run_here(scn: Scenario, input: Input, tier: u32, fd: i32, full: bool) -> ! {
    let (g, s, entropy) = input.streams();
    let ctx = Ctx {
        g: Arc::new(Mutex::new(g)),
        env: Env::new(),
        tier,
        desc: Arc::new(Mutex::new(vec![])),
        nontrivial: Arc::new(Mutex::new(false)),
    };
    let mut w = World::new(s, SchedCfg::default(), NetCfg::default(), entropy);
    w.trace_on = full;
    simcore::install(w);
    CUR.with(|c| *c.borrow_mut() = Some((ctx.clone(), fd, full)));
    unsafe {
        simcore::libcseam::ON_OVERRUN = Some(on_overrun);
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_cpu as extern "C" fn(libc::c_int) as usize;
        libc::sigaction(libc::SIGXCPU, &sa, std::ptr::null_mut());
        let mut set: libc::sigset_t = std::mem::zeroed();
        libc::sigemptyset(&mut set);
        libc::sigaddset(&mut set, libc::SIGXCPU);
        libc::pthread_sigmask(libc::SIG_UNBLOCK, &set, std::ptr::null_mut());
    }
    std::panic::set_hook(Box::new(move |info| {
        let _own = simcore::mem::owner(0);
        let msg = match info.payload().downcast_ref::<&str>() {
            Some(s) => s.to_string(),
            None => match info.payload().downcast_ref::<String>() {
                Some(s) => s.clone(),
                None => "?".into(),
            },
        };
        let loc = info
            .location()
            .map(|l| {
                let f = l.file();
                let f = match f.rfind("/src/") {
                    Some(i) => {
                        let head = &f[..i];
                        format!("{}{}", head.rsplit('/').next().unwrap_or(""), &f[i..])
                    }
                    None => f.to_string(),
                };
                format!("{}:{}", f, l.line())
            })
            .unwrap_or_default();
        if std::env::var_os("TSIM_DEBUG").is_some() && !msg.contains(PANIC_MARK) {
            eprintln!("panic: {} at {}\n{}", msg, loc, std::backtrace::Backtrace::force_capture());
        }
        simcore::record_panic(format!("{} ({})", msg.chars().take(300).collect::<String>(), loc));
    }));
    if std::env::var_os("TSIM_LOG").is_some() {
        let _ = log::set_logger(&Log).map(|_| log::set_max_level(log::LevelFilter::Trace));
    }
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        rt.block_on(async { scn(ctx.clone()).await });
    }));
    let extra = match r {
        Ok(()) => None,
        Err(_) => Some(("harness", "the scenario itself panicked".to_string())),
    };
    let v = result(&ctx, extra, full);
    emit(&v, fd)
}

fn rlimit(res: libc::__rlimit_resource_t, soft: u64, hard: u64) {
    let l = libc::rlimit { rlim_cur: soft, rlim_max: hard };
    unsafe {
        libc::setrlimit(res, &l);
    }
}

/// Forks a child that performs the run; returns its result. The calling process must be single threaded.
pub fn fork_run(scn: Scenario, input: &Input, tier: u32, full: bool) -> Value {
    let mut fds = [0i32; 2];
    unsafe {
        if libc::pipe(fds.as_mut_ptr()) != 0 {
            return json!({"error": "pipe"});
        }
        let pid = libc::fork();
        if pid < 0 {
            libc::close(fds[0]);
            libc::close(fds[1]);
            return json!({"error": "fork"});
        }
        if pid == 0 {
            libc::close(fds[0]);
            rlimit(libc::RLIMIT_CPU, 20, 24);
            rlimit(libc::RLIMIT_AS, 3 << 30, 3 << 30);
            rlimit(libc::RLIMIT_CORE, 0, 0);
            let mut set: libc::sigset_t = std::mem::zeroed();
            libc::sigemptyset(&mut set);
            libc::sigaddset(&mut set, libc::SIGXCPU);
            libc::pthread_sigmask(libc::SIG_BLOCK, &set, std::ptr::null_mut());
            let input = input.clone();
            let fd = fds[1];
            let t = std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn(move || {
                    run_here(scn, input, tier, fd, full);
                });
            match t {
                Ok(t) => {
                    let _ = t.join();
                    libc::_exit(3)
                }
                Err(_) => libc::_exit(4),
            }
        }
        libc::close(fds[1]);
        let mut buf = Vec::new();
        let start = std::time::Instant::now();
        let mut timed_out = false;
        loop {
            let left = 60_000i64 - start.elapsed().as_millis() as i64;
            if left <= 0 {
                timed_out = true;
                libc::kill(pid, libc::SIGKILL);
                break;
            }
            let mut p = libc::pollfd { fd: fds[0], events: libc::POLLIN, revents: 0 };
            let n = libc::poll(&mut p, 1, left as i32);
            if n <= 0 {
                continue;
            }
            let mut chunk = [0u8; 65536];
            let n = libc::read(fds[0], chunk.as_mut_ptr() as *mut libc::c_void, chunk.len());
            if n <= 0 {
                break;
            }
            buf.extend_from_slice(&chunk[..n as usize]);
        }
        libc::close(fds[0]);
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        if let Ok(v) = serde_json::from_slice::<Value>(&buf) {
            return v;
        }
        let (class, msg) = if timed_out {
            ("blocked", "the thread blocks outside the simulator: no progress for 60 s of real time".to_string())
        } else if libc::WIFSIGNALED(st) {
            match libc::WTERMSIG(st) {
                libc::SIGXCPU | libc::SIGKILL => ("endless-loop", "the run used more than 20 s of CPU without an end".into()),
                libc::SIGABRT => ("process-abort", "the process aborts (allocation failure or double panic)".into()),
                libc::SIGSEGV | libc::SIGBUS => ("process-crash", "the process crashes (stack overflow or memory error)".into()),
                s => ("process-crash", format!("the process dies from signal {}", s)),
            }
        } else {
            ("no-result", format!("the run exits with status {} and no result", libc::WEXITSTATUS(st)))
        };
        json!({"viols": [[class, msg]], "hash": 0, "sim_ns": 0, "polls": 0, "stats": {}, "probes": {}, "calls": 0,
               "invs": 0, "conns": 0, "bytes": 0, "nontrivial": true, "noresult": true})
    }
}

pub fn set_cfg(s: SchedCfg, n: NetCfg) {
    with(|w| {
        w.sched = s;
        w.netcfg = n;
    });
}
