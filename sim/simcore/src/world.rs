use crate::choice::Choices;
use crate::net::{Conn, Connect, ConnPlan, Listener, NetCfg};
use crate::task::TaskInfo;
use std::cell::Cell;
use std::cmp::Reverse;
use std::collections::{BTreeMap, BinaryHeap, VecDeque};
use std::future::Future;
use std::io::ErrorKind;
use std::net::{IpAddr, Ipv4Addr};
use std::pin::Pin;
use std::task::{Context, Poll, Waker};

pub type Ns = u64;
pub type NodeId = usize;

/// How the next ready task is chosen.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Policy {
    /// oldest first: a plain single threaded executor
    Fifo,
    /// uniformly among the ready tasks
    Uniform,
    /// newest first most of the time
    Lifo,
    /// random task priorities, re-drawn now and then (PCT style)
    Priority,
    /// mostly FIFO with occasional random picks
    Mostly,
}

#[derive(Clone, Debug)]
pub struct SchedCfg {
    pub policy: Policy,
    /// mean number of awaits between forced yields (0: never)
    pub yield_gap: u32,
    /// mean number of synchronisation operations of the library between preemptions (0: never)
    pub preempt_gap: u32,
    /// virtual cost of one task poll
    pub poll_cost: Ns,
    /// max number of task polls in a run
    pub max_polls: u64,
}

impl Default for SchedCfg {
    fn default() -> Self {
        SchedCfg { policy: Policy::Fifo, yield_gap: 0, preempt_gap: 0, poll_cost: 2_000, max_polls: 3_000_000 }
    }
}

pub struct Node {
    pub name: String,
    pub ip: Ipv4Addr,
    /// host is powered
    pub up: bool,
    /// process incarnation: bumped by every crash
    pub inc: u32,
    pub paused: bool,
    pub paused_tasks: Vec<Waker>,
    pub next_port: u16,
    pub accept_faults: VecDeque<ErrorKind>,
    /// host answers SYNs with RST although somebody listens
    pub refuse: bool,
    /// host ignores SYNs
    pub syn_drop: bool,
    /// extra per-node clock skew is not used by the library (monotonic clocks only)
    pub panics: u32,
}

pub struct PanicRec {
    pub node: NodeId,
    pub task: u64,
    pub msg: String,
    pub at: Ns,
}

type Ev = Box<dyn FnOnce(&mut World)>;

struct Event {
    at: Ns,
    seq: u64,
    ev: Ev,
}
impl PartialEq for Event {
    fn eq(&self, o: &Self) -> bool {
        self.at == o.at && self.seq == o.seq
    }
}
impl Eq for Event {}
impl PartialOrd for Event {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Event {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        (self.at, self.seq).cmp(&(o.at, o.seq))
    }
}

pub struct World {
    pub now: Ns,
    pub s: Choices,
    pub sched: SchedCfg,
    pub netcfg: NetCfg,
    events: BinaryHeap<Reverse<Event>>,
    seq: u64,
    pub nodes: Vec<Node>,
    pub blocked: std::collections::BTreeSet<(NodeId, NodeId)>,
    pub conns: Vec<Conn>,
    pub listeners: Vec<Listener>,
    pub connects: Vec<Connect>,
    pub plans: Vec<ConnPlan>,
    pub tasks: BTreeMap<u64, TaskInfo>,
    pub next_task: u64,
    pub cur_node: NodeId,
    pub cur_task: u64,
    pub wakes: Vec<Waker>,
    pub trash: Vec<Waker>,
    pub stats: BTreeMap<&'static str, u64>,
    pub hash: u64,
    /// hash of scheduling decisions and network deliveries only
    pub polls: u64,
    pub yield_left: u32,
    pub prios: BTreeMap<u64, u32>,
    pub prio_left: u32,
    pub trace_on: bool,
    pub trace: Vec<String>,
    pub panics: Vec<PanicRec>,
    pub overrun: bool,
    pub mono_base: u64,
    pub rand_state: crate::choice::Rng,
    pub hash_seq: u64,
    pub preempt_left: u32,
    pub preempt_depth: u32,
    pub spawn_node: NodeId,
    /// node of every scheduled task, by sched id
    pub sched_nodes: Vec<NodeId>,
    pub sched_ids: u64,
    pub spawn_as: Option<(NodeId, bool)>,
}

thread_local! {
    static W: Cell<*mut World> = const { Cell::new(std::ptr::null_mut()) };
    static BUSY: Cell<bool> = const { Cell::new(false) };
}

pub fn active() -> bool {
    W.with(|w| !w.get().is_null())
}

pub fn world_ptr() -> *mut World {
    raw()
}

pub(crate) fn raw() -> *mut World {
    W.with(|w| w.get())
}

/// Run `f` on the world, then wake and drop the wakers it collected.
pub fn with<R>(f: impl FnOnce(&mut World) -> R) -> R {
    let p = raw();
    assert!(!p.is_null(), "no simulated world on this thread");
    assert!(!BUSY.with(|b| b.replace(true)), "re-entered the simulator");
    let _own = crate::mem::owner(0);
    let w = unsafe { &mut *p };
    let r = f(w);
    let wakes = std::mem::take(&mut w.wakes);
    let trash = std::mem::take(&mut w.trash);
    BUSY.with(|b| b.set(false));
    for wk in wakes {
        wk.wake();
    }
    drop(trash);
    r
}

pub fn try_with<R>(f: impl FnOnce(&mut World) -> R) -> Option<R> {
    if active() {
        Some(with(f))
    } else {
        None
    }
}

/// Install a world for the current thread.
pub fn install(w: Box<World>) {
    W.with(|c| {
        assert!(c.get().is_null());
        c.set(Box::into_raw(w))
    });
}

pub fn uninstall() -> Box<World> {
    W.with(|c| {
        let p = c.replace(std::ptr::null_mut());
        assert!(!p.is_null());
        unsafe { Box::from_raw(p) }
    })
}

impl World {
    pub fn new(s: Choices, sched: SchedCfg, netcfg: NetCfg, entropy: u64) -> Box<World> {
        Box::new(World {
            now: 0,
            s,
            yield_left: 0,
            sched,
            netcfg,
            events: BinaryHeap::new(),
            seq: 0,
            nodes: vec![],
            blocked: Default::default(),
            conns: vec![],
            listeners: vec![],
            connects: vec![],
            plans: vec![],
            tasks: BTreeMap::new(),
            next_task: 1,
            cur_node: 0,
            cur_task: 0,
            wakes: vec![],
            trash: vec![],
            stats: BTreeMap::new(),
            hash: 0xcbf29ce484222325,
            polls: 0,
            prios: BTreeMap::new(),
            prio_left: 0,
            trace_on: false,
            trace: vec![],
            panics: vec![],
            overrun: false,
            mono_base: 1_000_000 * crate::SEC,
            rand_state: crate::choice::Rng::new(entropy),
            hash_seq: 0,
            preempt_left: 0,
            preempt_depth: 0,
            spawn_node: 0,
            sched_nodes: vec![0],
            sched_ids: 0,
            spawn_as: None,
        })
    }

    pub fn add_node(&mut self, name: &str) -> NodeId {
        let id = self.nodes.len();
        self.nodes.push(Node {
            name: name.into(),
            ip: Ipv4Addr::new(10, 0, 0, id as u8 + 1),
            up: true,
            inc: 0,
            paused: false,
            paused_tasks: vec![],
            next_port: 40000,
            accept_faults: VecDeque::new(),
            refuse: false,
            syn_drop: false,
            panics: 0,
        });
        id
    }

    pub fn node_by_ip(&self, from: NodeId, ip: IpAddr) -> Option<NodeId> {
        match ip {
            IpAddr::V4(v4) if v4.is_loopback() || v4.is_unspecified() => Some(from),
            IpAddr::V4(v4) => self.nodes.iter().position(|n| n.ip == v4),
            IpAddr::V6(v6) if v6.is_loopback() || v6.is_unspecified() => Some(from),
            IpAddr::V6(_) => None,
        }
    }

    pub fn after(&mut self, d: Ns, f: impl FnOnce(&mut World) + 'static) {
        let at = self.now.saturating_add(d);
        self.at(at, f)
    }

    pub fn at(&mut self, at: Ns, f: impl FnOnce(&mut World) + 'static) {
        self.seq += 1;
        let at = at.max(self.now);
        self.events.push(Reverse(Event { at, seq: self.seq, ev: Box::new(f) }));
    }

    pub fn next_event(&self) -> Option<Ns> {
        self.events.peek().map(|e| e.0.at)
    }

    pub fn run_due(&mut self) {
        while let Some(e) = self.events.peek() {
            if e.0.at > self.now {
                break;
            }
            let Reverse(e) = self.events.pop().unwrap();
            (e.ev)(self);
        }
    }

    pub fn note(&mut self, a: u64, b: u64) {
        let mut h = self.hash;
        for v in [a, b, self.now] {
            h ^= v;
            h = h.wrapping_mul(0x100000001b3);
            h ^= h >> 29;
        }
        self.hash = h;
    }

    pub fn count(&mut self, k: &'static str) {
        *self.stats.entry(k).or_insert(0) += 1;
    }

    pub fn count_n(&mut self, k: &'static str, n: u64) {
        *self.stats.entry(k).or_insert(0) += n;
    }

    pub fn tr(&mut self, f: impl FnOnce() -> String) {
        if self.trace_on && self.trace.len() < 20_000 {
            let s = f();
            self.trace.push(format!("[{:>14.6}s] {}", self.now as f64 / 1e9, s));
        }
    }

    pub fn wake_opt(&mut self, w: &mut Option<Waker>) {
        if let Some(w) = w.take() {
            self.wakes.push(w);
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Hooks called from the patched tokio

/// Called by the scheduler before it takes a task: lets due events happen, then picks an index.
pub fn before_poll() {
    if !active() {
        return;
    }
    with(|w| {
        w.polls += 1;
        if w.polls > w.sched.max_polls {
            w.overrun = true;
        }
        w.now += w.sched.poll_cost;
        w.run_due();
    });
    crate::libcseam::check_overrun();
}

pub fn pick(ids: &mut dyn Iterator<Item = u64>, n: usize) -> usize {
    if n <= 1 || !active() {
        return 0;
    }
    with(|w| {
        let n32 = n.min(u32::MAX as usize) as u32;
        let i = match w.sched.policy {
            Policy::Fifo => 0,
            Policy::Uniform => w.s.below(n32),
            Policy::Lifo => {
                if w.s.chance(3, 4) {
                    n32 - 1
                } else {
                    w.s.below(n32)
                }
            }
            Policy::Mostly => {
                if w.s.chance(1, 8) {
                    w.s.below(n32)
                } else {
                    0
                }
            }
            Policy::Priority => {
                if w.prio_left == 0 {
                    w.prios.clear();
                    let g = w.s.gap(200);
                    w.prio_left = if g == 0 { u32::MAX } else { g };
                }
                w.prio_left -= 1;
                let mut best = (0u32, 0usize);
                for (i, id) in ids.enumerate() {
                    let p = match w.prios.get(&id) {
                        Some(p) => *p,
                        None => {
                            let p = w.s.below(1 << 16);
                            w.prios.insert(id, p);
                            p
                        }
                    };
                    if i == 0 || p > best.0 {
                        best = (p, i);
                    }
                }
                best.1 as u32
            }
        };
        if i > 0 {
            w.count("sched.out_of_order_pick");
        }
        i as usize
    })
}

/// Called at every tokio await point of a budgeted task; true means "give up the CPU here".
pub fn coop_yield() -> bool {
    let p = raw();
    if p.is_null() {
        return false;
    }
    let w = unsafe { &mut *p };
    if w.sched.yield_gap == 0 {
        return false;
    }
    if w.yield_left == 0 {
        let g = w.s.gap(w.sched.yield_gap);
        w.yield_left = if g == 0 { u32::MAX } else { g };
    }
    w.yield_left -= 1;
    if w.yield_left == 0 {
        *w.stats.entry("sched.forced_yield").or_insert(0) += 1;
        w.note(0x11, w.cur_task);
        true
    } else {
        false
    }
}

thread_local! {
    /// locks held which a preempted task must not hold
    static HELD: Cell<u32> = const { Cell::new(0) };
    static RUN_ANOTHER: Cell<Option<fn() -> bool>> = const { Cell::new(None) };
}

/// A lock is taken (1) or released (-1): nothing is preempted as long as one is held.
pub fn held(d: i32) {
    // a guard may outlive the thread-local storage
    let _ = HELD.try_with(|h| h.set(h.get().wrapping_add_signed(d)));
}

/// How to run another ready task of the current node from within a task.
pub fn set_run_another(f: fn() -> bool) {
    RUN_ANOTHER.with(|r| r.set(Some(f)));
}

/// A synchronisation operation of the library is about to happen. Other tasks of the same process may run before
/// it does, as they would if a thread was preempted here.
pub fn preempt() {
    let p = raw();
    if p.is_null() || BUSY.with(|b| b.get()) || HELD.with(|h| h.get()) != 0 || std::thread::panicking() {
        return;
    }
    let w = unsafe { &mut *p };
    if w.sched.preempt_gap == 0 || w.cur_task == 0 || w.cur_node == 0 || w.preempt_depth >= 3 {
        return;
    }
    if w.preempt_left == 0 {
        let g = w.s.gap(w.sched.preempt_gap);
        w.preempt_left = if g == 0 { u32::MAX } else { g };
    }
    w.preempt_left -= 1;
    if w.preempt_left != 0 {
        return;
    }
    let Some(run) = RUN_ANOTHER.with(|r| r.get()) else { return };
    let n = match w.s.below(4) {
        0 => 1,
        1 => 2,
        2 => 4,
        _ => 12,
    };
    w.preempt_depth += 1;
    w.note(0x12, w.cur_task);
    w.count("sched.preempted");
    for i in 0..n {
        if !run() {
            if i == 0 {
                unsafe { &mut *p }.count("sched.preempted_alone");
            }
            break;
        }
    }
    unsafe { &mut *p }.preempt_depth -= 1;
}

/// Called by the scheduler: which of the ready tasks runs while the current one is preempted.
pub fn pick_other(ids: &mut dyn Iterator<Item = u64>) -> Option<usize> {
    with(|w| {
        let c: Vec<usize> =
            ids.enumerate().filter(|(_, id)| w.sched_nodes.get(*id as usize) == Some(&w.cur_node)).map(|x| x.0).collect();
        if c.is_empty() {
            return None;
        }
        w.polls += 1;
        w.now += w.sched.poll_cost;
        w.count("sched.polls_while_preempted");
        Some(c[w.s.below(c.len() as u32) as usize])
    })
}

/// Nothing is runnable: jump to the next event, at most `limit` ahead.
pub fn idle(limit: Option<std::time::Duration>) {
    if !active() {
        return;
    }
    with(|w| {
        let lim = limit.map(|d| w.now.saturating_add(d.as_nanos().min(u64::MAX as u128) as u64));
        let next = w.next_event();
        let t = match (lim, next) {
            (Some(a), Some(b)) => a.min(b),
            (Some(a), None) => a,
            (None, Some(b)) => b,
            (None, None) => {
                eprintln!("simulator: nothing can ever happen again at {} ns", w.now);
                if w.trace_on {
                    for l in w.trace.iter().rev().take(40).rev() {
                        eprintln!("{}", l);
                    }
                }
                std::process::abort();
            }
        };
        if t > w.now {
            w.now = t;
        }
        w.run_due();
    });
}

/// Creation order of scheduled tasks.
pub fn next_sched_id() -> u64 {
    let p = raw();
    if p.is_null() {
        return 0;
    }
    unsafe {
        let w = &mut *p;
        w.sched_ids += 1;
        w.sched_nodes.push(w.spawn_node);
        w.sched_ids
    }
}

/// Random numbers used inside tokio (select! branch order).
pub fn rand_n(n: u32) -> u32 {
    if !active() {
        return 0;
    }
    with(|w| w.s.below(n))
}

pub fn now() -> Ns {
    let p = raw();
    if p.is_null() {
        0
    } else {
        unsafe { (*p).now }
    }
}

pub fn cur_node() -> NodeId {
    let p = raw();
    if p.is_null() {
        0
    } else {
        unsafe { (*p).cur_node }
    }
}

pub fn record_panic(msg: String) {
    let p = raw();
    if p.is_null() {
        return;
    }
    // may be called while the world is borrowed: only touch plain fields
    let w = unsafe { &mut *p };
    let (node, task, at) = (w.cur_node, w.cur_task, w.now);
    if w.panics.len() < 50 {
        w.panics.push(PanicRec { node, task, msg, at });
    }
}

// ---------------------------------------------------------------------------------------------
// Virtual sleep for the harness (exact nanoseconds)

pub struct Sleep {
    until: Ns,
    cell: Option<std::sync::Arc<std::sync::Mutex<Option<Waker>>>>,
}

pub fn sleep_ns(d: Ns) -> Sleep {
    Sleep { until: now().saturating_add(d), cell: None }
}

pub fn sleep_until(t: Ns) -> Sleep {
    Sleep { until: t, cell: None }
}

impl Future for Sleep {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if now() >= self.until {
            return Poll::Ready(());
        }
        match &self.cell {
            Some(c) => {
                *c.lock().unwrap() = Some(cx.waker().clone());
            }
            None => {
                let c = std::sync::Arc::new(std::sync::Mutex::new(Some(cx.waker().clone())));
                let c2 = c.clone();
                let until = self.until;
                with(|w| {
                    w.at(until, move |w| {
                        if let Some(wk) = c2.lock().unwrap().take() {
                            w.wakes.push(wk);
                        }
                    })
                });
                self.cell = Some(c);
            }
        }
        Poll::Pending
    }
}

pub fn noop_waker() -> Waker {
    use std::task::{RawWaker, RawWakerVTable};
    const VT: RawWakerVTable = RawWakerVTable::new(|_| RawWaker::new(std::ptr::null(), &VT), |_| {}, |_| {}, |_| {});
    unsafe { Waker::from_raw(RawWaker::new(std::ptr::null(), &VT)) }
}
