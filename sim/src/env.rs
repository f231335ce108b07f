//! The harness side of a run: nodes that run the library, handlers that follow a plan, callers, and the history of
//! everything that happened.

use crate::content::*;
use futures::FutureExt;
use simcore::{cur_node, now, sleep_ns, sleep_until, with, Ns, MS, SEC};
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::future::Future;
use std::marker::PhantomData;
use std::net::{IpAddr, Ipv4Addr, SocketAddr};
use std::panic::AssertUnwindSafe;
use std::pin::Pin;
use simcore::hsync::{Mutex, MutexGuard};
use simcore::mem::Owned;
use std::sync::Arc;
use std::task::{Context, Poll, Waker};
use tchannel_rs::errors::{CodecError, ConnectionError, HandlerError, TChannelError};
use tchannel_rs::handler::{HandlerResult, RequestHandler, RequestHandlerAsync};
use tchannel_rs::messages::{JsonMessage, Message, MessageChannel, RawMessage};
use tchannel_rs::{Config, ConfigBuilder, SubChannel, TChannel};

pub const PANIC_MARK: &str = "planned handler panic";

#[derive(Clone, Debug, PartialEq)]
pub struct Cfg {
    pub max_conn: u32,
    pub lifetime: Option<Ns>,
    pub test: bool,
    pub fbs: usize,
    pub tasks: usize,
    pub port: u16,
    pub any_ip: bool,
}

impl Default for Cfg {
    fn default() -> Cfg {
        Cfg { max_conn: 1, lifetime: Some(60 * SEC), test: false, fbs: 100, tasks: 4, port: 8888, any_ip: false }
    }
}

impl Cfg {
    pub fn build(&self, node: usize) -> Config {
        let ip = if self.any_ip { Ipv4Addr::UNSPECIFIED } else { node_ip(node) };
        ConfigBuilder::default()
            .max_connections(self.max_conn)
            .lifetime(self.lifetime.map(std::time::Duration::from_nanos))
            .test_connection(self.test)
            .frame_buffer_size(self.fbs)
            .server_address(SocketAddr::new(IpAddr::V4(ip), self.port))
            .server_tasks(self.tasks)
            .build()
            .unwrap()
    }
}

pub fn node_ip(node: usize) -> Ipv4Addr {
    Ipv4Addr::new(10, 0, 0, node as u8 + 1)
}

#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Ok,
    MsgErr,
    Gen(String),
    /// internal error of the given kind
    Int(u8, String),
    Panic,
}

/// What the handler does with one request.
#[derive(Clone, Debug, PartialEq)]
pub struct Resp {
    pub delay: Ns,
    pub out: Out,
    pub reply: Content,
    /// a call that the handler makes itself before it answers
    pub fwd: Option<Arc<CallSpec>>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Reg {
    pub service: String,
    pub ep: String,
    pub fmt: Fmt,
    pub asynch: bool,
}

#[derive(Clone, Debug)]
pub struct NodeSpec {
    pub server: bool,
    pub cfg: Cfg,
    pub regs: Vec<Reg>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cancel {
    After(Ns),
    Polls(u32),
}

/// Why a call is expected to fail, if it is.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Expect {
    Served,
    NoService,
    NoEndpoint,
    /// the handler is registered for the other message format
    WrongFormat,
    /// the request cannot be encoded
    Unsendable,
    /// the reply cannot be sent
    BadReply,
    /// nobody listens at that address
    NoHost,
}

#[derive(Clone, Debug, PartialEq)]
pub struct CallSpec {
    pub client: usize,
    pub server: usize,
    pub addr: SocketAddr,
    pub service: String,
    pub req: Content,
    pub resp: Resp,
    pub expect: Expect,
    pub cancel: Option<Cancel>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Outcome {
    Ok(Content),
    MsgErr(Content),
    General(String),
    /// kind: 0 plain, 1 connection, 2 codec, 3 pool
    Internal(u8, String),
    Panicked,
}

impl Outcome {
    pub fn brief(&self) -> String {
        let cut = |s: &String| s.chars().take(200).collect::<String>();
        match self {
            Outcome::Ok(c) => format!("Ok {:?}", c),
            Outcome::MsgErr(c) => format!("MessageError {:?}", c),
            Outcome::General(s) => format!("GeneralError {}", cut(s)),
            Outcome::Internal(k, s) => format!("InternalError/{} {}", k, cut(s)),
            Outcome::Panicked => "panicked".into(),
        }
    }
    pub fn is_err(&self) -> bool {
        !matches!(self, Outcome::Ok(_))
    }
}

#[derive(Clone, Debug)]
pub struct CallRec {
    pub spec: CallSpec,
    pub inc: u32,
    pub start: Option<Ns>,
    pub sent: Option<Ns>,
    pub end: Option<Ns>,
    pub outcome: Option<Outcome>,
    pub abandoned: bool,
    /// hang checks do not apply
    pub excused: bool,
    /// an error is as good as the planned outcome
    pub may_fail: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Exit {
    Returned,
    Dropped,
    Panicked,
}

#[derive(Clone, Debug)]
pub struct InvRec {
    pub node: usize,
    pub inc: u32,
    pub service: String,
    pub ep: String,
    pub inst: usize,
    /// a call of the group this invocation belongs to
    pub call: Option<usize>,
    /// what an unplanned request contained
    pub content: Option<Content>,
    pub enter: Ns,
    pub seq_enter: u64,
    pub exit: Option<(Ns, Exit)>,
    pub seq_exit: u64,
}

#[derive(Clone, Debug)]
pub struct Viol {
    pub class: String,
    pub msg: String,
}

#[derive(Default)]
pub struct NodeState {
    pub chan: Option<(u32, Arc<TChannel>)>,
    /// tasks of a server before anybody connects
    pub idle_tasks: usize,
    /// subchannels that callers keep after the channel is gone
    pub kept: BTreeMap<String, Arc<SubChannel>>,
    pub spec: Option<NodeSpec>,
    pub ready: bool,
}

#[derive(Clone)]
pub struct GroupInfo {
    pub calls: Vec<usize>,
    pub begun: u32,
    pub invs: u32,
    pub returned: u32,
    pub oks: u32,
}

#[derive(Default)]
pub struct Hist {
    pub calls: Vec<CallRec>,
    pub groups: BTreeMap<(usize, String, Content), GroupInfo>,
    pub invs: Vec<InvRec>,
    pub busy: BTreeMap<usize, usize>,
    pub viols: Vec<Viol>,
    pub nodes: Vec<NodeState>,
    pub jobs_live: usize,
    pub waiters: Vec<Waker>,
    pub next_inst: usize,
    pub seq: u64,
    pub probes: BTreeMap<String, u64>,
    pub notes: Vec<String>,
    /// connections and the offset by which their server's stream cannot be understood any more
    /// legal peers rest for so long in the middle of their messages
    pub slow_peers: Ns,
    pub poisoned: Vec<(usize, u64)>,
    /// handlers may run without a matching plan (used where the checks are made elsewhere)
    pub lax: bool,
}

#[derive(Clone)]
pub struct Env(pub Arc<Mutex<Hist>>);

impl Env {
    pub fn new() -> Env {
        Env(Arc::new(Mutex::new(Hist::default())))
    }
    pub fn h(&self) -> Held<'_> {
        let own = simcore::mem::owner(0);
        match self.0.lock() {
            Ok(g) => Held(g, own),
            Err(p) => Held(p.into_inner(), own),
        }
    }
    pub fn viol(&self, class: &str, msg: impl Into<String>) {
        self.h().viol(class, msg);
    }
    pub fn probe(&self, k: impl Into<String>) {
        *self.h().probes.entry(k.into()).or_insert(0) += 1;
    }
    pub fn note(&self, s: impl Into<String>) {
        let s = s.into();
        with(|w| w.tr(|| s.clone()));
    }
}

/// The history, during the use of which memory is allocated for the harness.
pub struct Held<'a>(MutexGuard<'a, Hist>, #[allow(dead_code)] simcore::mem::Owner);

impl std::ops::Deref for Held<'_> {
    type Target = Hist;
    fn deref(&self) -> &Hist {
        &self.0
    }
}

impl std::ops::DerefMut for Held<'_> {
    fn deref_mut(&mut self) -> &mut Hist {
        &mut self.0
    }
}

impl Hist {
    pub fn viol(&mut self, class: &str, msg: impl Into<String>) {
        if self.viols.len() < 20 {
            let msg = msg.into();
            let t = now() as f64 / 1e9;
            self.viols.push(Viol { class: class.into(), msg: format!("[{:.6}s] {}", t, msg) });
        }
    }
    pub fn add_call(&mut self, spec: CallSpec) -> usize {
        let id = self.calls.len();
        let key = (spec.server, spec.service.clone(), spec.req.clone());
        self.groups
            .entry(key)
            .or_insert(GroupInfo { calls: vec![], begun: 0, invs: 0, returned: 0, oks: 0 })
            .calls
            .push(id);
        self.calls.push(CallRec {
            spec,
            inc: 0,
            start: None,
            sent: None,
            end: None,
            outcome: None,
            abandoned: false,
            excused: false,
            may_fail: false,
        });
        id
    }
    /// The reply planned for a request, if that request is one of the planned ones.
    pub fn planned(&self, server: usize, service: &str, req: &Content) -> Option<Resp> {
        self.groups
            .get(&(server, service.to_string(), req.clone()))
            .map(|g| self.calls[g.calls[0]].spec.resp.clone())
    }
    /// Bytes, delays of handlers and number of calls that a call leads to. Equal requests get equal replies.
    pub fn cost(&self, spec: &CallSpec) -> (usize, Ns, usize) {
        let resp = self.planned(spec.server, &spec.service, &spec.req).unwrap_or_else(|| spec.resp.clone());
        let text = match &resp.out {
            Out::Gen(s) | Out::Int(_, s) => s.len(),
            _ => 0,
        };
        let mut c = (spec.req.len() + resp.reply.len() + text + 600, resp.delay, 1);
        if let Some(f) = &resp.fwd {
            let d = self.cost(f);
            c = (c.0 + d.0, c.1 + d.1, c.2 + d.2);
        }
        c
    }
    pub fn begin(&mut self, id: usize) {
        let key = {
            let c = &mut self.calls[id];
            c.start = Some(now());
            (c.spec.server, c.spec.service.clone(), c.spec.req.clone())
        };
        if let Some(g) = self.groups.get_mut(&key) {
            g.begun += 1;
        }
    }
    pub fn wake_all(&mut self) {
        for w in self.waiters.drain(..) {
            w.wake();
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Messages

pub trait Msg: Message + Clone + Sync + 'static {
    fn content(&self) -> Content;
    fn build(c: &Content) -> Self;
    const FMT: Fmt;
}

impl Msg for RawMessage {
    fn content(&self) -> Content {
        Content::of_raw(self)
    }
    fn build(c: &Content) -> Self {
        c.raw()
    }
    const FMT: Fmt = Fmt::Raw;
}

impl Msg for JsonMessage {
    fn content(&self) -> Content {
        Content::of_json(self)
    }
    fn build(c: &Content) -> Self {
        c.json()
    }
    const FMT: Fmt = Fmt::Json;
}

// ---------------------------------------------------------------------------------------------
// Handlers

pub struct HCtx<M> {
    env: Env,
    node: usize,
    inc: u32,
    reg: Reg,
    pub inst: usize,
    _m: PhantomData<fn(M) -> M>,
}

impl<M> Debug for HCtx<M> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "handler {}/{}", self.reg.service, self.reg.ep)
    }
}

impl<M> HCtx<M> {
    pub fn new(env: &Env, node: usize, reg: &Reg) -> HCtx<M> {
        let inst = {
            let mut h = env.h();
            h.next_inst += 1;
            h.next_inst
        };
        let inc = with(|w| w.nodes[node].inc);
        HCtx { env: env.clone(), node, inc, reg: reg.clone(), inst, _m: PhantomData }
    }

    fn enter(&self, c: &Content) -> (Guard, Option<Resp>) {
        let mut h = self.env.h();
        let t = now();
        h.seq += 1;
        let seq = h.seq;
        let idx = h.invs.len();
        if cur_node() != self.node {
            h.viol("harness", format!("handler of node {} runs on node {}", self.node, cur_node()));
        }
        if let Some(other) = h.busy.get(&self.inst).copied() {
            h.viol(
                "handler-reentered",
                format!("handler {}/{} entered while its invocation {} is still running", self.reg.service, self.reg.ep, other),
            );
        }
        h.busy.insert(self.inst, idx);
        if c.ep != self.reg.ep {
            h.viol(
                "wrong-handler",
                format!("handler {}/{} got a request for endpoint {:?}", self.reg.service, self.reg.ep, c.ep),
            );
        }
        let key = (self.node, self.reg.service.clone(), c.clone());
        let mut resp = None;
        let mut call = None;
        let g = h.groups.get_mut(&key).map(|g| {
            g.invs += 1;
            (g.calls[0], g.invs, g.begun)
        });
        match g {
            Some((c0, invs, begun)) => {
                call = Some(c0);
                resp = Some(h.calls[c0].spec.resp.clone());
                if invs > begun {
                    h.viol(
                        if begun == 0 { "handler-ran-before-call" } else { "handler-ran-twice" },
                        format!("{} invocations for {} started calls of {:?} (call {})", invs, begun, c, c0),
                    );
                }
            }
            None => {
                if !h.lax {
                    let elsewhere: Vec<_> = h.groups.keys().filter(|k| k.2 == *c).map(|k| (k.0, k.1.clone())).collect();
                    if elsewhere.is_empty() {
                        h.viol(
                            "invented-request",
                            format!("handler {}/{} on node {} got a request nobody sent: {:?}", self.reg.service, self.reg.ep, self.node, c),
                        );
                    } else {
                        h.viol(
                            "misrouted-request",
                            format!(
                                "handler {}/{} on node {} got a request that was sent to {:?}",
                                self.reg.service, self.reg.ep, self.node, elsewhere
                            ),
                        );
                    }
                }
            }
        }
        h.invs.push(InvRec {
            node: self.node,
            inc: self.inc,
            service: self.reg.service.clone(),
            ep: self.reg.ep.clone(),
            inst: self.inst,
            content: if call.is_none() { Some(c.clone()) } else { None },
            call,
            enter: t,
            seq_enter: seq,
            exit: None,
            seq_exit: 0,
        });
        drop(h);
        self.env.note(format!("handler {}/{} entered (inv {}, call {:?})", self.reg.service, self.reg.ep, idx, call));
        (Guard { env: self.env.clone(), idx, inst: self.inst, key, done: false }, resp)
    }
}

struct Guard {
    env: Env,
    idx: usize,
    inst: usize,
    key: (usize, String, Content),
    done: bool,
}

impl Guard {
    fn finish(&mut self, how: Exit) {
        if self.done {
            return;
        }
        self.done = true;
        let mut h = self.env.h();
        h.seq += 1;
        let seq = h.seq;
        if h.busy.get(&self.inst) == Some(&self.idx) {
            h.busy.remove(&self.inst);
        }
        h.invs[self.idx].exit = Some((now(), how.clone()));
        h.invs[self.idx].seq_exit = seq;
        if how == Exit::Returned {
            if let Some(g) = h.groups.get_mut(&self.key) {
                g.returned += 1;
            }
        }
        drop(h);
        self.env.note(format!("handler invocation {} ends: {:?}", self.idx, how));
    }
}

impl Drop for Guard {
    fn drop(&mut self) {
        let how = if std::thread::panicking() { Exit::Panicked } else { Exit::Dropped };
        self.finish(how);
    }
}

fn answer<M: Msg>(g: &mut Guard, resp: Option<Resp>, c: &Content) -> HandlerResult<M> {
    let r = match resp {
        Some(r) => r,
        None => {
            g.finish(Exit::Returned);
            return Ok(M::build(c));
        }
    };
    if r.out == Out::Panic {
        panic!("{}", PANIC_MARK);
    }
    g.finish(Exit::Returned);
    match r.out {
        Out::Ok => Ok(M::build(&r.reply)),
        Out::MsgErr => Err(HandlerError::MessageError(M::build(&r.reply))),
        Out::Gen(s) => Err(HandlerError::GeneralError(s)),
        Out::Int(k, s) => Err(HandlerError::InternalError(match k {
            0 => TChannelError::Error(s),
            1 => TChannelError::ConnectionError(ConnectionError::Error(s)),
            2 => TChannelError::CodecError(CodecError::Error(s)),
            _ => TChannelError::ConnectionPoolError(bb8_timeout()),
        })),
        Out::Panic => unreachable!(),
    }
}

fn bb8_timeout() -> bb8::RunError<ConnectionError> {
    bb8::RunError::TimedOut
}

#[derive(Debug)]
pub struct SyncH<M>(pub HCtx<M>);
#[derive(Debug)]
pub struct AsyncH<M>(pub HCtx<M>);

impl<M: Msg> RequestHandler for SyncH<M> {
    type REQ = M;
    type RES = M;
    fn handle(&mut self, request: M) -> HandlerResult<M> {
        let c = request.content();
        let (mut g, resp) = self.0.enter(&c);
        answer(&mut g, resp, &c)
    }
}

impl<M: Msg> RequestHandlerAsync for AsyncH<M> {
    type REQ = M;
    type RES = M;
    fn handle(&mut self, request: M) -> Pin<Box<dyn Future<Output = HandlerResult<M>> + Send + '_>> {
        Box::pin(async move {
            let c = request.content();
            let (mut g, resp) = self.0.enter(&c);
            let d = resp.as_ref().map(|r| r.delay).unwrap_or(0);
            if d > 0 {
                sleep_ns(d).await;
            }
            if let Some(f) = resp.as_ref().and_then(|r| r.fwd.clone()) {
                if !forward(&self.0.env, &f).await {
                    g.finish(Exit::Returned);
                    return Err(HandlerError::GeneralError("a call made by the handler failed".into()));
                }
            }
            answer(&mut g, resp, &c)
        })
    }
}

/// A handler calls another handler. False if that call failed though its handler did not want it to.
async fn forward(env: &Env, spec: &CallSpec) -> bool {
    struct Given(Env, usize, bool);
    impl Drop for Given {
        fn drop(&mut self) {
            if !self.2 {
                self.0.h().calls[self.1].abandoned = true;
            }
        }
    }
    let chan = match env.chan(spec.client) {
        Some(c) => c,
        None => return false,
    };
    let id = env.h().add_call(spec.clone());
    with(|w| w.count("calls.from_handlers"));
    let mut given = Given(env.clone(), id, false);
    let r = env.call(chan, id).await;
    given.2 = true;
    match r {
        Some(Outcome::Ok(_)) | Some(Outcome::MsgErr(_)) => true,
        None | Some(Outcome::Panicked) => false,
        _ => spec.expect != Expect::Served || !matches!(spec.resp.out, Out::Ok | Out::MsgErr),
    }
}

pub async fn register(env: &Env, node: usize, sub: &SubChannel, reg: &Reg) -> Result<usize, String> {
    let mut inst = 0;
    register_noting(env, node, sub, reg, &mut inst).await.map(|_| inst)
}

/// The number of the handler instance is known even if the registration is abandoned.
pub async fn register_noting(env: &Env, node: usize, sub: &SubChannel, reg: &Reg, inst: &mut usize) -> Result<(), String> {
    let r = match (reg.fmt, reg.asynch) {
        (Fmt::Raw, true) => {
            let h = HCtx::<RawMessage>::new(env, node, reg);
            *inst = h.inst;
            sub.register_async(&reg.ep, AsyncH(h)).await
        }
        (Fmt::Raw, false) => {
            let h = HCtx::<RawMessage>::new(env, node, reg);
            *inst = h.inst;
            sub.register(&reg.ep, SyncH(h)).await
        }
        (Fmt::Json, true) => {
            let h = HCtx::<JsonMessage>::new(env, node, reg);
            *inst = h.inst;
            sub.register_async(&reg.ep, AsyncH(h)).await
        }
        (Fmt::Json, false) => {
            let h = HCtx::<JsonMessage>::new(env, node, reg);
            *inst = h.inst;
            sub.register(&reg.ep, SyncH(h)).await
        }
    };
    r.map_err(|e| e.to_string())
}

// ---------------------------------------------------------------------------------------------
// Nodes

pub fn spawn_h(node: usize, f: impl Future<Output = ()> + Send + 'static) {
    simcore::spawn_as(node, true);
    tokio::spawn(f);
}

impl Env {
    /// Registers the node in the world. Nodes are numbered from 1, node 0 is the operator.
    pub fn add_node(&self, spec: NodeSpec) -> usize {
        let name = if spec.server { "server" } else { "client" };
        let id = with(|w| {
            if w.nodes.is_empty() {
                w.add_node("operator");
            }
            w.add_node(name)
        });
        let mut h = self.h();
        while h.nodes.len() <= id {
            h.nodes.push(NodeState::default());
        }
        h.nodes[id].spec = Some(spec);
        id
    }

    /// Starts the process of a node: a channel, its handlers, and the server if it has one.
    pub fn boot(&self, node: usize) {
        let env = self.clone();
        let spec = {
            let mut h = self.h();
            h.nodes[node].ready = false;
            if let Some(old) = h.nodes[node].chan.take() {
                // belonged to a process that was killed
                std::mem::forget(old);
            }
            h.nodes[node].spec.clone().unwrap()
        };
        spawn_h(node, async move {
            let inc = with(|w| w.nodes[node].inc);
            let chan = match TChannel::new(spec.cfg.build(node)) {
                Ok(c) => Arc::new(c),
                Err(e) => {
                    env.viol("harness", format!("TChannel::new failed: {}", e));
                    return;
                }
            };
            for reg in &spec.regs {
                match chan.subchannel(&reg.service).await {
                    Ok(sub) => {
                        if let Err(e) = register(&env, node, &sub, reg).await {
                            env.viol("register-failed", format!("{}/{}: {}", reg.service, reg.ep, e));
                        }
                    }
                    Err(e) => env.viol("subchannel-failed", format!("{}: {}", reg.service, e)),
                }
            }
            if spec.server {
                if let Err(e) = chan.start_server() {
                    env.viol("start-failed", e.to_string());
                }
            }
            let mut h = env.h();
            h.nodes[node].chan = Some((inc, chan));
            h.nodes[node].ready = true;
            h.wake_all();
        });
    }

    pub fn chan(&self, node: usize) -> Option<Arc<TChannel>> {
        let inc = with(|w| w.nodes[node].inc);
        let h = self.h();
        match &h.nodes[node].chan {
            Some((i, c)) if *i == inc => Some(c.clone()),
            _ => None,
        }
    }

    /// What a call can be made with: the channel of the node, or a subchannel that outlived it.
    pub fn via(&self, node: usize, id: usize) -> Option<Via> {
        if let Some(c) = self.chan(node) {
            return Some(if id % 2 == 0 { Via::Chan(c) } else { Via::Brief(c) });
        }
        let h = self.h();
        let sub = h.nodes[node].kept.get(&h.calls[id].spec.service).cloned();
        drop(h);
        if sub.is_some() {
            with(|w| w.count("calls.by_kept_subchannel"));
        }
        sub.map(Via::Sub)
    }

    /// Keeps the subchannels through which this node calls others, and drops the channel.
    pub async fn drop_but_keep(&self, node: usize) -> bool {
        let chan = match self.chan(node) {
            Some(c) => c,
            None => return false,
        };
        let services: Vec<String> = self.h().calls.iter().filter(|c| c.spec.client == node).map(|c| c.spec.service.clone()).collect();
        let env = self.clone();
        let (tx, rx) = futures::channel::oneshot::channel();
        spawn_h(node, async move {
            for s in services {
                if let Ok(sub) = chan.subchannel(&s).await {
                    env.h().nodes[node].kept.insert(s, sub);
                }
            }
            drop(chan);
            let _ = tx.send(());
        });
        let _ = rx.await;
        self.drop_chan(node)
    }

    pub fn drop_kept(&self, node: usize) {
        let v = std::mem::take(&mut self.h().nodes[node].kept);
        let prev = with(|w| std::mem::replace(&mut w.cur_node, node));
        drop(v);
        with(|w| w.cur_node = prev);
    }

    /// Removes the harness's reference to the channel of a node.
    pub fn drop_chan(&self, node: usize) -> bool {
        let inc = with(|w| w.nodes[node].inc);
        let c = self.h().nodes[node].chan.take();
        match c {
            Some((i, c)) if i == inc => {
                // the drop happens as part of the node's process
                let prev = with(|w| std::mem::replace(&mut w.cur_node, node));
                drop(c);
                with(|w| w.cur_node = prev);
                true
            }
            Some(c) => {
                std::mem::forget(c);
                false
            }
            None => false,
        }
    }

    pub fn servers(&self) -> Vec<usize> {
        let h = self.h();
        (0..h.nodes.len()).filter(|i| h.nodes[*i].spec.as_ref().map(|s| s.server).unwrap_or(false)).collect()
    }

    pub fn all_nodes(&self) -> Vec<usize> {
        let h = self.h();
        (0..h.nodes.len()).filter(|i| h.nodes[*i].spec.is_some()).collect()
    }

    /// Boots every node and waits until all servers listen. False if that never happens.
    pub async fn boot_all(&self) -> bool {
        for n in self.all_nodes() {
            self.boot(n);
        }
        let end = now() + 30 * SEC;
        let ok = self.wait_listening(&self.servers(), 30 * SEC).await;
        while !self.all_ready() && now() < end {
            sleep_ns(MS).await;
        }
        self.note_idle();
        ok
    }

    /// Peers that are no library nodes have no spec.
    fn all_ready(&self) -> bool {
        self.h().nodes.iter().all(|n| n.spec.is_none() || n.ready)
    }

    pub fn note_idle(&self) {
        for n in self.servers() {
            let tasks = with(|w| w.live_tasks(n));
            self.h().nodes[n].idle_tasks = tasks;
        }
    }

    pub async fn wait_listening(&self, servers: &[usize], limit: Ns) -> bool {
        let end = now() + limit;
        loop {
            let ok = with(|w| servers.iter().all(|s| w.open_listeners(*s) > 0));
            let ready = {
                let h = self.h();
                servers.iter().all(|s| h.nodes[*s].ready)
            };
            if ok && ready {
                return true;
            }
            if now() >= end {
                return false;
            }
            sleep_ns(MS).await;
        }
    }

    /// Spawns a job on a node; `wait_jobs` waits for it.
    pub fn job(&self, node: usize, f: impl Future<Output = ()> + Send + 'static) {
        self.h().jobs_live += 1;
        let g = JobGuard(self.clone());
        spawn_h(node, async move {
            let _g = g;
            f.await;
        });
    }

    /// True when all jobs ended before the given time.
    pub async fn wait_jobs(&self, until: Ns) -> bool {
        WaitJobs { env: self.clone(), sleep: sleep_until(until), until }.await
    }
}

struct JobGuard(Env);
impl Drop for JobGuard {
    fn drop(&mut self) {
        let mut h = self.0.h();
        h.jobs_live -= 1;
        h.wake_all();
    }
}

struct WaitJobs {
    env: Env,
    sleep: simcore::Sleep,
    until: Ns,
}
impl Future for WaitJobs {
    type Output = bool;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<bool> {
        {
            let mut h = self.env.h();
            if h.jobs_live == 0 {
                return Poll::Ready(true);
            }
            h.waiters.push(cx.waker().clone());
        }
        if now() >= self.until {
            return Poll::Ready(false);
        }
        let _ = Pin::new(&mut self.sleep).poll(cx);
        Poll::Pending
    }
}

// ---------------------------------------------------------------------------------------------
// Calls

/// Runs a future until it is done or until the planned moment of abandonment.
pub struct Limited<F> {
    fut: Pin<Box<F>>,
    polls: Option<u32>,
    sleep: Option<simcore::Sleep>,
}

impl<F: Future> Future for Limited<F> {
    type Output = Option<F::Output>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        if let Some(n) = self.polls {
            if n == 0 {
                return Poll::Ready(None);
            }
            self.polls = Some(n - 1);
        }
        if let Poll::Ready(v) = self.fut.as_mut().poll(cx) {
            return Poll::Ready(Some(v));
        }
        if self.polls == Some(0) {
            return Poll::Ready(None);
        }
        if let Some(s) = &mut self.sleep {
            if Pin::new(s).poll(cx).is_ready() {
                return Poll::Ready(None);
            }
        }
        Poll::Pending
    }
}

pub fn limited<F: Future>(fut: F, cancel: Option<Cancel>) -> Limited<F> {
    let (polls, sleep) = match cancel {
        None => (None, None),
        Some(Cancel::After(d)) => (None, Some(sleep_ns(d))),
        Some(Cancel::Polls(n)) => (Some(n), None),
    };
    Limited { fut: Box::pin(fut), polls, sleep }
}

fn outcome<M: Msg>(r: HandlerResult<M>) -> Outcome {
    match r {
        Ok(m) => Outcome::Ok(m.content()),
        Err(HandlerError::MessageError(m)) => Outcome::MsgErr(m.content()),
        Err(HandlerError::GeneralError(s)) => Outcome::General(s),
        Err(HandlerError::InternalError(e)) => {
            let k = match &e {
                TChannelError::Error(_) => 0,
                TChannelError::ConnectionError(_) => 1,
                TChannelError::CodecError(_) => 2,
                TChannelError::ConnectionPoolError(_) => 3,
            };
            Outcome::Internal(k, e.to_string())
        }
    }
}

async fn send<M: Msg>(sub: &SubChannel, c: &Content, addr: SocketAddr, form: usize) -> Outcome
where
    SubChannel: MessageChannel<M, M>,
{
    let m = {
        let _own = simcore::mem::owner(1);
        M::build(c)
    };
    let sending = async {
        match form % 4 {
            0 => <SubChannel as MessageChannel<M, M>>::send(sub, m, addr).await,
            1 => <SubChannel as MessageChannel<M, M>>::send(sub, m, addr.to_string().as_str()).await,
            2 => <SubChannel as MessageChannel<M, M>>::send(sub, m, (addr.ip().to_string().as_str(), addr.port())).await,
            _ => <SubChannel as MessageChannel<M, M>>::send(sub, m, &[addr][..]).await,
        }
    };
    outcome(Owned(sending, 1).await)
}

/// What a caller has in its hands.
#[derive(Clone)]
pub enum Via {
    /// a channel, which it keeps during the call
    Chan(Arc<TChannel>),
    /// a channel, which it gives away as soon as it has the subchannel
    Brief(Arc<TChannel>),
    Sub(Arc<SubChannel>),
}

impl From<Arc<TChannel>> for Via {
    fn from(c: Arc<TChannel>) -> Via {
        Via::Chan(c)
    }
}

impl From<Arc<SubChannel>> for Via {
    fn from(s: Arc<SubChannel>) -> Via {
        Via::Sub(s)
    }
}

/// One call attempt through the public API, not recorded in the history. `form` chooses how the address is given.
pub async fn raw_call(via: Via, service: &str, c: &Content, addr: SocketAddr, form: usize) -> Outcome {
    let f = async {
        let (sub, _keep) = match via {
            Via::Sub(s) => (s, None),
            Via::Chan(ref chan) | Via::Brief(ref chan) => {
                let s = match Owned(chan.subchannel(service), 1).await {
                    Ok(s) => s,
                    Err(e) => return Outcome::Internal(0, e.to_string()),
                };
                match via {
                    Via::Chan(c) => (s, Some(c)),
                    _ => {
                        drop(via);
                        (s, None)
                    }
                }
            }
        };
        match c.fmt {
            Fmt::Raw => send::<RawMessage>(&sub, c, addr, form).await,
            Fmt::Json => send::<JsonMessage>(&sub, c, addr, form).await,
        }
    };
    match AssertUnwindSafe(f).catch_unwind().await {
        Ok(o) => o,
        Err(_) => Outcome::Panicked,
    }
}

impl Env {
    /// Performs the call and records what happened.
    pub async fn call(&self, via: impl Into<Via>, id: usize) -> Option<Outcome> {
        let via = via.into();
        let spec = {
            let mut h = self.h();
            h.begin(id);
            h.calls[id].spec.clone()
        };
        let inc = with(|w| w.nodes[spec.client].inc);
        self.h().calls[id].inc = inc;
        self.note(format!("call {} starts: {} {:?} -> node {}", id, spec.service, spec.req, spec.server));
        let r = limited(raw_call(via, &spec.service, &spec.req, spec.addr, id), spec.cancel).await;
        let t = now();
        let mut h = self.h();
        let key = (spec.server, spec.service.clone(), spec.req.clone());
        let c = &mut h.calls[id];
        match &r {
            None => c.abandoned = true,
            Some(o) => {
                c.end = Some(t);
                c.outcome = Some(o.clone());
            }
        }
        if let Some(Outcome::Ok(_)) = &r {
            let g = h.groups.get_mut(&key).unwrap();
            g.oks += 1;
            let (oks, ret) = (g.oks, g.returned);
            if oks > ret {
                h.viol(
                    "success-without-handler",
                    format!("call {} succeeded but its handler returned only {} times for {} successes", id, ret, oks),
                );
            }
        }
        drop(h);
        let txt = match &r {
            None => "abandoned".to_string(),
            Some(o) => o.brief(),
        };
        self.note(format!("call {} ends: {}", id, txt));
        r
    }

    /// Performs the call in a task of the client's node.
    pub async fn call_there(&self, id: usize) -> Option<Outcome> {
        let client = self.h().calls[id].spec.client;
        let chan = self.chan(client)?;
        let (tx, rx) = futures::channel::oneshot::channel();
        let env = self.clone();
        spawn_h(client, async move {
            let _ = tx.send(env.call(chan, id).await);
        });
        rx.await.ok().flatten()
    }

    /// What the caller must see when the call is served and nothing fails; None if a plain error is due.
    pub fn expected(&self, id: usize) -> Option<Outcome> {
        let h = self.h();
        let s = &h.calls[id].spec;
        if s.expect != Expect::Served {
            return None;
        }
        match s.resp.out {
            Out::Ok => Some(Outcome::Ok(s.resp.reply.clone())),
            Out::MsgErr => Some(Outcome::MsgErr(s.resp.reply.clone())),
            _ => None,
        }
    }
}
