//! Every task spawned on the simulated runtime belongs to a node; crashing the node drops its tasks.

use crate::world::*;
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll, Waker};

pub struct TaskInfo {
    pub node: NodeId,
    pub inc: u32,
    pub killed: bool,
    pub waker: Option<Waker>,
    /// spawned by the harness (workload, peers) rather than by the code under test
    pub harness: bool,
}

pub struct SimTask<F> {
    fut: Option<F>,
    id: u64,
    node: NodeId,
}

enum Go {
    Run,
    Killed,
    Paused,
}

impl<F> SimTask<F> {
    /// Wrap a future spawned by the code that is currently running.
    pub fn new(fut: F) -> SimTask<F> {
        match try_with(|w| w.spawn_as.take()).flatten() {
            Some((node, harness)) => Self::on(fut, node, harness),
            None => Self::on(fut, cur_node(), false),
        }
    }

    pub fn on(fut: F, node: NodeId, harness: bool) -> SimTask<F> {
        let id = try_with(|w| {
            let id = w.next_task;
            w.next_task += 1;
            w.spawn_node = node;
            let inc = w.nodes.get(node).map(|n| n.inc).unwrap_or(0);
            w.tasks.insert(id, TaskInfo { node, inc, killed: false, waker: None, harness });
            id
        })
        .unwrap_or(0);
        SimTask { fut: Some(fut), id, node }
    }
}

impl<F: Future> Future for SimTask<F> {
    type Output = F::Output;

    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<F::Output> {
        // the future is structurally pinned: it is only ever dropped in place
        let this = unsafe { self.get_unchecked_mut() };
        if this.id == 0 || !active() {
            return match this.fut.as_mut() {
                Some(f) => unsafe { Pin::new_unchecked(f) }.poll(cx),
                None => Poll::Pending,
            };
        }
        let (id, node) = (this.id, this.node);
        let (go, prev, owner) = with(|w| {
            let prev = (w.cur_node, w.cur_task);
            let mut owner = 0;
            let go = match w.tasks.get_mut(&id) {
                Some(t) => {
                    owner = !t.harness as u8;
                    if t.waker.is_none() {
                        t.waker = Some(cx.waker().clone());
                    }
                    if t.killed {
                        Go::Killed
                    } else if w.nodes.get(node).map(|n| n.paused).unwrap_or(false) && !t.harness {
                        Go::Paused
                    } else {
                        Go::Run
                    }
                }
                None => Go::Killed,
            };
            if let Go::Paused = go {
                w.nodes[node].paused_tasks.push(cx.waker().clone());
            }
            w.cur_node = node;
            w.cur_task = id;
            w.note(id, node as u64);
            (go, prev, owner)
        });
        let r = match go {
            Go::Run => match this.fut.as_mut() {
                Some(f) => {
                    let guard = Restore(prev);
                    let _own = crate::mem::owner(owner);
                    let r = unsafe { Pin::new_unchecked(f) }.poll(cx);
                    drop(guard);
                    r
                }
                None => {
                    Restore(prev);
                    Poll::Pending
                }
            },
            Go::Killed => {
                let _guard = Restore(prev);
                // drop in place, destructors run as if nothing could observe them any more
                this.fut = None;
                Poll::Pending
            }
            Go::Paused => {
                Restore(prev);
                Poll::Pending
            }
        };
        r
    }
}

struct Restore((NodeId, u64));
impl Drop for Restore {
    fn drop(&mut self) {
        let p = self.0;
        try_with(|w| {
            w.cur_node = p.0;
            w.cur_task = p.1;
        });
    }
}

impl<F> Drop for SimTask<F> {
    fn drop(&mut self) {
        if self.id == 0 || !active() {
            return;
        }
        let (id, node) = (self.id, self.node);
        let prev = with(|w| {
            let prev = (w.cur_node, w.cur_task);
            w.cur_node = node;
            w.cur_task = id;
            prev
        });
        let _guard = Restore(prev);
        self.fut = None;
        with(|w| {
            if let Some(t) = w.tasks.remove(&id) {
                if let Some(wk) = t.waker {
                    w.trash.push(wk);
                }
            }
        });
    }
}

/// The next spawned task belongs to this node; `harness` tells whether it is part of the harness.
pub fn spawn_as(node: NodeId, harness: bool) {
    with(|w| w.spawn_as = Some((node, harness)));
}

impl World {
    /// The process on `node` dies: its tasks never run again.
    pub fn kill_tasks(&mut self, node: NodeId) {
        self.nodes[node].inc += 1;
        let inc = self.nodes[node].inc;
        let mut wk = vec![];
        for t in self.tasks.values_mut() {
            if t.node == node && t.inc < inc && !t.killed {
                t.killed = true;
                if let Some(w) = &t.waker {
                    wk.push(w.clone());
                }
            }
        }
        self.wakes.append(&mut wk);
        self.nodes[node].paused = false;
        let mut p = std::mem::take(&mut self.nodes[node].paused_tasks);
        self.wakes.append(&mut p);
    }

    pub fn pause(&mut self, node: NodeId) {
        self.nodes[node].paused = true;
        self.count("fault.node_pause");
        self.tr(|| format!("node {} paused", node));
    }

    pub fn resume(&mut self, node: NodeId) {
        self.nodes[node].paused = false;
        let mut p = std::mem::take(&mut self.nodes[node].paused_tasks);
        self.wakes.append(&mut p);
        self.tr(|| format!("node {} resumed", node));
    }

    /// Live tasks of the code under test on a node (current incarnation).
    pub fn live_tasks(&self, node: NodeId) -> usize {
        self.tasks.values().filter(|t| t.node == node && !t.killed && !t.harness).count()
    }
}
