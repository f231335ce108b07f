//! Counts the memory that the code under test holds. Every block remembers who allocated it: the code under test (1)
//! or the harness and the simulator (0).

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};

thread_local! {
    static OWNER: Cell<u8> = const { Cell::new(0) };
    static BLOCKS: Cell<i64> = const { Cell::new(0) };
    static BYTES: Cell<i64> = const { Cell::new(0) };
    /// blocks by size, in steps of 8 bytes
    static SIZES: [Cell<i64>; STEPS] = const { [const { Cell::new(0) }; STEPS] };
}

const STEPS: usize = 512;

pub struct Owner(u8);

/// Allocations belong to this owner as long as the value lives.
pub fn owner(o: u8) -> Owner {
    Owner(OWNER.with(|c| c.replace(o)))
}

impl Drop for Owner {
    fn drop(&mut self) {
        let _ = OWNER.try_with(|c| c.set(self.0));
    }
}

/// Blocks and bytes held by the code under test.
pub fn held() -> (i64, i64) {
    (BLOCKS.with(|c| c.get()), BYTES.with(|c| c.get()))
}

/// A future polled on behalf of an owner.
pub struct Owned<F>(pub F, pub u8);

impl<F: Future> Future for Owned<F> {
    type Output = F::Output;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<F::Output> {
        let o = self.1;
        let _g = owner(o);
        // structurally pinned
        unsafe { self.map_unchecked_mut(|s| &mut s.0) }.poll(cx)
    }
}

pub struct Alloc;

const HEAD: usize = 16;

fn layout(l: Layout) -> (Layout, usize) {
    let off = l.align().max(HEAD);
    (unsafe { Layout::from_size_align_unchecked(l.size() + off, off) }, off)
}

fn count(tag: u8, blocks: i64, bytes: i64) {
    if tag == 1 {
        let _ = BLOCKS.try_with(|c| c.set(c.get() + blocks));
        let _ = BYTES.try_with(|c| c.set(c.get() + bytes));
    }
}

fn size(tag: u8, n: usize, blocks: i64) {
    if tag == 1 {
        let _ = SIZES.try_with(|v| {
            let c = &v[(n / 8).min(STEPS - 1)];
            c.set(c.get() + blocks)
        });
    }
}

/// How many blocks of which sizes are held.
pub fn sizes() -> Vec<(usize, i64)> {
    SIZES.with(|v| v.iter().enumerate().filter(|(_, c)| c.get() != 0).map(|(i, c)| (i * 8, c.get())).collect())
}

unsafe fn mark(p: *mut u8, l: Layout, off: usize) -> *mut u8 {
    if p.is_null() {
        return p;
    }
    let tag = OWNER.try_with(|c| c.get()).unwrap_or(0);
    let q = p.add(off);
    *q.sub(1) = tag;
    count(tag, 1, l.size() as i64);
    size(tag, l.size(), 1);
    q
}

unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let (full, off) = layout(l);
        mark(System.alloc(full), l, off)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let (full, off) = layout(l);
        mark(System.alloc_zeroed(full), l, off)
    }
    unsafe fn dealloc(&self, q: *mut u8, l: Layout) {
        let (full, off) = layout(l);
        count(*q.sub(1), -1, -(l.size() as i64));
        size(*q.sub(1), l.size(), -1);
        System.dealloc(q.sub(off), full)
    }
    unsafe fn realloc(&self, q: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let (full, off) = layout(l);
        let tag = *q.sub(1);
        let p = System.realloc(q.sub(off), full, n + off);
        if p.is_null() {
            return p;
        }
        count(tag, 0, n as i64 - l.size() as i64);
        size(tag, l.size(), -1);
        size(tag, n, 1);
        p.add(off)
    }
}
