//! Model of crossbeam-epoch's contract, as eager as the contract allows: a deferred function runs
//! as soon as every guard that was live when it was deferred (the deferring one included) is gone.
//! Real crossbeam-epoch runs it then or later. All users are fibers of one OS thread.
//! Nothing here may be inlined into instrumented code, hence the `inline(never)`s.
#![allow(static_mut_refs)]

use mcrt::{epoch_step, event, host, sut, Epoch, K_EP_R, K_EP_W};
use std::marker::PhantomData;

struct Garbage {
    f: Option<Box<dyn FnOnce()>>,
    waiting: Vec<u64>,
}

struct State {
    next: u64,
    active: Vec<(u64, usize)>, // guard, thread
    garbage: Vec<Garbage>,
    deferred: u64,
    ran: u64,
}

static mut STATE: State = State { next: 1, active: Vec::new(), garbage: Vec::new(), deferred: 0, ran: 0 };

fn st() -> &'static mut State {
    unsafe { &mut STATE }
}

/// For the harness: (guards alive, closures not yet run).
#[inline(never)]
pub fn mc_counts() -> (usize, usize) {
    (st().active.len(), st().garbage.len())
}

/// For the harness: (closures deferred, closures run) since the start of the process.
#[inline(never)]
pub fn mc_totals() -> (u64, u64) {
    (st().deferred, st().ran)
}

pub struct Guard {
    id: u64,
    _not_send: PhantomData<*mut ()>,
}

// crossbeam hands out one static unprotected guard
struct SyncGuard(Guard);
unsafe impl Sync for SyncGuard {}
static UNPROTECTED: SyncGuard = SyncGuard(Guard { id: 0, _not_send: PhantomData });

/// # Safety
/// As in crossbeam-epoch.
#[inline(never)]
pub unsafe fn unprotected() -> &'static Guard {
    &UNPROTECTED.0
}

fn acquire() -> u64 {
    event(K_EP_R);
    epoch_step(Epoch::Pinned);
    let s = st();
    let id = s.next;
    s.next += 1;
    s.active.push((id, mcrt::cur_thread()));
    id
}

#[inline(never)]
pub fn pin() -> Guard {
    let _h = host();
    Guard { id: acquire(), _not_send: PhantomData }
}

#[inline(never)]
pub fn is_pinned() -> bool {
    st().active.iter().any(|x| x.1 == mcrt::cur_thread())
}

fn release(id: u64) {
    // releasing a guard somebody's garbage waits for is an action others can observe
    let pending = st().garbage.iter().any(|g| g.waiting.contains(&id));
    event(if pending { K_EP_W } else { K_EP_R });
    epoch_step(Epoch::Unpinned);
    let s = st();
    s.active.retain(|x| x.0 != id);
    for g in s.garbage.iter_mut() {
        g.waiting.retain(|x| *x != id);
    }
    collect();
}

fn collect() {
    loop {
        let s = st();
        let Some(i) = s.garbage.iter().position(|g| g.waiting.is_empty()) else { return };
        let mut g = s.garbage.remove(i);
        s.ran += 1;
        epoch_step(Epoch::Collecting);
        let f = g.f.take().unwrap();
        let old = std::mem::replace(&mut mcrt::rt().forbid_free, false);
        {
            let _s = sut();
            f();
        }
        mcrt::rt().forbid_free = old;
    }
}

#[inline(never)]
fn defer_boxed(id: u64, b: Box<dyn FnOnce() + '_>) {
    let _h = host();
    if id == 0 {
        let _s = sut();
        b();
        return;
    }
    event(K_EP_W);
    epoch_step(Epoch::Deferred);
    let b: Box<dyn FnOnce()> = unsafe { std::mem::transmute(b) };
    let s = st();
    s.deferred += 1;
    let waiting = s.active.iter().map(|x| x.0).collect();
    s.garbage.push(Garbage { f: Some(b), waiting });
}

#[inline(never)]
fn off() -> mcrt::Host {
    host()
}

impl Guard {
    pub fn defer<F, R>(&self, f: F)
    where
        F: FnOnce() -> R,
        F: Send + 'static,
    {
        unsafe { self.defer_unchecked(f) }
    }

    /// # Safety
    /// As in crossbeam-epoch.
    pub unsafe fn defer_unchecked<F, R>(&self, f: F)
    where
        F: FnOnce() -> R,
    {
        let h = off();
        let b: Box<dyn FnOnce() + '_> = Box::new(move || drop(f()));
        drop(h);
        defer_boxed(self.id, b);
    }

    #[inline(never)]
    pub fn flush(&self) {}

    #[inline(never)]
    pub fn repin(&mut self) {
        let _h = host();
        if self.id == 0 {
            return;
        }
        release(self.id);
        self.id = acquire();
    }

    pub fn repin_after<F, R>(&mut self, f: F) -> R
    where
        F: FnOnce() -> R,
    {
        self.unpin_();
        let r = f();
        self.pin_();
        r
    }

    #[inline(never)]
    fn unpin_(&mut self) {
        let _h = host();
        if self.id != 0 {
            release(self.id);
        }
    }

    #[inline(never)]
    fn pin_(&mut self) {
        let _h = host();
        if self.id != 0 {
            self.id = acquire();
        }
    }
}

impl Drop for Guard {
    #[inline(never)]
    fn drop(&mut self) {
        let _h = host();
        if self.id != 0 {
            release(self.id);
        }
    }
}

impl std::fmt::Debug for Guard {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.pad("Guard { .. }")
    }
}

/// One global collector is modelled; a separate one behaves the same (its guards protect more, never less,
/// than real ones would: see DESIGN.md).
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Collector(());

impl Collector {
    pub fn new() -> Self {
        Collector(())
    }
    pub fn register(&self) -> LocalHandle {
        LocalHandle { _not_send: PhantomData }
    }
}

#[derive(Debug)]
pub struct LocalHandle {
    _not_send: PhantomData<*mut ()>,
}

impl LocalHandle {
    pub fn pin(&self) -> Guard {
        pin()
    }
    pub fn is_pinned(&self) -> bool {
        is_pinned()
    }
    pub fn collector(&self) -> &Collector {
        default_collector()
    }
}

static DEFAULT: Collector = Collector(());

pub fn default_collector() -> &'static Collector {
    &DEFAULT
}

impl Guard {
    pub fn collector(&self) -> Option<&Collector> {
        if self.id == 0 {
            None
        } else {
            Some(default_collector())
        }
    }
}
