//! Executions beyond interleavings: a read may return a value that has been overwritten already, as long as
//! nothing the thread knows orders it after the overwriting (release/acquire views as in C11, plain accesses
//! taken as relaxed ones; reads never see later writes).
//!
//! A view is a set of writes (positions in the log of the execution). The load instruction itself cannot be
//! told what to return, so the older bytes are put into memory for just that one access: whatever the fiber
//! does next enters the runtime, which puts the current bytes back first.
use std::collections::HashMap;

pub type View = Vec<u64>;

fn join(a: &mut View, b: &View) {
    if a.len() < b.len() {
        a.resize(b.len(), 0);
    }
    for (x, y) in a.iter_mut().zip(b) {
        *x |= *y;
    }
}
fn has(v: &View, i: usize) -> bool {
    v.get(i / 64).is_some_and(|w| w >> (i % 64) & 1 == 1)
}
fn put(v: &mut View, i: usize) {
    if v.len() <= i / 64 {
        v.resize(i / 64 + 1, 0);
    }
    v[i / 64] |= 1 << (i % 64);
}

pub const RELAXED: u8 = 0;
pub const ACQ: u8 = 1;
pub const REL: u8 = 2;
pub const SC: u8 = 4;

/// From the orderings LLVM passes.
pub fn mode(mo: i32) -> u8 {
    match mo {
        1 | 2 => ACQ,
        3 => REL,
        4 => ACQ | REL,
        5 => ACQ | REL | SC,
        _ => RELAXED,
    }
}

struct W {
    addr: usize,
    old: Vec<u8>,
    msg: View,
}

#[derive(Default)]
pub struct Weak {
    pub on: bool,
    pub used: u32, // overwritten values returned in this execution
    log: Vec<W>,
    at: HashMap<usize, Vec<u32>>, // granule -> writes to it
    view: [View; crate::engine::MAXT],
    pend: [View; crate::engine::MAXT], // what an acquire fence would add
    rel: [View; crate::engine::MAXT],  // what relaxed stores publish: the view at the last release fence
    sc: View,
    ep: View,
    hist: View,
    poked: Option<(usize, Vec<u8>)>,
}

impl Weak {
    pub fn begin(&mut self, on: bool) {
        self.on = on;
        self.used = 0;
        self.log.clear();
        self.at.clear();
        for t in 0..crate::engine::MAXT {
            self.view[t].clear();
            self.pend[t].clear();
            self.rel[t].clear();
        }
        self.sc.clear();
        self.ep.clear();
        self.hist.clear();
        self.poked = None;
    }
    #[inline]
    pub fn unpoke(&mut self) {
        if let Some((a, v)) = self.poked.take() {
            unsafe { std::ptr::copy_nonoverlapping(v.as_ptr(), a as *mut u8, v.len()) };
        }
    }
    /// Writes to any of these bytes, oldest first.
    fn writes(&self, addr: usize, len: usize) -> Vec<usize> {
        let mut v: Vec<usize> = Vec::new();
        for g in addr >> 3..=(addr + len - 1) >> 3 {
            if let Some(l) = self.at.get(&g) {
                v.extend(l.iter().map(|&i| i as usize).filter(|&i| {
                    let w = &self.log[i];
                    w.addr < addr + len && addr < w.addr + w.old.len()
                }));
            }
        }
        v.sort_unstable();
        v.dedup();
        v
    }
    /// About to write. The latest writes to the location are what a read-modify-write reads.
    pub fn write(&mut self, t: usize, addr: usize, len: usize, mo: u8, rmw: bool) {
        let mut msg = View::new();
        if rmw {
            self.read_latest(t, addr, len, mo);
            for i in self.writes(addr, len) {
                let m = self.log[i].msg.clone();
                join(&mut msg, &m);
                put(&mut msg, i);
            }
        }
        let i = self.log.len();
        put(&mut self.view[t], i);
        if mo & SC != 0 {
            self.fence_sc(t);
        }
        if mo & REL != 0 {
            join(&mut msg, &self.view[t]);
        } else {
            join(&mut msg, &self.rel[t]);
        }
        put(&mut msg, i);
        if mo & SC != 0 {
            join(&mut self.sc, &msg);
        }
        let old = unsafe { std::slice::from_raw_parts(addr as *const u8, len) }.to_vec();
        for g in addr >> 3..=(addr + len - 1) >> 3 {
            self.at.entry(g).or_default().push(i as u32);
        }
        self.log.push(W { addr, old, msg });
    }
    fn saw(&mut self, t: usize, i: usize, mo: u8) {
        put(&mut self.view[t], i);
        let m = std::mem::take(&mut self.log[i].msg);
        if mo & ACQ != 0 {
            join(&mut self.view[t], &m);
        } else {
            join(&mut self.pend[t], &m);
        }
        self.log[i].msg = m;
    }
    /// The writes the bytes come from if everything before `limit` counts.
    fn sources(&self, t: usize, ws: &[usize], addr: usize, len: usize, limit: usize) -> Vec<usize> {
        let mut s = Vec::new();
        for b in addr..addr + len {
            let covers = |i: &&usize| {
                let w = &self.log[**i];
                w.addr <= b && b < w.addr + w.old.len()
            };
            // the last one before the limit, or known to the thread
            if let Some(&i) = ws.iter().rev().filter(covers).find(|&&i| i < limit || has(&self.view[t], i)) {
                s.push(i);
            }
        }
        s.sort_unstable();
        s.dedup();
        s
    }
    pub fn read_latest(&mut self, t: usize, addr: usize, len: usize, mo: u8) {
        if mo & SC != 0 {
            self.fence_sc(t);
        }
        let ws = self.writes(addr, len);
        for i in self.sources(t, &ws, addr, len, usize::MAX) {
            self.saw(t, i, mo);
        }
    }
    /// Overwritten contents the read may return instead: the time limit and the bytes.
    pub fn candidates(&self, t: usize, addr: usize, len: usize) -> Vec<(usize, Vec<u8>)> {
        let ws = self.writes(addr, len);
        let now = unsafe { std::slice::from_raw_parts(addr as *const u8, len) };
        let mut out: Vec<(usize, Vec<u8>)> = Vec::new();
        for &lim in ws.iter().rev() {
            if has(&self.view[t], lim) {
                continue;
            }
            let mut v = now.to_vec();
            for (k, x) in v.iter_mut().enumerate() {
                let b = addr + k;
                let floor = ws.iter().rev().find(|&&i| {
                    let w = &self.log[i];
                    has(&self.view[t], i) && w.addr <= b && b < w.addr + w.old.len()
                });
                let first = ws.iter().find(|&&i| {
                    let w = &self.log[i];
                    i >= lim && floor.is_none_or(|&f| i > f) && w.addr <= b && b < w.addr + w.old.len()
                });
                if let Some(&i) = first {
                    *x = self.log[i].old[b - self.log[i].addr];
                }
            }
            if v != now && !out.iter().any(|c| c.1 == v) {
                out.push((lim, v));
            }
        }
        out
    }
    pub fn read_stale(&mut self, t: usize, addr: usize, c: &(usize, Vec<u8>), mo: u8) {
        let len = c.1.len();
        let ws = self.writes(addr, len);
        for i in self.sources(t, &ws, addr, len, c.0) {
            self.saw(t, i, mo);
        }
        let now = unsafe { std::slice::from_raw_parts(addr as *const u8, len) }.to_vec();
        unsafe { std::ptr::copy_nonoverlapping(c.1.as_ptr(), addr as *mut u8, len) };
        self.poked = Some((addr, now));
        self.used += 1;
    }
    pub fn fence_sc(&mut self, t: usize) {
        let s = self.sc.clone();
        join(&mut self.view[t], &s);
        let v = self.view[t].clone();
        join(&mut self.sc, &v);
    }
    pub fn fence(&mut self, t: usize, mo: u8) {
        if mo & ACQ != 0 {
            let p = self.pend[t].clone();
            join(&mut self.view[t], &p);
        }
        if mo & SC != 0 {
            self.fence_sc(t);
        }
        if mo & REL != 0 {
            self.rel[t] = self.view[t].clone();
        }
    }
    /// A call happens after every return that preceded it: whoever relies on that has synchronised.
    pub fn called(&mut self, t: usize) {
        let h = self.hist.clone();
        join(&mut self.view[t], &h);
    }
    pub fn returned(&mut self, t: usize) {
        let v = self.view[t].clone();
        join(&mut self.hist, &v);
    }
    pub fn unpinned(&mut self, t: usize) {
        let v = self.view[t].clone();
        join(&mut self.ep, &v);
    }
    pub fn collecting(&mut self, t: usize) {
        let e = self.ep.clone();
        join(&mut self.view[t], &e);
    }
}
