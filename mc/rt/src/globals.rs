//! Statics and thread-locals of the code under test. Which bytes it writes is noticed as it writes
//! them; between executions they get their initial values back, a snapshot of the tree includes
//! them, and every explored thread has thread-locals of its own (all run on one OS thread).
use std::collections::HashSet;

/// Statics of the program, and the thread-locals of its only OS thread: start and length.
pub static mut DATA: (usize, usize) = (0, 0);
pub static mut TLS: (usize, usize) = (0, 0);
static mut ST: Option<Box<State>> = None;
static mut ANY: bool = false;

#[derive(Default)]
struct State {
    seen: HashSet<usize>,
    data: Vec<(usize, u8)>, // address, initial value
    tls: Vec<(usize, u8)>,
    saved: Vec<Vec<u8>>, // per context, thread-locals while it does not run
    cur: usize,
}

/// Values of the tracked bytes at some moment.
#[derive(Default, Clone)]
pub struct Saved {
    data: Vec<u8>,
    tls: Vec<u8>,
}

extern "C" {
    fn getauxval(t: u64) -> u64;
}

pub fn init() {
    extern "C" {
        static data_start: u8;
        static _end: u8;
    }
    // the keys of the standard hash map are drawn once per thread: before anything is tracked
    std::hint::black_box(std::collections::HashMap::<u8, u8>::new());
    unsafe {
        let lo = &raw const data_start as usize;
        let hi = &raw const _end as usize;
        DATA = (lo, hi.saturating_sub(lo));
        let (ph, n) = (getauxval(3) as usize, getauxval(5) as usize); // AT_PHDR, AT_PHNUM
        for i in 0..n {
            let p = (ph + i * 56) as *const u64;
            if (*p as u32) == 7 {
                // PT_TLS: the block of the program itself ends at the thread pointer
                let (memsz, align) = (*p.add(5) as usize, (*p.add(6) as usize).max(1));
                let size = (memsz + align - 1) / align * align;
                let fs: usize;
                std::arch::asm!("mov {}, fs:[0]", out(reg) fs);
                TLS = (fs - size, size);
            }
        }
        ST = Some(Box::default());
    }
}

#[inline]
fn st() -> &'static mut State {
    unsafe { ST.as_mut().unwrap_unchecked() }
}

/// About to be written by the code under test; neither in the arena nor on a stack.
#[inline(always)]
pub fn note(addr: usize, len: usize) {
    unsafe {
        if addr.wrapping_sub(DATA.0) < DATA.1 {
            note_slow(addr, len, false)
        } else if addr.wrapping_sub(TLS.0) < TLS.1 {
            note_slow(addr, len, true)
        }
    }
}

#[cold]
#[inline(never)]
fn note_slow(addr: usize, len: usize, tls: bool) {
    if !unsafe { crate::engine::SUT } {
        return; // a generic of the standard library, instantiated there but used by the checks
    }
    let _h = crate::engine::host();
    let s = st();
    unsafe { ANY = true };
    for a in addr..addr + len {
        if s.seen.insert(a) {
            let v = unsafe { *(a as *const u8) };
            if tls { &mut s.tls } else { &mut s.data }.push((a, v));
        }
    }
}

#[inline(always)]
pub fn in_data(addr: usize) -> bool {
    unsafe { addr.wrapping_sub(DATA.0) < DATA.1 }
}

pub fn tracked() -> (usize, usize) {
    (st().data.len(), st().tls.len())
}

pub fn save(v: &mut Saved) {
    v.data.clear();
    v.tls.clear();
    if unsafe { ANY } {
        let get = |&(a, _): &(usize, u8)| unsafe { *(a as *const u8) };
        v.data.extend(st().data.iter().map(get));
        v.tls.extend(st().tls.iter().map(get));
    }
}

pub fn restore(v: &Saved) {
    if unsafe { ANY } {
        put(&st().data, &v.data);
        put(&st().tls, &v.tls);
    }
}

pub fn reset() {
    if unsafe { ANY } {
        put(&st().data, &[]);
        put(&st().tls, &[]);
    }
}

/// Bytes first written after `v` was taken had their initial values then.
fn put(t: &[(usize, u8)], v: &[u8]) {
    for (i, &(a, orig)) in t.iter().enumerate() {
        unsafe { *(a as *mut u8) = v.get(i).copied().unwrap_or(orig) };
    }
}

/// Fresh threads are about to start; `main` is the context that runs now.
pub fn begin(main: usize) {
    let s = st();
    s.saved.clear();
    s.saved.resize(main + 1, Vec::new());
    s.cur = main;
}

/// The thread-locals become those of context `to`.
#[inline(always)]
pub fn switch(to: usize) {
    if unsafe { ANY } {
        switch_slow(to)
    } else {
        st().cur = to;
    }
}

#[cold]
#[inline(never)]
fn switch_slow(to: usize) {
    let s = st();
    if s.cur == to {
        return;
    }
    let v = &mut s.saved[s.cur];
    v.clear();
    v.extend(s.tls.iter().map(|&(a, _)| unsafe { *(a as *const u8) }));
    put(&s.tls, &s.saved[to]);
    s.cur = to;
}
