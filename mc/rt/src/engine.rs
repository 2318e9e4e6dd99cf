use crate::arena::{self, Arena};
use crate::fiber::{mcrt_switch, Stack};
use crate::globals;
use crate::sys;
use crate::weak::{self, Weak};
use std::alloc::Layout;
use std::collections::HashMap;

pub const MAXT: usize = 4;

// kinds of visible accesses
pub const K_READ: u8 = 0;
pub const K_WRITE: u8 = 1;
pub const K_CALL: u8 = 2; // an operation is invoked
pub const K_RET: u8 = 3; // an operation has returned
pub const K_EP_R: u8 = 4; // guard acquired or released
pub const K_EP_W: u8 = 5; // something deferred / deferred things about to run

const GMAX: usize = arena::SIZE / 8;
const H_ADDR: usize = 8;
const EP_ADDR: usize = 16;
const RMW: u8 = 8; // in Acc::mo
const STALE: u8 = 100; // in the schedule: the read returns an overwritten value

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Acc {
    pub addr: usize,
    pub len: u32,
    pub kind: u8,
    pub atomic: bool,
    pub mo: u8, // memory ordering of an atomic access
}

#[inline]
fn conflict(a: &Acc, b: &Acc) -> bool {
    if a.kind <= K_WRITE && b.kind <= K_WRITE {
        (a.kind | b.kind) == K_WRITE
            && a.addr < b.addr + b.len as usize
            && b.addr < a.addr + a.len as usize
    } else if a.kind >= K_EP_R && b.kind >= K_EP_R {
        a.kind == K_EP_W || b.kind == K_EP_W
    } else {
        (a.kind == K_CALL && b.kind == K_RET) || (a.kind == K_RET && b.kind == K_CALL)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum St {
    Runnable,
    Spin,
    Done,
}

#[derive(Clone, Copy, PartialEq, Eq)]
struct Hist {
    pc: usize,
    addr: usize,
    val: u64,
    len: u32,
    atomic: bool,
}

struct Th {
    sp: usize,
    stack: Stack,
    st: St,
    pending: Acc,
    pc: usize,
    body: Option<*mut dyn FnMut()>,
    hist: Vec<Hist>,
    block: Vec<Hist>, // the repeated round, while `rounds` > 0
    pos: usize,
    rounds: u32,
    limit: u32, // rounds after which the loop counts as waiting
    woken_by: u32, // event index + 1
    unpub: Vec<usize>,
    run_len: u64, // own accesses since another thread ran
    op: u32,      // operations begun
    ahist: Vec<u32>, // positions of the atomic reads in `hist`
}

impl Th {
    fn clear_hist(&mut self) {
        self.hist.clear();
        self.ahist.clear();
    }
}

/// Rounds a repeated loop is really run before it counts as waiting, by how often that loop has
/// been met in this scenario: often at first, so that a loop which gives up or changes its
/// behaviour after some rounds is seen to do so.
fn spin_rounds(seen: &mut HashMap<u64, u32>, h: u64) -> u32 {
    let n = seen.entry(h).or_insert(0);
    *n += 1;
    match *n {
        1 => 300,
        2..=8 => 40,
        _ => 3,
    }
}

#[derive(Clone)]
struct SleepE {
    th: u8,
    accs: Vec<Acc>,
}

struct Node {
    choice: u8,
    enabled: u8,
    backtrack: u8,
    done: u8,
    prev: u8, // thread that ran before, 255 at the start
    pre: u32, // preemptions before this node
    sleep: Vec<SleepE>,
}

#[derive(Clone, Copy)]
struct Event {
    th: u8,
    acc0: u32,
    acc1: u32,
    woken_by: u32,
}

#[derive(Clone, Copy, PartialEq, Eq)]
enum Mode {
    Off,
    Boot,
    Run,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Strategy {
    /// complete modulo commutation of independent accesses
    Dpor,
    /// every switch at every access up to a preemption bound, no reduction
    Naive(u32),
    /// the first thread is preempted wherever its next access meets one of the others', these only
    /// where they must wait or are between operations; the second interruption sets the rhythm of the rest
    Bursts,
    /// preemptions where a thread's next access meets those of another, and reads of overwritten values:
    /// every choice up to a bound on each
    Weak(u32, u32),
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub executions: u64,
    pub redundant: u64, // cut by sleep sets
    pub transitions: u64,
    pub nodes: u64, // scheduling states created
    pub max_depth: usize,
    pub spins: u64,
    pub capped: bool,
    pub max_preempt: u32,
    pub restarts: u64,
}

pub struct Rt {
    pub arena: Arena,
    mode: Mode,
    th: Vec<Th>,
    nth: usize,
    cur: usize,
    main_sp: usize,
    stack: Vec<Node>,
    depth: usize,
    events: Vec<Event>,
    accs: Vec<Acc>,
    next_sleep: Vec<SleepE>,
    draining: bool,
    sleep_blocked: bool,
    prefix: usize,
    pub choices: Vec<u8>,
    pub strategy: Strategy,
    pub replay: Option<Vec<u8>>,
    /// repeated reads that turned out not to be waiting loops
    pub noelide: Vec<u64>,
    spun: HashMap<u64, u32>,
    seen: HashMap<u64, u8>, // what the threads that are not interrupted access: granule -> bit per kind
    seen_more: bool,
    bursts: Vec<u32>, // steps the first thread had taken at each interruption
    own_steps: u32,
    pub weak: Weak,
    decisions: Vec<(u8, u8)>, // taken, out of how many
    dpos: usize,
    last_run: usize,
    preempted: u32,
    restart: bool,
    pub trace: bool,
    pub stats: Stats,
    // fault injection
    pub fail_at: [u32; arena::LANES],
    pub fail_all: bool,
    pub alloc_seen: [u32; arena::LANES],
    pub alloc_failed: u32,
    pub on_violation: Option<fn(&str, &str) -> !>,
    /// a guard is held since before the operations: published memory must not be freed
    pub forbid_free: bool,
    pub old_blocks: usize, // blocks below this index were published by earlier operations
    pub drained: Vec<(u8, usize, usize)>,
    pub in_drop: bool,
    steps: u64,
    // analysis scratch
    heads: Vec<u32>, // per granule, entry index + 1
    xheads: HashMap<usize, u32>,
    entries: Vec<(u32, u32, u32)>, // (prev, event, acc)
    touched: Vec<u32>,
    pseudo: [u32; 2],
    clocks: Vec<[u32; MAXT]>,
    seqs: Vec<u32>,
}

pub static mut RT: Option<Box<Rt>> = None;

/// True while code under test runs: its heap allocations then come from the arena.
pub static mut SUT: bool = false;
/// 1: every global allocation of the code under test fails; 2: those that look like nodes do, that is,
/// have a layout the tree has asked its allocator for.
pub static mut FAIL_HEAP: u8 = 0;
/// Heap memory of the code under test that did not fit into the arena.
static mut OVERFLOW: usize = 0;
static mut NODES: [(usize, usize); 8] = [(0, 0); 8];
pub static mut PROGRESS: u64 = 0;
pub const HEAP: u8 = 250;

/// Runs host code inside code under test (callbacks, closures); restores on drop.
pub struct Host(bool);
#[inline(never)]
pub fn host() -> Host {
    unsafe {
        let b = SUT;
        SUT = false;
        Host(b)
    }
}
#[inline(never)]
pub fn sut() -> Host {
    unsafe {
        let b = SUT;
        SUT = true;
        Host(b)
    }
}
impl Drop for Host {
    #[inline(never)]
    fn drop(&mut self) {
        unsafe { SUT = self.0 }
    }
}

struct Ga;
#[global_allocator]
static GA: Ga = Ga;
unsafe impl std::alloc::GlobalAlloc for Ga {
    #[inline]
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if SUT {
            if FAIL_HEAP == 1 || FAIL_HEAP == 2 && NODES.iter().any(|n| *n == (l.size(), l.align())) {
                return std::ptr::null_mut();
            }
            let _h = host();
            let r = rt();
            // code that allocates a great deal in one run, as working memory: what fits is watched
            if r.arena.nearly_full(lane(), l.size()) && OVERFLOW + l.size() < 1 << 31 {
                OVERFLOW += l.size();
                return std::alloc::System.alloc(l);
            }
            return r.arena_alloc(l, HEAP) as *mut u8;
        }
        std::alloc::System.alloc(l)
    }
    #[inline]
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if Arena::contains(p as usize) {
            let _h = host();
            dealloc(p as usize, l, HEAP);
        } else {
            if SUT {
                OVERFLOW = OVERFLOW.saturating_sub(l.size());
            }
            std::alloc::System.dealloc(p, l)
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if Arena::contains(p as usize) || SUT {
            let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
            if !q.is_null() {
                std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
                self.dealloc(p, l);
            }
            q
        } else {
            std::alloc::System.realloc(p, l, n)
        }
    }
}

#[inline]
pub fn rt() -> &'static mut Rt {
    unsafe { RT.as_mut().unwrap_unchecked() }
}

pub fn init() {
    unsafe {
        if RT.is_some() {
            return;
        }
        globals::init();
        RT = Some(Box::new(Rt {
            arena: Arena::new(),
            mode: Mode::Off,
            th: Vec::new(),
            nth: 0,
            cur: 0,
            main_sp: 0,
            stack: Vec::new(),
            depth: 0,
            events: Vec::new(),
            accs: Vec::new(),
            next_sleep: Vec::new(),
            draining: false,
            sleep_blocked: false,
            prefix: 0,
            choices: Vec::new(),
            strategy: Strategy::Dpor,
            replay: None,
            noelide: Vec::new(),
            spun: HashMap::new(),
            seen: HashMap::new(),
            seen_more: false,
            bursts: Vec::new(),
            own_steps: 0,
            weak: Weak::default(),
            decisions: Vec::new(),
            dpos: 0,
            last_run: usize::MAX,
            preempted: 0,
            restart: false,
            trace: false,
            stats: Stats::default(),
            fail_at: [0; arena::LANES],
            fail_all: false,
            alloc_seen: [0; arena::LANES],
            alloc_failed: 0,
            on_violation: None,
            forbid_free: false,
            old_blocks: 0,
            drained: Vec::new(),
            in_drop: false,
            steps: 0,
            heads: vec![0; arena::SIZE / 8],
            xheads: Default::default(),
            entries: Vec::new(),
            touched: Vec::new(),
            pseudo: [0; 2],
            clocks: Vec::new(),
            seqs: Vec::new(),
        }));
        let r = rt();
        for _ in 0..MAXT {
            r.th.push(Th {
                sp: 0,
                stack: Stack::new(),
                st: St::Done,
                pending: Acc { addr: 0, len: 0, kind: 0, atomic: false, mo: 0 },
                pc: 0,
                body: None,
                hist: Vec::new(),
                block: Vec::new(),
                pos: 0,
                rounds: 0,
                limit: 0,
                woken_by: 0,
                unpub: Vec::new(),
                run_len: 0,
                op: 0,
                ahist: Vec::new(),
            });
        }
    }
}

#[inline(never)]
pub fn violation(kind: &str, msg: &str) -> ! {
    unsafe { SUT = false };
    let r = rt();
    match r.on_violation {
        Some(f) => f(kind, msg),
        None => {
            eprintln!("violation: {kind}: {msg}");
            std::process::abort()
        }
    }
}

/// An error of the explorer itself, never a verdict.
pub fn engine_error(msg: &str) -> ! {
    eprintln!("ENGINE-ERROR {msg}");
    println!("E {msg}");
    use std::io::Write;
    let _ = std::io::stdout().flush();
    unsafe { sys::_exit(3) }
}

pub fn describe(addr: usize) -> String {
    if Arena::contains(addr) {
        let r = rt();
        if let Some(i) = r.arena.block_at(addr) {
            let b = &r.arena.blocks[i];
            return format!(
                "block#{i}(size {}, {})+{}",
                b.size,
                if b.live { "live" } else { "freed" },
                addr - b.addr
            );
        }
        return format!("unallocated tree memory {addr:#x}");
    }
    format!("{addr:#x}")
}

pub fn cur_thread() -> usize {
    let r = rt();
    if r.mode == Mode::Off {
        usize::MAX
    } else {
        r.cur
    }
}

// ---------------------------------------------------------------- accesses

const WILD: usize = 1 << 16;

#[inline(always)]
pub fn access(addr: usize, len: usize, kind: u8, atomic: bool, mo: u8, pc: usize) {
    if Arena::contains(addr) {
        access_slow(addr, len, kind, atomic, mo, pc);
    } else {
        access_other(addr, len, kind, atomic, mo, pc)
    }
}

#[inline(always)]
fn access_other(addr: usize, len: usize, kind: u8, atomic: bool, mo: u8, pc: usize) {
    if addr < WILD {
        wild(addr, len, kind);
    } else {
        if globals::in_data(addr) && rt().mode != Mode::Off {
            // a global of the code under test is shared as well
            let _h = host();
            rt().weak.unpoke();
            point(Acc { addr, len: len as u32, kind, atomic, mo }, pc);
        }
        if kind == K_WRITE {
            globals::note(addr, len);
        }
    }
}

#[cold]
#[inline(never)]
fn wild(addr: usize, len: usize, kind: u8) {
    violation(
        "wild-access",
        &format!(
            "{} of {} bytes at address {:#x}",
            if kind == K_READ { "read" } else { "write" },
            len,
            addr
        ),
    )
}

#[inline(never)]
fn check_live(addr: usize, len: usize, kind: u8) {
    let r = rt();
    let s = r.arena.state(addr, len);
    if s != arena::S_LIVE {
        let k = if s == arena::S_FREE { "use-after-free" } else { "out-of-bounds" };
        violation(
            k,
            &format!(
                "{} of {} bytes at {}",
                if kind == K_READ { "read" } else { "write" },
                len,
                describe(addr)
            ),
        )
    }
}

fn access_slow(addr: usize, len: usize, kind: u8, atomic: bool, mo: u8, pc: usize) {
    let r = rt();
    if r.mode == Mode::Off {
        check_live(addr, len, kind);
        r.steps += 1;
        if r.steps > 3_000_000 {
            violation("no-termination", "operation does not return although it runs alone");
        }
        return;
    }
    let _h = host();
    r.weak.unpoke();
    if let Some(b) = r.arena.block_at(addr) {
        let b = &mut r.arena.blocks[b];
        if b.lane as usize != r.cur + 1 {
            b.foreign = true;
        } else if b.unpublished && b.live {
            return; // private to this thread so far
        }
    }
    point(Acc { addr, len: len as u32, kind, atomic, mo }, pc);
    check_live(addr, len, kind);
}

/// The code under test blocks in the kernel until the word at `addr` is written.
pub fn wait_for_change(addr: usize) {
    let _h = host();
    let r = rt();
    r.weak.unpoke();
    if r.mode == Mode::Off {
        violation("deadlock", "the only running thread waits for a lock that nobody else can release");
    }
    if r.mode == Mode::Boot || std::thread::panicking() {
        engine_error("blocked where no other thread can be scheduled");
    }
    // the wait ends in the attempt to take the lock
    let a = Acc { addr, len: 4, kind: K_WRITE, atomic: true, mo: weak::ACQ };
    let t = &mut r.th[r.cur];
    t.block.clear();
    t.block.push(Hist { pc: 0, addr, val: peek(addr, 4), len: 4, atomic: true });
    t.pos = 0;
    t.rounds = 2;
    t.limit = 2;
    t.st = St::Spin;
    t.pending = a;
    t.pc = 0;
    r.stats.spins += 1;
    pick_and_switch();
    executed(a, 0);
}

/// Non-memory events: operation boundaries, guards.
#[inline(never)]
pub fn event(kind: u8) {
    let _h = host();
    let r = rt();
    if r.mode == Mode::Off {
        r.steps = 0;
        unsafe { PROGRESS += 1 };
        return;
    }
    r.weak.unpoke();
    let me = r.cur;
    if kind == K_CALL {
        r.th[me].op += 1;
    }
    let addr = if kind <= K_RET { H_ADDR } else { EP_ADDR };
    point(Acc { addr, len: 1, kind, atomic: false, mo: 0 }, 0);
    if r.weak.on {
        match kind {
            K_CALL => r.weak.called(me),
            K_RET => r.weak.returned(me),
            _ => (),
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Epoch {
    Pinned,
    Unpinned,
    Deferred,
    Collecting,
}
/// What the steps of the collector order, as in crossbeam-epoch.
pub fn epoch_step(k: Epoch) {
    let r = rt();
    if r.mode != Mode::Off && r.weak.on {
        r.weak.unpoke();
        let me = r.cur;
        match k {
            Epoch::Pinned => r.weak.fence(me, weak::mode(5)),
            Epoch::Unpinned | Epoch::Deferred => r.weak.unpinned(me),
            Epoch::Collecting => r.weak.collecting(me),
        }
    }
}

pub fn fence(mo: i32) {
    let r = rt();
    if r.mode != Mode::Off && r.weak.on {
        let _h = host();
        r.weak.unpoke();
        r.weak.fence(r.cur, weak::mode(mo));
    }
}

/// One of `n` ways to go on, under `Strategy::Weak`.
fn decide(n: usize) -> usize {
    let r = rt();
    if n <= 1 {
        return 0;
    }
    let d = r.dpos;
    r.dpos += 1;
    if d < r.decisions.len() {
        if r.decisions[d].1 as usize != n {
            engine_error("divergence while replaying decisions");
        }
        return r.decisions[d].0 as usize;
    }
    r.stats.nodes += 1;
    r.decisions.push((0, n as u8));
    0
}

/// The read may return something that has been overwritten.
fn weak_read(a: &Acc) {
    let r = rt();
    let me = r.cur;
    let len = a.len as usize;
    let bound = match r.strategy {
        Strategy::Weak(_, s) => s,
        _ => 0,
    };
    if a.mo & RMW == 0 && r.weak.used < bound && !std::thread::panicking() {
        let c = r.weak.candidates(me, a.addr, len);
        if !c.is_empty() {
            let k = if let Some(rep) = &r.replay {
                match rep.get(r.choices.len()) {
                    Some(&x) if x >= STALE => (x - STALE) as usize + 1,
                    _ => 0,
                }
            } else {
                decide(c.len() + 1)
            };
            if k > 0 {
                let now = peek(a.addr, a.len);
                r.weak.read_stale(me, a.addr, &c[k - 1], a.mo);
                r.choices.push(STALE + k as u8 - 1);
                if r.trace {
                    eprintln!("        ... returns the overwritten value {:#x}, not {now:#x}", peek(a.addr, a.len));
                }
                return;
            }
        }
    }
    r.weak.read_latest(me, a.addr, len, a.mo);
}

#[inline]
fn peek(addr: usize, len: u32) -> u64 {
    let mut v = [0u8; 8];
    let n = (len as usize).min(8);
    unsafe { std::ptr::copy_nonoverlapping(addr as *const u8, v.as_mut_ptr(), n) };
    u64::from_le_bytes(v)
}

fn point(a: Acc, pc: usize) {
    let r = rt();
    let me = r.cur;
    if r.mode == Mode::Boot {
        r.th[me].pending = a;
        r.th[me].pc = pc;
        globals::switch(MAXT);
        unsafe { mcrt_switch(&mut r.th[me].sp, r.main_sp) };
        executed(a, pc);
        return;
    }
    if std::thread::panicking() {
        // no switch while unwinding (the panic count is per OS thread): glued to the last transition
        record_glued(a);
        return;
    }
    let t = &mut r.th[me];
    t.run_len += 1;
    if t.run_len > 400_000 {
        violation(
            "no-termination",
            &format!("thread {me} keeps running without returning although no other thread interferes"),
        );
    }
    if t.rounds > 0 {
        // inside repeated identical rounds: nothing can differ until someone writes
        if a.kind == K_READ {
            let e = t.block[t.pos];
            if e.pc == pc && e.addr == a.addr && e.len == a.len && e.val == peek(a.addr, a.len) {
                t.pos += 1;
                if t.pos == t.block.len() {
                    t.pos = 0;
                    t.rounds += 1;
                }
                if t.rounds < t.limit {
                    return;
                }
                t.st = St::Spin;
                t.pending = a;
                t.pc = pc;
                r.stats.spins += 1;
                pick_and_switch();
                executed(a, pc);
                return;
            }
        }
        // it was no waiting loop: explore again with every one of these reads as a scheduling point
        t.rounds = 0;
        let b = std::mem::take(&mut t.block);
        let h = block_hash(&b);
        t.clear_hist();
        if !r.noelide.contains(&h) {
            r.noelide.push(h);
        }
        r.restart = true;
    }
    let t = &mut r.th[me];
    t.pending = a;
    t.pc = pc;
    pick_and_switch();
    executed(a, pc);
}

/// Identifies a repeated sequence of reads, independent of where the program was loaded.
fn block_hash(b: &[Hist]) -> u64 {
    let base = block_hash as *const () as usize;
    let mut h = 0xcbf29ce484222325u64;
    for e in b {
        h = (h ^ e.pc.wrapping_sub(base) as u64).wrapping_mul(0x100000001b3).rotate_left(23);
    }
    h
}

/// Bookkeeping when the scheduled thread is about to perform its access.
fn executed(a: Acc, pc: usize) {
    let r = rt();
    let me = r.cur;
    if r.weak.on && a.kind <= K_WRITE {
        if a.kind == K_WRITE {
            r.weak.write(me, a.addr, a.len as usize, a.mo & 7, a.mo & RMW != 0);
        } else {
            let n = r.weak.used;
            weak_read(&a);
            if r.weak.used > n {
                // not what a waiting thread would go on reading
                r.th[me].clear_hist();
                return;
            }
        }
    }
    if a.kind == K_WRITE {
        did_write(a.addr, a.len);
    }
    let t = &mut r.th[me];
    match a.kind {
        K_READ => {
            let h = Hist { pc, addr: a.addr, len: a.len, val: peek(a.addr, a.len), atomic: a.atomic };
            t.hist.push(h);
            if a.atomic {
                detect_spin(t, &r.noelide, &mut r.spun);
            }
            if t.hist.len() > 32768 {
                t.clear_hist();
            }
        }
        _ => t.clear_hist(),
    }
}

fn detect_spin(t: &mut Th, noelide: &[u64], spun: &mut HashMap<u64, u32>) {
    let n = t.hist.len();
    let last = t.hist[n - 1];
    // smallest period ending in an equal item
    for &i in t.ahist.iter().rev() {
        let i = i as usize;
        if t.hist[i] == last {
            let p = n - 1 - i;
            if n < 2 * p {
                break;
            }
            if t.hist[n - p..] == t.hist[n - 2 * p..n - p] {
                let h = block_hash(&t.hist[n - p..]);
                if noelide.contains(&h) {
                    continue;
                }
                t.block.clear();
                t.block.extend_from_slice(&t.hist[n - p..]);
                t.pos = 0;
                t.rounds = 2;
                t.limit = spin_rounds(spun, h);
                return;
            }
        }
    }
    t.ahist.push(n as u32 - 1);
}

/// A successful write: wakes spinners and publishes the writer's private blocks.
fn did_write(addr: usize, len: u32) {
    let r = rt();
    let me = r.cur;
    if !r.th[me].unpub.is_empty() {
        let v = std::mem::take(&mut r.th[me].unpub);
        for &b in &v {
            r.arena.blocks[b].unpublished = false;
        }
        let mut v = v;
        v.clear();
        r.th[me].unpub = v;
    }
    let ev = r.events.len() as u32; // index + 1 of the event just recorded
    for q in 0..r.nth {
        if q != me && r.th[q].st == St::Spin {
            let t = &mut r.th[q];
            if t.block.iter().any(|h| h.addr < addr + len as usize && addr < h.addr + h.len as usize) {
                t.st = St::Runnable;
                t.rounds = 0;
                t.clear_hist();
                t.woken_by = ev;
            }
        }
    }
}

fn record_glued(a: Acc) {
    let r = rt();
    if r.weak.on && a.kind <= K_WRITE {
        if a.kind == K_WRITE {
            r.weak.write(r.cur, a.addr, a.len as usize, a.mo & 7, a.mo & RMW != 0);
        } else {
            weak_read(&a);
        }
    }
    if a.kind == K_WRITE {
        did_write(a.addr, a.len);
    }
    if r.th[r.cur].rounds > 0 {
        let h = block_hash(&r.th[r.cur].block);
        if !r.noelide.contains(&h) {
            r.noelide.push(h);
        }
        r.restart = true;
        r.th[r.cur].rounds = 0;
    }
    r.th[r.cur].clear_hist();
    if !r.draining {
        r.accs.push(a);
        if let Some(e) = r.events.last_mut() {
            e.acc1 = r.accs.len() as u32;
        }
    }
}

/// The last recorded access turned out to be a read only (failed compare-exchange).
pub fn downgrade_to_read() {
    let r = rt();
    if r.mode == Mode::Run && !r.draining {
        if let Some(a) = r.accs.last_mut() {
            a.kind = K_READ;
        }
    }
}

/// Atomic read-modify-write or compare-exchange; `will_write` is evaluated when scheduled.
#[inline(always)]
pub fn access_rmw(addr: usize, len: usize, mo: u8, fmo: u8, pc: usize, will_write: impl Fn() -> bool) {
    let inside = Arena::contains(addr);
    if !inside {
        globals::note(addr, len);
    }
    if inside || globals::in_data(addr) {
        let r = rt();
        if r.mode == Mode::Off {
            if inside {
                check_live(addr, len, K_WRITE);
                r.steps += 1;
                if r.steps > 3_000_000 {
                    violation("no-termination", "operation does not return although it runs alone");
                }
            }
            return;
        }
        let _h = host();
        r.weak.unpoke();
        let b = if inside { r.arena.block_at(addr) } else { None };
        if let Some(b) = b {
            let b = &mut r.arena.blocks[b];
            if b.lane as usize != r.cur + 1 {
                b.foreign = true;
            } else if b.unpublished && b.live {
                return;
            }
        }
        let me = r.cur;
        let a = Acc { addr, len: len as u32, kind: K_WRITE, atomic: true, mo: mo | RMW };
        // scheduled as a write; settled below
        if std::thread::panicking() {
            if inside {
                check_live(addr, len, K_WRITE);
            }
            record_glued(a);
            return;
        }
        if r.th[me].rounds > 0 && r.mode == Mode::Run {
            let h = block_hash(&r.th[me].block);
            if !r.noelide.contains(&h) {
                r.noelide.push(h);
            }
            r.restart = true;
        }
        let t = &mut r.th[me];
        t.rounds = 0;
        t.run_len += 1;
        t.pending = a;
        t.pc = pc;
        if t.run_len > 400_000 {
            violation("no-termination", &format!("thread {me} keeps running without returning although no other thread interferes"));
        }
        if r.mode == Mode::Boot {
            globals::switch(MAXT);
            unsafe { mcrt_switch(&mut r.th[me].sp, r.main_sp) };
        } else {
            pick_and_switch();
        }
        if inside {
            check_live(addr, len, K_WRITE);
        }
        if will_write() {
            executed(a, pc);
        } else {
            downgrade_to_read();
            executed(Acc { kind: K_READ, mo: fmo | RMW, ..a }, pc);
        }
    } else if addr < WILD {
        wild(addr, len, K_WRITE);
    }
}

// ---------------------------------------------------------------- scheduling

fn enabled_mask(r: &Rt) -> u8 {
    let mut m = 0;
    for q in 0..r.nth {
        if r.th[q].st == St::Runnable {
            m |= 1 << q;
        }
    }
    m
}

fn deadlock() -> ! {
    let r = rt();
    let mut s = String::new();
    for q in 0..r.nth {
        if r.th[q].st == St::Spin {
            let t = &r.th[q];
            let lock = t.block.iter().rev().find(|h| h.atomic);
            s += &format!(
                "thread {q} retries for ever re-reading {} values{}; ",
                t.block.len(),
                lock.map(|h| format!(", e.g. {:#x} at {}", h.val, describe(h.addr))).unwrap_or_default()
            );
        }
    }
    violation("deadlock", &s)
}

/// Chooses the next thread, records its transition, and switches to it.
/// Returns in the context of the thread that called it, once that thread is chosen again.
fn pick_and_switch() {
    let r = rt();
    let me = r.cur;
    let next = pick();
    if next == usize::MAX {
        // only reachable when the caller is done (handled there) or everything is finished
        unreachable!("pick without runnable thread");
    }
    if next != me {
        r.th[me].run_len = 0;
        r.cur = next;
        let to = r.th[next].sp;
        globals::switch(next);
        unsafe { mcrt_switch(&mut r.th[me].sp, to) };
        // resumed: whoever switched to us has set cur
    }
}

fn commit(t: usize) {
    let r = rt();
    r.choices.push(t as u8);
    let a = r.th[t].pending;
    if r.trace {
        let k = ["read", "write", "call", "return", "guard", "defer/release"][a.kind as usize];
        let mem = a.kind <= K_WRITE;
        eprintln!(
            "  #{:<4} T{} {}{} {}{}",
            r.choices.len() - 1,
            t,
            if a.atomic { "atomic " } else { "" },
            k,
            if mem { describe(a.addr) } else { String::new() },
            if mem { format!(" len {} (value {:#x})", a.len, peek(a.addr, a.len)) } else { String::new() }
        );
    }
    if let Strategy::Weak(..) = r.strategy {
        r.note_seen(t, &a);
    }
    if r.strategy == Strategy::Bursts {
        if t == 0 {
            r.own_steps += 1;
        } else {
            r.note_seen(t, &a);
            if a.kind == K_CALL {
                r.bursts.push(r.own_steps);
            }
        }
    }
    if !r.draining {
        let a0 = r.accs.len() as u32;
        r.accs.push(a);
        r.events.push(Event { th: t as u8, acc0: a0, acc1: a0 + 1, woken_by: r.th[t].woken_by });
        r.th[t].woken_by = 0;
    }
}

fn pick() -> usize {
    let r = rt();
    let en = enabled_mask(r);
    if en == 0 {
        if (0..r.nth).all(|q| r.th[q].st == St::Done) {
            return usize::MAX;
        }
        deadlock();
    }
    let me = r.cur;
    r.stats.transitions += 1;
    if let Some(rep) = &r.replay {
        let d = r.choices.len();
        let c = if d < rep.len() { rep[d] as usize } else if en >> me & 1 == 1 { me } else { en.trailing_zeros() as usize };
        if en >> c & 1 == 0 {
            engine_error("replay diverged: scheduled thread is not enabled");
        }
        commit(c);
        return c;
    }
    if r.draining {
        let c = if en >> me & 1 == 1 { me } else { en.trailing_zeros() as usize };
        commit(c);
        return c;
    }
    if let Strategy::Weak(bound, _) = r.strategy {
        let prev = r.last_run;
        let go_on = prev != usize::MAX && en >> prev & 1 == 1;
        let mut opt: Vec<usize> = Vec::new();
        if go_on {
            opt.push(prev);
        }
        if !go_on || (r.preempted < bound && r.meets_seen(prev, &r.th[prev].pending)) {
            opt.extend((0..r.nth).filter(|&q| q != prev && en >> q & 1 == 1));
        }
        let c = opt[decide(opt.len())];
        r.preempted += (go_on && c != prev) as u32;
        r.last_run = c;
        commit(c);
        return c;
    }
    let d = r.depth;
    r.depth += 1;
    if d < r.stack.len() {
        let c = r.stack[d].choice as usize;
        if r.stack[d].enabled != en {
            engine_error(&format!(
                "divergence while replaying a prefix at depth {d}: enabled {:b}, expected {:b}",
                en, r.stack[d].enabled
            ));
        }
        if d + 1 == r.stack.len() {
            // the sleep set below the last prefix node
            r.next_sleep = filter_sleep(&r.stack[d].sleep, &r.th[c].pending);
        }
        commit(c);
        return c;
    }
    // a new scheduling state
    let sleep = if d == 0 {
        Vec::new()
    } else if d == r.prefix {
        // filter again with the access as executed (a failed CAS is only a read)
        std::mem::take(&mut r.next_sleep)
    } else {
        let e = r.events[d - 1];
        let parent = &r.stack[d - 1].sleep;
        if parent.is_empty() {
            Vec::new()
        } else {
            let accs = &r.accs[e.acc0 as usize..e.acc1 as usize];
            parent
                .iter()
                .filter(|s| s.th != e.th && !s.accs.iter().any(|x| accs.iter().any(|y| conflict(x, y))))
                .cloned()
                .collect()
        }
    };
    let mut asleep = 0u8;
    for s in &sleep {
        asleep |= 1 << s.th;
    }
    let avail = en & !asleep;
    if avail == 0 {
        // every continuation is covered elsewhere; finish this run without recording
        r.draining = true;
        r.sleep_blocked = true;
        r.depth -= 1;
        let c = if en >> me & 1 == 1 { me } else { en.trailing_zeros() as usize };
        commit(c);
        return c;
    }
    let prev = if d == 0 { 255 } else { r.stack[d - 1].choice };
    let pre = if d == 0 { 0 } else { preempts(&r.stack[d - 1], r.stack[d - 1].choice) };
    r.stats.nodes += 1;
    let allowed = match r.strategy {
        Strategy::Bursts => r.burst_choices(prev, en),
        _ => en,
    };
    let from = if avail & allowed != 0 { avail & allowed } else { avail };
    let c = if prev != 255 && from >> prev & 1 == 1 { prev as usize } else { from.trailing_zeros() as usize };
    let backtrack = match r.strategy {
        Strategy::Dpor => 1 << c,
        _ => allowed,
    };
    r.stack.push(Node { choice: c as u8, enabled: en, backtrack, done: 0, prev, pre, sleep });
    commit(c);
    c
}

/// Preemptions including the choice `c` at this node.
fn preempts(n: &Node, c: u8) -> u32 {
    n.pre + (n.prev != 255 && n.prev != c && n.enabled >> n.prev & 1 == 1) as u32
}

fn filter_sleep(s: &[SleepE], a: &Acc) -> Vec<SleepE> {
    s.iter().filter(|s| !s.accs.iter().any(|x| conflict(x, a))).cloned().collect()
}

extern "C" fn fiber_main(i: usize) -> ! {
    let r = rt();
    let body = r.th[i].body.take().unwrap();
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| unsafe { (*body)() }));
    if res.is_err() {
        violation("panic", "a thread body panicked");
    }
    let r = rt();
    r.weak.unpoke();
    r.th[i].st = St::Done;
    if r.mode == Mode::Boot {
        let mut dummy = 0usize;
        globals::switch(MAXT);
        unsafe { mcrt_switch(&mut dummy, r.main_sp) };
        unreachable!();
    }
    let next = if (0..r.nth).all(|q| r.th[q].st == St::Done) { usize::MAX } else { pick() };
    let mut dummy = 0usize;
    let to = if next == usize::MAX {
        r.main_sp
    } else {
        r.cur = next;
        r.th[next].run_len = 0;
        r.th[next].sp
    };
    globals::switch(if next == usize::MAX { MAXT } else { next });
    unsafe { mcrt_switch(&mut dummy, to) };
    unreachable!()
}

/// Runs the thread bodies once, under the schedule the explorer is currently at.
pub fn run(bodies: &mut [&mut dyn FnMut()]) {
    let r = rt();
    assert!(bodies.len() <= MAXT);
    for b in r.arena.blocks.iter_mut() {
        b.unpublished = false;
    }
    r.nth = bodies.len();
    r.depth = 0;
    r.events.clear();
    r.accs.clear();
    r.next_sleep.clear();
    r.bursts.clear();
    r.own_steps = 0;
    r.weak.begin(matches!(r.strategy, Strategy::Weak(..)));
    r.dpos = 0;
    r.last_run = usize::MAX;
    r.preempted = 0;
    r.choices.clear();
    r.draining = false;
    r.sleep_blocked = false;
    r.prefix = r.stack.len();
    for (i, b) in bodies.iter_mut().enumerate() {
        let t = &mut r.th[i];
        let p: *mut (dyn FnMut() + '_) = &mut **b;
        t.body = Some(unsafe { std::mem::transmute::<*mut (dyn FnMut() + '_), *mut dyn FnMut()>(p) });
        t.st = St::Runnable;
        t.clear_hist();
        t.block.clear();
        t.rounds = 0;
        t.pos = 0;
        t.woken_by = 0;
        t.unpub.clear();
        t.run_len = 0;
        t.op = 0;
        t.sp = t.stack.prepare(fiber_main, i);
    }
    globals::begin(MAXT);
    r.mode = Mode::Boot;
    for i in 0..r.nth {
        r.cur = i;
        let to = r.th[i].sp;
        globals::switch(i);
        unsafe { mcrt_switch(&mut r.main_sp, to) };
    }
    r.mode = Mode::Run;
    if (0..r.nth).any(|q| r.th[q].st != St::Done) {
        r.cur = 0;
        let next = pick();
        r.cur = next;
        let to = r.th[next].sp;
        globals::switch(next);
        unsafe { mcrt_switch(&mut r.main_sp, to) };
    }
    r.mode = Mode::Off;
    r.steps = 0;
    r.stats.executions += 1;
    if r.sleep_blocked {
        r.stats.redundant += 1;
    }
    r.stats.max_depth = r.stats.max_depth.max(r.events.len());
}

// ---------------------------------------------------------------- analysis

impl Rt {
    fn head(&mut self, g: usize) -> &mut u32 {
        if g < GMAX {
            &mut self.heads[g]
        } else {
            self.xheads.entry(g).or_insert(0)
        }
    }

    fn granules(a: &Acc) -> (usize, usize) {
        // arena granules first, globals of the code under test above
        let o = if Arena::contains(a.addr) { a.addr - arena::BASE } else { a.addr + arena::SIZE };
        (o / 8, (o + a.len as usize - 1) / 8)
    }

    /// Happens-before over the recorded transitions; adds backtrack points for reversible races.
    fn analyse(&mut self) {
        let n = self.events.len();
        self.clocks.clear();
        self.seqs.clear();
        self.entries.clear();
        for &g in &self.touched {
            self.heads[g as usize] = 0;
        }
        self.touched.clear();
        self.xheads.clear();
        self.pseudo = [0; 2];
        let mut last: [u32; MAXT] = [0; MAXT]; // event index + 1
        let first_new = self.prefix.saturating_sub(1);
        for i in 0..n {
            let e = self.events[i];
            let p = e.th as usize;
            let mut base = if last[p] > 0 { self.clocks[last[p] as usize - 1] } else { [0; MAXT] };
            let seq = if last[p] > 0 { self.seqs[last[p] as usize - 1] + 1 } else { 1 };
            // latest conflicting event per other thread (index + 1)
            let mut cf = [0u32; MAXT];
            for ai in e.acc0..e.acc1 {
                let a = self.accs[ai as usize];
                let scan = |mut ent: u32, entries: &Vec<(u32, u32, u32)>, accs: &Vec<Acc>, events: &Vec<Event>, cf: &mut [u32; MAXT]| {
                    while ent != 0 {
                        let (prev, ev, acc) = entries[ent as usize - 1];
                        let q = events[ev as usize].th as usize;
                        if q != p && ev + 1 > cf[q] && conflict(&accs[acc as usize], &a) {
                            cf[q] = ev + 1;
                        }
                        ent = prev;
                    }
                };
                if a.kind <= K_WRITE {
                    let (g0, g1) = Self::granules(&a);
                    for g in g0..=g1 {
                        let h = *self.head(g);
                        scan(h, &self.entries, &self.accs, &self.events, &mut cf);
                    }
                } else {
                    let x = (a.kind >= K_EP_R) as usize;
                    scan(self.pseudo[x], &self.entries, &self.accs, &self.events, &mut cf);
                }
            }
            // reversible races
            if i >= first_new && self.strategy == Strategy::Dpor {
                for q in 0..self.nth {
                    if cf[q] == 0 || q == p {
                        continue;
                    }
                    let j = cf[q] as usize - 1;
                    let sj = self.seqs[j];
                    if base[q] >= sj {
                        continue; // ordered by program order already
                    }
                    let mut covered = false;
                    for s in 0..self.nth {
                        if s != q && s != p && cf[s] != 0 && self.clocks[cf[s] as usize - 1][q] >= sj {
                            covered = true;
                        }
                    }
                    if e.woken_by != 0 {
                        let w = e.woken_by as usize - 1;
                        if w == j || self.clocks[w][q] >= sj {
                            covered = true; // could not have run before: it was waiting for this
                        }
                    }
                    if !covered {
                        // needs e's own clock for initials
                        let mut c = base;
                        for s in 0..self.nth {
                            if cf[s] != 0 && s != p {
                                join(&mut c, &self.clocks[cf[s] as usize - 1]);
                            }
                        }
                        if e.woken_by != 0 {
                            join(&mut c, &self.clocks[e.woken_by as usize - 1]);
                        }
                        self.add_backtrack(j, i, p, &c);
                    }
                }
            }
            for s in 0..self.nth {
                if cf[s] != 0 && s != p {
                    let c = self.clocks[cf[s] as usize - 1];
                    join(&mut base, &c);
                }
            }
            if e.woken_by != 0 {
                let c = self.clocks[e.woken_by as usize - 1];
                join(&mut base, &c);
            }
            base[p] = seq;
            self.clocks.push(base);
            self.seqs.push(seq);
            last[p] = i as u32 + 1;
            for ai in e.acc0..e.acc1 {
                let a = self.accs[ai as usize];
                if a.kind <= K_WRITE {
                    let (g0, g1) = Self::granules(&a);
                    for g in g0..=g1 {
                        let prev = *self.head(g);
                        if prev == 0 && g < GMAX {
                            self.touched.push(g as u32);
                        }
                        self.entries.push((prev, i as u32, ai));
                        *self.head(g) = self.entries.len() as u32;
                    }
                } else {
                    let x = (a.kind >= K_EP_R) as usize;
                    self.entries.push((self.pseudo[x], i as u32, ai));
                    self.pseudo[x] = self.entries.len() as u32;
                }
            }
        }
    }

    fn add_backtrack(&mut self, j: usize, i: usize, p: usize, ci: &[u32; MAXT]) {
        let q = self.events[j].th as usize;
        let sj = self.seqs[j];
        // v = events after j not happening after j, then i; find its initials
        let mut first = [0u32; MAXT]; // seq of the thread's first event in v
        let mut init = 0u8;
        let mut seen = 0u8;
        for k in j + 1..i {
            if self.clocks[k][q] >= sj {
                continue;
            }
            let t = self.events[k].th as usize;
            if seen >> t & 1 == 1 {
                continue;
            }
            seen |= 1 << t;
            first[t] = self.seqs[k];
            let c = &self.clocks[k];
            if (0..self.nth).all(|u| u == t || seen >> u & 1 == 0 || c[u] < first[u]) {
                init |= 1 << t;
            }
        }
        if seen >> p & 1 == 0 && (0..self.nth).all(|u| u == p || seen >> u & 1 == 0 || ci[u] < first[u]) {
            init |= 1 << p;
        }
        let n = &mut self.stack[j];
        if n.backtrack & init != 0 {
            return;
        }
        let c = init & n.enabled;
        if c == 0 {
            return; // only waiting threads: running them here is a stutter step
        }
        let pickt = if c >> p & 1 == 1 { p } else { c.trailing_zeros() as usize };
        n.backtrack |= 1 << pickt;
    }

    /// Moves to the next unexplored schedule; false when the space is exhausted.
    /// Which threads may go on here under `Strategy::Bursts`.
    fn burst_choices(&self, prev: u8, en: u8) -> u8 {
        let p = prev as usize;
        if prev == 255 || en >> p & 1 == 0 {
            return en;
        }
        if p != 0 && self.th[p].pending.kind != K_CALL {
            return 1 << p;
        }
        let b = &self.bursts;
        if b.len() >= 2 {
            return if self.own_steps - b[b.len() - 1] == b[1] - b[0] { en & !1 } else { en & 1 };
        }
        if p == 0 && !self.meets_seen(0, &self.th[0].pending) {
            1
        } else {
            en
        }
    }
    fn note_seen(&mut self, t: usize, a: &Acc) {
        let (g0, g1) = if a.kind <= K_WRITE { (a.addr >> 3, (a.addr + a.len as usize - 1) >> 3) } else { (0, 0) };
        for g in g0..=g1 {
            let e = self.seen.entry((g * MAXT + t) as u64).or_insert(0);
            if *e >> a.kind & 1 == 0 {
                *e |= 1 << a.kind;
                self.seen_more = true;
            }
        }
    }
    /// Whether what thread `t` is about to do conflicts with anything another thread is known to do.
    fn meets_seen(&self, t: usize, a: &Acc) -> bool {
        let (g0, g1) = if a.kind <= K_WRITE { (a.addr >> 3, (a.addr + a.len as usize - 1) >> 3) } else { (0, 0) };
        (g0..=g1).any(|g| {
            let m = (0..self.nth).filter(|&u| u != t).fold(0, |m, u| m | self.seen.get(&((g * MAXT + u) as u64)).copied().unwrap_or(0));
            (0..8u8).any(|k| m >> k & 1 == 1 && conflict(a, &Acc { kind: k, addr: a.addr, len: a.len, atomic: false, mo: 0 }))
        })
    }
    fn backtrack(&mut self) -> bool {
        if let Strategy::Weak(..) = self.strategy {
            while let Some(d) = self.decisions.last_mut() {
                d.0 += 1;
                if d.0 < d.1 {
                    return true;
                }
                self.decisions.pop();
            }
            return false;
        }
        while let Some(d) = self.stack.len().checked_sub(1) {
            let e = self.events[d];
            let accs: Vec<Acc> = self.accs[e.acc0 as usize..e.acc1 as usize].to_vec();
            let strategy = self.strategy;
            let n = &mut self.stack[d];
            n.done |= 1 << n.choice;
            if strategy == Strategy::Dpor {
                n.sleep.push(SleepE { th: n.choice, accs });
            }
            let mut asleep = 0u8;
            for s in &n.sleep {
                asleep |= 1 << s.th;
            }
            let mut cand = n.backtrack & n.enabled & !n.done & !asleep;
            if let Strategy::Naive(b) = strategy {
                for t in 0..MAXT as u8 {
                    if cand >> t & 1 == 1 && preempts(n, t) > b {
                        cand &= !(1 << t);
                    }
                }
            }
            if cand != 0 {
                n.choice = cand.trailing_zeros() as u8;
                return true;
            }
            self.stack.pop();
        }
        false
    }
}

fn join(a: &mut [u32; MAXT], b: &[u32; MAXT]) {
    for k in 0..MAXT {
        a[k] = a[k].max(b[k]);
    }
}

/// Explores one scenario. `exec` performs one complete execution (set-up, `run`, checks, tear-down).
pub fn explore(strategy: Strategy, cap: u64, deadline: Option<std::time::Instant>, exec: &mut dyn FnMut()) -> Stats {
    let r = rt();
    r.strategy = strategy;
    r.stack.clear();
    r.decisions.clear();
    r.stats = Stats::default();
    r.restart = false;
    r.spun.clear();
    r.seen.clear();
    r.seen_more = false;
    if r.replay.is_none() {
        r.noelide.clear();
    }
    let mut discarded = 0;
    loop {
        if std::mem::take(&mut r.restart) {
            r.stack.clear();
            r.decisions.clear();
            discarded += r.stats.executions;
            let n = r.stats.restarts + 1;
            r.stats = Stats { restarts: n, ..Default::default() };
        }
        r.alloc_seen = [0; arena::LANES];
        r.alloc_failed = 0;
        r.steps = 0;
        unsafe { PROGRESS += 1 };
        exec();
        let pre = r.stack.last().map(|n| preempts(n, n.choice)).unwrap_or(0);
        r.stats.max_preempt = r.stats.max_preempt.max(pre);
        if r.replay.is_some() {
            break;
        }
        if r.restart {
            continue;
        }
        if r.strategy == Strategy::Dpor {
            r.analyse();
        }
        if std::mem::take(&mut r.seen_more) {
            // decisions taken so far may have rested on too little
            r.restart = true;
            continue;
        }
        if !r.backtrack() {
            break;
        }
        if r.stats.executions + discarded >= cap
            || (r.stats.executions & 255 == 0
                && deadline.map(|d| std::time::Instant::now() > d).unwrap_or(false))
        {
            r.stats.capped = true;
            break;
        }
    }
    r.stats.clone()
}

// ---------------------------------------------------------------- allocator

fn lane() -> usize {
    let r = rt();
    if r.mode == Mode::Off {
        0
    } else {
        r.cur + 1
    }
}

#[inline(never)]
pub fn alloc(layout: Layout, tree: u8) -> Option<usize> {
    let _h = host();
    let r = rt();
    r.weak.unpoke();
    unsafe {
        let n = (layout.size(), layout.align());
        if let Some(s) = NODES.iter_mut().find(|s| **s == n || s.0 == 0) {
            *s = n;
        }
    }
    let l = lane();
    r.alloc_seen[l] += 1;
    if r.fail_all || r.fail_at[l] == r.alloc_seen[l] {
        r.alloc_failed += 1;
        return None;
    }
    Some(r.arena_alloc(layout, tree))
}

impl Rt {
    /// The execution that just ended only repeats behaviour covered elsewhere.
    /// The schedule so far: run lengths per thread, and what was not treated as waiting.
    pub fn schedule(&self) -> String {
        let mut s = String::new();
        let mut i = 0;
        // the tail in which one thread runs alone need not be spelled out
        let mut n = self.choices.len();
        while n > 1 && self.choices[n - 1] == self.choices[n - 2] {
            n -= 1;
        }
        while i < n {
            let mut j = i;
            while j < n && self.choices[j] == self.choices[i] {
                j += 1;
            }
            s += &format!("{}{}x{}", if i > 0 { "," } else { "" }, self.choices[i], j - i);
            i = j;
        }
        for h in &self.noelide {
            s += &format!("/{h:x}");
        }
        s
    }
    pub fn set_schedule(&mut self, s: &str) {
        let mut it = s.split('/');
        let mut v = Vec::new();
        for e in it.next().unwrap_or("").split(',') {
            if let Some((t, n)) = e.split_once('x') {
                v.extend(std::iter::repeat_n(t.parse::<u8>().unwrap(), n.parse().unwrap()));
            }
        }
        self.noelide = it.map(|h| u64::from_str_radix(h, 16).unwrap()).collect();
        self.replay = Some(v);
    }
    pub fn redundant(&self) -> bool {
        self.sleep_blocked
    }
    pub fn arena_alloc(&mut self, layout: Layout, tree: u8) -> usize {
        let a = self.arena.alloc(layout, lane(), tree);
        if self.mode != Mode::Off {
            let i = self.arena.blocks.len() - 1;
            self.arena.blocks[i].op = self.th[self.cur].op;
            self.th[self.cur].unpub.push(i);
        }
        a
    }
}

#[inline(never)]
pub fn dealloc(addr: usize, layout: Layout, tree: u8) {
    let _h = host();
    let r = rt();
    r.weak.unpoke();
    let i = match r.arena.check_free(addr, layout, tree) {
        Ok(i) => i,
        Err(m) => violation("bad-free", &m),
    };
    let private = if r.mode == Mode::Off {
        i >= r.old_blocks
    } else {
        let b = &r.arena.blocks[i];
        !b.foreign && b.lane as usize == r.cur + 1 && b.op == r.th[r.cur].op
    };
    if r.forbid_free && tree != HEAP && !private {
        violation("early-free", &format!("{} is freed although a guard held since before it was unlinked is still alive", describe(addr)));
    }
    if r.mode != Mode::Off && !(r.arena.blocks[i].unpublished && r.arena.blocks[i].lane as usize == r.cur + 1) {
        let len = r.arena.blocks[i].size as u32;
        point(Acc { addr, len, kind: K_WRITE, atomic: false, mo: 0 }, 0);
        // somebody else may have freed it meanwhile
        if let Err(m) = r.arena.check_free(addr, layout, tree) {
            violation("bad-free", &m);
        }
    }
    if r.trace {
        eprintln!("        free {}", describe(addr));
    }
    r.arena.free(i);
}

#[inline(never)]
pub fn live_blocks(tree: u8) -> usize {
    rt().arena.blocks.iter().filter(|b| b.live && b.tree == tree).count()
}

pub fn live_sizes(tree: u8) -> Vec<usize> {
    rt().arena.blocks.iter().filter(|b| b.live && b.tree == tree).map(|b| b.size).collect()
}

pub fn leak_description(tree: u8) -> String {
    let r = rt();
    let v: Vec<String> = r
        .arena
        .blocks
        .iter()
        .enumerate()
        .filter(|(_, b)| b.live && b.tree == tree)
        .map(|(i, b)| format!("block#{i} of {} bytes", b.size))
        .collect();
    v.join(", ")
}

/// Recorder for drainers; not inlined so that it is never instrumented.
#[inline(never)]
pub fn drained(tree: u8, k: usize, v: usize) {
    let _h = host();
    rt().drained.push((tree, k, v));
}
