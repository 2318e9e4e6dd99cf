//! Concurrent scenarios: every interleaving of small thread programs on systematically chosen trees.
use crate::lin::{conserve, Checker, Rec, Sel};
use crate::ops::*;
use crate::seeds::Seed;
use crate::seq::{drop_and_check, kind_obs, observe, report, Obs};
use crossbeam_epoch::{mc_counts, pin};
use mcrt::arena::Snap;
use mcrt::*;
use std::cell::RefCell;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use sut::{Kind, Tree};

/// Operation template; values are filled in per thread so that every stored value is unique.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum T {
    Get(usize),
    Ins(usize),
    InsSame(usize), // the value the key has in the beginning
    Rem(usize),
    CasOk(usize),
    CasBad(usize),
    CasDel(usize),
    CasNop(usize),    // the value of the beginning for itself
    CasBadCur(usize), // the value of the beginning in exchange for one that was never there
    CipAdd(usize),
    CipConst(usize),
    CipDel(usize),
    CipSame(usize),
    CipDelIf(usize),
    CoiAdd(usize),
    CoiConst(usize),
    CoiSame(usize),
    CipPanic(usize),
    CoiPanic(usize),
    CipPanicIf(usize),
    CoiPanicAbsent(usize),
    Range(usize, usize, usize),
    Empty,
    Stats,
    Life(bool),
}

fn initial(seed: &Seed) -> Map {
    let mut m = Map::default();
    for &o in &seed.build {
        m.apply(o);
    }
    m
}

impl T {
    fn inst(self, m: &Map, th: usize, pos: usize) -> Op {
        let v = 1000 * (th + 1) + 10 * pos + 1;
        let cur = |k| m.get(k).unwrap_or(5);
        match self {
            T::Get(k) => Op::Get(k),
            T::Ins(k) => Op::Ins(k, v),
            T::InsSame(k) => Op::Ins(k, cur(k)),
            T::Rem(k) => Op::Rem(k),
            T::CasOk(k) => Op::Cas(k, cur(k), Some(v)),
            T::CasBad(k) => Op::Cas(k, 4, Some(v)),
            T::CasDel(k) => Op::Cas(k, cur(k), None),
            T::CasNop(k) => Op::Cas(k, cur(k), Some(cur(k))),
            T::CasBadCur(k) => Op::Cas(k, 4, Some(cur(k))),
            T::CipAdd(k) => Op::Cip(k, F::Add(v)),
            T::CipConst(k) => Op::Cip(k, F::Const(v)),
            T::CipDel(k) => Op::Cip(k, F::Del),
            T::CipSame(k) => Op::Cip(k, F::Same),
            T::CipDelIf(k) => Op::Cip(k, F::DelIf(cur(k))),
            T::CoiAdd(k) => Op::Coi(k, F::Add(v)),
            T::CoiConst(k) => Op::Coi(k, F::Const(v)),
            T::CoiSame(k) => Op::Coi(k, F::Same),
            T::CipPanic(k) => Op::Cip(k, F::Panic),
            T::CoiPanic(k) => Op::Coi(k, F::Panic),
            T::CipPanicIf(k) => Op::Cip(k, F::PanicIf(cur(k))),
            T::CoiPanicAbsent(k) => Op::Coi(k, F::PanicAbsent(v)),
            T::Range(a, b, n) => Op::Range(a, b, n),
            T::Empty => Op::Empty,
            T::Stats => Op::Stats,
            T::Life(r) => Op::Life(r),
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Pin {
    Op,     // a guard per operation
    Thread, // a guard per thread
    Outer,  // a guard held by the main thread throughout, plus one per operation
}

#[derive(Clone)]
pub struct Scen {
    pub seed: usize,
    pub progs: Vec<Vec<(usize, Op)>>, // (tree, operation)
    pub trees: usize,
    pub pin: Pin,
    pub kind: Kind,
    pub fail: Vec<(usize, u32)>, // (thread, n-th allocation of that thread fails)
    pub cap: u64,
    pub bound: u32,
    pub bursts: bool, // the other threads' operations happen at once
    pub weak: (u32, u32), // preemptions and reads of overwritten values; no such reads: (0, 0)
}

impl Scen {
    pub fn text(&self, seeds: &[Seed]) -> String {
        let mut s = format!("tree {}", seeds[self.seed].name);
        for (i, p) in self.progs.iter().enumerate() {
            let ops: Vec<String> =
                p.iter().map(|(t, o)| if self.trees > 1 { format!("tree{t}.{o}") } else { o.to_string() }).collect();
            s += &format!(" | T{i}: {}", ops.join("; "));
        }
        s += match self.pin {
            Pin::Op => "",
            Pin::Thread => " | guard per thread",
            Pin::Outer => " | guard held by the main thread",
        };
        if self.bursts {
            s += " | T0 interrupted by whole operations";
        }
        if self.weak.1 > 0 {
            s += " | reads may return overwritten values";
        }
        if self.kind != Kind::Plain {
            s += &format!(" | {:?}", self.kind);
        }
        for (t, n) in &self.fail {
            s += &format!(" | allocation {n} of T{t} fails");
        }
        s
    }
}

pub struct Ctx<'a> {
    pub seeds: &'a [Seed],
    pub prop: &'a str,
    pub strategy: Strategy,
}

#[derive(Default, Clone, Debug)]
pub struct Out {
    pub st: Stats,
    pub histories: u64,
    pub outcomes: u64,
    pub frees: u64,
    // 0: all interleavings; 1..: all up to so many preemptions; 8: bursts; 9: cut short; 1pn: p preemptions, n overwritten values
    pub bound: u32,
}

fn hash<H: Hash>(x: &H) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

pub fn run_scen(cx: &Ctx, sc: &Scen) -> Out {
    let seed = &cx.seeds[sc.seed];
    let r = rt();
    r.arena.reset();
    r.fail_at = [0; mcrt::arena::LANES];
    r.fail_all = false;
    r.forbid_free = false;
    let init = initial(seed);
    let own = matches!(sc.kind, Kind::Plain | Kind::Typed); // nodes from an allocator of its own
    let trees: Vec<Tree> = (0..sc.trees).map(|i| Tree::new(sc.kind, if own { i as u8 + 1 } else { 0 })).collect();
    for t in &trees {
        for &o in &seed.build {
            let g = pin();
            begin_op();
            exec(t, o, &g);
            drop(g);
        }
    }
    let mut universe: Vec<usize> = init.0.iter().map(|x| x.0).collect();
    universe.extend(seed.present.iter().chain(seed.absent.iter()));
    universe.extend(sc.progs.iter().flatten().filter_map(|x| x.1.key()));
    universe.sort();
    universe.dedup();
    let mut snap = Snap::default();
    r.arena.save(&mut snap);
    let heap0 = {
        for t in &trees {
            begin_op();
            t.destroy();
        }
        r.drained.clear();
        let n = live_blocks(HEAP);
        r.arena.restore(&snap);
        n
    };

    let n = sc.progs.len();
    let recs: Vec<RefCell<Vec<Rec>>> = (0..n).map(|_| RefCell::new(Vec::with_capacity(8))).collect();
    let clock = std::cell::Cell::new(0u32);
    let mut memo: HashSet<u64> = HashSet::new();
    let mut outcomes: HashSet<u64> = HashSet::new();
    let mut out = Out::default();
    let (_, ran0) = crossbeam_epoch::mc_totals();
    let obs = kind_obs(sc.kind, cx.prop).0;
    let sel_all = Sel { scans: true, stats: true, empty: true };
    let sel_none = Sel { scans: false, stats: false, empty: false };
    let mut failed_before = false;

    let st = {
        let mut exec_once = || {
            let r = rt();
            r.arena.restore(&snap);
            r.fail_at = [0; mcrt::arena::LANES];
            for &(t, k) in &sc.fail {
                r.fail_at[t + 1] = k;
            }
            for x in &recs {
                x.borrow_mut().clear();
            }
            clock.set(0);
            let outer = if sc.pin == Pin::Outer {
                let g = pin();
                r.forbid_free = true;
                Some(g)
            } else {
                None
            };
            {
                let mut bodies: Vec<Box<dyn FnMut() + '_>> = Vec::new();
                for (i, p) in sc.progs.iter().enumerate() {
                    let (recs, clock, trees) = (&recs, &clock, &trees);
                    bodies.push(Box::new(move || {
                        let tg = if sc.pin == Pin::Thread { Some(pin()) } else { None };
                        for &(t, op) in p {
                            event(K_CALL);
                            clock.set(clock.get() + 1);
                            let call = clock.get();
                            let own;
                            let g = match &tg {
                                Some(g) => g,
                                None => {
                                    own = pin();
                                    &own
                                }
                            };
                            let res = exec(&trees[t], op, g);
                            event(K_RET);
                            clock.set(clock.get() + 1);
                            recs[i].borrow_mut().push(Rec { th: i * 8 + t, op, res, call, ret: clock.get() });
                        }
                        drop(tg);
                    }));
                }
                let mut refs: Vec<&mut dyn FnMut()> = bodies.iter_mut().map(|b| &mut **b as &mut dyn FnMut()).collect();
                run(&mut refs);
            }
            r.forbid_free = false;
            drop(outer);
            failed_before = r.alloc_failed > 0;
            r.fail_at = [0; mcrt::arena::LANES];
            if r.redundant() {
                return;
            }
            let mut found: Vec<(&'static str, String)> = Vec::new();
            let (gs, pend) = mc_counts();
            if gs != 0 || pend != 0 {
                found.push(("pending", format!("{gs} guards and {pend} deferred closures are left after all guards were released")));
            }
            let mut all: Vec<Rec> = recs.iter().flat_map(|x| x.borrow().clone()).collect();
            all.sort_by_key(|x| x.call);
            for rc in &all {
                if let Res::BadCall(m) = &rc.res {
                    found.push(("lin", format!("{}: {m}", rc.op)));
                    found.push(("fault", format!("{}: {m}", rc.op)));
                    found.push(("scan", format!("{}: {m}", rc.op)));
                }
            }
            for id in LIFE..LIFE + n as u8 {
                if live_blocks(id) != 0 {
                    found.push(("leak", format!("blocks of another tree that was dropped are still allocated: {}", leak_description(id))));
                }
            }
            for (ti, t) in trees.iter().enumerate() {
                let mine: Vec<Rec> = all.iter().filter(|x| x.th % 8 == ti).cloned().collect();
                // contents at rest
                let mut fin = Map::default();
                {
                    let g = pin();
                    for &k in &universe {
                        begin_op();
                        if let Res::Val(Some(v)) = exec(t, Op::Get(k), &g) {
                            fin.0.push((k, v));
                        }
                    }
                }
                let key = hash(&(
                    ti,
                    mine.iter().map(|x| (x.th, x.call, x.ret, &x.op, &x.res)).collect::<Vec<_>>(),
                    &fin,
                ));
                {
                    let mut o: Vec<&Rec> = mine.iter().collect();
                    o.sort_by_key(|x| x.th); // stable: program order within a thread
                    outcomes.insert(hash(&(ti, o.iter().map(|x| (x.th, &x.op, &x.res)).collect::<Vec<_>>(), &fin)));
                }
                if memo.insert(key) {
                    let chk = |s: Sel| Checker::new(&mine, &fin, s, failed_before).ok(&init);
                    if !chk(sel_all) {
                        let what = || {
                            let v: Vec<String> = mine
                                .iter()
                                .map(|x| format!("T{} [{}..{}] {} -> {:?}", x.th / 8, x.call, x.ret, x.op, x.res))
                                .collect();
                            format!("{}; contents before {:?}, after {:?}", v.join("; "), init.0, fin.0)
                        };
                        if !chk(sel_none) {
                            found.push(("lin", format!("no sequential order explains {}", what())));
                        } else {
                            if !chk(Sel { scans: true, ..sel_none }) {
                                found.push(("scan", format!("the scan fits no order of the writes: {}", what())));
                            }
                            if !chk(Sel { stats: true, ..sel_none }) {
                                found.push(("stats", format!("the statistics fit no order of the writes: {}", what())));
                            }
                            if !chk(Sel { empty: true, ..sel_none }) {
                                found.push(("isempty", format!("is_empty fits no order of the writes: {}", what())));
                            }
                        }
                    }
                    if let Err(m) = conserve(&init, &mine, &fin) {
                        found.push(("conserve", m));
                    }
                }
                observe(t, &fin, &[], Obs { gets: false, ..obs }, &mut found);
                if obs.drain || obs.mem {
                    rt().drained.clear();
                    drop_and_check(t, &fin, Obs { drain: false, ..obs }, &mut found);
                } else if !own {
                    begin_op();
                    t.destroy();
                }
            }
            if obs.mem && obs.drain || !own {
                let n = live_blocks(HEAP);
                if n > heap0 {
                    found.push(("leak", format!("{} blocks of heap memory the tree used are still allocated: {}", n - heap0, leak_description(HEAP))));
                }
            }
            report(cx.prop, &found);
        };
        let strategy = match sc.weak {
            (_, 0) if sc.bursts => Strategy::Bursts,
            (_, 0) => cx.strategy,
            (p, n) => Strategy::Weak(p, n),
        };
        let mut st = explore(strategy, sc.cap, None, &mut exec_once);
        if st.capped && strategy == Strategy::Dpor && sc.bound > 0 {
            // too many interleavings for all of them: all with few preemptions instead
            let b = explore(Strategy::Naive(sc.bound), sc.cap * 20, None, &mut exec_once);
            out.bound = if b.capped { 9 } else { sc.bound };
            st.executions += b.executions;
            st.redundant += b.redundant;
            st.transitions += b.transitions;
            st.nodes += b.nodes;
            st.spins += b.spins;
            st.max_depth = st.max_depth.max(b.max_depth);
            st.restarts += b.restarts;
        } else if st.capped {
            out.bound = 9;
        } else if let Strategy::Weak(p, n) = strategy {
            out.bound = 100 + 10 * p + n;
        } else if strategy == Strategy::Bursts {
            out.bound = 8;
        }
        st
    };
    out.st = st;
    out.histories = memo.len() as u64;
    out.outcomes = outcomes.len() as u64;
    out.frees = crossbeam_epoch::mc_totals().1 - ran0;
    out
}

// ---------------------------------------------------------------- scenario generation

struct Gen<'a> {
    seeds: &'a [Seed],
    out: Vec<Scen>,
    thorough: bool,
    deep: bool,
}

/// Executions after which a scenario falls back to a preemption bound, and that bound.
fn limits(threads: usize, thorough: bool) -> (u64, u32) {
    match (threads, thorough) {
        (2, false) => (20_000, 2),
        (_, false) => (3_000, 1),
        (2, true) => (300_000, 3),
        (_, true) => (60_000, 2),
    }
}

fn point_ts(s: &Seed, ne: usize, na: usize) -> Vec<T> {
    let mut v = Vec::new();
    for &k in s.present.iter().take(ne) {
        v.extend([T::Get(k), T::Ins(k), T::Rem(k)]);
    }
    for (i, &k) in s.absent.iter().take(na).enumerate() {
        v.extend([T::Ins(k), T::Get(k)]);
        if i == 0 {
            v.push(T::Rem(k));
        }
    }
    v
}

fn rmw_ts(s: &Seed, ne: usize, na: usize) -> Vec<T> {
    let mut v = Vec::new();
    for &k in s.present.iter().take(ne) {
        v.extend([
            T::CasOk(k), T::CasBad(k), T::CasDel(k), T::CasNop(k), T::CasBadCur(k), T::CipAdd(k), T::CipConst(k), T::CipDel(k), T::CipSame(k), T::CipDelIf(k),
            T::CoiAdd(k), T::CoiConst(k), T::CoiSame(k),
        ]);
    }
    for &k in s.absent.iter().take(na) {
        v.extend([T::CasOk(k), T::CipAdd(k), T::CipDel(k), T::CoiAdd(k), T::CoiSame(k)]);
    }
    v
}

/// One conditional update of each kind that changes something.
fn rmw_few(s: &Seed, ne: usize, na: usize) -> Vec<T> {
    let mut v = Vec::new();
    for &k in s.present.iter().take(ne) {
        v.extend([T::CasDel(k), T::CipAdd(k), T::CoiAdd(k)]);
    }
    for &k in s.absent.iter().take(na) {
        v.push(T::CoiAdd(k));
    }
    v
}

fn write_ts(s: &Seed, ne: usize, na: usize) -> Vec<T> {
    point_ts(s, ne, na).into_iter().filter(|t| !matches!(t, T::Get(_))).collect()
}

fn range_ts(s: &Seed, max: usize) -> Vec<T> {
    let mut v = vec![T::Range(0, usize::MAX, 64)];
    let b = &s.bounds;
    for i in 0..b.len() {
        for j in i + 1..b.len() {
            if (i, j) != (0, b.len() - 1) {
                v.push(T::Range(b[i], b[j], 64));
            }
        }
    }
    // spread the selection over all pairs of bounds
    if v.len() > max {
        let step = v.len() as f64 / max as f64;
        v = (0..max).map(|i| v[(i as f64 * step) as usize]).collect();
    }
    v.push(T::Range(0, usize::MAX, 2));
    v.push(T::Range(0, usize::MAX, 1));
    v
}

/// Every kind of operation, on keys that meet in the same nodes.
fn all_ts(s: &Seed, ne: usize, na: usize) -> Vec<T> {
    let mut v = point_ts(s, ne, na);
    v.extend(rmw_few(s, 1, 1));
    v.push(T::Range(0, usize::MAX, 64));
    if let (Some(a), Some(b)) = (s.bounds.get(1), s.bounds.get(s.bounds.len().saturating_sub(2))) {
        v.push(T::Range(*a, *b, 64));
    }
    v.push(T::Empty);
    v.push(T::Stats);
    v
}

fn panic_ts(s: &Seed) -> Vec<T> {
    let mut v = Vec::new();
    for &k in s.present.iter().take(1) {
        v.extend([T::CipPanic(k), T::CoiPanic(k), T::CipPanicIf(k)]);
    }
    for &k in s.absent.iter().take(5) {
        v.extend([T::CoiPanic(k), T::CoiPanicAbsent(k)]);
    }
    v
}

impl<'a> Gen<'a> {
    fn add(&mut self, seed: usize, progs: Vec<Vec<(usize, Op)>>, trees: usize, pin: Pin) {
        let (mut cap, mut bound) = limits(progs.len(), self.deep);
        if !self.deep && progs.iter().flatten().any(|x| matches!(x.1, Op::Life(_))) {
            // dropping a tree passes 256 moments at which another guard may go
            (cap, bound) = (2_000, 1);
        }
        let scans = progs.iter().flatten().any(|x| matches!(x.1, Op::Range(..) | Op::Stats));
        if !self.deep && scans && progs.iter().map(|p| p.len()).sum::<usize>() > 2 {
            (cap, bound) = if self.thorough { (3_000, 1) } else { (cap, 1) };
        }
        self.out.push(Scen { seed, progs, trees, pin, kind: Kind::Plain, fail: vec![], cap, bound, bursts: false, weak: (0, 0) });
    }
    fn push(&mut self, seed: usize, progs: &[&[T]], pin: Pin) {
        let m = initial(&self.seeds[seed]);
        let progs = progs.iter().enumerate().map(|(th, p)| p.iter().enumerate().map(|(i, t)| (0usize, t.inst(&m, th, i))).collect()).collect();
        self.add(seed, progs, 1, pin);
    }
    fn push_fail(&mut self, seed: usize, progs: &[&[T]], fail: &[(usize, u32)]) {
        self.push(seed, progs, Pin::Op);
        self.out.last_mut().unwrap().fail = fail.to_vec();
    }
    fn push_trees(&mut self, seed: usize, progs: &[&[(usize, T)]], pin: Pin) {
        let m = initial(&self.seeds[seed]);
        let progs = progs.iter().enumerate().map(|(th, p)| p.iter().enumerate().map(|(i, (t, o))| (*t, o.inst(&m, th, i))).collect()).collect();
        self.add(seed, progs, 2, pin);
    }
    /// all unordered pairs over one list
    fn pairs(&mut self, seed: usize, ts: &[T], pin: Pin, keep: impl Fn(&T, &T) -> bool) {
        for i in 0..ts.len() {
            for j in i..ts.len() {
                if keep(&ts[i], &ts[j]) {
                    self.push(seed, &[&[ts[i]], &[ts[j]]], pin);
                }
            }
        }
    }
    /// all pairs of two lists
    fn cross(&mut self, seed: usize, a: &[T], b: &[T], pin: Pin) {
        for x in a {
            for y in b {
                self.push(seed, &[&[*x], &[*y]], pin);
            }
        }
    }
    /// two operations against one
    fn two_one(&mut self, seed: usize, a: &[T], b: &[T], c: &[T], pin: Pin) {
        for x in a {
            for y in b {
                for z in c {
                    self.push(seed, &[&[*x, *y], &[*z]], pin);
                }
            }
        }
    }
    fn two_two(&mut self, seed: usize, a: &[T], pin: Pin) {
        for w in a {
            for x in a {
                for y in a {
                    for z in a {
                        self.push(seed, &[&[*w, *x], &[*y, *z]], pin);
                    }
                }
            }
        }
    }
    /// one operation while another thread completes many: retries upon retries, and nodes that go
    /// through several sizes meanwhile
    fn storm(&mut self, seed: usize, a: &[T], n: usize) {
        let s = &self.seeds[seed];
        let c = core(s, n);
        let mut progs: Vec<Vec<T>> = Vec::new();
        for y in &c {
            for z in &c {
                progs.push(vec![*y, *z, *y, *z, *y, *z]);
            }
        }
        let ab: Vec<usize> = s.absent.iter().take(4).cloned().collect();
        let pr: Vec<usize> = s.present.iter().take(4).cloned().collect();
        progs.push(ab.iter().map(|k| T::Ins(*k)).chain(ab.iter().rev().map(|k| T::Rem(*k))).collect());
        progs.push(pr.iter().map(|k| T::Rem(*k)).chain(pr.iter().map(|k| T::Ins(*k))).collect());
        progs.retain(|p| !p.is_empty());
        for x in a {
            for p in &progs {
                self.push(seed, &[&[*x], p], Pin::Op);
                let l = self.out.last_mut().unwrap();
                (l.bursts, l.cap) = (true, 1_000_000);
            }
        }
    }
    /// one operation that another thread interrupts up to 72 times, each time with a whole operation
    fn gale(&mut self, seed: usize, a: &[T]) {
        let s = &self.seeds[seed];
        let mut progs: Vec<Vec<T>> = Vec::new();
        if let Some(&k) = s.present.first() {
            progs.push([T::Rem(k), T::Ins(k)].repeat(36));
            progs.push([T::Ins(k)].repeat(72));
        }
        for &k in s.absent.iter().take(2) {
            progs.push([T::Ins(k), T::Rem(k)].repeat(36));
        }
        for x in a {
            // the long ones pass very many moments
            let long = !self.deep && matches!(x, T::Range(..) | T::Stats);
            if long && a.len() > 4 {
                continue;
            }
            let n = if long { 1 } else { progs.len() };
            let reps = if long && matches!(x, T::Stats) { 16 } else if long { 36 } else { 72 };
            for p in &progs[..n] {
                self.push(seed, &[&[*x], &p[..reps]], Pin::Op);
                let l = self.out.last_mut().unwrap();
                (l.bursts, l.cap) = (true, 1_000_000);
            }
        }
    }
    /// the short programs again, with memory that does not order accesses beyond what the code asks for
    fn weaken(&mut self, prop: &str, tiny: &[usize], small: &[usize]) {
        let few = matches!(prop, "C09" | "C13" | "C05" | "C16");
        if !few && !matches!(prop, "C06" | "C07" | "C08") {
            return;
        }
        let mut more: Vec<Scen> = Vec::new();
        for x in &self.out {
            let n: usize = x.progs.iter().map(|p| p.len()).sum();
            if x.bursts || x.progs.len() != 2 || !x.fail.is_empty() || x.pin != Pin::Op || x.kind != Kind::Plain {
                continue;
            }
            let weak = match (self.deep, n) {
                (true, 2) if !few => (2, 2),
                (true, 2 | 3) => (2, 1),
                (false, 2) if prop == "C06" && tiny.contains(&x.seed) => (2, 2),
                (false, 2) if prop == "C06" || small.contains(&x.seed) => (1, 1),
                (false, 3) if prop == "C06" && tiny.contains(&x.seed) => (1, 1),
                _ => continue,
            };
            more.push(Scen { weak, cap: 1_000_000, ..x.clone() });
        }
        self.out.extend(more);
    }
    /// three threads: one of `a`, an unordered pair of `b`
    fn triples(&mut self, seed: usize, a: &[T], b: &[T], pin: Pin) {
        for x in a {
            for i in 0..b.len() {
                for j in i..b.len() {
                    self.push(seed, &[&[*x], &[b[i]], &[b[j]]], pin);
                }
            }
        }
    }
}

fn is_write(t: &T) -> bool {
    !matches!(t, T::Get(_) | T::Range(..) | T::Empty | T::Stats | T::CipSame(_) | T::CasBad(_) | T::CasBadCur(_) | T::CasNop(_))
}

/// A seed and operations chosen so that each one meets the others in the same nodes.
fn core(s: &Seed, n: usize) -> Vec<T> {
    let mut v = Vec::new();
    if let Some(&k) = s.present.first() {
        v.extend([T::Rem(k), T::Ins(k)]);
    }
    if let Some(&k) = s.absent.first() {
        v.push(T::Ins(k));
    }
    if let Some(&k) = s.present.get(1) {
        v.push(T::Rem(k));
    } else if let Some(&k) = s.absent.first() {
        v.push(T::Rem(k));
    }
    for &k in s.absent.iter().skip(1) {
        v.push(T::Ins(k));
    }
    v.truncate(n);
    v
}

/// `wide`: the scenarios of the thorough tier within the bounds of the quick one.
pub fn scenarios(seeds: &[Seed], prop: &str, tier: &str) -> Vec<Scen> {
    let thorough = tier != "quick";
    let mut g = Gen { seeds, out: vec![], thorough, deep: tier == "thorough" };
    let id = |n: &str| seeds.iter().position(|s| s.name == n).unwrap_or_else(|| panic!("no seed {n}"));
    let ids = |l: &[&str]| l.iter().map(|n| id(n)).collect::<Vec<usize>>();
    let tiny = ids(&["empty", "leaf1", "leaf4", "inner2@6", "chain[6]"]);
    let small = ids(&["empty", "emptied", "leaf1", "leaf2", "leaf4", "inner1@6", "inner2@6", "inner4@6", "chain[6]", "shrunk4to[0]@7"]);
    let mid = ids(&[
        "leaf3", "leaf5", "leaf16", "leaf48", "leaf49", "inner16@6", "inner48@6", "inner2@3", "chain[6,4]", "chain[6,0]",
        "shrunk17to[0]@7", "shrunk5to[1]@6", "shrunk17to[1]@6", "extremes",
    ]);
    let all: Vec<usize> = (0..seeds.len()).collect();
    let std_: Vec<usize> = if thorough { all.clone() } else { small.iter().chain(mid.iter()).cloned().collect() };
    let deep: Vec<usize> = if thorough { small.iter().chain(mid.iter()).cloned().collect() } else { tiny.clone() };
    match prop {
        "C06" => {
            for &s in &std_ {
                let ts = point_ts(&seeds[s], if thorough { 4 } else { 2 }, if thorough { 6 } else { 4 });
                g.pairs(s, &ts, Pin::Op, |a, b| is_write(a) || is_write(b));
                // a value that comes back
                for &k in seeds[s].present.iter().take(if thorough { 3 } else { 1 }) {
                    g.cross(s, &[T::InsSame(k)], &[T::Ins(k), T::Rem(k), T::InsSame(k)], Pin::Op);
                    for x in [T::Get(k), T::Ins(k), T::Rem(k)] {
                        for y in [T::Rem(k), T::Ins(k)] {
                            g.push(s, &[&[x], &[y, T::InsSame(k)]], Pin::Op);
                        }
                    }
                }
            }
            for &s in &deep {
                let c = core(&seeds[s], if thorough { 7 } else { 4 });
                let mut r = c.clone();
                r.extend(seeds[s].present.iter().take(1).map(|k| T::Get(*k)));
                r.extend(seeds[s].absent.iter().take(1).map(|k| T::Get(*k)));
                g.two_one(s, &c, &r, &r, Pin::Op);
            }
            for &s in if thorough { &small } else { &tiny } {
                let c = core(&seeds[s], if thorough { 5 } else { 3 });
                let mut r = c.clone();
                r.extend(seeds[s].present.iter().take(1).map(|k| T::Get(*k)));
                r.extend(seeds[s].absent.iter().take(1).map(|k| T::Get(*k)));
                g.triples(s, &r, &c, Pin::Op);
            }
            if thorough {
                for &s in &tiny {
                    g.two_two(s, &core(&seeds[s], 4), Pin::Op);
                }
            }
        }
        "C07" => {
            for &s in &std_ {
                let a = rmw_ts(&seeds[s], if thorough { 2 } else { 1 }, if thorough { 2 } else { 1 });
                g.pairs(s, &a, Pin::Op, |a, b| is_write(a) || is_write(b));
                let b = point_ts(&seeds[s], 1, 2);
                g.cross(s, &a, &b, Pin::Op);
                for &k in seeds[s].present.iter().take(1) {
                    for x in rmw_ts(&seeds[s], 1, 0) {
                        g.push(s, &[&[x], &[T::Rem(k), T::InsSame(k)]], Pin::Op);
                        if thorough || small.contains(&s) {
                            g.push(s, &[&[x], &[T::Ins(k), T::InsSame(k)]], Pin::Op);
                            g.push(s, &[&[x], &[T::CasDel(k), T::InsSame(k)]], Pin::Op);
                        }
                    }
                }
            }
            for &s in &deep {
                let a = rmw_few(&seeds[s], 1, 1);
                let mut c = a.clone();
                c.extend(core(&seeds[s], 3));
                g.two_one(s, &a, &c, &c, Pin::Op);
                if tiny.contains(&s) || thorough {
                    g.triples(s, &a, &c[..c.len().min(5)], Pin::Op);
                }
            }
        }
        "C08" => {
            for &s in &std_ {
                let a = range_ts(&seeds[s], if thorough { 40 } else { 8 });
                let b = write_ts(&seeds[s], if thorough { 4 } else { 2 }, if thorough { 6 } else { 3 });
                g.cross(s, &a, &b, Pin::Op);
            }
            for &s in &deep {
                let a = range_ts(&seeds[s], if thorough { 6 } else { 1 });
                let c = core(&seeds[s], if thorough { 5 } else { 3 });
                for r in &a {
                    for x in &c {
                        for y in &c {
                            g.push(s, &[&[*r], &[*x, *y]], Pin::Op);
                        }
                    }
                }
                if thorough || tiny.contains(&s) {
                    g.triples(s, &a[..1], &c[..c.len().min(if thorough { 4 } else { 3 })], Pin::Op);
                }
            }
        }
        "C05" => {
            for &s in &std_ {
                let b = write_ts(&seeds[s], 2, 2);
                g.cross(s, &[T::Empty], &b, Pin::Op);
                let c = core(&seeds[s], if thorough { 6 } else { 4 });
                for x in &c {
                    for y in &c {
                        g.push(s, &[&[T::Empty], &[*x, *y]], Pin::Op);
                        if thorough || small.contains(&s) {
                            g.push(s, &[&[*x, T::Empty], &[*y]], Pin::Op);
                        }
                    }
                }
            }
            for &s in &small {
                g.triples(s, &[T::Empty], &core(&seeds[s], if thorough { 6 } else { 3 }), Pin::Op);
            }
        }
        "C09" => {
            for &s in &std_ {
                let b = write_ts(&seeds[s], 2, if thorough { 6 } else { 4 });
                let mut a = all_ts(&seeds[s], if thorough { 3 } else { 2 }, if thorough { 6 } else { 2 });
                if !thorough && !small.contains(&s) {
                    a.retain(|t| !matches!(t, T::Stats)); // C16 has them
                }
                g.cross(s, &a, &b, Pin::Op);
            }
            for &s in &deep {
                let a = all_ts(&seeds[s], 1, 2);
                let c = core(&seeds[s], 4);
                for x in &a {
                    for y in &c {
                        g.push(s, &[&[*x], &[*y]], Pin::Outer);
                        g.push(s, &[&[*x, *y], &[*y]], Pin::Thread);
                    }
                }
            }
            for &s in &tiny {
                let a = all_ts(&seeds[s], 1, 1);
                let a: Vec<T> = if thorough { a } else { a.into_iter().filter(|t| !matches!(t, T::Stats | T::Range(..))).collect() };
                let c = core(&seeds[s], if thorough { 4 } else { 2 });
                g.triples(s, &a, &c, Pin::Op);
                let c = core(&seeds[s], 3);
                g.two_one(s, &c, &c, &a, Pin::Op);
            }
        }
        "C10" => {
            for &s in &std_ {
                let mut ts = write_ts(&seeds[s], 2, 4);
                ts.extend(rmw_few(&seeds[s], 1, 1));
                g.pairs(s, &ts, Pin::Op, |_, _| true);
                let c = core(&seeds[s], if thorough { 6 } else { 3 });
                g.pairs(s, &c, Pin::Outer, |_, _| true);
            }
            for &s in &tiny {
                for x in core(&seeds[s], if thorough { 4 } else { 2 }) {
                    for r in [false, true] {
                        g.push(s, &[&[T::Life(r)], &[x]], Pin::Op);
                    }
                }
            }
            for &s in &deep {
                let c = core(&seeds[s], if thorough { 5 } else { 4 });
                g.two_one(s, &c, &c, &c, Pin::Op);
                g.triples(s, &c[..c.len().min(3)], &c[..c.len().min(3)], Pin::Op);
            }
        }
        "C13" => {
            for &s in &std_ {
                let mut ts = write_ts(&seeds[s], 2, if thorough { 5 } else { 2 });
                ts.extend(rmw_ts(&seeds[s], 1, 1).into_iter().filter(is_write));
                g.pairs(s, &ts, Pin::Op, |_, _| true);
            }
            for &s in &deep {
                let mut c = core(&seeds[s], if thorough { 4 } else { 3 });
                c.extend(rmw_few(&seeds[s], 1, 0));
                g.two_one(s, &c, &c, &c, Pin::Op);
                if tiny.contains(&s) {
                    g.triples(s, &c[..c.len().min(4)], &c[..c.len().min(4)], Pin::Op);
                }
            }
        }
        "C14" => {
            for &s in &std_ {
                let mut ts = all_ts(&seeds[s], 2, if thorough { 6 } else { 3 });
                if !thorough && !small.contains(&s) {
                    ts.retain(|t| !matches!(t, T::Stats));
                }
                g.pairs(s, &ts, Pin::Op, |a, b| is_write(a) || is_write(b));
            }
            for &s in &deep {
                let c = core(&seeds[s], if thorough { 5 } else { 3 });
                g.two_one(s, &c, &c, &c, Pin::Op);
            }
            for &s in &tiny {
                let c = core(&seeds[s], if thorough { 4 } else { 3 });
                g.triples(s, &c, &c, Pin::Op);
            }
        }
        "C11" => {
            for &s in &std_ {
                let mut ins: Vec<T> = Vec::new();
                for &k in seeds[s].absent.iter().take(if thorough { 7 } else { 5 }) {
                    ins.extend([T::Ins(k), T::CoiAdd(k)]);
                }
                let mut o = point_ts(&seeds[s], 1, if thorough { 4 } else { 2 });
                o.push(T::Range(0, usize::MAX, 64));
                if !thorough && !small.contains(&s) {
                    ins.retain(|t| matches!(t, T::Ins(_)));
                    o.truncate(5);
                }
                for x in &ins {
                    for y in &o {
                        for n in 1..=2 {
                            g.push_fail(s, &[&[*x], &[*y]], &[(0, n)]);
                        }
                    }
                    if small.contains(&s) || thorough {
                        for y in &ins {
                            for (n, m) in [(1, 1), (2, 1), (2, 2)] {
                                g.push_fail(s, &[&[*x], &[*y]], &[(0, n), (1, m)]);
                            }
                        }
                        // the operation is repeated once memory is available
                        for y in &o {
                            for n in 1..=2 {
                                g.push_fail(s, &[&[*x, *x], &[*y]], &[(0, n)]);
                            }
                        }
                    }
                }
            }
        }
        "C15" => {
            for &s in &std_ {
                let p = panic_ts(&seeds[s]);
                let mut o = point_ts(&seeds[s], 1, if thorough { 5 } else { 3 });
                o.extend(rmw_few(&seeds[s], 1, 1));
                o.push(T::Range(0, usize::MAX, 64));
                o.push(T::Empty);
                g.cross(s, &p, &o, Pin::Op);
                g.pairs(s, &p, Pin::Op, |_, _| true);
            }
            for &s in &deep {
                let p = panic_ts(&seeds[s]);
                let c = core(&seeds[s], if thorough { 4 } else { 2 });
                g.two_one(s, &p, &c, &c, Pin::Op);
                g.two_one(s, &c, &p, &c, Pin::Op);
            }
        }
        "C16" => {
            for &s in &std_ {
                let b = write_ts(&seeds[s], if thorough { 3 } else { 2 }, if thorough { 6 } else { 3 });
                g.cross(s, &[T::Stats], &b, Pin::Op);
            }
            for &s in &tiny {
                let c = core(&seeds[s], if thorough { 4 } else { 2 });
                for x in &c {
                    for y in &c {
                        g.push(s, &[&[T::Stats], &[*x, *y]], Pin::Op);
                    }
                }
                g.push(s, &[&[T::Stats], &[T::Stats]], Pin::Op);
                g.triples(s, &[T::Stats], &c[..c.len().min(3)], Pin::Op);
            }
        }
        "C17" => {
            // the other front ends take the same steps
            for kind in [Kind::U64, Kind::U64Typed, Kind::Typed, Kind::Default] {
                let from = g.out.len();
                let typed = matches!(kind, Kind::Typed | Kind::Default);
                for &s in if thorough { &small } else { &tiny } {
                    let mut ts = point_ts(&seeds[s], 1, 2);
                    ts.push(T::Range(0, usize::MAX, 64));
                    if typed {
                        ts.extend(rmw_few(&seeds[s], 1, 1));
                        ts.push(T::Empty);
                        for &k in seeds[s].present.iter().take(1) {
                            ts.extend([T::CasOk(k), T::CipConst(k), T::CipDel(k)]);
                        }
                    }
                    g.pairs(s, &ts, Pin::Op, |a, b| is_write(a) || is_write(b));
                    let c = core(&seeds[s], if thorough { 4 } else { 3 });
                    g.two_one(s, &c, &c, &c, Pin::Op);
                }
                for x in &mut g.out[from..] {
                    x.kind = kind;
                }
            }
        }
        "C18" => {
            for &s in if thorough { &std_ } else { &small } {
                let ts = all_ts(&seeds[s], 1, 2);
                for x in &ts {
                    for y in &ts {
                        g.push_trees(s, &[&[(0, *x)], &[(1, *y)]], Pin::Op);
                    }
                }
                for r in [false, true] {
                    for x in &ts {
                        g.push(s, &[&[T::Life(r)], &[*x]], Pin::Op);
                    }
                    g.push(s, &[&[T::Life(r)], &[T::Life(r)]], Pin::Op);
                }
                let reads = [T::Get(seeds[s].present.first().copied().unwrap_or(1)), T::Range(0, usize::MAX, 64)];
                for x in reads {
                    for y in core(&seeds[s], if thorough { 3 } else { 2 }) {
                        g.push(s, &[&[T::Life(false)], &[x], &[y]], Pin::Op);
                        let l = g.out.last_mut().unwrap();
                        l.cap = l.cap.max(10_000);
                    }
                }
                let c = core(&seeds[s], 4);
                for x in &c {
                    for (j, y) in c.iter().enumerate() {
                        for (l, z) in c.iter().enumerate() {
                            g.push_trees(s, &[&[(0, *x), (1, *y)], &[(0, *z)]], Pin::Op);
                            g.push_trees(s, &[&[(0, *x), (1, *y)], &[(1, *z)]], Pin::Thread);
                            if thorough || tiny.contains(&s) && j < 2 && l < 3 {
                                g.push_trees(s, &[&[(0, *x), (1, *y)], &[(1, *x), (0, *z)]], Pin::Op);
                            }
                        }
                    }
                }
            }
        }
        _ => {}
    }
    for &s in &std_ {
        let sd = &seeds[s];
        let a = match prop {
            "C05" => vec![T::Empty],
            "C06" => point_ts(sd, 1, 1),
            "C07" => rmw_ts(sd, 1, 1),
            "C08" => range_ts(sd, if thorough { 4 } else { 1 }),
            "C09" | "C14" => all_ts(sd, 1, 1),
            "C10" | "C13" => write_ts(sd, 1, 1).into_iter().chain(rmw_few(sd, 1, 1)).collect(),
            "C15" => panic_ts(sd),
            "C16" => vec![T::Stats],
            _ => continue,
        };
        let mut a: Vec<T> = a;
        if (if thorough { &small[..] } else { &tiny[..2] }).contains(&s) && matches!(prop, "C05" | "C06" | "C07" | "C08" | "C14" | "C16") {
            g.gale(s, &a);
        }
        if !g.deep && !(tiny.contains(&s) && matches!(prop, "C08" | "C16")) {
            // these pass very many moments
            a.retain(|t| !matches!(t, T::Range(..) | T::Stats));
        }
        if !g.deep && !small.contains(&s) && matches!(prop, "C09" | "C13" | "C14") {
            continue;
        }
        g.storm(s, &a, if thorough { 4 } else if small.contains(&s) { 2 } else { 1 });
    }
    g.weaken(prop, &tiny, &small);
    g.out
}
