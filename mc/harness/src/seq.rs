//! Sequential enumeration: every operation sequence up to a depth from systematically chosen trees,
//! each prefix compared with the reference map; every allocation failure, every panicking closure
//! and every pair of scan bounds on them.
use crate::ops::*;
use crate::seeds::*;
use crossbeam_epoch::{mc_counts, pin};
use mcrt::arena::Snap;
use mcrt::*;
use sut::{Kind, Tree};

#[derive(Default, Clone, Debug)]
pub struct Tally {
    pub states: u64,      // states reached and compared with the reference
    pub transitions: u64, // operations executed
    pub traces: u64,      // maximal sequences
    pub faults: u64,      // injected failures and panics
    pub scans: u64,
}

/// What is looked at in a state.
#[derive(Clone, Copy, Default)]
pub struct Obs {
    pub gets: bool,
    pub scan: bool,
    pub empty: bool,
    pub stats: bool,
    pub mem: bool,
    pub drain: bool,
}

pub fn obs_for(prop: &str) -> Obs {
    let o = Obs::default();
    match prop {
        "C01" | "C04" | "C06" | "C07" => Obs { gets: true, ..o },
        "C02" | "C08" => Obs { scan: true, ..o },
        "C03" => Obs { gets: true, scan: true, ..o },
        "C05" => Obs { empty: true, ..o },
        "C09" => Obs { gets: true, scan: true, empty: true, stats: true, mem: true, drain: true },
        "C10" => Obs { mem: true, drain: true, ..o },
        "C11" => Obs { gets: true, scan: true, empty: true, mem: true, ..o },
        "C12" | "C13" => Obs { drain: true, ..o },
        "C14" => Obs { gets: true, scan: true, empty: true, stats: true, ..o },
        "C15" => Obs { gets: true, scan: true, empty: true, ..o },
        "C16" => Obs { stats: true, ..o },
        "C17" => Obs { gets: true, scan: true, empty: true, drain: true, ..o },
        _ => Obs { gets: true, scan: true, empty: true, stats: true, mem: true, drain: true },
    }
}

/// Node sizes in the order of the size classes, learnt from the allocator.
#[derive(Clone, Copy, Default, Debug)]
pub struct Sizes(pub [usize; 4]);
static mut SIZES: Sizes = Sizes([0; 4]);

pub fn sizes() -> Sizes {
    unsafe {
        if SIZES.0[3] == 0 {
            let r = rt();
            r.arena.reset();
            let t = Tree::new(Kind::Plain, 1);
            let g = pin();
            let mut z = [0; 4];
            z[3] = live_sizes(1)[0];
            for i in 0..48 {
                begin_op();
                exec(&t, Op::Ins(with(&[(7, i as u8)]), 1), &g);
                // the newest block is the leaf
                let s = r.arena.blocks.iter().rev().find(|b| b.live && b.tree == 1).map(|b| b.size).unwrap();
                match i {
                    0 => z[0] = s,
                    4 => z[1] = s,
                    16 => z[2] = s,
                    _ => {}
                }
            }
            drop(g);
            SIZES = Sizes(z);
        }
        SIZES
    }
}

pub fn observe(t: &Tree, fin: &Map, universe: &[usize], o: Obs, found: &mut Vec<(&'static str, String)>) {
    let g = t.a().pin();
    if o.gets {
        for &k in universe {
            begin_op();
            let r = exec(t, Op::Get(k), &g);
            if r != Res::Val(fin.get(k)) {
                found.push(("seq", format!("{} gives {r:?}, expected {:?}", Op::Get(k), fin.get(k))));
                break;
            }
        }
    }
    if o.scan {
        begin_op();
        let n = fin.0.len() + 2;
        let want = fin.scan(0, usize::MAX, n);
        match exec(t, Op::Range(0, usize::MAX, n), &g) {
            Res::Scan(v) if v == want => {}
            r => found.push(("rest", format!("a full scan at rest gives {r:?}, the tree holds {want:?}"))),
        }
    }
    if o.empty {
        begin_op();
        if exec(t, Op::Empty, &g) != Res::Bool(fin.0.is_empty()) {
            found.push(("isempty", format!("is_empty() at rest is {} with {} keys present", !fin.0.is_empty(), fin.0.len())));
        }
    }
    if o.stats {
        begin_op();
        let before = live_sizes(t.id);
        let s = parse_stats(&t.a().stats());
        let live = live_sizes(t.id);
        if live != before {
            found.push(("stats", "reading the statistics changed the allocated nodes".into()));
        }
        if s.kv != fin.0.len() {
            found.push(("stats", format!("stats() at rest reports {} pairs, the tree holds {}", s.kv, fin.0.len())));
        }
        if t.id != 0 {
            let z = sizes();
            let mut by = [0usize; 4];
            for b in &live {
                if let Some(i) = z.0.iter().position(|x| x == b) {
                    by[i] += 1;
                }
            }
            if s.nodes != live.len() || s.by_class != by {
                found.push(("stats", format!("nodes per size class: {by:?} are allocated, stats reports {:?} and {} in all", s.by_class, s.nodes)));
            }
            if s.entries != live.len() - 1 + fin.0.len() {
                found.push(("stats", format!("stats reports {} entries, {} nodes and {} pairs have {}", s.entries, live.len(), fin.0.len(), live.len() - 1 + fin.0.len())));
            }
            let mb = live.iter().sum::<usize>() / 1024 / 1024;
            if s.mb != mb {
                found.push(("stats", format!("stats reports {} Mb, {mb} are allocated", s.mb)));
            }
        }
    }
    if o.mem && t.id != 0 {
        let live = live_blocks(t.id);
        if fin.0.is_empty() && live != 1 {
            found.push(("emptymem", format!("an emptied tree still holds {live} blocks, a new one holds 1")));
        }
        if live > 1 + 7 * fin.0.len() {
            found.push(("emptymem", format!("{live} blocks are held for {} keys", fin.0.len())));
        }
    }
}

/// Drops the tree and looks at what the drainer saw and what is still allocated.
pub fn drop_and_check(t: &Tree, fin: &Map, o: Obs, found: &mut Vec<(&'static str, String)>) {
    begin_op();
    if o.drain && !rt().drained.is_empty() {
        found.push(("drain", format!("the drainer ran before the drop: {:?}", rt().drained)));
    }
    rt().drained.clear();
    t.destroy();
    drain_checks(t.id, fin, found);
    rt().drained.clear();
}

pub fn drain_checks(id: u8, fin: &Map, found: &mut Vec<(&'static str, String)>) {
    let mut d: Vec<(usize, usize)> = rt().drained.iter().filter(|x| x.0 == id).map(|x| (x.1, x.2)).collect();
    d.sort();
    if d != fin.0 {
        found.push(("drain", format!("the drainer saw {d:?}, the tree held {:?}", fin.0)));
    }
    if live_blocks(id) != 0 {
        found.push(("leak", format!("after the drop these blocks are still allocated: {}", leak_description(id))));
    }
}

pub fn relevant(prop: &str, kind: &str) -> bool {
    let l: &[&str] = match prop {
        "C01" | "C04" | "C06" | "C07" => &["lin", "seq"],
        "C02" => &["scan", "rest"],
        "C03" => &["lin", "seq", "rest"],
        "C05" => &["isempty"],
        "C08" => &["scan", "rest"],
        "C09" | "C14" => &[],
        "C10" => &["leak", "emptymem", "pending"],
        "C11" => &["lin", "rest", "leak", "fault", "seq", "isempty"],
        "C12" => &["drain"],
        "C13" => &["conserve", "drain"],
        "C15" => &["lin", "rest", "fault", "seq", "isempty"],
        "C16" => &["stats"],
        "C17" => &["lin", "rest", "seq", "drain", "isempty", "scan"],
        _ => &["lin", "rest", "seq", "drain", "leak", "scan", "isempty", "stats", "conserve", "emptymem", "pending", "fault"],
    };
    l.contains(&kind)
}

pub fn report(prop: &str, found: &[(&'static str, String)]) {
    for (k, m) in found {
        if relevant(prop, k) {
            violation(k, m);
        }
    }
}

pub struct Unit {
    pub name: String,
    run: Box<dyn Fn(&str, &mut Tally)>,
}

impl Unit {
    pub fn go(&self, prop: &str) -> Tally {
        let r = rt();
        sizes();
        r.arena.reset();
        r.fail_at = [0; mcrt::arena::LANES];
        r.fail_all = false;
        r.forbid_free = false;
        r.drained.clear();
        trail_clear();
        let mut t = Tally::default();
        (self.run)(prop, &mut t);
        t
    }
}

fn initial(build: &[Op]) -> Map {
    let mut m = Map::default();
    for &o in build {
        m.apply(o);
    }
    m
}

/// Executes one operation under its own guard and compares its result with the reference.
fn step(prop: &str, t: &Tree, m: &mut Map, op: Op, ta: &mut Tally) {
    step_with(prop, t, m, op, false, ta)
}
/// `held`: the caller holds a guard, too.
fn step_with(prop: &str, t: &Tree, m: &mut Map, op: Op, held: bool, ta: &mut Tally) {
    trail_push(t.id, op);
    ta.transitions += 1;
    begin_op();
    let g = t.a().pin();
    let was = op.key().map(|k| m.get(k));
    let got = exec(t, op, &g);
    let want = m.apply(op);
    drop(g);
    judge(prop, op, was, got, want);
    let (gs, pend) = mc_counts();
    if !held && (gs, pend) != (0, 0) {
        report(prop, &[("pending", format!("{gs} guards and {pend} deferred closures are left after all guards were released"))]);
    }
}

fn judge(prop: &str, op: Op, was: Option<Option<usize>>, got: Res, want: Res) {
    let kind = match op {
        Op::Range(..) => "scan",
        Op::Empty => "isempty",
        Op::Stats => "stats",
        _ => "seq",
    };
    if got != want {
        report(prop, &[(kind, format!("{op} gives {got:?}, the reference gives {want:?}"))]);
        if kind == "scan" {
            report(prop, &[("rest", format!("{op} gives {got:?}, the reference gives {want:?}"))]);
        }
    }
    if let (Op::Cip(..), Some(None)) = (op, was) {
        if closure_calls() != 0 {
            report(prop, &[("seq", format!("{op} ran the closure although the key is absent"))]);
        }
    }
}

fn build(t: &Tree, ops: &[Op]) {
    for &o in ops {
        begin_op();
        let g = t.a().pin();
        exec(t, o, &g);
    }
}

fn universe(m: &Map, alpha: &[Op], seed: Option<&Seed>) -> Vec<usize> {
    let mut u: Vec<usize> = m.0.iter().map(|x| x.0).collect();
    if u.len() > 40 {
        // the scan covers the rest
        u = u.iter().step_by(u.len() / 20).cloned().collect();
    }
    u.extend(alpha.iter().filter_map(|o| o.key()));
    if let Some(s) = seed {
        u.extend(s.present.iter().chain(s.absent.iter()));
    }
    u.sort();
    u.dedup();
    u
}

/// Values that must not be special, rotated through the depths of a sequence.
pub const VALUES: [usize; 8] =
    [usize::MAX, 0, 1, 0x6000_0000_0040, 48, 1 << 63, usize::MAX - 1, 0xff];

fn at_depth(o: Op, d: usize) -> Op {
    let v = VALUES[d % VALUES.len()];
    match o {
        Op::Ins(k, _) => Op::Ins(k, v),
        Op::Cip(k, F::Const(_)) => Op::Cip(k, F::Const(v)),
        Op::Coi(k, F::Const(_)) => Op::Coi(k, F::Const(v)),
        o => o,
    }
}

/// `Cas` templates carry markers that are resolved against the reference: expect the current value.
const CUR: usize = 0x7777_0000_0000_0001;
fn resolve(o: Op, m: &Map) -> Op {
    match o {
        Op::Cas(k, CUR, n) => Op::Cas(k, m.get(k).unwrap_or(5), n),
        Op::Cas(k, e, Some(CUR)) => Op::Cas(k, e, m.get(k).or(Some(7))),
        Op::Cip(k, F::DelIf(CUR)) => Op::Cip(k, F::DelIf(m.get(k).unwrap_or(5))),
        Op::Cip(k, F::PanicIf(CUR)) => Op::Cip(k, F::PanicIf(m.get(k).unwrap_or(5))),
        o => o,
    }
}

struct Dfs<'a> {
    prop: &'a str,
    t: Tree,
    alpha: &'a [Op],
    uni: Vec<usize>,
    obs: Obs,
    depth: usize,
    snaps: Vec<Snap>,
    /// looks at a state, in addition to `obs`
    extra: Option<&'a dyn Fn(&Tree, &Map, &mut Tally)>,
}

impl Dfs<'_> {
    fn look(&mut self, m: &Map, d: usize, ta: &mut Tally) {
        ta.states += 1;
        let mut found = Vec::new();
        observe(&self.t, m, &self.uni, self.obs, &mut found);
        report(self.prop, &found);
        if let Some(f) = self.extra {
            f(&self.t, m, ta);
            if self.obs.drain {
                rt().arena.restore(&self.snaps[d]);
            }
        }
        if self.obs.drain {
            // consumes the tree; the caller restores
            drop_and_check(&self.t, m, self.obs, &mut found);
            report(self.prop, &found);
        }
    }
    fn go(&mut self, m: &Map, d: usize, first: Option<Op>, ta: &mut Tally) {
        if self.snaps.len() <= d {
            self.snaps.push(Snap::default());
        }
        rt().arena.save(&mut self.snaps[d]);
        if first.is_none() || d > 0 {
            self.look(m, d, ta);
        }
        if d == self.depth {
            ta.traces += 1;
            return;
        }
        let n = if d == 0 && first.is_some() { 1 } else { self.alpha.len() };
        for i in 0..n {
            let op = resolve(at_depth(if d == 0 && first.is_some() { first.unwrap() } else { self.alpha[i] }, d), m);
            rt().arena.restore(&self.snaps[d]);
            let mut m2 = m.clone();
            let l = trail_len();
            step(self.prop, &self.t, &mut m2, op, ta);
            self.go(&m2, d + 1, first, ta);
            trail_cut(l);
        }
    }
}

/// All sequences over `alpha` from `seed`, one unit per first operation.
fn dfs_units(out: &mut Vec<Unit>, seed: &Seed, alpha: Vec<Op>, depth: usize, kind: Kind) {
    for &first in &alpha {
        let (seed, alpha) = (seed.clone(), alpha.clone());
        out.push(Unit {
            name: format!("tree {} ({kind:?}); sequences of {depth} over {} operations starting with {first}", seed.name, alpha.len()),
            run: Box::new(move |prop, ta| {
                let obs = obs_for(prop);
                let id = if matches!(kind, Kind::Plain | Kind::Typed) { 1 } else { 0 };
                let obs = match kind {
                    Kind::Plain | Kind::Typed => obs,
                    Kind::Default => Obs { drain: false, stats: obs.stats, mem: false, ..obs },
                    _ => Obs { drain: false, stats: false, empty: false, mem: false, ..obs },
                };
                let t = Tree::new(kind, id);
                build(&t, &seed.build);
                let m = initial(&seed.build);
                let uni = universe(&m, &alpha, Some(&seed));
                let mut d = Dfs { prop, t, alpha: &alpha, uni, obs, depth, snaps: vec![], extra: None };
                d.go(&m, 0, Some(first), ta);
            }),
        });
    }
}

/// All sequences while one guard is held throughout, then the guard or the tree goes first.
fn held_units(out: &mut Vec<Unit>, seed: &Seed, alpha: Vec<Op>, depth: usize, kind: Kind) {
    for &first in &alpha {
        let (seed, alpha) = (seed.clone(), alpha.clone());
        out.push(Unit {
            name: format!("tree {} ({kind:?}); one guard held over sequences of {depth} over {} operations starting with {first}", seed.name, alpha.len()),
            run: Box::new(move |prop, ta| {
                let (obs, id) = kind_obs(kind, prop);
                // whatever is set up once and for all is set up
                let t = Tree::new(kind, id);
                build(&t, &seed.build);
                t.destroy();
                rt().drained.clear();
                let heap0 = live_blocks(HEAP);
                let t = Tree::new(kind, id);
                build(&t, &seed.build);
                let m0 = initial(&seed.build);
                let uni = universe(&m0, &alpha, Some(&seed));
                let mut snap = Snap::default();
                rt().arena.save(&mut snap);
                let n = alpha.len();
                let total = n.pow(depth as u32 - 1);
                for code in 0..total * 2 {
                    let tree_first = code >= total;
                    let mut c = code % total;
                    rt().arena.restore(&snap);
                    rt().drained.clear();
                    trail_clear();
                    let g = t.a().pin();
                    let mut m = m0.clone();
                    let mut op = first;
                    for d in 0..depth {
                        let o = resolve(at_depth(op, d), &m);
                        trail_push(id, o);
                        ta.transitions += 1;
                        begin_op();
                        rt().forbid_free = true;
                        let was = o.key().map(|k| m.get(k));
                        let got = exec(&t, o, &g);
                        rt().forbid_free = false;
                        let want = m.apply(o);
                        judge(prop, o, was, got, want);
                        op = alpha[c % n];
                        c /= n;
                    }
                    ta.states += 1;
                    ta.traces += 1;
                    let mut found = Vec::new();
                    if !tree_first {
                        begin_op();
                        drop(g);
                        let (gs, pend) = mc_counts();
                        if (gs, pend) != (0, 0) {
                            found.push(("pending", format!("{gs} guards and {pend} deferred closures are left")));
                        }
                        observe(&t, &m, &uni, obs, &mut found);
                        if id == 0 {
                            t.destroy();
                        } else {
                            drop_and_check(&t, &m, obs, &mut found);
                        }
                    } else {
                        trail_note("the tree is dropped before the guard");
                        begin_op();
                        t.destroy();
                        begin_op();
                        drop(g);
                        if id != 0 {
                            drain_checks(id, &m, &mut found);
                        }
                        rt().drained.clear();
                    }
                    if live_blocks(HEAP) != heap0 {
                        found.push(("leak", format!("heap memory the tree used is still allocated: {}", leak_description(HEAP))));
                    }
                    report(prop, &found);
                }
            }),
        });
    }
}

// ---------------------------------------------------------------- C02: all bounds

/// All pairs of bounds and the interesting buffer sizes, in one state.
fn all_scans(prop: &str, t: &Tree, m: &Map, bounds: &[usize], ta: &mut Tally) {
    let g = t.a().pin();
    for &a in bounds {
        for &b in bounds {
            let full = m.scan(a, b, usize::MAX);
            let c = full.len();
            let mut ns = [c + 1, c, c.saturating_sub(1), 1, 0];
            ns.sort();
            let mut last = usize::MAX;
            for n in ns {
                if n == last {
                    continue;
                }
                last = n;
                begin_op();
                ta.scans += 1;
                let r = exec(t, Op::Range(a, b, n), &g);
                let ok = matches!(&r, Res::Scan(v) if v.len() == n.min(c) && v[..] == full[..n.min(c)]);
                if !ok {
                    trail_push(t.id, Op::Range(a, b, n));
                    report(prop, &[("scan", format!("{} gives {r:?}, expected {:?}", Op::Range(a, b, n), &full[..n.min(c)]))]);
                }
            }
        }
    }
}

fn bounds_of(keys: &[usize], max: usize) -> Vec<usize> {
    let mut b = vec![0, usize::MAX];
    for &k in keys {
        b.extend([k, k.saturating_add(1), k.saturating_sub(1)]);
    }
    let mut extra = Vec::new();
    for &k in keys {
        for i in 1..8 {
            let low = (1usize << (8 * i)) - 1;
            extra.extend([k & !low, k | low]);
        }
    }
    b.sort();
    b.dedup();
    extra.sort();
    extra.dedup();
    extra.retain(|x| !b.contains(x));
    let room = max.saturating_sub(b.len());
    if room > 0 && !extra.is_empty() {
        let st = extra.len().div_ceil(room).max(1);
        b.extend(extra.iter().step_by(st));
    }
    if b.len() > max {
        let st = b.len().div_ceil(max);
        let l = *b.last().unwrap();
        b = b.iter().step_by(st).cloned().collect();
        b.push(l);
    }
    b.sort();
    b.dedup();
    b
}

/// Bounds that agree with a key up to some byte, go just below or above it there, and end in
/// zeros, ones, the smallest step above zeros, or as the key does.
fn leaving_bounds(keys: &[usize]) -> Vec<usize> {
    let mut v = vec![0, usize::MAX];
    for &k in keys {
        for i in 0..8 {
            let sh = 8 * (7 - i);
            let low = (1usize << sh) - 1;
            let byte = k >> sh & 0xff;
            let head = if i == 0 { 0 } else { k >> (sh + 8) << (sh + 8) };
            for d in [-1isize, 0, 1] {
                let x = byte as isize + d;
                if !(0..256).contains(&x) {
                    continue;
                }
                let at = head | (x as usize) << sh;
                v.extend([at, at | low, at | (k & low), at | (1 & low), at | (1usize << sh >> 8)]);
            }
        }
    }
    v.sort();
    v.dedup();
    v
}

fn key_universes() -> Vec<(&'static str, Vec<usize>)> {
    let mut v: Vec<(&'static str, Vec<usize>)> = vec![
        ("one leaf and its neighbours", [0, 1, 127, 128, 254, 255].iter().map(|b| with(&[(7, *b)])).chain([with(&[(6, 0x76), (7, 255)]), with(&[(6, 0x78), (7, 0)])]).collect()),
        ("diverging upwards at every byte", (0..8).map(|i| with(&[(i, P[i] + 1)])).collect()),
        ("diverging downwards at every byte", (0..8).map(|i| if i == 7 { with(&[(7, 5)]) } else { with(&[(i, P[i] - 1), (7, 9)]) }).collect()),
        ("extremes", vec![0, 1, 255, 256, usize::MAX - 1, usize::MAX, 1 << 63, (1 << 63) - 1]),
    ];
    let mut a = Vec::new();
    let mut b = Vec::new();
    let mut c = Vec::new();
    for x in [0u8, 255] {
        for y in [0u8, 128] {
            for z in [0u8, 255] {
                a.push(with(&[(3, x), (6, y), (7, z)]));
                b.push(with(&[(0, x), (1, y), (7, z)]));
                c.push(with(&[(4, x), (5, y), (6, z)]));
            }
        }
    }
    v.push(("cube over bytes 3, 6, 7", a));
    v.push(("cube over bytes 0, 1, 7", b));
    v.push(("cube over bytes 4, 5, 6", c));
    v
}

fn scan_units(out: &mut Vec<Unit>, seeds: &[Seed], thorough: bool) {
    let nb = if thorough { 96 } else { 40 };
    for (name, keys) in key_universes() {
        for chunk in 0..32usize {
            let keys = keys.clone();
            out.push(Unit {
                name: format!("subsets {}..{} of {name}; all pairs of bounds, all buffer sizes", chunk * 8, chunk * 8 + 7),
                run: Box::new(move |prop, ta| {
                    let bounds = bounds_of(&keys, nb);
                    for mask in chunk * 8..chunk * 8 + 8 {
                        rt().arena.reset();
                        trail_clear();
                        let t = Tree::new(Kind::Plain, 1);
                        let mut m = Map::default();
                        // an order that depends on the subset, so that splits happen both ways
                        let idx: Vec<usize> = if mask % 2 == 0 { (0..8).collect() } else { (0..8).rev().collect() };
                        for i in idx {
                            if mask >> i & 1 == 1 {
                                step(prop, &t, &mut m, Op::Ins(keys[i], VALUES[i % 8]), ta);
                            }
                        }
                        ta.states += 1;
                        ta.traces += 1;
                        all_scans(prop, &t, &m, &bounds, ta);
                    }
                }),
            });
        }
    }
    for (name, keys) in key_universes() {
        for first in 0..keys.len() {
            let keys = keys.clone();
            out.push(Unit {
                name: format!("one to {} keys of {name} from key {first} on; all pairs of bounds that leave a key at some byte", if thorough { 4 } else { 3 }),
                run: Box::new(move |prop, ta| {
                    for mask in 1usize..1 << keys.len() {
                        if mask.trailing_zeros() as usize != first || mask.count_ones() > if thorough { 4 } else { 3 } {
                            continue;
                        }
                        rt().arena.reset();
                        trail_clear();
                        let t = Tree::new(Kind::Plain, 1);
                        let mut m = Map::default();
                        let mine: Vec<usize> = (0..keys.len()).filter(|i| mask >> i & 1 == 1).map(|i| keys[i]).collect();
                        for (i, &k) in mine.iter().enumerate() {
                            step(prop, &t, &mut m, Op::Ins(k, i), ta);
                        }
                        ta.states += 1;
                        ta.traces += 1;
                        let b = leaving_bounds(&mine);
                        let g = t.a().pin();
                        for (i, &x) in b.iter().enumerate() {
                            for &y in &b[i + 1..] {
                                let want = m.scan(x, y, usize::MAX);
                                begin_op();
                                ta.scans += 1;
                                let r = exec(&t, Op::Range(x, y, 5), &g);
                                if !matches!(&r, Res::Scan(v) if *v == want) {
                                    trail_push(t.id, Op::Range(x, y, 5));
                                    report(prop, &[("scan", format!("{} gives {r:?}, expected {want:?}", Op::Range(x, y, 5)))]);
                                }
                            }
                        }
                    }
                }),
            });
        }
    }
    for &lvl in if thorough { &[0usize, 1, 2, 3, 4, 5, 6, 7][..] } else { &[0, 3, 6, 7][..] } {
        for n in [3usize, 4, 5, 15, 16, 17, 47, 48, 49, 255, 256] {
            out.push(Unit {
                name: format!("{n} keys differing in byte {lvl}; all pairs of bounds, all buffer sizes"),
                run: Box::new(move |prop, ta| {
                    let t = Tree::new(Kind::Plain, 1);
                    let mut m = Map::default();
                    let keys: Vec<usize> = (0..n).map(|i| with(&[(lvl, (i * 255 / (n - 1)) as u8), (7, if lvl == 7 { (i * 255 / (n - 1)) as u8 } else { 128 })])).collect();
                    for (i, &k) in keys.iter().enumerate() {
                        step(prop, &t, &mut m, Op::Ins(k, i), ta);
                    }
                    ta.states += 1;
                    ta.traces += 1;
                    let some: Vec<usize> = [0, 1, n / 3, n / 2, n - 2, n - 1].iter().map(|&i| keys[i]).collect();
                    let mut b = bounds_of(&some, if thorough { 64 } else { 32 });
                    b.extend(keys.iter().step_by((n / 8).max(1)));
                    b.sort();
                    b.dedup();
                    all_scans(prop, &t, &m, &b, ta);
                    // and again with every other key removed
                    for k in keys.iter().step_by(2) {
                        step(prop, &t, &mut m, Op::Rem(*k), ta);
                    }
                    trail_clear();
                    ta.states += 1;
                    all_scans(prop, &t, &m, &b, ta);
                }),
            });
        }
    }
    for s in seeds {
        let s = s.clone();
        out.push(Unit {
            name: format!("tree {}; all pairs of bounds after every single operation", s.name),
            run: Box::new(move |prop, ta| {
                let t = Tree::new(Kind::Plain, 1);
                build(&t, &s.build);
                let m0 = initial(&s.build);
                let mut ks: Vec<usize> = s.present.iter().chain(s.absent.iter()).cloned().collect();
                ks.extend(m0.0.iter().step_by((m0.0.len() / 6).max(1)).map(|x| x.0));
                let mut b = bounds_of(&ks, if thorough { 64 } else { 36 });
                b.extend(s.bounds.iter());
                b.sort();
                b.dedup();
                let mut snap = Snap::default();
                rt().arena.save(&mut snap);
                all_scans(prop, &t, &m0, &b, ta);
                for o in write_ops(&s, 2, 3) {
                    rt().arena.restore(&snap);
                    trail_clear();
                    let mut m = m0.clone();
                    step(prop, &t, &mut m, o, ta);
                    ta.states += 1;
                    ta.traces += 1;
                    all_scans(prop, &t, &m, &b, ta);
                }
            }),
        });
    }
}

// ---------------------------------------------------------------- C03: structure

#[derive(Clone, Copy, Debug)]
pub enum Ord_ {
    Up,
    Down,
    Rev, // bit-reversed
    Zip, // from both ends
}
fn order(n: usize, o: Ord_) -> Vec<usize> {
    match o {
        Ord_::Up => (0..n).collect(),
        Ord_::Down => (0..n).rev().collect(),
        Ord_::Rev => {
            let mut v: Vec<usize> = (0..256usize).map(|i| (i as u8).reverse_bits() as usize).collect();
            v.retain(|x| *x < n);
            v
        }
        Ord_::Zip => (0..n).map(|i| if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 }).collect(),
    }
}

fn fanout_units(out: &mut Vec<Unit>, thorough: bool) {
    fanout_kind_units(out, Kind::Plain, &[0, 1, 2, 3, 4, 5, 6, 7], &[Ord_::Up, Ord_::Down, Ord_::Rev, Ord_::Zip], thorough);
}

fn fanout_kind_units(out: &mut Vec<Unit>, kind: Kind, levels: &[usize], os: &[Ord_], thorough: bool) {
    for &lvl in levels {
        for &a in os {
            for &b in os {
                for tail in [7usize, 6] {
                    if (lvl == 7 || lvl == 6) && tail == 6 {
                        continue;
                    }
                    if tail == 6 && !thorough && lvl != 2 {
                        continue;
                    }
                    out.push(Unit {
                        name: format!("({kind:?}) 0..256 keys differing in byte {lvl}, sharing the {} after it, added {a:?}, removed {b:?}", if tail == 7 { "bytes" } else { "bytes but the last two" }),
                        run: Box::new(move |prop, ta| {
                            let (obs, id) = kind_obs(kind, prop);
                            let t = Tree::new(kind, id);
                            let mut m = Map::default();
                            let key = |i: usize| {
                                let b = i as u8;
                                if tail == 6 {
                                    with(&[(lvl, b), (6, b ^ 0x5a), (7, b)])
                                } else {
                                    with(&[(lvl, b)])
                                }
                            };
                            let look = |m: &Map, k: usize, full: bool, ta: &mut Tally| {
                                let mut found = Vec::new();
                                ta.states += 1;
                                let u: Vec<usize> = if full { (0..256).map(key).collect() } else { vec![k, k ^ 1, k ^ 0x80] };
                                observe(&t, m, &u, obs, &mut found);
                                report(prop, &found);
                            };
                            let edges = [0, 1, 2, 3, 4, 5, 6, 15, 16, 17, 18, 47, 48, 49, 50, 128, 254, 255, 256];
                            for (n, i) in order(256, a).into_iter().enumerate() {
                                step(prop, &t, &mut m, Op::Ins(key(i), VALUES[i % 8].wrapping_add(i)), ta);
                                look(&m, key(i), edges.contains(&(n + 1)), ta);
                            }
                            for (n, i) in order(256, b).into_iter().enumerate() {
                                step(prop, &t, &mut m, Op::Rem(key(i)), ta);
                                look(&m, key(i), edges.contains(&(255 - n)), ta);
                            }
                            // the emptied structure is used again
                            for i in order(256, b).into_iter().take(20) {
                                step(prop, &t, &mut m, Op::Ins(key(i), i), ta);
                                look(&m, key(i), true, ta);
                            }
                            ta.traces += 1;
                        }),
                    });
                }
            }
        }
    }
}

/// All insertion orders of small key sets, then all removal orders.
fn perm_units(out: &mut Vec<Unit>, thorough: bool) {
    let mut sets: Vec<(String, Vec<usize>)> = Vec::new();
    let n = if thorough { 6 } else { 5 };
    // every way to let consecutive keys diverge: keys share i bytes with the base key
    for lv in [[7usize, 6, 5, 4, 3], [0, 1, 2, 3, 4], [7, 7, 6, 6, 5], [3, 3, 3, 6, 6], [1, 4, 4, 7, 7], [7, 5, 3, 1, 0], [6, 6, 6, 6, 6], [2, 2, 7, 7, 7]] {
        for hi in [true, false] {
            let mut k = vec![with(&[(7, 0x80)])];
            for (j, l) in lv.iter().enumerate() {
                let base = if *l == 7 { 0x80 } else { P[*l] };
                let b = if hi { base + 1 + j as u8 } else { base - 1 - j as u8 };
                k.push(with(&[(7, if *l == 7 { b } else { 0x80 }), (*l, b)]));
            }
            k.truncate(n);
            k.sort();
            k.dedup();
            sets.push((format!("diverging at {lv:?} {}", if hi { "above" } else { "below" }), k));
        }
    }
    // splits inside a split prefix
    for (p, q, r) in [(1, 3, 5), (2, 4, 6), (0, 3, 6), (3, 4, 5), (0, 1, 2), (4, 6, 7)] {
        let k = vec![
            with(&[(7, 1)]),
            with(&[(r, 0xe0), (7, 1)]),
            with(&[(q, 0xe0), (7, 1)]),
            with(&[(q, 0xe0), (r, 3), (7, 1)]),
            with(&[(p, 0x01), (7, 1)]),
            with(&[(p, 0x01), (q, 7), (7, 1)]),
        ];
        sets.push((format!("splits at {p}, {q}, {r}"), k[..n].to_vec()));
    }
    for (name, keys) in sets {
        for first in 0..keys.len() {
            let keys = keys.clone();
            out.push(Unit {
                name: format!("all orders of adding and removing {} keys {name}, key {first} first", keys.len()),
                run: Box::new(move |prop, ta| {
                    let t = Tree::new(Kind::Plain, 1);
                    let m = Map::default();
                    let mut p = Perm { prop, t, keys: &keys, obs: obs_for(prop), snaps: vec![] };
                    p.go(&m, 0, (1 << first) as u32, 0, Some(first), ta);
                }),
            });
        }
    }
}

struct Perm<'a> {
    prop: &'a str,
    t: Tree,
    keys: &'a [usize],
    obs: Obs,
    snaps: Vec<Snap>,
}
impl Perm<'_> {
    fn go(&mut self, m: &Map, d: usize, put: u32, gone: u32, first: Option<usize>, ta: &mut Tally) {
        let n = self.keys.len();
        if let Some(f) = first {
            let mut m = m.clone();
            step(self.prop, &self.t, &mut m, Op::Ins(self.keys[f], VALUES[f]), ta);
            return self.go(&m, 1, put, gone, None, ta);
        }
        ta.states += 1;
        let mut found = Vec::new();
        while self.snaps.len() <= d {
            self.snaps.push(Snap::default());
        }
        rt().arena.save(&mut self.snaps[d]);
        observe(&self.t, m, self.keys, self.obs, &mut found);
        report(self.prop, &found);
        let adding = put.count_ones() < n as u32;
        if !adding && gone.count_ones() == n as u32 {
            ta.traces += 1;
            return;
        }
        for i in 0..n {
            let op = if adding {
                if put >> i & 1 == 1 {
                    continue;
                }
                Op::Ins(self.keys[i], VALUES[(i + d) % 8])
            } else {
                if gone >> i & 1 == 1 {
                    continue;
                }
                Op::Rem(self.keys[i])
            };
            rt().arena.restore(&self.snaps[d]);
            let mut m2 = m.clone();
            let l = trail_len();
            step(self.prop, &self.t, &mut m2, op, ta);
            let (p, g) = if adding { (put | 1 << i, gone) } else { (put, gone | 1 << i) };
            self.go(&m2, d + 1, p, g, None, ta);
            trail_cut(l);
        }
    }
}

// ---------------------------------------------------------------- C11: allocation failures

fn oom_units(out: &mut Vec<Unit>, seeds: &[Seed], thorough: bool) {
    for s in seeds {
        let mut alpha = write_ops(s, 2, 7);
        alpha.extend(cond_ops(s, 1, 3));
        for &first in &alpha {
            let (s, alpha) = (s.clone(), alpha.clone());
            out.push(Unit {
                name: format!("tree {}; every allocation of {first} fails, then every other operation, with and without failures", s.name),
                run: Box::new(move |prop, ta| {
                    let obs = obs_for(prop);
                    let t = Tree::new(Kind::Plain, 1);
                    build(&t, &s.build);
                    let m0 = initial(&s.build);
                    let uni = universe(&m0, &alpha, Some(&s));
                    let mut s0 = Snap::default();
                    rt().arena.save(&mut s0);
                    let n = allocations(&t, &m0, first, &s0);
                    for j in 0..=n {
                        // j == 0: the operation needs no memory, or succeeds
                        rt().arena.restore(&s0);
                        trail_clear();
                        let mut m = m0.clone();
                        failing(prop, &t, &mut m, first, j, n, &uni, obs, ta);
                        let mut s1 = Snap::default();
                        rt().arena.save(&mut s1);
                        let l = trail_len();
                        for &b in &alpha {
                            let nb = allocations(&t, &m, resolve(b, &m), &s1);
                            for jb in 0..=nb {
                                if j == 0 && jb == 0 && nb > 0 {
                                    continue;
                                }
                                rt().arena.restore(&s1);
                                trail_cut(l);
                                let mut m2 = m.clone();
                                failing(prop, &t, &mut m2, resolve(b, &m), jb, nb, &uni, obs, ta);
                                if jb > 0 {
                                    // memory is back
                                    step(prop, &t, &mut m2, resolve(b, &m), ta);
                                }
                                let mut found = Vec::new();
                                observe(&t, &m2, &uni, obs, &mut found);
                                // nothing the failures left behind survives the tree
                                drop_and_check(&t, &m2, obs, &mut found);
                                report(prop, &found);
                                ta.states += 1;
                                ta.traces += 1;
                            }
                        }
                    }
                }),
            });
        }
    }
    // long runs: the allocator fails at every second allocation, or only at the n-th
    for every in if thorough { 1..=12u32 } else { 1..=4u32 } {
        for lvl in [0usize, 3, 6, 7] {
            out.push(Unit {
                name: format!("256 keys differing in byte {lvl}, allocation fails {every} times in a row before each success"),
                run: Box::new(move |prop, ta| {
                    let obs = Obs { gets: false, ..obs_for(prop) };
                    let t = Tree::new(Kind::Plain, 1);
                    let mut m = Map::default();
                    for i in 0..256usize {
                        let k = with(&[(lvl, i as u8)]);
                        let op = Op::Ins(k, i);
                        let mut snap = Snap::default();
                        rt().arena.save(&mut snap);
                        let n = allocations(&t, &m, op, &snap);
                        rt().arena.restore(&snap);
                        for e in 0..every {
                            if n > 0 {
                                failing(prop, &t, &mut m, op, 1 + e % n, n, &[k], obs, ta);
                            }
                        }
                        trail_clear();
                        step(prop, &t, &mut m, op, ta);
                        ta.states += 1;
                    }
                    let mut found = Vec::new();
                    let uni: Vec<usize> = m.0.iter().map(|x| x.0).collect();
                    observe(&t, &m, &uni, obs_for(prop), &mut found);
                    drop_and_check(&t, &m, obs, &mut found);
                    report(prop, &found);
                    ta.traces += 1;
                }),
            });
        }
    }
    // a very long shortage
    for s in seeds.iter().filter(|s| s.build.len() <= 20) {
        let s = s.clone();
        out.push(Unit {
            name: format!("tree {}; 300 failures in a row of every allocation of every insert, then it succeeds", s.name),
            run: Box::new(move |prop, ta| {
                let obs = Obs { gets: true, ..Obs::default() };
                let t = Tree::new(Kind::Plain, 1);
                build(&t, &s.build);
                let m0 = initial(&s.build);
                let uni = universe(&m0, &[], Some(&s));
                rt().arena.reuse = true;
                let mut snap = Snap::default();
                rt().arena.save(&mut snap);
                for op in s.absent.iter().flat_map(|&k| [Op::Ins(k, 9), Op::Coi(k, F::Const(9))]) {
                    let n = allocations(&t, &m0, op, &snap);
                    for j in 1..=n {
                        rt().arena.restore(&snap);
                        rt().drained.clear();
                        let mut m = m0.clone();
                        for _ in 0..300 {
                            trail_clear();
                            failing(prop, &t, &mut m, op, j, n, &uni[..1], obs, ta);
                        }
                        trail_note("300 times");
                        step(prop, &t, &mut m, op, ta);
                        let mut found = Vec::new();
                        observe(&t, &m, &uni, obs_for(prop), &mut found);
                        drop_and_check(&t, &m, obs, &mut found);
                        report(prop, &found);
                        ta.traces += 1;
                    }
                }
            }),
        });
    }
    out.push(Unit {
        name: "the default allocator and trees over it, while the global allocator fails".into(),
        run: Box::new(move |prop, ta| {
            for size in [1usize, 64, 168, 672, 2104, 1 << 20] {
                for zeroed in [false, true] {
                    ta.faults += 1;
                    ta.transitions += 1;
                    let l = std::alloc::Layout::from_size_align(size, 8).unwrap();
                    let r = std::panic::catch_unwind(|| sut::default_allocator_fails(l, zeroed));
                    unsafe { FAIL_HEAP = 0 };
                    unsafe { SUT = false };
                    match r {
                        Ok(true) => {}
                        Ok(false) => report(prop, &[("fault", "the default allocator claims success although no memory was available".into())]),
                        Err(_) => report(prop, &[("fault", format!("the default allocator panics when no memory is available: {}", crate::last_panic()))]),
                    }
                }
            }
            // shows which layouts nodes have
            let t = Tree::new(Kind::Plain, 1);
            let mut m = Map::default();
            for i in 0..60u8 {
                step(prop, &t, &mut m, Op::Ins(with(&[(7, i)]), 1), ta);
            }
            drop(t);
            for (a, b) in [(7usize, 1u8), (6, 1), (3, 1), (0, 1)] {
                rt().arena.reset();
                trail_clear();
                let t = Tree::new(Kind::Default, 0);
                let mut m = Map::default();
                for i in 0..60u8 {
                    let k = with(&[(a, i.wrapping_mul(4).wrapping_add(b))]);
                    ta.faults += 1;
                    ta.transitions += 1;
                    begin_op();
                    let g = t.a().pin();
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| sut::default_tree_insert_fails(&t, k, 7, &g)));
                    unsafe { FAIL_HEAP = 0 };
                    unsafe { SUT = false };
                    match r {
                        Ok(Ok(o)) => {
                            if o.is_some() {
                                report(prop, &[("seq", format!("insert of an absent key returned {o:?}"))]);
                            }
                            m.put(k, 7); // needed no memory
                        }
                        Ok(Err(())) => {}
                        Err(_) => report(prop, &[("fault", format!("insert panics when no memory is available: {}", crate::last_panic()))]),
                    }
                    drop(g);
                    let u: Vec<usize> = m.0.iter().map(|x| x.0).chain([k]).collect();
                    let mut found = Vec::new();
                    observe(&t, &m, &u, Obs { gets: true, ..Obs::default() }, &mut found);
                    report(prop, &found);
                    if m.get(k).is_none() {
                        step(prop, &t, &mut m, Op::Ins(k, 7), ta);
                    }
                    ta.states += 1;
                }
                ta.traces += 1;
            }
        }),
    });
}

/// How many allocations the operation makes.
fn allocations(t: &Tree, m: &Map, op: Op, at: &Snap) -> u32 {
    rt().arena.restore(at);
    rt().alloc_seen = [0; mcrt::arena::LANES];
    begin_op();
    let g = t.a().pin();
    let _ = (exec(t, op, &g), m);
    drop(g);
    rt().alloc_seen[0]
}

/// Runs `op` with its `j`-th allocation failing (0: none fails; with no allocations, all would).
#[allow(clippy::too_many_arguments)]
fn failing(prop: &str, t: &Tree, m: &mut Map, op: Op, j: u32, n: u32, uni: &[usize], obs: Obs, ta: &mut Tally) {
    let r = rt();
    trail_push(t.id, op);
    if j > 0 {
        trail_note("an allocation fails");
    }
    let live = live_blocks(t.id);
    r.alloc_seen = [0; mcrt::arena::LANES];
    r.fail_at[0] = j;
    r.fail_all = n == 0;
    ta.transitions += 1;
    begin_op();
    let g = t.a().pin();
    let failed0 = r.alloc_failed;
    let got = exec(t, op, &g);
    let hit = r.alloc_failed > failed0;
    r.fail_at[0] = 0;
    r.fail_all = false;
    drop(g);
    let mut found = Vec::new();
    if j == 0 && hit {
        found.push(("fault", format!("{op} needs memory only when there is none: {got:?}")));
    }
    if hit && matches!(op, Op::Ins(..) | Op::Coi(..)) {
        ta.faults += 1;
        if got != Res::Oom {
            found.push(("fault", format!("an allocation of {op} failed, the result is {got:?}")));
        }
        if live_blocks(t.id) != live {
            found.push(("leak", format!("{} blocks before the failed {op}, {} after it", live, live_blocks(t.id))));
        }
    } else {
        let want = m.apply(op);
        if got != want {
            found.push(("seq", format!("{op} gives {got:?}, the reference gives {want:?}")));
        }
    }
    observe(t, m, uni, obs, &mut found);
    ta.states += 1;
    report(prop, &found);
}

// ---------------------------------------------------------------- C16: big trees

fn big_stats_units(out: &mut Vec<Unit>, thorough: bool) {
    for (n, fan) in [(1usize, 49usize), (40, 17), (600, 49), (1000, 5), (3000, 1), (250, 256)] {
        if n * fan > 40000 && !thorough {
            continue;
        }
        out.push(Unit {
            name: format!("{n} leaves of {fan} keys: statistics against the allocator"),
            run: Box::new(move |prop, ta| {
                let t = Tree::new(Kind::Plain, 1);
                let mut m = Map::default();
                let g = pin();
                for i in 0..n {
                    for j in 0..fan {
                        let k = (i << 8) | j;
                        begin_op();
                        exec(&t, Op::Ins(k, i + j), &g);
                        m.0.push((k, i + j));
                        ta.transitions += 1;
                    }
                }
                drop(g);
                let mut found = Vec::new();
                observe(&t, &m, &[], obs_for(prop), &mut found);
                report(prop, &found);
                ta.states += 1;
                ta.traces += 1;
            }),
        });
    }
}

// ---------------------------------------------------------------- C18: two trees

fn two_tree_units(out: &mut Vec<Unit>, seeds: &[Seed], depth: usize) {
    for s in seeds {
        let alpha = {
            let mut a = write_ops(s, 1, 2);
            a.extend(cond_ops(s, 1, 1).into_iter().filter(|o| matches!(o, Op::Cip(_, F::Add(_)) | Op::Cip(_, F::Del) | Op::Coi(_, F::Add(_)))));
            a
        };
        for shared in [false, true] {
            for &first in &alpha {
                let (s, alpha) = (s.clone(), alpha.clone());
                out.push(Unit {
                    name: format!("two trees {}; {depth} operations alternating between them, {}, starting with {first}", s.name, if shared { "one guard for both" } else { "a guard per operation" }),
                    run: Box::new(move |prop, ta| {
                        let obs = obs_for(prop);
                        let ts = [Tree::new(Kind::Plain, 1), Tree::new(Kind::Plain, 2)];
                        for t in &ts {
                            build(t, &s.build);
                        }
                        let m0 = initial(&s.build);
                        let uni = universe(&m0, &alpha, Some(&s));
                        let mut snap = Snap::default();
                        rt().arena.save(&mut snap);
                        let n = alpha.len() * 2;
                        for code in 0..n.pow(depth as u32 - 1) {
                            let mut c = code;
                            rt().arena.restore(&snap);
                            rt().drained.clear();
                            trail_clear();
                            let g = if shared { Some(pin()) } else { None };
                            let mut ms = [m0.clone(), m0.clone()];
                            let mut cur = (0, first);
                            for d in 0..depth {
                                let (w, o) = cur;
                                let o = resolve(at_depth(o, d), &ms[w]);
                                trail_push(w as u8 + 1, o);
                                ta.transitions += 1;
                                begin_op();
                                let other = live_sizes(2 - w as u8);
                                let was = o.key().map(|k| ms[w].get(k));
                                let got = match &g {
                                    Some(g) => exec(&ts[w], o, g),
                                    None => {
                                        let g = pin();
                                        exec(&ts[w], o, &g)
                                    }
                                };
                                let want = ms[w].apply(o);
                                judge(prop, o, was, got, want);
                                if live_sizes(2 - w as u8) != other {
                                    report(prop, &[("leak", format!("{o} on one tree changed the memory of the other"))]);
                                }
                                cur = (c % 2, alpha[c / 2 % alpha.len()]);
                                c /= n;
                            }
                            ta.states += 1;
                            ta.traces += 1;
                            let mut found = Vec::new();
                            // reads that alternate between the trees
                            {
                                let g2 = pin();
                                let g = g.as_ref().unwrap_or(&g2);
                                let reads = uni.iter().map(|&k| Op::Get(k)).chain([Op::Empty, Op::Range(0, usize::MAX, 64), Op::Stats]);
                                for o in reads {
                                    for w in [0, 1, 0] {
                                        begin_op();
                                        let (got, want) = (exec(&ts[w], o, g), ms[w].apply(o));
                                        if got != want {
                                            trail_push(w as u8 + 1, o);
                                            judge(prop, o, None, got, want);
                                        }
                                    }
                                }
                            }
                            // the first tree goes while the second is in use and the guard may be alive
                            let w = code % 2;
                            begin_op();
                            rt().drained.clear();
                            ts[w].destroy();
                            if rt().drained.iter().any(|x| x.0 != w as u8 + 1) {
                                found.push(("drain", "dropping one tree drained the other".into()));
                            }
                            observe(&ts[1 - w], &ms[1 - w], &uni, Obs { stats: !shared, mem: !shared, drain: false, ..obs }, &mut found);
                            drop(g);
                            drain_checks(w as u8 + 1, &ms[w], &mut found);
                            rt().drained.clear();
                            observe(&ts[1 - w], &ms[1 - w], &uni, Obs { drain: false, ..obs }, &mut found);
                            drop_and_check(&ts[1 - w], &ms[1 - w], obs, &mut found);
                            report(prop, &found);
                        }
                    }),
                });
            }
        }
    }
}

/// A tree is dropped and the next one gets its memory, block by block: whatever is remembered about the first
/// must not be believed of the second.
fn reborn_units(out: &mut Vec<Unit>, seeds: &[Seed], thorough: bool) {
    for s in seeds {
        for held in [false, true] {
            let s = s.clone();
            out.push(Unit {
                name: format!("tree {}; every operation, drop, then another tree in the same memory{}", s.name, if held { ", under one guard" } else { "" }),
                run: Box::new(move |prop, ta| {
                    let obs = obs_for(prop);
                    let mut alpha = write_ops(&s, 2, 3);
                    alpha.extend(cond_ops(&s, 1, 1).into_iter().filter(|o| matches!(o, Op::Cip(_, F::Add(_)) | Op::Cip(_, F::Del))));
                    // also keys that only the second tree holds
                    let mut looks: Vec<usize> = s.present.iter().take(3).chain(s.absent.iter().take(4)).cloned().collect();
                    looks.extend(s.present.iter().take(2).flat_map(|&k| [k ^ 1, k ^ (1 << 56)]));
                    looks.sort();
                    looks.dedup();
                    let mut reads: Vec<Op> = looks.into_iter().map(Op::Get).collect();
                    reads.extend([Op::Empty, Op::Stats, Op::Range(0, usize::MAX, 4)]);
                    alpha.extend(reads.iter().cloned());
                    rt().arena.reuse = true;
                    let m0 = initial(&s.build);
                    let uni = universe(&m0, &alpha, Some(&s));
                    let mut snap = Snap::default();
                    rt().arena.save(&mut snap);
                    let twist = |v: usize, o: Op| match o {
                        Op::Ins(k, x) if v == 1 => Op::Ins(k ^ 1, x),
                        Op::Ins(k, x) if v == 2 => Op::Ins(k ^ (1 << 56), x),
                        Op::Ins(k, x) => Op::Ins(k, x + 1000),
                        Op::Rem(k) if v == 1 => Op::Rem(k ^ 1),
                        Op::Rem(k) if v == 2 => Op::Rem(k ^ (1 << 56)),
                        o => o,
                    };
                    for v in 0..if thorough { 5 } else { 4 } {
                        let b: Vec<Op> = match v {
                            3 => s.build.iter().take(s.build.len() / 2).map(|o| twist(0, *o)).collect(),
                            4 => s.build.iter().rev().map(|o| twist(0, *o)).collect(),
                            _ => s.build.iter().map(|o| twist(v, *o)).collect(),
                        };
                        for &p in &alpha {
                            // a look at every key of the first tree, or only the operation itself
                            for look in [false, true] {
                                rt().arena.restore(&snap);
                                rt().drained.clear();
                                trail_clear();
                                let a = Tree::new(Kind::Plain, 1);
                                build(&a, &s.build);
                                let mut ma = m0.clone();
                                let g = held.then(pin);
                                step_with(prop, &a, &mut ma, resolve(p, &m0), held, ta);
                                if look {
                                    for &k in &uni {
                                        step_with(prop, &a, &mut ma, Op::Get(k), held, ta);
                                    }
                                }
                                begin_op();
                                a.destroy();
                                rt().drained.clear();
                                let t = Tree::new(Kind::Plain, 2);
                                build(&t, &b);
                                let mut m = initial(&b);
                                trail_note("dropped; the second tree:");
                                let q = resolve(p, &m);
                                if !look {
                                    step_with(prop, &t, &mut m, q, held, ta);
                                }
                                for &k in &uni {
                                    step_with(prop, &t, &mut m, Op::Get(k), held, ta);
                                }
                                if look {
                                    step_with(prop, &t, &mut m, q, held, ta);
                                }
                                let mut found = Vec::new();
                                observe(&t, &m, &uni, Obs { stats: obs.stats && !held, mem: obs.mem && !held, ..obs }, &mut found);
                                drop(g);
                                drop_and_check(&t, &m, obs, &mut found);
                                report(prop, &found);
                                ta.states += 1;
                                ta.traces += 1;
                            }
                        }
                    }
                }),
            });
        }
    }
}

/// Closures and drainers of one tree that use another tree (and a guard of their own, or the same).
fn nested_units(out: &mut Vec<Unit>, seeds: &[Seed]) {
    for s in seeds {
        for outer in 0..3usize {
            let s = s.clone();
            let alpha = write_ops(&s, 2, 4);
            out.push(Unit {
                name: format!("tree {}; every operation on another tree, or the whole life of a third one, inside {}", s.name, ["compute_if_present", "compute_or_insert", "the drainer"][outer]),
                run: Box::new(move |prop, ta| {
                    let obs = obs_for(prop);
                    for own_guard in [true, false] {
                        for (inner, life) in alpha.iter().map(|o| (*o, false)).chain([(alpha[0], true)]) {
                            let s3 = s.clone();
                            for &k in s.present.iter().chain(s.absent.iter()) {
                                rt().arena.reset();
                                rt().drained.clear();
                                trail_clear();
                                trail_push(1, Op::Get(k));
                                trail_push(2, inner);
                                let b = Tree::new(Kind::Plain, 2);
                                build(&b, &s.build);
                                let mb = std::rc::Rc::new(std::cell::RefCell::new(initial(&s.build)));
                                let bad = std::rc::Rc::new(std::cell::RefCell::new(None::<String>));
                                let (mb2, bad2, p) = (mb.clone(), bad.clone(), prop.to_string());
                                let _ = p;
                                let s3 = s3.clone();
                                let on_b = move |g: &sut::epoch::Guard| {
                                    let _h = host();
                                    if life {
                                        let c = Tree::new(Kind::Plain, 3);
                                        build(&c, &s3.build);
                                        c.destroy();
                                        let mut found = Vec::new();
                                        drain_checks(3, &initial(&s3.build), &mut found);
                                        rt().drained.retain(|x| x.0 != 3);
                                        // nodes it removed may still wait for the guard of the outer call
                                        found.retain(|f| f.0 == "drain");
                                        if let Some(f) = found.pop() {
                                            *bad2.borrow_mut() = Some(f.1);
                                        }
                                        return;
                                    }
                                    let want = mb2.borrow_mut().apply(inner);
                                    let got = if own_guard {
                                        let g = pin();
                                        exec(&b, inner, &g)
                                    } else {
                                        exec(&b, inner, g)
                                    };
                                    if got != want {
                                        *bad2.borrow_mut() = Some(format!("{inner} on the other tree gives {got:?}, the reference gives {want:?}"));
                                    }
                                };
                                let mut ma = initial(&s.build);
                                let uni = universe(&ma, &alpha, Some(&s));
                                let mut found = Vec::new();
                                ta.transitions += 1;
                                if outer == 2 {
                                    let ob = on_b.clone();
                                    let a = Tree::with(Kind::Plain, 1, Some(Box::new(move |_, _| {
                                        let _h = host();
                                        let g = pin();
                                        ob(&g)
                                    })));
                                    build(&a, &s.build);
                                    begin_op();
                                    let n = ma.0.len();
                                    a.destroy();
                                    drain_checks(1, &ma, &mut found);
                                    rt().drained.clear();
                                    ta.transitions += n as u64;
                                } else {
                                    let a = Tree::new(Kind::Plain, 1);
                                    build(&a, &s.build);
                                    begin_op();
                                    let g = pin();
                                    let v = ma.get(k);
                                    if outer == 0 {
                                        let r = a.a().cip(k, &mut |v| {
                                            let _h = host();
                                            on_b(&g);
                                            Some(v.wrapping_add(3))
                                        }, &g);
                                        let want = v.map(|v| (v, Some(v.wrapping_add(3))));
                                        if r != want {
                                            found.push(("seq", format!("compute_if_present gives {r:?}, expected {want:?}")));
                                        }
                                        if let Some(v) = v {
                                            ma.put(k, v.wrapping_add(3));
                                        }
                                    } else {
                                        let r = a.a().coi(k, &mut |v| {
                                            let _h = host();
                                            on_b(&g);
                                            v.unwrap_or(0).wrapping_add(3)
                                        }, &g);
                                        if r != Ok(v) {
                                            found.push(("seq", format!("compute_or_insert gives {r:?}, expected {v:?}")));
                                        }
                                        ma.put(k, v.unwrap_or(0).wrapping_add(3));
                                    }
                                    drop(g);
                                    unsafe { SUT = false };
                                    observe(&a, &ma, &uni, obs, &mut found);
                                    drop_and_check(&a, &ma, obs, &mut found);
                                }
                                unsafe { SUT = false };
                                if let Some(m) = bad.borrow().clone() {
                                    found.push(("seq", m));
                                }
                                if life && live_blocks(3) != 0 {
                                    found.push(("leak", format!("of the third tree these blocks are still allocated: {}", leak_description(3))));
                                }
                                let mbf = mb.borrow().clone();
                                observe(&b, &mbf, &uni, obs, &mut found);
                                drop_and_check(&b, &mbf, obs, &mut found);
                                report(prop, &found);
                                ta.states += 2;
                                ta.traces += 1;
                            }
                        }
                    }
                }),
            });
        }
    }
}

// ---------------------------------------------------------------- alphabets

pub fn write_ops(s: &Seed, ne: usize, na: usize) -> Vec<Op> {
    let mut v = Vec::new();
    for &k in s.present.iter().take(ne).chain(s.absent.iter().take(na)) {
        v.extend([Op::Ins(k, 1), Op::Rem(k)]);
    }
    v
}

pub fn cond_ops(s: &Seed, ne: usize, na: usize) -> Vec<Op> {
    let mut v = Vec::new();
    for &k in s.present.iter().take(ne).chain(s.absent.iter().take(na)) {
        v.extend([
            Op::Cas(k, CUR, Some(9)),
            Op::Cas(k, CUR, None),
            Op::Cas(k, 6, Some(8)),
            Op::Cas(k, 6, None),
            Op::Cas(k, 6, Some(CUR)),
            Op::Cip(k, F::Add(3)),
            Op::Cip(k, F::Const(2)),
            Op::Cip(k, F::Same),
            Op::Cip(k, F::Del),
            Op::Cip(k, F::DelIf(CUR)),
            Op::Coi(k, F::Add(3)),
            Op::Coi(k, F::Const(2)),
            Op::Coi(k, F::Same),
            Op::Coi(k, F::Del),
        ]);
    }
    v
}

fn panic_ops(s: &Seed, ne: usize, na: usize) -> Vec<Op> {
    let mut v = Vec::new();
    for &k in s.present.iter().take(ne) {
        v.extend([Op::Cip(k, F::Panic), Op::Coi(k, F::Panic), Op::Cip(k, F::PanicIf(CUR))]);
    }
    for &k in s.absent.iter().take(na) {
        v.extend([Op::Coi(k, F::Panic), Op::Coi(k, F::PanicAbsent(4)), Op::Cip(k, F::Panic)]);
    }
    v
}

pub fn units(seeds: &[Seed], prop: &str, thorough: bool) -> Vec<Unit> {
    let mut o: Vec<Unit> = Vec::new();
    let by = |n: &str| seeds.iter().find(|s| s.name == n).unwrap().clone();
    let small: Vec<Seed> = ["empty", "leaf1", "leaf4", "inner2@6", "inner4@6", "chain[6]", "chain[6,4]", "chain[6,0]"].iter().map(|n| by(n)).collect();
    let vseeds: Vec<Seed> = ["leaf1", "leaf4", "leaf16", "leaf48", "leaf49"].iter().map(|n| by(n)).collect();
    let x = thorough as usize;
    let steady: Vec<Seed> = ["empty", "leaf1", "leaf4", "leaf16", "leaf48", "inner2@6", "inner4@6", "chain[6,4]", "shrunk4to[0]@7"].iter().map(|n| by(n)).collect();
    let rounds = if thorough { 1200 } else { 300 };
    let heap = [Kind::Default, Kind::U64, Kind::U64Typed];
    match prop {
        "C01" => {
            toggle_units(&mut o, 4 + x);
            grid_units(&mut o, Kind::Plain, thorough);
            for s in seeds {
                let mut a = write_ops(s, 2, 5);
                a.extend(cond_ops(s, 1, 1).into_iter().step_by(3));
                dfs_units(&mut o, s, a, 3 + x, Kind::Plain);
            }
            for s in &small {
                dfs_units(&mut o, s, write_ops(s, 2, 3), 4 + x, Kind::Plain);
            }
            single_units(&mut o, &[Kind::Plain], false);
            value_units(&mut o, &[Kind::Plain], &vseeds);
            steady_units(&mut o, &steady, rounds, &[Kind::Plain]);
        }
        "C02" => {
            toggle_units(&mut o, 5 + x);
            grid_units(&mut o, Kind::Plain, thorough);
            scan_units(&mut o, seeds, thorough);
            single_units(&mut o, &[Kind::Plain], true);
        }
        "C03" => {
            toggle_units(&mut o, 5 + x);
            grid_units(&mut o, Kind::Plain, thorough);
            fanout_units(&mut o, thorough);
            perm_units(&mut o, thorough);
            slot_units(&mut o, thorough);
            steady_units(&mut o, &steady, rounds, &[Kind::Plain]);
            single_units(&mut o, &[Kind::Plain], false);
            for s in seeds {
                dfs_units(&mut o, s, write_ops(s, 3, 7), 3, Kind::Plain);
            }
            for s in &small {
                dfs_units(&mut o, s, write_ops(s, 2, 3), 4 + x, Kind::Plain);
            }
        }
        "C04" => {
            for s in seeds {
                let a = cond_ops(s, 1, 2);
                dfs_units(&mut o, s, a, 2 + x, Kind::Plain);
                let mut a: Vec<Op> = cond_ops(s, 1, 1);
                a.retain(|o| o.writes());
                dfs_units(&mut o, s, a, 3, Kind::Plain);
                // every present key, every kind
                dfs_units(&mut o, s, cond_ops(s, 4, 7), 1 + x, Kind::Plain);
            }
            value_units(&mut o, &[Kind::Plain], &vseeds);
            steady_units(&mut o, &steady, rounds, &[Kind::Plain]);
        }
        "C05" => {
            toggle_units(&mut o, 4 + x);
            grid_units(&mut o, Kind::Plain, thorough);
            for s in seeds {
                let mut a = write_ops(s, 3, 4);
                a.extend(cond_ops(s, 1, 1).into_iter().filter(|o| matches!(o, Op::Cip(_, F::Del) | Op::Cas(_, CUR, None) | Op::Coi(_, F::Add(_)))));
                dfs_units(&mut o, s, a, 3 + x, Kind::Plain);
            }
            for s in &small {
                dfs_units(&mut o, s, write_ops(s, 3, 3), 4 + x, Kind::Plain);
            }
            perm_units(&mut o, thorough);
            fanout_units(&mut o, thorough);
            slot_units(&mut o, thorough);
            steady_units(&mut o, &steady, rounds, &[Kind::Plain]);
            single_units(&mut o, &[Kind::Plain], false);
        }
        "C09" | "C10" => {
            toggle_units(&mut o, if prop == "C10" { 4 } else { 3 } + x);
            grid_units(&mut o, Kind::Plain, thorough && prop == "C10");
            for s in seeds {
                let mut a = write_ops(s, 3, 5);
                a.extend(cond_ops(s, 1, 1).into_iter().filter(|o| matches!(o, Op::Cip(_, F::Del) | Op::Cas(_, CUR, None) | Op::Coi(_, F::Add(_)))));
                held_units(&mut o, s, a.clone(), 2 + x, Kind::Plain);
                dfs_units(&mut o, s, a, 2 + x, Kind::Plain);
            }
            for s in &small {
                held_units(&mut o, s, write_ops(s, 2, 3), 3 + x, Kind::Plain);
            }
            fanout_units(&mut o, false);
            for kind in heap {
                for s in if thorough { seeds } else { &steady[..] } {
                    held_units(&mut o, s, write_ops(s, 2, 4), 2, kind);
                }
                fanout_kind_units(&mut o, kind, &[0, 3, 6], &[Ord_::Zip], false);
            }
            for kind in [Kind::Typed, Kind::Default] {
                for s in &small {
                    let mut a = write_ops(s, 1, 2);
                    a.extend(cond_ops(s, 1, 1));
                    held_units(&mut o, s, a, 2, kind);
                }
            }
            steady_units(&mut o, &steady, rounds, &[Kind::Plain]);
            single_units(&mut o, &[Kind::Plain], false);
            if thorough || prop == "C10" {
                perm_units(&mut o, false);
            }
            slot_units(&mut o, false);
        }
        "C11" => oom_units(&mut o, seeds, thorough),
        "C12" | "C13" => {
            grid_units(&mut o, Kind::Plain, thorough && prop == "C12");
            grid_units(&mut o, Kind::Typed, false);
            for s in seeds {
                let mut a = write_ops(s, 3, 4);
                a.extend(cond_ops(s, 1, 1).into_iter().filter(|o| matches!(o, Op::Cip(_, F::Del) | Op::Cip(_, F::Add(_)) | Op::Cas(_, CUR, _) | Op::Coi(_, F::Add(_)))));
                dfs_units(&mut o, s, a.clone(), 2 + x, Kind::Plain);
                dfs_units(&mut o, s, a.clone(), 2, Kind::Typed);
                held_units(&mut o, s, a, 2, Kind::Plain);
            }
            fanout_drop_units(&mut o, thorough);
            slot_units(&mut o, false);
            single_units(&mut o, &[Kind::Plain], false);
            value_units(&mut o, &[Kind::Plain, Kind::Typed], &vseeds);
            if prop == "C13" {
                steady_units(&mut o, &steady, rounds, &[Kind::Plain]);
            }
        }
        "C14" => {
            for s in seeds {
                let mut a = write_ops(s, 3, 6);
                a.extend(cond_ops(s, 1, 1));
                a.extend(panic_ops(s, 1, 3));
                dfs_units(&mut o, s, a, 2, Kind::Plain);
            }
            steady_units(&mut o, &steady, rounds, &[Kind::Plain]);
            steady_with(&mut o, &steady, rounds, &[Kind::Plain], true);
        }
        "C15" => {
            for s in seeds {
                let mut a = panic_ops(s, 4, 7);
                dfs_units(&mut o, s, a.clone(), 1 + x, Kind::Plain);
                a = panic_ops(s, 1, 4);
                a.extend(write_ops(s, 2, 4));
                dfs_units(&mut o, s, a.clone(), 2 + x, Kind::Plain);
                dfs_units(&mut o, s, a, 2, Kind::Typed);
            }
            for s in &small {
                let mut a = panic_ops(s, 1, 3);
                a.extend(write_ops(s, 1, 2));
                dfs_units(&mut o, s, a, 3, Kind::Plain);
            }
            steady_with(&mut o, &steady, rounds, &[Kind::Plain], true);
        }
        "C16" => {
            toggle_units(&mut o, 4 + x);
            grid_units(&mut o, Kind::Plain, thorough);
            for s in seeds {
                let mut a = write_ops(s, 3, 6);
                a.extend(cond_ops(s, 1, 1).into_iter().filter(|o| matches!(o, Op::Cip(_, F::Del) | Op::Coi(_, F::Add(_)))));
                dfs_units(&mut o, s, a, 2 + x, Kind::Plain);
            }
            for s in &small {
                dfs_units(&mut o, s, write_ops(s, 2, 3), 3 + x, Kind::Plain);
            }
            fanout_units(&mut o, thorough);
            big_stats_units(&mut o, thorough);
            megabyte_units(&mut o);
            steady_units(&mut o, &steady, rounds, &[Kind::Plain]);
            slot_units(&mut o, false);
            single_units(&mut o, &[Kind::Plain], false);
        }
        "C17" => {
            for k in [Kind::Typed, Kind::Default, Kind::U64, Kind::U64Typed] {
                grid_units(&mut o, k, false);
            }
            for s in seeds {
                let a = write_ops(s, 2, 5);
                let mut b = a.clone();
                b.extend(cond_ops(s, 1, 1));
                dfs_units(&mut o, s, b.clone(), 2, Kind::Typed);
                dfs_units(&mut o, s, b, 2, Kind::Default);
                dfs_units(&mut o, s, a.clone(), 2 + x, Kind::U64);
                dfs_units(&mut o, s, a, 2 + x, Kind::U64Typed);
            }
            front_scan_units(&mut o, seeds, thorough);
            let kinds = [Kind::Typed, Kind::Default, Kind::U64, Kind::U64Typed];
            value_units(&mut o, &kinds, &vseeds);
            steady_units(&mut o, &steady[..5], 60, &kinds);
            for kind in kinds {
                fanout_kind_units(&mut o, kind, &[0, 3, 7], &[Ord_::Rev, Ord_::Zip], false);
            }
            single_units(&mut o, &kinds, false);
            single_units(&mut o, &kinds, true);
        }
        "C18" => {
            two_tree_units(&mut o, &small, 3);
            if thorough {
                two_tree_units(&mut o, seeds, 3);
            }
            nested_units(&mut o, seeds);
            reborn_units(&mut o, seeds, thorough);
        }
        _ => {}
    }
    o
}

/// Trees of two fan-outs, one below the other: `a` values of one byte, below each of them `b` values
/// of a later one. Filled, thinned out, emptied, filled again, dropped.
fn grid_units(out: &mut Vec<Unit>, kind: Kind, thorough: bool) {
    let sizes: &[(usize, usize)] = if thorough {
        &[(3, 5), (5, 3), (4, 17), (17, 4), (5, 16), (16, 49), (17, 48), (49, 4), (48, 49), (49, 48), (256, 17), (17, 256), (256, 48), (49, 256), (256, 256)]
    } else {
        &[(3, 5), (5, 16), (4, 17), (17, 48), (48, 49), (49, 4), (256, 17), (17, 256)]
    };
    let levels: &[(usize, usize)] = if thorough { &[(6, 7), (5, 7), (0, 7), (0, 1), (2, 5), (3, 4), (1, 6)] } else { &[(6, 7), (0, 7), (0, 1), (2, 5)] };
    for &(la, lb) in levels {
        for &(na, nb) in sizes {
            grid_unit(out, kind, la, lb, na, nb);
        }
    }
    if !thorough && kind == Kind::Plain {
        grid_unit(out, kind, 6, 7, 256, 256);
    }
}

fn grid_unit(out: &mut Vec<Unit>, kind: Kind, la: usize, lb: usize, na: usize, nb: usize) {
    out.push(Unit {
        name: format!("({kind:?}) {na} values of byte {la} times {nb} values of byte {lb}"),
        run: Box::new(move |prop, ta| {
            let (obs, id) = kind_obs(kind, prop);
            let t = Tree::new(kind, id);
            let mut m = Map::default();
            let spread = |i: usize, n: usize| if n > 128 { i as u8 } else { (i * 255 / (n - 1)) as u8 };
            let key = |i: usize, j: usize| with(&[(la, spread(i, na)), (lb, spread(j, nb))]);
            let all: Vec<usize> = (0..na).flat_map(|i| (0..nb).map(move |j| (i, j))).map(|(i, j)| key(i, j)).collect();
            let big = na * nb > 5000;
            let look = |m: &Map, bounds: bool, ta: &mut Tally| {
                ta.states += 1;
                let mut found = Vec::new();
                let mut u = all.clone();
                u.extend((0..na).map(|i| key(i, 0) ^ 0x0100));
                u.extend((0..nb).map(|j| key(0, j) ^ (1 << 56)));
                observe(&t, m, &u, obs, &mut found);
                report(prop, &found);
                if bounds && obs.scan && matches!(kind, Kind::Plain) {
                    let some = [key(0, 0), key(na / 2, nb / 2), key(na / 2, nb - 1), key(na / 2 + 1, 0), key(na - 1, nb - 1)];
                    all_scans(prop, &t, m, &bounds_of(&some, if big { 5 } else { 12 }), ta);
                }
            };
            for (n, &k) in all.iter().enumerate() {
                step(prop, &t, &mut m, Op::Ins(k, n ^ (n << 16)), ta);
            }
            look(&m, true, ta);
            // the second half of every inner fan-out, then every other value of the outer one
            for &k in all.iter().enumerate().filter(|(n, _)| n % nb >= nb / 2).map(|(_, k)| k).rev() {
                step(prop, &t, &mut m, Op::Rem(k), ta);
            }
            look(&m, true, ta);
            for &k in all.iter().enumerate().filter(|(n, _)| n / nb % 2 == 1 && n % nb < nb / 2).map(|(_, k)| k).rev() {
                step(prop, &t, &mut m, Op::Rem(k), ta);
            }
            look(&m, true, ta);
            // half of it again
            for &k in all.iter().step_by(2) {
                step(prop, &t, &mut m, Op::Ins(k, k ^ 7), ta);
            }
            look(&m, true, ta);
            for &k in all.iter().rev() {
                step(prop, &t, &mut m, Op::Rem(k), ta);
            }
            look(&m, true, ta);
            for &k in all.iter().take(40) {
                step(prop, &t, &mut m, Op::Ins(k, !k), ta);
            }
            look(&m, true, ta);
            if obs.drain || obs.mem {
                let mut found = Vec::new();
                drop_and_check(&t, &m, obs, &mut found);
                report(prop, &found);
            }
            ta.traces += 1;
        }),
    });
}

/// Every way to take out and put back a few keys of a node, some below, between and above the others,
/// around the sizes where nodes change.
fn toggle_units(out: &mut Vec<Unit>, depth: usize) {
    for lvl in [7usize, 6] {
        for n in [3usize, 4, 5, 15, 16, 17, 47, 48, 49] {
            for first in 0..9 {
                out.push(Unit {
                    name: format!("{n} children at byte {lvl}; nine keys toggled in every order of {depth}, the first is number {first}"),
                    run: Box::new(move |prop, ta| {
                        let key = |b: usize| if lvl == 7 { with(&[(7, b as u8)]) } else { with(&[(lvl, b as u8), (7, b as u8 ^ 0x33)]) };
                        let t = Tree::new(Kind::Plain, 1);
                        let mut m = Map::default();
                        let at = |i: usize| 2 + i * 4;
                        for i in order(n, Ord_::Zip) {
                            step(prop, &t, &mut m, Op::Ins(key(at(i)), VALUES[i % 8].wrapping_add(i)), ta);
                        }
                        let last = at(n - 1);
                        let mut keys: Vec<usize> = [0, at(0), at(1), at(1) + 1, at(n / 2), at(n - 2), at(n - 2) + 2, last, last + 3, 255].iter().map(|b| key(*b)).collect();
                        keys.sort();
                        keys.dedup();
                        keys.truncate(if n == 3 { 8 } else { 10 });
                        if keys.len() == 10 {
                            keys.remove(1);
                        }
                        if first < keys.len() {
                            let mut w = Toggle { prop, t, keys, obs: obs_for(prop), snaps: vec![] };
                            w.go(&m, depth, usize::MAX, Some(first), ta);
                        }
                    }),
                });
            }
        }
    }
}

struct Toggle<'a> {
    prop: &'a str,
    t: Tree,
    keys: Vec<usize>,
    obs: Obs,
    snaps: Vec<Snap>,
}
impl Toggle<'_> {
    fn go(&mut self, m: &Map, left: usize, last: usize, first: Option<usize>, ta: &mut Tally) {
        if left == 0 {
            ta.traces += 1;
            return;
        }
        while self.snaps.len() <= left {
            self.snaps.push(Snap::default());
        }
        rt().arena.save(&mut self.snaps[left]);
        for i in 0..self.keys.len() {
            // toggling a key twice in a row is seen by the other units
            if i == last || first.is_some_and(|f| f != i) {
                continue;
            }
            rt().arena.restore(&self.snaps[left]);
            let mut m2 = m.clone();
            let l = trail_len();
            let k = self.keys[i];
            let op = if m.get(k).is_some() { Op::Rem(k) } else { Op::Ins(k, VALUES[(i + left) % 8]) };
            step(self.prop, &self.t, &mut m2, op, ta);
            ta.states += 1;
            let mut found = Vec::new();
            observe(&self.t, &m2, &self.keys, self.obs, &mut found);
            report(self.prop, &found);
            self.go(&m2, left - 1, i, None, ta);
            trail_cut(l);
        }
    }
}

/// Trees of every size, dropped at every size.
fn fanout_drop_units(out: &mut Vec<Unit>, thorough: bool) {
    for lvl in 0..8usize {
        for kind in [Kind::Plain, Kind::Typed] {
            out.push(Unit {
                name: format!("0..256 keys differing in byte {lvl}, the {kind:?} tree dropped at every size"),
                run: Box::new(move |prop, ta| {
                    let t = Tree::new(kind, 1);
                    let mut m = Map::default();
                    let obs = obs_for(prop);
                    let mut snap = Snap::default();
                    for (n, i) in order(256, if lvl % 2 == 0 { Ord_::Rev } else { Ord_::Zip }).into_iter().enumerate() {
                        step(prop, &t, &mut m, Op::Ins(with(&[(lvl, i as u8)]), VALUES[i % 8].wrapping_sub(i)), ta);
                        if n % 3 == 2 {
                            step(prop, &t, &mut m, Op::Rem(with(&[(lvl, (i / 2) as u8)])), ta);
                        }
                        if thorough || n < 60 || n % 16 == 15 {
                            rt().arena.save(&mut snap);
                            let mut found = Vec::new();
                            drop_and_check(&t, &m, obs, &mut found);
                            report(prop, &found);
                            ta.states += 1;
                            rt().arena.restore(&snap);
                        }
                    }
                    ta.traces += 1;
                }),
            });
        }
    }
}

/// Scans through the typed and u64 front ends.
fn front_scan_units(out: &mut Vec<Unit>, seeds: &[Seed], thorough: bool) {
    for s in seeds {
        for kind in [Kind::Typed, Kind::Default, Kind::U64, Kind::U64Typed] {
            let s = s.clone();
            out.push(Unit {
                name: format!("tree {} ({kind:?}); all pairs of bounds", s.name),
                run: Box::new(move |_prop, ta| {
                    let t = Tree::new(kind, if kind == Kind::Typed { 1 } else { 0 });
                    build(&t, &s.build);
                    let m = initial(&s.build);
                    let mut ks: Vec<usize> = s.present.iter().chain(s.absent.iter()).cloned().collect();
                    ks.truncate(6);
                    let mut b = bounds_of(&ks, if thorough { 40 } else { 20 });
                    b.extend(s.bounds.iter());
                    b.sort();
                    b.dedup();
                    all_scans("any", &t, &m, &b, ta);
                    ta.states += 1;
                    ta.traces += 1;
                }),
            });
        }
    }
}

// ---------------------------------------------------------------- values, single keys

pub fn kind_obs(kind: Kind, prop: &str) -> (Obs, u8) {
    let obs = obs_for(prop);
    match kind {
        Kind::Plain | Kind::Typed => (obs, 1),
        Kind::Default => (Obs { drain: false, mem: false, ..obs }, 0),
        _ => (Obs { drain: false, stats: false, empty: false, mem: false, ..obs }, 0),
    }
}

/// Values that could be mistaken for something else: empty, tags, counts, slots, nodes of this tree.
fn special_values() -> Vec<usize> {
    let mut v = vec![0, 1, 2, 3, 4, 16, 47, 48, 49, 255, 256, 1 << 16, 1 << 31, (1 << 32) - 1, 1 << 32, 1 << 47, 1 << 62, (1 << 63) - 1, 1 << 63, (1 << 63) + 1, usize::MAX - 1, usize::MAX];
    // typed values are shifted by this
    v.extend([0x1234_5678_9abc_def1usize, 0x1234_5678_9abc_def1usize.wrapping_neg()]);
    v.push(mcrt::arena::BASE + 64);
    v
}

/// Single bits and their complements, each next to itself and to its neighbours.
fn bit_pairs() -> Vec<(usize, usize)> {
    let mut v = Vec::new();
    for i in 0..64 {
        for b in [1usize << i, !(1usize << i), (1usize << i).wrapping_sub(1)] {
            for w in [0, b, b ^ 1, b ^ (1 << 63), b.rotate_left(1), !b] {
                v.push((b, w));
            }
        }
    }
    v
}

/// Every operation that stores, compares or returns a value, for every pair of special values.
fn value_units(out: &mut Vec<Unit>, kinds: &[Kind], seeds: &[Seed]) {
    for s in seeds {
        for &kind in kinds {
            let s = s.clone();
            out.push(Unit {
                name: format!("tree {} ({kind:?}); every pair of special values through every operation", s.name),
                run: Box::new(move |prop, ta| {
                    let (obs, id) = kind_obs(kind, prop);
                    let t = Tree::new(kind, id);
                    build(&t, &s.build);
                    let m0 = initial(&s.build);
                    let mut snap = Snap::default();
                    rt().arena.save(&mut snap);
                    let vs = special_values();
                    let cond = matches!(kind, Kind::Plain | Kind::Typed | Kind::Default);
                    let keys: Vec<usize> = s.present.iter().take(1).chain(s.absent.iter().take(1)).cloned().collect();
                    for &k in &keys {
                        let mut pairs = bit_pairs();
                        for &w in &vs {
                            pairs.extend(vs.iter().map(|v| (w, *v)));
                        }
                        {
                            for (w, v) in pairs {
                                let mut ops = vec![Op::Ins(k, v), Op::Rem(k), Op::Get(k)];
                                if cond {
                                    ops.extend([
                                        Op::Cas(k, w, Some(v)),
                                        Op::Cas(k, v, Some(w)),
                                        Op::Cas(k, v, Some(v)),
                                        Op::Cas(k, v, None),
                                        Op::Cip(k, F::Const(v)),
                                        Op::Cip(k, F::DelIf(v)),
                                        Op::Coi(k, F::Const(v)),
                                    ]);
                                }
                                for op in ops {
                                    rt().arena.restore(&snap);
                                    rt().drained.clear();
                                    trail_clear();
                                    let mut m = m0.clone();
                                    step(prop, &t, &mut m, Op::Ins(k, w), ta);
                                    step(prop, &t, &mut m, op, ta);
                                    let mut found = Vec::new();
                                    observe(&t, &m, &[k], obs, &mut found);
                                    if obs.drain {
                                        drop_and_check(&t, &m, obs, &mut found);
                                    }
                                    report(prop, &found);
                                    ta.states += 1;
                                    ta.traces += 1;
                                }
                            }
                        }
                    }
                }),
            });
        }
    }
}

/// Trees of one and two keys: every byte at every position, next to the extreme bytes of every position.
fn single_units(out: &mut Vec<Unit>, kinds: &[Kind], scans: bool) {
    for &kind in kinds {
        for lvl in 0..8usize {
            out.push(Unit {
                name: format!("one key with {} byte at position {lvl} ({kind:?}), then a second key{}", if scans && kind != Kind::Plain { "every eighth" } else { "every" }, if scans { "; all pairs of bounds around them" } else { "" }),
                run: Box::new(move |prop, ta| {
                    let (obs, id) = kind_obs(kind, prop);
                    let t = Tree::new(kind, id);
                    let mut empty = Snap::default();
                    rt().arena.save(&mut empty);
                    let look = |m: &Map, uni: &[usize], ta: &mut Tally| {
                        let mut found = Vec::new();
                        observe(&t, m, uni, obs, &mut found);
                        report(prop, &found);
                        if scans {
                            let b = bounds_of(uni, 14);
                            all_scans(prop, &t, m, &b, ta);
                        }
                        ta.states += 1;
                    };
                    for b in 0..=255u8 {
                        if scans && kind != Kind::Plain && b > 2 && b < 0xfe && b % 8 != 0 && b != 0x7f {
                            continue;
                        }
                        let k1 = with(&[(lvl, b)]);
                        let mut second = Vec::new();
                        for l2 in 0..8usize {
                            for c in [0u8, 1, 0x7f, 0x80, 0xfe, 0xff] {
                                second.push(with(&[(lvl, b), (l2, c)]));
                            }
                        }
                        // all bytes from here on equal
                        let mut all = P;
                        for x in all.iter_mut().skip(lvl) {
                            *x = b;
                        }
                        second.push(k(all));
                        second.push(k1 ^ (1 << 63));
                        second.sort();
                        second.dedup();
                        second.retain(|x| *x != k1);
                        if scans && b > 2 && b < 0xfe && b % 32 != 0 {
                            second.truncate(4);
                        }
                        for k2 in second {
                            rt().arena.restore(&empty);
                            rt().drained.clear();
                            trail_clear();
                            let mut m = Map::default();
                            step(prop, &t, &mut m, Op::Ins(k1, 1), ta);
                            let uni = [k1, k2];
                            if !scans {
                                look(&m, &uni, ta);
                            }
                            step(prop, &t, &mut m, Op::Ins(k2, 0), ta);
                            look(&m, &uni, ta);
                            step(prop, &t, &mut m, Op::Rem(k1), ta);
                            if !scans {
                                look(&m, &uni, ta);
                            }
                            if obs.drain {
                                let mut s1 = Snap::default();
                                rt().arena.save(&mut s1);
                                let mut found = Vec::new();
                                drop_and_check(&t, &m, obs, &mut found);
                                report(prop, &found);
                                rt().arena.restore(&s1);
                            }
                            step(prop, &t, &mut m, Op::Rem(k2), ta);
                            look(&m, &uni, ta);
                            ta.traces += 1;
                        }
                    }
                }),
            });
        }
    }
}

/// Long histories: every pair of operations over a few keys, alternating many times, looked at each time;
/// and a few pairs so often that any 16-bit count of operations comes round.
fn steady_units(out: &mut Vec<Unit>, seeds: &[Seed], rounds: usize, kinds: &[Kind]) {
    steady_with(out, seeds, rounds, kinds, false)
}
/// `panics`: with closures that panic each time.
fn steady_with(out: &mut Vec<Unit>, seeds: &[Seed], rounds: usize, kinds: &[Kind], panics: bool) {
    for s in seeds {
        for &kind in kinds {
            let mut alpha = Vec::new();
            for &k in s.present.iter().take(1).chain(s.absent.iter().take(2)) {
                alpha.extend([Op::Ins(k, 1), Op::Rem(k)]);
            }
            if let (Some(&k), false) = (s.present.first(), matches!(kind, Kind::U64 | Kind::U64Typed)) {
                alpha.extend([Op::Coi(k, F::Add(3)), Op::Cip(k, F::Del), Op::Cas(k, CUR, Some(9))]);
            }
            if panics {
                alpha.truncate(4);
                for &k in s.present.iter().take(1).chain(s.absent.iter().take(2)) {
                    alpha.extend([Op::Coi(k, F::Panic), Op::Cip(k, F::Panic)]);
                }
            }
            for first in 0..alpha.len() {
                for long in [false, true] {
                    if long && (first != 0 || rounds < 300 || panics) {
                        continue;
                    }
                    let (s, alpha) = (s.clone(), alpha.clone());
                    out.push(Unit {
                        name: format!("tree {} ({kind:?}); {} repeated with another operation {}", s.name, alpha[first], if long { "more than 65536 times".to_string() } else { format!("{rounds} times") }),
                        run: Box::new(move |prop, ta| {
                            let (obs, id) = kind_obs(kind, prop);
                            let t = Tree::new(kind, id);
                            build(&t, &s.build);
                            let m0 = initial(&s.build);
                            let uni: Vec<usize> = alpha.iter().filter_map(|o| o.key()).collect();
                            // memory comes back dirty, as from a real allocator
                            rt().arena.reuse = true;
                            let mut snap = Snap::default();
                            rt().arena.save(&mut snap);
                            let partners: Vec<Op> = if long { vec![Op::Rem(alpha[first].key().unwrap())] } else { alpha.clone() };
                            for other in partners {
                                rt().arena.restore(&snap);
                                rt().drained.clear();
                                trail_clear();
                                let mut m = m0.clone();
                                let n = if long { 66_000 } else { rounds };
                                for i in 0..n {
                                    for op in [alpha[first], other] {
                                        let op = resolve(at_depth(op, i % 7), &m);
                                        trail_clear();
                                        if i > 0 {
                                            trail_note("the same two operations many times before");
                                        }
                                        step(prop, &t, &mut m, op, ta);
                                        if !long || i % 64 == 0 || i + 300 > n || i % 32768 < 3 {
                                            let mut found = Vec::new();
                                            observe(&t, &m, &uni, obs, &mut found);
                                            report(prop, &found);
                                            ta.states += 1;
                                        }
                                    }
                                }
                                let mut found = Vec::new();
                                if id != 0 {
                                    drop_and_check(&t, &m, obs, &mut found);
                                }
                                report(prop, &found);
                                ta.traces += 1;
                            }
                        }),
                    });
                }
            }
        }
    }
}

/// Trees that grow across a whole number of megabytes leaf by leaf, one unit per size class.
fn megabyte_units(out: &mut Vec<Unit>) {
    for fan in [1usize, 5, 17, 49] {
        out.push(Unit {
            name: format!("leaves of {fan} keys added until the nodes fill one megabyte; statistics around that moment"),
            run: Box::new(move |prop, ta| {
                let t = Tree::new(Kind::Plain, 1);
                let mut m = Map::default();
                let mb = 1usize << 20;
                let mut crossed = 0;
                let mut i = 0;
                while crossed < 3 {
                    for j in 0..fan {
                        let k = (i << 8) | j;
                        begin_op();
                        let g = pin();
                        exec(&t, Op::Ins(k, j), &g);
                        m.0.push((k, j));
                        ta.transitions += 1;
                    }
                    i += 1;
                    // the sum over all blocks is only taken near the boundary
                    let guess = i * sizes().0[match fan { 1 => 0, 5 => 1, 17 => 2, _ => 3 }];
                    if guess + mb / 8 > mb {
                        let total: usize = live_sizes(1).iter().sum();
                        if total + 3000 > mb {
                            let mut found = Vec::new();
                            observe(&t, &m, &[], obs_for(prop), &mut found);
                            report(prop, &found);
                            ta.states += 1;
                        }
                        if total > mb {
                            crossed += 1;
                        }
                    }
                }
                ta.traces += 1;
            }),
        });
    }
}

/// Nodes of every size class: every pair (thorough: triple) of children removed, then as many added again,
/// and steady exchanges of children with every stride.
fn slot_units(out: &mut Vec<Unit>, thorough: bool) {
    fn key(lvl: usize, b: u8) -> usize {
        if lvl == 7 {
            with(&[(7, b)])
        } else {
            with(&[(lvl, b), (7, b ^ 0x33)])
        }
    }
    // every third byte, so that new ones fit below, between and above
    fn byte(i: usize) -> u8 {
        (i * 3 + 1) as u8
    }
    let sizes: &[usize] = &[2, 3, 4, 5, 6, 9, 15, 16, 17, 18, 21, 30, 46, 47, 48, 49, 55];
    for lvl in [7usize, 6, 2] {
        for &n in sizes {
            if lvl == 2 && !thorough && n > 21 {
                continue;
            }
            for o in [Ord_::Up, Ord_::Rev] {
                if lvl != 7 && !thorough && matches!(o, Ord_::Up) {
                    continue;
                }
                for i in 0..n {
                    out.push(Unit {
                        name: format!("{n} children at byte {lvl} added {o:?}; number {i} and every other {} removed, others added", if n <= 6 || thorough && n <= 21 { "one or two" } else { "one" }),
                        run: Box::new(move |prop, ta| {
                            let t = Tree::new(Kind::Plain, 1);
                            let mut m0 = Map::default();
                            let obs = obs_for(prop);
                            for x in order(n, o) {
                                step(prop, &t, &mut m0, Op::Ins(key(lvl, byte(x)), VALUES[x % 8].wrapping_add(x)), ta);
                            }
                            trail_clear();
                            let uni: Vec<usize> = (0..n).map(byte).chain([0, byte(i) + 1, byte(n - 1) + 2, 255]).map(|b| key(lvl, b)).collect();
                            let mut snap = Snap::default();
                            rt().arena.save(&mut snap);
                            let third = n <= 6 || thorough && n <= 21;
                            for j in 0..n {
                                for l in 0..if third { n } else { 1 } {
                                    if j == i || third && l == i || third && l == j && l != 0 {
                                        continue;
                                    }
                                    rt().arena.restore(&snap);
                                    rt().drained.clear();
                                    trail_clear();
                                    let mut m = m0.clone();
                                    let mut ops = vec![Op::Rem(key(lvl, byte(i))), Op::Rem(key(lvl, byte(j)))];
                                    if third && l != j {
                                        ops.push(Op::Rem(key(lvl, byte(l))));
                                    }
                                    ops.extend([
                                        Op::Ins(key(lvl, byte(i) + 1), 901),
                                        Op::Ins(key(lvl, 0), 902),
                                        Op::Ins(key(lvl, byte(j)), 903),
                                        Op::Rem(key(lvl, 0)),
                                        Op::Ins(key(lvl, 255), 904),
                                        Op::Ins(key(lvl, byte(i)), 905),
                                    ]);
                                    let z = ops.len();
                                    for (x, op) in ops.into_iter().enumerate() {
                                        step(prop, &t, &mut m, op, ta);
                                        let mut found = Vec::new();
                                        observe(&t, &m, if x + 1 == z { &uni } else { &[] }, obs, &mut found);
                                        report(prop, &found);
                                        ta.states += 1;
                                    }
                                    if obs.drain {
                                        let mut found = Vec::new();
                                        drop_and_check(&t, &m, obs, &mut found);
                                        report(prop, &found);
                                    }
                                    ta.traces += 1;
                                }
                            }
                        }),
                    });
                }
            }
            for stride in 1..=n.min(if thorough { 64 } else { 20 }) {
                out.push(Unit {
                    name: format!("{n} children at byte {lvl}; children exchanged with stride {stride}"),
                    run: Box::new(move |prop, ta| {
                        let t = Tree::new(Kind::Plain, 1);
                        let mut m = Map::default();
                        let obs = obs_for(prop);
                        let mut have: Vec<u8> = (0..n).map(byte).collect();
                        for (x, b) in have.iter().enumerate() {
                            step(prop, &t, &mut m, Op::Ins(key(lvl, *b), x), ta);
                        }
                        let mut next = 0u8;
                        let mut p = 0;
                        for r in 0..4 * n {
                            p = (p + stride) % have.len();
                            let gone = have.remove(p);
                            let mut todo = vec![Op::Rem(key(lvl, gone))];
                            // one, two or no children are added, so that the number of free slots varies
                            for _ in 0..[1, 2, 0, 1][r % 4] {
                                while have.contains(&next) {
                                    next = next.wrapping_add(7);
                                }
                                have.push(next);
                                todo.push(Op::Ins(key(lvl, next), 1000 + r));
                            }
                            for op in todo {
                                step(prop, &t, &mut m, op, ta);
                                let mut found = Vec::new();
                                observe(&t, &m, &[key(lvl, gone), key(lvl, next)], obs, &mut found);
                                report(prop, &found);
                                ta.states += 1;
                            }
                        }
                        let mut found = Vec::new();
                        let uni: Vec<usize> = (0..=255).map(|b| key(lvl, b)).collect();
                        observe(&t, &m, &uni, obs, &mut found);
                        if obs.drain {
                            drop_and_check(&t, &m, obs, &mut found);
                        }
                        report(prop, &found);
                        ta.traces += 1;
                    }),
                });
            }
        }
    }
}
