//! Operations, their results, and the reference map.
use mcrt::{host, rt};
use std::cell::Cell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use sut::epoch::Guard;
use sut::Tree;

/// Closure of a conditional update.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum F {
    Const(usize),      // Some(c)
    Add(usize),        // Some(v + d); for compute_or_insert on an absent key: d
    Same,              // Some(v); for compute_or_insert on an absent key: 77
    Del,               // None; for compute_or_insert: 0
    DelIf(usize),      // None if v == x, else Some(v)
    Panic,             // always panics
    PanicIf(usize),    // panics when it sees v == x, else Same
    PanicAbsent(usize), // panics on an absent key, else Const
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    Get(usize),
    Ins(usize, usize),
    Rem(usize),
    Cas(usize, usize, Option<usize>),
    Cip(usize, F),
    Coi(usize, F),
    Range(usize, usize, usize),
    Empty,
    Stats,
    Life(bool), // the whole life of a tree of its own, with a removal in it or without
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Res {
    Val(Option<usize>),
    Oom,
    Cas(Result<Option<usize>, Option<usize>>),
    Pair(Option<(usize, Option<usize>)>),
    Scan(Vec<(usize, usize)>),
    Bool(bool),
    Stats(usize), // pair count
    Panicked,     // the panic of the closure came back
    BadCall(String), // closure called wrongly, or the panic was swallowed
}

pub struct ClosurePanic;

fn key(k: usize) -> String {
    let b = k.to_be_bytes();
    b.iter().map(|x| format!("{x:02x}")).collect::<Vec<_>>().join(".")
}

impl std::fmt::Display for Op {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match *self {
            Op::Get(k) => write!(f, "get({})", key(k)),
            Op::Ins(k, v) => write!(f, "insert({}, {v})", key(k)),
            Op::Rem(k) => write!(f, "remove({})", key(k)),
            Op::Cas(k, o, n) => write!(f, "compare_exchange({}, {o}, {n:?})", key(k)),
            Op::Cip(k, c) => write!(f, "compute_if_present({}, {c:?})", key(k)),
            Op::Coi(k, c) => write!(f, "compute_or_insert({}, {c:?})", key(k)),
            Op::Range(a, b, n) => write!(f, "range({}..{}, buffer {n})", key(a), key(b)),
            Op::Empty => write!(f, "is_empty()"),
            Op::Stats => write!(f, "stats()"),
            Op::Life(r) => write!(f, "the life of another tree{}", if r { " with a removal" } else { "" }),
        }
    }
}

impl Op {
    pub fn key(&self) -> Option<usize> {
        match *self {
            Op::Get(k) | Op::Ins(k, _) | Op::Rem(k) | Op::Cas(k, ..) | Op::Cip(k, _) | Op::Coi(k, _) => Some(k),
            _ => None,
        }
    }
    pub fn writes(&self) -> bool {
        !matches!(self, Op::Get(_) | Op::Range(..) | Op::Empty | Op::Stats | Op::Life(_) | Op::Cip(_, F::Same))
    }
}

impl F {
    pub fn cip(&self, v: usize) -> Option<usize> {
        match *self {
            F::Const(c) | F::PanicAbsent(c) => Some(c),
            F::Add(d) => Some(v.wrapping_add(d)),
            F::Same | F::PanicIf(_) => Some(v),
            F::Del => None,
            F::DelIf(x) => {
                if v == x {
                    None
                } else {
                    Some(v)
                }
            }
            F::Panic => unreachable!(),
        }
    }
    pub fn coi(&self, v: Option<usize>) -> usize {
        match (*self, v) {
            (F::Const(c) | F::PanicAbsent(c), _) => c,
            (F::Add(d), Some(v)) => v.wrapping_add(d),
            (F::Add(d), None) => d,
            (F::Same | F::DelIf(_) | F::PanicIf(_), Some(v)) => v,
            (F::Same | F::DelIf(_) | F::PanicIf(_), None) => 77,
            (F::Del, _) => 0,
            (F::Panic, _) => unreachable!(),
        }
    }
    pub fn panics(&self, v: Option<usize>) -> bool {
        match *self {
            F::Panic => true,
            F::PanicIf(x) => v == Some(x),
            F::PanicAbsent(_) => v.is_none(),
            _ => false,
        }
    }
}

/// Number of pairs a rendered statistics text reports.
pub fn kv_count(s: &str) -> usize {
    s.lines().find_map(|l| l.strip_prefix("KV count: ")).and_then(|x| x.trim().parse().ok()).unwrap_or(usize::MAX)
}

#[derive(Debug, Default, PartialEq, Eq, Clone)]
pub struct StatsView {
    pub kv: usize,
    pub nodes: usize,
    pub entries: usize,
    pub by_class: [usize; 4],
    pub mb: usize,
}

pub fn parse_stats(s: &str) -> StatsView {
    let mut v = StatsView { kv: usize::MAX, nodes: usize::MAX, entries: usize::MAX, ..Default::default() };
    for l in s.lines() {
        if let Some(x) = l.strip_prefix("KV count: ") {
            v.kv = x.trim().parse().unwrap_or(usize::MAX);
        } else if let Some(x) = l.strip_prefix("Overall node count: ") {
            let mut it = x.split(", entry count: ");
            v.nodes = it.next().and_then(|x| x.trim().parse().ok()).unwrap_or(usize::MAX);
            v.entries = it.next().and_then(|x| x.trim().parse().ok()).unwrap_or(usize::MAX);
        } else if let Some(x) = l.strip_prefix("Active memory usage: ") {
            v.mb = x.split(' ').next().and_then(|x| x.trim().parse().ok()).unwrap_or(usize::MAX);
        } else if l.starts_with("Level:") {
            for (i, c) in ["N4:", "N16:", "N48:", "N256:"].iter().enumerate() {
                if let Some(p) = l.find(c) {
                    let rest = &l[p + c.len()..];
                    let n = rest.split(',').next().and_then(|x| x.trim().parse::<usize>().ok()).unwrap_or(usize::MAX / 8);
                    v.by_class[i] += n;
                }
            }
        }
    }
    v
}

pub const SENTINEL: (usize, usize) = (0xdead_0000_beef_0001, 0xdead_0000_beef_0002);

static mut TRAIL: Vec<(u8, Op, &'static str)> = Vec::new();
static mut CALLS: u32 = 0;
/// How often the closure of the last operation ran.
pub fn closure_calls() -> u32 {
    unsafe { CALLS }
}
#[allow(static_mut_refs)]
mod trail {
    use super::*;
    pub fn trail_clear() {
        unsafe { TRAIL.clear() }
    }
    pub fn trail_push(t: u8, op: Op) {
        unsafe { TRAIL.push((t, op, "")) }
    }
    pub fn trail_note(n: &'static str) {
        unsafe {
            if let Some(l) = TRAIL.last_mut() {
                l.2 = n
            }
        }
    }
    pub fn trail_len() -> usize {
        unsafe { TRAIL.len() }
    }
    pub fn trail_cut(n: usize) {
        unsafe { TRAIL.truncate(n) }
    }
    pub fn trail_text() -> String {
        unsafe {
            let two = TRAIL.iter().any(|x| x.0 > 1);
            let n = TRAIL.len().saturating_sub(600);
            let v: Vec<String> = TRAIL[n..]
                .iter()
                .map(|(t, o, n)| {
                    let mut s = if two { format!("tree{t}.{o}") } else { o.to_string() };
                    if !n.is_empty() {
                        s += &format!(" [{n}]");
                    }
                    s
                })
                .collect();
            v.join("; ")
        }
    }
}
pub use trail::*;

/// Runs one operation on the code under test.
pub fn exec(t: &Tree, op: Op, g: &Guard) -> Res {
    let calls = Cell::new(0u32);
    let last = Cell::new(None::<Option<usize>>);
    let r = catch_unwind(AssertUnwindSafe(|| match op {
        Op::Get(k) => Res::Val(t.a().get(k, g)),
        Op::Ins(k, v) => match t.a().insert(k, v, g) {
            Ok(o) => Res::Val(o),
            Err(()) => Res::Oom,
        },
        Op::Rem(k) => Res::Val(t.a().remove(k, g)),
        Op::Cas(k, o, n) => Res::Cas(t.a().cas(k, o, n, g)),
        Op::Cip(k, f) => {
            let r = t.a().cip(
                k,
                &mut |v| {
                    calls.set(calls.get() + 1);
                    last.set(Some(Some(v)));
                    if f.panics(Some(v)) {
                        std::panic::panic_any(ClosurePanic);
                    }
                    f.cip(v)
                },
                g,
            );
            match (r, last.get()) {
                (Some((old, _)), Some(Some(a))) if a != old => Res::BadCall(format!("closure last saw {a}, reported old value {old}")),
                (Some(_), None) => Res::BadCall("reported an update without calling the closure".into()),
                _ => Res::Pair(r),
            }
        }
        Op::Coi(k, f) => {
            let r = t.a().coi(
                k,
                &mut |v| {
                    calls.set(calls.get() + 1);
                    last.set(Some(v));
                    if f.panics(v) {
                        std::panic::panic_any(ClosurePanic);
                    }
                    f.coi(v)
                },
                g,
            );
            match (r, last.get()) {
                (Err(()), _) => Res::Oom,
                (Ok(old), Some(a)) if a != old => Res::BadCall(format!("closure last saw {a:?}, reported old value {old:?}")),
                (Ok(_), None) => Res::BadCall("reported an update without calling the closure".into()),
                (Ok(old), _) => Res::Val(old),
            }
        }
        Op::Range(a, b, n) => {
            let mut buf = vec![SENTINEL; n + 2];
            let c = t.a().range(a, b, &mut buf[..n], g);
            if c > n {
                return Res::BadCall(format!("range reports {c} entries in a buffer of {n}"));
            }
            if buf[n..].iter().any(|x| *x != SENTINEL) {
                return Res::BadCall("range wrote beyond the buffer".into());
            }
            buf.truncate(c);
            Res::Scan(buf)
        }
        Op::Empty => Res::Bool(t.a().is_empty(g)),
        Op::Stats => Res::Stats(kv_count(&t.a().stats())),
        Op::Life(r) => life(r, g),
    }));
    let _h = host();
    unsafe { mcrt::SUT = false };
    unsafe { CALLS = calls.get() };
    match r {
        Ok(r) => r,
        Err(p) => {
            if p.is::<ClosurePanic>() {
                Res::Panicked
            } else {
                mcrt::violation("panic", &format!("{op} panicked: {}", crate::last_panic()))
            }
        }
    }
}

/// The reference: a sorted association list.
#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct Map(pub Vec<(usize, usize)>);

impl Map {
    pub fn get(&self, k: usize) -> Option<usize> {
        self.0.binary_search_by_key(&k, |x| x.0).ok().map(|i| self.0[i].1)
    }
    pub fn put(&mut self, k: usize, v: usize) -> Option<usize> {
        match self.0.binary_search_by_key(&k, |x| x.0) {
            Ok(i) => Some(std::mem::replace(&mut self.0[i].1, v)),
            Err(i) => {
                self.0.insert(i, (k, v));
                None
            }
        }
    }
    pub fn del(&mut self, k: usize) -> Option<usize> {
        self.0.binary_search_by_key(&k, |x| x.0).ok().map(|i| self.0.remove(i).1)
    }
    pub fn scan(&self, a: usize, b: usize, n: usize) -> Vec<(usize, usize)> {
        if a >= b {
            return Vec::new();
        }
        let i = self.0.partition_point(|x| x.0 < a);
        self.0[i..].iter().take_while(|x| x.0 < b).take(n).cloned().collect()
    }
    /// Applies an operation and returns what it has to return.
    pub fn apply(&mut self, op: Op) -> Res {
        match op {
            Op::Get(k) => Res::Val(self.get(k)),
            Op::Ins(k, v) => Res::Val(self.put(k, v)),
            Op::Rem(k) => Res::Val(self.del(k)),
            Op::Cas(k, o, n) => match self.get(k) {
                None => Res::Cas(Err(None)),
                Some(c) if c == o => {
                    match n {
                        Some(n) => {
                            self.put(k, n);
                        }
                        None => {
                            self.del(k);
                        }
                    }
                    Res::Cas(Ok(n))
                }
                Some(c) => Res::Cas(Err(Some(c))),
            },
            Op::Cip(k, f) => match self.get(k) {
                None => Res::Pair(None),
                Some(v) if f.panics(Some(v)) => Res::Panicked,
                Some(v) => {
                    let n = f.cip(v);
                    match n {
                        Some(n) => {
                            self.put(k, n);
                        }
                        None => {
                            self.del(k);
                        }
                    }
                    Res::Pair(Some((v, n)))
                }
            },
            Op::Coi(k, f) => {
                let c = self.get(k);
                if f.panics(c) {
                    return Res::Panicked;
                }
                self.put(k, f.coi(c));
                Res::Val(c)
            }
            Op::Range(a, b, n) => Res::Scan(self.scan(a, b, n)),
            Op::Empty => Res::Bool(self.0.is_empty()),
            Op::Stats => Res::Stats(self.0.len()),
            Op::Life(_) => Res::Bool(true),
        }
    }
}

/// Trees that live inside one operation have numbers from here on.
pub const LIFE: u8 = 10;

fn life(removal: bool, g: &Guard) -> Res {
    let id = LIFE + (mcrt::cur_thread() & 7) as u8;
    let t = Tree::new(sut::Kind::Plain, id);
    let mut m = Map::default();
    let mut ops = vec![Op::Ins(1, 2), Op::Ins(0x0100, 3), Op::Get(0x0100)];
    if removal {
        ops.extend([Op::Rem(0x0100), Op::Get(0x0100), Op::Ins(7, 8)]);
    }
    for o in ops {
        let (got, want) = (exec(&t, o, g), m.apply(o));
        if got != want {
            return Res::BadCall(format!("another tree: {o} gives {got:?}, the reference gives {want:?}"));
        }
    }
    t.destroy();
    let r = rt();
    let mut d: Vec<(usize, usize)> = r.drained.iter().filter(|x| x.0 == id).map(|x| (x.1, x.2)).collect();
    r.drained.retain(|x| x.0 != id);
    d.sort();
    if d != m.0 {
        return Res::BadCall(format!("another tree: the drainer saw {d:?}, the tree held {:?}", m.0));
    }
    Res::Bool(true)
}

/// Bounded value of the step counter of sequential code, reset before each operation.
pub fn begin_op() {
    let r = rt();
    mcrt::event(mcrt::K_CALL);
    r.old_blocks = r.arena.blocks.len();
}
