//! Linearizability of recorded histories, scans and statistics included as windows.
use crate::ops::{Map, Op, Res};
use std::collections::HashSet;

#[derive(Clone, Debug)]
pub struct Rec {
    pub th: usize,
    pub op: Op,
    pub res: Res,
    pub call: u32,
    pub ret: u32,
}

#[derive(Clone, Copy, PartialEq, Eq)]
enum Item {
    Op(usize),
    Begin(usize),
    End(usize),
}

struct Win {
    idx: usize,
    stable: Vec<(usize, usize)>,
    seen: Vec<(usize, usize)>,
    keys: HashSet<usize>,
}

/// Which operations have to be explained.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Sel {
    pub scans: bool,
    pub stats: bool,
    pub empty: bool,
}

pub struct Checker<'a> {
    recs: &'a [Rec],
    items: Vec<Item>,
    iv: Vec<(u32, u32)>,
    fin: &'a Map,
    pub oom_ok: bool,
}

fn pts(op: &Op, res: &Res, st: &mut Map, oom_ok: bool) -> bool {
    if *res == Res::Oom {
        return oom_ok;
    }
    st.apply(*op) == *res
}

impl<'a> Checker<'a> {
    pub fn new(recs: &'a [Rec], fin: &'a Map, sel: Sel, oom_ok: bool) -> Self {
        let mut items = Vec::new();
        let mut iv = Vec::new();
        for (i, r) in recs.iter().enumerate() {
            match r.op {
                Op::Range(..) | Op::Stats => {
                    let on = if r.op == Op::Stats { sel.stats } else { sel.scans };
                    if on {
                        items.push(Item::Begin(i));
                        iv.push((r.call, r.call));
                        items.push(Item::End(i));
                        iv.push((r.ret, r.ret));
                    }
                }
                Op::Empty if !sel.empty => {}
                Op::Life(_) => {}
                _ => {
                    items.push(Item::Op(i));
                    iv.push((r.call, r.ret));
                }
            }
        }
        Checker { recs, items, iv, fin, oom_ok }
    }

    pub fn ok(&self, init: &Map) -> bool {
        let mut wins = Vec::new();
        self.go(0, init, &mut wins)
    }

    fn go(&self, done: u128, st: &Map, wins: &mut Vec<Win>) -> bool {
        let n = self.items.len();
        if done == (1u128 << n) - 1 {
            return *st == *self.fin;
        }
        for i in 0..n {
            if done >> i & 1 == 1 {
                continue;
            }
            // every pending item that must come first?
            if (0..n).any(|j| j != i && done >> j & 1 == 0 && self.iv[j].1 < self.iv[i].0) {
                continue;
            }
            match self.items[i] {
                Item::Op(x) => {
                    let mut s2 = st.clone();
                    if !pts(&self.recs[x].op, &self.recs[x].res, &mut s2, self.oom_ok) {
                        continue;
                    }
                    if wins.is_empty() || s2 == *st {
                        if self.go(done | 1 << i, &s2, wins) {
                            return true;
                        }
                    } else {
                        let saved: Vec<Win> = wins.iter().map(|w| Win { idx: w.idx, stable: w.stable.clone(), seen: w.seen.clone(), keys: w.keys.clone() }).collect();
                        for w in wins.iter_mut() {
                            w.stable.retain(|p| s2.get(p.0) == Some(p.1));
                            for p in &s2.0 {
                                if !w.seen.contains(p) {
                                    w.seen.push(*p);
                                }
                                w.keys.insert(p.0);
                            }
                        }
                        if self.go(done | 1 << i, &s2, wins) {
                            return true;
                        }
                        *wins = saved;
                    }
                }
                Item::Begin(x) => {
                    wins.push(Win { idx: x, stable: st.0.clone(), seen: st.0.clone(), keys: st.0.iter().map(|p| p.0).collect() });
                    if self.go(done | 1 << i, st, wins) {
                        return true;
                    }
                    wins.retain(|w| w.idx != x);
                }
                Item::End(x) => {
                    let Some(p) = wins.iter().position(|w| w.idx == x) else { continue };
                    let w = wins.remove(p);
                    if self.window_ok(&w) && self.go(done | 1 << i, st, wins) {
                        return true;
                    }
                    wins.insert(p, w);
                }
            }
        }
        false
    }

    fn window_ok(&self, w: &Win) -> bool {
        match (&self.recs[w.idx].op, &self.recs[w.idx].res) {
            (Op::Range(a, b, n), Res::Scan(v)) => scan_ok(*a, *b, *n, v, &w.stable, &w.seen),
            (Op::Stats, Res::Stats(c)) => *c >= w.stable.len() && *c <= w.keys.len(),
            _ => false,
        }
    }
}

pub fn scan_ok(a: usize, b: usize, n: usize, v: &[(usize, usize)], stable: &[(usize, usize)], seen: &[(usize, usize)]) -> bool {
    if a >= b {
        return v.is_empty();
    }
    if v.len() > n || v.windows(2).any(|w| w[0].0 >= w[1].0) {
        return false;
    }
    if v.iter().any(|p| p.0 < a || p.0 >= b || !seen.contains(p)) {
        return false;
    }
    let full = v.len() == n;
    stable.iter().filter(|p| p.0 >= a && p.0 < b).all(|p| v.contains(p) || (full && v.last().map(|l| l.0 < p.0).unwrap_or(true)))
}

/// Ownership: every value stored is handed back once, by an overwrite, a removal, or the final contents.
/// Err describes what does not add up.
pub fn conserve(init: &Map, recs: &[Rec], fin: &Map) -> Result<(), String> {
    let mut bal: std::collections::BTreeMap<usize, i64> = Default::default();
    for p in &init.0 {
        *bal.entry(p.1).or_default() += 1;
    }
    for r in recs {
        let mut swap = |old: Option<usize>, new: Option<usize>| {
            if let Some(n) = new {
                *bal.entry(n).or_default() += 1;
            }
            if let Some(o) = old {
                *bal.entry(o).or_default() -= 1;
            }
        };
        match (&r.op, &r.res) {
            (Op::Ins(_, v), Res::Val(o)) => swap(*o, Some(*v)),
            (Op::Rem(_), Res::Val(o)) => swap(*o, None),
            (Op::Cas(_, o, n), Res::Cas(Ok(_))) => swap(Some(*o), *n),
            (Op::Cip(..), Res::Pair(Some((o, n)))) => swap(Some(*o), *n),
            (Op::Coi(_, f), Res::Val(o)) => swap(*o, Some(f.coi(*o))),
            _ => {}
        }
    }
    for p in &fin.0 {
        *bal.entry(p.1).or_default() -= 1;
    }
    for (v, b) in bal {
        if b > 0 {
            return Err(format!("value {v} was stored but never handed back"));
        }
        if b < 0 {
            return Err(format!("value {v} was handed back {} time(s) too often", -b));
        }
    }
    Ok(())
}
