//! Starting trees, generated systematically: one per node size boundary, tree shape and removal history.
use crate::ops::Op;

#[derive(Clone, Debug)]
pub struct Seed {
    pub name: String,
    pub build: Vec<Op>,
    /// keys worth operating on, most interesting first; present and absent ones
    pub present: Vec<usize>,
    pub absent: Vec<usize>,
    /// bounds worth scanning between
    pub bounds: Vec<usize>,
}

pub const P: [u8; 8] = [0x11, 0x22, 0x33, 0x44, 0x55, 0x66, 0x77, 0];

pub fn k(b: [u8; 8]) -> usize {
    usize::from_be_bytes(b)
}
/// The base key with some bytes replaced.
pub fn with(ch: &[(usize, u8)]) -> usize {
    let mut b = P;
    for &(i, v) in ch {
        b[i] = v;
    }
    k(b)
}
/// `i`-th of `n` bytes spread over 1..=250
pub fn spread(i: usize, n: usize) -> u8 {
    if n <= 1 {
        return 100;
    }
    (5 + i * 240 / (n - 1)) as u8
}

pub fn val(i: usize) -> usize {
    100 + i
}

fn ins_all(keys: &[usize]) -> Vec<Op> {
    keys.iter().enumerate().map(|(i, &x)| Op::Ins(x, val(i))).collect()
}

/// One leaf with `n` keys, level 7 below the root.
pub fn leaf(n: usize) -> Seed {
    let keys: Vec<usize> = (0..n).map(|i| with(&[(7, spread(i, n))])).collect();
    let present = if n <= 4 { keys.clone() } else { vec![keys[0], keys[n - 1], keys[n / 2]] };
    let mut absent = vec![
        with(&[(7, 3)]),               // below all
        with(&[(7, 255)]),             // above all
        with(&[(7, 101)]),             // between
        with(&[(6, 0x78), (7, 7)]),    // splits just above the leaf
        with(&[(3, 0x40), (7, 7)]),    // splits in the middle of the prefix, smaller
        with(&[(0, 0x99)]),            // new child of the root
    ];
    absent.retain(|x| !keys.contains(x));
    Seed {
        name: format!("leaf{n}"),
        build: ins_all(&keys),
        present,
        absent,
        bounds: vec![0, with(&[(7, 0)]), with(&[(7, 50)]), with(&[(7, 100)]), with(&[(7, 255)]), with(&[(6, 0x79)]), usize::MAX],
    }
}

/// One inner node at byte `lvl` with `n` leaves of one key.
pub fn inner(n: usize, lvl: usize) -> Seed {
    let keys: Vec<usize> = (0..n).map(|i| with(&[(lvl, spread(i, n)), (7, 1)])).collect();
    let present = if n <= 4 { keys.clone() } else { vec![keys[0], keys[n - 1], keys[n / 2]] };
    let mut absent = vec![
        with(&[(lvl, 3), (7, 1)]),
        with(&[(lvl, 255), (7, 1)]),
        with(&[(lvl, 101), (7, 1)]),
        keys.first().copied().unwrap_or(0) + 1, // second key of the first leaf
        keys.last().copied().unwrap_or(0) - 1,
        with(&[(lvl - 1, 0xee), (7, 1)]), // splits above the inner node
        with(&[(0, 0x99)]),
    ];
    if lvl < 6 {
        // splits the long prefix of the first leaf
        absent.insert(3, with(&[(lvl, spread(0, n)), (6, 0x10), (7, 1)]));
    }
    absent.retain(|x| !keys.contains(x));
    let b0 = with(&[(lvl, spread(0, n)), (7, 1)]);
    Seed {
        name: format!("inner{n}@{lvl}"),
        build: ins_all(&keys),
        present,
        absent,
        bounds: vec![0, b0, b0 + 1, with(&[(lvl, 101), (7, 0)]), keys.last().copied().unwrap_or(0), keys.last().copied().unwrap_or(0) + 1, usize::MAX],
    }
}

/// `outer` nodes stacked: keys diverging at several depths.
pub fn chain(lv: &[usize]) -> Seed {
    let mut keys = vec![with(&[(7, 10)])];
    for &l in lv {
        keys.push(with(&[(l, 0xa0), (7, 10)]));
    }
    let absent = vec![
        with(&[(7, 11)]),
        with(&[(lv[0], 0xa1), (7, 10)]),
        with(&[(lv[0], 0xa0), (7, 11)]),
        with(&[(lv[lv.len() - 1], 0xa1), (7, 10)]),
        with(&[(1, 0x20), (7, 10)]),
        with(&[(0, 0x99)]),
    ];
    let mut bounds = vec![0, usize::MAX];
    bounds.extend(keys.iter().map(|x| x + 1));
    bounds.extend(keys.iter().cloned());
    bounds.sort();
    Seed { name: format!("chain{lv:?}").replace(' ', ""), build: ins_all(&keys), present: keys, absent, bounds }
}

/// A leaf or inner node grown to `n`, then reduced to the keys at `keep`.
pub fn shrunk(n: usize, keep: &[usize], lvl: usize) -> Seed {
    let keys: Vec<usize> = (0..n)
        .map(|i| if lvl == 7 { with(&[(7, spread(i, n))]) } else { with(&[(lvl, spread(i, n)), (7, 1)]) })
        .collect();
    let mut build = ins_all(&keys);
    for (i, x) in keys.iter().enumerate() {
        if !keep.contains(&i) {
            build.push(Op::Rem(*x));
        }
    }
    let present: Vec<usize> = keep.iter().map(|&i| keys[i]).collect();
    let gone: Vec<usize> = (0..n).filter(|i| !keep.contains(i)).map(|i| keys[i]).collect();
    let mut absent: Vec<usize> = Vec::new();
    for x in [gone.first(), gone.last()].into_iter().flatten() {
        if !absent.contains(x) {
            absent.push(*x);
        }
    }
    absent.push(with(&[(lvl, 254), (7, if lvl == 7 { 254 } else { 1 })]));
    absent.push(with(&[(lvl - 1, 0xee), (7, 1)]));
    absent.push(with(&[(0, 0x99)]));
    let mut bounds = vec![0, usize::MAX, with(&[(7, 0)])];
    bounds.extend(present.iter().cloned());
    bounds.extend(present.iter().map(|x| x + 1));
    bounds.extend(gone.first().cloned());
    bounds.sort();
    bounds.dedup();
    Seed {
        name: format!("shrunk{n}to{keep:?}@{lvl}").replace(' ', ""),
        build,
        present: present.into_iter().take(4).collect(),
        absent,
        bounds,
    }
}

pub fn empty() -> Seed {
    Seed {
        name: "empty".into(),
        build: vec![],
        present: vec![],
        absent: vec![
            with(&[(7, 10)]),
            with(&[(7, 11)]),
            with(&[(6, 0x10), (7, 1)]),
            with(&[(2, 0x10), (7, 1)]),
            with(&[(0, 0x99)]),
            0,
            usize::MAX,
        ],
        bounds: vec![0, with(&[(7, 10)]), with(&[(7, 12)]), usize::MAX],
    }
}

/// Everything was removed again.
pub fn emptied() -> Seed {
    let mut s = chain(&[6, 4]);
    for x in s.present.clone() {
        s.build.push(Op::Rem(x));
    }
    s.name = "emptied".into();
    let mut a = s.present.clone();
    a.extend(s.absent.iter().take(2));
    s.absent = a;
    s.present = vec![];
    s
}

/// Two children of the root, one of them a subtree, extreme bytes.
pub fn extremes() -> Seed {
    let keys = vec![0usize, usize::MAX, 255, usize::MAX - 255, 1 << 63];
    Seed {
        name: "extremes".into(),
        build: ins_all(&keys),
        present: keys,
        absent: vec![1, usize::MAX - 1, 256, (1 << 63) + 1, 1 << 62, 0xff00],
        bounds: vec![0, 1, 255, 256, 1 << 63, (1 << 63) + 1, usize::MAX - 255, usize::MAX],
    }
}

pub fn all() -> Vec<Seed> {
    let mut v = vec![empty(), emptied(), extremes()];
    for n in [1, 2, 3, 4, 5, 15, 16, 17, 47, 48, 49] {
        v.push(leaf(n));
    }
    for n in [1, 2, 4, 5, 16, 17, 48, 49] {
        v.push(inner(n, 6));
    }
    for n in [2, 4, 16] {
        v.push(inner(n, 3));
    }
    v.push(chain(&[6]));
    v.push(chain(&[6, 4]));
    v.push(chain(&[6, 5, 4, 3, 2, 1]));
    v.push(chain(&[6, 0]));
    v.push(chain(&[3, 1]));
    v.push(shrunk(4, &[0], 7));
    v.push(shrunk(4, &[0, 3], 7));
    v.push(shrunk(5, &[4], 7));
    v.push(shrunk(5, &[0, 2], 7));
    v.push(shrunk(17, &[0], 7));
    v.push(shrunk(17, &[3, 16], 7));
    v.push(shrunk(49, &[48], 7));
    v.push(shrunk(4, &[1], 6));
    v.push(shrunk(5, &[1], 6));
    v.push(shrunk(5, &[0, 4], 6));
    v.push(shrunk(17, &[1], 6));
    v.push(shrunk(17, &[0, 16], 6));
    v.push(shrunk(49, &[1], 6));
    v.push(shrunk(17, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 16], 7)); // N48 with a free slot
    v.push(shrunk(16, &[0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 13, 14, 15], 7)); // N16 with a free slot
    v
}
