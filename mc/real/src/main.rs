//! congee over the real crossbeam-epoch: every short history, on one thread or handed to another one, after whose
//! drop no block may be left. What the model of the collector in `mc/epoch` cannot show: whether the tree asks the
//! real one to do its work.
use congee::{epoch, Allocator, Congee, DefaultAllocator};
use std::alloc::Layout;
use std::collections::{BTreeMap, HashMap};
use std::io::BufRead;
use std::ptr::NonNull;
use std::sync::{Arc, Mutex};

#[derive(Default)]
struct Book {
    live: HashMap<usize, Layout>,
    bad: Option<String>,
    freed: usize,
}
#[derive(Clone)]
struct Tracking(Arc<Mutex<Book>>);
impl Allocator for Tracking {
    fn allocate(&self, l: Layout) -> Result<NonNull<[u8]>, congee::verif::OOMError> {
        let p = DefaultAllocator {}.allocate(l)?;
        unsafe { std::ptr::write_bytes(p.as_ptr() as *mut u8, 0xA5, l.size()) };
        self.0.lock().unwrap().live.insert(p.as_ptr() as *mut u8 as usize, l);
        Ok(p)
    }
    unsafe fn deallocate(&self, p: NonNull<u8>, l: Layout) {
        let mut b = self.0.lock().unwrap();
        b.freed += 1;
        match b.live.remove(&(p.as_ptr() as usize)) {
            Some(was) if was == l => {
                std::ptr::write_bytes(p.as_ptr(), 0xDD, l.size());
                DefaultAllocator {}.deallocate(p, l)
            }
            Some(was) => b.bad = Some(format!("a block of {was:?} is given back as {l:?}")),
            None => b.bad = Some("a block is given back twice or was never allocated".into()),
        }
    }
}

#[derive(Clone, Copy, Debug)]
enum Op {
    Ins(usize),
    Rem(usize),
    Cas(usize),
    Scan,
}
type T = Congee<usize, usize, Tracking>;

fn run(t: &T, m: &mut BTreeMap<usize, usize>, op: Op, v: usize, g: &epoch::Guard) -> Result<(), String> {
    let (got, want) = match op {
        Op::Ins(k) => (t.insert(k, v, g).ok().flatten(), m.insert(k, v)),
        Op::Rem(k) => (t.remove(&k, g), m.remove(&k)),
        Op::Cas(k) => {
            let cur = m.remove(&k).unwrap_or(0);
            let r = t.compare_exchange(&k, &cur, None, g);
            (Some(r.is_ok() as usize), Some((cur != 0) as usize))
        }
        Op::Scan => {
            let mut b = [(0, 0); 600];
            let n = t.range(&0, &usize::MAX, &mut b, g);
            if !m.iter().map(|x| (*x.0, *x.1)).eq(b[..n].iter().cloned()) {
                return Err("a scan differs from the reference".into());
            }
            (None, None)
        }
    };
    if got != want {
        return Err(format!("{op:?} gives {got:?}, the reference gives {want:?}"));
    }
    Ok(())
}

struct Unit {
    name: String,
    build: Vec<usize>,
    alpha: Vec<Op>,
    mode: usize,
    depth: usize,
}
const MODES: [&str; 5] = [
    "a guard per operation",
    "one guard, released before the drop",
    "one guard, released after the drop",
    "operations by another thread that has ended",
    "operations by another thread, drop by a third one",
];

fn units(thorough: bool) -> Vec<Unit> {
    let base = 0x1122_3344_5566_7700usize;
    let mut o = Vec::new();
    for lvl in [0usize, 3, 6, 7] {
        for n in [0usize, 1, 4, 5, 16, 17, 48, 49] {
            if lvl == 3 && !thorough && n > 5 {
                continue;
            }
            let key = |i: usize| (base & !(0xff << (8 * (7 - lvl)))) | ((i * 5 + 1) << (8 * (7 - lvl)));
            let build: Vec<usize> = (0..n).map(key).collect();
            let mut alpha = vec![Op::Ins(key(50)), Op::Rem(key(50)), Op::Ins(key(2) ^ (1 << 16)), Op::Rem(key(2) ^ (1 << 16)), Op::Scan];
            if n > 0 {
                alpha.extend([Op::Rem(key(0)), Op::Cas(key(n - 1))]);
            }
            for mode in 0..MODES.len() {
                let threads = mode > 2;
                o.push(Unit {
                    name: format!("real collector: {n} keys differing in byte {lvl}; every sequence of operations, {}", MODES[mode]),
                    build: build.clone(),
                    alpha: alpha.clone(),
                    mode,
                    depth: if threads { 2 } else { 3 } + thorough as usize,
                });
            }
            // everything goes, so that many nodes wait for the collector
            for mode in 0..MODES.len() {
                o.push(Unit {
                    name: format!("real collector: {n} keys differing in byte {lvl}, all removed, {}", MODES[mode]),
                    build: build.clone(),
                    alpha: vec![],
                    mode,
                    depth: 0,
                });
            }
        }
    }
    // many nodes wait at once
    for mode in 0..MODES.len() {
        o.push(Unit {
            name: format!("real collector: a node with its five keys comes and goes 300 times, {}", MODES[mode]),
            build: vec![],
            alpha: vec![],
            mode,
            depth: 300,
        });
    }
    o
}

fn go(u: &Unit) -> Result<(u64, u64, u64), String> {
    let (mut states, mut ops, mut traces) = (0, 0, 0);
    let n = u.alpha.len().max(1);
    for code in 0..if u.alpha.is_empty() { 1 } else { n.pow(u.depth as u32) } {
        let mut seq = Vec::new();
        let mut c = code;
        for _ in 0..u.depth {
            if u.alpha.is_empty() {
                seq.extend((0..5).map(|i| Op::Ins(i)).chain((0..5).map(|i| Op::Rem(i))));
                continue;
            }
            seq.push(u.alpha[c % n]);
            c /= n;
        }
        if u.depth == 0 {
            seq = u.build.iter().map(|k| Op::Rem(*k)).collect();
        }
        let book = Arc::new(Mutex::new(Book::default()));
        let at = |m: String| format!("{m}; operations {seq:?}");
        let t = Arc::new(T::new(Tracking(book.clone())));
        let work = {
            let (t, build, seq, mode) = (t.clone(), u.build.clone(), seq.clone(), u.mode);
            move || -> Result<Option<epoch::Guard>, String> {
                let t = t; // gone when this returns
                let mut m = BTreeMap::new();
                let held = if mode == 1 || mode == 2 { Some(t.pin()) } else { None };
                for (i, &k) in build.iter().enumerate() {
                    let g = t.pin();
                    run(&t, &mut m, Op::Ins(k), i + 1, &g)?;
                }
                for (i, &op) in seq.iter().enumerate() {
                    let g = t.pin();
                    run(&t, &mut m, op, 1000 + i, &g)?;
                }
                Ok(held)
            }
        };
        ops += (u.build.len() + seq.len()) as u64;
        let mut held = None;
        if u.mode < 3 {
            held = work().map_err(&at)?;
            drop(work_done(u.mode, &mut held));
        } else {
            std::thread::spawn(move || work().map(|_| ())).join().map_err(|_| at("a thread panicked".into()))?.map_err(&at)?;
        }
        let t = Arc::try_unwrap(t).ok().expect("the only owner");
        if u.mode == 4 {
            std::thread::spawn(move || drop(t)).join().map_err(|_| at("the drop panicked".into()))?;
        } else {
            drop(t);
        }
        if let Some(g) = held {
            drop(g);
            // nobody else will do it
            for _ in 0..128 {
                epoch::pin().flush();
            }
        }
        let b = book.lock().unwrap();
        if let Some(m) = &b.bad {
            return Err(at(m.clone()));
        }
        if !b.live.is_empty() {
            return Err(at(format!("{} blocks were not given back after the drop, no guard being held", b.live.len())));
        }
        states += 1;
        traces += 1;
    }
    Ok((states, ops, traces))
}
/// The guard that has to go before the drop.
fn work_done(mode: usize, held: &mut Option<epoch::Guard>) -> Option<epoch::Guard> {
    if mode == 1 {
        held.take()
    } else {
        None
    }
}

/// Odd while a unit runs.
static DONE: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

/// Whether something is wrong.
fn one(us: &[Unit], i: usize) -> bool {
    let t0 = std::time::Instant::now();
    DONE.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    let r = std::panic::catch_unwind(|| go(&us[i]));
    DONE.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    match r {
        Ok(Ok((s, o, t))) => {
            println!("D\t{i}\t{s}\t{o}\t{t}\t0\t0\t{:.3}", t0.elapsed().as_secs_f64());
            false
        }
        Ok(Err(m)) => {
            println!("V\treal\t{m}\t{}\t", us[i].name);
            true
        }
        Err(_) => {
            println!("V\treal\tpanic\t{}\t", us[i].name);
            true
        }
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let a: Vec<String> = std::env::args().collect();
    let us = units(a.iter().any(|x| x == "thorough"));
    match a[1].as_str() {
        "count" => println!("{}", us.len()),
        "list" => us.iter().enumerate().for_each(|(i, u)| println!("{i}\t{}", u.name)),
        "replay" => std::process::exit(one(&us, a[5].parse().unwrap()) as i32),
        "worker" => {
            std::thread::spawn(|| {
                let mut last = u64::MAX;
                loop {
                    let now = DONE.load(std::sync::atomic::Ordering::SeqCst);
                    if now == last && now % 2 == 1 {
                        println!("V\treal\tno history has ended for 120 s\treal collector\t");
                        std::process::exit(1);
                    }
                    last = now;
                    std::thread::sleep(std::time::Duration::from_secs(120));
                }
            });
            for l in std::io::stdin().lock().lines() {
                one(&us, l.unwrap().trim().parse().unwrap());
            }
        }
        _ => panic!(),
    }
}
