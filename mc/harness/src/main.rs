//! Worker of the model checker; `tools/check.py` drives it.
mod conc;
mod lin;
mod ops;
mod seeds;
mod seq;

use std::io::{BufRead, Write};

static mut LAST_PANIC: String = String::new();
#[allow(static_mut_refs)]
pub fn last_panic() -> String {
    unsafe { LAST_PANIC.clone() }
}
static mut PANIC_OURS: bool = false; // the last panic began in the harness
static mut NOW: String = String::new();

#[allow(static_mut_refs)]
fn on_violation(kind: &str, msg: &str) -> ! {
    let r = mcrt::rt();
    println!("V\t{}\t{}\t{}\t{}", kind, msg.replace(['\n', '\t'], " "), now_text(), if unsafe { SEQ } { String::new() } else { r.schedule() });
    let _ = std::io::stdout().flush();
    unsafe { mcrt::sys::_exit(1) }
}

static mut SEQ: bool = false;
#[allow(static_mut_refs)]
fn now_text() -> String {
    unsafe {
        if SEQ {
            format!("{} | {}", NOW, ops::trail_text())
        } else {
            NOW.clone()
        }
    }
}

extern "C" fn on_signal(sig: i32, info: *const u8, _: usize) {
    unsafe {
        if sig == 26 {
            static mut LAST: (u64, u32) = (0, 0);
            if LAST.0 == mcrt::PROGRESS {
                LAST.1 += 1;
                if LAST.1 >= 30 {
                    mcrt::SUT = false;
                    on_violation("hang", "no operation has returned for 30 s of CPU time");
                }
            } else {
                LAST = (mcrt::PROGRESS, 0);
            }
            return;
        }
        let in_sut = mcrt::SUT || mcrt::cur_thread() != usize::MAX;
        mcrt::SUT = false;
        let addr = *(info.add(16) as *const usize);
        let name = match sig {
            11 => "SIGSEGV",
            7 => "SIGBUS",
            6 => "SIGABRT",
            4 => "SIGILL",
            _ => "SIGFPE",
        };
        if in_sut {
            on_violation("crash", &format!("{name} in the code under test (fault address {addr:#x}) {}", last_panic()));
        }
        println!("E\tcrash of the harness: {name}");
        let _ = std::io::stdout().flush();
        mcrt::sys::_exit(3)
    }
}

fn install() {
    mcrt::init();
    mcrt::rt().on_violation = Some(on_violation);
    std::panic::set_hook(Box::new(|i| {
        let _h = mcrt::host();
        let m = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        unsafe { PANIC_OURS = i.location().is_some_and(|l| l.file().starts_with("src/") || l.file().contains("/mc/")) };
        let loc = i.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        unsafe { LAST_PANIC = format!("{m}{loc}") };
    }));
    unsafe {
        use mcrt::sys::*;
        let n = 256 << 10;
        let st = StackT { sp: mcrt::arena::map(0, n) as *mut _, flags: 0, size: n };
        sigaltstack(&st, std::ptr::null_mut());
        for s in [11, 7, 6, 4, 8, 26] {
            let a = SigAction { handler: on_signal as *const () as usize, mask: [0; 16], flags: SA_SIGINFO | SA_ONSTACK | SA_NODEFER, restorer: 0 };
            sigaction(s, &a, std::ptr::null_mut());
        }
        setitimer(1, &[1, 0, 1, 0], std::ptr::null_mut());
    }
}

#[allow(static_mut_refs)]
fn set_now(s: String) {
    unsafe { NOW = s }
}

fn main() {
    install();
    let a: Vec<String> = std::env::args().collect();
    let (engine, prop, tier) = (a[2].as_str(), a[3].as_str(), a[4].as_str());
    let thorough = tier == "thorough";
    let seeds = seeds::all();
    seq::sizes(); // resets the arena: not later
    let strategy = match std::env::var("MC_NAIVE") {
        Ok(b) => mcrt::Strategy::Naive(b.parse().unwrap()),
        _ => mcrt::Strategy::Dpor,
    };
    if engine == "seq" {
        unsafe { SEQ = true };
        let us = seq::units(&seeds, prop, thorough);
        let one = |i: usize| {
            set_now(us[i].name.clone());
            let t = std::time::Instant::now();
            let o = us[i].go(prop);
            unsafe { mcrt::PROGRESS += 1 };
            println!("D\t{i}\t{}\t{}\t{}\t{}\t{}\t{:.3}", o.states, o.transitions, o.traces, o.faults, o.scans, t.elapsed().as_secs_f64());
            let _ = std::io::stdout().flush();
        };
        match a[1].as_str() {
            "count" => println!("{}", us.len()),
            "list" => us.iter().enumerate().for_each(|(i, u)| println!("{i}\t{}", u.name)),
            "replay" => guarded(&one, a[5].parse().unwrap()),
            _ => feed(&one),
        }
        return;
    }
    match a[1].as_str() {
        "count" => match engine {
            "conc" => println!("{}", conc::scenarios(&seeds, prop, tier).len()),
            _ => {}
        },
        // those without bursts and without reads of overwritten values come first
        "base" => println!("{}", conc::scenarios(&seeds, prop, tier).iter().filter(|x| !x.bursts && x.weak.1 == 0).count()),
        "list" => {
            for (i, s) in conc::scenarios(&seeds, prop, tier).iter().enumerate() {
                println!("{i}\t{}", s.text(&seeds));
            }
        }
        "worker" | "replay" => {
            let cx = conc::Ctx { seeds: &seeds, prop, strategy };
            let sc = conc::scenarios(&seeds, prop, tier);
            let one = |i: usize| {
                set_now(sc[i].text(&seeds));
                let t = std::time::Instant::now();
                let o = conc::run_scen(&cx, &sc[i]);
                println!(
                    "D\t{i}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{:.3}\t{}",
                    o.st.executions, o.st.redundant, o.st.transitions, o.st.nodes, o.histories, o.outcomes, o.frees, o.st.spins,
                    o.bound, o.st.max_depth, t.elapsed().as_secs_f64(), o.st.restarts
                );
                let _ = std::io::stdout().flush();
            };
            if a[1] == "replay" {
                let ch = a.get(6).cloned().unwrap_or_default();
                if !ch.is_empty() {
                    mcrt::rt().set_schedule(&ch);
                    mcrt::rt().trace = std::env::var("MC_TRACE").is_ok();
                }
                guarded(&one, a[5].parse().unwrap());
                return;
            }
            feed(&one);
        }
        _ => {}
    }
}

/// A panic of the code under test that nothing caught is a violation; one of the harness is an error.
fn guarded(one: &dyn Fn(usize), i: usize) {
    if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| one(i))).is_err() {
        if unsafe { PANIC_OURS } {
            println!("E\tthe harness panicked: {}", last_panic());
            let _ = std::io::stdout().flush();
            unsafe { mcrt::sys::_exit(3) }
        }
        on_violation("panic", &format!("the code under test panicked: {}", last_panic()));
    }
}

fn feed(one: &dyn Fn(usize)) {
    for l in std::io::stdin().lock().lines() {
        if let Ok(i) = l.unwrap().trim().parse::<usize>() {
            guarded(one, i)
        }
    }
    if std::env::var("MC_GLOBALS").is_ok() {
        eprintln!("bytes of statics, thread-locals: {:?}", mcrt::globals::tracked());
    }
}
