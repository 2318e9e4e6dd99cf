//! The callbacks LLVM's ThreadSanitizer pass emits. Small assembly stubs add the call site.
use crate::engine::{access, access_rmw, fence, K_READ, K_WRITE};
use crate::weak::mode;
use std::arch::global_asm;

macro_rules! plain {
    ($($name:literal $len:literal $w:literal),* $(,)?) => {
        $( global_asm!(
            concat!(".globl ", $name),
            concat!($name, ":"),
            "mov rdx, [rsp]",
            concat!("mov esi, ", $len),
            concat!("jmp ", "mcrt_plain_", $w),
        ); )*
    };
}
plain!(
    "__tsan_read1" "1" "r", "__tsan_read2" "2" "r", "__tsan_read4" "4" "r", "__tsan_read8" "8" "r", "__tsan_read16" "16" "r",
    "__tsan_write1" "1" "w", "__tsan_write2" "2" "w", "__tsan_write4" "4" "w", "__tsan_write8" "8" "w", "__tsan_write16" "16" "w",
    "__tsan_unaligned_read2" "2" "r", "__tsan_unaligned_read4" "4" "r", "__tsan_unaligned_read8" "8" "r", "__tsan_unaligned_read16" "16" "r",
    "__tsan_unaligned_write2" "2" "w", "__tsan_unaligned_write4" "4" "w", "__tsan_unaligned_write8" "8" "w", "__tsan_unaligned_write16" "16" "w",
    "__tsan_volatile_read1" "1" "r", "__tsan_volatile_read2" "2" "r", "__tsan_volatile_read4" "4" "r", "__tsan_volatile_read8" "8" "r", "__tsan_volatile_read16" "16" "r",
    "__tsan_volatile_write1" "1" "w", "__tsan_volatile_write2" "2" "w", "__tsan_volatile_write4" "4" "w", "__tsan_volatile_write8" "8" "w", "__tsan_volatile_write16" "16" "w",
    "__tsan_read_write1" "1" "w", "__tsan_read_write2" "2" "w", "__tsan_read_write4" "4" "w", "__tsan_read_write8" "8" "w", "__tsan_read_write16" "16" "w",
);

#[no_mangle]
extern "C" fn mcrt_plain_r(addr: usize, len: usize, pc: usize) {
    access(addr, len, K_READ, false, 0, pc)
}
#[no_mangle]
extern "C" fn mcrt_plain_w(addr: usize, len: usize, pc: usize) {
    access(addr, len, K_WRITE, false, 0, pc)
}

#[no_mangle]
extern "C" fn __tsan_func_entry(_: usize) {}
#[no_mangle]
extern "C" fn __tsan_func_exit() {}
#[no_mangle]
extern "C" fn __tsan_init() {}
#[no_mangle]
extern "C" fn __tsan_vptr_read(_: usize) {}
#[no_mangle]
extern "C" fn __tsan_vptr_update(_: usize, _: usize) {}
#[no_mangle]
extern "C" fn __tsan_ignore_thread_begin() {}
#[no_mangle]
extern "C" fn __tsan_ignore_thread_end() {}
#[no_mangle]
extern "C" fn __tsan_atomic_thread_fence(mo: i32) {
    fence(mo)
}
#[no_mangle]
extern "C" fn __tsan_atomic_signal_fence(_: i32) {}
#[no_mangle]
extern "C" fn __tsan_read_range(a: usize, n: usize) {
    if n > 0 {
        access(a, n, K_READ, false, 0, 0)
    }
}
#[no_mangle]
extern "C" fn __tsan_write_range(a: usize, n: usize) {
    if n > 0 {
        access(a, n, K_WRITE, false, 0, 0)
    }
}

unsafe fn copy(dst: usize, src: usize, n: usize, pc: usize) {
    use crate::arena::Arena;
    if !Arena::contains(dst) && !Arena::contains(src) {
        if !crate::globals::in_data(dst) && !crate::globals::in_data(src) {
            crate::globals::note(dst, n);
            std::ptr::copy(src as *const u8, dst as *mut u8, n);
            return;
        }
    }
    // element by element, in the direction that is right for overlapping ranges
    let step = |o: usize, c: usize| {
        access(src + o, c, K_READ, false, 0, pc);
        let mut buf = [0u8; 8];
        std::ptr::copy_nonoverlapping((src + o) as *const u8, buf.as_mut_ptr(), c);
        access(dst + o, c, K_WRITE, false, 0, pc + 1);
        std::ptr::copy_nonoverlapping(buf.as_ptr(), (dst + o) as *mut u8, c);
    };
    if dst <= src || dst >= src + n {
        let mut o = 0;
        while o < n {
            let c = (n - o).min(8);
            step(o, c);
            o += c;
        }
    } else {
        let mut e = n;
        while e > 0 {
            let c = e.min(8);
            e -= c;
            step(e, c);
        }
    }
}

macro_rules! with_pc {
    ($($name:expr, $target:expr, $reg:literal;)*) => {
        $( global_asm!(
            concat!(".globl ", $name),
            concat!($name, ":"),
            concat!("mov ", $reg, ", [rsp]"),
            concat!("jmp ", $target),
        ); )*
    };
}
with_pc!(
    "__tsan_memcpy", "mcrt_memcpy", "rcx";
    "__tsan_memmove", "mcrt_memcpy", "rcx";
    "__tsan_memset", "mcrt_memset", "rcx";
);

#[no_mangle]
unsafe extern "C" fn mcrt_memcpy(dst: usize, src: usize, n: usize, pc: usize) -> usize {
    copy(dst, src, n, pc);
    dst
}
#[no_mangle]
unsafe extern "C" fn mcrt_memset(dst: usize, v: i32, n: usize, pc: usize) -> usize {
    if crate::arena::Arena::contains(dst) || crate::globals::in_data(dst) {
        let mut o = 0;
        while o < n {
            let c = (n - o).min(8);
            access(dst + o, c, K_WRITE, false, 0, pc);
            std::ptr::write_bytes((dst + o) as *mut u8, v as u8, c);
            o += c;
        }
    } else {
        crate::globals::note(dst, n);
        std::ptr::write_bytes(dst as *mut u8, v as u8, n);
    }
    dst
}

macro_rules! atomics {
    ($($bits:literal $ty:ty, $load:ident $store:ident $xchg:ident $add:ident $sub:ident $and:ident $or:ident $xor:ident $nand:ident $casv:ident $cass:ident $casw:ident;)*) => { $(
        with_pc!(
            concat!("__tsan_atomic", $bits, "_load"), concat!("mcrt_", stringify!($load)), "rdx";
            concat!("__tsan_atomic", $bits, "_store"), concat!("mcrt_", stringify!($store)), "rcx";
            concat!("__tsan_atomic", $bits, "_exchange"), concat!("mcrt_", stringify!($xchg)), "rcx";
            concat!("__tsan_atomic", $bits, "_fetch_add"), concat!("mcrt_", stringify!($add)), "rcx";
            concat!("__tsan_atomic", $bits, "_fetch_sub"), concat!("mcrt_", stringify!($sub)), "rcx";
            concat!("__tsan_atomic", $bits, "_fetch_and"), concat!("mcrt_", stringify!($and)), "rcx";
            concat!("__tsan_atomic", $bits, "_fetch_or"), concat!("mcrt_", stringify!($or)), "rcx";
            concat!("__tsan_atomic", $bits, "_fetch_xor"), concat!("mcrt_", stringify!($xor)), "rcx";
            concat!("__tsan_atomic", $bits, "_fetch_nand"), concat!("mcrt_", stringify!($nand)), "rcx";
            concat!("__tsan_atomic", $bits, "_compare_exchange_val"), concat!("mcrt_", stringify!($casv)), "r9";
            concat!("__tsan_atomic", $bits, "_compare_exchange_strong"), concat!("mcrt_", stringify!($cass)), "r9";
            concat!("__tsan_atomic", $bits, "_compare_exchange_weak"), concat!("mcrt_", stringify!($casw)), "r9";
        );
        #[export_name = concat!("mcrt_", stringify!($load))]
        unsafe extern "C" fn $load(p: *mut $ty, mo: i32, pc: usize) -> $ty {
            access(p as usize, std::mem::size_of::<$ty>(), K_READ, true, mode(mo), pc);
            p.read()
        }
        #[export_name = concat!("mcrt_", stringify!($store))]
        unsafe extern "C" fn $store(p: *mut $ty, v: $ty, mo: i32, pc: usize) {
            access(p as usize, std::mem::size_of::<$ty>(), K_WRITE, true, mode(mo), pc);
            p.write(v)
        }
        atomics!(@rmw $ty, $xchg, |_o, v| v);
        atomics!(@rmw $ty, $add, |o, v| o.wrapping_add(v));
        atomics!(@rmw $ty, $sub, |o, v| o.wrapping_sub(v));
        atomics!(@rmw $ty, $and, |o, v| o & v);
        atomics!(@rmw $ty, $or, |o, v| o | v);
        atomics!(@rmw $ty, $xor, |o, v| o ^ v);
        atomics!(@rmw $ty, $nand, |o, v| !(o & v));
        #[export_name = concat!("mcrt_", stringify!($casv))]
        unsafe extern "C" fn $casv(p: *mut $ty, c: $ty, v: $ty, mo: i32, fmo: i32, pc: usize) -> $ty {
            access_rmw(p as usize, std::mem::size_of::<$ty>(), mode(mo), mode(fmo), pc, || p.read() == c);
            let o = p.read();
            if o == c { p.write(v) }
            o
        }
        #[export_name = concat!("mcrt_", stringify!($cass))]
        unsafe extern "C" fn $cass(p: *mut $ty, c: *mut $ty, v: $ty, mo: i32, fmo: i32, pc: usize) -> i32 {
            let e = c.read();
            let o = $casv(p, e, v, mo, fmo, pc);
            c.write(o);
            (o == e) as i32
        }
        #[export_name = concat!("mcrt_", stringify!($casw))]
        unsafe extern "C" fn $casw(p: *mut $ty, c: *mut $ty, v: $ty, mo: i32, fmo: i32, pc: usize) -> i32 {
            $cass(p, c, v, mo, fmo, pc)
        }
    )* };
    (@rmw $ty:ty, $name:ident, $f:expr) => {
        #[export_name = concat!("mcrt_", stringify!($name))]
        unsafe extern "C" fn $name(p: *mut $ty, v: $ty, mo: i32, pc: usize) -> $ty {
            access_rmw(p as usize, std::mem::size_of::<$ty>(), mode(mo), 0, pc, || true);
            let o = p.read();
            let f: fn($ty, $ty) -> $ty = $f;
            p.write(f(o, v));
            o
        }
    };
}
atomics! {
    "8" u8, a8_load a8_store a8_xchg a8_add a8_sub a8_and a8_or a8_xor a8_nand a8_casv a8_cass a8_casw;
    "16" u16, a16_load a16_store a16_xchg a16_add a16_sub a16_and a16_or a16_xor a16_nand a16_casv a16_cass a16_casw;
    "32" u32, a32_load a32_store a32_xchg a32_add a32_sub a32_and a32_or a32_xor a32_nand a32_casv a32_cass a32_casw;
    "64" u64, a64_load a64_store a64_xchg a64_add a64_sub a64_and a64_or a64_xor a64_nand a64_casv a64_cass a64_casw;
}

// Waiting for another thread by yielding or sleeping: the explorer decides who runs, so neither the
// processor nor time is given away.
#[no_mangle]
extern "C" fn sched_yield() -> i32 {
    0
}
#[no_mangle]
extern "C" fn nanosleep(_: usize, _: usize) -> i32 {
    0
}
#[no_mangle]
extern "C" fn clock_nanosleep(_: i32, _: i32, _: usize, _: usize) -> i32 {
    0
}
