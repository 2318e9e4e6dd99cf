//! The few libc entry points needed (x86_64 Linux), declared here to build without dependencies.
use std::ffi::c_void;
extern "C" {
    pub fn mmap(a: *mut c_void, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut c_void;
    pub fn mprotect(a: *mut c_void, n: usize, prot: i32) -> i32;
    pub fn _exit(code: i32) -> !;
    pub fn sigaltstack(ss: *const StackT, old: *mut StackT) -> i32;
    pub fn sigaction(sig: i32, act: *const SigAction, old: *mut SigAction) -> i32;
    pub fn setitimer(which: i32, new: *const [i64; 4], old: *mut [i64; 4]) -> i32;
    pub fn setrlimit(which: i32, lim: *const [u64; 2]) -> i32;
    pub fn write(fd: i32, p: *const c_void, n: usize) -> isize;
}
pub const PROT_NONE: i32 = 0;
pub const PROT_RW: i32 = 3;
pub const MAP_PRIVATE: i32 = 2;
pub const MAP_ANON: i32 = 0x20;
pub const MAP_NORESERVE: i32 = 0x4000;
pub const MAP_FIXED_NOREPLACE: i32 = 0x100000;
pub const MAP_FAILED: *mut c_void = !0usize as *mut c_void;

#[repr(C)]
pub struct StackT {
    pub sp: *mut c_void,
    pub flags: i32,
    pub size: usize,
}
#[repr(C)]
pub struct SigAction {
    pub handler: usize,
    pub mask: [u64; 16],
    pub flags: i32,
    pub restorer: usize,
}
pub const SA_SIGINFO: i32 = 4;
pub const SA_ONSTACK: i32 = 0x0800_0000;
pub const SA_NODEFER: i32 = 0x4000_0000;

// ---- futex: how the standard library's locks wait. Defined here, it takes precedence over libc's.
std::arch::global_asm!(
    ".globl syscall",
    "syscall:",
    "cmp rdi, 202", // SYS_futex
    "je mcrt_futex",
    "mov rax, rdi",
    "mov rdi, rsi",
    "mov rsi, rdx",
    "mov rdx, rcx",
    "mov r10, r8",
    "mov r8, r9",
    "mov r9, [rsp + 8]",
    "syscall",
    "cmp rax, -4095",
    "jae 2f",
    "ret",
    "2:",
    "neg rax",
    "push rax",
    "call __errno_location@PLT",
    "pop rcx",
    "mov [rax], ecx",
    "mov rax, -1",
    "ret",
);
extern "C" {
    fn __errno_location() -> *mut i32;
}

#[no_mangle]
unsafe extern "C" fn mcrt_futex(_nr: i64, addr: usize, op: i32, val: u32, timeout: *const u8) -> i64 {
    match op & 0x7f {
        // FUTEX_WAIT, FUTEX_WAIT_BITSET
        0 | 9 => {
            if *(addr as *const u32) != val {
                *__errno_location() = 11; // EAGAIN
                return -1;
            }
            if timeout.is_null() {
                crate::engine::wait_for_change(addr);
                0
            } else {
                *__errno_location() = 110; // ETIMEDOUT
                -1
            }
        }
        _ => 0, // waking: the write that preceded it has done so
    }
}
