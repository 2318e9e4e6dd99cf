//! Minimal stackful coroutines (x86_64 SysV).
use crate::sys;
use std::arch::global_asm;

global_asm!(
    ".globl mcrt_switch",
    "mcrt_switch:", // rdi = *mut save_sp, rsi = new sp
    "push rbp",
    "push rbx",
    "push r12",
    "push r13",
    "push r14",
    "push r15",
    "mov [rdi], rsp",
    "mov rsp, rsi",
    "pop r15",
    "pop r14",
    "pop r13",
    "pop r12",
    "pop rbx",
    "pop rbp",
    "ret",
    ".globl mcrt_tramp",
    "mcrt_tramp:",
    "mov rdi, r12",
    "call r13",
    "ud2",
);

extern "C" {
    pub fn mcrt_switch(save: *mut usize, to: usize);
    fn mcrt_tramp();
}

pub const STACK: usize = 512 << 10;

pub struct Stack {
    pub base: *mut u8,
}

impl Stack {
    pub fn new() -> Self {
        let base = crate::arena::map(0, STACK + 4096);
        unsafe { sys::mprotect(base as *mut _, 4096, sys::PROT_NONE) };
        Stack { base }
    }

    /// Prepares the stack so that switching to the returned sp calls `f(arg)`.
    pub fn prepare(&self, f: extern "C" fn(usize) -> !, arg: usize) -> usize {
        unsafe {
            let top = (self.base as usize + STACK + 4096) & !15;
            let sp = top - 16;
            let mut p = sp as *mut usize;
            *p = 0; // fake return address slot for unwinder termination
            p = p.sub(1);
            *p = mcrt_tramp as *const () as usize;
            // rbp rbx r12 r13 r14 r15, popped in reverse
            p = p.sub(1);
            *p = 0; // rbp
            p = p.sub(1);
            *p = 0; // rbx
            p = p.sub(1);
            *p = arg; // r12
            p = p.sub(1);
            *p = f as usize; // r13
            p = p.sub(1);
            *p = 0;
            p = p.sub(1);
            *p = 0;
            p as usize
        }
    }
}
