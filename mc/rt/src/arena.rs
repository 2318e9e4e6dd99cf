//! Tree memory. Every block an `Allocator` hands to congee lives here, so an access is
//! "tree memory" iff its address is in the arena. Blocks are never reused within one execution:
//! an access to a freed or never-allocated arena address is always recognised.
use crate::sys;
use std::alloc::Layout;

pub const BASE: usize = 0x6000_0000_0000;
pub const LANES: usize = 6; // one bump lane per thread: addresses do not depend on the schedule
pub const LANE: usize = 16 << 20;
pub const SIZE: usize = LANES * LANE;
const RED: usize = 64;

pub const S_NONE: u8 = 0; // redzone / never allocated
pub const S_LIVE: u8 = 1;
pub const S_FREE: u8 = 2;

#[derive(Clone, Copy, Debug)]
pub struct Block {
    pub addr: usize,
    pub size: usize,
    pub align: usize,
    pub live: bool,
    pub lane: u8,
    pub tree: u8,
    pub unpublished: bool,
    pub op: u32,       // operation of the allocating thread
    pub foreign: bool, // another thread has accessed it
}

#[derive(Default, Clone)]
pub struct Snap {
    pub mem: Vec<u8>,
    shadow: Vec<u8>,
    blocks: Vec<Block>,
    live: usize,
    total: usize,
    globals: crate::globals::Saved,
}

pub struct Arena {
    pub shadow: *mut u8, // one state byte per 8 bytes
    pub owner: *mut u32, // block index + 1 per 8 bytes
    pub bump: [usize; LANES],
    pub blocks: Vec<Block>,
    pub live: usize,
    pub total: usize,
    pub reuse: bool, // hand freed blocks out again, the last one first
    spare: Vec<usize>,
}

pub fn map(base: usize, size: usize) -> *mut u8 {
    unsafe {
        let flags = sys::MAP_PRIVATE
            | sys::MAP_ANON
            | sys::MAP_NORESERVE
            | if base != 0 { sys::MAP_FIXED_NOREPLACE } else { 0 };
        let p = sys::mmap(
            base as *mut _,
            size,
            sys::PROT_RW,
            flags,
            -1,
            0,
        );
        if p == sys::MAP_FAILED || (base != 0 && p as usize != base) {
            eprintln!("mcrt: mmap failed");
            sys::_exit(3);
        }
        p as *mut u8
    }
}

impl Arena {
    pub fn new() -> Self {
        map(BASE, SIZE);
        Arena {
            shadow: map(0, SIZE / 8),
            owner: map(0, SIZE / 8 * 4) as *mut u32,
            bump: [0; LANES],
            blocks: Vec::new(),
            live: 0,
            total: 0,
            reuse: false,
            spare: Vec::new(),
        }
    }

    pub fn reset(&mut self) {
        for l in 0..LANES {
            let n = self.bump[l];
            unsafe {
                std::ptr::write_bytes(self.shadow.add(l * LANE / 8), 0, n / 8);
                std::ptr::write_bytes(self.owner.add(l * LANE / 8), 0, n / 8);
            }
            self.bump[l] = 0;
        }
        self.blocks.clear();
        self.reuse = false;
        self.spare.clear();
        self.live = 0;
        self.total = 0;
        crate::globals::reset();
    }

    /// Copies the state of lane 0; the other lanes must be empty.
    pub fn save(&self, s: &mut Snap) {
        let n = self.bump[0];
        unsafe {
            s.mem.clear();
            s.mem.extend_from_slice(std::slice::from_raw_parts(BASE as *const u8, n));
            s.shadow.clear();
            s.shadow.extend_from_slice(std::slice::from_raw_parts(self.shadow, n / 8));
        }
        s.blocks.clear();
        s.blocks.extend_from_slice(&self.blocks);
        s.live = self.live;
        s.total = self.total;
        crate::globals::save(&mut s.globals);
    }

    pub fn restore(&mut self, s: &Snap) {
        unsafe {
            for l in 1..LANES {
                let n = self.bump[l];
                if n > 0 {
                    std::ptr::write_bytes(self.shadow.add(l * LANE / 8), 0, n / 8);
                    std::ptr::write_bytes(self.owner.add(l * LANE / 8), 0, n / 8);
                    self.bump[l] = 0;
                }
            }
            let n = s.mem.len();
            std::ptr::copy_nonoverlapping(s.mem.as_ptr(), BASE as *mut u8, n);
            std::ptr::copy_nonoverlapping(s.shadow.as_ptr(), self.shadow, n / 8);
            if self.bump[0] > n {
                let d = (self.bump[0] - n) / 8;
                std::ptr::write_bytes(self.shadow.add(n / 8), 0, d);
                std::ptr::write_bytes(self.owner.add(n / 8), 0, d);
            } else if self.bump[0] < n {
                // the snapshot is longer than what is there: rebuild the owners
                for (i, b) in s.blocks.iter().enumerate() {
                    let off = b.addr - BASE;
                    for g in 0..(b.size + 7) / 8 {
                        *self.owner.add(off / 8 + g) = i as u32 + 1;
                    }
                }
            }
            self.bump[0] = n;
        }
        self.spare.clear();
        self.blocks.clear();
        self.blocks.extend_from_slice(&s.blocks);
        self.live = s.live;
        self.total = s.total;
        crate::globals::restore(&s.globals);
    }

    #[inline(always)]
    pub fn contains(addr: usize) -> bool {
        addr.wrapping_sub(BASE) < SIZE
    }

    pub fn nearly_full(&self, lane: usize, size: usize) -> bool {
        self.bump[lane] + size > LANE / 4 * 3
    }
    pub fn alloc(&mut self, layout: Layout, lane: usize, tree: u8) -> usize {
        let align = layout.align().max(8);
        if self.reuse {
            let fits = |&i: &usize| self.blocks[i].size == layout.size() && self.blocks[i].align == layout.align();
            if let Some(p) = self.spare.iter().rposition(fits) {
                let b = &mut self.blocks[self.spare.remove(p)];
                b.live = true;
                b.tree = tree;
                unsafe { std::ptr::write_bytes(self.shadow.add((b.addr - BASE) / 8), S_LIVE, (b.size + 7) / 8) };
                self.live += 1;
                self.total += 1;
                return b.addr;
            }
        }
        let start = (self.bump[lane] + RED + align - 1) / align * align;
        let size = (layout.size() + 7) / 8 * 8;
        let end = start + size + RED;
        if end > LANE {
            let live: usize = self.blocks.iter().filter(|b| b.live).map(|b| b.size).sum();
            if live > LANE / 2 {
                crate::engine::violation("memory", &format!("{} MB of memory in use after a handful of operations", live >> 20));
            }
            crate::engine::engine_error("arena lane exhausted");
        }
        self.bump[lane] = end;
        let off = lane * LANE + start;
        let addr = BASE + off;
        unsafe {
            // recycled from an earlier execution: make uninitialised reads conspicuous
            std::ptr::write_bytes(addr as *mut u8, 0xA5, size);
            std::ptr::write_bytes(self.shadow.add(off / 8), S_LIVE, size / 8);
            let id = self.blocks.len() as u32 + 1;
            for i in 0..size / 8 {
                *self.owner.add(off / 8 + i) = id;
            }
        }
        self.blocks.push(Block {
            addr,
            size: layout.size(),
            align: layout.align(),
            live: true,
            lane: lane as u8,
            tree,
            unpublished: true,
            op: 0,
            foreign: false,
        });
        self.live += 1;
        self.total += 1;
        addr
    }

    #[inline]
    pub fn state(&self, addr: usize, len: usize) -> u8 {
        let off = addr - BASE;
        let last = off + len.max(1) - 1;
        if last >= SIZE {
            return S_NONE;
        }
        let (a, b) = unsafe { (*self.shadow.add(off / 8), *self.shadow.add(last / 8)) };
        if a == S_LIVE && b == S_LIVE {
            S_LIVE
        } else if a == S_FREE || b == S_FREE {
            S_FREE
        } else {
            S_NONE
        }
    }

    #[inline]
    pub fn block_at(&self, addr: usize) -> Option<usize> {
        let id = unsafe { *self.owner.add((addr - BASE) / 8) };
        if id == 0 {
            None
        } else {
            Some(id as usize - 1)
        }
    }

    /// Checks a deallocation request; Err describes the violation.
    pub fn check_free(&self, addr: usize, layout: Layout, tree: u8) -> Result<usize, String> {
        if !Self::contains(addr) {
            return Err(format!("free of {addr:#x}, which the allocator never returned"));
        }
        match self.block_at(addr) {
            Some(i) if self.blocks[i].addr == addr => {
                let b = &self.blocks[i];
                if !b.live {
                    return Err(format!("double free of a {}-byte block", b.size));
                }
                if b.size != layout.size() || b.align != layout.align() {
                    return Err(format!(
                        "block allocated with size {} align {} freed with size {} align {}",
                        b.size,
                        b.align,
                        layout.size(),
                        layout.align()
                    ));
                }
                if b.tree != tree {
                    return Err(format!(
                        "block of allocator {} freed through allocator {}",
                        b.tree, tree
                    ));
                }
                Ok(i)
            }
            _ => Err(format!("free of {addr:#x}, which is no block start")),
        }
    }

    pub fn free(&mut self, i: usize) {
        let b = &mut self.blocks[i];
        b.live = false;
        let off = b.addr - BASE;
        let n = (b.size + 7) / 8;
        unsafe {
            std::ptr::write_bytes(self.shadow.add(off / 8), S_FREE, n);
            // conspicuous garbage for code that is not instrumented
            std::ptr::write_bytes(b.addr as *mut u8, 0xDD, b.size);
        }
        self.live -= 1;
        if self.reuse {
            self.spare.push(i);
        }
    }
}
