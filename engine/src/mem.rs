//! Flat memory: a lazily populated host mapping plus a shadow byte per byte
//! (0 = not accessible, 1 = concrete, 2 = symbolic).  Heap memory is never reused.
use std::collections::HashMap;
extern "C" { fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8; }

pub const BASE: u64 = 0x2000_0000_0000;
pub const SIZE: u64 = 24 << 30;
const GLOBAL0: u64 = BASE + 4096;
const GLOBAL1: u64 = BASE + (512 << 20);
const STACK0: u64 = GLOBAL1;
const STACK1: u64 = BASE + (1 << 30);
const HEAP0: u64 = BASE + (1 << 30);
const SHADOW: u64 = 0x3000_0000_0000;

pub struct Mem {
    gp: u64,
    pub sp: u64,
    hp: u64,
    pub sym: HashMap<u64, u32>, // address -> 8 bit expression
    pub allocs: HashMap<u64, u64>,
    pub live_bytes: u64,
    /// heap operations so far (allocations + frees)
    pub ops: u64,
}
#[inline(always)] fn ptr(a: u64) -> *mut u8 { a as *mut u8 }
#[inline(always)] fn sh(a: u64) -> *mut u8 { (a - BASE + SHADOW) as *mut u8 }

impl Mem {
    pub fn new() -> Mem {
        unsafe {
            for base in [BASE, SHADOW] {
                // PROT_READ|WRITE, PRIVATE|ANON|NORESERVE|FIXED_NOREPLACE
                let r = mmap(base as *mut u8, SIZE as usize, 3, 0x02 | 0x20 | 0x4000 | 0x100000, -1, 0);
                assert_eq!(r as u64, base, "mmap of the arena failed");
            }
        }
        Mem { gp: GLOBAL0, sp: STACK0 + 64, hp: HEAP0 + 64, sym: HashMap::new(), allocs: HashMap::new(), live_bytes: 0, ops: 0 }
    }
    fn open(&mut self, a: u64, n: u64) { unsafe { std::ptr::write_bytes(sh(a), 1, n as usize); } }
    fn close(&mut self, a: u64, n: u64) { unsafe { std::ptr::write_bytes(sh(a), 0, n as usize); } }
    pub fn alloc_global(&mut self, n: u64, al: u64) -> u64 {
        let a = (self.gp + al - 1) & !(al - 1);
        self.gp = a + n + 16;
        assert!(self.gp < GLOBAL1);
        self.open(a, n);
        a
    }
    pub fn alloc_heap(&mut self, n: u64, al: u64) -> Option<u64> {
        let al = al.max(16);
        let a = (self.hp + 32 + al - 1) & !(al - 1);
        if n > (4 << 30) || a + n + 64 > BASE + SIZE { return None; }
        self.hp = a + n;
        self.open(a, n);
        self.allocs.insert(a, n);
        self.live_bytes += n;
        self.ops += 1;
        Some(a)
    }
    /// returns false on double/invalid free
    pub fn free_heap(&mut self, a: u64) -> bool {
        match self.allocs.remove(&a) {
            Some(n) => { self.ops += 1; self.live_bytes -= n; self.close(a, n); true }
            None => false,
        }
    }
    pub fn alloca(&mut self, n: u64, al: u64) -> u64 {
        let a = (self.sp + 16 + al - 1) & !(al - 1);
        self.sp = a + n;
        assert!(self.sp < STACK1, "interpreted stack overflow");
        self.open(a, n);
        a
    }
    /// start of the stack of background thread k
    pub fn thread_stack(&self, k: usize) -> u64 { let a = STACK0 + ((192 + 16 * k as u64) << 20); assert!(a + (16 << 20) <= STACK1, "too many threads"); a }
    pub fn pop_stack(&mut self, sp: u64) {
        if self.sp > sp { let n = self.sp - sp; self.close(sp, n); self.sp = sp; }
    }
    #[inline(always)] pub fn inside(a: u64, n: u64) -> bool { a >= BASE && a + n <= BASE + SIZE && a + n >= a }
    /// 0 = invalid access, 1 = all concrete, 2 = some symbolic
    #[inline(always)]
    pub fn state(&self, a: u64, n: u64) -> u8 {
        if !Self::inside(a, n) { return if n == 0 { 1 } else { 0 }; }
        unsafe {
            match n {
                8 => { let s = (sh(a) as *const u64).read_unaligned(); if s == 0x0101010101010101 { return 1; } }
                4 => { let s = (sh(a) as *const u32).read_unaligned(); if s == 0x01010101 { return 1; } }
                1 => return *sh(a),
                2 => { let s = (sh(a) as *const u16).read_unaligned(); if s == 0x0101 { return 1; } }
                _ => {}
            }
            let s = std::slice::from_raw_parts(sh(a), n as usize);
            let mut r = 1;
            for &b in s { if b == 0 { return 0; } if b == 2 { r = 2; } }
            r
        }
    }
    #[inline(always)] pub fn rd(&self, a: u64, n: u64) -> u64 {
        unsafe { match n { 8 => (ptr(a) as *const u64).read_unaligned(), 4 => (ptr(a) as *const u32).read_unaligned() as u64, 1 => *ptr(a) as u64, 2 => (ptr(a) as *const u16).read_unaligned() as u64,
            _ => { let mut r = 0u64; for i in 0..n { r |= (*ptr(a + i) as u64) << (8 * i); } r } } }
    }
    #[inline(always)] pub fn wr(&mut self, a: u64, n: u64, v: u64) {
        unsafe { match n { 8 => (ptr(a) as *mut u64).write_unaligned(v), 4 => (ptr(a) as *mut u32).write_unaligned(v as u32), 1 => *ptr(a) = v as u8, 2 => (ptr(a) as *mut u16).write_unaligned(v as u16),
            _ => for i in 0..n { *ptr(a + i) = (v >> (8 * i)) as u8; } } }
    }
    pub fn mark_concrete(&mut self, a: u64, n: u64) { self.open(a, n); }
    pub fn is_sym(&self, a: u64) -> bool { unsafe { *sh(a) == 2 } }
    pub fn set_sym(&mut self, a: u64, e: u32) { unsafe { *sh(a) = 2; } self.sym.insert(a, e); }
    pub fn poke_bytes(&mut self, a: u64, b: &[u8]) { unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), ptr(a), b.len()); } }
    pub fn bytes(&self, a: u64, n: u64) -> &[u8] { unsafe { std::slice::from_raw_parts(ptr(a), n as usize) } }
    pub fn copy(&mut self, d: u64, s: u64, n: u64, any_sym: bool) {
        unsafe {
            if any_sym {
                let syms: Vec<(u64, u32)> = (0..n).filter(|i| self.is_sym(s + i)).map(|i| (i, self.sym[&(s + i)])).collect();
                std::ptr::copy(ptr(s), ptr(d), n as usize);
                self.open(d, n);
                for (i, e) in syms { self.set_sym(d + i, e); }
            } else {
                std::ptr::copy(ptr(s), ptr(d), n as usize);
            }
        }
    }
    pub fn fill(&mut self, d: u64, v: u8, n: u64) { unsafe { std::ptr::write_bytes(ptr(d), v, n as usize); } }
}
