//! Interface between the harnesses and the symbolic executor (or the native replayer).
#![allow(dead_code)]

#[cfg(not(feature = "replay"))]
mod imp {
    extern "C" {
        fn __sym_bytes(p: *mut u8, n: usize, name: *const u8, nl: usize);
        fn __sym_assume(c: bool);
        fn __sym_assert(c: bool, name: *const u8, nl: usize);
        fn __sym_concretize(v: u64) -> u64;
        fn __sym_mark(k: u64);
        fn __sym_nallocs() -> u64;
        fn __sym_memops() -> u64;
        fn __sym_run_threads();
        fn __sym_file(p: *const u8, n: usize, d: *const u8, l: usize);
        fn __sym_fs(kind: u64, at: u64, part: u64);
        fn __sym_crash() -> u64;
        fn __sym_param(name: *const u8, nl: usize, d: u64) -> u64;
        fn __sym_print(name: *const u8, nl: usize, v: u64);
    }
    pub fn bytes(p: &mut [u8], name: &str) { unsafe { __sym_bytes(p.as_mut_ptr(), p.len(), name.as_ptr(), name.len()) } }
    pub fn assume(c: bool) { unsafe { __sym_assume(c) } }
    #[inline(never)]
    pub fn check(c: bool, label: &str) { unsafe { __sym_assert(c, label.as_ptr(), label.len()) } }
    pub fn concretize(v: usize) -> usize { unsafe { __sym_concretize(v as u64) as usize } }
    pub fn mark(k: u64) { unsafe { __sym_mark(k) } }
    pub fn nallocs() -> u64 { unsafe { __sym_nallocs() } }
    /// number of heap allocations and frees so far
    pub fn memops() -> u64 { unsafe { __sym_memops() } }
    /// makes a file with the given contents exist, returns its path
    pub fn file(name: &str, data: &[u8]) -> String { let p = format!("/v/{}", name); unsafe { __sym_file(p.as_ptr(), p.len(), data.as_ptr(), data.len()) } p }
    /// a path in the directory of the harness' files
    pub fn path(name: &str) -> String { format!("/v/{}", name) }
    /// plans for the operations that change files from here on. 1: a crash at the operation number `at` (counted
    /// from 0), after `part` eighths of it if it is a write. 2: that operation fails. 3: it is a short write of
    /// `part` eighths and all later ones fail. 4: it is a short write.
    pub fn fs(kind: usize, at: usize, part: usize) { unsafe { __sym_fs(kind as u64, at as u64, part as u64) } }
    /// ends the plan; after a crash the files are as they were at that point. Says whether the planned operation happened.
    pub fn crash() -> bool { unsafe { __sym_crash() != 0 } }
    /// lets the background threads run until they sleep
    pub fn run_threads() { unsafe { __sym_run_threads() } }
    pub fn run_monitor() { unsafe { __sym_run_threads() } }
    /// a bound of the harness, set per tier by the driver
    pub fn param(n: &str, d: u64) -> u64 { unsafe { __sym_param(n.as_ptr(), n.len(), d) } }
    pub fn print(l: &str, v: u64) { unsafe { __sym_print(l.as_ptr(), l.len(), v) } }
}

#[cfg(feature = "replay")]
mod imp {
    use std::cell::RefCell;
    use std::alloc::{GlobalAlloc, Layout, System};
    thread_local! { static OPS: std::cell::Cell<u64> = const { std::cell::Cell::new(0) }; }
    struct Counting;
    unsafe impl GlobalAlloc for Counting {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 { let _ = OPS.try_with(|o| o.set(o.get() + 1)); System.alloc(l) }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) { let _ = OPS.try_with(|o| o.set(o.get() + 1)); System.dealloc(p, l) }
    }
    #[global_allocator]
    static A: Counting = Counting;
    pub fn run_threads() { std::thread::sleep(std::time::Duration::from_millis(600)); }
    pub fn run_monitor() { std::thread::sleep(std::time::Duration::from_millis(40)); }
    pub fn file(name: &str, data: &[u8]) -> String { let d = std::env::temp_dir().join(format!("hexo_replay_{}", std::process::id())); std::fs::create_dir_all(&d).unwrap(); let p = d.join(name); std::fs::write(&p, data).unwrap(); p.to_str().unwrap().to_string() }
    /// removes the files of the run
    pub fn cleanup() { let _ = std::fs::remove_dir_all(std::env::temp_dir().join(format!("hexo_replay_{}", std::process::id()))); }
    fn dir() -> std::path::PathBuf { std::env::temp_dir().join(format!("hexo_replay_{}", std::process::id())) }
    pub fn path(name: &str) -> String { std::fs::create_dir_all(dir()).unwrap(); dir().join(name).to_str().unwrap().to_string() }
    // The file operations of the process go through these, so that the chosen one can fail or be cut short.
    #[derive(Default)]
    struct Plan { on: bool, op: usize, kind: usize, at: usize, part: usize, hit: bool, snap: Option<Vec<(std::path::PathBuf, Vec<u8>)>> }
    thread_local! { static PLAN: RefCell<Plan> = RefCell::new(Plan::default()); }
    extern "C" { fn syscall(n: i64, ...) -> i64; fn __errno_location() -> *mut i32; }
    fn dirstate() -> Vec<(std::path::PathBuf, Vec<u8>)> { std::fs::read_dir(dir()).unwrap().map(|e| { let p = e.unwrap().path(); let d = std::fs::read(&p).unwrap(); (p, d) }).collect() }
    pub fn fs(kind: usize, at: usize, part: usize) { PLAN.with(|p| *p.borrow_mut() = Plan { on: true, op: 0, kind, at, part, hit: false, snap: None }); }
    pub fn crash() -> bool {
        let (snap, hit) = PLAN.with(|p| { let mut p = p.borrow_mut(); p.on = false; (p.snap.take(), p.hit) });
        if let Some(s) = snap { for (p, _) in dirstate() { std::fs::remove_file(p).unwrap(); } for (p, d) in s { std::fs::write(p, d).unwrap(); } return true; }
        hit
    }
    /// (fails, crash here, short write here)
    fn fsop() -> (bool, bool, Option<usize>) {
        PLAN.with(|p| {
            let mut p = p.borrow_mut();
            if !p.on { return (false, false, None); }
            let k = p.op; p.op += 1;
            let fail = (p.kind == 2 && k == p.at) || (p.kind == 3 && k > p.at);
            p.hit |= fail;
            (fail, p.kind == 1 && k == p.at, if p.kind >= 3 && k == p.at { Some(p.part) } else { None })
        })
    }
    fn snapshot() { PLAN.with(|p| p.borrow_mut().on = false); let s = dirstate(); PLAN.with(|p| { let mut p = p.borrow_mut(); p.on = true; p.snap = Some(s); }); }
    fn fail() -> i32 { unsafe { *__errno_location() = 28; } -1 }
    #[no_mangle] extern "C" fn write(fd: i32, b: *const u8, n: usize) -> isize {
        if fd <= 2 || !PLAN.with(|p| p.borrow().on) { return unsafe { syscall(1, fd, b, n) as isize }; }
        let (f, c, s) = fsop();
        if f { return fail() as isize; }
        if let Some(part) = s { PLAN.with(|p| p.borrow_mut().hit = true); return unsafe { syscall(1, fd, b, (n * part / 8).max(1).min(n)) as isize }; }
        let m = if c { let m = n * PLAN.with(|p| p.borrow().part) / 8; unsafe { syscall(1, fd, b, m); } snapshot(); m } else { 0 };
        unsafe { syscall(1, fd, b.add(m), n - m); }
        n as isize
    }
    #[no_mangle] extern "C" fn open64(p: *const u8, fl: i32, mode: u32) -> i32 { opn(p, fl, mode) }
    #[no_mangle] extern "C" fn open(p: *const u8, fl: i32, mode: u32) -> i32 { opn(p, fl, mode) }
    fn opn(p: *const u8, fl: i32, mode: u32) -> i32 {
        if fl & 3 != 0 { let (f, c, _) = fsop(); if f { return fail(); } if c { snapshot(); } }
        ret(unsafe { syscall(2, p, fl, mode) })
    }
    fn ret(r: i64) -> i32 { r as i32 }
    #[no_mangle] extern "C" fn rename(a: *const u8, b: *const u8) -> i32 { let (f, c, _) = fsop(); if f { return fail(); } if c { snapshot(); } ret(unsafe { syscall(82, a, b) }) }
    #[no_mangle] extern "C" fn unlink(a: *const u8) -> i32 { let (f, c, _) = fsop(); if f { return fail(); } if c { snapshot(); } ret(unsafe { syscall(87, a) }) }
    #[no_mangle] extern "C" fn ftruncate64(fd: i32, n: i64) -> i32 { let (f, c, _) = fsop(); if f { return fail(); } if c { snapshot(); } ret(unsafe { syscall(77, fd, n) }) }
    pub fn memops() -> u64 { OPS.with(|o| o.get()) }
    pub fn param(n: &str, d: u64) -> u64 { PARAMS.with(|p| p.borrow().iter().find(|x| x.0 == n).map(|x| x.1).unwrap_or(d)) }
    thread_local! { static PARAMS: RefCell<Vec<(String, u64)>> = RefCell::new(vec![]); }
    thread_local! { pub static INPUT: RefCell<std::collections::VecDeque<(String, Vec<u8>)>> = RefCell::new(Default::default()); }
    pub fn load(path: &str) {
        let s = std::fs::read_to_string(path).expect("replay file");
        INPUT.with(|i| {
            for l in s.lines() {
                if let Some(r) = l.strip_prefix("#param ") { let (n, v) = r.split_once(' ').unwrap(); PARAMS.with(|p| p.borrow_mut().push((n.to_string(), v.trim().parse().unwrap()))); continue; }
                if l.starts_with('#') || l.is_empty() { continue; }
                let (n, h) = l.split_once(' ').unwrap_or((l, ""));
                let b = (0..h.len() / 2).map(|k| u8::from_str_radix(&h[2 * k..2 * k + 2], 16).unwrap()).collect();
                i.borrow_mut().push_back((n.to_string(), b));
            }
        });
    }
    pub fn bytes(p: &mut [u8], name: &str) {
        INPUT.with(|i| {
            // the path may have ended (violated) before all inputs were created: missing ones are 0
            if let Some((n, b)) = i.borrow_mut().pop_front() {
                eprintln!("replay: {} = {:02x?}", n, b);
                assert!(n == name.replace(' ', "_"), "replay input order: expected {} got {}", name, n);
                p.copy_from_slice(&b);
            }
        })
    }
    pub fn assume(c: bool) { if !c { eprintln!("replay: assumption does not hold"); std::process::exit(77); } }
    pub fn check(c: bool, label: &str) { if !c { eprintln!("replay: assertion failed: {}", label); cleanup(); std::process::exit(88); } }
    pub fn concretize(v: usize) -> usize { v }
    pub fn mark(_k: u64) {}
    pub fn nallocs() -> u64 { 0 }
    pub fn print(l: &str, v: u64) { eprintln!("[replay] {} = {:#x}", l, v); }
}
pub use imp::*;

pub fn u8(n: &str) -> u8 { let mut b = [0u8; 1]; bytes(&mut b, n); b[0] }
pub fn bool(n: &str) -> bool { let x = u8(n); assume(x < 2); x == 1 }
pub fn u16(n: &str) -> u16 { let mut b = [0u8; 2]; bytes(&mut b, n); u16::from_le_bytes(b) }
pub fn u32(n: &str) -> u32 { let mut b = [0u8; 4]; bytes(&mut b, n); u32::from_le_bytes(b) }
pub fn i32(n: &str) -> i32 { u32(n) as i32 }
pub fn u64(n: &str) -> u64 { let mut b = [0u8; 8]; bytes(&mut b, n); u64::from_le_bytes(b) }
pub fn usize(n: &str) -> usize { u64(n) as usize }
pub fn i64(n: &str) -> i64 { u64(n) as i64 }
pub fn f32(n: &str) -> f32 { f32::from_bits(u32(n)) }
/// finite f32 within [lo, hi]
pub fn f32_in(n: &str, lo: f32, hi: f32) -> f32 { let x = f32(n); assume(x >= lo && x <= hi); x }
/// symbolic integer in lo..=hi (stays symbolic)
pub fn range(n: &str, lo: usize, hi: usize) -> usize {
    let x = if hi < 256 { u8(n) as usize } else { u32(n) as usize };
    assume(x >= lo && x <= hi);
    x
}
/// symbolic integer in 0..cnt, every value explored on a path of its own
pub fn choose(n: &str, cnt: usize) -> usize { let x = range(n, 0, cnt - 1); concretize(x) }
