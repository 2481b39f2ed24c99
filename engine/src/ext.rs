//! Models of the environment: allocator, libc, harness intrinsics.
use crate::exec::*;
use crate::expr::*;
use crate::ir::Val;
use std::sync::atomic::Ordering::SeqCst;

pub type Model = fn(&mut Exec, &[Val]) -> R<Option<Val>>;

pub fn weak_absent(n: &str) -> bool { matches!(n, "statx" | "gettid" | "__pthread_get_minstack" | "copy_file_range" | "__dso_handle" | "preadv2" | "pwritev2") }

fn alloc(x: &mut Exec, a: &[Val]) -> R<Option<Val>> {
    let n = x.cint(&a[0])?; let al = x.cint(&a[1])?;
    match x.mem.alloc_heap(n, al) { Some(p) => Ok(Some(Val::C(p))), None => Err(Stop::Viol(format!("allocation of a huge block in {}", x.where_()))) }
}
fn dealloc(x: &mut Exec, a: &[Val]) -> R<Option<Val>> {
    let p = x.cint(&a[0])?;
    if !x.mem.free_heap(p) { return Err(Stop::Viol(format!("memory error: invalid or double free in {}", x.where_()))); }
    Ok(None)
}
fn realloc(x: &mut Exec, a: &[Val]) -> R<Option<Val>> {
    let p = x.cint(&a[0])?; let old = x.cint(&a[1])?; let al = x.cint(&a[2])?; let n = x.cint(&a[3])?;
    let q = match x.mem.alloc_heap(n, al) { Some(q) => q, None => return Err(Stop::Viol("allocation of a huge block".into())) };
    x.memcpy(q, p, old.min(n))?;
    if !x.mem.free_heap(p) { return Err(Stop::Viol(format!("memory error: invalid realloc in {}", x.where_()))); }
    Ok(Some(Val::C(q)))
}
fn malloc(x: &mut Exec, a: &[Val]) -> R<Option<Val>> { let n = x.cint(&a[0])?; Ok(Some(Val::C(x.mem.alloc_heap(n, 16).unwrap_or(0)))) }
fn calloc(x: &mut Exec, a: &[Val]) -> R<Option<Val>> { let n = x.cint(&a[0])?; let m = x.cint(&a[1])?; Ok(Some(Val::C(x.mem.alloc_heap(n * m, 16).unwrap_or(0)))) }
fn free(x: &mut Exec, a: &[Val]) -> R<Option<Val>> { let p = x.cint(&a[0])?; if p != 0 && !x.mem.free_heap(p) { return Err(Stop::Viol("memory error: invalid free".into())); } Ok(None) }
fn memcmp_(x: &mut Exec, a: &[Val], ord: bool) -> R<Option<Val>> {
    let (p, q) = (x.addr(&a[0])?, x.addr(&a[1])?); let n = x.cint(&a[2])?;
    if n == 0 { return Ok(Some(Val::C(0))); }
    let (s, t) = (x.mem.state(p, n), x.mem.state(q, n));
    if s == 0 || t == 0 { return Err(x.bad_access(p, n, "read (compare)")); }
    if s == 1 && t == 1 {
        let o = x.mem.bytes(p, n).cmp(x.mem.bytes(q, n));
        return Ok(Some(Val::C(match o { std::cmp::Ordering::Less => 0xffff_ffff, std::cmp::Ordering::Equal => 0, _ => 1 })));
    }
    let mut acc = x.ex.c(0, 32);
    for i in (0..n).rev() {
        let u = x.load_expr(p + i, 1); let v = x.load_expr(q + i, 1);
        let eq = x.ex.cmp(P::Eq, u, v);
        let lt = x.ex.cmp(P::Ult, u, v);
        let (m1, one) = (x.ex.c(0xffff_ffff, 32), x.ex.c(1, 32));
        let d = if ord { x.ex.ite(lt, m1, one) } else { one };
        acc = x.ex.ite(eq, acc, d);
    }
    Ok(Some(x.v(acc)))
}
fn memcmp(x: &mut Exec, a: &[Val]) -> R<Option<Val>> { memcmp_(x, a, true) }
fn bcmp(x: &mut Exec, a: &[Val]) -> R<Option<Val>> { memcmp_(x, a, false) }
fn memcpy(x: &mut Exec, a: &[Val]) -> R<Option<Val>> { let (d, s) = (x.addr(&a[0])?, x.addr(&a[1])?); let n = x.cint(&a[2])?; x.memcpy(d, s, n)?; Ok(Some(Val::C(d))) }
fn strlen(x: &mut Exec, a: &[Val]) -> R<Option<Val>> { let p = x.addr(&a[0])?; let mut n = 0; loop { let v = x.load_scalar(p + n, 8)?; if x.cint(&v)? == 0 { return Ok(Some(Val::C(n))); } n += 1; } }
fn zero(_: &mut Exec, _: &[Val]) -> R<Option<Val>> { Ok(Some(Val::C(0))) }
fn one(_: &mut Exec, _: &[Val]) -> R<Option<Val>> { Ok(Some(Val::C(1))) }
fn nothing(_: &mut Exec, _: &[Val]) -> R<Option<Val>> { Ok(None) }
fn abort(x: &mut Exec, _: &[Val]) -> R<Option<Val>> { Err(Stop::Viol(format!("abort in {}", x.where_()))) }
fn errno(x: &mut Exec, _: &[Val]) -> R<Option<Val>> { if x.errno == 0 { x.errno = x.mem.alloc_global(4, 4); } Ok(Some(Val::C(x.errno))) }
fn set_errno(x: &mut Exec, e: u64) -> R<Option<Val>> { let p = match errno(x, &[])? { Some(Val::C(p)) => p, _ => 0 }; x.store_scalar(p, 32, &Val::C(e))?; Ok(Some(Val::C(u64::MAX))) }
fn err32(x: &mut Exec, e: u64) -> R<Option<Val>> { set_errno(x, e)?; Ok(Some(Val::C(0xFFFF_FFFF))) }
fn cpath(x: &mut Exec, a: &Val) -> R<String> {
    let mut p = x.addr(a)?; let mut s = String::new();
    loop { let b = x.load_scalar(p, 8)?; let b = x.cint(&b)?; if b == 0 { return Ok(s); } s.push(b as u8 as char); p += 1; }
}
/// An operation that changes files: the harness may have chosen it as the point of a crash (the files as they
/// are then are kept, a write has done `part` eighths of its work) or as one that fails.
fn fsop(x: &mut Exec, wr: Option<(usize, usize, &[Val])>) -> Option<u64> {
    let k = x.fs.op; x.fs.op += 1;
    if x.fs.kind == 1 && x.fs.at == k {
        let mut f = x.files.clone();
        if let Some((i, pos, d)) = wr { put(&mut f[i].1, pos, &d[..d.len() * x.fs.part as usize / 8]); }
        x.fs.snap = Some(f);
    }
    if (x.fs.kind == 2 && x.fs.at == k) || (x.fs.kind == 3 && k > x.fs.at) { x.fs.hit = true; return Some(28); }
    None
}
fn put(f: &mut Vec<Val>, pos: usize, d: &[Val]) { while f.len() < pos { f.push(Val::C(0)); } for (i, v) in d.iter().enumerate() { if pos + i < f.len() { f[pos + i] = v.clone(); } else { f.push(v.clone()); } } }
/// the files of the harness are the only ones that exist
fn open(x: &mut Exec, a: &[Val]) -> R<Option<Val>> {
    let p = cpath(x, &a[0])?;
    let fl = x.cint(&a[1])?;
    let mut k = x.files.iter().position(|f| f.0 == p);
    if k.is_some() && fl & 0o300 == 0o300 { return err32(x, 17); }
    if k.is_none() && fl & 0o100 == 0 { return err32(x, 2); }
    if fl & 3 != 0 {
        if let Some(e) = fsop(x, None) { return err32(x, e); }
        match k { None => { x.files.push((p, vec![])); k = Some(x.files.len() - 1); } Some(k) => if fl & 0o1000 != 0 { x.files[k].1.clear(); } }
    }
    x.fds.push((k.unwrap(), if fl & 0o2000 != 0 { usize::MAX } else { 0 }));
    Ok(Some(Val::C(99 + x.fds.len() as u64)))
}
fn rename(x: &mut Exec, a: &[Val]) -> R<Option<Val>> {
    let f = cpath(x, &a[0])?; let t = cpath(x, &a[1])?;
    let k = match x.files.iter().position(|e| e.0 == f) { Some(k) => k, None => return err32(x, 2) };
    if let Some(e) = fsop(x, None) { return err32(x, e); }
    if f != t { for e in x.files.iter_mut() { if e.0 == t { e.0 = String::new(); } } }
    x.files[k].0 = t;
    Ok(Some(Val::C(0)))
}
fn unlink(x: &mut Exec, a: &[Val]) -> R<Option<Val>> {
    let f = cpath(x, &a[0])?;
    let k = match x.files.iter().position(|e| e.0 == f) { Some(k) => k, None => return err32(x, 2) };
    if let Some(e) = fsop(x, None) { return err32(x, e); }
    x.files[k].0 = String::new();
    Ok(Some(Val::C(0)))
}
fn ftruncate(x: &mut Exec, a: &[Val]) -> R<Option<Val>> {
    let fd = x.cint(&a[0])?; let n = x.cint(&a[1])?;
    if fd < 100 || fd - 100 >= x.fds.len() as u64 { return err32(x, 9); }
    if let Some(e) = fsop(x, None) { return err32(x, e); }
    let k = x.fds[(fd - 100) as usize].0;
    x.files[k].1.resize(n as usize, Val::C(0));
    Ok(Some(Val::C(0)))
}
fn sym_fs(x: &mut Exec, a: &[Val]) -> R<Option<Val>> {
    x.fs = FsPlan { op: 0, kind: x.cint(&a[0])?, at: x.cint(&a[1])?, part: x.cint(&a[2])?, snap: None, hit: false };
    Ok(None)
}
/// the crash: the files are as they were at that point; says whether the chosen operation was reached
fn sym_crash(x: &mut Exec, _: &[Val]) -> R<Option<Val>> {
    let mut r = x.fs.hit;
    if let Some(s) = x.fs.snap.take() { x.files = s; x.fds.clear(); r = true; }
    x.fs = FsPlan::default();
    Ok(Some(Val::C(r as u64)))
}
fn read(x: &mut Exec, a: &[Val]) -> R<Option<Val>> {
    let fd = x.cint(&a[0])?; let p = x.addr(&a[1])?; let n = x.cint(&a[2])?;
    if fd < 100 || fd - 100 >= x.fds.len() as u64 { return set_errno(x, 9); }
    let (k, pos) = x.fds[(fd - 100) as usize];
    let pos = if pos == usize::MAX { 0 } else { pos };
    let l = (x.files[k].1.len() - pos.min(x.files[k].1.len())).min(n as usize);
    for i in 0..l { let v = x.files[k].1[pos + i].clone(); x.store_scalar(p + i as u64, 8, &v)?; }
    x.fds[(fd - 100) as usize].1 += l;
    Ok(Some(Val::C(l as u64)))
}
fn lseek(x: &mut Exec, a: &[Val]) -> R<Option<Val>> {
    let fd = x.cint(&a[0])?; let o = x.cint(&a[1])? as i64; let w = x.cint(&a[2])?;
    if fd < 100 || fd - 100 >= x.fds.len() as u64 { return set_errno(x, 9); }
    let (k, pos) = x.fds[(fd - 100) as usize];
    let b = match w { 0 => 0, 1 => pos as i64, _ => x.files[k].1.len() as i64 };
    match b.checked_add(o) { Some(n) if n >= 0 => { x.fds[(fd - 100) as usize].1 = n as usize; Ok(Some(Val::C(n as u64))) } _ => set_errno(x, 22) }
}
fn sym_file(x: &mut Exec, a: &[Val]) -> R<Option<Val>> {
    let p = x.addr(&a[0])?; let n = x.cint(&a[1])?; let d = x.addr(&a[2])?; let l = x.cint(&a[3])?;
    let path: String = x.mem.bytes(p, n).iter().map(|b| *b as char).collect();
    let mut v = vec![]; for i in 0..l { v.push(x.load_scalar(d + i, 8)?); }
    x.files.retain(|f| f.0 != path); x.files.push((path, v));
    Ok(None)
}
fn strerror(x: &mut Exec, a: &[Val]) -> R<Option<Val>> { let p = x.addr(&a[1])?; for (i, b) in b"error\0".iter().enumerate() { x.store_scalar(p + i as u64, 8, &Val::C(*b as u64))?; } Ok(Some(Val::C(0))) }
fn getrandom(x: &mut Exec, a: &[Val]) -> R<Option<Val>> {
    let p = x.addr(&a[0])?; let n = x.cint(&a[1])?;
    for i in 0..n { x.store_scalar(p + i, 8, &Val::C((i * 37 + 11) & 0xff))?; }
    Ok(Some(Val::C(n)))
}
fn clock_gettime(x: &mut Exec, a: &[Val]) -> R<Option<Val>> {
    let p = x.addr(&a[1])?;
    x.clock += 1_000_000;
    let c = x.clock;
    x.store_scalar(p, 64, &Val::C(1_700_000_000 + c / 1_000_000_000))?;
    x.store_scalar(p + 8, 64, &Val::C(c % 1_000_000_000))?;
    Ok(Some(Val::C(0)))
}
fn syscall(x: &mut Exec, a: &[Val]) -> R<Option<Val>> {
    let k = x.cint(&a[0])?;
    match k {
        202 => { // futex
            let op = x.cint(&a[2])? & 0x7f;
            if op == 1 || op == 10 { return Ok(Some(Val::C(0))); }
            Err(Stop::Viol(format!("deadlock: futex wait in {}", x.where_())))
        }
        318 => getrandom(x, &a[1..]),
        186 => Ok(Some(Val::C(1))),
        332 => set_errno(x, 38), // statx
        _ => Err(Stop::Err(format!("syscall {} from {}", k, x.where_()))),
    }
}
fn write(x: &mut Exec, a: &[Val]) -> R<Option<Val>> {
    let fd = x.cint(&a[0])?; let n = x.cint(&a[2])?; let p = x.addr(&a[1])?;
    if fd >= 100 && fd - 100 < x.fds.len() as u64 {
        let mut d = vec![]; for i in 0..n { d.push(x.load_scalar(p + i, 8)?); }
        let (k, pos) = x.fds[(fd - 100) as usize];
        let app = pos == usize::MAX;
        let pos = if app { x.files[k].1.len() } else { pos };
        if x.fs.kind >= 3 && x.fs.at == x.fs.op { x.fs.hit = true; d.truncate((d.len() * x.fs.part as usize / 8).max(1)); }
        if let Some(e) = fsop(x, Some((k, pos, &d))) { return set_errno(x, e); }
        put(&mut x.files[k].1, pos, &d);
        if !app { x.fds[(fd - 100) as usize].1 = pos + d.len(); }
        return Ok(Some(Val::C(d.len() as u64)));
    }
    if x.cfg.verbose { let s: String = x.mem.bytes(p, n).iter().map(|b| *b as char).collect(); eprint!("{}", s); }
    Ok(Some(Val::C(n)))
}
fn writev(x: &mut Exec, a: &[Val]) -> R<Option<Val>> {
    let p = x.addr(&a[1])?; let c = x.cint(&a[2])?; let mut t = 0;
    for i in 0..c { let l = x.load_scalar(p + i * 16 + 8, 64)?; t += x.cint(&l)?; }
    Ok(Some(Val::C(t)))
}
fn sysconf(x: &mut Exec, a: &[Val]) -> R<Option<Val>> { let k = x.cint(&a[0])?; Ok(Some(Val::C(match k { 30 => 4096, 83 | 84 => 4, _ => 0 }))) }
fn key_create(x: &mut Exec, a: &[Val]) -> R<Option<Val>> { let p = x.addr(&a[0])?; let k = x.keys.len() as u64 + 1; x.keys.insert(k, 0); x.store_scalar(p, 32, &Val::C(k))?; Ok(Some(Val::C(0))) }
fn setspecific(x: &mut Exec, a: &[Val]) -> R<Option<Val>> { let k = x.cint(&a[0])?; let v = x.cint(&a[1])?; x.keys.insert(k, v); Ok(Some(Val::C(0))) }
fn getspecific(x: &mut Exec, a: &[Val]) -> R<Option<Val>> { let k = x.cint(&a[0])?; Ok(Some(Val::C(*x.keys.get(&k).unwrap_or(&0)))) }
fn panic_handler(x: &mut Exec, a: &[Val]) -> R<Option<Val>> {
    // &PanicInfo { message: &Arguments, location: &Location, .. }
    let p = x.addr(&a[0])?;
    let mut best = String::from("panic");
    for off in [0u64, 8, 16, 24] {
        if x.mem.state(p + off, 8) != 1 { continue; }
        let l = x.mem.rd(p + off, 8);
        if x.mem.state(l, 24) != 1 { continue; }
        let (fp, fl, line, col) = (x.mem.rd(l, 8), x.mem.rd(l + 8, 8), x.mem.rd(l + 16, 4), x.mem.rd(l + 20, 4));
        if fl > 3 && fl < 400 && line < 100000 && x.mem.state(fp, fl) == 1 {
            let s = String::from_utf8_lossy(x.mem.bytes(fp, fl)).to_string();
            if s.contains(".rs") { best = format!("panic at {}:{}:{}", s.trim_end_matches('\0'), line, col); break; }
        }
    }
    Err(Stop::Viol(best))
}
// ---- harness intrinsics -------------------------------------------------------
fn sym_bytes(x: &mut Exec, a: &[Val]) -> R<Option<Val>> {
    let p = x.addr(&a[0])?; let n = x.cint(&a[1])?; let np = x.addr(&a[2])?; let nl = x.cint(&a[3])?;
    let name = String::from_utf8_lossy(x.mem.bytes(np, nl)).to_string();
    let mut vars = vec![];
    if n <= 8 && n > 0 {
        let e = x.ex.new_var(&name, n as u32 * 8);
        vars.push(e);
        x.store_scalar(p, n as u32 * 8, &Val::S(e))?;
    } else {
        for i in 0..n { let e = x.ex.new_var(&format!("{}[{}]", name, i), 8); vars.push(e); x.store_scalar(p + i, 8, &Val::S(e))?; }
    }
    x.inputs.push(SymIn { name, addr_vars: vars, len: n });
    // new variables take the value 0 in the current model unless constrained later
    while x.model.vals.len() < x.ex.var_w.len() { x.model.vals.push(0); }
    Ok(None)
}
fn sym_assume(x: &mut Exec, a: &[Val]) -> R<Option<Val>> {
    let w = 8;
    match &a[0] {
        Val::C(c) => if *c == 0 { return Err(Stop::Assumed); },
        Val::S(e) => { let e = *e; let c = if x.ex.w(e) == 1 { e } else { let ww = x.ex.w(e); let z = x.ex.c(0, ww); let q = x.ex.cmp(P::Eq, e, z); x.ex.not(q) }; x.assume(c)?; }
        _ => panic!(),
    }
    let _ = w;
    Ok(None)
}
/// assert without forking when the solver shows the condition holds
fn sym_assert(x: &mut Exec, a: &[Val]) -> R<Option<Val>> {
    x.sh.asserts.fetch_add(1, SeqCst);
    let np = x.addr(&a[1])?; let nl = x.cint(&a[2])?;
    let name = || -> String { String::new() };
    let _ = name;
    let label = String::from_utf8_lossy(x.mem.bytes(np, nl)).to_string();
    match &a[0] {
        Val::C(c) => if *c == 0 { return Err(Stop::Viol(format!("assertion: {}", label))); },
        Val::S(e) => {
            let e = *e;
            let c = if x.ex.w(e) == 1 { e } else { let ww = x.ex.w(e); let z = x.ex.c(0, ww); let q = x.ex.cmp(P::Eq, e, z); x.ex.not(q) };
            if !x.branch(c)? { return Err(Stop::Viol(format!("assertion: {}", label))); }
        }
        _ => panic!(),
    }
    Ok(None)
}
fn sym_concretize(x: &mut Exec, a: &[Val]) -> R<Option<Val>> { let v = x.cint(&a[0])?; Ok(Some(Val::C(v))) }
fn sym_mark(x: &mut Exec, a: &[Val]) -> R<Option<Val>> { let k = x.cint(&a[0])? as usize; if k < NMARK { x.sh.marks[k].fetch_add(1, SeqCst); } Ok(None) }
fn sym_active(_: &mut Exec, _: &[Val]) -> R<Option<Val>> { Ok(Some(Val::C(1))) }
fn sym_live_bytes(x: &mut Exec, _: &[Val]) -> R<Option<Val>> { Ok(Some(Val::C(x.mem.live_bytes))) }
fn sym_nallocs(x: &mut Exec, _: &[Val]) -> R<Option<Val>> { Ok(Some(Val::C(x.mem.allocs.len() as u64))) }
fn sym_memops(x: &mut Exec, _: &[Val]) -> R<Option<Val>> { Ok(Some(Val::C(x.mem.ops))) }
fn sym_param(x: &mut Exec, a: &[Val]) -> R<Option<Val>> {
    let np = x.addr(&a[0])?; let nl = x.cint(&a[1])?; let d = x.cint(&a[2])?;
    let s = String::from_utf8_lossy(x.mem.bytes(np, nl)).to_string();
    Ok(Some(Val::C(*x.cfg.params.get(&s).unwrap_or(&d))))
}
fn sym_print(x: &mut Exec, a: &[Val]) -> R<Option<Val>> {
    let np = x.addr(&a[0])?; let nl = x.cint(&a[1])?;
    let s = String::from_utf8_lossy(x.mem.bytes(np, nl)).to_string();
    let v = match &a[2] { Val::C(c) => format!("{:#x} ({})", c, c), Val::S(e) => format!("sym {}", x.show(*e, 5)), _ => "?".into() };
    eprintln!("[sym] {} = {} (icount {})", s, v, x.icount);
    Ok(None)
}
fn f1(nm: &'static str, w: u32) -> Model {
    macro_rules! t { ($($n:literal),*) => { match (nm, w) { $( ($n, 32) => |x: &mut Exec, a: &[Val]| Ok(Some(x.libm1($n, 32, &a[0]))), ($n, 64) => |x: &mut Exec, a: &[Val]| Ok(Some(x.libm1($n, 64, &a[0]))), )* _ => panic!() } } }
    t!("sin", "cos", "tan", "exp", "exp2", "log", "log2", "log10", "tanh", "sinh", "cosh", "asin", "acos", "atan")
}

pub fn model(n: &str, decl: bool) -> Option<Model> {
    // Rust runtime symbols (mangled in the __rustc namespace)
    if n.contains("__rustc") {
        for (k, m) in [("___rust_alloc_zeroed", alloc as Model), ("___rust_alloc_error_handler", abort), ("___rust_alloc", alloc), ("___rust_dealloc", dealloc), ("___rust_realloc", realloc), ("no_alloc_shim", nothing as Model), ("rust_begin_unwind", panic_handler), ("___rust_start_panic", abort)] {
            if n.ends_with(k) || (k == "no_alloc_shim" && n.contains(k)) { return Some(m); }
        }
        return None;
    }
    match n {
        "__sym_bytes" => return Some(sym_bytes),
        "__sym_assume" => return Some(sym_assume),
        "__sym_assert" => return Some(sym_assert),
        "__sym_concretize" => return Some(sym_concretize),
        "__sym_mark" => return Some(sym_mark),
        "__sym_active" => return Some(sym_active),
        "__sym_live_bytes" => return Some(sym_live_bytes),
        "__sym_nallocs" => return Some(sym_nallocs),
        "__sym_memops" => return Some(sym_memops),
        "__sym_file" => return Some(sym_file),
        "__sym_fs" => return Some(sym_fs),
        "__sym_crash" => return Some(sym_crash),
        "__sym_param" => return Some(sym_param),
        "__sym_print" => return Some(sym_print),
        "memcpy" | "memmove" => return Some(memcpy),
        "memcmp" => return Some(memcmp),
        "bcmp" => return Some(bcmp),
        "strlen" => return Some(strlen),
        _ => {}
    }
    if !decl { return None; }
    Some(match n {
        "malloc" => malloc, "calloc" => calloc, "free" => free,
        "posix_memalign" => |x, a| { let p = x.addr(&a[0])?; let al = x.cint(&a[1])?; let n = x.cint(&a[2])?; let q = x.mem.alloc_heap(n, al).unwrap_or(0); x.store_scalar(p, 64, &Val::C(q))?; Ok(Some(Val::C(0))) },
        "abort" => abort,
        "__errno_location" => errno,
        "getrandom" => getrandom,
        "clock_gettime" => clock_gettime,
        "syscall" => syscall,
        "open64" | "open" => open, "read" => read, "lseek64" | "lseek" => lseek, "rename" => rename, "unlink" => unlink, "ftruncate64" | "ftruncate" => ftruncate, "close" | "fsync" | "fdatasync" | "fchmod" | "fcntl" | "fcntl64" => zero, "__xpg_strerror_r" | "strerror_r" => strerror,
        "fstat64" | "fstat" | "stat64" | "stat" => |x, _| err32(x, 38),
        "write" => write, "writev" => writev,
        "getenv" | "dlsym" => zero,
        "pthread_self" | "gettid" | "getpid" => one,
        "sysconf" => sysconf,
        "pthread_attr_init" | "pthread_attr_destroy" | "pthread_attr_setstacksize" | "pthread_key_delete" | "__cxa_thread_atexit_impl" | "pthread_setname_np" | "sched_yield" | "pthread_detach" => zero,
        "pthread_key_create" => key_create,
        "pthread_setspecific" => setspecific,
        "pthread_getspecific" => getspecific,
        "sinf" => f1("sin", 32), "cosf" => f1("cos", 32), "tanf" => f1("tan", 32), "expf" => f1("exp", 32), "exp2f" => f1("exp2", 32), "logf" => f1("log", 32), "log2f" => f1("log2", 32), "log10f" => f1("log10", 32), "tanhf" => f1("tanh", 32), "sinhf" => f1("sinh", 32), "coshf" => f1("cosh", 32), "atanf" => f1("atan", 32),
        "sin" => f1("sin", 64), "cos" => f1("cos", 64), "tan" => f1("tan", 64), "exp" => f1("exp", 64), "exp2" => f1("exp2", 64), "log" => f1("log", 64), "log2" => f1("log2", 64), "log10" => f1("log10", 64), "tanh" => f1("tanh", 64), "atan" => f1("atan", 64),
        "powf" => |x, a| Ok(Some(x.libm2("pow", 32, &a[0], &a[1]))),
        "pow" => |x, a| Ok(Some(x.libm2("pow", 64, &a[0], &a[1]))),
        "fmodf" => |x, a| Ok(Some(x.sfbin(FB::Rem, 32, &a[0], &a[1]))),
        "fmod" => |x, a| Ok(Some(x.sfbin(FB::Rem, 64, &a[0], &a[1]))),
        _ => return None,
    })
}
