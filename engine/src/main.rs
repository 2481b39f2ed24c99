mod exec; mod expr; mod ext; mod ir; mod llvm; mod mem; mod z3;
use exec::*;
use std::collections::{HashMap, HashSet};
use std::sync::atomic::Ordering::SeqCst;
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn setpgid(a: i32, b: i32) -> i32;
    fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    fn usleep(us: u32) -> i32;
}

/// readable form of v0/legacy mangled names: the identifiers in order
pub fn demangle(s: &str) -> String {
    if !(s.starts_with("_R") || s.starts_with("_ZN")) { return s.to_string(); }
    let b = s.as_bytes();
    let mut i = 2; let mut out: Vec<String> = vec![];
    while i < b.len() {
        if b[i] == b's' && s.starts_with("_R") { // disambiguator s<base62>_
            let mut j = i + 1; while j < b.len() && b[j].is_ascii_alphanumeric() { j += 1; }
            if j < b.len() && b[j] == b'_' && j - i < 16 { i = j + 1; continue; }
        }
        if b[i].is_ascii_digit() {
            let mut n = 0usize; let mut j = i;
            while j < b.len() && b[j].is_ascii_digit() { n = n * 10 + (b[j] - b'0') as usize; j += 1; if n > 1000 { break; } }
            if j < b.len() && b[j] == b'_' && s.starts_with("_R") { j += 1; }
            if n > 0 && j + n <= b.len() { out.push(s[j..j + n].to_string()); i = j + n; continue; }
        }
        i += 1;
    }
    out.join("::")
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut o: HashMap<String, String> = HashMap::new();
    let mut i = 1;
    while i < args.len() { let k = args[i].trim_start_matches("--").to_string(); if i + 1 < args.len() && !args[i + 1].starts_with("--") { o.insert(k, args[i + 1].clone()); i += 2; } else { o.insert(k, "1".into()); i += 1; } }
    let get = |k: &str, d: &str| o.get(k).cloned().unwrap_or(d.to_string());
    let bc = get("bc", ""); let entry = get("entry", ""); let out = get("out", "/tmp/symex_out");
    let secs: u64 = get("time", "600").parse().unwrap();
    let jobs: u64 = get("jobs", "8").parse().unwrap();
    let rlimit: u32 = get("rlimit", "400000000").parse().unwrap();
    let _ = std::fs::create_dir_all(&out);
    for e in std::fs::read_dir(&out).unwrap().flatten() { let n = e.file_name().into_string().unwrap(); if n.starts_with("viol_") || n.starts_with("ok_") || n.starts_with("err") { let _ = std::fs::remove_file(e.path()); } }
    let t0 = Instant::now();
    let sh: &'static Shared = unsafe { &*(mmap(std::ptr::null_mut(), std::mem::size_of::<Shared>(), 3, 0x01 | 0x20, -1, 0) as *const Shared) };
    sh.running.store(1, SeqCst);
    sh.max_running.store(jobs, SeqCst);
    let p = ir::Prog::load(&bc);
    let load_s = t0.elapsed().as_secs_f64();
    let ei = match p.fbyname.get(&entry) { Some(i) => *i, None => { eprintln!("symex: no entry {}", entry); std::process::exit(3) } };
    let names = p.fnames.clone();
    let models = (0..p.funcs.len()).map(|i| ext::model(&p.fnames[i], p.fdecl[i])).collect();
    let mut mem = mem::Mem::new();
    let _ = &mut mem;
    let deadline = Instant::now() + Duration::from_secs(secs);
    unsafe { prctl(36, 1, 0, 0, 0); }
    let pid = unsafe { fork() };
    if pid == 0 {
        unsafe { setpgid(0, 0); }
        // a path never leaves through exit(): z3 does when it gives up on an internal error
        extern "C" fn at_exit() { if std::env::var("SYMEX_DUMP").is_ok() { eprintln!("exit: {}", std::backtrace::Backtrace::force_capture()); } }
        extern "C" { fn atexit(f: extern "C" fn()) -> i32; }
        unsafe { atexit(at_exit); }
        let mut x = Exec { p, mem, ex: expr::Ex::new(), z: z3::Solver::new(rlimit), pc: vec![], pcset: HashSet::new(), small_tried: HashSet::new(), model: expr::Eval::new(vec![]), st: vec![], sh,
            cfg: Cfg { out: out.clone(), deadline, max_instr: get("max-instr", "2000000000").parse().unwrap(), verbose: o.contains_key("verbose"), max_viol: get("max-viol", "1").parse().unwrap(), trace: o.contains_key("trace"), prof: o.contains_key("prof"), oks: get("oks", "12").parse().unwrap(), params: get("params", "").split(',').filter(|s| !s.is_empty()).map(|s| { let (k, v) = s.split_once('=').unwrap(); (k.to_string(), v.parse().unwrap()) }).collect() },
            icount: 0, iflush: 0, inputs: vec![], errno: 0, files: vec![], fds: vec![], fs: Default::default(), clock: 0, keys: HashMap::new(), models, uf_path: false, notes: vec![], brprof: HashMap::new(), threads: vec![exec::Thread { start: 0, arg: 0, st: vec![], sp: 0, tls: HashMap::new(), keys: HashMap::new(), started: true, done: false }], cur: 0, runq: vec![] };
        let n = unsafe { llvm::LLVMCountParams(x.p.funcs[ei as usize]) };
        if n != 0 { eprintln!("entry takes parameters"); std::process::exit(3); }
        let r = x.push_call(ei, vec![], ir::NOREG);
        let s = match r { Ok(()) => x.run(), Err(s) => s };
        x.finish(s);
    }
    unsafe { setpgid(pid, pid); }
    extern "C" { fn kill(p: i32, s: i32) -> i32; }
    // supervisor: reap every descendant
    let mut abnormal = 0u64;
    loop {
        let mut st = 0;
        let r = unsafe { waitpid(-1, &mut st, 1) };
        if r < 0 { break; }
        if r == 0 {
            if Instant::now() > deadline { sh.stop.store(1, SeqCst); sh.timeout.store(1, SeqCst); }
            if Instant::now() > deadline + Duration::from_secs(5) { unsafe { kill(-pid, 9); } }
            unsafe { usleep(500); }
            continue;
        }
        let code = if st & 0x7f != 0 { 1000 + (st & 0x7f) } else { (st >> 8) & 0xff };
        if code != 0 { abnormal += 1; sh.running.fetch_sub(1, SeqCst); if sh.timeout.load(SeqCst) == 0 { eprintln!("symex: process {} ended with code {}", r, code); } sh.stop.store(1, SeqCst); }
    }
    abnormal += sh.crashed.load(SeqCst);
    let l = |a: &std::sync::atomic::AtomicU64| a.load(SeqCst);
    let ended = l(&sh.ok) + l(&sh.assumed) + l(&sh.viol) + l(&sh.err);
    let complete = abnormal == 0 && l(&sh.err) == 0 && l(&sh.timeout) == 0 && l(&sh.stop) == 0 && l(&sh.unknown) == 0 && ended == l(&sh.forks) + 1;
    let mut fl: Vec<String> = vec![]; let mut nf = 0;
    let pref = get("prefix", "hexodsp");
    for i in 0..names.len().min(MAXF) { if l(&sh.funcs[i / 64]) >> (i % 64) & 1 == 1 { nf += 1; let d = demangle(&names[i]); if d.starts_with(&pref) || d.contains(&format!("::{}::", pref)) { fl.push(d); } } }
    fl.sort(); fl.dedup();
    let marks: Vec<String> = (0..NMARK).filter(|&i| l(&sh.marks[i]) > 0).map(|i| format!("\"{}\":{}", i, l(&sh.marks[i]))).collect();
    let js = format!("{{\"entry\":\"{}\",\"complete\":{},\"paths_ok\":{},\"paths_assumed_out\":{},\"paths_violating\":{},\"paths_error\":{},\"paths_hang\":{},\"forks\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"instructions\":{},\"asserts\":{},\"timeout\":{},\"abnormal\":{},\"wall_s\":{:.2},\"load_s\":{:.2},\"functions_total\":{},\"marks\":{{{}}},\"functions\":[{}]}}",
        entry, complete, l(&sh.ok), l(&sh.assumed), l(&sh.viol), l(&sh.err), l(&sh.hang), l(&sh.forks), l(&sh.queries), l(&sh.sat), l(&sh.unsat), l(&sh.unknown), l(&sh.solver_us) as f64 / 1e6, l(&sh.max_query_us) as f64 / 1e6, l(&sh.instrs), l(&sh.asserts), l(&sh.timeout), abnormal, t0.elapsed().as_secs_f64(), load_s, nf, marks.join(","), fl.iter().map(|f| format!("\"{}\"", f.replace('"', ""))).collect::<Vec<_>>().join(","));
    std::fs::write(format!("{}/result.json", out), &js).unwrap();
    if !o.contains_key("quiet") { println!("{}", if js.len() > 1500 { &js[..1500] } else { &js }); }
    std::process::exit(if l(&sh.viol) > 0 { 1 } else if complete { 0 } else { 2 });
}
