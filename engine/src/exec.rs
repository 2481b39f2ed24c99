//! The symbolic interpreter.  One path per process: a symbolic branch with two
//! feasible sides is a fork(2).
use crate::expr::*;
use crate::ir::*;
use crate::mem::Mem;
use crate::z3::{Res, Solver};
use std::collections::{HashMap, HashSet};
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::Instant;

extern "C" {
    fn fork() -> i32;
    fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn usleep(us: u32) -> i32;
    fn getpid() -> i32;
}

pub const NMARK: usize = 64;
pub const NVIOL: usize = 64;
pub const MAXF: usize = 1 << 16;
#[repr(C)]
pub struct Shared {
    pub running: AtomicU64,
    pub max_running: AtomicU64,
    pub forks: AtomicU64,
    pub ok: AtomicU64,
    pub assumed: AtomicU64,
    pub viol: AtomicU64,
    pub err: AtomicU64,
    pub hang: AtomicU64,
    pub queries: AtomicU64,
    pub sat: AtomicU64,
    pub unsat: AtomicU64,
    pub unknown: AtomicU64,
    pub solver_us: AtomicU64,
    pub instrs: AtomicU64,
    pub stop: AtomicU64,
    pub timeout: AtomicU64,
    pub max_query_us: AtomicU64,
    pub uf_branches: AtomicU64,
    pub crashed: AtomicU64,
    pub asserts: AtomicU64,
    pub samples: AtomicU64,
    pub marks: [AtomicU64; NMARK],
    pub viol_labels: [AtomicU64; NVIOL],
    pub funcs: [AtomicU64; MAXF / 64],
}

pub struct Frame { pub f: Rc<Func>, pub fi: u32, pub regs: Vec<Val>, pub blk: u32, pub ip: u32, pub sp: u64, pub ret: Reg }

/// A background thread of the program under test; it runs when the harness schedules it (or when it is joined)
/// and gives control back when it sleeps or ends.
pub struct Thread { pub start: u32, pub arg: u64, pub st: Vec<Frame>, pub sp: u64, pub tls: HashMap<u64, Vec<u8>>, pub keys: HashMap<u64, u64>, pub started: bool, pub done: bool }

pub struct Cfg { pub out: String, pub deadline: Instant, pub max_instr: u64, pub verbose: bool, pub max_viol: u64, pub trace: bool, pub prof: bool, pub params: HashMap<String, u64>, pub oks: u64 }

pub struct SymIn { pub name: String, pub addr_vars: Vec<E>, pub len: u64 }

/// what the harness planned for the operations that change files: 1 crash at, 2 failure of, 3 short write and then
/// failures, 4 short write
#[derive(Default)]
pub struct FsPlan { pub op: u64, pub kind: u64, pub at: u64, pub part: u64, pub snap: Option<Vec<(String, Vec<Val>)>>, pub hit: bool }

pub struct Exec {
    pub p: Prog,
    pub mem: Mem,
    pub ex: Ex,
    pub z: Solver,
    pub pc: Vec<E>,
    pub pcset: HashSet<E>,
    pub small_tried: HashSet<E>,
    pub model: Eval,
    pub st: Vec<Frame>,
    pub sh: &'static Shared,
    pub cfg: Cfg,
    pub icount: u64,
    pub iflush: u64,
    pub inputs: Vec<SymIn>,
    pub errno: u64,
    pub files: Vec<(String, Vec<Val>)>,
    pub fds: Vec<(usize, usize)>,
    pub fs: FsPlan,
    pub clock: u64,
    pub keys: HashMap<u64, u64>,
    pub models: Vec<Option<crate::ext::Model>>,
    pub uf_path: bool,
    pub notes: Vec<String>,
    pub brprof: HashMap<String, u64>,
    pub threads: Vec<Thread>,
    /// index into `threads` of what runs now; threads[0] is the main thread
    pub cur: usize,
    /// threads still to be run before the main thread continues
    pub runq: Vec<usize>,
}

#[derive(Debug)]
pub enum Stop { Done, Assumed, Viol(String), Err(String), Hang }
pub type R<T> = Result<T, Stop>;

fn m64(w: u32) -> u64 { if w >= 64 { !0 } else { (1u64 << w) - 1 } }

impl Exec {
    // ---- values -------------------------------------------------------------
    pub fn e(&mut self, v: &Val, w: u32) -> E {
        match v { Val::C(c) => self.ex.c(*c as u128, w), Val::W(c) => self.ex.c(**c, w), Val::S(e) => { debug_assert_eq!(self.ex.w(*e), w); *e } Val::Agg(_) => panic!("aggregate where scalar expected") }
    }
    pub fn v(&self, e: E) -> Val {
        match self.ex.konst(e) { Some(c) => if self.ex.w(e) > 64 { Val::W(Box::new(c)) } else { Val::C(c as u64) }, None => Val::S(e) }
    }
    fn kv(&self, c: u128, w: u32) -> Val { if w > 64 { Val::W(Box::new(c & mask(w))) } else { Val::C(c as u64 & m64(w)) } }
    fn cst(v: &Val) -> Option<u128> { match v { Val::C(c) => Some(*c as u128), Val::W(c) => Some(**c), _ => None } }

    pub fn sbin(&mut self, op: B, w: u32, a: &Val, b: &Val) -> R<Val> {
        if let (Some(x), Some(y)) = (Self::cst(a), Self::cst(b)) {
            if matches!(op, B::UDiv | B::SDiv | B::URem | B::SRem) && y == 0 { return Err(Stop::Viol("division by zero (LLVM UB)".into())); }
            return Ok(self.kv(cbin(op, w, x, y), w));
        }
        let (x, y) = (self.e(a, w), self.e(b, w));
        let r = self.ex.bin(op, x, y);
        Ok(self.v(r))
    }
    pub fn sfbin(&mut self, op: FB, w: u32, a: &Val, b: &Val) -> Val {
        if let (Some(x), Some(y)) = (Self::cst(a), Self::cst(b)) { return self.kv(cfbin(op, w, x, y), w); }
        let (x, y) = (self.e(a, w), self.e(b, w));
        let r = if op == FB::Rem { self.ex.uf("frem", vec![x, y], w) } else { self.ex.fbin(op, x, y) };
        self.v(r)
    }
    pub fn sfun(&mut self, op: FU, w: u32, a: &Val) -> Val {
        if let Some(x) = Self::cst(a) { return self.kv(cfun(op, w, x), w); }
        let x = self.e(a, w);
        let r = self.ex.fun(op, x);
        self.v(r)
    }
    pub fn sicmp(&mut self, p: u8, w: u32, a: &Val, b: &Val) -> Val {
        let (p, sw, neg) = match p { 32 => (P::Eq, false, false), 33 => (P::Eq, false, true), 34 => (P::Ult, true, false), 35 => (P::Ule, true, false), 36 => (P::Ult, false, false), 37 => (P::Ule, false, false),
            38 => (P::Slt, true, false), 39 => (P::Sle, true, false), 40 => (P::Slt, false, false), _ => (P::Sle, false, false) };
        let (a, b) = if sw { (b, a) } else { (a, b) };
        if let (Some(x), Some(y)) = (Self::cst(a), Self::cst(b)) { return Val::C((ccmp(p, w, x, y) ^ neg) as u64); }
        let (x, y) = (self.e(a, w), self.e(b, w));
        let mut r = self.ex.cmp(p, x, y);
        if neg { r = self.ex.not(r); }
        self.v(r)
    }
    pub fn sfcmp(&mut self, p: u8, w: u32, a: &Val, b: &Val) -> Val {
        if p == 0 || p == 15 { return Val::C((p == 15) as u64); }
        if let (Some(x), Some(y)) = (Self::cst(a), Self::cst(b)) {
            let (eq, lt, gt, un) = (cfcmp(FP::Oeq, w, x, y), cfcmp(FP::Olt, w, x, y), cfcmp(FP::Olt, w, y, x), cfcmp(FP::Uno, w, x, y));
            let r = (p & 1 != 0 && eq) || (p & 2 != 0 && gt) || (p & 4 != 0 && lt) || (p & 8 != 0 && un);
            return Val::C(r as u64);
        }
        let (x, y) = (self.e(a, w), self.e(b, w));
        let r = match p {
            1 => self.ex.fcmp(FP::Oeq, x, y),
            2 => self.ex.fcmp(FP::Olt, y, x),
            3 => self.ex.fcmp(FP::Ole, y, x),
            4 => self.ex.fcmp(FP::Olt, x, y),
            5 => self.ex.fcmp(FP::Ole, x, y),
            8 => self.ex.fcmp(FP::Uno, x, y),
            7 => { let u = self.ex.fcmp(FP::Uno, x, y); self.ex.not(u) }
            14 => { let q = self.ex.fcmp(FP::Oeq, x, y); self.ex.not(q) }
            10 => { let q = self.ex.fcmp(FP::Ole, x, y); self.ex.not(q) }
            11 => { let q = self.ex.fcmp(FP::Olt, x, y); self.ex.not(q) }
            12 => { let q = self.ex.fcmp(FP::Ole, y, x); self.ex.not(q) }
            13 => { let q = self.ex.fcmp(FP::Olt, y, x); self.ex.not(q) }
            6 => { let l = self.ex.fcmp(FP::Olt, x, y); let g = self.ex.fcmp(FP::Olt, y, x); self.ex.bin(B::Or, l, g) }
            _ => { let l = self.ex.fcmp(FP::Olt, x, y); let g = self.ex.fcmp(FP::Olt, y, x); let o = self.ex.bin(B::Or, l, g); self.ex.not(o) }
        };
        self.v(r)
    }
    pub fn scast(&mut self, k: Ck, fw: u32, tw: u32, a: &Val) -> Val {
        if let Some(x) = Self::cst(a) {
            let r = match k {
                Ck::Trunc | Ck::ZExt | Ck::Bit => x,
                Ck::SExt => sext(x, fw) as u128,
                Ck::FpToUi => cftou(fw, tw, x),
                Ck::FpToSi => cftos(fw, tw, x),
                Ck::UiToFp => cutof(tw, x),
                Ck::SiToFp => cstof(fw, tw, x),
                Ck::FpCast => cfpcast(fw, tw, x),
            };
            return self.kv(r, tw);
        }
        let x = self.e(a, fw);
        if matches!(k, Ck::UiToFp | Ck::SiToFp) && fw <= 64 && fw > 16 { self.small_int(x, fw, k == Ck::SiToFp); }
        let r = match k {
            Ck::Trunc => self.ex.extract(tw - 1, 0, x),
            Ck::ZExt => self.ex.zext(x, tw),
            Ck::SExt => self.ex.sext(x, tw),
            Ck::Bit => x,
            Ck::FpToUi => self.ex.ftou(x, tw),
            Ck::FpToSi => self.ex.ftos(x, tw),
            Ck::UiToFp => self.ex.utof(x, tw),
            Ck::SiToFp => self.ex.stof(x, tw),
            Ck::FpCast => self.ex.fpcast(x, tw),
        };
        self.v(r)
    }
    /// before an integer becomes a float: is it small enough on this path to be represented exactly?
    fn small_int(&mut self, x: E, w: u32, signed: bool) {
        let g = self.ex.rng[x as usize];
        let lim = 1i128 << 24;
        if (signed && g.sl >= -lim && g.sh <= lim) || (!signed && g.uh <= lim as u128) { return; }
        if !self.small_tried.insert(x) { return; }
        let hi = self.ex.c(lim as u128, w);
        let out = if signed { let lo = self.ex.c((-lim) as u128, w); let a = self.ex.cmp(P::Slt, hi, x); let b = self.ex.cmp(P::Slt, x, lo); self.ex.bin(B::Or, a, b) } else { self.ex.cmp(P::Ult, hi, x) };
        if self.model.get(&self.ex, out) == 1 { return; }
        if let Ok(None) = self.query(&[out]) {
            if signed { let lo = self.ex.c((-lim) as u128, w); let a = self.ex.cmp(P::Sle, x, hi); let b = self.ex.cmp(P::Sle, lo, x); self.ex.learn(a); self.ex.learn(b); } else { let a = self.ex.cmp(P::Ule, x, hi); self.ex.learn(a); }
        }
    }
    pub fn lanes(&self, v: &Val) -> Rc<Vec<Val>> { match v { Val::Agg(x) => x.clone(), _ => panic!("vector expected") } }
    /// bits of a value of the given type (little endian lanes)
    fn to_bits(&mut self, t: &Ty, v: &Val) -> E {
        match t {
            Ty::Vec(n, et) => {
                let w = et.wn().0;
                let l = self.lanes(v);
                let mut acc = self.e(&l[0], w);
                for i in 1..*n as usize { let x = self.e(&l[i], w); acc = self.ex.concat(x, acc); }
                acc
            }
            _ => { let w = t.wn().0; self.e(v, w) }
        }
    }
    fn from_bits(&mut self, t: &Ty, e: E) -> Val {
        match t {
            Ty::Vec(n, et) => {
                let w = et.wn().0;
                Val::Agg(Rc::new((0..*n).map(|i| { let x = self.ex.extract(i * w + w - 1, i * w, e); self.v(x) }).collect()))
            }
            _ => self.v(e),
        }
    }
    pub fn ite_val(&mut self, c: E, a: &Val, b: &Val, t: &Ty) -> Val {
        match t {
            Ty::Vec(n, et) => { let (x, y) = (self.lanes(a), self.lanes(b)); Val::Agg(Rc::new((0..*n as usize).map(|i| self.ite_val(c, &x[i], &y[i], et)).collect())) }
            Ty::Arr(n, et, _) => { let (x, y) = (self.lanes(a), self.lanes(b)); Val::Agg(Rc::new((0..*n as usize).map(|i| self.ite_val(c, &x[i], &y[i], et)).collect())) }
            Ty::Struct(fs) => { let (x, y) = (self.lanes(a), self.lanes(b)); Val::Agg(Rc::new((0..fs.len()).map(|i| self.ite_val(c, &x[i], &y[i], &fs[i].0)).collect())) }
            _ => { let w = t.wn().0; let (x, y) = (self.e(a, w), self.e(b, w)); let r = self.ex.ite(c, x, y); self.v(r) }
        }
    }

    // ---- memory -------------------------------------------------------------
    pub fn bad_access(&self, a: u64, n: u64, what: &str) -> Stop { Stop::Viol(format!("memory error: invalid {} of {} bytes{}", what, n, if a < 4096 { " near null" } else { "" })) }
    pub fn load_scalar(&mut self, a: u64, w: u32) -> R<Val> {
        let n = ((w + 7) / 8) as u64;
        match self.mem.state(a, n) {
            1 => { let x = self.mem.rd(a, n); Ok(Val::C(x & m64(w))) }
            0 => Err(self.bad_access(a, n, "read")),
            _ => {
                let e = self.load_expr(a, n);
                let e = if w != (n as u32) * 8 { self.ex.extract(w - 1, 0, e) } else { e };
                Ok(self.v(e))
            }
        }
    }
    fn byte_expr(&mut self, a: u64) -> E { if self.mem.is_sym(a) { self.mem.sym[&a] } else { let x = self.mem.rd(a, 1); self.ex.c(x as u128, 8) } }
    pub fn load_expr(&mut self, a: u64, n: u64) -> E {
        let mut acc = self.byte_expr(a + n - 1);
        for i in (0..n - 1).rev() { let b = self.byte_expr(a + i); acc = self.ex.concat(acc, b); }
        if let Op::Extract(h, l, x) = *self.ex.op(acc) { return self.ex.extract(h, l, x); }
        acc
    }
    pub fn store_scalar(&mut self, a: u64, w: u32, v: &Val) -> R<()> {
        let n = ((w + 7) / 8) as u64;
        let s = self.mem.state(a, n);
        if s == 0 { return Err(self.bad_access(a, n, "write")); }
        match v {
            Val::C(c) => { self.mem.wr(a, n, *c); if s == 2 { self.mem.mark_concrete(a, n); } }
            Val::W(c) => { let b = c.to_le_bytes(); self.mem.poke_bytes(a, &b[..n as usize]); if s == 2 { self.mem.mark_concrete(a, n); } }
            Val::S(e) => {
                let mut e = *e;
                if w != n as u32 * 8 { e = self.ex.zext(e, n as u32 * 8); }
                for i in 0..n {
                    let b = self.ex.extract_raw(i as u32 * 8 + 7, i as u32 * 8, e);
                    match self.ex.konst(b) { Some(c) => { self.mem.wr(a + i, 1, c as u64); self.mem.mark_concrete(a + i, 1); } None => self.mem.set_sym(a + i, b) }
                }
            }
            Val::Agg(_) => panic!("store agg as scalar"),
        }
        Ok(())
    }
    pub fn load(&mut self, a: u64, t: &Ty) -> R<Val> {
        match t {
            Ty::Vec(n, et) => {
                let w = et.wn().0;
                if w % 8 != 0 {
                    let tot = w * n; let by = ((tot + 7) / 8) as u64;
                    if self.mem.state(a, by) == 0 { return Err(self.bad_access(a, by, "read")); }
                    let e = self.load_expr(a, by);
                    let e = self.ex.extract(tot - 1, 0, e);
                    return Ok(self.from_bits(t, e));
                }
                let mut v = vec![];
                for i in 0..*n as u64 { v.push(self.load_scalar(a + i * (w as u64 / 8), w)?); }
                Ok(Val::Agg(Rc::new(v)))
            }
            Ty::Arr(n, et, sz) => { let mut v = vec![]; for i in 0..*n { v.push(self.load(a + i * sz, et)?); } Ok(Val::Agg(Rc::new(v))) }
            Ty::Struct(fs) => { let mut v = vec![]; for (ft, off) in fs.iter() { v.push(self.load(a + off, ft)?); } Ok(Val::Agg(Rc::new(v))) }
            Ty::Int(w) if *w > 64 => {
                let n = ((w + 7) / 8) as u64;
                match self.mem.state(a, n) {
                    0 => Err(self.bad_access(a, n, "read")),
                    1 => { let mut b = [0u8; 16]; b[..n as usize].copy_from_slice(self.mem.bytes(a, n)); Ok(Val::W(Box::new(u128::from_le_bytes(b) & mask(*w)))) }
                    _ => { let e = self.load_expr(a, n); let e = if *w != n as u32 * 8 { self.ex.extract(w - 1, 0, e) } else { e }; Ok(self.v(e)) }
                }
            }
            _ => self.load_scalar(a, t.wn().0),
        }
    }
    pub fn store(&mut self, a: u64, t: &Ty, v: &Val) -> R<()> {
        match t {
            Ty::Vec(n, et) => {
                let w = et.wn().0;
                if w % 8 != 0 {
                    let tot = w * n; let by = ((tot + 7) / 8) * 8;
                    let e = self.to_bits(t, v);
                    let e = self.ex.zext(e, by);
                    let x = self.v(e);
                    return self.store_scalar(a, by, &x);
                }
                let l = self.lanes(v);
                for i in 0..*n as u64 { self.store_scalar(a + i * (w as u64 / 8), w, &l[i as usize])?; }
                Ok(())
            }
            Ty::Arr(n, et, sz) => { let l = self.lanes(v); for i in 0..*n { self.store(a + i * sz, et, &l[i as usize])?; } Ok(()) }
            Ty::Struct(fs) => { let l = self.lanes(v); for (i, (ft, off)) in fs.iter().enumerate() { self.store(a + off, ft, &l[i])?; } Ok(()) }
            _ => self.store_scalar(a, t.wn().0, v),
        }
    }
    /// load through a possibly symbolic pointer
    fn load_any(&mut self, p: &Val, t: &Ty) -> R<Val> {
        let e = match p { Val::C(a) => return self.load(*a, t), Val::S(e) => *e, _ => panic!("pointer") };
        if !matches!(t, Ty::Struct(_) | Ty::Arr(..)) {
            if let Some(addrs) = self.enumerate(e, 72)? {
                // every feasible address must be valid; otherwise constrain to the bad one and fail
                let w = t.wn();
                let by = if w.1 > 0 { (w.0 as u64 * w.1 as u64 + 7) / 8 } else { (w.0 as u64 + 7) / 8 };
                for &a in &addrs {
                    if self.mem.state(a, by) == 0 { return self.viol_at_value(e, a, by, "read"); }
                }
                let mut acc = self.load(addrs[0], t)?;
                for &a in &addrs[1..] {
                    let x = self.load(a, t)?;
                    let k = self.ex.c(a as u128, 64);
                    let c = self.ex.cmp(P::Eq, e, k);
                    acc = self.ite_val(c, &x, &acc, t);
                }
                return Ok(acc);
            }
        }
        let a = self.concretize(e)?;
        self.load(a as u64, t)
    }
    fn viol_at_value(&mut self, e: E, a: u64, n: u64, what: &str) -> R<Val> {
        let k = self.ex.c(a as u128, 64);
        let c = self.ex.cmp(P::Eq, e, k);
        // take the model of that value
        match self.query(&[c])? { Some(m) => self.model = m, None => {} }
        self.assert_pc(c);
        Err(self.bad_access(a, n, what))
    }
    pub fn addr(&mut self, p: &Val) -> R<u64> {
        match p { Val::C(a) => Ok(*a), Val::S(e) => Ok(self.concretize(*e)? as u64), _ => panic!("pointer") }
    }

    // ---- solver -------------------------------------------------------------
    pub fn assert_pc(&mut self, c: E) {
        if self.ex.konst(c) == Some(1) { return; }
        if let Op::Bin(B::And, a, b) = *self.ex.op(c) { self.assert_pc(a); self.assert_pc(b); return; }
        if self.pcset.insert(c) { self.pc.push(c); self.ex.learn(c); }
    }
    /// satisfiability of pc ∧ extra; returns the combined model
    pub fn query(&mut self, extra: &[E]) -> R<Option<Eval>> {
        let mut vs: VarSet = [0; VW];
        let mut cs: Vec<E> = vec![];
        let mut fp = false;
        for &c in extra { if self.ex.konst(c) == Some(0) { return Ok(None); } for i in 0..VW { vs[i] |= self.ex.vars[c as usize][i]; } fp |= self.ex.isfp[c as usize]; cs.push(c); }
        let mut used = vec![false; self.pc.len()];
        loop {
            let mut ch = false;
            for (i, &c) in self.pc.iter().enumerate() {
                if used[i] { continue; }
                let cv = &self.ex.vars[c as usize];
                if (0..VW).any(|k| cv[k] & vs[k] != 0) { used[i] = true; ch = true; for k in 0..VW { vs[k] |= cv[k]; } fp |= self.ex.isfp[c as usize]; cs.push(c); }
            }
            if !ch { break; }
        }
        let t = Instant::now();
        let mut r = if !fp { self.z.check_inc(&self.ex, &self.pc, extra, &cs) } else { Res::Unknown("".into()) };
        if let Res::Unknown(_) = r { r = self.z.check(&self.ex, &cs, fp); }
        let us = t.elapsed().as_micros() as u64;
        self.sh.queries.fetch_add(1, SeqCst);
        self.sh.solver_us.fetch_add(us, SeqCst);
        self.sh.max_query_us.fetch_max(us, SeqCst);
        if self.cfg.verbose && us > 2_000_000 { eprintln!("[{}] slow query {} ms fp={} constraints={} in {}", unsafe { getpid() }, us / 1000, fp, cs.len(), self.where_()); if std::env::var("SYMEX_DUMP").is_ok() { for &c in &cs { eprintln!("   {}", self.show(c, 12)); } } }
        match r {
            Res::Unsat => { self.sh.unsat.fetch_add(1, SeqCst); Ok(None) }
            Res::Sat(vals, ufv) => {
                self.sh.sat.fetch_add(1, SeqCst);
                let mut nv = self.model.vals.clone();
                nv.resize(self.ex.var_w.len(), 0);
                for (i, v) in vals.iter().enumerate() { if *v != u128::MAX { nv[i] = *v; } }
                let mut m = Eval::new(nv);
                m.uf_vals = ufv;
                // cross-check the solver's model with the native evaluator
                for &c in &cs { if m.get(&self.ex, c) != 1 {
                    if std::env::var("SYMEX_DUMP").is_ok() { eprintln!("model mismatch: {}", self.show(c, 6)); }
                    return Err(Stop::Err(format!("solver model does not satisfy constraint at {}", self.where_()))); } }
                Ok(Some(m))
            }
            Res::Unknown(why) => { self.sh.unknown.fetch_add(1, SeqCst); Err(Stop::Err(format!("solver unknown ({}) at {}", why, self.where_()))) }
        }
    }
    pub fn show(&self, e: E, d: u32) -> String {
        if d == 0 { return format!("#{}", e); }
        match self.ex.op(e) {
            Op::Var(v) => format!("{}:{}", self.ex.var_name[*v as usize], self.ex.w(e)),
            Op::Const(c) => format!("{:#x}", c),
            Op::Bin(o, a, b) => format!("({:?} {} {})", o, self.show(*a, d - 1), self.show(*b, d - 1)),
            Op::Cmp(o, a, b) => format!("({:?} {} {})", o, self.show(*a, d - 1), self.show(*b, d - 1)),
            Op::FBin(o, a, b) => format!("(f{:?} {} {})", o, self.show(*a, d - 1), self.show(*b, d - 1)),
            Op::FCmp(o, a, b) => format!("(f{:?} {} {})", o, self.show(*a, d - 1), self.show(*b, d - 1)),
            Op::Not(a) => format!("(not {})", self.show(*a, d - 1)),
            Op::Extract(h, l, a) => format!("{}[{}:{}]", self.show(*a, d - 1), h, l),
            Op::ZExt(a) => format!("zx{}({})", self.ex.w(e), self.show(*a, d - 1)),
            Op::Concat(a, b) => format!("({}++{})", self.show(*a, d - 1), self.show(*b, d - 1)),
            Op::Ite(c, a, b) => format!("(ite {} {} {})", self.show(*c, d - 1), self.show(*a, d - 1), self.show(*b, d - 1)),
            o => format!("{:?}", o),
        }
    }
    pub fn where_(&self) -> String {
        let mut s = String::new();
        for f in self.st.iter().rev().take(4) { if !s.is_empty() { s.push_str(" < "); } s.push_str(&crate::demangle(&f.f.name)); }
        s
    }
    fn check_stop(&mut self) {
        if self.sh.stop.load(SeqCst) != 0 { self.finish_quiet(); }
        if Instant::now() > self.cfg.deadline { self.sh.timeout.store(1, SeqCst); self.sh.stop.store(1, SeqCst); self.finish_quiet(); }
    }
    fn finish_quiet(&mut self) -> ! {
        self.sh.instrs.fetch_add(self.icount - self.iflush, SeqCst);
        self.sh.running.fetch_sub(1, SeqCst);
        unsafe { _exit(0) }
    }
    fn try_token(&self) -> bool {
        let mx = self.sh.max_running.load(SeqCst);
        self.sh.running.fetch_update(SeqCst, SeqCst, |r| if r < mx { Some(r + 1) } else { None }).is_ok()
    }
    /// may a process whose child is still busy go on beside it?  Bounds the number of live processes (memory).
    fn may_widen(&self) -> bool {
        let l = |a: &AtomicU64| a.load(SeqCst);
        let ended = l(&self.sh.ok) + l(&self.sh.assumed) + l(&self.sh.viol) + l(&self.sh.err);
        let live = (l(&self.sh.forks) + 1).saturating_sub(ended);
        live < 200 || (live < 600 && l(&self.sh.running) * 2 < l(&self.sh.max_running))
    }
    /// fork; returns true in the child
    fn split(&mut self) -> R<bool> {
        self.check_stop();
        self.sh.forks.fetch_add(1, SeqCst);
        let own = self.try_token();
        if self.cfg.prof { *self.brprof.entry(self.where_()).or_insert(0) += 1; eprintln!("FORK {}", self.where_()); }
        let pid = unsafe { fork() };
        if pid < 0 { return Err(Stop::Err("fork failed".into())); }
        if pid == 0 {
            self.iflush = self.icount;
            return Ok(true);
        }
        if !own {
            // the child took over our token; wait until it ends or a slot is free
            let mut k = 0u32;
            loop {
                let mut st = 0;
                let r = unsafe { waitpid(pid, &mut st, 1) };
                let dead = r == pid || r < 0;
                if r == pid && st != 0 { self.sh.crashed.fetch_add(1, SeqCst); self.sh.running.fetch_sub(1, SeqCst); }
                if (dead || (k > 16 && self.may_widen())) && self.try_token() { break; }
                if self.sh.stop.load(SeqCst) != 0 { unsafe { _exit(0) } }
                k += 1;
                unsafe { usleep(if k < 8 { 200 } else { 2000 }); }
            }
        }
        Ok(false)
    }
    /// decide a symbolic condition; forks when both sides are feasible
    pub fn branch(&mut self, c: E) -> R<bool> {
        if let Some(k) = self.ex.konst(c) { return Ok(k == 1); }
        if self.pcset.contains(&c) { return Ok(true); }
        let nc = self.ex.not(c);
        if self.pcset.contains(&nc) { return Ok(false); }
        let b = self.model.get(&self.ex, c) == 1;
        let (mine, other) = if b { (c, nc) } else { (nc, c) };
        match self.query(&[other])? {
            None => { if self.pc.len() < 4000 { self.pcset.insert(mine); } self.ex.learn(mine); Ok(b) }
            Some(m) => {
                if self.split()? { self.assert_pc(other); self.model = m; Ok(!b) } else { self.assert_pc(mine); Ok(b) }
            }
        }
    }
    pub fn assume(&mut self, c: E) -> R<()> {
        if let Some(k) = self.ex.konst(c) { return if k == 1 { Ok(()) } else { Err(Stop::Assumed) }; }
        if self.model.get(&self.ex, c) == 1 { self.assert_pc(c); return Ok(()); }
        match self.query(&[c])? { None => Err(Stop::Assumed), Some(m) => { self.model = m; self.assert_pc(c); Ok(()) } }
    }
    /// fork over every feasible value of e
    pub fn concretize(&mut self, e: E) -> R<u128> {
        loop {
            if let Some(k) = self.ex.konst(e) { return Ok(k); }
            let v = self.model.get(&self.ex, e);
            let k = self.ex.c(v, self.ex.w(e));
            let eq = self.ex.cmp(P::Eq, e, k);
            if self.pcset.contains(&eq) { return Ok(v); }
            let ne = self.ex.not(eq);
            match self.query(&[ne])? {
                None => { self.assert_pc(eq); return Ok(v); }
                Some(m) => { if self.split()? { self.assert_pc(ne); self.model = m; } else { self.assert_pc(eq); return Ok(v); } }
            }
        }
    }
    /// all feasible values of e if there are at most lim
    fn enumerate(&mut self, e: E, lim: usize) -> R<Option<Vec<u64>>> {
        let w = self.ex.w(e);
        let v0 = self.model.get(&self.ex, e) as u64;
        let mut vals = vec![v0];
        let mut ex: Vec<E> = vec![];
        loop {
            let k = self.ex.c(*vals.last().unwrap() as u128, w);
            let eq = self.ex.cmp(P::Eq, e, k);
            let ne = self.ex.not(eq);
            ex.push(ne);
            match self.query(&ex.clone())? {
                None => return Ok(Some(vals)),
                Some(mut m) => { vals.push(m.get(&self.ex, e) as u64); if vals.len() > lim { return Ok(None); } }
            }
        }
    }

    // ---- main loop ----------------------------------------------------------
    #[inline(always)]
    fn get(&self, o: &Opd) -> Val {
        match o { Opd::C(c) => Val::C(*c), Opd::R(r) => self.st.last().unwrap().regs[*r as usize].clone(), Opd::K(k) => self.st.last().unwrap().f.consts[*k as usize].clone() }
    }
    #[inline(always)]
    fn set(&mut self, d: Reg, v: Val) { if d != NOREG { self.st.last_mut().unwrap().regs[d as usize] = v; } }

    pub fn push_call(&mut self, fi: u32, args: Vec<Val>, ret: Reg) -> R<()> {
        let f = self.p.func(&mut self.mem, fi);
        let i = fi as usize;
        if i < MAXF { let b = 1u64 << (i % 64); if self.sh.funcs[i / 64].load(std::sync::atomic::Ordering::Relaxed) & b == 0 { self.sh.funcs[i / 64].fetch_or(b, SeqCst); } }
        if self.st.len() > 4000 { return Err(Stop::Viol("call stack overflow".into())); }
        let mut regs = args;
        regs.resize(f.nregs as usize, Val::C(0));
        let sp = self.mem.sp;
        self.st.push(Frame { f, fi, regs, blk: 0, ip: 0, sp, ret });
        Ok(())
    }
    #[inline(always)]
    fn goto(&mut self, e: &Edge) {
        let fr = self.st.last_mut().unwrap();
        match e.moves.len() {
            0 => {}
            1 => { let (d, o) = &e.moves[0]; let v = match o { Opd::C(c) => Val::C(*c), Opd::R(r) => fr.regs[*r as usize].clone(), Opd::K(k) => fr.f.consts[*k as usize].clone() }; fr.regs[*d as usize] = v; }
            _ => {
                let vs: Vec<Val> = e.moves.iter().map(|(_, o)| match o { Opd::C(c) => Val::C(*c), Opd::R(r) => fr.regs[*r as usize].clone(), Opd::K(k) => fr.f.consts[*k as usize].clone() }).collect();
                for ((d, _), v) in e.moves.iter().zip(vs) { fr.regs[*d as usize] = v; }
            }
        }
        fr.blk = e.to;
        fr.ip = 0;
    }
    pub fn run(&mut self) -> Stop {
        match self.run_inner() { Ok(()) => Stop::Done, Err(s) => s }
    }
    fn run_inner(&mut self) -> R<()> {
        loop {
            self.icount += 1;
            if self.icount & 0xfffff == 0 { self.check_stop(); if self.icount > self.cfg.max_instr { return Err(Stop::Hang); } }
            let fr = self.st.last_mut().unwrap();
            // SAFETY: the function is kept alive by the frame (and by the program's cache)
            let f: &'static Func = unsafe { &*(Rc::as_ptr(&fr.f)) };
            let ins = &f.blocks[fr.blk as usize][fr.ip as usize];
            fr.ip += 1;
            match ins {
                In::Bin { op, w, n, d, a, b } => {
                    let (a, b) = (self.get(a), self.get(b));
                    if *n == 0 {
                        if let (Val::C(x), Val::C(y)) = (&a, &b) {
                            let (x, y) = (*x, *y);
                            let m = m64(*w);
                            let r = match op { B::Add => Some(x.wrapping_add(y) & m), B::Sub => Some(x.wrapping_sub(y) & m), B::And => Some(x & y), B::Or => Some(x | y), B::Xor => Some(x ^ y),
                                B::Mul if *w <= 64 => Some(x.wrapping_mul(y) & m), B::Shl if y < *w as u64 => Some((x << y) & m), B::LShr if y < *w as u64 => Some(x >> y), _ => None };
                            if let Some(r) = r { self.set(*d, Val::C(r)); continue; }
                        }
                        let r = self.sbin(*op, *w, &a, &b)?;
                        self.set(*d, r);
                    } else {
                        let (x, y) = (self.lanes(&a), self.lanes(&b));
                        let mut v = Vec::with_capacity(x.len());
                        for i in 0..x.len() { v.push(self.sbin(*op, *w, &x[i], &y[i])?); }
                        self.set(*d, Val::Agg(Rc::new(v)));
                    }
                }
                In::ICmp { p, w, n, d, a, b } => {
                    let (a, b) = (self.get(a), self.get(b));
                    if *n == 0 { let r = self.sicmp(*p, *w, &a, &b); self.set(*d, r); }
                    else { let (x, y) = (self.lanes(&a), self.lanes(&b)); let v = (0..x.len()).map(|i| self.sicmp(*p, *w, &x[i], &y[i])).collect(); self.set(*d, Val::Agg(Rc::new(v))); }
                }
                In::LoadS { w, d, p } => {
                    let p = self.get(p);
                    let r = if let Val::C(a) = p { self.load_scalar(a, *w)? } else { self.load_any(&p, &Ty::Int(*w))? };
                    self.set(*d, r);
                }
                In::StoreS { w, v, p } => {
                    let (p, v) = (self.get(p), self.get(v));
                    let a = self.addr(&p)?;
                    self.store_scalar(a, *w, &v)?;
                }
                In::Gep { d, base, off, idx } => {
                    let b = self.get(base);
                    let mut sym = !matches!(b, Val::C(_));
                    let mut acc = if let Val::C(x) = b { x.wrapping_add(*off) } else { *off };
                    if !sym {
                        for (o, sc, iw) in idx.iter() {
                            match self.get(o) { Val::C(x) => { let x = if *iw == 64 { x } else { sext(x as u128, *iw) as u64 }; acc = acc.wrapping_add(x.wrapping_mul(*sc)); } _ => { sym = true; break; } }
                        }
                    }
                    if !sym { self.set(*d, Val::C(acc)); }
                    else {
                        let mut e = self.e(&b, 64);
                        let k = self.ex.c(*off as u128, 64);
                        for (o, sc, iw) in idx.iter() {
                            let v = self.get(o);
                            let x = self.e(&v, *iw);
                            let x = if *iw < 64 { self.ex.sext(x, 64) } else { x };
                            let s = self.ex.c(*sc as u128, 64);
                            let x = self.ex.bin(B::Mul, x, s);
                            e = self.ex.bin(B::Add, e, x);
                        }
                        e = self.ex.bin(B::Add, e, k);
                        let v = self.v(e);
                        self.set(*d, v);
                    }
                }
                In::Br(e) => self.goto(e),
                In::CondBr { c, t, f } => {
                    let b = match self.get(c) { Val::C(c) => c != 0, Val::S(e) => self.branch(e)?, _ => panic!() };
                    self.goto(if b { t } else { f });
                }
                In::Switch { c, w, def, cases, map } => {
                    match self.get(c) {
                        Val::C(k) => match map.get(&k) { Some(&i) => self.goto(&cases[i as usize].1), None => self.goto(def) },
                        Val::S(e) => {
                            // group by target so that several values share a path
                            let mut left: Vec<u32> = vec![];
                            for (_, ed) in cases.iter() { if ed.moves.is_empty() && !left.contains(&ed.to) { left.push(ed.to); } }
                            let mut taken = false;
                            let mut done: HashSet<u32> = HashSet::new();
                            for i in 0..cases.len() {
                                let (k, ed) = &cases[i];
                                let mut cond = { let kk = self.ex.c(*k as u128, *w); self.ex.cmp(P::Eq, e, kk) };
                                if ed.moves.is_empty() {
                                    if !done.insert(ed.to) { continue; }
                                    for (k2, e2) in cases.iter().skip(i + 1) { if e2.to == ed.to && e2.moves.is_empty() { let kk = self.ex.c(*k2 as u128, *w); let q = self.ex.cmp(P::Eq, e, kk); cond = self.ex.bin(B::Or, cond, q); } }
                                }
                                if self.branch(cond)? { self.goto(ed); taken = true; break; }
                            }
                            if !taken { self.goto(def); }
                        }
                        x => return Err(Stop::Err(format!("switch on {:?}", x))),
                    }
                }
                In::Call { d, f, args } => {
                    match f {
                        Callee::Intr(i) => { let av: Vec<Val> = args.iter().map(|a| self.get(a)).collect(); let r = self.intrinsic(i, av)?; if let Some(r) = r { self.set(*d, r); } }
                        Callee::Func(fi) => {
                            let av: Vec<Val> = args.iter().map(|a| self.get(a)).collect();
                            self.do_call(*fi, av, *d)?;
                        }
                        Callee::Ind(o) => {
                            let t = self.get(o);
                            let a = self.addr(&t)?;
                            let i = a.wrapping_sub(FN_BASE) / 16;
                            if a < FN_BASE || i >= self.p.funcs.len() as u64 { return Err(Stop::Viol("call through an invalid function pointer".into())); }
                            let av: Vec<Val> = args.iter().map(|a| self.get(a)).collect();
                            self.do_call(i as u32, av, *d)?;
                        }
                        Callee::Asm(s) => { if s.contains("\"/*${0:q}*/\", \"=&r,0,") || s.contains("\"/*${0:k}*/\", \"=&r,0,") { let v = self.get(&args[0]); if *d != NOREG { self.set(*d, v); } } else if s.contains("cpuid") { // a processor without optional features
                            if *d != NOREG { self.set(*d, Val::Agg(Rc::new(vec![Val::C(0); 4]))); } } else if s.contains("\"\"") || s.contains("asm sideeffect \"\"") { } else { return Err(Stop::Err(format!("inline asm {} in {}", s, self.where_()))); } }
                    }
                }
                In::Ret(v) => {
                    let v = v.as_ref().map(|o| self.get(o));
                    let fr = self.st.pop().unwrap();
                    self.mem.pop_stack(fr.sp);
                    if self.st.is_empty() {
                        if self.cur == 0 { return Ok(()); }
                        let k = self.cur;
                        self.threads[k].done = true;
                        self.next_thread()?;
                        continue;
                    }
                    if let Some(v) = v { self.set(fr.ret, v); }
                }
                In::Select { d, c, a, b, n, ty } => {
                    let c = self.get(c);
                    match c {
                        Val::C(k) => { let v = if k != 0 { self.get(a) } else { self.get(b) }; self.set(*d, v); }
                        Val::S(e) => {
                            let (x, y) = (self.get(a), self.get(b));
                            if *ty == Ty::Ptr { let t = self.branch(e)?; self.set(*d, if t { x } else { y }); }
                            else { let r = self.ite_val(e, &x, &y, ty); self.set(*d, r); }
                        }
                        Val::Agg(l) => {
                            let (x, y) = (self.get(a), self.get(b));
                            let (x, y) = (self.lanes(&x), self.lanes(&y));
                            let et = match ty { Ty::Vec(_, t) => t.clone(), _ => panic!() };
                            let mut v = vec![];
                            for i in 0..*n as usize { v.push(match &l[i] { Val::C(k) => if *k != 0 { x[i].clone() } else { y[i].clone() }, Val::S(e) => self.ite_val(*e, &x[i], &y[i], &et), _ => panic!() }); }
                            self.set(*d, Val::Agg(Rc::new(v)));
                        }
                        _ => panic!(),
                    }
                }
                In::Cast { k, fw, n, tw, d, a, fty, tty } => {
                    let a = self.get(a);
                    let r = if *k == Ck::Bit {
                        if !matches!(fty, Ty::Vec(..)) && !matches!(tty, Ty::Vec(..)) { a } else { let e = self.to_bits(fty, &a); self.from_bits(tty, e) }
                    } else if *n == 0 {
                        match (&a, k) { (Val::C(x), Ck::Trunc) => Val::C(x & m64(*tw)), (Val::C(x), Ck::ZExt) if *tw <= 64 => Val::C(*x), _ => self.scast(*k, *fw, *tw, &a) }
                    } else { let l = self.lanes(&a); Val::Agg(Rc::new((0..l.len()).map(|i| self.scast(*k, *fw, *tw, &l[i])).collect())) };
                    self.set(*d, r);
                }
                In::FBin { op, w, n, d, a, b } => {
                    let (a, b) = (self.get(a), self.get(b));
                    if *n == 0 { let r = self.sfbin(*op, *w, &a, &b); self.set(*d, r); }
                    else { let (x, y) = (self.lanes(&a), self.lanes(&b)); let v = (0..x.len()).map(|i| self.sfbin(*op, *w, &x[i], &y[i])).collect(); self.set(*d, Val::Agg(Rc::new(v))); }
                }
                In::FNeg { w, n, d, a } => {
                    let a = self.get(a);
                    if *n == 0 { let r = self.sfun(FU::Neg, *w, &a); self.set(*d, r); }
                    else { let x = self.lanes(&a); let v = (0..x.len()).map(|i| self.sfun(FU::Neg, *w, &x[i])).collect(); self.set(*d, Val::Agg(Rc::new(v))); }
                }
                In::FCmp { p, w, n, d, a, b } => {
                    let (a, b) = (self.get(a), self.get(b));
                    if *n == 0 { let r = self.sfcmp(*p, *w, &a, &b); self.set(*d, r); }
                    else { let (x, y) = (self.lanes(&a), self.lanes(&b)); let v = (0..x.len()).map(|i| self.sfcmp(*p, *w, &x[i], &y[i])).collect(); self.set(*d, Val::Agg(Rc::new(v))); }
                }
                In::Load { ty, d, p } => { let p = self.get(p); let r = self.load_any(&p, ty)?; self.set(*d, r); }
                In::Store { ty, v, p } => { let (p, v) = (self.get(p), self.get(v)); let a = self.addr(&p)?; self.store(a, ty, &v)?; }
                In::ExtractV { d, a, idx } => { let mut v = self.get(a); for &i in idx.iter() { let l = self.lanes(&v); v = l[i as usize].clone(); } self.set(*d, v); }
                In::InsertV { d, a, v, idx } => { let (a, v) = (self.get(a), self.get(v)); fn ins(a: &Val, v: Val, ix: &[u32]) -> Val { if ix.is_empty() { return v; } match a { Val::Agg(l) => { let mut n = (**l).clone(); let old = n[ix[0] as usize].clone(); n[ix[0] as usize] = ins(&old, v, &ix[1..]); Val::Agg(Rc::new(n)) } _ => panic!() } } let r = ins(&a, v, idx); self.set(*d, r); }
                In::ExtractE { d, a, i } => { let (a, i) = (self.get(a), self.get(i)); let i = match i { Val::S(e) => self.concretize(e)? as u64, Val::C(c) => c, _ => panic!() }; let l = self.lanes(&a); let v = l.get(i as usize).cloned().unwrap_or(Val::C(0)); self.set(*d, v); }
                In::InsertE { d, a, v, i } => { let (a, v, i) = (self.get(a), self.get(v), self.get(i)); let i = match i { Val::S(e) => self.concretize(e)? as u64, Val::C(c) => c, _ => panic!() }; let mut l = (*self.lanes(&a)).clone(); if (i as usize) < l.len() { l[i as usize] = v; } self.set(*d, Val::Agg(Rc::new(l))); }
                In::Shuffle { d, a, b, n, mask } => {
                    let (a, b) = (self.get(a), self.get(b));
                    let (x, y) = (self.lanes(&a), self.lanes(&b));
                    let v = mask.iter().map(|&m| if m < 0 { Val::C(0) } else if (m as u32) < *n { x[m as usize].clone() } else { y[m as usize - *n as usize].clone() }).collect();
                    self.set(*d, Val::Agg(Rc::new(v)));
                }
                In::Alloca { d, size, align, cnt } => { let c = self.get(cnt); let c = match c { Val::C(c) => c, _ => return Err(Stop::Err("symbolic alloca".into())) }; let a = self.mem.alloca(size * c, *align); self.set(*d, Val::C(a)); }
                In::Rmw { op, w, d, p, v } => {
                    let (p, v) = (self.get(p), self.get(v));
                    let a = self.addr(&p)?;
                    let old = self.load_scalar(a, *w)?;
                    let nv = match op {
                        0 => v, 1 => self.sbin(B::Add, *w, &old, &v)?, 2 => self.sbin(B::Sub, *w, &old, &v)?, 3 => self.sbin(B::And, *w, &old, &v)?, 5 => self.sbin(B::Or, *w, &old, &v)?, 6 => self.sbin(B::Xor, *w, &old, &v)?,
                        7..=10 => { let pr = match op { 7 => 38, 8 => 40, 9 => 34, _ => 36 }; let c = self.sicmp(pr, *w, &old, &v); match c { Val::C(k) => if k != 0 { old.clone() } else { v }, Val::S(e) => self.ite_val(e, &old, &v, &Ty::Int(*w)), _ => panic!() } }
                        _ => return Err(Stop::Err(format!("atomicrmw {}", op))),
                    };
                    self.store_scalar(a, *w, &nv)?;
                    self.set(*d, old);
                }
                In::CmpXchg { w, d, p, c, n } => {
                    let (p, c, n) = (self.get(p), self.get(c), self.get(n));
                    let a = self.addr(&p)?;
                    let old = self.load_scalar(a, *w)?;
                    let eq = self.sicmp(32, *w, &old, &c);
                    let b = match eq { Val::C(k) => k != 0, Val::S(e) => self.branch(e)?, _ => panic!() };
                    if b { self.store_scalar(a, *w, &n)?; }
                    self.set(*d, Val::Agg(Rc::new(vec![old, Val::C(b as u64)])));
                }
                In::Copy { d, a } => { let v = self.get(a); self.set(*d, v); }
                In::Nop => {}
                In::Unreachable => return Err(Stop::Viol(format!("reached unreachable code in {}", self.where_()))),
                In::Bad(s) => return Err(Stop::Err(format!("unsupported: {} in {}", s, self.where_()))),
            }
        }
    }
    /// gives the processor to thread k
    fn switch_to(&mut self, k: usize) -> R<()> {
        let c = self.cur;
        if c == k { return Ok(()); }
        self.threads[c].sp = self.mem.sp;
        self.threads[c].st = std::mem::take(&mut self.st);
        self.threads[c].keys = std::mem::take(&mut self.keys);
        for (a, init) in self.p.tls.iter() {
            let n = init.len() as u64;
            if self.mem.state(*a, n) == 2 { return Err(Stop::Err("symbolic data in a thread local".into())); }
            let cur = self.mem.bytes(*a, n).to_vec();
            self.threads[c].tls.insert(*a, cur);
            let new = self.threads[k].tls.get(a).unwrap_or(init).clone();
            self.mem.poke_bytes(*a, &new);
        }
        self.cur = k;
        self.mem.sp = self.threads[k].sp;
        self.st = std::mem::take(&mut self.threads[k].st);
        self.keys = std::mem::take(&mut self.threads[k].keys);
        if k != 0 && !self.threads[k].started {
            self.threads[k].started = true;
            let (f, a) = (self.threads[k].start, self.threads[k].arg);
            self.push_call(f, vec![Val::C(a)], NOREG)?;
        }
        Ok(())
    }
    fn next_thread(&mut self) -> R<()> { loop { let k = self.runq.pop().unwrap_or(0); if !self.threads[k].done { return self.switch_to(k); } } }
    /// scheduling points; true when the call was one
    fn sched_call(&mut self, fi: u32, args: &[Val], d: Reg) -> R<bool> {
        match self.p.fnames[fi as usize].as_str() {
            "pthread_create" => {
                let p = self.addr(&args[0])?;
                let f = self.addr(&args[2])?; let a = self.addr(&args[3])?;
                let k = self.threads.len();
                self.store_scalar(p, 64, &Val::C(0x7700 + k as u64))?;
                let sp = self.mem.thread_stack(k);
                self.threads.push(Thread { start: ((f - FN_BASE) / 16) as u32, arg: a, st: vec![], sp, tls: HashMap::new(), keys: HashMap::new(), started: false, done: false });
                self.set(d, Val::C(0));
                Ok(true)
            }
            "__sym_run_threads" => {
                if self.cur != 0 { return Err(Stop::Err("run_threads outside the main thread".into())); }
                self.runq = (1..self.threads.len()).rev().filter(|k| !self.threads[*k].done).collect();
                self.next_thread()?;
                Ok(true)
            }
            "nanosleep" | "clock_nanosleep" => {
                self.set(d, Val::C(0));
                if self.cur != 0 { self.next_thread()?; }
                Ok(true)
            }
            "pthread_join" => {
                let t = self.cint(&args[0])?;
                let k = t.wrapping_sub(0x7700) as usize;
                self.set(d, Val::C(0));
                if self.cur != 0 || k >= self.threads.len() { return Err(Stop::Err("join of an unknown thread".into())); }
                if !self.threads[k].done { self.runq = vec![k, k, k]; self.next_thread()?; }
                Ok(true)
            }
            _ => Ok(false),
        }
    }
    fn do_call(&mut self, fi: u32, args: Vec<Val>, d: Reg) -> R<()> {
        if self.p.fdecl[fi as usize] && self.sched_call(fi, &args, d)? { return Ok(()); }
        if let Some(m) = self.models[fi as usize] {
            if self.cfg.trace { eprintln!("  ext {}", self.p.fnames[fi as usize]); }
            let r = m(self, &args)?;
            if let Some(r) = r { self.set(d, r); }
            return Ok(());
        }
        if self.p.fdecl[fi as usize] { return Err(Stop::Err(format!("no model for external {} called from {}", self.p.fnames[fi as usize], self.where_()))); }
        if self.cfg.trace { eprintln!("{:w$}call {}", "", crate::demangle(&self.p.fnames[fi as usize]), w = self.st.len()); }
        let n = unsafe { crate::llvm::LLVMCountParams(self.p.funcs[fi as usize]) } as usize;
        let mut args = args;
        args.truncate(n);
        self.push_call(fi, args, d)
    }
    pub fn cint(&mut self, v: &Val) -> R<u64> { match v { Val::C(c) => Ok(*c), Val::S(e) => Ok(self.concretize(*e)? as u64), Val::W(c) => Ok(**c as u64), _ => panic!("int") } }

    pub fn memcpy(&mut self, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 { return Ok(()); }
        let (a, b) = (self.mem.state(s, n), self.mem.state(d, n));
        if a == 0 { return Err(self.bad_access(s, n, "read (copy)")); }
        if b == 0 { return Err(self.bad_access(d, n, "write (copy)")); }
        self.mem.copy(d, s, n, a == 2 || b == 2);
        Ok(())
    }
    fn un_lanes(&mut self, t: &Ty, v: &Val, f: &mut dyn FnMut(&mut Exec, u32, &Val) -> R<Val>) -> R<Val> {
        match t { Ty::Vec(_, et) => { let w = et.wn().0; let l = self.lanes(v); let mut r = vec![]; for x in l.iter() { r.push(f(self, w, x)?); } Ok(Val::Agg(Rc::new(r))) } _ => f(self, t.wn().0, v) }
    }
    fn bi_lanes(&mut self, t: &Ty, a: &Val, b: &Val, f: &mut dyn FnMut(&mut Exec, u32, &Val, &Val) -> R<Val>) -> R<Val> {
        match t { Ty::Vec(_, et) => { let w = et.wn().0; let (l, m) = (self.lanes(a), self.lanes(b)); let mut r = vec![]; for i in 0..l.len() { r.push(f(self, w, &l[i], &m[i])?); } Ok(Val::Agg(Rc::new(r))) } _ => f(self, t.wn().0, a, b) }
    }
    fn pick(&mut self, c: Val, a: &Val, b: &Val, w: u32) -> Val { match c { Val::C(k) => if k != 0 { a.clone() } else { b.clone() }, Val::S(e) => { let (x, y) = (self.e(a, w), self.e(b, w)); let r = self.ex.ite(e, x, y); self.v(r) } _ => panic!() } }

    fn intrinsic(&mut self, it: &Intr, a: Vec<Val>) -> R<Option<Val>> {
        let n = it.name.strip_prefix("llvm.").unwrap();
        let t0 = it.args.get(0).cloned().unwrap_or(Ty::Void);
        let is = |p: &str| n == p || (n.starts_with(p) && n.as_bytes()[p.len()] == b'.');
        if is("memcpy") || is("memmove") || is("memcpy.inline") { let (d, s) = (self.addr(&a[0])?, self.addr(&a[1])?); let l = self.cint(&a[2])?; self.memcpy(d, s, l)?; return Ok(None); }
        if is("memset") {
            let d = self.addr(&a[0])?; let l = self.cint(&a[2])?;
            if l == 0 { return Ok(None); }
            let s = self.mem.state(d, l);
            if s == 0 { return Err(self.bad_access(d, l, "write (set)")); }
            match &a[1] { Val::C(b) => { self.mem.fill(d, *b as u8, l); if s == 2 { self.mem.mark_concrete(d, l); } } Val::S(e) => { for i in 0..l { self.mem.set_sym(d + i, *e); } } _ => panic!() }
            return Ok(None);
        }
        for (nm, b) in [("uadd.with.overflow", B::Add), ("usub.with.overflow", B::Sub), ("umul.with.overflow", B::Mul), ("sadd.with.overflow", B::Add), ("ssub.with.overflow", B::Sub), ("smul.with.overflow", B::Mul)] {
            if is(nm) {
                let w = t0.wn().0;
                let signed = nm.starts_with('s');
                let r = self.sbin(b, w, &a[0], &a[1])?;
                if let (Some(x), Some(y)) = (Self::cst(&a[0]), Self::cst(&a[1])) {
                    let o = if signed { let (x, y) = (sext(x, w), sext(y, w)); let t = match b { B::Add => x.checked_add(y), B::Sub => x.checked_sub(y), _ => x.checked_mul(y) }; match t { None => true, Some(t) => sext(t as u128 & mask(w), w) != t } }
                        else { match b { B::Add => x.checked_add(y).map_or(true, |t| t > mask(w)), B::Sub => x < y, _ => x.checked_mul(y).map_or(true, |t| t > mask(w)) } };
                    return Ok(Some(Val::Agg(Rc::new(vec![r, Val::C(o as u64)]))));
                }
                let (x, y) = (self.e(&a[0], w), self.e(&a[1], w));
                let re = self.e(&r, w);
                let (rx, ry) = (self.ex.rng[x as usize], self.ex.rng[y as usize]);
                let o = if signed && w <= 64 && { let (lo, hi) = match b { B::Add => (rx.sl + ry.sl, rx.sh + ry.sh), B::Sub => (rx.sl - ry.sh, rx.sh - ry.sl), _ => { let p = [rx.sl * ry.sl, rx.sl * ry.sh, rx.sh * ry.sl, rx.sh * ry.sh]; (*p.iter().min().unwrap(), *p.iter().max().unwrap()) } };
                    lo >= -(1i128 << (w - 1)) && hi < (1i128 << (w - 1)) } { self.ex.c(0, 1) }
                else if !signed && w <= 64 && b != B::Sub && (if b == B::Add { rx.uh + ry.uh } else { rx.uh.saturating_mul(ry.uh) }) <= mask(w) { self.ex.c(0, 1) }
                else if signed && b != B::Mul {
                    let p = if b == B::Add { self.ex.bin(B::Xor, x, re) } else { self.ex.bin(B::Xor, x, y) };
                    let q = if b == B::Add { self.ex.bin(B::Xor, y, re) } else { self.ex.bin(B::Xor, x, re) };
                    let m = self.ex.bin(B::And, p, q);
                    let z = self.ex.c(0, w);
                    self.ex.cmp(P::Slt, m, z)
                } else if signed {
                    let w2 = if b == B::Mul { 2 * w } else { w + 1 };
                    if w2 > 128 { return Err(Stop::Err("wide signed overflow".into())); }
                    let (x2, y2) = (self.ex.sext(x, w2), self.ex.sext(y, w2));
                    let full = self.ex.bin(b, x2, y2);
                    let back = self.ex.sext(re, w2);
                    let e = self.ex.cmp(P::Eq, full, back);
                    self.ex.not(e)
                } else {
                    match b {
                        B::Add => self.ex.cmp(P::Ult, re, x),
                        B::Sub => self.ex.cmp(P::Ult, x, y),
                        _ => {
                            let (v, k) = if let Some(k) = self.ex.konst(y) { (x, Some(k)) } else if let Some(k) = self.ex.konst(x) { (y, Some(k)) } else { (x, None) };
                            match k { Some(0) => self.ex.c(0, 1), Some(k) => { let lim = self.ex.c(mask(w) / k, w); self.ex.cmp(P::Ult, lim, v) }
                                None => { let w2 = 2 * w; let (x2, y2) = (self.ex.zext(x, w2), self.ex.zext(y, w2)); let f = self.ex.bin(B::Mul, x2, y2); let hi = self.ex.extract(w2 - 1, w, f); let z = self.ex.c(0, w); let e = self.ex.cmp(P::Eq, hi, z); self.ex.not(e) } }
                        }
                    }
                };
                let ov = self.v(o);
                return Ok(Some(Val::Agg(Rc::new(vec![r, ov]))));
            }
        }
        for (nm, p) in [("umin", 36u8), ("umax", 34), ("smin", 40), ("smax", 38)] {
            if is(nm) { return Ok(Some(self.bi_lanes(&t0, &a[0], &a[1], &mut |s, w, x, y| { let c = s.sicmp(p, w, x, y); Ok(s.pick(c, x, y, w)) })?)); }
        }
        if is("ucmp") || is("scmp") {
            let w = t0.wn().0; let rw = it.ret.wn().0;
            let lt = self.sicmp(if is("ucmp") { 36 } else { 40 }, w, &a[0], &a[1]);
            let eq = self.sicmp(32, w, &a[0], &a[1]);
            let m1 = Val::C(m64(rw));
            let r = self.pick(eq, &Val::C(0), &Val::C(1), rw);
            return Ok(Some(self.pick(lt, &m1, &r, rw)));
        }
        if is("usub.sat") { return Ok(Some(self.bi_lanes(&t0, &a[0], &a[1], &mut |s, w, x, y| { let c = s.sicmp(36, w, x, y); let r = s.sbin(B::Sub, w, x, y)?; Ok(s.pick(c, &Val::C(0), &r, w)) })?)); }
        if is("uadd.sat") { return Ok(Some(self.bi_lanes(&t0, &a[0], &a[1], &mut |s, w, x, y| { let r = s.sbin(B::Add, w, x, y)?; let c = s.sicmp(36, w, &r, x); Ok(s.pick(c, &Val::C(m64(w)), &r, w)) })?)); }
        if is("sadd.sat") || is("ssub.sat") {
            let b = if is("sadd.sat") { B::Add } else { B::Sub };
            return Ok(Some(self.bi_lanes(&t0, &a[0], &a[1], &mut |s, w, x, y| {
                let (p, q) = (s.scast(Ck::SExt, w, w + 1, x), s.scast(Ck::SExt, w, w + 1, y));
                let r = s.sbin(b, w + 1, &p, &q)?;
                let hi = s.kv(mask(w - 1), w + 1); let lo = s.kv((-(1i128 << (w - 1))) as u128, w + 1);
                let c1 = s.sicmp(38, w + 1, &r, &hi); let r1 = s.pick(c1, &hi, &r, w + 1);
                let c2 = s.sicmp(40, w + 1, &r1, &lo); let r2 = s.pick(c2, &lo, &r1, w + 1);
                Ok(s.scast(Ck::Trunc, w + 1, w, &r2)) })?));
        }
        if is("abs") { return Ok(Some(self.un_lanes(&t0, &a[0], &mut |s, w, x| { let z = s.kv(0, w); let ng = s.sbin(B::Sub, w, &z, x)?; let c = s.sicmp(40, w, x, &z); Ok(s.pick(c, &ng, x, w)) })?)); }
        if is("fshl") || is("fshr") {
            let w = t0.wn().0; let left = is("fshl");
            if let Ty::Vec(_, et) = &t0 {
                let one = Intr { name: it.name.clone(), args: vec![(**et).clone(); 3], ret: (**et).clone() };
                let (x, y, z) = (self.lanes(&a[0]), self.lanes(&a[1]), self.lanes(&a[2]));
                let mut r = vec![];
                for i in 0..x.len() { r.push(self.intrinsic(&one, vec![x[i].clone(), y[i].clone(), z[i].clone()])?.unwrap()); }
                return Ok(Some(Val::Agg(Rc::new(r))));
            }
            let wv = self.kv(w as u128, w);
            let sh = self.sbin(B::URem, w, &a[2], &wv)?;
            let (h, l) = (self.e(&a[0], w), self.e(&a[1], w));
            let cc = self.ex.concat(h, l);
            let s = self.e(&sh, w);
            let s2 = self.ex.zext(s, 2 * w);
            let r = if left { let x = self.ex.bin(B::Shl, cc, s2); self.ex.extract(2 * w - 1, w, x) } else { let x = self.ex.bin(B::LShr, cc, s2); self.ex.extract(w - 1, 0, x) };
            return Ok(Some(self.v(r)));
        }
        if is("ctpop") || is("ctlz") || is("cttz") || is("bswap") || is("bitreverse") {
            let k = n.split('.').next().unwrap().to_string();
            return Ok(Some(self.un_lanes(&t0, &a[0], &mut |s, w, x| {
                if let Some(c) = Self::cst(x) {
                    let r = match &k[..] { "ctpop" => c.count_ones() as u128, "ctlz" => (c.leading_zeros() - (128 - w)) as u128, "cttz" => c.trailing_zeros().min(w) as u128, "bswap" => c.swap_bytes() >> (128 - w), _ => c.reverse_bits() >> (128 - w) };
                    return Ok(s.kv(r, w));
                }
                let e = s.e(x, w);
                let r = match &k[..] {
                    "bswap" => { let mut acc = s.ex.extract(7, 0, e); for i in 1..w / 8 { let b = s.ex.extract(i * 8 + 7, i * 8, e); acc = s.ex.concat(acc, b); } acc }
                    "bitreverse" => { let mut acc = s.ex.extract(0, 0, e); for i in 1..w { let b = s.ex.extract(i, i, e); acc = s.ex.concat(acc, b); } acc }
                    "ctpop" => { let mut acc = s.ex.c(0, w); for i in 0..w { let b = s.ex.extract(i, i, e); let b = s.ex.zext(b, w); acc = s.ex.bin(B::Add, acc, b); } acc }
                    "cttz" => { let mut acc = s.ex.c(w as u128, w); for i in (0..w).rev() { let b = s.ex.extract(i, i, e); let k = s.ex.c(i as u128, w); acc = s.ex.ite(b, k, acc); } acc }
                    _ => { let mut acc = s.ex.c(w as u128, w); for i in 0..w { let b = s.ex.extract(i, i, e); let k = s.ex.c((w - 1 - i) as u128, w); acc = s.ex.ite(b, k, acc); } acc }
                };
                Ok(s.v(r)) })?));
        }
        if is("fptoui.sat") || is("fptosi.sat") { let k = if is("fptoui.sat") { Ck::FpToUi } else { Ck::FpToSi }; let tw = it.ret.wn().0; return Ok(Some(self.un_lanes(&t0, &a[0], &mut |s, w, x| Ok(s.scast(k, w, tw, x)))?)); }
        for (nm, f) in [("fabs", FU::Abs), ("sqrt", FU::Sqrt), ("floor", FU::Floor), ("ceil", FU::Ceil), ("trunc", FU::Trunc), ("round", FU::Round), ("rint", FU::RoundEven), ("nearbyint", FU::RoundEven), ("roundeven", FU::RoundEven)] {
            if is(nm) { return Ok(Some(self.un_lanes(&t0, &a[0], &mut |s, w, x| Ok(s.sfun(f, w, x)))?)); }
        }
        for (nm, f) in [("minnum", FB::Min), ("maxnum", FB::Max), ("minimumnum", FB::Min), ("maximumnum", FB::Max)] {
            if is(nm) { return Ok(Some(self.bi_lanes(&t0, &a[0], &a[1], &mut |s, w, x, y| Ok(s.sfbin(f, w, x, y)))?)); }
        }
        if is("copysign") { return Ok(Some(self.bi_lanes(&t0, &a[0], &a[1], &mut |s, w, x, y| { let lo = s.kv(mask(w - 1), w); let hi = s.kv(1u128 << (w - 1), w); let p = s.sbin(B::And, w, x, &lo)?; let q = s.sbin(B::And, w, y, &hi)?; s.sbin(B::Or, w, &p, &q) })?)); }
        if is("fma") || is("fmuladd") {
            let w = t0.wn().0;
            if matches!(t0, Ty::Vec(..)) { let (x, y, z) = (self.lanes(&a[0]), self.lanes(&a[1]), self.lanes(&a[2])); let mut r = vec![]; for i in 0..x.len() { r.push(self.fma1(w, &x[i], &y[i], &z[i], is("fma"))); } return Ok(Some(Val::Agg(Rc::new(r)))); }
            return Ok(Some(self.fma1(w, &a[0], &a[1], &a[2], is("fma"))));
        }
        for nm in ["sin", "cos", "tan", "exp", "exp2", "exp10", "log", "log2", "log10", "tanh", "sinh", "cosh", "asin", "acos", "atan"] {
            if is(nm) { return Ok(Some(self.un_lanes(&t0, &a[0], &mut |s, w, x| Ok(s.libm1(nm, w, x)))?)); }
        }
        for nm in ["pow", "atan2"] { if is(nm) { return Ok(Some(self.bi_lanes(&t0, &a[0], &a[1], &mut |s, w, x, y| Ok(s.libm2(nm, w, x, y)))?)); } }
        if is("powi") {
            let w = t0.wn().0;
            let k = self.cint(&a[1])? as i32;
            if let Some(x) = Self::cst(&a[0]) { let r = if w == 32 { f32::from_bits(x as u32).powi(k).to_bits() as u128 } else { f64::from_bits(x as u64).powi(k).to_bits() as u128 }; return Ok(Some(self.kv(r, w))); }
            // the compiler-rt powi loop
            let mut r = self.kv(if w == 32 { 1f32.to_bits() as u128 } else { 1f64.to_bits() as u128 }, w);
            let mut b = a[0].clone(); let recip = k < 0; let mut kk = k.unsigned_abs();
            loop { if kk & 1 == 1 { r = self.sfbin(FB::Mul, w, &r, &b); } kk >>= 1; if kk == 0 { break; } b = self.sfbin(FB::Mul, w, &b, &b.clone()); }
            if recip { let one = self.kv(if w == 32 { 1f32.to_bits() as u128 } else { 1f64.to_bits() as u128 }, w); r = self.sfbin(FB::Div, w, &one, &r); }
            return Ok(Some(r));
        }
        if is("is.fpclass") {
            let w = t0.wn().0; let m = self.cint(&a[1])?;
            let (mb, eb) = if w == 32 { (23u32, 8u32) } else { (52, 11) };
            let x = self.e(&a[0], w);
            let man = self.ex.extract(mb - 1, 0, x); let exp = self.ex.extract(mb + eb - 1, mb, x); let sg = self.ex.extract(w - 1, w - 1, x);
            let z = self.ex.c(0, mb); let mz = self.ex.cmp(P::Eq, man, z); let nmz = self.ex.not(mz);
            let e0 = self.ex.c(0, eb); let ez = self.ex.cmp(P::Eq, exp, e0); let e1 = self.ex.c(mask(eb), eb); let eo = self.ex.cmp(P::Eq, exp, e1);
            let nsg = self.ex.not(sg);
            let q = self.ex.extract(mb - 1, mb - 1, x); let nq = self.ex.not(q);
            let nez = self.ex.not(ez); let neo = self.ex.not(eo); let norm = self.ex.bin(B::And, nez, neo);
            let nan = self.ex.bin(B::And, eo, nmz); let inf = self.ex.bin(B::And, eo, mz); let sub = self.ex.bin(B::And, ez, nmz); let zero = self.ex.bin(B::And, ez, mz);
            let mut acc = self.ex.c(0, 1);
            let parts: [(E, Option<E>); 10] = [(nan, Some(nq)), (nan, Some(q)), (inf, Some(sg)), (norm, Some(sg)), (sub, Some(sg)), (zero, Some(sg)), (zero, Some(nsg)), (sub, Some(nsg)), (norm, Some(nsg)), (inf, Some(nsg))];
            for (i, (c, s)) in parts.iter().enumerate() { if m >> i & 1 == 1 { let t = match s { Some(s) => self.ex.bin(B::And, *c, *s), None => *c }; acc = self.ex.bin(B::Or, acc, t); } }
            return Ok(Some(self.v(acc)));
        }
        if is("vector.reduce.add") || is("vector.reduce.or") || is("vector.reduce.and") || is("vector.reduce.xor") {
            let b = if n.contains("add") { B::Add } else if n.contains(".or") { B::Or } else if n.contains("and") { B::And } else { B::Xor };
            let w = t0.wn().0; let l = self.lanes(&a[0]); let mut acc = l[0].clone(); for x in l.iter().skip(1) { acc = self.sbin(b, w, &acc, x)?; } return Ok(Some(acc));
        }
        if is("vector.reduce.mul") || is("vector.reduce.umin") || is("vector.reduce.umax") || is("vector.reduce.smin") || is("vector.reduce.smax") {
            let w = t0.wn().0; let l = self.lanes(&a[0]); let mut acc = l[0].clone();
            for x in l.iter().skip(1) { acc = if n.contains("mul") { self.sbin(B::Mul, w, &acc, x)? } else { let p = if n.contains("umin") { 36u8 } else if n.contains("umax") { 34 } else if n.contains("smin") { 40 } else { 38 }; let c = self.sicmp(p, w, &acc, x); self.pick(c, &acc, x, w) }; }
            return Ok(Some(acc));
        }
        if is("vector.reduce.fmul") { let w = it.ret.wn().0; let l = self.lanes(&a[1]); let mut acc = a[0].clone(); for x in l.iter() { acc = self.sfbin(FB::Mul, w, &acc, x); } return Ok(Some(acc)); }
        if is("vector.reduce.fmin") || is("vector.reduce.fmax") { let f = if n.contains("fmin") { FB::Min } else { FB::Max }; let w = it.ret.wn().0; let l = self.lanes(&a[0]); let mut acc = l[0].clone(); for x in l.iter().skip(1) { acc = self.sfbin(f, w, &acc, x); } return Ok(Some(acc)); }
        if is("x86.sse2.pmulhu.w") || is("x86.sse2.pmulh.w") {
            let k = if n.contains("pmulhu") { Ck::ZExt } else { Ck::SExt };
            return Ok(Some(self.bi_lanes(&t0, &a[0], &a[1], &mut |s, w, x, y| { let (p, q) = (s.scast(k, w, 2 * w, x), s.scast(k, w, 2 * w, y)); let m = s.sbin(B::Mul, 2 * w, &p, &q)?; let sh = s.kv(w as u128, 2 * w); let h = s.sbin(B::LShr, 2 * w, &m, &sh)?; Ok(s.scast(Ck::Trunc, 2 * w, w, &h)) })?));
        }
        if is("vector.reduce.fadd") { let w = it.ret.wn().0; let l = self.lanes(&a[1]); let mut acc = a[0].clone(); for x in l.iter() { acc = self.sfbin(FB::Add, w, &acc, x); } return Ok(Some(acc)); }
        if is("load.relative") { let p = self.addr(&a[0])?; let o = self.cint(&a[1])?; let v = self.load_scalar(p.wrapping_add(o), 32)?; let v = self.cint(&v)?; return Ok(Some(Val::C(p.wrapping_add(v as u32 as i32 as i64 as u64)))); }
        if is("threadlocal.address") || is("expect") || is("ssa.copy") || is("launder.invariant.group") || is("strip.invariant.group") { return Ok(Some(a[0].clone())); }
        if is("ptrmask") { return Ok(Some(self.sbin(B::And, 64, &a[0], &a[1])?)); }
        if is("x86.sse2.pause") || is("donothing") || is("sideeffect") || is("stackrestore") { return Ok(None); }
        if is("stacksave") { return Ok(Some(Val::C(0))); }
        if is("is.constant") { return Ok(Some(Val::C(0))); }
        if is("trap") || is("debugtrap") { return Err(Stop::Viol(format!("trap/abort in {}", self.where_()))); }
        Err(Stop::Err(format!("intrinsic llvm.{} in {}", n, self.where_())))
    }
    fn fma1(&mut self, w: u32, a: &Val, b: &Val, c: &Val, fused: bool) -> Val {
        if !fused { let m = self.sfbin(FB::Mul, w, a, b); return self.sfbin(FB::Add, w, &m, c); }
        if let (Some(x), Some(y), Some(z)) = (Self::cst(a), Self::cst(b), Self::cst(c)) { return self.kv(cfma(w, x, y, z), w); }
        let (x, y, z) = (self.e(a, w), self.e(b, w), self.e(c, w));
        let r = self.ex.ffma(x, y, z);
        self.v(r)
    }
    pub fn libm1(&mut self, nm: &str, w: u32, x: &Val) -> Val {
        if let Some(c) = Self::cst(x) {
            macro_rules! f { ($t:ty, $b:expr) => {{ let v: $t = $b; match nm { "sin" => v.sin(), "cos" => v.cos(), "tan" => v.tan(), "exp" => v.exp(), "exp2" => v.exp2(), "exp10" => (10.0 as $t).powf(v), "log" => v.ln(), "log2" => v.log2(), "log10" => v.log10(), "tanh" => v.tanh(), "sinh" => v.sinh(), "cosh" => v.cosh(), "asin" => v.asin(), "acos" => v.acos(), "atan" => v.atan(), _ => panic!("libm {}", nm) } }}; }
            let r = if w == 32 { f!(f32, f32::from_bits(c as u32)).to_bits() as u128 } else { f!(f64, f64::from_bits(c as u64)).to_bits() as u128 };
            return self.kv(r, w);
        }
        let e = self.e(x, w);
        self.uf_path = true;
        let r = self.ex.uf(&format!("{}{}", nm, w), vec![e], w);
        self.v(r)
    }
    pub fn libm2(&mut self, nm: &str, w: u32, x: &Val, y: &Val) -> Val {
        if let (Some(c), Some(d)) = (Self::cst(x), Self::cst(y)) {
            let r = if w == 32 { let (p, q) = (f32::from_bits(c as u32), f32::from_bits(d as u32)); (match nm { "pow" => p.powf(q), "atan2" => p.atan2(q), _ => panic!() }).to_bits() as u128 }
                else { let (p, q) = (f64::from_bits(c as u64), f64::from_bits(d as u64)); (match nm { "pow" => p.powf(q), "atan2" => p.atan2(q), _ => panic!() }).to_bits() as u128 };
            return self.kv(r, w);
        }
        let (e, f) = (self.e(x, w), self.e(y, w));
        self.uf_path = true;
        let r = self.ex.uf(&format!("{}{}", nm, w), vec![e, f], w);
        self.v(r)
    }

    // ---- end of path --------------------------------------------------------
    /// concrete input values of this path, in order of creation
    pub fn input_lines(&mut self) -> String {
        let mut s = String::new();
        let ins: Vec<(String, Vec<E>, u64)> = self.inputs.iter().map(|i| (i.name.clone(), i.addr_vars.clone(), i.len)).collect();
        for (n, vars, len) in ins {
            let mut bytes = vec![];
            for v in vars { let x = self.model.get(&self.ex, v); let w = self.ex.w(v) / 8; for i in 0..w { bytes.push((x >> (8 * i)) as u8); } }
            bytes.truncate(len as usize);
            s.push_str(&format!("{} {}\n", if n.is_empty() { "_".into() } else { n.replace(' ', "_") }, bytes.iter().map(|b| format!("{:02x}", b)).collect::<String>()));
        }
        s
    }
    fn param_lines(&self) -> String { let mut v: Vec<String> = self.cfg.params.iter().map(|(k, v)| format!("#param {} {}\n", k, v)).collect(); v.sort(); v.concat() }
    pub fn finish(&mut self, s: Stop) -> ! {
        let sh = self.sh;
        match s {
            Stop::Done => {
                // keep the models of a few completed paths: they are replayed natively to validate the encoding
                let k = sh.ok.fetch_add(1, SeqCst) + 1;
                if !self.uf_path && (k.is_power_of_two() || k % 97 == 0) && sh.samples.fetch_add(1, SeqCst) < self.cfg.oks {
                    let lines = self.input_lines();
                    let _ = std::fs::write(format!("{}/ok_{}.txt", self.cfg.out, k), format!("{}{}", self.param_lines(), lines));
                }
            }
            Stop::Assumed => { sh.assumed.fetch_add(1, SeqCst); }
            Stop::Err(m) => {
                let k = sh.err.fetch_add(1, SeqCst);
                if k < 20 { eprintln!("symex: path error: {}", m); let _ = std::fs::write(format!("{}/err{}.txt", self.cfg.out, k), m); }
                sh.stop.store(1, SeqCst);
            }
            Stop::Hang | Stop::Viol(_) => {
                let label = match s { Stop::Hang => { sh.hang.fetch_add(1, SeqCst); format!("no termination within {} instructions in {}", self.cfg.max_instr, self.where_()) } Stop::Viol(m) => m, _ => unreachable!() };
                let h = { let mut h = 0xcbf29ce484222325u64; for b in label.bytes() { h = (h ^ b as u64).wrapping_mul(0x100000001b3); } h | 1 };
                sh.viol.fetch_add(1, SeqCst);
                let mut fresh = false;
                for i in 0..NVIOL { let c = sh.viol_labels[i].compare_exchange(0, h, SeqCst, SeqCst); match c { Ok(_) => { fresh = true; break; } Err(x) if x == h => break, _ => {} } }
                if fresh {
                    let lines = self.input_lines();
                    let st: String = self.st.iter().rev().take(12).map(|f| format!("#   {}\n", crate::demangle(&f.f.name))).collect();
                    let f = format!("{}/viol_{:016x}.txt", self.cfg.out, h);
                    let _ = std::fs::write(&f, format!("# {}\n# uf={}\n{}{}{}", label.replace('\n', " "), self.uf_path, st, self.param_lines(), lines));
                    eprintln!("symex: violation candidate: {} -> {}", label, f);
                }
                if sh.viol.load(SeqCst) >= self.cfg.max_viol { sh.stop.store(1, SeqCst); }
            }
        }
        sh.instrs.fetch_add(self.icount - self.iflush, SeqCst);
        sh.running.fetch_sub(1, SeqCst);
        unsafe { _exit(0) }
    }
}
