//! Lowering of the expression DAG to z3 and the query interface.
#![allow(non_snake_case)]
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{CStr, CString};
use std::os::raw::{c_char, c_int, c_uint};

pub enum Opq {}
type C = *mut Opq;
type A = *mut Opq;
type S = *mut Opq;
type O = *mut Opq;
extern "C" {
    fn Z3_mk_config() -> O;
    fn Z3_mk_context_rc(c: O) -> C;
    fn Z3_set_error_handler(c: C, h: Option<extern "C" fn(C, c_int)>);
    fn Z3_get_error_msg(c: C, e: c_int) -> *const c_char;
    fn Z3_inc_ref(c: C, a: A);
    fn Z3_mk_string_symbol(c: C, s: *const c_char) -> O;
    fn Z3_mk_bv_sort(c: C, w: c_uint) -> S;
    fn Z3_mk_fpa_sort(c: C, e: c_uint, s: c_uint) -> S;
    fn Z3_mk_const(c: C, s: O, t: S) -> A;
    fn Z3_mk_numeral(c: C, s: *const c_char, t: S) -> A;
    fn Z3_mk_true(c: C) -> A;
    fn Z3_mk_false(c: C) -> A;
    fn Z3_mk_eq(c: C, a: A, b: A) -> A;
    fn Z3_mk_not(c: C, a: A) -> A;
    fn Z3_mk_and(c: C, n: c_uint, a: *const A) -> A;
    fn Z3_mk_or(c: C, n: c_uint, a: *const A) -> A;
    fn Z3_mk_xor(c: C, a: A, b: A) -> A;
    fn Z3_mk_ite(c: C, a: A, b: A, d: A) -> A;
    fn Z3_mk_bvadd(c: C, a: A, b: A) -> A;
    fn Z3_mk_bvsub(c: C, a: A, b: A) -> A;
    fn Z3_mk_bvmul(c: C, a: A, b: A) -> A;
    fn Z3_mk_bvudiv(c: C, a: A, b: A) -> A;
    fn Z3_mk_bvsdiv(c: C, a: A, b: A) -> A;
    fn Z3_mk_bvurem(c: C, a: A, b: A) -> A;
    fn Z3_mk_bvsrem(c: C, a: A, b: A) -> A;
    fn Z3_mk_bvshl(c: C, a: A, b: A) -> A;
    fn Z3_mk_bvlshr(c: C, a: A, b: A) -> A;
    fn Z3_mk_bvashr(c: C, a: A, b: A) -> A;
    fn Z3_mk_bvand(c: C, a: A, b: A) -> A;
    fn Z3_mk_bvor(c: C, a: A, b: A) -> A;
    fn Z3_mk_bvxor(c: C, a: A, b: A) -> A;
    fn Z3_mk_bvnot(c: C, a: A) -> A;
    fn Z3_mk_bvult(c: C, a: A, b: A) -> A;
    fn Z3_mk_bvule(c: C, a: A, b: A) -> A;
    fn Z3_mk_bvslt(c: C, a: A, b: A) -> A;
    fn Z3_mk_bvsle(c: C, a: A, b: A) -> A;
    fn Z3_mk_extract(c: C, h: c_uint, l: c_uint, a: A) -> A;
    fn Z3_mk_concat(c: C, a: A, b: A) -> A;
    fn Z3_mk_zero_ext(c: C, n: c_uint, a: A) -> A;
    fn Z3_mk_sign_ext(c: C, n: c_uint, a: A) -> A;
    fn Z3_mk_fpa_to_fp_bv(c: C, bv: A, s: S) -> A;
    fn Z3_mk_fpa_to_fp_float(c: C, rm: A, t: A, s: S) -> A;
    fn Z3_mk_fpa_to_fp_signed(c: C, rm: A, t: A, s: S) -> A;
    fn Z3_mk_fpa_to_fp_unsigned(c: C, rm: A, t: A, s: S) -> A;
    fn Z3_mk_fpa_to_ieee_bv(c: C, t: A) -> A;
    fn Z3_mk_fpa_to_ubv(c: C, rm: A, t: A, sz: c_uint) -> A;
    fn Z3_mk_fpa_to_sbv(c: C, rm: A, t: A, sz: c_uint) -> A;
    fn Z3_mk_fpa_rne(c: C) -> A;
    fn Z3_mk_fpa_rna(c: C) -> A;
    fn Z3_mk_fpa_rtp(c: C) -> A;
    fn Z3_mk_fpa_rtn(c: C) -> A;
    fn Z3_mk_fpa_rtz(c: C) -> A;
    fn Z3_mk_fpa_add(c: C, rm: A, a: A, b: A) -> A;
    fn Z3_mk_fpa_sub(c: C, rm: A, a: A, b: A) -> A;
    fn Z3_mk_fpa_mul(c: C, rm: A, a: A, b: A) -> A;
    fn Z3_mk_fpa_div(c: C, rm: A, a: A, b: A) -> A;
    fn Z3_mk_fpa_fma(c: C, rm: A, a: A, b: A, d: A) -> A;
    fn Z3_mk_fpa_sqrt(c: C, rm: A, a: A) -> A;
    fn Z3_mk_fpa_min(c: C, a: A, b: A) -> A;
    fn Z3_mk_fpa_max(c: C, a: A, b: A) -> A;
    fn Z3_mk_fpa_neg(c: C, a: A) -> A;
    fn Z3_mk_fpa_abs(c: C, a: A) -> A;
    fn Z3_mk_fpa_round_to_integral(c: C, rm: A, a: A) -> A;
    fn Z3_mk_fpa_eq(c: C, a: A, b: A) -> A;
    fn Z3_mk_fpa_lt(c: C, a: A, b: A) -> A;
    fn Z3_mk_fpa_leq(c: C, a: A, b: A) -> A;
    fn Z3_mk_fpa_is_nan(c: C, a: A) -> A;
    fn Z3_mk_solver(c: C) -> O;
    fn Z3_mk_solver_for_logic(c: C, s: O) -> O;
    fn Z3_mk_solver_from_tactic(c: C, t: O) -> O;
    fn Z3_mk_tactic(c: C, n: *const c_char) -> O;
    fn Z3_tactic_inc_ref(c: C, t: O);
    fn Z3_solver_inc_ref(c: C, s: O);
    fn Z3_solver_dec_ref(c: C, s: O);
    fn Z3_solver_assert(c: C, s: O, a: A);
    fn Z3_solver_check(c: C, s: O) -> c_int;
    fn Z3_solver_push(c: C, s: O);
    fn Z3_solver_pop(c: C, s: O, n: c_uint);
    fn Z3_mk_simple_solver(c: C) -> O;
    fn Z3_dec_ref(c: C, a: A);
    fn Z3_solver_get_model(c: C, s: O) -> O;
    fn Z3_model_inc_ref(c: C, m: O);
    fn Z3_model_dec_ref(c: C, m: O);
    fn Z3_model_eval(c: C, m: O, t: A, comp: bool, v: *mut A) -> bool;
    fn Z3_get_numeral_string(c: C, a: A) -> *const c_char;
    fn Z3_mk_params(c: C) -> O;
    fn Z3_params_inc_ref(c: C, p: O);
    fn Z3_params_set_uint(c: C, p: O, k: O, v: c_uint);
    fn Z3_solver_set_params(c: C, s: O, p: O);
    fn Z3_solver_get_reason_unknown(c: C, s: O) -> *const c_char;
}

extern "C" fn on_err(c: C, e: c_int) {
    let m = unsafe { CStr::from_ptr(Z3_get_error_msg(c, e)).to_string_lossy().to_string() };
    if m.contains("canceled") { return; }
    panic!("z3 error: {}", m);
}

pub enum Res { Sat(Vec<u128>, HashMap<E, u128>), Unsat, Unknown(String) }

pub struct Solver {
    c: C,
    bv: HashMap<E, A>,
    bo: HashMap<E, A>,
    fl: HashMap<E, A>,
    rne: A, rna: A, rtp: A, rtn: A, rtz: A,
    f32s: S, f64s: S,
    sorts: HashMap<u32, S>,
    pub rlimit: u32,
    pub ufs: Vec<E>,
    inc: O,
    inc_n: usize,
}

impl Solver {
    pub fn new(rlimit: u32) -> Solver {
        unsafe {
            let cfg = Z3_mk_config();
            let c = Z3_mk_context_rc(cfg);
            Z3_set_error_handler(c, Some(on_err));
            let k = |a: A| { Z3_inc_ref(c, a); a };
            Solver {
                c, bv: HashMap::new(), bo: HashMap::new(), fl: HashMap::new(),
                rne: k(Z3_mk_fpa_rne(c)), rna: k(Z3_mk_fpa_rna(c)), rtp: k(Z3_mk_fpa_rtp(c)), rtn: k(Z3_mk_fpa_rtn(c)), rtz: k(Z3_mk_fpa_rtz(c)),
                f32s: k(Z3_mk_fpa_sort(c, 8, 24)), f64s: k(Z3_mk_fpa_sort(c, 11, 53)),
                sorts: HashMap::new(), rlimit, ufs: vec![], inc: std::ptr::null_mut(), inc_n: 0,
            }
        }
    }
    fn sort(&mut self, w: u32) -> S {
        let c = self.c;
        *self.sorts.entry(w).or_insert_with(|| unsafe { let s = Z3_mk_bv_sort(c, w); Z3_inc_ref(c, s); s })
    }
    fn k(&self, a: A) -> A { assert!(!a.is_null()); unsafe { Z3_inc_ref(self.c, a); } a }
    fn num(&mut self, v: u128, w: u32) -> A {
        let s = self.sort(w);
        let t = CString::new(v.to_string()).unwrap();
        unsafe { self.k(Z3_mk_numeral(self.c, t.as_ptr(), s)) }
    }
    fn fsort(&self, w: u32) -> S { if w == 32 { self.f32s } else { self.f64s } }

    /// translate all subterms bottom up so that recursion depth stays 1
    fn prepare(&mut self, ex: &Ex, e: E) {
        let mut st = vec![(e, false)];
        let mut seen: std::collections::HashSet<E> = Default::default();
        while let Some((t, done)) = st.pop() {
            if done { self.lower(ex, t); continue; }
            if self.bv.contains_key(&t) || self.bo.contains_key(&t) || self.fl.contains_key(&t) || !seen.insert(t) { continue; }
            st.push((t, true));
            match ex.op(t) {
                Op::Var(_) | Op::Const(_) => {}
                Op::Bin(_, a, b) | Op::Cmp(_, a, b) | Op::Concat(a, b) | Op::FBin(_, a, b) | Op::FCmp(_, a, b) => { st.push((*a, false)); st.push((*b, false)); }
                Op::Not(a) | Op::Extract(_, _, a) | Op::ZExt(a) | Op::SExt(a) | Op::FUn(_, a) | Op::FpCast(a) | Op::UToF(a) | Op::SToF(a) | Op::FToU(a) | Op::FToS(a) => st.push((*a, false)),
                Op::Ite(a, b, c) | Op::FFma(a, b, c) => { st.push((*a, false)); st.push((*b, false)); st.push((*c, false)); }
                Op::Uf(_, v) => { for a in v { st.push((*a, false)); } }
            }
        }
    }
    fn lower(&mut self, ex: &Ex, e: E) {
        if ex.w(e) == 1 { self.as_bool(ex, e); }
        else if ex.is_fp_node(e) { self.as_fp(ex, e); }
        else { self.as_bv(ex, e); }
    }
    pub fn as_bool(&mut self, ex: &Ex, e: E) -> A {
        if let Some(&a) = self.bo.get(&e) { return a; }
        let c = self.c;
        let r = unsafe {
            match ex.op(e).clone() {
                Op::Const(v) => if v == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) },
                Op::Not(a) => { let a = self.as_bool(ex, a); Z3_mk_not(c, a) }
                Op::Bin(B::And, a, b) => { let v = [self.as_bool(ex, a), self.as_bool(ex, b)]; Z3_mk_and(c, 2, v.as_ptr()) }
                Op::Bin(B::Or, a, b) => { let v = [self.as_bool(ex, a), self.as_bool(ex, b)]; Z3_mk_or(c, 2, v.as_ptr()) }
                Op::Bin(B::Xor, a, b) => { let x = self.as_bool(ex, a); let y = self.as_bool(ex, b); Z3_mk_xor(c, x, y) }
                Op::Cmp(p, a, b) => {
                    if ex.w(a) == 1 {
                        let x = self.as_bool(ex, a); let y = self.as_bool(ex, b);
                        match p {
                            P::Eq => Z3_mk_eq(c, x, y),
                            P::Ult => { let v = [self.k(Z3_mk_not(c, x)), y]; Z3_mk_and(c, 2, v.as_ptr()) }
                            P::Ule => { let v = [self.k(Z3_mk_not(c, x)), y]; Z3_mk_or(c, 2, v.as_ptr()) }
                            P::Slt => { let v = [x, self.k(Z3_mk_not(c, y))]; Z3_mk_and(c, 2, v.as_ptr()) }
                            P::Sle => { let v = [x, self.k(Z3_mk_not(c, y))]; Z3_mk_or(c, 2, v.as_ptr()) }
                        }
                    } else {
                        let x = self.as_bv(ex, a); let y = self.as_bv(ex, b);
                        match p { P::Eq => Z3_mk_eq(c, x, y), P::Ult => Z3_mk_bvult(c, x, y), P::Ule => Z3_mk_bvule(c, x, y), P::Slt => Z3_mk_bvslt(c, x, y), P::Sle => Z3_mk_bvsle(c, x, y) }
                    }
                }
                Op::FCmp(p, a, b) => {
                    let x = self.as_fp(ex, a); let y = self.as_fp(ex, b);
                    match p {
                        FP::Oeq => Z3_mk_fpa_eq(c, x, y), FP::Olt => Z3_mk_fpa_lt(c, x, y), FP::Ole => Z3_mk_fpa_leq(c, x, y),
                        FP::Uno => { let v = [self.k(Z3_mk_fpa_is_nan(c, x)), self.k(Z3_mk_fpa_is_nan(c, y))]; Z3_mk_or(c, 2, v.as_ptr()) }
                    }
                }
                Op::Ite(q, a, b) => { let q = self.as_bool(ex, q); let x = self.as_bool(ex, a); let y = self.as_bool(ex, b); Z3_mk_ite(c, q, x, y) }
                _ => { let b = self.as_bv_raw(ex, e); let one = self.num(1, 1); Z3_mk_eq(c, b, one) }
            }
        };
        let r = self.k(r);
        self.bo.insert(e, r);
        r
    }
    pub fn as_bv(&mut self, ex: &Ex, e: E) -> A {
        if let Some(&a) = self.bv.get(&e) { return a; }
        let c = self.c;
        let r = if ex.w(e) == 1 && matches!(ex.op(e), Op::Not(_) | Op::Bin(B::And | B::Or | B::Xor, _, _) | Op::Cmp(..) | Op::FCmp(..) | Op::Ite(..)) {
            let b = self.as_bool(ex, e);
            let (o, z) = (self.num(1, 1), self.num(0, 1));
            unsafe { Z3_mk_ite(c, b, o, z) }
        } else if ex.is_fp_node(e) {
            let f = self.as_fp(ex, e);
            unsafe { Z3_mk_fpa_to_ieee_bv(c, f) }
        } else { self.as_bv_raw(ex, e) };
        let r = self.k(r);
        self.bv.insert(e, r);
        r
    }
    fn as_bv_raw(&mut self, ex: &Ex, e: E) -> A {
        if let Some(&a) = self.bv.get(&e) { return a; }
        let c = self.c;
        let w = ex.w(e);
        let r = unsafe {
            match ex.op(e).clone() {
                Op::Const(v) => self.num(v, w),
                Op::Var(v) => { let n = CString::new(format!("v{}", v)).unwrap(); let t = self.sort(w); let s = Z3_mk_string_symbol(c, n.as_ptr()); Z3_mk_const(c, s, t) }
                Op::Uf(_, _) => { let n = CString::new(format!("uf{}", e)).unwrap(); let s = Z3_mk_string_symbol(c, n.as_ptr()); let t = self.sort(w); if !self.ufs.contains(&e) { self.ufs.push(e); } Z3_mk_const(c, s, t) }
                Op::Bin(o, a, b) => {
                    let x = self.as_bv(ex, a); let y = self.as_bv(ex, b);
                    match o {
                        B::Add => Z3_mk_bvadd(c, x, y), B::Sub => Z3_mk_bvsub(c, x, y), B::Mul => Z3_mk_bvmul(c, x, y),
                        B::UDiv => Z3_mk_bvudiv(c, x, y), B::SDiv => Z3_mk_bvsdiv(c, x, y), B::URem => Z3_mk_bvurem(c, x, y), B::SRem => Z3_mk_bvsrem(c, x, y),
                        B::Shl => Z3_mk_bvshl(c, x, y), B::LShr => Z3_mk_bvlshr(c, x, y), B::AShr => Z3_mk_bvashr(c, x, y),
                        B::And => Z3_mk_bvand(c, x, y), B::Or => Z3_mk_bvor(c, x, y), B::Xor => Z3_mk_bvxor(c, x, y),
                    }
                }
                Op::Not(a) => { let x = self.as_bv(ex, a); Z3_mk_bvnot(c, x) }
                Op::Extract(h, l, a) => { let x = self.as_bv(ex, a); Z3_mk_extract(c, h, l, x) }
                Op::Concat(a, b) => { let x = self.as_bv(ex, a); let y = self.as_bv(ex, b); Z3_mk_concat(c, x, y) }
                Op::ZExt(a) => { let x = self.as_bv(ex, a); Z3_mk_zero_ext(c, w - ex.w(a), x) }
                Op::SExt(a) => { let x = self.as_bv(ex, a); Z3_mk_sign_ext(c, w - ex.w(a), x) }
                Op::Ite(q, a, b) => { let q = self.as_bool(ex, q); let x = self.as_bv(ex, a); let y = self.as_bv(ex, b); Z3_mk_ite(c, q, x, y) }
                Op::FToU(a) | Op::FToS(a) => {
                    let signed = matches!(ex.op(e), Op::FToS(_));
                    let fw = ex.w(a);
                    let f = self.as_fp(ex, a);
                    let fs = self.fsort(fw);
                    let nan = self.k(Z3_mk_fpa_is_nan(c, f));
                    let zero = self.num(0, w);
                    // limits as float constants
                    let p2 = |x: f64| -> u128 { if fw == 32 { (x as f32).to_bits() as u128 } else { x.to_bits() as u128 } };
                    let (hi, lo, him, lom) = if signed { ((2f64).powi(w as i32 - 1), -(2f64).powi(w as i32 - 1), mask(w - 1), 1u128 << (w - 1)) } else { ((2f64).powi(w as i32), 0.0, mask(w), 0) };
                    let hb = self.num(p2(hi), fw); let lb = self.num(p2(lo), fw);
                    let hf = self.k(Z3_mk_fpa_to_fp_bv(c, hb, fs)); let lf = self.k(Z3_mk_fpa_to_fp_bv(c, lb, fs));
                    let t = self.k(Z3_mk_fpa_round_to_integral(c, self.rtz, f));
                    let ge = self.k(Z3_mk_fpa_leq(c, hf, t)); let le = self.k(Z3_mk_fpa_leq(c, t, lf));
                    let cv = self.k(if signed { Z3_mk_fpa_to_sbv(c, self.rtz, f, w) } else { Z3_mk_fpa_to_ubv(c, self.rtz, f, w) });
                    let (hm, lm) = (self.num(him, w), self.num(lom, w));
                    let r = self.k(Z3_mk_ite(c, le, lm, cv));
                    let r = self.k(Z3_mk_ite(c, ge, hm, r));
                    Z3_mk_ite(c, nan, zero, r)
                }
                o => panic!("as_bv_raw {:?}", o),
            }
        };
        let r = self.k(r);
        self.bv.insert(e, r);
        r
    }
    fn as_fp(&mut self, ex: &Ex, e: E) -> A {
        if let Some(&a) = self.fl.get(&e) { return a; }
        let c = self.c;
        let w = ex.w(e);
        let fs = self.fsort(w);
        let r = unsafe {
            match ex.op(e).clone() {
                Op::FBin(o, a, b) => {
                    let x = self.as_fp(ex, a); let y = self.as_fp(ex, b);
                    match o {
                        FB::Add => Z3_mk_fpa_add(c, self.rne, x, y), FB::Sub => Z3_mk_fpa_sub(c, self.rne, x, y),
                        FB::Mul => Z3_mk_fpa_mul(c, self.rne, x, y), FB::Div => Z3_mk_fpa_div(c, self.rne, x, y),
                        FB::Min => Z3_mk_fpa_min(c, x, y), FB::Max => Z3_mk_fpa_max(c, x, y),
                        FB::Rem => panic!("symbolic frem is expanded earlier"),
                    }
                }
                Op::FUn(o, a) => {
                    let x = self.as_fp(ex, a);
                    match o {
                        FU::Neg => Z3_mk_fpa_neg(c, x), FU::Abs => Z3_mk_fpa_abs(c, x), FU::Sqrt => Z3_mk_fpa_sqrt(c, self.rne, x),
                        FU::Floor => Z3_mk_fpa_round_to_integral(c, self.rtn, x), FU::Ceil => Z3_mk_fpa_round_to_integral(c, self.rtp, x),
                        FU::Trunc => Z3_mk_fpa_round_to_integral(c, self.rtz, x), FU::Round => Z3_mk_fpa_round_to_integral(c, self.rna, x),
                        FU::RoundEven => Z3_mk_fpa_round_to_integral(c, self.rne, x),
                    }
                }
                Op::FFma(a, b, d) => { let x = self.as_fp(ex, a); let y = self.as_fp(ex, b); let z = self.as_fp(ex, d); Z3_mk_fpa_fma(c, self.rne, x, y, z) }
                Op::FpCast(a) => { let x = self.as_fp(ex, a); Z3_mk_fpa_to_fp_float(c, self.rne, x, fs) }
                Op::UToF(a) => { let x = self.as_bv(ex, a); Z3_mk_fpa_to_fp_unsigned(c, self.rne, x, fs) }
                Op::SToF(a) => { let x = self.as_bv(ex, a); Z3_mk_fpa_to_fp_signed(c, self.rne, x, fs) }
                Op::Ite(q, a, b) => { let q = self.as_bool(ex, q); let x = self.as_fp(ex, a); let y = self.as_fp(ex, b); Z3_mk_ite(c, q, x, y) }
                _ => { let b = self.as_bv(ex, e); Z3_mk_fpa_to_fp_bv(c, b, fs) }
            }
        };
        let r = self.k(r);
        self.fl.insert(e, r);
        r
    }

    /// Incremental query for pure bit-vector constraints: is pc ∧ extra satisfiable?
    /// `pc` only ever grows within a process (and is inherited over fork).
    pub fn check_inc(&mut self, ex: &Ex, pc: &[E], extra: &[E], cs: &[E]) -> Res {
        let c = self.c;
        unsafe {
            if self.inc.is_null() {
                self.inc = Z3_mk_simple_solver(c);
                Z3_solver_inc_ref(c, self.inc);
            }
            while self.inc_n < pc.len() {
                let e = pc[self.inc_n];
                if !ex.isfp[e as usize] { self.prepare(ex, e); let a = self.as_bool(ex, e); Z3_solver_assert(c, self.inc, a); }
                self.inc_n += 1;
            }
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let key = CString::new("rlimit").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, key.as_ptr()), (self.rlimit / 100).max(1));
            Z3_solver_set_params(c, self.inc, p);
            Z3_solver_push(c, self.inc);
            for &e in extra { self.prepare(ex, e); let a = self.as_bool(ex, e); Z3_solver_assert(c, self.inc, a); }
            let r = Z3_solver_check(c, self.inc);
            let res = self.result(ex, self.inc, r, cs);
            Z3_solver_pop(c, self.inc, 1);
            res
        }
    }
    unsafe fn result(&mut self, ex: &Ex, s: O, r: c_int, cs: &[E]) -> Res {
        let c = self.c;
        if r == -1 { return Res::Unsat; }
        if r != 1 { return Res::Unknown(CStr::from_ptr(Z3_solver_get_reason_unknown(c, s)).to_string_lossy().to_string()); }
        let m = Z3_solver_get_model(c, s);
        Z3_model_inc_ref(c, m);
        let mut vals = vec![0u128; ex.var_w.len()];
        let mut used: VarSet = [0; VW];
        for &e in cs { for i in 0..VW { used[i] |= ex.vars[e as usize][i]; } }
        for v in 0..vals.len() {
            if used[v / 64] >> (v % 64) & 1 == 0 { vals[v] = u128::MAX; continue; }
            // constants are hash consed by name in z3
            let n = CString::new(format!("v{}", v)).unwrap();
            let sy = Z3_mk_string_symbol(c, n.as_ptr());
            let so = self.sort(ex.var_w[v]);
            let k = Z3_mk_const(c, sy, so);
            Z3_inc_ref(c, k);
            vals[v] = self.ev(m, k);
            Z3_dec_ref(c, k);
        }
        let mut ufv = HashMap::new();
        for u in self.ufs.clone() { let a = self.as_bv(ex, u); ufv.insert(u, self.ev(m, a)); }
        Z3_model_dec_ref(c, m);
        Res::Sat(vals, ufv)
    }
    /// Is the conjunction of `cs` satisfiable?
    pub fn check(&mut self, ex: &Ex, cs: &[E], fp: bool) -> Res {
        let mut asts = vec![];
        for &e in cs { self.prepare(ex, e); asts.push(self.as_bool(ex, e)); }
        let c = self.c;
        unsafe {
            let name = CString::new(if fp { "qffp" } else { "qfbv" }).unwrap();
            let tac = Z3_mk_tactic(c, name.as_ptr());
            Z3_tactic_inc_ref(c, tac);
            let s = Z3_mk_solver_from_tactic(c, tac);
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let key = CString::new("rlimit").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, key.as_ptr()), self.rlimit);
            Z3_solver_set_params(c, s, p);
            for a in asts { Z3_solver_assert(c, s, a); }
            let r = Z3_solver_check(c, s);
            let res = self.result(ex, s, r, cs);
            Z3_solver_dec_ref(c, s);
            res
        }
    }
    unsafe fn ev(&self, m: O, k: A) -> u128 {
        let mut out: A = std::ptr::null_mut();
        if !Z3_model_eval(self.c, m, k, true, &mut out) { return 0; }
        Z3_inc_ref(self.c, out);
        let s = CStr::from_ptr(Z3_get_numeral_string(self.c, out)).to_string_lossy().to_string();
        s.parse().unwrap_or(0)
    }
}
