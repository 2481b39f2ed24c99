//! Hash-consed bit-vector / IEEE float expression DAG with constant folding.
use std::collections::HashMap;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum B { Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor }
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum P { Eq, Ult, Ule, Slt, Sle }
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum FB { Add, Sub, Mul, Div, Rem, Min, Max }
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum FU { Neg, Abs, Sqrt, Floor, Ceil, Trunc, Round, RoundEven }
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum FP { Oeq, Olt, Ole, Uno }

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Var(u32),
    Const(u128),
    Bin(B, E, E),
    Cmp(P, E, E),
    Not(E), // bitwise
    Extract(u32, u32, E), // hi, lo
    Concat(E, E),         // hi, lo
    ZExt(E),
    SExt(E),
    Ite(E, E, E),
    FBin(FB, E, E),
    FUn(FU, E),
    FCmp(FP, E, E),
    FFma(E, E, E),
    FpCast(E),            // f32<->f64 by widths
    UToF(E),
    SToF(E),
    FToU(E), // saturating
    FToS(E), // saturating
    /// uninterpreted function (libm), functional consistency only by hash consing
    Uf(u32, Vec<E>),
}

#[derive(Clone)]
pub struct Node { pub op: Op, pub w: u32 }

pub const VW: usize = 8;
pub type VarSet = [u64; VW];

pub struct Ex {
    pub nodes: Vec<Node>,
    pub vars: Vec<VarSet>,
    pub isfp: Vec<bool>,
    map: HashMap<(Op, u32), E>,
    pub var_w: Vec<u32>,
    pub var_name: Vec<String>,
    pub uf_names: Vec<String>,
    /// value ranges: signed lo/hi, unsigned lo/hi (valid under the path condition)
    pub rng: Vec<Rng>,
    /// floats that are exactly representable integers: (64 bit integer expression, lo, hi)
    pub iv: HashMap<E, (E, i128, i128)>,
}
#[derive(Clone, Copy, Debug)]
pub struct Rng { pub sl: i128, pub sh: i128, pub ul: u128, pub uh: u128 }
fn smin(w: u32) -> i128 { if w >= 127 { i128::MIN / 4 } else { -(1i128 << (w - 1)) } }
fn smax(w: u32) -> i128 { if w >= 127 { i128::MAX / 4 } else { (1i128 << (w - 1)) - 1 } }
impl Rng {
    fn full(w: u32) -> Rng { Rng { sl: smin(w), sh: smax(w), ul: 0, uh: mask(w) } }
    /// let the signed and the unsigned view refine each other
    fn norm(mut self, w: u32) -> Rng {
        if w >= 127 { return Rng::full(w); }
        if self.uh <= smax(w) as u128 { self.sl = self.sl.max(self.ul as i128); self.sh = self.sh.min(self.uh as i128); }
        if self.sl >= 0 { self.ul = self.ul.max(self.sl as u128); self.uh = self.uh.min(self.sh as u128); }
        if self.sl > self.sh || self.ul > self.uh { return Rng::full(w); }
        self
    }
}

pub fn mask(w: u32) -> u128 { if w >= 128 { !0 } else { (1u128 << w) - 1 } }
pub fn sext(v: u128, w: u32) -> i128 { if w >= 128 { v as i128 } else { let s = 128 - w; ((v << s) as i128) >> s } }

fn f32c(a: u128) -> f32 { f32::from_bits(a as u32) }
fn f64c(a: u128) -> f64 { f64::from_bits(a as u64) }

pub fn cbin(op: B, w: u32, a: u128, b: u128) -> u128 {
    let m = mask(w);
    (match op {
        B::Add => a.wrapping_add(b),
        B::Sub => a.wrapping_sub(b),
        B::Mul => a.wrapping_mul(b),
        B::UDiv => if b == 0 { m } else { a / b },
        B::URem => if b == 0 { a } else { a % b },
        B::SDiv => { let (x, y) = (sext(a, w), sext(b, w)); if y == 0 { if x < 0 { 1 } else { m } } else { x.wrapping_div(y) as u128 } }
        B::SRem => { let (x, y) = (sext(a, w), sext(b, w)); if y == 0 { a } else { x.wrapping_rem(y) as u128 } }
        B::Shl => if b >= w as u128 { 0 } else { a << b },
        B::LShr => if b >= w as u128 { 0 } else { a >> b },
        B::AShr => { let x = sext(a, w); (if b >= w as u128 { if x < 0 { -1 } else { 0 } } else { x >> b }) as u128 }
        B::And => a & b,
        B::Or => a | b,
        B::Xor => a ^ b,
    }) & m
}
pub fn ccmp(p: P, w: u32, a: u128, b: u128) -> bool {
    match p {
        P::Eq => a == b,
        P::Ult => a < b,
        P::Ule => a <= b,
        P::Slt => sext(a, w) < sext(b, w),
        P::Sle => sext(a, w) <= sext(b, w),
    }
}
pub fn cfbin(op: FB, w: u32, a: u128, b: u128) -> u128 {
    if w == 32 {
        let (x, y) = (f32c(a), f32c(b));
        (match op { FB::Add => x + y, FB::Sub => x - y, FB::Mul => x * y, FB::Div => x / y, FB::Rem => x % y,
            FB::Min => x.min(y), FB::Max => x.max(y) }).to_bits() as u128
    } else {
        let (x, y) = (f64c(a), f64c(b));
        (match op { FB::Add => x + y, FB::Sub => x - y, FB::Mul => x * y, FB::Div => x / y, FB::Rem => x % y,
            FB::Min => x.min(y), FB::Max => x.max(y) }).to_bits() as u128
    }
}
pub fn cfun(op: FU, w: u32, a: u128) -> u128 {
    match op {
        FU::Neg => return a ^ (1u128 << (w - 1)),
        FU::Abs => return a & mask(w - 1),
        _ => {}
    }
    if w == 32 {
        let x = f32c(a);
        (match op { FU::Sqrt => x.sqrt(), FU::Floor => x.floor(), FU::Ceil => x.ceil(), FU::Trunc => x.trunc(), FU::Round => x.round(),
            FU::RoundEven => x.round_ties_even(), _ => unreachable!() }).to_bits() as u128
    } else {
        let x = f64c(a);
        (match op { FU::Sqrt => x.sqrt(), FU::Floor => x.floor(), FU::Ceil => x.ceil(), FU::Trunc => x.trunc(), FU::Round => x.round(),
            FU::RoundEven => x.round_ties_even(), _ => unreachable!() }).to_bits() as u128
    }
}
pub fn cfcmp(p: FP, w: u32, a: u128, b: u128) -> bool {
    let (x, y) = if w == 32 { (f32c(a) as f64, f32c(b) as f64) } else { (f64c(a), f64c(b)) };
    match p { FP::Oeq => x == y, FP::Olt => x < y, FP::Ole => x <= y, FP::Uno => x.is_nan() || y.is_nan() }
}
pub fn cfma(w: u32, a: u128, b: u128, c: u128) -> u128 {
    if w == 32 { f32c(a).mul_add(f32c(b), f32c(c)).to_bits() as u128 } else { f64c(a).mul_add(f64c(b), f64c(c)).to_bits() as u128 }
}
pub fn cfpcast(from: u32, to: u32, a: u128) -> u128 {
    match (from, to) { (32, 64) => (f32c(a) as f64).to_bits() as u128, (64, 32) => (f64c(a) as f32).to_bits() as u128, _ => a }
}
pub fn cutof(to: u32, a: u128) -> u128 { if to == 32 { (a as f32).to_bits() as u128 } else { (a as f64).to_bits() as u128 } }
pub fn cstof(from: u32, to: u32, a: u128) -> u128 { let x = sext(a, from); if to == 32 { (x as f32).to_bits() as u128 } else { (x as f64).to_bits() as u128 } }
pub fn cftou(from: u32, to: u32, a: u128) -> u128 {
    let x = if from == 32 { f32c(a) as f64 } else { f64c(a) };
    if x.is_nan() || x <= 0.0 { return 0; }
    let t = x.trunc();
    if to < 128 && t >= (2f64).powi(to as i32) { mask(to) } else { t as u128 }
}
pub fn cftos(from: u32, to: u32, a: u128) -> u128 {
    let x = if from == 32 { f32c(a) as f64 } else { f64c(a) };
    if x.is_nan() { return 0; }
    let t = x.trunc();
    let lim = (2f64).powi(to as i32 - 1);
    let r: i128 = if t >= lim { (mask(to - 1)) as i128 } else if t < -lim { -((mask(to - 1)) as i128) - 1 } else { t as i128 };
    (r as u128) & mask(to)
}

impl Ex {
    pub fn new() -> Ex {
        Ex { nodes: vec![], vars: vec![], isfp: vec![], map: HashMap::new(), var_w: vec![], var_name: vec![], uf_names: vec![], rng: vec![], iv: HashMap::new() }
    }
    pub fn w(&self, e: E) -> u32 { self.nodes[e as usize].w }
    pub fn op(&self, e: E) -> &Op { &self.nodes[e as usize].op }
    pub fn konst(&self, e: E) -> Option<u128> { if let Op::Const(c) = self.nodes[e as usize].op { Some(c) } else { None } }

    fn mk(&mut self, op: Op, w: u32) -> E {
        let key = (op, w);
        if let Some(&e) = self.map.get(&key) { return e; }
        let id = self.nodes.len() as E;
        let mut vs: VarSet = [0; VW];
        let mut fp = matches!(key.0, Op::FBin(..) | Op::FUn(..) | Op::FCmp(..) | Op::FFma(..) | Op::FpCast(_) | Op::UToF(_) | Op::SToF(_) | Op::FToU(_) | Op::FToS(_));
        let mut add = |s: &Ex, e: E| { for i in 0..VW { vs[i] |= s.vars[e as usize][i]; } fp |= s.isfp[e as usize]; };
        match &key.0 {
            Op::Var(v) => { let v = *v as usize; assert!(v < 64 * VW, "too many symbolic variables"); vs[v / 64] |= 1 << (v % 64); }
            Op::Const(_) => {}
            Op::Bin(_, a, b) | Op::Cmp(_, a, b) | Op::Concat(a, b) | Op::FBin(_, a, b) | Op::FCmp(_, a, b) => { add(self, *a); add(self, *b); }
            Op::Not(a) | Op::Extract(_, _, a) | Op::ZExt(a) | Op::SExt(a) | Op::FUn(_, a) | Op::FpCast(a) | Op::UToF(a) | Op::SToF(a) | Op::FToU(a) | Op::FToS(a) => add(self, *a),
            Op::Ite(a, b, c) | Op::FFma(a, b, c) => { add(self, *a); add(self, *b); add(self, *c); }
            Op::Uf(_, v) => { for a in v { add(self, *a); } }
        }
        let r = self.range_of(&key.0, w);
        self.rng.push(r);
        self.nodes.push(Node { op: key.0.clone(), w });
        self.vars.push(vs);
        self.isfp.push(fp);
        self.map.insert(key, id);
        id
    }
    fn range_of(&self, op: &Op, w: u32) -> Rng {
        let f = Rng::full(w);
        if w >= 127 { return f; }
        let r = |e: E| self.rng[e as usize];
        let fit_s = |lo: i128, hi: i128| if lo >= smin(w) && hi <= smax(w) { (lo, hi) } else { (f.sl, f.sh) };
        let fit_u = |lo: u128, hi: u128| if hi <= mask(w) && lo <= hi { (lo, hi) } else { (f.ul, f.uh) };
        let mk = |s: (i128, i128), u: (u128, u128)| Rng { sl: s.0, sh: s.1, ul: u.0, uh: u.1 }.norm(w);
        let (fs, fu) = ((f.sl, f.sh), (f.ul, f.uh));
        match op {
            Op::Const(c) => Rng { sl: sext(*c, w), sh: sext(*c, w), ul: *c, uh: *c },
            Op::ZExt(x) => { let x = r(*x); mk(fs, (x.ul, x.uh)) }
            Op::SExt(x) => { let x = r(*x); mk((x.sl, x.sh), fu) }
            Op::Extract(_, lo, x) => { if self.w(*x) >= 127 { return f; } let x = r(*x); if x.uh >> lo <= mask(w) { mk(fs, (x.ul >> lo, x.uh >> lo)) } else if *lo == 0 && x.sl >= smin(w) && x.sh <= smax(w) { mk((x.sl, x.sh), fu) } else { f } }
            Op::Concat(h, l) => { let lw = self.w(*l); let (h, l) = (r(*h), r(*l)); mk(fs, ((h.ul << lw) + l.ul, (h.uh << lw) + l.uh)) }
            Op::Ite(_, a, b) => { let (a, b) = (r(*a), r(*b)); mk((a.sl.min(b.sl), a.sh.max(b.sh)), (a.ul.min(b.ul), a.uh.max(b.uh))) }
            Op::Bin(b, x, y) if w <= 64 => {
                let (a, c) = (r(*x), r(*y));
                match b {
                    B::Add => mk(fit_s(a.sl + c.sl, a.sh + c.sh), fit_u(a.ul + c.ul, a.uh + c.uh)),
                    B::Sub => mk(fit_s(a.sl - c.sh, a.sh - c.sl), if a.ul >= c.uh { (a.ul - c.uh, a.uh - c.ul) } else { fu }),
                    B::Mul => { let p = [a.sl * c.sl, a.sl * c.sh, a.sh * c.sl, a.sh * c.sh]; let u = if a.uh <= 1 << 63 && c.uh <= 1 << 63 { fit_u(a.ul * c.ul, a.uh * c.uh) } else { fu };
                        mk(fit_s(*p.iter().min().unwrap(), *p.iter().max().unwrap()), u) }
                    B::And => mk(fs, (0, a.uh.min(c.uh))),
                    B::Or | B::Xor => { let m = a.uh.max(c.uh); let bits = 128 - m.leading_zeros(); mk(fs, (0, mask(bits.max(1)).min(mask(w)))) }
                    B::UDiv if c.ul > 0 => mk(fs, (a.ul / c.uh, a.uh / c.ul)),
                    B::URem if c.ul > 0 => mk(fs, (0, a.uh.min(c.uh - 1))),
                    B::SRem if c.sl == c.sh && c.sl > 0 => mk((if a.sl < 0 { -(c.sl - 1) } else { 0 }, c.sl - 1), fu),
                    B::SDiv if c.sl == c.sh && c.sl > 0 => mk((a.sl / c.sl, a.sh / c.sl), fu),
                    B::LShr if c.ul == c.uh && c.ul < w as u128 => mk(fs, (a.ul >> c.ul, a.uh >> c.ul)),
                    B::AShr if c.ul == c.uh && c.ul < w as u128 => mk((a.sl >> c.ul, a.sh >> c.ul), fu),
                    B::Shl if c.ul == c.uh && c.ul < w as u128 => mk(fs, fit_u(a.ul << c.ul, a.uh << c.ul)),
                    _ => f,
                }
            }
            _ => f,
        }
    }
    /// a fact that holds on this path: narrow the range of the expression concerned
    pub fn learn(&mut self, c: E) {
        let set = |s: &mut Ex, e: E, f: &dyn Fn(&mut Rng)| { let w = s.w(e); let mut r = s.rng[e as usize]; f(&mut r); s.rng[e as usize] = r.norm(w);
            // a zero extension of a narrower expression
            if let Op::ZExt(x) = *s.op(e) { let xw = s.w(x); let hi = s.rng[e as usize].uh; let mut q = s.rng[x as usize]; if hi < q.uh { q.uh = hi; s.rng[x as usize] = q.norm(xw); } } };
        match self.op(c).clone() {
            Op::Cmp(p, a, b) => {
                if self.w(a) > 64 { return; }
                let (ra, rb) = (self.rng[a as usize], self.rng[b as usize]);
                match p {
                    P::Ult => { if rb.uh > 0 { set(self, a, &|r| r.uh = r.uh.min(rb.uh - 1)); } set(self, b, &|r| r.ul = r.ul.max(ra.ul + 1)); }
                    P::Ule => { set(self, a, &|r| r.uh = r.uh.min(rb.uh)); set(self, b, &|r| r.ul = r.ul.max(ra.ul)); }
                    P::Slt => { set(self, a, &|r| r.sh = r.sh.min(rb.sh - 1)); set(self, b, &|r| r.sl = r.sl.max(ra.sl + 1)); }
                    P::Sle => { set(self, a, &|r| r.sh = r.sh.min(rb.sh)); set(self, b, &|r| r.sl = r.sl.max(ra.sl)); }
                    P::Eq => {}
                }
            }
            Op::Not(x) => if let Op::Cmp(p, a, b) = *self.op(x) {
                if self.w(a) > 64 { return; }
                let (ra, rb) = (self.rng[a as usize], self.rng[b as usize]);
                match p {
                    P::Ult => { set(self, a, &|r| r.ul = r.ul.max(rb.ul)); set(self, b, &|r| r.uh = r.uh.min(ra.uh)); }
                    P::Ule => { set(self, a, &|r| r.ul = r.ul.max(rb.ul + 1)); if ra.uh > 0 { set(self, b, &|r| r.uh = r.uh.min(ra.uh - 1)); } }
                    P::Slt => { set(self, a, &|r| r.sl = r.sl.max(rb.sl)); set(self, b, &|r| r.sh = r.sh.min(ra.sh)); }
                    P::Sle => { set(self, a, &|r| r.sl = r.sl.max(rb.sl + 1)); set(self, b, &|r| r.sh = r.sh.min(ra.sh - 1)); }
                    P::Eq => if let Some(k) = self.konst(b) { set(self, a, &|r| { if r.ul == k { r.ul += 1; } if r.uh == k && k > 0 { r.uh -= 1; } }); }
                }
            },
            _ => {}
        }
    }
    /// the integer a float expression denotes exactly, if it is known to be one
    fn int_view(&mut self, e: E) -> Option<(E, i128, i128)> {
        if let Some(k) = self.konst(e) {
            let x = if self.w(e) == 32 { f32c(k) as f64 } else if self.w(e) == 64 { f64c(k) } else { return None };
            if x.fract() == 0.0 && x.abs() < 9e15 { let i = x as i64; let c = self.c(i as u64 as u128, 64); return Some((c, i as i128, i as i128)); }
            return None;
        }
        self.iv.get(&e).copied()
    }
    fn bits(lo: i128, hi: i128) -> u32 { let mut w = 2; while w < 64 && (lo < smin(w) || hi > smax(w)) { w += 1; } w }
    fn fcmp_int(&mut self, p: FP, x: (E, i128, i128), y: (E, i128, i128)) -> E {
        let w = Self::bits(x.1.min(y.1), x.2.max(y.2));
        let (a, b) = (self.extract(w - 1, 0, x.0), self.extract(w - 1, 0, y.0));
        match p { FP::Oeq => self.cmp(P::Eq, a, b), FP::Olt => self.cmp(P::Slt, a, b), FP::Ole => self.cmp(P::Sle, a, b), FP::Uno => self.c(0, 1) }
    }
    fn exact_lim(w: u32) -> i128 { if w == 32 { 1 << 24 } else { 1 << 53 } }
    fn set_iv(&mut self, e: E, i: E, lo: i128, hi: i128) {
        let l = Self::exact_lim(self.w(e));
        if self.konst(e).is_none() && lo >= -l && hi <= l {
            self.iv.insert(e, (i, lo, hi));
            if self.konst(i).is_none() && self.w(i) == 64 { let mut r = self.rng[i as usize]; r.sl = r.sl.max(lo); r.sh = r.sh.min(hi); self.rng[i as usize] = r.norm(64); }
        }
    }
    pub fn new_var(&mut self, name: &str, w: u32) -> E {
        let v = self.var_w.len() as u32;
        self.var_w.push(w);
        self.var_name.push(name.to_string());
        self.mk(Op::Var(v), w)
    }
    pub fn c(&mut self, v: u128, w: u32) -> E { self.mk(Op::Const(v & mask(w)), w) }

    pub fn bin(&mut self, op: B, mut a: E, mut b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if let (Some(x), Some(y)) = (self.konst(a), self.konst(b)) { let r = cbin(op, w, x, y); return self.c(r, w); }
        if matches!(op, B::Add | B::Mul | B::And | B::Or | B::Xor) && (self.konst(a).is_some() || (self.konst(b).is_none() && a > b)) { std::mem::swap(&mut a, &mut b); }
        if let Some(y) = self.konst(b) {
            match op {
                B::Add | B::Sub | B::Or | B::Xor | B::Shl | B::LShr | B::AShr if y == 0 => return a,
                B::Mul if y == 1 => return a,
                B::Mul if y == 0 => return b,
                B::Mul if y.is_power_of_two() => { let s = self.c(y.trailing_zeros() as u128, w); return self.bin(B::Shl, a, s); }
                B::UDiv if y == 1 => return a,
                B::UDiv if y.is_power_of_two() => { let s = self.c(y.trailing_zeros() as u128, w); return self.bin(B::LShr, a, s); }
                B::URem if y.is_power_of_two() => { let s = self.c(y - 1, w); return self.bin(B::And, a, s); }
                B::And if y == 0 => return b,
                B::And if y == mask(w) => return a,
                B::Or if y == mask(w) => return b,
                B::Xor if y == mask(w) => return self.not(a),
                B::Sub => { let n = self.c(y.wrapping_neg(), w); return self.bin(B::Add, a, n); }
                B::Shl | B::LShr if y >= w as u128 => return self.c(0, w),
                _ => {}
            }
            if op == B::Add {
                if let Op::Bin(B::Add, x, k) = *self.op(a) {
                    if let Some(kk) = self.konst(k) { let n = self.c(kk.wrapping_add(y), w); return self.bin(B::Add, x, n); }
                }
            }
            if op == B::And {
                // mask of low bits -> zext(extract)
                if (y + 1).is_power_of_two() && y > 0 && y != mask(w) {
                    let k = y.trailing_ones();
                    let x = self.extract(k - 1, 0, a);
                    return self.zext(x, w);
                }
                if let Op::ZExt(x) = *self.op(a) {
                    let iw = self.w(x);
                    if y & mask(iw) == 0 { return self.c(0, w); }
                    let k = self.c(y, iw);
                    let r = self.bin(B::And, x, k);
                    return self.zext(r, w);
                }
            }
            if op == B::LShr {
                let s = y as u32;
                let x = self.extract(w - 1, s, a);
                return self.zext(x, w);
            }
            if op == B::Shl {
                let s = y as u32;
                let z = self.c(0, s);
                let x = self.extract(w - 1 - s, 0, a);
                return self.concat(x, z);
            }
        }
        if let Some(x) = self.konst(a) {
            if x == 0 && matches!(op, B::Shl | B::LShr | B::AShr | B::UDiv | B::URem) { return a; }
        }
        if a == b {
            match op { B::Sub | B::Xor => return self.c(0, w), B::And | B::Or => return a, _ => {} }
        }
        // or of disjoint concat pieces: (x ++ 0) | zext(y)  -> x ++ y
        if op == B::Or || op == B::Add || op == B::Xor {
            if let Some(r) = self.merge_disjoint(a, b) { return r; }
            if let Some(r) = self.merge_disjoint(b, a) { return r; }
        }
        if w == 1 {
            if op == B::Add || op == B::Sub { return self.bin(B::Xor, a, b); }
            if op == B::Mul { return self.bin(B::And, a, b); }
            if matches!(op, B::And | B::Or) {
                if let Op::Not(x) = *self.op(a) { if x == b { return self.c((op == B::Or) as u128, 1); } }
                if let Op::Not(x) = *self.op(b) { if x == a { return self.c((op == B::Or) as u128, 1); } }
            }
        }
        self.mk(Op::Bin(op, a, b), w)
    }
    fn merge_disjoint(&mut self, a: E, b: E) -> Option<E> {
        let w = self.w(a);
        if let Op::Concat(h, l) = *self.op(a) {
            if self.konst(l) == Some(0) {
                let lw = self.w(l);
                if let Op::ZExt(y) = *self.op(b) {
                    if self.w(y) <= lw {
                        let y2 = self.zext(y, lw);
                        let r = self.concat(h, y2);
                        debug_assert_eq!(self.w(r), w);
                        return Some(r);
                    }
                }
                if let Some(k) = self.konst(b) {
                    if k <= mask(lw) { let k2 = self.c(k, lw); return Some(self.concat(h, k2)); }
                }
            }
        }
        None
    }
    pub fn not(&mut self, a: E) -> E {
        let w = self.w(a);
        match *self.op(a) {
            Op::Const(c) => self.c(!c, w),
            Op::Not(x) => x,
            Op::Cmp(P::Ult, x, y) => self.cmp(P::Ule, y, x),
            Op::Cmp(P::Ule, x, y) => self.cmp(P::Ult, y, x),
            Op::Cmp(P::Slt, x, y) => self.cmp(P::Sle, y, x),
            Op::Cmp(P::Sle, x, y) => self.cmp(P::Slt, y, x),
            _ => self.mk(Op::Not(a), w),
        }
    }
    pub fn cmp(&mut self, p: P, mut a: E, mut b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if let (Some(x), Some(y)) = (self.konst(a), self.konst(b)) { return self.c(ccmp(p, w, x, y) as u128, 1); }
        if a == b { return self.c(matches!(p, P::Eq | P::Ule | P::Sle) as u128, 1); }
        if w > 1 && w <= 64 {
            let (x, y) = (self.rng[a as usize], self.rng[b as usize]);
            let d = match p {
                P::Eq => if x.uh < y.ul || y.uh < x.ul || x.sh < y.sl || y.sh < x.sl { Some(false) } else { None },
                P::Ult => if x.uh < y.ul { Some(true) } else if x.ul >= y.uh { Some(false) } else { None },
                P::Ule => if x.uh <= y.ul { Some(true) } else if x.ul > y.uh { Some(false) } else { None },
                P::Slt => if x.sh < y.sl { Some(true) } else if x.sl >= y.sh { Some(false) } else { None },
                P::Sle => if x.sh <= y.sl { Some(true) } else if x.sl > y.sh { Some(false) } else { None },
            };
            if let Some(d) = d { return self.c(d as u128, 1); }
        }
        if p == P::Eq {
            if self.konst(a).is_some() || (self.konst(b).is_none() && a > b) { std::mem::swap(&mut a, &mut b); }
            if let Some(k) = self.konst(b) {
                if w == 1 { return if k == 1 { a } else { self.not(a) }; }
                match *self.op(a) {
                    Op::ZExt(x) => {
                        let iw = self.w(x);
                        if k > mask(iw) { return self.c(0, 1); }
                        let kk = self.c(k, iw);
                        return self.cmp(P::Eq, x, kk);
                    }
                    Op::SExt(x) => {
                        let iw = self.w(x);
                        let kk = k & mask(iw);
                        if (sext(kk, iw) as u128) & mask(w) != k { return self.c(0, 1); }
                        let kk = self.c(kk, iw);
                        return self.cmp(P::Eq, x, kk);
                    }
                    Op::Concat(h, l) => {
                        let lw = self.w(l);
                        let hk = self.c(k >> lw, w - lw);
                        let lk = self.c(k & mask(lw), lw);
                        let x = self.cmp(P::Eq, h, hk);
                        let y = self.cmp(P::Eq, l, lk);
                        return self.bin(B::And, x, y);
                    }
                    Op::Bin(B::Add, x, c) if self.konst(c).is_some() => {
                        let ck = self.konst(c).unwrap();
                        let kk = self.c(k.wrapping_sub(ck), w);
                        return self.cmp(P::Eq, x, kk);
                    }
                    Op::Bin(B::Xor, x, c) if self.konst(c).is_some() => {
                        let ck = self.konst(c).unwrap();
                        let kk = self.c(k ^ ck, w);
                        return self.cmp(P::Eq, x, kk);
                    }
                    Op::Ite(c, x, y) => {
                        // both const arms
                        match (self.konst(x), self.konst(y)) {
                            (Some(xx), Some(yy)) => {
                                if xx != k && yy != k { return self.c(0, 1); }
                                if xx == k && yy == k { return self.c(1, 1); }
                                return if xx == k { c } else { self.not(c) };
                            }
                            (Some(xx), None) if xx != k => { let nc = self.not(c); let r = self.cmp(P::Eq, y, b); return self.bin(B::And, nc, r); }
                            (None, Some(yy)) if yy != k => { let r = self.cmp(P::Eq, x, b); return self.bin(B::And, c, r); }
                            (Some(_), None) => { let r = self.cmp(P::Eq, y, b); return self.bin(B::Or, c, r); }
                            (None, Some(_)) => { let nc = self.not(c); let r = self.cmp(P::Eq, x, b); return self.bin(B::Or, nc, r); }
                            _ => {}
                        }
                    }
                    _ => {}
                }
            }
            if let (Op::ZExt(x), Op::ZExt(y)) = (self.op(a).clone(), self.op(b).clone()) {
                if self.w(x) == self.w(y) { return self.cmp(P::Eq, x, y); }
            }
        } else {
            // ult/ule on zexts
            match (self.op(a).clone(), self.op(b).clone()) {
                (Op::ZExt(x), Op::ZExt(y)) if self.w(x) == self.w(y) => {
                    let q = match p { P::Slt => P::Ult, P::Sle => P::Ule, q => q };
                    return self.cmp(q, x, y);
                }
                (Op::ZExt(x), Op::Const(k)) => {
                    let iw = self.w(x);
                    let q = match p { P::Slt => P::Ult, P::Sle => P::Ule, q => q };
                    let signed = p != q;
                    if signed && sext(k, w) < 0 { return self.c(0, 1); }
                    if k > mask(iw) { return self.c(1, 1); }
                    let kk = self.c(k, iw);
                    return self.cmp(q, x, kk);
                }
                (Op::Const(k), Op::ZExt(x)) => {
                    let iw = self.w(x);
                    let q = match p { P::Slt => P::Ult, P::Sle => P::Ule, q => q };
                    let signed = p != q;
                    if signed && sext(k, w) < 0 { return self.c(1, 1); }
                    if k > mask(iw) { return self.c(0, 1); }
                    let kk = self.c(k, iw);
                    return self.cmp(q, kk, x);
                }
                _ => {}
            }
            if p == P::Ult {
                if self.konst(b) == Some(0) { return self.c(0, 1); }
                if self.konst(b) == Some(1) { let z = self.c(0, w); return self.cmp(P::Eq, a, z); }
                if self.konst(a) == Some(0) { let z = self.c(0, w); let e = self.cmp(P::Eq, b, z); return self.not(e); }
                if self.konst(a) == Some(mask(w)) { return self.c(0, 1); }
            }
            if p == P::Ule {
                if self.konst(a) == Some(0) || self.konst(b) == Some(mask(w)) { return self.c(1, 1); }
                if self.konst(b) == Some(0) { return self.cmp(P::Eq, a, b); }
            }
        }
        self.mk(Op::Cmp(p, a, b), 1)
    }
    pub fn extract(&mut self, hi: u32, lo: u32, a: E) -> E {
        let w = self.w(a);
        debug_assert!(hi < w && lo <= hi);
        if lo == 0 && hi == w - 1 { return a; }
        let nw = hi - lo + 1;
        match *self.op(a) {
            Op::Const(c) => self.c(c >> lo, nw),
            Op::Extract(_, l2, x) => self.extract(hi + l2, lo + l2, x),
            Op::ZExt(x) => {
                let iw = self.w(x);
                if lo >= iw { self.c(0, nw) }
                else if hi < iw { self.extract(hi, lo, x) }
                else { let y = self.extract(iw - 1, lo, x); self.zext(y, nw) }
            }
            Op::SExt(x) if hi < self.w(x) => self.extract(hi, lo, x),
            Op::SExt(x) if lo == 0 => self.sext(x, nw),
            Op::Concat(h, l) => {
                let lw = self.w(l);
                if hi < lw { self.extract(hi, lo, l) }
                else if lo >= lw { self.extract(hi - lw, lo - lw, h) }
                else { let x = self.extract(hi - lw, 0, h); let y = self.extract(lw - 1, lo, l); self.concat(x, y) }
            }
            Op::Bin(b @ (B::And | B::Or | B::Xor), x, y) if self.konst(y).is_some() => {
                let p = self.extract(hi, lo, x); let q = self.extract(hi, lo, y); self.bin(b, p, q)
            }
            Op::Bin(b @ (B::Add | B::Sub | B::Mul), x, y) if lo == 0 => {
                let p = self.extract(hi, lo, x); let q = self.extract(hi, lo, y); self.bin(b, p, q)
            }
            Op::Ite(c, x, y) if self.konst(x).is_some() || self.konst(y).is_some() => {
                let p = self.extract(hi, lo, x); let q = self.extract(hi, lo, y); self.ite(c, p, q)
            }
            _ => self.mk(Op::Extract(hi, lo, a), nw),
        }
    }
    /// byte of a stored value: no rewriting that would keep a later reload from being recognised as the whole value
    pub fn extract_raw(&mut self, hi: u32, lo: u32, a: E) -> E {
        let w = self.w(a);
        if lo == 0 && hi == w - 1 { return a; }
        match *self.op(a) {
            Op::Const(_) | Op::ZExt(_) | Op::Concat(..) | Op::Extract(..) => {}
            Op::Bin(B::And, _, y) if self.konst(y).map(|k| (k >> lo) & mask(hi - lo + 1) == 0).unwrap_or(false) => {}
            Op::Ite(_, x, y) if self.konst(x).is_some() && self.konst(y).is_some() => {}
            _ => return self.mk(Op::Extract(hi, lo, a), hi - lo + 1),
        }
        if let Op::Extract(_, l2, x) = *self.op(a) { return self.extract_raw(hi + l2, lo + l2, x); }
        if let Op::ZExt(x) = *self.op(a) { let iw = self.w(x); if hi < iw { return self.extract_raw(hi, lo, x); } }
        if let Op::Concat(h, l) = *self.op(a) { let lw = self.w(l); if hi < lw { return self.extract_raw(hi, lo, l); } else if lo >= lw { return self.extract_raw(hi - lw, lo - lw, h); } }
        self.extract(hi, lo, a)
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let (hw, lw) = (self.w(h), self.w(l));
        if let (Some(x), Some(y)) = (self.konst(h), self.konst(l)) { return self.c((x << lw) | y, hw + lw); }
        if self.konst(h) == Some(0) { return self.zext(l, hw + lw); }
        if let (Op::Extract(h1, l1, x), Op::Extract(h2, l2, y)) = (self.op(h).clone(), self.op(l).clone()) {
            if x == y && l1 == h2 + 1 { return self.extract_raw(h1, l2, x); }
        }
        // ite(c,a,b) ++ ite(c,x,y) -> ite(c, a++x, b++y)
        if let (Op::Ite(c1, a, b), Op::Ite(c2, x, y)) = (self.op(h).clone(), self.op(l).clone()) {
            if c1 == c2 { let p = self.concat(a, x); let q = self.concat(b, y); return self.ite(c1, p, q); }
        }
        // (a ++ b) ++ c where b,c adjacent extracts
        if let Op::Concat(a, b) = *self.op(h) {
            let m = self.concat(b, l);
            if !matches!(self.op(m), Op::Concat(..)) { return self.concat(a, m); }
        }
        if let Op::ZExt(a) = *self.op(h) {
            let m = self.concat(a, l);
            return self.zext(m, hw + lw);
        }
        self.mk(Op::Concat(h, l), hw + lw)
    }
    pub fn zext(&mut self, a: E, w: u32) -> E {
        let iw = self.w(a);
        if iw == w { return a; }
        debug_assert!(iw < w);
        match *self.op(a) {
            Op::Const(c) => self.c(c, w),
            Op::ZExt(x) => self.zext(x, w),
            _ => self.mk(Op::ZExt(a), w),
        }
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let iw = self.w(a);
        if iw == w { return a; }
        match *self.op(a) {
            Op::Const(c) => self.c(sext(c, iw) as u128, w),
            Op::SExt(x) => self.sext(x, w),
            Op::ZExt(x) => self.zext(x, w),
            _ => self.mk(Op::SExt(a), w),
        }
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(k) = self.konst(c) { return if k == 1 { a } else { b }; }
        if a == b { return a; }
        let w = self.w(a);
        if w == 1 {
            match (self.konst(a), self.konst(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(B::Or, c, b),
                (Some(0), None) => { let n = self.not(c); return self.bin(B::And, n, b); }
                (None, Some(0)) => return self.bin(B::And, c, a),
                (None, Some(1)) => { let n = self.not(c); return self.bin(B::Or, n, a); }
                _ => {}
            }
        }
        if let Op::Not(n) = *self.op(c) { return self.ite(n, b, a); }
        if let Op::Ite(c2, x, _) = *self.op(a) { if c2 == c { return self.ite(c, x, b); } }
        if let Op::Ite(c2, _, y) = *self.op(b) { if c2 == c { return self.ite(c, a, y); } }
        let r = self.mk(Op::Ite(c, a, b), w);
        if !self.iv.is_empty() && (w == 32 || w == 64) && (self.iv.contains_key(&a) || self.iv.contains_key(&b)) {
            if let (Some(x), Some(y)) = (self.int_view(a), self.int_view(b)) { let i = self.ite(c, x.0, y.0); self.set_iv(r, i, x.1.min(y.1), x.2.max(y.2)); }
        }
        r
    }
    pub fn fbin(&mut self, op: FB, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.konst(a), self.konst(b)) { let r = cfbin(op, w, x, y); return self.c(r, w); }
        // identities up to NaN payloads: commutativity, x*1, x/1, x-0, x+(-0)
        let (a, b) = if matches!(op, FB::Add | FB::Mul) && a > b { (b, a) } else { (a, b) };
        let (one, nz) = if w == 64 { (1f64.to_bits() as u128, (-0f64).to_bits() as u128) } else { (1f32.to_bits() as u128, (-0f32).to_bits() as u128) };
        if w == 32 || w == 64 {
            match (op, self.konst(a), self.konst(b)) {
                (FB::Mul | FB::Div, _, Some(k)) if k == one => return a,
                (FB::Mul, Some(k), _) if k == one => return b,
                (FB::Sub, _, Some(0)) => return a,
                (FB::Add, _, Some(k)) if k == nz => return a,
                (FB::Add, Some(k), _) if k == nz => return b,
                _ => {}
            }
        }
        let r = self.mk(Op::FBin(op, a, b), w);
        if matches!(op, FB::Add | FB::Sub | FB::Mul | FB::Min | FB::Max) && (w == 32 || w == 64) && (self.iv.contains_key(&a) || self.iv.contains_key(&b)) && !self.iv.contains_key(&r) {
            if let (Some(x), Some(y)) = (self.int_view(a), self.int_view(b)) {
                let (lo, hi, o) = match op {
                    FB::Add => (x.1 + y.1, x.2 + y.2, B::Add),
                    FB::Sub => (x.1 - y.2, x.2 - y.1, B::Sub),
                    FB::Mul => { let p = [x.1 * y.1, x.1 * y.2, x.2 * y.1, x.2 * y.2]; (*p.iter().min().unwrap(), *p.iter().max().unwrap(), B::Mul) }
                    FB::Min => (x.1.min(y.1), x.2.min(y.2), B::And),
                    _ => (x.1.max(y.1), x.2.max(y.2), B::Or),
                };
                let l = Self::exact_lim(w);
                if lo >= -l && hi <= l {
                    let i = match o { B::And => { let c = self.cmp(P::Sle, x.0, y.0); self.ite(c, x.0, y.0) } B::Or => { let c = self.cmp(P::Sle, x.0, y.0); self.ite(c, y.0, x.0) } o => { let nb = Self::bits(lo.min(x.1).min(y.1), hi.max(x.2).max(y.2)); let (a, b) = (self.extract(nb - 1, 0, x.0), self.extract(nb - 1, 0, y.0)); let v = self.bin(o, a, b); self.sext(v, 64) } };
                    self.set_iv(r, i, lo, hi);
                }
            }
        }
        r
    }
    pub fn fun(&mut self, op: FU, a: E) -> E {
        let w = self.w(a);
        if let Some(x) = self.konst(a) { let r = cfun(op, w, x); return self.c(r, w); }
        match op {
            FU::Neg => { let m = self.c(1u128 << (w - 1), w); if !self.is_fp_node(a) { return self.bin(B::Xor, a, m); } }
            FU::Floor | FU::Ceil | FU::Trunc | FU::Round | FU::RoundEven if self.iv.contains_key(&a) => return a,
            FU::Abs => { if !self.is_fp_node(a) { let m = self.c(mask(w - 1), w); return self.bin(B::And, a, m); } }
            _ => {}
        }
        let r = self.mk(Op::FUn(op, a), w);
        if let Some((i, lo, hi)) = self.iv.get(&a).copied() {
            let z = self.c(0, 64);
            match op {
                FU::Neg => { let n = self.bin(B::Sub, z, i); self.set_iv(r, n, -hi, -lo); }
                FU::Abs => { let n = self.bin(B::Sub, z, i); let c = self.cmp(P::Slt, i, z); let v = self.ite(c, n, i); self.set_iv(r, v, if lo > 0 { lo } else { 0 }, hi.max(-lo)); }
                _ => {}
            }
        }
        r
    }
    /// node whose natural z3 sort is a float
    pub fn is_fp_node(&self, a: E) -> bool {
        match self.op(a) {
            Op::FBin(..) | Op::FUn(..) | Op::FFma(..) | Op::FpCast(_) | Op::UToF(_) | Op::SToF(_) => true,
            Op::Ite(_, x, y) => self.is_fp_node(*x) || self.is_fp_node(*y),
            _ => false,
        }
    }
    pub fn fcmp(&mut self, p: FP, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.konst(a), self.konst(b)) { return self.c(cfcmp(p, w, x, y) as u128, 1); }
        // comparisons of exact integers are decided over bit-vectors
        if self.iv.contains_key(&a) || self.iv.contains_key(&b) {
            if let (Some(x), Some(y)) = (self.int_view(a), self.int_view(b)) {
                return self.fcmp_int(p, x, y);
            }
            let fl = |s: &Ex, e: E| s.konst(e).map(|k| if s.w(e) == 32 { f32c(k) as f64 } else { f64c(k) });
            if let (Some(x), Some(k)) = (self.iv.get(&a).copied(), fl(self, b)) {
                if k.abs() < 9e15 {
                    return match p { FP::Oeq | FP::Uno => self.c(0, 1), _ => { let c = self.c(k.floor() as i64 as u64 as u128, 64); self.cmp(P::Sle, x.0, c) } };
                }
            }
            if let (Some(k), Some(y)) = (fl(self, a), self.iv.get(&b).copied()) {
                if k.abs() < 9e15 {
                    return match p { FP::Oeq | FP::Uno => self.c(0, 1), _ => { let c = self.c(k.ceil() as i64 as u64 as u128, 64); self.cmp(P::Sle, c, y.0) } };
                }
            }
        }
        self.mk(Op::FCmp(p, a, b), 1)
    }
    pub fn ffma(&mut self, a: E, b: E, c: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y), Some(z)) = (self.konst(a), self.konst(b), self.konst(c)) { return self.c(cfma(w, x, y, z), w); }
        self.mk(Op::FFma(a, b, c), w)
    }
    pub fn fpcast(&mut self, a: E, to: u32) -> E {
        let w = self.w(a);
        if w == to { return a; }
        if let Some(x) = self.konst(a) { return self.c(cfpcast(w, to, x), to); }
        let r = self.mk(Op::FpCast(a), to);
        if let Some((i, lo, hi)) = self.iv.get(&a).copied() { self.set_iv(r, i, lo, hi); }
        r
    }
    pub fn utof(&mut self, a: E, to: u32) -> E { if let Some(x) = self.konst(a) { return self.c(cutof(to, x), to); } let r = self.mk(Op::UToF(a), to); if self.w(a) <= 64 && (to == 32 || to == 64) { let g = self.rng[a as usize]; if g.uh <= 1 << 53 { let w = self.w(a); let i = if w < 64 { self.zext(a, 64) } else { a }; self.set_iv(r, i, g.ul as i128, g.uh as i128); } } r }
    pub fn stof(&mut self, a: E, to: u32) -> E { let w = self.w(a); if let Some(x) = self.konst(a) { return self.c(cstof(w, to, x), to); } let r = self.mk(Op::SToF(a), to); if w <= 64 && (to == 32 || to == 64) { let g = self.rng[a as usize]; let i = if w < 64 { self.sext(a, 64) } else { a }; self.set_iv(r, i, g.sl, g.sh); } r }
    pub fn ftou(&mut self, a: E, to: u32) -> E { let w = self.w(a); if let Some(x) = self.konst(a) { return self.c(cftou(w, to, x), to); } if let Some((i, lo, _)) = self.iv.get(&a).copied() { if lo >= 0 && to <= 64 { return if to == 64 { i } else { self.extract(to - 1, 0, i) }; } } self.mk(Op::FToU(a), to) }
    pub fn ftos(&mut self, a: E, to: u32) -> E { let w = self.w(a); if let Some(x) = self.konst(a) { return self.c(cftos(w, to, x), to); } if let Some((i, lo, hi)) = self.iv.get(&a).copied() { if to <= 64 && lo >= smin(to) && hi <= smax(to) { return if to == 64 { i } else { self.extract(to - 1, 0, i) }; } } self.mk(Op::FToS(a), to) }
    pub fn uf(&mut self, name: &str, args: Vec<E>, w: u32) -> E {
        let i = match self.uf_names.iter().position(|n| n == name) { Some(i) => i, None => { self.uf_names.push(name.to_string()); self.uf_names.len() - 1 } };
        self.mk(Op::Uf(i as u32, args), w)
    }
}

/// Memoised evaluation of expressions under an assignment of the variables.
pub struct Eval { pub vals: Vec<u128>, memo: HashMap<E, u128>, pub saw_uf: bool, pub uf_vals: HashMap<E, u128> }
impl Eval {
    pub fn new(vals: Vec<u128>) -> Eval { Eval { vals, memo: HashMap::new(), saw_uf: false, uf_vals: HashMap::new() } }
    pub fn get(&mut self, ex: &Ex, e: E) -> u128 {
        // iterative post-order to keep the host stack small
        let mut st = vec![e];
        while let Some(&t) = st.last() {
            if self.memo.contains_key(&t) { st.pop(); continue; }
            let n = &ex.nodes[t as usize];
            let mut need = vec![];
            {
                let mut chk = |x: E| { if ex.konst(x).is_none() && !self.memo.contains_key(&x) { need.push(x); } };
                match &n.op {
                    Op::Var(_) | Op::Const(_) => {}
                    Op::Bin(_, a, b) | Op::Cmp(_, a, b) | Op::Concat(a, b) | Op::FBin(_, a, b) | Op::FCmp(_, a, b) => { chk(*a); chk(*b); }
                    Op::Not(a) | Op::Extract(_, _, a) | Op::ZExt(a) | Op::SExt(a) | Op::FUn(_, a) | Op::FpCast(a) | Op::UToF(a) | Op::SToF(a) | Op::FToU(a) | Op::FToS(a) => chk(*a),
                    Op::Ite(a, b, c) | Op::FFma(a, b, c) => { chk(*a); chk(*b); chk(*c); }
                    Op::Uf(_, v) => { for a in v { chk(*a); } }
                }
            }
            if !need.is_empty() { st.extend(need); continue; }
            let g = |s: &Eval, x: E| -> u128 { match ex.konst(x) { Some(c) => c, None => s.memo[&x] } };
            let w = n.w;
            let r = match &n.op {
                Op::Var(v) => self.vals.get(*v as usize).copied().unwrap_or(0) & mask(w),
                Op::Const(c) => *c,
                Op::Bin(o, a, b) => cbin(*o, w, g(self, *a), g(self, *b)),
                Op::Cmp(p, a, b) => ccmp(*p, ex.w(*a), g(self, *a), g(self, *b)) as u128,
                Op::Not(a) => !g(self, *a) & mask(w),
                Op::Extract(_, lo, a) => (g(self, *a) >> lo) & mask(w),
                Op::Concat(a, b) => (g(self, *a) << ex.w(*b)) | g(self, *b),
                Op::ZExt(a) => g(self, *a),
                Op::SExt(a) => (sext(g(self, *a), ex.w(*a)) as u128) & mask(w),
                Op::Ite(c, a, b) => if g(self, *c) == 1 { g(self, *a) } else { g(self, *b) },
                Op::FBin(o, a, b) => cfbin(*o, w, g(self, *a), g(self, *b)),
                Op::FUn(o, a) => cfun(*o, w, g(self, *a)),
                Op::FCmp(p, a, b) => cfcmp(*p, ex.w(*a), g(self, *a), g(self, *b)) as u128,
                Op::FFma(a, b, c) => cfma(w, g(self, *a), g(self, *b), g(self, *c)),
                Op::FpCast(a) => cfpcast(ex.w(*a), w, g(self, *a)),
                Op::UToF(a) => cutof(w, g(self, *a)),
                Op::SToF(a) => cstof(ex.w(*a), w, g(self, *a)),
                Op::FToU(a) => cftou(ex.w(*a), w, g(self, *a)),
                Op::FToS(a) => cftos(ex.w(*a), w, g(self, *a)),
                Op::Uf(..) => { self.saw_uf = true; self.uf_vals.get(&t).copied().unwrap_or(0) }
            };
            self.memo.insert(t, r);
            st.pop();
        }
        match ex.konst(e) { Some(c) => c, None => self.memo[&e] }
    }
}
