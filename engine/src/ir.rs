//! Translation of LLVM bitcode (through the LLVM-C API) to a compact register IR.
use crate::expr::{B, FB};
use crate::llvm::*;
use crate::mem::Mem;
use std::collections::HashMap;
use std::ffi::{CStr, CString};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Val { C(u64), W(Box<u128>), S(u32), Agg(Rc<Vec<Val>>) }

#[derive(Clone, Debug, PartialEq)]
pub enum Ty { Void, Int(u32), F32, F64, Ptr, Vec(u32, Rc<Ty>), Arr(u64, Rc<Ty>, u64), Struct(Rc<Vec<(Ty, u64)>>), Other }
impl Ty {
    /// (scalar width, lanes) ; lanes==0 for scalars
    pub fn wn(&self) -> (u32, u32) {
        match self { Ty::Int(w) => (*w, 0), Ty::F32 => (32, 0), Ty::F64 => (64, 0), Ty::Ptr => (64, 0), Ty::Vec(n, t) => (t.wn().0, *n), _ => (0, 0) }
    }
}

#[derive(Clone, Debug)]
pub enum Opd { R(u32), C(u64), K(u32) }
pub type Reg = u32;
pub const NOREG: Reg = u32::MAX;

#[derive(Debug)]
pub struct Edge { pub to: u32, pub moves: Box<[(Reg, Opd)]> }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ck { Trunc, ZExt, SExt, FpToUi, FpToSi, UiToFp, SiToFp, FpCast, Bit }

#[derive(Debug)]
pub enum Callee { Func(u32), Ind(Opd), Intr(Intr), Asm(String) }

#[derive(Debug)]
pub struct Intr { pub name: String, pub args: Vec<Ty>, pub ret: Ty }

#[derive(Debug)]
pub enum In {
    Bin { op: B, w: u32, n: u32, d: Reg, a: Opd, b: Opd },
    FBin { op: FB, w: u32, n: u32, d: Reg, a: Opd, b: Opd },
    FNeg { w: u32, n: u32, d: Reg, a: Opd },
    ICmp { p: u8, w: u32, n: u32, d: Reg, a: Opd, b: Opd },
    FCmp { p: u8, w: u32, n: u32, d: Reg, a: Opd, b: Opd },
    LoadS { w: u32, d: Reg, p: Opd },
    StoreS { w: u32, v: Opd, p: Opd },
    Load { ty: Ty, d: Reg, p: Opd },
    Store { ty: Ty, v: Opd, p: Opd },
    Gep { d: Reg, base: Opd, off: u64, idx: Box<[(Opd, u64, u32)]> },
    Cast { k: Ck, fw: u32, n: u32, tw: u32, d: Reg, a: Opd, fty: Ty, tty: Ty },
    Select { d: Reg, c: Opd, a: Opd, b: Opd, n: u32, ty: Ty },
    Call { d: Reg, f: Callee, args: Box<[Opd]> },
    ExtractV { d: Reg, a: Opd, idx: Box<[u32]> },
    InsertV { d: Reg, a: Opd, v: Opd, idx: Box<[u32]> },
    ExtractE { d: Reg, a: Opd, i: Opd },
    InsertE { d: Reg, a: Opd, v: Opd, i: Opd },
    Shuffle { d: Reg, a: Opd, b: Opd, n: u32, mask: Box<[i32]> },
    Alloca { d: Reg, size: u64, align: u64, cnt: Opd },
    Rmw { op: u8, w: u32, d: Reg, p: Opd, v: Opd },
    CmpXchg { w: u32, d: Reg, p: Opd, c: Opd, n: Opd },
    Nop,
    Copy { d: Reg, a: Opd },
    Br(Edge),
    CondBr { c: Opd, t: Edge, f: Edge },
    Switch { c: Opd, w: u32, def: Edge, cases: Box<[(u64, Edge)]>, map: HashMap<u64, u32> },
    Ret(Option<Opd>),
    Unreachable,
    Bad(String),
}

pub struct Func { pub name: String, pub nregs: u32, pub nargs: u32, pub blocks: Vec<Vec<In>>, pub consts: Vec<Val> }

pub struct Prog {
    pub m: Module,
    pub td: TData,
    pub funcs: Vec<Value>,
    pub fnames: Vec<String>,
    pub fdecl: Vec<bool>,
    pub fidx: HashMap<usize, u32>,
    pub fbyname: HashMap<String, u32>,
    pub trans: Vec<Option<Rc<Func>>>,
    pub gaddr: HashMap<usize, u64>,
    /// thread local variables: address and initial contents
    pub tls: Vec<(u64, Vec<u8>)>,
    tycache: HashMap<usize, Ty>,
}

pub const FN_BASE: u64 = 0x4000_0000;

fn name_of(v: Value) -> String { unsafe { let mut n = 0; let p = LLVMGetValueName2(v, &mut n); String::from_utf8_lossy(std::slice::from_raw_parts(p as *const u8, n)).to_string() } }
pub fn text(v: Value) -> String { unsafe { CStr::from_ptr(LLVMPrintValueToString(v)).to_string_lossy().to_string() } }

impl Prog {
    pub fn load(path: &str) -> Prog {
        unsafe {
            let ctx = LLVMContextCreate();
            let p = CString::new(path).unwrap();
            let mut mb = std::ptr::null_mut();
            let mut msg = std::ptr::null_mut();
            if LLVMCreateMemoryBufferWithContentsOfFile(p.as_ptr(), &mut mb, &mut msg) != 0 { eprintln!("cannot read {}", path); std::process::exit(3); }
            let mut m = std::ptr::null_mut();
            if LLVMParseBitcodeInContext2(ctx, mb, &mut m) != 0 { eprintln!("cannot parse {}", path); std::process::exit(3); }
            let td = LLVMGetModuleDataLayout(m);
            let mut pr = Prog { m, td, funcs: vec![], fnames: vec![], fdecl: vec![], fidx: HashMap::new(), fbyname: HashMap::new(), trans: vec![], gaddr: HashMap::new(), tls: vec![], tycache: HashMap::new() };
            let mut f = LLVMGetFirstFunction(m);
            while !f.is_null() {
                let i = pr.funcs.len() as u32;
                let n = name_of(f);
                pr.fidx.insert(f as usize, i);
                pr.fbyname.insert(n.clone(), i);
                pr.fnames.push(n);
                pr.fdecl.push(LLVMIsDeclaration(f) != 0);
                pr.funcs.push(f);
                pr.trans.push(None);
                f = LLVMGetNextFunction(f);
            }
            pr
        }
    }
    pub fn ty(&mut self, t: Type) -> Ty {
        if let Some(x) = self.tycache.get(&(t as usize)) { return x.clone(); }
        let r = unsafe {
            match LLVMGetTypeKind(t) {
                0 => Ty::Void,
                2 => Ty::F32,
                3 => Ty::F64,
                8 => Ty::Int(LLVMGetIntTypeWidth(t)),
                10 => {
                    let n = LLVMCountStructElementTypes(t);
                    let mut v = vec![];
                    for i in 0..n { let et = self.ty(LLVMStructGetTypeAtIndex(t, i)); v.push((et, LLVMOffsetOfElement(self.td, t, i))); }
                    Ty::Struct(Rc::new(v))
                }
                11 => { let et = LLVMGetElementType(t); let sz = LLVMABISizeOfType(self.td, et); Ty::Arr(LLVMGetArrayLength2(t), Rc::new(self.ty(et)), sz) }
                12 => Ty::Ptr,
                13 => { let et = self.ty(LLVMGetElementType(t)); Ty::Vec(LLVMGetVectorSize(t), Rc::new(et)) }
                _ => Ty::Other,
            }
        };
        self.tycache.insert(t as usize, r.clone());
        r
    }
    pub fn zero(&self, t: &Ty) -> Val {
        match t {
            Ty::Int(w) if *w > 64 => Val::W(Box::new(0)),
            Ty::Vec(n, e) => Val::Agg(Rc::new(vec![self.zero(e); *n as usize])),
            Ty::Arr(n, e, _) => Val::Agg(Rc::new(vec![self.zero(e); *n as usize])),
            Ty::Struct(v) => Val::Agg(Rc::new(v.iter().map(|x| self.zero(&x.0)).collect())),
            _ => Val::C(0),
        }
    }
    pub fn faddr(&self, i: u32) -> u64 { FN_BASE + (i as u64) * 16 }

    pub fn constant(&mut self, mem: &mut Mem, v: Value) -> Val {
        unsafe {
            let t = self.ty(LLVMTypeOf(v));
            match vkind(v) {
                5 => { // function
                    let i = self.fidx[&(v as usize)];
                    let n = &self.fnames[i as usize];
                    if self.fdecl[i as usize] && crate::ext::weak_absent(n) { return Val::C(0); }
                    Val::C(self.faddr(i))
                }
                6 => { let a = LLVMAliasGetAliasee(v); self.constant(mem, a) }
                8 => Val::C(self.global(mem, v)),
                10 => self.const_expr(mem, v),
                11 | 12 | 13 | 16 | 17 => {
                    let n = match &t { Ty::Vec(n, _) => *n as u64, Ty::Arr(n, _, _) => *n, Ty::Struct(s) => s.len() as u64, _ => panic!() };
                    Val::Agg(Rc::new((0..n).map(|i| { let e = LLVMGetAggregateElement(v, i as u32); self.constant(mem, e) }).collect()))
                }
                14 | 15 | 20 | 25 => self.zero(&t),
                18 => {
                    if let Ty::Vec(n, e) = &t { // splat
                        let _ = (n, e);
                        let k = self.int_text(v);
                        let x = if e.wn().0 > 64 { Val::W(Box::new(k)) } else { Val::C(k as u64) };
                        return Val::Agg(Rc::new(vec![x; *n as usize]));
                    }
                    let w = t.wn().0;
                    if w <= 64 { let x = LLVMConstIntGetZExtValue(v); Val::C(if w == 64 { x } else { x & ((1 << w) - 1) }) } else { Val::W(Box::new(self.int_text(v))) }
                }
                19 => {
                    let mut l = 0;
                    let d = LLVMConstRealGetDouble(v, &mut l);
                    let (e, n) = match &t { Ty::Vec(n, e) => ((**e).clone(), *n), x => (x.clone(), 0) };
                    let c = match e { Ty::F32 => Val::C((d as f32).to_bits() as u64), Ty::F64 => Val::C(d.to_bits()), _ => panic!("fp const {}", text(v)) };
                    if n > 0 { Val::Agg(Rc::new(vec![c; n as usize])) } else { c }
                }
                k => panic!("constant kind {}: {}", k, text(v)),
            }
        }
    }
    fn int_text(&self, v: Value) -> u128 {
        // "i128 123" / "<2 x i128> splat (i128 123)"
        let s = text(v);
        let num: String = s.trim_end_matches(')').rsplit(' ').next().unwrap().to_string();
        if num == "true" { return 1; }
        if num == "false" { return 0; }
        if let Some(n) = num.strip_prefix('-') { (n.parse::<u128>().unwrap()).wrapping_neg() } else { num.parse::<u128>().unwrap_or_else(|_| panic!("int const {}", s)) }
    }
    fn const_expr(&mut self, mem: &mut Mem, v: Value) -> Val {
        unsafe {
            let op = LLVMGetConstOpcode(v);
            let o = |i: u32| LLVMGetOperand(v, i);
            let cc = |x: Val| -> u64 { if let Val::C(c) = x { c } else { panic!("const expr operand") } };
            let w = { let t = self.ty(LLVMTypeOf(v)); t.wn().0 };
            let m = if w >= 64 { !0u64 } else { (1 << w) - 1 };
            match op {
                29 => {
                    let base = cc(self.constant(mem, o(0)));
                    let (off, idx) = self.gep(v);
                    let mut a = base.wrapping_add(off);
                    for (ov, sc, iw) in idx { let x = cc(self.constant(mem, ov)); let x = crate::expr::sext(x as u128, iw) as u64; a = a.wrapping_add(x.wrapping_mul(sc)); }
                    Val::C(a)
                }
                39 | 40 | 41 | 60 | 69 | 30 => { let x = cc(self.constant(mem, o(0))); Val::C(x & m) }
                8 => { let a = cc(self.constant(mem, o(0))); let b = cc(self.constant(mem, o(1))); Val::C(a.wrapping_add(b) & m) }
                10 => { let a = cc(self.constant(mem, o(0))); let b = cc(self.constant(mem, o(1))); Val::C(a.wrapping_sub(b) & m) }
                25 => { let a = cc(self.constant(mem, o(0))); let b = cc(self.constant(mem, o(1))); Val::C((a ^ b) & m) }
                k => panic!("const expr opcode {}: {}", k, text(v)),
            }
        }
    }
    /// constant offset and dynamic (index, scale, width) list
    fn gep(&mut self, v: Value) -> (u64, Vec<(Value, u64, u32)>) {
        unsafe {
            let mut cur = LLVMGetGEPSourceElementType(v);
            let n = LLVMGetNumOperands(v) as u32;
            let mut off = 0u64;
            let mut dynv = vec![];
            for i in 1..n {
                let iv = LLVMGetOperand(v, i);
                let k = vkind(iv);
                let iw = LLVMGetIntTypeWidth(LLVMTypeOf(iv));
                if i == 1 {
                    let sc = LLVMABISizeOfType(self.td, cur);
                    if k == 18 { let x = crate::expr::sext(LLVMConstIntGetZExtValue(iv) as u128, iw) as u64; off = off.wrapping_add(x.wrapping_mul(sc)); } else { dynv.push((iv, sc, iw)); }
                } else if LLVMGetTypeKind(cur) == 10 {
                    let x = LLVMConstIntGetZExtValue(iv) as u32;
                    off = off.wrapping_add(LLVMOffsetOfElement(self.td, cur, x));
                    cur = LLVMStructGetTypeAtIndex(cur, x);
                } else {
                    cur = LLVMGetElementType(cur);
                    let sc = LLVMABISizeOfType(self.td, cur);
                    if k == 18 { let x = crate::expr::sext(LLVMConstIntGetZExtValue(iv) as u128, iw) as u64; off = off.wrapping_add(x.wrapping_mul(sc)); } else { dynv.push((iv, sc, iw)); }
                }
            }
            (off, dynv)
        }
    }
    pub fn global(&mut self, mem: &mut Mem, v: Value) -> u64 {
        if let Some(&a) = self.gaddr.get(&(v as usize)) { return a; }
        unsafe {
            let t = LLVMGlobalGetValueType(v);
            let sz = LLVMABISizeOfType(self.td, t);
            let al = LLVMGetAlignment(v).max(LLVMABIAlignmentOfType(self.td, t)).max(1) as u64;
            let a = mem.alloc_global(sz, al);
            self.gaddr.insert(v as usize, a);
            if LLVMIsDeclaration(v) == 0 {
                let init = LLVMGetInitializer(v);
                if !init.is_null() { self.init(mem, a, init); }
                if LLVMIsThreadLocal(v) != 0 { self.tls.push((a, mem.bytes(a, sz).to_vec())); }
            } else {
                let n = name_of(v);
                if n == "environ" { /* null pointer */ }
                else if !n.contains("rust_no_alloc") && n != "__dso_handle" { eprintln!("note: external global {}", n); }
            }
            a
        }
    }
    fn init(&mut self, mem: &mut Mem, a: u64, c: Value) {
        unsafe {
            match vkind(c) {
                14 | 15 | 20 | 25 => {}
                16 | 17 => {
                    if LLVMIsConstantString(c) != 0 {
                        let mut n = 0;
                        let p = LLVMGetAsString(c, &mut n);
                        mem.poke_bytes(a, std::slice::from_raw_parts(p as *const u8, n));
                    } else {
                        let t = self.ty(LLVMTypeOf(c));
                        let x = self.constant(mem, c);
                        self.poke(mem, a, &t, &x);
                    }
                }
                11 => {
                    let t = self.ty(LLVMTypeOf(c));
                    if let Ty::Arr(n, _, sz) = t { for i in 0..n { let e = LLVMGetAggregateElement(c, i as u32); self.init(mem, a + i * sz, e); } }
                }
                12 => {
                    let t = self.ty(LLVMTypeOf(c));
                    if let Ty::Struct(fs) = t { for (i, (_, off)) in fs.iter().enumerate() { let e = LLVMGetAggregateElement(c, i as u32); self.init(mem, a + off, e); } }
                }
                _ => { let t = self.ty(LLVMTypeOf(c)); let x = self.constant(mem, c); self.poke(mem, a, &t, &x); }
            }
        }
    }
    fn poke(&self, mem: &mut Mem, a: u64, t: &Ty, v: &Val) {
        match (t, v) {
            (Ty::Arr(_, e, sz), Val::Agg(xs)) => for (i, x) in xs.iter().enumerate() { self.poke(mem, a + i as u64 * sz, e, x); },
            (Ty::Struct(fs), Val::Agg(xs)) => for (i, x) in xs.iter().enumerate() { self.poke(mem, a + fs[i].1, &fs[i].0, x); },
            (Ty::Vec(_, e), Val::Agg(xs)) => { let s = (e.wn().0 as u64) / 8; for (i, x) in xs.iter().enumerate() { self.poke(mem, a + i as u64 * s, e, x); } }
            (t, Val::C(c)) => { let n = ((t.wn().0 + 7) / 8) as usize; mem.poke_bytes(a, &c.to_le_bytes()[..n]); }
            (t, Val::W(c)) => { let n = ((t.wn().0 + 7) / 8) as usize; mem.poke_bytes(a, &c.to_le_bytes()[..n]); }
            _ => panic!("poke {:?}", t),
        }
    }

    pub fn func(&mut self, mem: &mut Mem, i: u32) -> Rc<Func> {
        if let Some(f) = &self.trans[i as usize] { return f.clone(); }
        let f = Rc::new(self.translate(mem, i));
        self.trans[i as usize] = Some(f.clone());
        f
    }

    fn translate(&mut self, mem: &mut Mem, fi: u32) -> Func {
        unsafe {
            let fv = self.funcs[fi as usize];
            let mut regs: HashMap<usize, u32> = HashMap::new();
            let mut nregs = 0u32;
            let nargs = LLVMCountParams(fv);
            for i in 0..nargs { regs.insert(LLVMGetParam(fv, i) as usize, nregs); nregs += 1; }
            let mut bidx: HashMap<usize, u32> = HashMap::new();
            let mut bbs = vec![];
            let mut b = LLVMGetFirstBasicBlock(fv);
            while !b.is_null() {
                bidx.insert(b as usize, bbs.len() as u32);
                bbs.push(b);
                let mut ins = LLVMGetFirstInstruction(b);
                while !ins.is_null() {
                    if LLVMGetTypeKind(LLVMTypeOf(ins)) != 0 { regs.insert(ins as usize, nregs); nregs += 1; }
                    ins = LLVMGetNextInstruction(ins);
                }
                b = LLVMGetNextBasicBlock(b);
            }
            let mut consts: Vec<Val> = vec![];
            let mut blocks = vec![];
            for &b in &bbs {
                let mut out = vec![];
                let mut ins = LLVMGetFirstInstruction(b);
                while !ins.is_null() {
                    let x = self.instr(mem, ins, b, &regs, &bidx, &mut consts);
                    if !matches!(x, In::Nop) { out.push(x); }
                    ins = LLVMGetNextInstruction(ins);
                }
                blocks.push(out);
            }
            Func { name: self.fnames[fi as usize].clone(), nregs, nargs, blocks, consts }
        }
    }
    fn opd(&mut self, mem: &mut Mem, v: Value, regs: &HashMap<usize, u32>, consts: &mut Vec<Val>) -> Opd {
        if let Some(&r) = regs.get(&(v as usize)) { return Opd::R(r); }
        let k = unsafe { vkind(v) };
        if k == 22 || k == 1 || k == 23 || k == -1 { return Opd::C(0); }
        match self.constant(mem, v) { Val::C(c) => Opd::C(c), x => { consts.push(x); Opd::K(consts.len() as u32 - 1) } }
    }
    unsafe fn edge(&mut self, mem: &mut Mem, from: Block, to: Block, regs: &HashMap<usize, u32>, bidx: &HashMap<usize, u32>, consts: &mut Vec<Val>) -> Edge {
        let mut moves = vec![];
        let mut ins = LLVMGetFirstInstruction(to);
        while !ins.is_null() && LLVMGetInstructionOpcode(ins) == 44 {
            let n = LLVMCountIncoming(ins);
            for i in 0..n {
                if LLVMGetIncomingBlock(ins, i) == from {
                    let v = LLVMGetIncomingValue(ins, i);
                    let o = self.opd(mem, v, regs, consts);
                    moves.push((regs[&(ins as usize)], o));
                    break;
                }
            }
            ins = LLVMGetNextInstruction(ins);
        }
        Edge { to: bidx[&(to as usize)], moves: moves.into_boxed_slice() }
    }
    fn instr(&mut self, mem: &mut Mem, v: Value, blk: Block, regs: &HashMap<usize, u32>, bidx: &HashMap<usize, u32>, consts: &mut Vec<Val>) -> In {
        unsafe {
            let op = LLVMGetInstructionOpcode(v);
            let d = regs.get(&(v as usize)).copied().unwrap_or(NOREG);
            let ty = self.ty(LLVMTypeOf(v));
            macro_rules! o { ($i:expr) => {{ let x = LLVMGetOperand(v, $i as u32); self.opd(mem, x, regs, consts) }}; }
            macro_rules! oty { ($i:expr) => {{ let x = LLVMTypeOf(LLVMGetOperand(v, $i as u32)); self.ty(x) }}; }
            macro_rules! bin { ($b:expr) => {{ let (w, n) = ty.wn(); In::Bin { op: $b, w, n, d, a: o!(0), b: o!(1) } }}; }
            macro_rules! fbin { ($b:expr) => {{ let (w, n) = ty.wn(); In::FBin { op: $b, w, n, d, a: o!(0), b: o!(1) } }}; }
            macro_rules! cast { ($k:expr) => {{ let f = oty!(0); let (fw, n) = f.wn(); let (tw, _) = ty.wn(); In::Cast { k: $k, fw, n, tw, d, a: o!(0), fty: f, tty: ty.clone() } }}; }
            match op {
                1 => { if LLVMGetNumOperands(v) == 0 { In::Ret(None) } else { In::Ret(Some(o!(0))) } }
                _ if LLVMGetNumSuccessors_safe(v, op) == 1 && is_br(v) => { let t = LLVMGetSuccessor(v, 0); In::Br(self.edge(mem, blk, t, regs, bidx, consts)) }
                _ if is_br(v) => {
                    let c = LLVMGetCondition(v);
                    let c = self.opd(mem, c, regs, consts);
                    let t = self.edge(mem, blk, LLVMGetSuccessor(v, 0), regs, bidx, consts);
                    let f = self.edge(mem, blk, LLVMGetSuccessor(v, 1), regs, bidx, consts);
                    In::CondBr { c, t, f }
                }
                3 => {
                    let w = oty!(0).wn().0;
                    let c = o!(0);
                    let n = LLVMGetNumSuccessors(v);
                    let def = self.edge(mem, blk, LLVMGetSuccessor(v, 0), regs, bidx, consts);
                    let mut cases = vec![];
                    let mut map = HashMap::new();
                    for i in 1..n {
                        let cv = LLVMGetSwitchCaseValue(v, i);
                        let k = match self.constant(mem, cv) { Val::C(k) => k, x => return In::Bad(format!("switch {:?}", x)) };
                        let e = self.edge(mem, blk, LLVMGetSuccessor(v, i), regs, bidx, consts);
                        map.insert(k, i - 1);
                        cases.push((k, e));
                    }
                    In::Switch { c, w, def, cases: cases.into_boxed_slice(), map }
                }
                7 => In::Unreachable,
                66 => { let (w, n) = ty.wn(); In::FNeg { w, n, d, a: o!(0) } }
                8 => bin!(B::Add), 10 => bin!(B::Sub), 12 => bin!(B::Mul), 14 => bin!(B::UDiv), 15 => bin!(B::SDiv), 17 => bin!(B::URem), 18 => bin!(B::SRem),
                20 => bin!(B::Shl), 21 => bin!(B::LShr), 22 => bin!(B::AShr), 23 => bin!(B::And), 24 => bin!(B::Or), 25 => bin!(B::Xor),
                9 => fbin!(FB::Add), 11 => fbin!(FB::Sub), 13 => fbin!(FB::Mul), 16 => fbin!(FB::Div), 19 => fbin!(FB::Rem),
                26 => {
                    let at = LLVMGetAllocatedType(v);
                    let size = LLVMABISizeOfType(self.td, at);
                    let align = LLVMGetAlignment(v) as u64;
                    In::Alloca { d, size, align: align.max(8), cnt: o!(0) }
                }
                27 => { let p = o!(0); match &ty { Ty::Int(w) if *w <= 64 => In::LoadS { w: *w, d, p }, Ty::F32 => In::LoadS { w: 32, d, p }, Ty::F64 | Ty::Ptr => In::LoadS { w: 64, d, p }, _ => In::Load { ty, d, p } } }
                28 => {
                    let t = oty!(0); let val = o!(0); let p = o!(1);
                    match &t { Ty::Int(w) if *w <= 64 => In::StoreS { w: *w, v: val, p }, Ty::F32 => In::StoreS { w: 32, v: val, p }, Ty::F64 | Ty::Ptr => In::StoreS { w: 64, v: val, p }, _ => In::Store { ty: t, v: val, p } }
                }
                29 => {
                    if matches!(ty, Ty::Vec(..)) { return In::Bad(text(v)); }
                    let base = o!(0);
                    let (off, dynv) = self.gep(v);
                    let idx: Vec<_> = dynv.into_iter().map(|(x, s, w)| (self.opd(mem, x, regs, consts), s, w)).collect();
                    In::Gep { d, base, off, idx: idx.into_boxed_slice() }
                }
                30 => cast!(Ck::Trunc), 31 => cast!(Ck::ZExt), 32 => cast!(Ck::SExt), 33 => cast!(Ck::FpToUi), 34 => cast!(Ck::FpToSi), 35 => cast!(Ck::UiToFp), 36 => cast!(Ck::SiToFp),
                37 | 38 => cast!(Ck::FpCast),
                39 | 40 | 60 | 69 => { let f = oty!(0).wn().0; let t = ty.wn().0; if f == t { In::Copy { d, a: o!(0) } } else if f > t { cast!(Ck::Trunc) } else { cast!(Ck::ZExt) } }
                41 => cast!(Ck::Bit),
                42 => { let (w, n) = oty!(0).wn(); In::ICmp { p: LLVMGetICmpPredicate(v) as u8, w, n, d, a: o!(0), b: o!(1) } }
                43 => { let (w, n) = oty!(0).wn(); In::FCmp { p: LLVMGetFCmpPredicate(v) as u8, w, n, d, a: o!(0), b: o!(1) } }
                44 => In::Nop,
                45 => {
                    let cv = LLVMGetCalledValue(v);
                    let n = LLVMGetNumArgOperands(v);
                    let k = vkind(cv);
                    let mut callee = None;
                    if k == 5 {
                        let fi = self.fidx[&(cv as usize)];
                        let nm = self.fnames[fi as usize].clone();
                        if nm.starts_with("llvm.") {
                            if nm.starts_with("llvm.lifetime") || nm.starts_with("llvm.dbg") || nm.starts_with("llvm.experimental.noalias") || nm.starts_with("llvm.assume") || nm.starts_with("llvm.invariant") || nm.starts_with("llvm.prefetch") { return In::Nop; }
                            let args = (0..n).map(|i| oty!(i)).collect();
                            callee = Some(Callee::Intr(Intr { name: nm, args, ret: ty.clone() }));
                        } else { callee = Some(Callee::Func(fi)); }
                    } else if k == 23 { callee = Some(Callee::Asm(text(cv))); }
                    let callee = match callee { Some(c) => c, None => Callee::Ind(self.opd(mem, cv, regs, consts)) };
                    let args: Vec<Opd> = (0..n).map(|i| o!(i)).collect();
                    In::Call { d, f: callee, args: args.into_boxed_slice() }
                }
                46 => { let ct = oty!(0); let n = ct.wn().1; In::Select { d, c: o!(0), a: o!(1), b: o!(2), n, ty } }
                50 => In::ExtractE { d, a: o!(0), i: o!(1) },
                51 => In::InsertE { d, a: o!(0), v: o!(1), i: o!(2) },
                52 => { let n = oty!(0).wn().1; let m = LLVMGetNumMaskElements(v); let mask: Vec<i32> = (0..m).map(|i| LLVMGetMaskValue(v, i)).collect(); In::Shuffle { d, a: o!(0), b: o!(1), n, mask: mask.into_boxed_slice() } }
                53 => { let n = LLVMGetNumIndices(v) as usize; let ix = std::slice::from_raw_parts(LLVMGetIndices(v), n).to_vec(); In::ExtractV { d, a: o!(0), idx: ix.into_boxed_slice() } }
                54 => { let n = LLVMGetNumIndices(v) as usize; let ix = std::slice::from_raw_parts(LLVMGetIndices(v), n).to_vec(); In::InsertV { d, a: o!(0), v: o!(1), idx: ix.into_boxed_slice() } }
                55 => In::Nop,
                56 => { let w = oty!(1).wn().0; In::CmpXchg { w, d, p: o!(0), c: o!(1), n: o!(2) } }
                57 => { let w = oty!(1).wn().0; In::Rmw { op: LLVMGetAtomicRMWBinOp(v) as u8, w, d, p: o!(0), v: o!(1) } }
                68 => In::Copy { d, a: o!(0) },
                _ => In::Bad(format!("opcode {}: {}", op, text(v))),
            }
        }
    }
}
unsafe fn is_br(v: Value) -> bool { !LLVMIsABranch(v).is_null() }
unsafe fn LLVMGetNumSuccessors_safe(v: Value, _op: i32) -> u32 { if is_br(v) { LLVMGetNumSuccessors(v) } else { 0 } }
#[allow(non_snake_case)]
unsafe fn LLVMIsABranch(v: Value) -> Value {
    extern "C" { fn LLVMIsACondBrInst(v: Value) -> Value; fn LLVMIsAUncondBrInst(v: Value) -> Value; }
    let a = LLVMIsACondBrInst(v);
    if a.is_null() { LLVMIsAUncondBrInst(v) } else { a }
}

macro_rules! isa { ($($f:ident = $k:expr),*) => {
    extern "C" { $( fn $f(v: Value) -> Value; )* }
    /// value kind by isa<> queries (the numeric enum differs between LLVM versions)
    unsafe fn vkind(v: Value) -> i32 { $( if !$f(v).is_null() { return $k; } )* if LLVMValueIsBasicBlock(v) != 0 { return 1; } -1 }
} }
extern "C" { fn LLVMValueIsBasicBlock(v: Value) -> i32; }
isa!(LLVMIsAConstantInt = 18, LLVMIsAConstantFP = 19, LLVMIsAFunction = 5, LLVMIsAGlobalVariable = 8, LLVMIsAInstruction = 24, LLVMIsAArgument = 0, LLVMIsAConstantPointerNull = 20, LLVMIsAGlobalAlias = 6, LLVMIsAConstantExpr = 10, LLVMIsAConstantArray = 11, LLVMIsAConstantStruct = 12, LLVMIsAConstantVector = 13, LLVMIsAUndefValue = 14, LLVMIsAConstantAggregateZero = 15, LLVMIsAConstantDataArray = 16, LLVMIsAConstantDataVector = 17, LLVMIsAInlineAsm = 23, LLVMIsAMDNode = 22, LLVMIsAMDString = 22);
