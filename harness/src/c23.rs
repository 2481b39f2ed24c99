//! C23: the sound does not depend on how the host divides time into blocks, nor on what else is in the patch
use crate::c04::{forget, M};
use crate::c08::all_nodes;
use crate::c13::rig;
use crate::env::*;
use crate::sym;
use hexodsp::dsp::tracker::UIPatternModel;
use hexodsp::*;

const L: usize = 12;
const SIG: [[f32; L]; 3] = [
    [0.0, 1.0, 1.0, 0.0, 0.8, 0.0, 0.0, 0.9, 0.9, 0.9, 0.0, 1.0],
    [0.1, 0.3, 0.6, 0.9, 0.5, 0.2, -0.1, -0.5, -0.9, -0.4, 0.1, 0.6],
    [0.6, 0.6, 0.6, 0.6, 0.6, 0.6, 0.2, 0.2, 0.2, 0.2, 0.7, 0.7],
];

fn params(m: &mut M, id: NodeId, hi: bool) {
    for i in 0..24 { if let Some(p) = id.param_by_idx(i) {
        if let Some(((lo, h), _)) = p.param_min_max() {
            if p.is_atom() { if hi { m.m.set_param(p, SAtom::setting(h as i64)); } }
            else if hi { m.m.set_param(p, SAtom::param(lo + (h - lo) * 0.6)); }
        }
    } }
}
fn setup(c: &Case) -> M {
    let id = c.id;
    let mut m = rig(id, c.out, c.inp);
    if let NodeId::FVaFilt(_) = id { m.ne.set_sample_rate(44100.0); }
    if let NodeId::TSeq(_) = id {
        let p = m.m.get_pattern_data(0).unwrap();
        let mut p = p.lock().unwrap();
        p.set_rows(3); p.set_cell_value(0, 0, 0x30); p.set_cell_value(1, 1, 0x1FF); p.set_cell_value(2, 0, 0x48); p.set_col_note_type(0); p.set_col_gate_type(1);
        drop(p);
        m.m.check_pattern_data(0);
    }
    params(&mut m, id, c.hi);
    m.m.sync().unwrap();
    m
}

fn play(m: &mut M, blocks: &[usize], s: &[[f32; 2]; L], mut between: impl FnMut(&mut M, usize)) -> [f32; L] {
    let mut o = [0.0; L];
    let mut at = 0;
    callback(&mut m.ne, 2);
    for (b, n) in blocks.iter().enumerate() {
        between(m, b);
        let mut c = Ctx::new(*n);
        for f in 0..*n { c.inp[0][f] = s[at + f][0]; c.inp[1][f] = s[at + f][1]; }
        callback_ctx(&mut m.ne, &mut c);
        o[at..at + *n].copy_from_slice(&c.out[0][..*n]);
        at += *n;
    }
    o
}

#[derive(Clone, Copy)]
struct Case { id: NodeId, out: &'static str, inp: [Option<&'static str>; 3], hi: bool, s: [[f32; 2]; L] }
/// any node, two of its inputs driven at audio rate (or none), parameters and settings at their defaults or not
fn case() -> Case {
    let mut ids = all_nodes();
    ids.retain(|n| !matches!(n, NodeId::Out(_) | NodeId::Inp(_)) && n.out_name_by_idx(0).is_some());
    let symf = sym::param("symf", 0) == 1;
    if symf { ids.retain(|n| !matches!(n, NodeId::Sin(_) | NodeId::BOsc(_) | NodeId::VOsc(_) | NodeId::BowStri(_) | NodeId::FormFM(_) | NodeId::Delay(_) | NodeId::AllP(_) | NodeId::Comb(_) | NodeId::SFilter(_) | NodeId::FVaFilt(_) | NodeId::BiqFilt(_) | NodeId::PVerb(_) | NodeId::Map(_) | NodeId::Quant(_) | NodeId::CQnt(_) | NodeId::TsLFO(_) | NodeId::RndWk(_))); }
    let (from, n) = (sym::param("from", 0) as usize, sym::param("n", 64) as usize);
    let id = ids[from + sym::choose("node", n.min(ids.len() - from))];
    let mut nin = (0..16).filter(|i| id.inp_name_by_idx(*i).and_then(|n| id.inp(n)).is_some()).count();
    // (BiqFilt reads its controls once per block)
    if let NodeId::BiqFilt(_) = id { nin = 1; }
    let nout = (0..16).filter(|i| id.out_name_by_idx(*i).is_some()).count();
    let i = if nin > 0 { sym::choose("inp", nin) } else { 0 };
    let name = |k: usize| if nin > 0 { id.inp_name_by_idx((k % nin) as u8) } else { None };
    let j = if nin > 1 { name(i + 1) } else { None };
    let out = id.out_name_by_idx(sym::choose("out", nout.min(sym::param("outs", 2) as usize)) as u8).unwrap();
    let k = sym::choose("sig", sym::param("sigs", 3) as usize);
    let mut s = [[0.0; 2]; L];
    for f in 0..L { s[f] = [SIG[k][f], SIG[(k + 1) % 3][f]]; }
    // an arbitrary sample, where the computations are within reach of the solver
    if symf { s[6][0] = sym::f32_in("x", -1.0, 1.0); }
    Case { id, out, inp: [name(i), j, None], hi: sym::choose("hi", 2) == 1, s }
}

/// the same output for every division into blocks
pub fn h_c23_split() {
    let c = case();
    let blocks: &[usize] = [&[1; L][..], &[5, 7], &[11, 1], &[1, 2, 9]][sym::choose("split", 4)];
    let mut a = setup(&c);
    let x = play(&mut a, &[L], &c.s, |_, _| ());
    let mut b = setup(&c);
    let y = play(&mut b, blocks, &c.s, |_, _| ());
    for f in 0..L { sym::check(same(x[f], y[f]), "the output does not depend on the division into blocks"); }
    for f in 0..L { if x[f] != 0.0 { sym::mark(1); } }
    a.m.update_output_feedback(); b.m.update_output_feedback();
    sym::check(same(a.m.led_value_for(&c.id), b.m.led_value_for(&c.id)), "the LED does not depend on the division into blocks");
    forget(a); forget(b);
}

/// the same output whatever else is placed, changed or removed while playing
pub fn h_c23_other() {
    let c = case();
    let mut a = setup(&c);
    let x = play(&mut a, &[3, 5, 4], &c.s, |_, _| ());
    let mut b = setup(&c);
    let other = c.id.to_instance(1);
    let (first, op) = (sym::choose("first", 2) == 1, sym::choose("op", 5));
    let put = |m: &mut M, id: NodeId, pos: (usize, usize)| {
        m.m.place(pos.0, pos.1, Cell::empty(id));
        m.m.sync().unwrap();
    };
    if first { put(&mut b, other, (2, 0)); params(&mut b, other, true); b.m.sync().unwrap(); }
    let y = play(&mut b, &[3, 5, 4], &c.s, |m, blk| if blk > 0 { match op {
        0 => put(m, if blk == 1 { other } else { NodeId::Nop }, (2, 0)),
        1 => if blk == 1 { put(m, NodeId::Sin(0), (0, 0)); put(m, NodeId::Nop, (2, 0)); },
        2 => { if blk == 1 { put(m, other, (0, 0)); } params(m, other, blk == 1); }
        3 => m.m.sync().unwrap(),
        _ => if blk == 1 { put(m, NodeId::Amp(1), (2, 2)); } else { put(m, NodeId::Mix3(0), (2, 2)); },
    } });
    for f in 0..L { sym::check(same(x[f], y[f]), "the output does not depend on other nodes"); }
    for f in 0..L { if x[f] != 0.0 { sym::mark(1); } }
    forget(a); forget(b);
}

/// a patch sounds as if it was loaded into a new engine, whatever was played before
pub fn h_c23_load() {
    let c = case();
    let mut a = setup(&c);
    let r = a.m.to_repr();
    let mut n = crate::c04::matrix(3, 3, if let NodeId::FVaFilt(_) = c.id { 44100.0 } else { 1000.0 });
    n.m.from_repr(&r).unwrap();
    let x = play(&mut n, &[5, 7], &c.s, |_, _| ());
    // what was played before: the same patch with other values, another patch
    let before = sym::choose("before", 3);
    let mut d = Case { hi: !c.hi, ..c };
    if before == 1 { d.s[3][0] = 0.33; d.hi = c.hi; }
    let mut b = setup(&d);
    if before == 2 { b.m.clear(); b.m.place(1, 1, Cell::empty(c.id.to_instance(1)).out(None, None, Some(0))); b.m.place(1, 2, Cell::empty(NodeId::Out(0)).input(Some(0), None, None)); b.m.sync().unwrap(); }
    play(&mut b, &[12], &d.s, |_, _| ());
    b.m.from_repr(&r).unwrap();
    let y = play(&mut b, &[5, 7], &c.s, |_, _| ());
    for f in 0..L { sym::check(same(x[f], y[f]), "a loaded patch sounds the same whatever was played before"); }
    for f in 0..L { if x[f] != 0.0 { sym::mark(1); } }
    forget(a); forget(b); forget(n);
}
