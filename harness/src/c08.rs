//! C08: every node type survives every parameter value
use crate::c04::*;
use crate::env::*;
use crate::sym;
use hexodsp::dsp::tracker::UIPatternModel;
use hexodsp::dsp::UICategory;
use hexodsp::*;

pub fn all_nodes() -> Vec<NodeId> {
    let mut v = vec![];
    for c in [UICategory::Osc, UICategory::Signal, UICategory::NtoM, UICategory::Ctrl, UICategory::Mod, UICategory::IOUtil] { c.get_node_ids(0, |n| if !matches!(n, NodeId::Code(_)) { v.push(n) }); }
    v
}

/// one node, its parameters at any values, one of them changed while playing
pub fn h_c08_node() {
    let mut ids = all_nodes();
    let symf = sym::param("symf", 0) == 1;
    // with symbolic parameter values: those whose float computations are within reach of the solver
    if symf { ids.retain(|n| !matches!(n, NodeId::Sin(_) | NodeId::BOsc(_) | NodeId::VOsc(_) | NodeId::BowStri(_) | NodeId::FormFM(_) | NodeId::Delay(_) | NodeId::AllP(_) | NodeId::Comb(_) | NodeId::FVaFilt(_) | NodeId::PVerb(_) | NodeId::Quant(_) | NodeId::CQnt(_) | NodeId::Scope(_) | NodeId::RndWk(_) | NodeId::MidiCC(_))); }
    let (from, n) = (sym::param("from", 0) as usize, sym::param("n", 64) as usize);
    let n = n.min(ids.len() - from);
    let id = ids[from + sym::choose("node", n)];
    // (the ladder filter of FVaFilt only works for frequencies below the sample rate)
    let mut m = matrix(2, 3, if let NodeId::FVaFilt(_) = id { 44100.0 } else { 1000.0 });
    m.m.place(0, 0, Cell::empty(id).out(None, None, if id.out_name_by_idx(0).is_some() { Some(0) } else { None }));
    m.m.place(0, 1, Cell::empty(NodeId::Out(0)).input(Some(0), None, None));
    if let NodeId::TSeq(_) = id {
        let p = m.m.get_pattern_data(0).unwrap();
        let mut p = p.lock().unwrap();
        p.set_rows(3); p.set_cell_value(0, 0, 0x30); p.set_cell_value(1, 1, 0x1FF); p.set_col_note_type(0); p.set_col_gate_type(1);
        drop(p);
        m.m.check_pattern_data(0);
    }
    let np = (0..16).filter(|i| id.param_by_idx(*i).is_some()).count();
    if np == 0 { return; }
    let k = sym::choose("param", np);
    let p = id.param_by_idx(k).unwrap();
    // another one at an extreme of its range
    let q = id.param_by_idx((k + 1) % np).unwrap();
    if q.is_atom() { if let Some(((_, hi), _)) = q.param_min_max() { m.m.set_param(q, SAtom::setting(hi as i64)); } }
    else if let Some(((lo, hi), _)) = q.param_min_max() { m.m.set_param(q, SAtom::param(if k % 2 == 0 { hi } else { lo })); }
    let late = sym::choose("late", 2) == 1;
    if late { m.m.sync().unwrap(); callback(&mut m.ne, 2); }
    let chosen = matches!(id, NodeId::FVaFilt(_) | NodeId::Quant(_) | NodeId::CQnt(_));
    const V: [f32; 8] = [1.0, -1.0, f32::NAN, 0.0, 1e30, -2.5, f32::INFINITY, 1e-40];
    if p.is_atom() {
        sym::mark(1);
        match sym::choose("kind", 4) { 0 => {
                // settings that select coefficients or keys: chosen values, the others: any
                const S: [i64; 10] = [-1, 0, 1, 2, 4, 0x1000, 0x881, 10, i64::MIN, i64::MAX];
                let s = if chosen { S[sym::choose("si", 10)] } else { sym::i64("s") };
                m.m.set_param(p, SAtom::setting(s))
            } 1 => m.m.set_param(p, SAtom::param(if chosen { V[sym::choose("v", 8)] } else { sym::f32("f") })), 2 => m.m.set_param(p, SAtom::str("x")), _ => m.m.set_param(p, SAtom::micro(&[1.0, 2.0])) }
    } else {
        sym::mark(2);
        if symf { m.m.set_param(p, SAtom::param(sym::f32_in("f", -2.0, 2.0))); }
        else {
            m.m.set_param(p, SAtom::param(V[sym::choose("v", (sym::param("vals", 8) as usize).min(8))]));
        }
    }
    m.m.sync().unwrap();
    for n in if symf { [1, 1, 1] } else { [3, 12, 5] } { callback(&mut m.ne, n); }
    sym::mark(3);
    m.m.update_filters();
    forget(m);
}

/// values far out of range of two kinds of parameters (recorded findings in the synfx-dsp dependency)
pub fn h_c08_far() {
    let quant = sym::param("quant", 0) == 1;
    let (id, name, v) = if quant { (NodeId::Quant(0), "freq", f32::from_bits(0xe9400001)) } else { (NodeId::Delay(0), "time", f32::from_bits(0x4207c572)) };
    let mut m = matrix(2, 3, 1000.0);
    m.m.place(0, 0, Cell::empty(id).out(None, None, Some(0)));
    m.m.place(0, 1, Cell::empty(NodeId::Out(0)).input(Some(0), None, None));
    m.m.set_param(id.inp_param(name).unwrap(), SAtom::param(v));
    m.m.sync().unwrap();
    for n in [1, 1, 12] { callback(&mut m.ne, n); }
    forget(m);
}
