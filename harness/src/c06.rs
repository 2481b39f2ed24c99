//! C06: saving and loading
use crate::c04::*;
use crate::sym;
use hexodsp::dsp::tracker::UIPatternModel;
use hexodsp::matrix_repr::MatrixRepr;
use hexodsp::*;

fn amp(i: u8) -> NodeId { NodeId::Amp(i) }
fn pin(i: u8) -> ParamId { amp(i).inp_param("inp").unwrap() }

fn port(n: &str, cnt: u8) -> Option<u8> { match sym::choose(n, cnt as usize + 1) { 0 => None, k => Some(k as u8 - 1) } }

/// everything a user sees of two matrices agrees
fn compare(a: &mut Matrix, b: &mut Matrix, params: &[ParamId], eps: f32, props: &[&str], trackers: &[usize], skip: Option<(usize, usize, usize)>) {
    let (w, h) = a.size();
    for x in 0..w { for y in 0..h {
        let (c, d) = (a.get_copy(x, y).unwrap(), b.get_copy(x, y).unwrap());
        sym::check(c.node_id() == d.node_id(), "the node at each position survives saving and loading");
        for e in 0..6 { let e = CellDir::from(e); sym::check(c.local_port_idx(e) == d.local_port_idx(e), "the ports of each cell survive saving and loading"); }
    } }
    for p in params {
        let ok = match (a.get_param(p), b.get_param(p)) {
            (None, None) => true,
            (Some(SAtom::Param(x)), Some(SAtom::Param(y))) => x.to_bits() == y.to_bits() || x == y || (x - y).abs() <= eps,
            (Some(x), Some(y)) => x == y,
            _ => false,
        };
        sym::check(ok, "parameter values survive saving and loading");
        sym::check(a.get_param_modamt(p) == b.get_param_modamt(p), "modulation amounts survive saving and loading");
        sym::check(a.param_input_is_used(*p) == b.param_input_is_used(*p), "connections survive saving and loading");
    }
    for p in props {
        let x = a.get_prop(p).cloned();
        let y = b.get_prop(p).cloned();
        sym::check(x == y, "properties survive saving and loading");
    }
    for t in trackers.iter().copied() {
        let (p, q) = (a.get_pattern_data(t).unwrap(), b.get_pattern_data(t).unwrap());
        let (mut p, mut q) = (p.lock().unwrap(), q.lock().unwrap());
        sym::check(p.is_unset() == q.is_unset(), "patterns survive saving and loading");
        let unset = p.is_unset() && skip.map(|s| s.0) != Some(t);
        if !unset { sym::check(p.rows() == q.rows() && p.get_edit_step() == q.get_edit_step() && p.get_cursor() == q.get_cursor(), "pattern length, edit step and cursor survive"); }
        for c in 0..6 {
            if !unset { sym::check(p.col_type(c) == q.col_type(c), "column types survive"); }
            for r in [0, 1, 2, 3, 17, 254, 255] {
                sym::check(p.get_cell_value(r, c) == q.get_cell_value(r, c), "pattern cells survive");
                if skip == Some((t, r, c)) { continue; } // formatting a symbolic number
                let (x, y) = (p.get_cell(r, c).is_some(), q.get_cell(r, c).is_some());
                sym::check(x == y, "empty pattern cells survive");
            }
        }
    }
}

/// what another patch left in the engine a patch is loaded into
fn dirty(m: &mut M) {
    m.m.place(2, 2, Cell::empty(amp(1)).out(Some(0), None, None));
    m.m.place(0, 0, Cell::empty(NodeId::Sin(0)).out(Some(0), None, None));
    m.m.set_param(pin(0), SAtom::param(0.77));
    m.m.set_param(pin(1), SAtom::param(0.66));
    let _ = m.m.set_param_modamt(pin(1), Some(0.5));
    m.m.set_prop("old", SAtom::setting(1));
    for t in 0..2 {
        let p = m.m.get_pattern_data(t).unwrap();
        let mut p = p.lock().unwrap();
        p.set_cell_value(3, 1, 0x123);
        p.set_col_note_type(4);
        p.set_rows(7);
        p.set_edit_step(9);
        let _ = p.get_cell(3, 1);
    }
    m.m.sync().unwrap();
}

pub fn h_c06_repr() {
    let mut a = matrix(3, 3, 200.0);
    // an Amp with arbitrary ports and parameters, a fixed second node
    let pos = sym::choose("pos", sym::param("npos", 3) as usize) * 4 % 9;
    let mut skip = None;
    let variant = sym::choose("v", 4);
    let mut cell = Cell::empty(amp(0)).out(Some(0), None, None);
    let mut pmod = None;
    let v = sym::f32("inp");
    sym::assume(v.is_finite());
    match variant {
        0 => cell = Cell::empty(amp(1)).input(Some(sym::choose("i", 3) as u8), None, Some(0)).out(port("o", 1), None, Some(0)),
        1 => { cell = Cell::empty(amp(0)).input(None, port("i", 3), None).out(None, Some(0), None); pmod = Some(sym::f32_in("amt", -1.0, 1.0)); }
        _ => (),
    }
    a.m.place(pos / 3, pos % 3, cell);
    a.m.set_param(pin(0), SAtom::param(v));
    let s = sym::u64("setting") as i64;
    a.m.set_param(amp(0).inp_param("neg_att").unwrap(), SAtom::setting(s));
    if pmod.is_some() { sym::check(a.m.set_param_modamt(pin(0), pmod).is_ok(), "modulation can be set"); }
    let propf = sym::f32("prop");
    sym::assume(!propf.is_nan());
    a.m.set_prop("f", SAtom::param(propf));
    a.m.set_prop("i", SAtom::setting(s));
    a.m.set_prop("s", SAtom::str("a \"text\"\n"));
    a.m.set_prop("m", SAtom::micro(&[propf, 1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 7.0]));
    if variant >= 2 {
        let t = [0, 40][variant - 2];
        let p = a.m.get_pattern_data(t).unwrap();
        let mut p = p.lock().unwrap();
        let r = [0, 2, 255][sym::choose("row", 3)];
        let c = [0, 1, 5][sym::choose("col", 3)];
        skip = Some((t, r, c));
        p.set_cell_value(r, c, sym::u16("cell"));
        p.set_rows(sym::range("rows", 0, 256));
        p.set_edit_step(sym::range("es", 0, 300));
        p.set_cursor(sym::range("cr", 0, 255), sym::range("cc", 0, 5));
        match sym::choose("ct", 4) { 0 => p.set_col_note_type(c), 1 => p.set_col_step_type(c), 2 => p.set_col_gate_type(c), _ => p.set_col_value_type(c) }
    }
    sym::check(a.m.sync().is_ok(), "the patch is valid");
    let repr = a.m.to_repr();
    let mut b = matrix(3, 3, 200.0);
    if sym::choose("dirty", 2) == 1 { sym::mark(2); dirty(&mut b); }
    sym::check(b.m.from_repr(&repr).is_ok(), "a saved patch can be loaded");
    sym::mark(1);
    let params: Vec<ParamId> = [amp(0), amp(1), NodeId::Sin(0)].iter().flat_map(|n| (0..4).filter_map(move |i| n.param_by_idx(i))).collect();
    compare(&mut a.m, &mut b.m, &params, 0.0, &["f", "i", "s", "m", "old"], &[0, 1, 40], skip);
    forget(a); forget(b);
}

/// through the JSON text and back
pub fn h_c06_text() {
    let mut a = matrix(3, 3, 200.0);
    let full = sym::param("full", 0) == 1;
    let vals = [-1.0f32, -0.3, 0.0, 1.0e-9, 0.7071, 1.0];
    let vi = sym::choose("v", vals.len());
    let ni = sym::choose("node", 4);
    let pos = if full { sym::choose("pos", 3) } else { ni % 3 } * 4;
    let v = vals[vi];
    let node = [NodeId::Sin(1), NodeId::Mix3(0), NodeId::Mux9(0), NodeId::Delay(0)][ni];
    a.m.place(pos / 3, pos % 3, Cell::empty(node).input(Some(0), Some(2), Some(1)).out(Some(0), None, Some(0)));
    let mut params = vec![];
    for i in 0..16 { if let Some(p) = node.inp_param_by_idx(i) { if !p.is_atom() && i < 3 {
        let (lo, hi) = p.param_min_max().unwrap().0;
        a.m.set_param(p, SAtom::param(if i == 2 { lo + (hi - lo) * 0.3 } else { v.max(lo).min(hi) }));
    } params.push(p); } }
    let _ = a.m.set_param_modamt(node.inp_param_by_idx(1).unwrap(), if v < 0.0 { Some(v) } else { None });
    a.m.set_prop("m", SAtom::micro(&[v, 1.0, 0.1, 3.0, -4.5e-10, 5.0, 6.0, 7.0]));
    a.m.set_prop("m5", SAtom::micro(&[v, 1.0, 0.1, 3.0, 4.0][..1 + if full { sym::choose("mlen", 5) } else { vi % 5 }]));
    a.m.set_prop("s", SAtom::str("a \"text\"\n\\ \u{1}\u{e9}\u{1F600}"));
    a.m.set_prop("i", SAtom::setting([i64::MIN, i64::MAX, -1, 0][(vi + ni) % 4]));
    { let p = a.m.get_pattern_data(1).unwrap(); let mut p = p.lock().unwrap(); p.set_cell_value(2, 5, 0xFFFF); p.set_cell_value(255, 0, 0); p.set_rows(3); p.set_col_gate_type(2); }
    sym::check(a.m.sync().is_ok(), "the patch is valid");
    let text = a.m.to_repr().serialize();
    let repr = match MatrixRepr::deserialize(&text) { Ok(r) => r, Err(_) => { sym::check(false, "saved text can be parsed"); return; } };
    let mut b = matrix(3, 3, 200.0);
    sym::check(b.m.from_repr(&repr).is_ok(), "a saved patch can be loaded");
    sym::mark(1);
    compare(&mut a.m, &mut b.m, &params, 2e-5, &["m", "m5", "s", "i"], &[0, 1, 2], None);
    sym::check(b.m.to_repr().patterns.len() == a.m.to_repr().patterns.len(), "same number of patterns");
    forget(a); forget(b);
}
