//! C10: trackers play what the pattern holds
use crate::c04::*;
use crate::env::*;
use crate::sym;
use hexodsp::dsp::tracker::{PatternData, Tracker, TrackerBackend, UIPatternModel};
use hexodsp::*;

fn drain(t: &mut Tracker, b: &mut TrackerBackend) {
    // the frontend and the audio thread take turns
    loop { let s = t.send_one_update(); let c = b.check_updates(); if !s && !c { break; } }
}
fn set_type(p: &mut PatternData, col: usize, k: usize) { match k { 0 => p.set_col_step_type(col), 1 => p.set_col_note_type(col), 2 => p.set_col_value_type(col), _ => p.set_col_gate_type(col) } }

/// any cells in a column of up to `rows` rows: what is heard at which phase
pub fn h_c10_play() {
    let rows = 1 + sym::choose("rows", sym::param("rows", 3) as usize);
    let col = [0, 5, 2][sym::choose("col", sym::param("cols", 2) as usize)];
    let typ = sym::choose("type", 4);
    let mut t = Tracker::new();
    let mut b = t.get_backend();
    let mut cells: Vec<Option<u16>> = vec![None; rows + 1];
    {
        let d = t.data();
        let mut p = d.lock().unwrap();
        if sym::choose("order", 2) == 0 { p.set_rows(rows); set_type(&mut p, col, typ); }
        for r in 0..rows + 1 {
            if sym::choose("set", 2) == 0 { continue; }
            let v = match typ {
                0 | 1 => { let v = sym::u16("v"); sym::assume(v <= 0xFFF); v }
                2 => [0xFFF, 0x000, 0x800][sym::choose("v", if r == 0 { 3 } else { 2 })],
                _ => 0xF00 | ([0xF0, 0xE0, 0x90, 0x00][sym::choose("div", if r == 0 { 4 } else { 1 })]) | [0xF, 0x7, 0x0][sym::choose("pw", if r == 0 { 3 } else { 2 })],
            };
            p.set_cell_value(r, col, v);
            cells[r] = Some(v);
        }
        p.set_rows(rows);
        set_type(&mut p, col, typ);
        for r in 0..rows { sym::check(p.get_cell_value(r, col) == cells[r].unwrap_or(0), "cells read back as set"); }
    }
    drain(&mut t, &mut b);
    sym::check(b.pattern_len() == rows, "the pattern length arrives");
    // per row values of a value column: linear between the set cells, from 0 and to 0 at the ends
    let mut line = vec![0.0f32; rows];
    if typ == 2 {
        let val = |r: usize| cells[r].map(|v| v as f32 / 4095.0);
        for r in 0..rows {
            let next = (r..rows).find(|k| cells[*k].is_some() || *k + 1 == rows).unwrap();
            let nv = val(next).unwrap_or(0.0);
            let prev = (0..r + 1).rev().find(|k| cells[*k].is_some()).unwrap_or(0);
            let pv = val(prev).unwrap_or(0.0);
            line[r] = if let Some(v) = val(r) { v } else if next == prev { nv } else { pv + (nv - pv) * (r - prev) as f32 / (next - prev) as f32 };
        }
    }
    for r in 0..rows { for f in [0.3f32, 0.55, 0.8] {
        let phase = (r as f32 + f) / rows as f32;
        let (mut o, mut g) = ([9.0f32], [9.0f32]);
        b.get_col_at_phase(col, &[phase], &mut o, &mut g);
        let last = (0..r + 1).rev().find_map(|k| cells[k]);
        let gate = if cells[r].is_some() { 1.0 } else { 0.0 };
        match typ {
            0 => { sym::mark(1); let w = match last { Some(v) => (v & 0xFFF) as f32 / 4095.0, None => 0.0 }; sym::check(close(o[0], w, 1e-5), "a step column holds the value of the last step"); sym::check(g[0] == gate, "the gate is on in rows with a step"); }
            1 => { sym::mark(2); let w = match last { Some(v) => ((v as i32 - 69) as f32 * 0.1 / 12.0).clamp(-1.0, 1.0), None => 0.0 }; sym::check(close(o[0], w, 1e-5), "a note column holds the pitch of the last note"); sym::check(g[0] == gate, "the gate is on in rows with a note"); }
            2 => {
                sym::mark(3);
                let prev = line[if r == 0 { rows - 1 } else { r - 1 }];
                sym::check(close(o[0], prev * (1.0 - f) + line[r] * f, 1e-3), "a value column moves linearly to the value of the row");
                sym::check(g[0] == if r + 1 == rows { 1.0 } else { 0.0 }, "the gate of a value column is on in the last row");
            }
            _ => {
                sym::mark(4);
                let w = match cells[r] { Some(v) => { let div = 16 - ((v >> 4) & 0xF); let sub = (f * div as f32).fract(); let pw = ((v & 0xF) + 1) as f32 / 16.0; if sub <= pw { 1.0 } else { 0.0 } } None => 0.0 };
                sym::check(o[0] == w, "a gate column is on for the coded part of the row");
                sym::check(g[0] == gate, "the gate is on in rows with a gate cell");
            }
        }
    } }
}

fn listen(b: &mut TrackerBackend) -> Vec<u32> {
    let ph = [0.01f32, 0.13, 0.26, 0.4, 0.51, 0.63, 0.77, 0.9, 0.99];
    let mut v = vec![b.pattern_len() as u32];
    for c in 0..6 { let (mut o, mut g) = ([0.0f32; 9], [0.0f32; 9]); b.get_col_at_phase(c, &ph, &mut o, &mut g); for k in 0..9 { v.push(o[k].to_bits()); v.push(g[k].to_bits()); } }
    v
}

/// any history of edits and transfers: after the transfer is done the audio side plays the edited pattern
pub fn h_c10_sync() {
    let k = sym::param("k", 3) as usize;
    let mut t = Tracker::new();
    let mut b = t.get_backend();
    {
        let d = t.data(); let mut p = d.lock().unwrap();
        p.set_rows(4); p.set_cell_value(0, 0, 0xFFF); p.set_cell_value(2, 0, 0x300); p.set_cell_value(1, 5, 0xFF0); p.set_cell_value(2, 3, 0x400); p.set_cell_value(3, 4, 0x555); p.set_col_gate_type(5); p.set_col_step_type(3);
    }
    if sym::choose("start", 2) == 1 { drain(&mut t, &mut b); }
    for _ in 0..k {
        let op = sym::choose("op", 8);
        let d = t.data();
        let mut p = d.lock().unwrap();
        match op {
            0 => { let (r, c, v) = [(1, 0, 0xF77), (3, 1, 0), (0, 0, 0xFFF), (4, 2, 0x100)][sym::choose("s", 4)]; p.set_cell_value(r, c, v) }
            1 => { let (r, c) = [(2, 0), (2, 3), (3, 4)][sym::choose("c", 3)]; p.clear_cell(r, c) }
            2 => p.set_rows(2),
            3 => p.set_rows(5),
            4 => { let ty = sym::choose("ty", 4); set_type(&mut p, [0, 5][sym::choose("tc", 2)], ty) }
            5 => { drop(p); t.send_one_update(); }
            6 => { drop(p); b.check_updates(); }
            _ => { drop(p); b = t.get_backend(); sym::mark(2); }
        }
    }
    drain(&mut t, &mut b);
    let mut t2 = Tracker::new();
    let mut b2 = t2.get_backend();
    t2.data().lock().unwrap().from_repr(&t.data().lock().unwrap().to_repr());
    drain(&mut t2, &mut b2);
    sym::mark(1);
    sym::check(listen(&mut b) == listen(&mut b2), "after all updates were transferred the audio side plays exactly the pattern");
}

/// edits while the audio thread does not run
pub fn h_c10_flood() {
    let n = sym::param("from", 0) as usize + sym::choose("n", sym::param("n", 3) as usize);
    let mut t = Tracker::new();
    let mut b = t.get_backend();
    t.data().lock().unwrap().set_rows(4);
    for i in 0..n { t.data().lock().unwrap().set_cell_value(i % 4, i % 6, i as u16); t.send_one_update(); }
    t.data().lock().unwrap().set_cell_value(1, 1, 0x123);
    t.send_one_update();
    drain(&mut t, &mut b);
    let mut t2 = Tracker::new();
    let mut b2 = t2.get_backend();
    t2.data().lock().unwrap().from_repr(&t.data().lock().unwrap().to_repr());
    drain(&mut t2, &mut b2);
    sym::mark(1);
    sym::check(listen(&mut b) == listen(&mut b2), "no number of edits before the audio thread runs loses one");
}

/// a TSeq node in a patch, its cell removed and placed again
pub fn h_c10_node() {
    let inst = sym::choose("inst", 2) as u8;
    let id = NodeId::TSeq(inst);
    let mut m = matrix(2, 3, 200.0);
    let place = |m: &mut M| { m.m.place(0, 0, Cell::empty(id).out(None, None, id.out("trk1"))); m.m.place(0, 1, Cell::empty(NodeId::Out(0)).input(Some(0), None, None)); };
    let edit = |m: &mut M, v: u16| { let p = m.m.get_pattern_data(inst as usize).unwrap(); let mut p = p.lock().unwrap(); p.set_rows(2); p.set_col_step_type(0); p.set_cell_value(0, 0, v); p.set_cell_value(1, 0, 0xFFF); };
    let v = sym::u16("v"); sym::assume(v <= 0xFFF);
    let before = sym::choose("before", 2) == 1;
    if before { edit(&mut m, v); }
    place(&mut m);
    m.m.set_param(id.inp_param("cmode").unwrap(), SAtom::setting(2));
    let second = sym::choose("second", 2) == 1;
    m.m.set_param(id.inp_param("clock").unwrap(), SAtom::param(if second { 0.75 } else { 0.25 }));
    m.m.sync().unwrap();
    if !before { edit(&mut m, v); }
    let play = |m: &mut M| -> f32 { for _ in 0..8 { m.m.check_pattern_data(inst as usize); callback(&mut m.ne, 3); } callback(&mut m.ne, 3).out[0][2] };
    let vol = { let p = NodeId::Out(0).inp_param("vol").unwrap(); p.denorm(p.norm_def()) };
    let want = if second { 1.0 } else { v as f32 / 4095.0 };
    let o = play(&mut m);
    sym::check(close(o, want * vol, 1e-4), "a TSeq plays its pattern");
    sym::mark(1);
    match sym::choose("again", 3) {
        0 => (),
        1 => {
            m.m.place(0, 0, Cell::empty(NodeId::Nop)); m.m.sync().unwrap(); callback(&mut m.ne, 2);
            place(&mut m); m.m.sync().unwrap();
            sym::mark(2);
        }
        _ => {
            let r = m.m.to_repr();
            sym::check(m.m.from_repr(&r).is_ok(), "the patch can be loaded again");
            sym::mark(3);
        }
    }
    let o = play(&mut m);
    sym::check(close(o, want * vol, 1e-4), "a TSeq plays its pattern after it was removed and placed again or the patch was loaded again");
    forget(m);
}
