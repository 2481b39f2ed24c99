//! C03 / C04 / C05: hexagonal matrix, signal routing, parameters
use crate::env::*;
use crate::sym;
use hexodsp::matrix::MatrixError;
use hexodsp::*;

pub const W: usize = 2;
pub const H: usize = 3;

#[derive(Clone, Copy, PartialEq)]
pub struct L { pub pos: (usize, usize), pub id: NodeId, pub inp: [Option<u8>; 3], pub out: [Option<u8>; 3] }
impl L {
    pub fn new(pos: usize, id: NodeId) -> L { L { pos: (pos / H, pos % H), id, inp: [None; 3], out: [None; 3] } }
    pub fn cell(&self) -> Cell { Cell::empty(self.id).input(self.inp[0], self.inp[1], self.inp[2]).out(self.out[0], self.out[1], self.out[2]) }
}
/// position of the neighbour at an input edge (0: top, 1: top left, 2: bottom left)
pub fn nb(p: (usize, usize), k: usize) -> Option<(usize, usize)> {
    let up = p.0 % 2 == 0;
    let (dx, dy): (i32, i32) = match k { 0 => (0, -1), 1 => (-1, if up { -1 } else { 0 }), _ => (-1, if up { 0 } else { 1 }) };
    let (x, y) = (p.0 as i32 + dx, p.1 as i32 + dy);
    if x < 0 || y < 0 || y >= H as i32 { None } else { Some((x as usize, y as usize)) }
}
/// output slot that faces input slot k: top faces bottom (3rd), top left faces bottom right (2nd), bottom left faces top right (1st)
fn facing(k: usize) -> usize { match k { 0 => 2, 1 => 1, _ => 0 } }

/// connections of a layout: (from cell, output, to cell, input)
pub fn edges(l: &[L]) -> Vec<(usize, u8, usize, u8)> {
    let mut r = vec![];
    for (j, c) in l.iter().enumerate() {
        for k in 0..3 {
            if let (Some(i), Some(p)) = (c.inp[k], nb(c.pos, k)) {
                for (s, d) in l.iter().enumerate() { if d.pos == p && d.id != NodeId::Nop { if let Some(o) = d.out[facing(k)] { r.push((s, o, j, i)); } } }
            }
        }
    }
    r
}

pub struct M { pub m: Matrix, pub ne: NodeExecutor }
pub fn matrix(w: usize, h: usize, sr: f32) -> M {
    let (nc, mut ne) = new_node_engine();
    ne.no_logging();
    ne.set_sample_rate(sr);
    M { m: Matrix::new(nc, w, h), ne }
}
pub fn forget(m: M) { std::mem::forget(m.m); std::mem::forget(m.ne); }

fn amp(i: u8) -> NodeId { NodeId::Amp(i) }

/// Amp(0), Amp(1) and Out(0) anywhere on the grid with any facing or non-facing ports
pub fn h_c04_route() {
    let modes = sym::param("modes", 2) as usize;
    let mut l = vec![L::new(0, amp(0)), L::new(0, amp(1)), L::new(0, NodeId::Out(0))];
    let outpos = if sym::param("all", 0) == 1 { sym::choose("out_pos", W * H) } else { [4, 2][sym::choose("out_sel", 2)] };
    l[2].pos = (outpos / H, outpos % H);
    for i in 0..2 {
        let p = sym::choose("pos", W * H);
        l[i].pos = (p / H, p % H);
        for j in (0..3).filter(|j| *j == 2 || *j < i) { sym::assume(l[j].pos != l[i].pos); }
    }
    match sym::choose("a_out", 4) { 3 => l[0].out = [Some(0); 3], k => l[0].out[k] = Some(0) }
    let e = sym::choose("b_in", 3);
    l[1].inp[e] = Some(0);
    l[1].out = [Some(0); 3];
    let c1 = sym::choose("ch1", 3);
    let c2 = (c1 + 1 + sym::choose("ch2", 2)) % 3;
    l[2].inp[c1] = NodeId::Out(0).inp("ch1");
    l[2].inp[c2] = NodeId::Out(0).inp("ch2");
    let amt = if sym::choose("mod", modes) == 1 { Some(sym::f32_in("amt", -1.0, 1.0)) } else { None };
    let (va, vb) = (sym::f32_in("va", -2.0, 2.0), sym::f32_in("vb", -2.0, 2.0));
    let ed = edges(&l);
    let mut m = matrix(W, H, 200.0);
    for c in &l { m.m.place(c.pos.0, c.pos.1, c.cell()); }
    let pin = |i: u8| amp(i).inp_param("inp").unwrap();
    m.m.set_param(pin(0), SAtom::param(va));
    m.m.set_param(pin(1), SAtom::param(vb));
    for i in 0..2 { m.m.set_param(amp(i).inp_param("gain").unwrap(), SAtom::param(0.5)); } // 0 dB
    if let Some(a) = amt { let _ = m.m.set_param_modamt(pin(1), Some(a)); }
    sym::check(m.m.check().is_ok() && m.m.sync().is_ok(), "a matrix without cycles and double inputs is accepted");
    let ctx = callback(&mut m.ne, 2);
    // what has to be heard
    let a = va;
    let conn = |t: usize, i: u8| ed.iter().find(|e| e.2 == t && e.3 == i).map(|e| e.0);
    let b = match conn(1, 0) { Some(0) => { sym::mark(1); match amt { None => a, Some(amt) => { sym::mark(2); vb + amt * a } } } _ => vb };
    let sig = |s: Option<usize>| match s { Some(0) => a, Some(1) => { sym::mark(3); b } _ => 0.0 };
    let vol = { let p = NodeId::Out(0).inp_param("vol").unwrap(); p.denorm(p.norm_def()) };
    let (o1, o2) = (sig(conn(2, 0)) * vol, sig(conn(2, 1)) * vol);
    for f in 0..2 {
        sym::check(close(ctx.out[0][f], o1, 1e-4), "the left output is the signal connected to it");
        sym::check(close(ctx.out[1][f], o2, 1e-4), "the right output is the signal connected to it");
    }
    m.m.update_output_feedback();
    sym::check(close(m.m.out_fb_for(&amp(0), 0).unwrap_or(9.0), a, 1e-4), "the output feedback of a node is its last output sample");
    sym::check(close(m.m.out_fb_for(&amp(1), 0).unwrap_or(9.0), b, 1e-4), "the output feedback of a node is its last output sample");
    sym::check(close(m.m.led_value_for(&amp(1)), b, 1e-4), "the LED of a node shows its own value");
    for i in 0..2u8 { sym::check(m.m.param_input_is_used(pin(i)) == (conn(i as usize, 0).is_some()), "an input counts as used exactly when an output is connected to it"); }
    for i in 0..2u8 { sym::check(m.m.param_input_is_used(NodeId::Out(0).inp_param_by_idx(i as usize).unwrap()) == (conn(2, i).is_some()), "an input counts as used exactly when an output is connected to it"); }
    // the connections the matrix reports are the ones that carry signals
    for c in &l {
        let r = m.m.get_connections(c.pos.0, c.pos.1).unwrap();
        let want = ed.iter().filter(|e| l[e.0] == *c || l[e.2] == *c).count();
        sym::check(r.len() == want, "the connections reported for a cell are its signal connections");
        for (s, d) in r.iter() {
            let (i, j) = (l.iter().position(|c| c.pos == s.0.pos()), l.iter().position(|c| c.pos == d.3));
            let ok = ed.iter().any(|e| (Some(e.0) == i && Some(e.2) == j && e.1 == s.2 && e.3 == d.2) || (Some(e.2) == i && Some(e.0) == j && e.3 == s.2 && e.1 == d.2));
            sym::check(ok, "a reported connection exists");
        }
    }
    forget(m);
}

/// two uploads in a row: what is heard depends on the second layout only, parameters persist
pub fn h_c04_change() {
    let (va, vb) = (sym::f32_in("va", -2.0, 2.0), sym::f32_in("vb", -2.0, 2.0));
    let mut m = matrix(W, H, 200.0);
    let pin = |i: u8| amp(i).inp_param("inp").unwrap();
    for i in 0..3 { m.m.set_param(amp(i).inp_param("gain").unwrap(), SAtom::param(0.5)); } // 0 dB
    m.m.set_param(pin(0), SAtom::param(va));
    m.m.set_param(pin(1), SAtom::param(vb));
    let mut amt = None;
    for step in 0..2 {
        let mut l = vec![];
        let swap = sym::choose("swap", 2);
        let mut a = L::new(0, amp(swap as u8));
        a.out = [Some(0); 3];
        let mut b = L::new(1, amp(1 - swap as u8));
        b.out = [Some(0); 3];
        if sym::choose("ab", 2) == 1 { b.inp[0] = Some(0); }
        let mut o = L::new(3, NodeId::Out(0));
        match sym::choose("outs", 4) { 0 => (), 1 => o.inp[1] = Some(0), 2 => { o.inp[1] = Some(1); o.inp[2] = Some(0) } _ => o.inp[2] = Some(0) }
        l.push(a); l.push(b); l.push(o);
        if step == 1 && sym::choose("third", 2) == 1 {
            // a further instance appears, the B cell moves down
            l[1].pos = (0, 2);
            let mut c = L::new(1, amp(2));
            c.inp[0] = Some(0);
            c.out = [Some(0); 3];
            l.push(c);
        }
        m.m.change_matrix(|m| {
            for x in 0..W { for y in 0..H { m.place(x, y, Cell::empty(NodeId::Nop)); } }
            for c in &l { m.place(c.pos.0, c.pos.1, c.cell()); }
        }).unwrap();
        m.m.sync().unwrap();
        if step == 0 || sym::param("mods", 1) == 1 {
            match sym::choose("mod", 2 + step) { 1 => { amt = Some(sym::f32_in("amt", -1.0, 1.0)); sym::check(m.m.set_param_modamt(pin(1), amt).is_ok(), "modulation can be set") } 2 => { amt = None; sym::check(m.m.set_param_modamt(pin(1), amt).is_ok(), "modulation can be removed") } _ => () }
        }
        sym::check(m.m.get_param_modamt(&pin(1)) == amt, "the modulation amount reads back");
        if step == 0 && sym::choose("skip", 2) == 1 { continue; }
        let ctx = callback(&mut m.ne, 2);
        let ed = edges(&l);
        let conn = |t: NodeId, i: u8| ed.iter().find(|e| l[e.2].id == t && e.3 == i).map(|e| l[e.0].id);
        let mut val = [va, vb, 0.0];
        // evaluated in signal flow order: at most 3 nodes
        for _ in 0..3 { for i in 0..3u8 {
            let own = [va, vb, 0.0][i as usize];
            val[i as usize] = match conn(amp(i), 0) {
                Some(s) => { sym::mark(1); let x = val[s.instance()]; if i == 1 { match amt { Some(k) => { sym::mark(2); own + k * x } None => x } } else { x } }
                None => own,
            };
        } }
        let vol = { let p = NodeId::Out(0).inp_param("vol").unwrap(); p.denorm(p.norm_def()) };
        for ch in 0..2 {
            let want = match conn(NodeId::Out(0), ch as u8) { Some(s) => val[s.instance()] * vol, None => 0.0 };
            sym::check(close(ctx.out[ch][1], want, 1e-4), "after a change the outputs carry what the new layout connects");
        }
        m.m.update_output_feedback();
        for c in &l { if c.id != NodeId::Out(0) { sym::check(close(m.m.out_fb_for(&c.id, 0).unwrap_or(9.0), val[c.id.instance()], 1e-4), "the output feedback follows the change"); } }
    }
    forget(m);
}

/// modulation amounts set, changed and removed while the patch runs take effect with the next callback, in every frame
pub fn h_c04_live() {
    let vb = sym::f32_in("vb", -1.0, 1.0);
    let mut m = matrix(1, 3, 200.0);
    let pin = amp(0).inp_param("inp").unwrap();
    m.m.place(0, 0, Cell::empty(NodeId::Inp(0)).out(None, None, Some(0)));
    m.m.place(0, 1, Cell::empty(amp(0)).input(Some(0), None, None).out(None, None, Some(0)));
    m.m.place(0, 2, Cell::empty(NodeId::Out(0)).input(Some(0), None, None));
    m.m.set_param(amp(0).inp_param("gain").unwrap(), SAtom::param(0.5)); // 0 dB
    m.m.set_param(pin, SAtom::param(vb));
    m.m.sync().unwrap();
    let vol = { let p = NodeId::Out(0).inp_param("vol").unwrap(); p.denorm(p.norm_def()) };
    let ivol = { let p = NodeId::Inp(0).inp_param("vol").unwrap(); p.denorm(p.norm_def()) };
    let mut amt = None;
    for _ in 0..sym::param("k", 3) {
        if sym::bool("change") {
            let new = [None, Some(0.5), Some(0.75), Some(0.0)][sym::choose("amount", 4)];
            if new.is_none() && amt.is_some() { sym::mark(1); }
            if new.is_some() && amt.is_some() { sym::mark(2); }
            amt = new;
            sym::check(m.m.set_param_modamt(pin, amt).is_ok(), "the modulation amount can be changed");
        }
        sym::check(m.m.get_param_modamt(&pin) == amt, "the modulation amount reads back");
        let mut ctx = Ctx::new(3);
        for f in 0..3 { ctx.inp[0][f] = sym::f32_in("x", -1.0, 1.0); }
        callback_ctx(&mut m.ne, &mut ctx);
        let mut last = 0.0;
        for f in 0..3 {
            let x = ivol * ctx.inp[0][f];
            last = match amt { None => x, Some(a) => vb + a * x };
            sym::check(close(ctx.out[0][f], last * vol, 1e-4), "the modulation amount applies to every frame");
        }
        m.m.update_output_feedback();
        sym::check(close(m.m.out_fb_for(&amp(0), 0).unwrap_or(9.0), last, 1e-4), "the output feedback of a node is its last output sample");
        sym::check(close(m.m.out_fb_for(&NodeId::Inp(0), 0).unwrap_or(9.0), ivol * ctx.inp[0][2], 1e-4), "the output feedback of a node is its last output sample");
        sym::check(close(m.m.led_value_for(&amp(0)), last, 1e-4), "the LED of a node shows its own value");
    }
    forget(m);
}
