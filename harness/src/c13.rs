//! C13: mixing, mapping and routing nodes compute what they document
use crate::c04::*;
use crate::env::*;
use crate::sym;
use hexodsp::*;

/// node `id` at (1,1): top input from Inp ch 1, top left from Inp ch 2, bottom left from a constant Amp; its output to Out ch1
pub fn rig(id: NodeId, out: &str, ins: [Option<&str>; 3]) -> M {
    let mut m = matrix(3, 3, 1000.0);
    let inp = NodeId::Inp(0);
    m.m.place(1, 0, Cell::empty(inp).out(None, None, inp.out("sig1")));
    m.m.place(0, 1, Cell::empty(inp).out(None, inp.out("sig2"), None));
    m.m.place(0, 2, Cell::empty(NodeId::Amp(7)).out(NodeId::Amp(7).out("sig"), None, None));
    m.m.set_param(NodeId::Amp(7).inp_param("gain").unwrap(), SAtom::param(0.5));
    let i = |k: usize| ins[k].map(|n| id.inp(n).unwrap());
    m.m.place(1, 1, Cell::empty(id).input(i(0), i(1), i(2)).out(None, None, id.out(out)));
    m.m.place(1, 2, Cell::empty(NodeId::Out(0)).input(Some(0), None, None));
    m
}
pub fn set(m: &mut M, id: NodeId, n: &str, v: f32) { let p = id.inp_param(n).unwrap(); m.m.set_param(p, SAtom::param(v)); }
pub fn setting(m: &mut M, id: NodeId, n: &str, v: i64) { let p = id.inp_param(n).unwrap(); m.m.set_param(p, SAtom::setting(v)); }
/// the value a parameter set to v has for the node
pub fn den(id: NodeId, n: &str, v: f32) -> f32 { id.inp_param(n).unwrap().denorm(v) }
pub fn vol() -> f32 { let p = NodeId::Out(0).inp_param("vol").unwrap(); p.denorm(p.norm_def()) }
pub fn ivol() -> f32 { let p = NodeId::Inp(0).inp_param("vol").unwrap(); p.denorm(p.norm_def()) }
pub fn run(m: &mut M, inp: &[[f32; 2]]) -> Ctx {
    let mut c = Ctx::new(inp.len());
    for (f, i) in inp.iter().enumerate() { c.inp[0][f] = i[0]; c.inp[1][f] = i[1]; }
    callback_ctx(&mut m.ne, &mut c);
    c
}

/// Mix3, Amp, Inp and Out: any signals, chosen volumes
pub fn h_c13_mix() {
    let (a, b, c) = (sym::f32_in("a", -2.0, 2.0), sym::f32_in("b", -2.0, 2.0), sym::f32_in("c", -2.0, 2.0));
    const V: [f32; 3] = [0.5, 0.0, 1.0];
    match sym::choose("what", 4) {
        0 => { // three channels, each with its volume, times the output volume
            let id = NodeId::Mix3(0);
            let mut m = rig(id, "sig", [Some("ch1"), Some("ch2"), Some("ch3")]);
            let k = sym::choose("loud", 4);
            let v: Vec<f32> = (0..4).map(|i| if i == k { 1.0 } else { [0.5, 0.3, 0.7, 0.5][i] }).collect();
            for i in 0..4 { set(&mut m, id, ["vol1", "vol2", "vol3", "ovol"][i], v[i]); }
            set(&mut m, NodeId::Amp(7), "inp", c);
            m.m.sync().unwrap();
            let o = run(&mut m, &[[0.0, 0.0], [a, b]]);
            let g = |i: usize| den(id, ["vol1", "vol2", "vol3", "ovol"][i], v[i]);
            let gain = [a * ivol() * g(0), b * ivol() * g(1), c * g(2)];
            let want = (gain[0] + gain[1] + gain[2]) * g(3);
            sym::check(close(o.out[0][1], want * vol(), 1e-4), "Mix3 is the sum of its inputs scaled by their volumes and the output volume");
            m.m.update_output_feedback();
            sym::check(close(m.m.led_value_for(&id), want, 1e-4), "the LED of Mix3 shows its output");
            forget(m);
        }
        1 => { // gain and attenuator
            let id = NodeId::Amp(0);
            let mut m = rig(id, "sig", [Some("inp"), None, None]);
            let att = [0.0, 0.5, 1.0, -0.5, -1.0][sym::choose("att", 5)];
            let neg = sym::choose("neg", 2);
            let gain = V[sym::choose("gain", 3)];
            set(&mut m, id, "att", att); set(&mut m, id, "gain", gain); setting(&mut m, id, "neg_att", neg as i64);
            m.m.sync().unwrap();
            let o = run(&mut m, &[[0.0, 0.0], [a, b]]);
            let at = if neg == 1 { att.max(0.0) } else { att.abs() };
            let want = a * ivol() * den(id, "att", at) * den(id, "gain", gain);
            sym::check(close(o.out[0][1], want * vol(), 1e-4), "Amp scales by attenuator and gain, negative attenuator values are clipped or allowed");
            sym::check(close(m.m.led_value_for(&id), want, 1e-4), "the LED of Amp shows its output");
            forget(m);
        }
        2 => { // Out: mono or stereo, volume
            let mut m = matrix(2, 3, 1000.0);
            let (id, inp) = (NodeId::Out(0), NodeId::Inp(0));
            m.m.place(0, 0, Cell::empty(inp).out(None, None, inp.out("sig1")));
            m.m.place(0, 1, Cell::empty(id).input(id.inp("ch1"), None, None));
            let mono = sym::i64("mono");
            let v = V[sym::choose("vol", 3)];
            let late = sym::choose("late", 2) == 1;
            set(&mut m, id, "ch2", c); set(&mut m, id, "vol", v);
            if !late { setting(&mut m, id, "mono", mono); }
            m.m.sync().unwrap();
            if late { run(&mut m, &[[0.0; 2]]); setting(&mut m, id, "mono", mono); }
            let o = run(&mut m, &[[0.0, 0.0], [a, b]]);
            let v = den(id, "vol", v);
            let (l, r) = (a * ivol() * v, if mono > 0 { sym::mark(2); a * ivol() * v } else { c * v });
            sym::check(close(o.out[0][1], l, 1e-4), "the left output is channel 1 times the volume");
            sym::check(close(o.out[1][1], r, 1e-4), "the right output is channel 2, in mono mode channel 1, times the volume");
            forget(m);
        }
        _ => { // Inp: both inputs times the volume
            let mut m = matrix(2, 3, 1000.0);
            let (id, inp) = (NodeId::Out(0), NodeId::Inp(0));
            let sw = sym::choose("swap", 2) == 1;
            m.m.place(1, 0, Cell::empty(inp).out(None, None, inp.out("sig1")));
            m.m.place(0, 1, Cell::empty(inp).out(inp.out("sig2"), inp.out("sig2"), None));
            m.m.place(1, 1, Cell::empty(id).input(id.inp(if sw { "ch2" } else { "ch1" }), id.inp(if sw { "ch1" } else { "ch2" }), None));
            let v = V[sym::choose("vol", 3)];
            set(&mut m, inp, "vol", v);
            setting(&mut m, id, "mono", 0);
            m.m.sync().unwrap();
            let o = run(&mut m, &[[0.0, 0.0], [a, b]]);
            let v = den(inp, "vol", v);
            let w = if sw { [b * v, a * v] } else { [a * v, b * v] };
            for ch in 0..2 { sym::check(close(o.out[ch][1], w[ch] * vol(), 1e-4), "Inp passes the audio inputs on, times its volume"); }
            forget(m);
        }
    }
    sym::mark(1);
}

/// Map and SMap: any input, ranges in either direction
pub fn h_c13_map() {
    let x = sym::f32_in("x", -2.0, 2.0);
    let (lo, hi) = [(0.25, 0.75), (0.5, -0.5), (-1.0, 1.0)][sym::choose("out", 3)];
    let clip = sym::choose("clip", 2);
    if sym::choose("smap", 2) == 0 {
        let id = NodeId::Map(0);
        let mut m = rig(id, "sig", [Some("inp"), None, None]);
        let (il, ih) = [(0.0f32, 1.0f32), (-1.0, 1.0), (0.5, 0.25)][sym::choose("in", 3)];
        let (atv, offs) = [(1.0f32, 0.0f32), (-1.0, 0.5), (0.5, 0.25)][sym::choose("pre", 3)];
        for (n, v) in [("imin", il), ("imax", ih), ("min", lo), ("max", hi), ("atv", atv), ("offs", offs)] { set(&mut m, id, n, v); }
        setting(&mut m, id, "clip", clip as i64);
        m.m.sync().unwrap();
        let o = run(&mut m, &[[0.0, 0.0], [x, 0.0]]).out[0][1];
        let s = (x * ivol()) * atv + offs;
        let p = (s - il) / (ih - il);
        let w = lo + (hi - lo) * p;
        let w = if clip == 1 { sym::mark(2); w.clamp(lo.min(hi), hi.max(lo)) } else { w };
        sym::check(close(o, w * vol(), 1e-4), "Map maps its input range linearly to its output range and clips to it if asked to");
        sym::check(close(m.m.led_value_for(&id), p, 1e-3) || clip == 1, "the LED of Map shows the position in the range");
        forget(m);
    } else {
        let id = NodeId::SMap(0);
        let mut m = rig(id, "sig", [Some("inp"), None, None]);
        let mode = sym::choose("mode", 4);
        for (n, v) in [("min", lo), ("max", hi)] { set(&mut m, id, n, v); }
        setting(&mut m, id, "clip", clip as i64); setting(&mut m, id, "mode", mode as i64);
        m.m.sync().unwrap();
        let o = run(&mut m, &[[0.0, 0.0], [x, 0.0]]).out[0][1];
        let s = x * ivol();
        let p = if mode & 1 == 0 { s } else { (s + 1.0) * 0.5 };
        let p = if clip == 1 { sym::mark(3); p.clamp(0.0, 1.0) } else { p };
        let p = if mode >= 2 { 1.0 - p } else { p };
        sym::check(close(o, (lo + (hi - lo) * p) * vol(), 1e-4), "SMap maps 0..1 or -1..1 to its output range, inverted and clipped if asked to");
        forget(m);
    }
    sym::mark(1);
}

const INS: [&str; 9] = ["in_1", "in_2", "in_3", "in_4", "in_5", "in_6", "in_7", "in_8", "in_9"];
/// Mux9 with a connected select input: any value in 0..1
pub fn h_c13_select() {
    let id = NodeId::Mux9(0);
    let mut m = rig(id, "sig", [Some("slct"), Some("t_up"), None]);
    let max = 1 + sym::choose("in_cnt", 9);
    setting(&mut m, id, "in_cnt", max as i64 - 1);
    for i in 0..9 { set(&mut m, id, INS[i], (i + 1) as f32 / 10.0); }
    m.m.sync().unwrap();
    let x = sym::f32_in("x", 0.0001, 1.0);
    let o = run(&mut m, &[[0.3, 1.0], [x, 0.0]]).out[0][1];
    let mut hit = 0;
    for k in 0..9 { if k < max {
        let got = o == (k + 1) as f32 / 10.0 * vol();
        let (a, b) = (k as f32 / max as f32, (k + 1) as f32 / max as f32);
        if got { sym::mark(1); hit += 1; sym::check(x >= a - 0.0002 && x <= b + 0.0002, "the selected input is the one its range belongs to"); }
    } }
    sym::check(hit == 1, "one of the configured inputs is selected");
    forget(m);
}

/// Mux9 driven by triggers: any sequence of triggers, the number of inputs changed while running
pub fn h_c13_trig() {
    let id = NodeId::Mux9(0);
    let rst = sym::choose("pair", 3);
    let (t1, t2) = [("t_up", "t_down"), ("t_up", "t_rst"), ("t_down", "t_rst")][rst];
    let mut m = rig(id, "sig", [Some(t1), Some(t2), None]);
    let (mut max, max2) = [(9, 2), (1, 9), (2, 2), (4, 1)][sym::choose("in_cnt", 4)];
    setting(&mut m, id, "in_cnt", max as i64 - 1);
    for i in 0..9 { set(&mut m, id, INS[i], (i + 1) as f32 / 10.0); }
    m.m.sync().unwrap();
    let mut idx = 0usize;
    let mut last = [false; 2];
    for blk in 0..2 {
        let n = if blk == 0 { sym::param("n", 3) } else { sym::param("n2", 1) };
        if blk == 1 && max2 != max { max = max2; setting(&mut m, id, "in_cnt", max as i64 - 1); sym::mark(2); }
        let mut fr = vec![];
        for _ in 0..n { fr.push([sym::choose("a", 2) == 1, sym::choose("b", 2) == 1]); }
        // (the set setting arrives with the block)
        let v: Vec<[f32; 2]> = fr.iter().map(|f| [if f[0] { 1.0 } else { 0.0 }, if f[1] { 1.0 } else { 0.0 }]).collect();
        let o = run(&mut m, &v);
        idx %= max;
        for (f, x) in fr.iter().enumerate() {
            let e = [x[0] && !last[0], x[1] && !last[1]];
            last = *x;
            let on = |n: &str| (t1 == n && e[0]) || (t2 == n && e[1]);
            if on("t_rst") { idx = 0; }
            if on("t_up") { idx = (idx + 1) % max; sym::mark(1); }
            if on("t_down") { idx = (idx + max - 1) % max; }
            sym::check(o.out[0][f] == (idx + 1) as f32 / 10.0 * vol(), "triggers select the next, previous or first input, wrapping around");
        }
    }
    forget(m);
}
