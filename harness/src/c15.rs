//! C15: the graph builders (MatrixCellChain, SynthConstructor) build the graph that was described
use crate::c04::{forget, matrix};
use crate::env::*;
use crate::sym;
use hexodsp::build::*;
use hexodsp::synth_constructor::SynthError;
use hexodsp::*;

const DIRS: [CellDir; 6] = [CellDir::B, CellDir::BR, CellDir::TR, CellDir::T, CellDir::TL, CellDir::BL];
/// position of the neighbour, independent of CellDir::as_offs
fn step(p: (usize, usize), d: usize) -> (usize, usize) {
    let up = p.0 % 2 == 0;
    let (dx, dy): (i32, i32) = match d {
        0 => (0, 1), 3 => (0, -1),
        1 => (1, if up { 0 } else { 1 }), 2 => (1, if up { -1 } else { 0 }),
        4 => (-1, if up { -1 } else { 0 }), _ => (-1, if up { 0 } else { 1 }),
    };
    ((p.0 as i32 + dx) as usize, (p.1 as i32 + dy) as usize)
}

/// a chain of Amp -> Amp -> Out in each direction next to used instances
pub fn h_c15_chain() {
    let d = sym::choose("dir", 6);
    let p0 = [(2, 2), (3, 3)][sym::choose("at", 2)];
    let used: &[u8] = [&[][..], &[0], &[1], &[0, 1], &[0, 2], &[1, 2, 3]][sym::choose("used", 6)];
    let (va, vb, vu) = (sym::f32_in("va", -1.0, 1.0), [0.5, 0.25][sym::choose("vb", 2)], sym::f32_in("vu", -1.0, 1.0));
    let mut m = matrix(8, 6, 200.0);
    let pin = |i: u8| NodeId::Amp(i).inp_param("inp").unwrap();
    let patt = |i: u8| NodeId::Amp(i).inp_param("att").unwrap();
    for (k, u) in used.iter().enumerate() {
        m.m.place(7, k, Cell::empty(NodeId::Amp(*u)));
        m.m.set_param(pin(*u), SAtom::param(vu));
        m.m.set_param(patt(*u), SAtom::param(vu));
    }
    // (instances are known to be used once the matrix is synced, as documented)
    if !used.is_empty() || sym::choose("synced", 2) == 1 { m.m.sync().unwrap(); }
    let mut c = MatrixCellChain::new(DIRS[d]);
    let late = sym::choose("late", 2) == 1;
    // the chain is described from the signal source to the output, or the other way around for input directions
    if d < 3 {
        c.node_out("amp", "sig").set_norm("inp", va);
        c.node_io("amp", "inp", "sig");
        if !late { c.set_atom("att", SAtom::param(vb)).set_atom("neg_att", SAtom::setting(1)); }
        c.node_inp("out", "ch1");
    } else {
        c.node_inp("out", "ch1");
        c.node_io("amp", "inp", "sig");
        if !late { c.set_denorm("att", vb); }
        c.node_out("amp", "sig").set_norm("inp", va);
    }
    if late { sym::mark(2); c.params_for_idx(1).set_norm("att", vb).set_atom("neg_att", SAtom::setting(1)); }
    sym::check(c.place(&mut m.m, p0.0, p0.1).is_ok(), "a chain of known nodes and ports is placed");
    let p1 = step(p0, d);
    let p2 = step(p1, d);
    let ids: Vec<NodeId> = [p0, p1, p2].iter().map(|p| m.m.get(p.0, p.1).unwrap().node_id()).collect();
    let (a, b, o) = if d < 3 { (ids[0], ids[1], ids[2]) } else { (ids[2], ids[1], ids[0]) };
    sym::check(a.name() == "amp" && b.name() == "amp" && o == NodeId::Out(0), "the cells of a chain are placed one after another along its direction");
    if late || d < 3 { sym::check(m.m.get_param(&b.inp_param("neg_att").unwrap()).map(|v| v.i()) == Some(1), "a setting given for a cell of a chain is set"); }
    sym::check(a != b && !used.iter().any(|u| NodeId::Amp(*u) == a || NodeId::Amp(*u) == b), "each cell of a chain gets an instance nobody uses");
    for (k, u) in used.iter().enumerate() {
        sym::mark(1);
        sym::check(m.m.get(7, k).unwrap().node_id() == NodeId::Amp(*u), "placing a chain leaves other cells alone");
        let same_f = |p: ParamId| match m.m.get_param(&p) { Some(x) => same(x.f(), vu), None => false };
        sym::check(same_f(pin(*u)) && same_f(patt(*u)), "placing a chain leaves the parameters of other nodes alone");
    }
    sym::check(m.m.sync().is_ok(), "a placed chain can be synced");
    let ctx = callback(&mut m.ne, 2);
    let ctx = if ctx.n == 2 { callback(&mut m.ne, 4) } else { ctx };
    sym::check(close(ctx.out[0][3], ((va * gain()) * vb * gain()) * vol(), 1e-5), "a chain passes its signal along with the parameters given for its nodes");
    forget(m);
}
fn vol() -> f32 { let p = NodeId::Out(0).inp_param("vol").unwrap(); p.denorm(p.norm_def()) }

fn gain() -> f32 { let p = NodeId::Amp(0).inp_param("gain").unwrap(); p.denorm(p.norm_def()) }

/// a chain with one wrong name
pub fn h_c15_chain_err() {
    let d = sym::choose("dir", 6);
    let bad = sym::choose("bad", 9);
    let mut m = matrix(6, 6, 200.0);
    let mut c = MatrixCellChain::new(DIRS[d]);
    let n = |k: usize, good: &'static str, wrong: &'static str| if bad == k { wrong } else { good };
    c.node_out(n(0, "amp", "smap2"), n(1, "sig", "inp"));
    if bad != 0 { c.set_denorm(n(2, "gain", "sig"), 0.5); }
    c.node_io(n(3, "amp", ""), n(4, "inp", "sig"), n(5, "sig", "gain"));
    if bad == 6 { c.set_norm("neg", 0.5); }
    c.node_inp("out", n(7, "ch1", "ch3"));
    if bad == 8 { c.set_atom("monoo", SAtom::setting(1)); }
    let r = c.place(&mut m.m, 2, 2);
    let ok = match bad {
        0 | 3 => matches!(&r, Err(hexodsp::chain_builder::ChainError::UnknownNodeId(_))),
        1 | 5 => matches!(&r, Err(hexodsp::chain_builder::ChainError::UnknownOutput(_, _))),
        _ => matches!(&r, Err(hexodsp::chain_builder::ChainError::UnknownInput(_, _))),
    };
    sym::mark(1);
    sym::check(ok, "a chain with a wrong name is reported when it is placed");
    for x in 0..6 { for y in 0..6 { sym::check(m.m.get(x, y).unwrap().node_id() == NodeId::Nop, "a chain with a wrong name is not placed"); } }
    forget(m);
}

const V: [&str; 3] = ["v0", "v1", "v2"];
struct G { e: [Option<usize>; 3], out: usize }
impl G {
    fn cyclic(&self) -> bool { (0..3).any(|i| { let mut x = i; for _ in 0..4 { match self.e[x] { Some(y) => x = y, None => return false } } true }) }
    fn val(&self, v: &[f32; 3]) -> f32 { let mut x = self.out; let mut n = 1; while let Some(y) = self.e[x] { x = y; n += 1; } let mut r = v[x]; for _ in 0..n { r = r * gain(); } r }
}
fn node(i: usize) -> Amp { amp(i as u8) }

/// SynthConstructor: every graph of three Amps and an Out, then another edge
pub fn h_c15_synth() {
    let v = [sym::f32_in(V[0], -1.0, 1.0), sym::f32_in(V[1], -1.0, 1.0), sym::f32_in(V[2], -1.0, 1.0)];
    let nested = sym::choose("nested", 2) == 1;
    let mut g = G { e: [None; 3], out: 0 };
    let mut sc = SynthConstructor::new();
    let mut ne = sc.executor().unwrap();
    ne.no_logging();
    ne.set_sample_rate(200.0);
    for i in 0..3 { g.e[i] = match sym::choose("e", 4) { 3 => None, k => Some(k) }; }
    if sym::param("free", 0) == 0 { sym::assume(!nested || !g.cyclic()); }
    // (a description covers the nodes the outputs are made of)
    if nested && g.e[0] != Some(2) && g.e[1] != Some(2) { sym::assume(g.e[2].is_none()); }
    // one description of the whole graph, or one upload per node
    let r = if nested {
        let mut b: Vec<Amp> = (0..3).map(|i| node(i).set().inp(v[i])).collect();
        for i in 0..3 { if let Some(k) = g.e[i] { if k != i { let o = b[k].output().sig(); b[i] = b[i].clone().input().inp(&o); } } }
        sc.upload(&out(0).input().ch1(&b[0].output().sig()).input().ch2(&b[1].output().sig()))
    } else {
        let mut r = sc.upload(&out(0).input().ch1(&node(0).output().sig()));
        for i in 0..3 { if r.is_ok() {
            let b = node(i).set().inp(v[i]);
            r = match g.e[i] { Some(k) => sc.upload(&b.input().inp(&node(k).output().sig())), None => sc.upload(&b) };
        } }
        r
    };
    let mut c = Ctx::new(4);
    if g.cyclic() {
        sym::mark(1);
        sym::check(r == Err(SynthError::CycleDetected), "a graph with a cycle is rejected");
        // the rejected edges are gone: a fresh description is accepted
        let b = node(0).set().inp(v[0]);
        let b = if sym::choose("then", 2) == 1 { let mut g2 = G { e: [None; 3], out: 0 }; for i in 0..3 { g2.e[i] = g.e[i]; if g2.cyclic() { g2.e[i] = None; break; } } b } else { b };
        let r = sc.upload(&out(0).input().ch1(&b.output().sig()));
        sym::check(r.is_ok(), "after a rejected graph a graph without cycles is accepted");
    } else {
        sym::check(r.is_ok(), "a graph without a cycle is accepted");
        callback_ctx(&mut ne, &mut c);
        callback_ctx(&mut ne, &mut c);
        sym::check(close(c.out[0][3], g.val(&v) * vol(), 1e-5), "the output is the signal of the uploaded graph");
        if nested { g.out = 1; sym::check(close(c.out[1][3], g.val(&v) * vol(), 1e-5), "the output is the signal of the uploaded graph"); g.out = 0; }
        // one more edge
        let (x, y) = (sym::choose("x", 3), sym::choose("y", 3));
        let e = g.e[x];
        g.e[x] = Some(y);
        let bad = g.cyclic();
        let r = sc.upload(&node(x).set().inp(v[x]).input().inp(&node(y).set().inp(v[y]).output().sig()));
        sym::check(if bad { r == Err(SynthError::CycleDetected) } else { r.is_ok() }, "an upload is rejected exactly if it leads to a cycle");
        if bad {
            sym::mark(2);
            g.e[x] = e;
            callback_ctx(&mut ne, &mut c);
            sym::check(close(c.out[0][3], g.val(&v) * vol(), 1e-5), "a rejected upload leaves the running graph as it was");
            // another change still works
            let z = sym::choose("z", 3);
            g.out = z;
            let r = sc.upload(&out(0).input().ch1(&node(z).set().inp(v[z]).output().sig()));
            sym::check(r.is_ok(), "after a rejected upload a good one is accepted");
        } else { sym::mark(3); }
        callback_ctx(&mut ne, &mut c);
        callback_ctx(&mut ne, &mut c);
        sym::check(close(c.out[0][3], g.val(&v) * vol(), 1e-5), "the output follows the changed graph");
    }
    std::mem::forget(sc);
    std::mem::forget(ne);
}

/// parameter updates without graph changes, modulation amounts, clear and custom nodes
pub fn h_c15_params() {
    let (a, b, w) = if sym::param("wc", 0) == 1 { (0.25, 0.5, 0.75) } else { (sym::f32_in("a", -1.0, 1.0), sym::f32_in("b", -1.0, 1.0), sym::f32_in("w", -1.0, 1.0)) };
    let mut sc = SynthConstructor::new();
    let mut ne = sc.executor().unwrap();
    ne.no_logging();
    ne.set_sample_rate(200.0);
    let mut c = Ctx::new(8);
    let w0 = sym::param("w0", 9) as usize;
    match if w0 < 9 { w0 } else { sym::choose("what", 6) } {
        0 => { // plain update after the upload
            let (a, b) = ([0.5, -0.25, 0.0][sym::choose("from", 3)], [1.0, -0.5, 0.125][sym::choose("to", 3)]);
            let g = out(0).input().ch1(&amp(0).set().inp(a).output().sig());
            sc.upload(&g).unwrap();
            callback_ctx(&mut ne, &mut c);
            sym::check(sc.update_params(&amp(0).set().inp(b)) == Ok(false), "a parameter update needs no new graph");
            for _ in 0..2 { callback_ctx(&mut ne, &mut c); }
            sym::check(close(c.out[0][7], b * gain() * vol(), 1e-4), "an updated parameter takes effect");
        }
        1 => { // given before the first upload
            sym::check(sc.update_params(&amp(0).set().inp(b)) == Ok(false), "a parameter update needs no new graph");
            sc.upload(&out(0).input().ch1(&amp(0).output().sig())).unwrap();
            for _ in 0..2 { callback_ctx(&mut ne, &mut c); }
            sym::check(close(c.out[0][7], b * gain() * vol(), 1e-4), "a parameter given before the upload takes effect");
        }
        2 => { // a modulation amount
            let k = sym::choose("amt", 3);
            let amt = [0.5, -1.0, 0.25][k];
            let src = amp(1).set().inp(w);
            let g = |b: Amp| out(0).input().ch1(&b.input().inp(&src.output().sig()).output().sig());
            sc.upload(&g(amp(0).set().inp(a))).unwrap();
            for _ in 0..2 { callback_ctx(&mut ne, &mut c); }
            sym::check(close(c.out[0][7], w * gain() * gain() * vol(), 1e-4), "a connected input without a modulation amount is the signal itself");
            sym::check(sc.update_params(&amp(0).set_mod().inp(b, amt)) == Ok(true), "a new modulation amount needs a new graph");
            for _ in 0..2 { callback_ctx(&mut ne, &mut c); }
            let want = (b + amt * (w * gain())) * gain();
            sym::check(close(c.out[0][7], want * vol(), 1e-4), "the signal is scaled by the modulation amount and added to the parameter");
            sym::mark(2);
            // the amount is changed, and removed
            let amt2 = [1.0, 0.5, -0.25][k];
            sc.update_params(&amp(0).set_mod().inp(b, amt2)).unwrap();
            for _ in 0..2 { callback_ctx(&mut ne, &mut c); }
            sym::check(close(c.out[0][7], (b + amt2 * (w * gain())) * gain() * vol(), 1e-4), "a changed modulation amount takes effect");
            sym::check(sc.update_params(&amp(0).set().inp(a)) == Ok(true), "removing a modulation amount needs a new graph");
            for _ in 0..2 { callback_ctx(&mut ne, &mut c); }
            sym::check(close(c.out[0][7], w * gain() * gain() * vol(), 1e-4), "without a modulation amount the signal replaces the parameter");
        }
        3 => { // clear
            let g = out(0).input().ch1(&amp(0).set().inp(a).output().sig());
            sc.upload(&g).unwrap();
            callback_ctx(&mut ne, &mut c);
            sc.clear();
            callback_ctx(&mut ne, &mut c);
            c = Ctx::new(8);
            callback_ctx(&mut ne, &mut c);
            sym::check(c.out[0][7] == 0.0, "a cleared graph is silent");
            sc.upload(&out(0).input().ch1(&amp(3).set().inp(b).output().sig())).unwrap();
            for _ in 0..2 { callback_ctx(&mut ne, &mut c); }
            sym::check(close(c.out[0][7], b * gain() * vol(), 1e-4), "after a clear the new graph runs");
        }
        4 => { // a setting
            let mono = sym::choose("mono", 2);
            let g = out(0).input().ch1(&amp(0).set().inp(a).output().sig());
            sc.upload(&g.set().ch2(b).set().mono(mono as i64)).unwrap();
            for _ in 0..2 { callback_ctx(&mut ne, &mut c); }
            sym::check(close(c.out[1][7], if mono == 1 { a * gain() } else { b } * vol(), 1e-4), "a setting takes effect");
            sym::check(sc.update_params(&out(0).set().mono(1 - mono as i64)) == Ok(false), "a changed setting needs no new graph");
            callback_ctx(&mut ne, &mut c);
            sym::check(close(c.out[1][7], if mono == 0 { a * gain() } else { b } * vol(), 1e-4), "an updated setting takes effect");
        }
        _ => { // a custom node, set before or after the upload, replaced
            let before = sym::choose("before", 2) == 1;
            let idx = sym::choose("idx", 2);
            let f = |k: f32| -> Box<dyn DynamicNode1x1> { Box::new(move |i: &[f32], o: &mut [f32], x: &DynNode1x1Context| { for (n, s) in i.iter().enumerate() { o[n] = s * k + x.alpha_slice()[n] - x.delta_slice()[n] * 0.5; } x.led_value().set(k); x.phase_value().set(0.5 * k); }) };
            if before { sc.set_dynamic_node1x1(idx, f(0.5)); }
            let r = rust1x1(idx as u8).input().inp(&amp(0).set().inp(a).output().sig()).set().alpha(b).set().delta(w);
            sc.upload(&out(0).input().ch1(&r.output().sig())).unwrap();
            if !before { callback_ctx(&mut ne, &mut c); sym::check(c.out[0][7] == 0.0, "a node without code is silent"); sc.set_dynamic_node1x1(idx, f(0.5)); }
            for _ in 0..2 { callback_ctx(&mut ne, &mut c); }
            let id = NodeId::Rust1x1(idx as u8);
            sym::check(close(c.out[0][7], (a * gain() * 0.5 + b - w * 0.5) * vol(), 1e-4), "a custom node processes its input and its parameters");
            sym::check(sc.led_value(&id) == 0.5 && sc.phase_value(&id) == 0.25, "the values a custom node shows are those of its node");
            sc.set_dynamic_node1x1(idx, f(0.25));
            sym::mark(3);
            callback_ctx(&mut ne, &mut c);
            sym::check(close(c.out[0][7], (a * gain() * 0.25 + b - w * 0.5) * vol(), 1e-4), "replaced code is used from the next callback on");
            sym::check(sc.led_value(&id) == 0.25, "the values a custom node shows are those of its node");
        }
    }
    sym::mark(1);
    std::mem::forget(sc);
    std::mem::forget(ne);
}
