//! C17: the feedback nodes delay their signal by a fixed time
use crate::c04::*;
use crate::sym;
use hexodsp::nodes::NodeAudioContext;
use hexodsp::*;

pub struct Big { pub n: usize, pub inp: [[f32; 128]; 2], pub out: [[f32; 128]; 2] }
impl Big { pub fn new(n: usize) -> Self { Big { n, inp: [[0.0; 128]; 2], out: [[0.0; 128]; 2] } } }
impl NodeAudioContext for Big {
    fn nframes(&self) -> usize { self.n }
    fn output(&mut self, c: usize, f: usize, v: f32) { self.out[c][f] = v; }
    fn input(&mut self, c: usize, f: usize) -> f32 { self.inp[c][f] }
}
fn vol() -> f32 { crate::c13::vol() }
fn ivol() -> f32 { crate::c13::ivol() }

const BLOCKS: [&[usize]; 5] = [&[128], &[16], &[7, 64, 1], &[100, 3], &[1]];
/// what goes in at each frame comes out after the delay
fn run(m: &mut M, pat: &[usize], frames: usize, src: &dyn Fn(usize) -> [f32; 2], got: &mut dyn FnMut(usize, [f32; 2])) {
    let (mut t, mut k) = (0, 0);
    while t < frames {
        let n = pat[k % pat.len()];
        k += 1;
        let mut c = Big::new(n);
        for f in 0..n { let s = src(t + f); c.inp[0][f] = s[0]; c.inp[1][f] = s[1]; }
        m.ne.process_graph_updates();
        m.ne.process(&mut c);
        for f in 0..n { got(t + f, [c.out[0][f], c.out[1][f]]); }
        t += n;
    }
}
/// delay in samples
fn delay(sr: f32) -> usize { ((sr * 3.14) / 1000.0) as usize }

/// two feedback instances side by side, writers before or after the readers
pub fn h_c17_delay() {
    let sr = 44100.0f32;
    let mut m = matrix(6, 4, sr);
    let inp = NodeId::Inp(0);
    let (x, y) = if sym::choose("order", 2) == 0 { (0, 3) } else { (3, 0) };
    let (ia, ib) = [(0u8, 1u8), (2, 0)][sym::choose("inst", 2)];
    // writers: below the two input cells
    for (c, i, s) in [(x, ia, "sig1"), (x + 1, ib, "sig2")] {
        m.m.place(c, 0, Cell::empty(inp).out(None, None, inp.out(s)));
        m.m.place(c, 1, Cell::empty(NodeId::FbWr(i)).input(Some(0), None, None));
    }
    // readers: one to each output channel
    let o = NodeId::Out(0);
    m.m.place(y + 1, 0, Cell::empty(NodeId::FbRd(ia)).out(None, None, Some(0)));
    m.m.place(y, 1, Cell::empty(NodeId::FbRd(ib)).out(Some(0), Some(0), None));
    m.m.place(y + 1, 1, Cell::empty(o).input(o.inp("ch1"), o.inp("ch2"), o.inp("ch2")));
    // (only one of the two left edges of Out faces the reader)
    let left = if (y + 1) % 2 == 0 { 2 } else { 1 };
    m.m.place(y + 1, 1, Cell::empty(o).input(o.inp("ch1"), if left == 1 { o.inp("ch2") } else { None }, if left == 2 { o.inp("ch2") } else { None }));
    m.m.set_param(o.inp_param("mono").unwrap(), SAtom::setting(0));
    m.m.sync().unwrap();
    let (a, b) = (sym::f32_in("a", -1.0, 1.0), sym::f32_in("b", -1.0, 1.0));
    let (ta, tb) = ([0usize, 1, 137, 140][sym::choose("ta", 4)], [0usize, 130][sym::choose("tb", 2)]);
    let pat = BLOCKS[sym::choose("blocks", 5)];
    let d = delay(sr);
    let mut hits = 0;
    run(&mut m, pat, d + 150, &|t| [if t == ta { a } else { 0.0 }, if t == tb { b } else { 0.0 }], &mut |t, o| {
        for (c, v, s) in [(0, a, ta), (1, b, tb)] {
            if t == s + d { hits += 1; sym::check(crate::env::close(o[c], v * ivol() * fvol() * vol(), 1e-5), "the reader plays what the writer of its instance got 3.14 ms ago"); }
            else { sym::check(o[c] == 0.0, "the reader plays nothing but what the writer of its instance got"); }
        }
    });
    if hits == 2 { sym::mark(1); }
    forget(m);
}
fn fvol() -> f32 { let p = NodeId::FbRd(0).inp_param("vol").unwrap(); p.denorm(p.norm_def()) }

/// a closed loop: Inp and FbRd mixed into Out and FbWr
pub fn h_c17_loop() {
    let mut m = matrix(4, 4, 44100.0);
    let (inp, mix, o) = (NodeId::Inp(0), NodeId::Mix3(0), NodeId::Out(0));
    let v = [1.0f32, 0.5][sym::choose("vol", 2)];
    m.m.place(1, 0, Cell::empty(inp).out(None, None, inp.out("sig1")));
    m.m.place(0, 1, Cell::empty(NodeId::FbRd(0)).out(None, Some(0), None));
    m.m.place(1, 1, Cell::empty(mix).input(mix.inp("ch1"), mix.inp("ch2"), None).out(None, Some(0), Some(0)));
    m.m.place(1, 2, Cell::empty(o).input(o.inp("ch1"), None, None));
    m.m.place(2, 2, Cell::empty(NodeId::FbWr(0)).input(None, Some(0), None));
    m.m.set_param(NodeId::FbRd(0).inp_param("vol").unwrap(), SAtom::param(v));
    sym::check(m.m.sync().is_ok(), "a feedback loop through FbWr and FbRd is no cycle");
    let a = [0.5f32, -0.3][sym::choose("a", 2)];
    let ta = [0usize, 5, 137][sym::choose("ta", 3)];
    let pat = BLOCKS[sym::choose("blocks", 4)];
    let den = |id: NodeId, n: &str| { let p = id.inp_param(n).unwrap(); p.denorm(p.norm_def()) };
    let fb = NodeId::FbRd(0).inp_param("vol").unwrap().denorm(v);
    let d = delay(44100.0);
    let mut e = a * ivol();
    let mut k = 0;
    run(&mut m, pat, 3 * d, &|t| [if t == ta { a } else { 0.0 }, 0.0], &mut |t, o| {
        if t >= ta && (t - ta) % d == 0 {
            sym::mark(1);
            e = if k == 0 { e * den(mix, "vol1") * den(mix, "ovol") } else { e * fb * den(mix, "vol2") * den(mix, "ovol") };
            k += 1;
            sym::check((o[0] - e * vol()).abs() <= 1e-4 || o[0].to_bits() == (e * vol()).to_bits(), "a feedback loop repeats its signal every 3.14 ms");
        } else { sym::check(o[0] == 0.0, "a feedback loop adds nothing in between"); }
    });
    forget(m);
}

/// known finding: a writer that was out of the patch for a while
pub fn h_c17_gap() {
    let mut m = matrix(4, 4, 44100.0);
    let (inp, o) = (NodeId::Inp(0), NodeId::Out(0));
    let wr = Cell::empty(NodeId::FbWr(0)).input(Some(0), None, None);
    m.m.place(0, 0, Cell::empty(inp).out(None, None, inp.out("sig1")));
    m.m.place(0, 1, wr);
    m.m.place(2, 0, Cell::empty(NodeId::FbRd(0)).out(None, None, Some(0)));
    m.m.place(2, 1, Cell::empty(o).input(o.inp("ch1"), None, None));
    m.m.sync().unwrap();
    m.m.place(0, 1, Cell::empty(NodeId::Nop));
    m.m.sync().unwrap();
    run(&mut m, &[64], 64, &|_| [0.0; 2], &mut |_, _| {});
    m.m.place(0, 1, wr);
    m.m.sync().unwrap();
    let d = delay(44100.0);
    run(&mut m, &[64], d + 64, &|t| [if t == 0 { 0.5 } else { 0.0 }, 0.0], &mut |t, o| {
        sym::check(if t == d { o[0] != 0.0 } else { o[0] == 0.0 }, "the delay is the same after the writer was out of the patch for a while");
    });
    sym::mark(1);
    forget(m);
}

/// known finding: the delay at another sample rate
pub fn h_c17_rate() {
    let mut m = matrix(4, 4, 88200.0);
    let (inp, o) = (NodeId::Inp(0), NodeId::Out(0));
    m.m.place(0, 0, Cell::empty(inp).out(None, None, inp.out("sig1")));
    m.m.place(0, 1, Cell::empty(NodeId::FbWr(0)).input(Some(0), None, None));
    m.m.place(2, 0, Cell::empty(NodeId::FbRd(0)).out(None, None, Some(0)));
    m.m.place(2, 1, Cell::empty(o).input(o.inp("ch1"), None, None));
    m.m.sync().unwrap();
    let d = delay(88200.0);
    run(&mut m, &[64], d + 64, &|t| [if t == 0 { 0.5 } else { 0.0 }, 0.0], &mut |t, o| {
        sym::check(if t == d { o[0] != 0.0 } else { o[0] == 0.0 }, "the feedback delay is 3.14 ms at 88200 Hz");
    });
    sym::mark(1);
    forget(m);
}
