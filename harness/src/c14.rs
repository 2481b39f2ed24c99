//! C14: envelopes, LFO, random walk and pitch quantizers
use crate::c04::*;
use crate::c13::*;
use crate::env::*;
use crate::sym;
use hexodsp::*;

/// from x^4 (v = 0) over x^2, x (0.5), the square root to the fourth root (1)
fn sqrt4_to_pow4(x: f32, v: f32) -> f32 {
    let c = [x * x * x * x, x * x, x, x.sqrt(), x.sqrt().sqrt()];
    let k = ((v * 4.0) as usize).min(3);
    let r = v * 4.0 - k as f32;
    c[k] * (1.0 - r) + c[k + 1] * r
}

/// frames of an envelope as documented: attack from the current level in the remaining part of the attack time, decay, (sustain, release)
struct Env { stage: u8, phase: f32, start: f32, v: f32, gate: bool }
impl Env {
    fn next(&mut self, g: f32, adsr: bool, n: [f32; 3], sus: f32, shp: [f32; 3]) -> (f32, bool) {
        if self.gate { if g <= 0.25 { self.gate = false; } } else if g > 0.5 { self.gate = true; self.stage = 1; self.phase = 0.0; self.start = self.v; }
        let mut end = false;
        // moves towards the target in k frames; true if there
        fn go(e: &mut Env, k: f32, t: f32, s: f32) -> bool {
            e.phase += 1.0 / k.max(1.0);
            if e.phase >= 1.0 { e.v = t; e.phase = 0.0; e.start = t; return true; }
            let p = sqrt4_to_pow4(e.phase.clamp(0.0, 1.0), s);
            e.v = e.start * (1.0 - p) + p * t;
            false
        }
        match self.stage {
            1 => { let k = (1.0 - self.start) * n[0]; if go(self, k, 1.0, shp[0]) { self.stage = 2; } }
            2 => if go(self, n[1], if adsr { sus } else { 0.0 }, shp[1]) { self.stage = if adsr { 3 } else { 5 }; },
            3 => { self.v = sus; if g < 0.25 { self.stage = 4; self.start = sus; self.phase = 0.0; } }
            4 => if go(self, n[2], 0.0, shp[2]) { self.stage = 5; },
            5 => { end = true; self.stage = 0; }
            _ => (),
        }
        (self.v, end)
    }
}

/// Ad and Adsr: gates of any timing, sample rates, times, multiplier, shapes, any input level
pub fn h_c14_env() {
    let adsr = sym::choose("adsr", 2) == 1;
    let id = if adsr { NodeId::Adsr(0) } else { NodeId::Ad(0) };
    let eoet = sym::choose("eoet", 2) == 1;
    let mut m = rig(id, if eoet { "eoet" } else { "sig" }, [Some(if adsr { "gate" } else { "trig" }), None, None]);
    let sr = [1000.0f32, 2000.0][sym::choose("sr", 2)];
    m.ne.set_sample_rate(sr);
    let (atk, dcy, rel, shp, mult) = match sym::choose("set", 4) {
        0 => (3.0f32, 4.0f32, 2.0f32, [0.5f32; 3], 0i64),
        1 => (1.0, 2.0, 3.0, [0.2, 0.6, 0.9], 0),
        2 => (0.3, 0.2, 0.2, [0.5, 0.3, 0.7], 1),
        _ => (0.02, 0.04, 0.03, [0.5; 3], 2),
    };
    let x = sym::f32_in("x", -1.0, 1.0);
    let sus = if mult == 2 { 0.0 } else { 0.25 };
    let pset = |m: &mut M, n: &str, v: f32| { let p = id.inp_param(n).unwrap(); let v = p.norm(v); m.m.set_param(p, SAtom::param(v)); p.denorm(v) };
    let k = sr / 1000.0 * [1.0, 10.0, 100.0][mult as usize];
    let mut n = [pset(&mut m, "atk", atk) * k, pset(&mut m, "dcy", dcy) * k, 0.0];
    let s0 = pset(&mut m, "ashp", shp[0]);
    let s1 = 1.0 - pset(&mut m, "dshp", shp[1]);
    let mut s2 = 0.0;
    let mut su = 0.0;
    if adsr { n[2] = pset(&mut m, "rel", rel) * k; s2 = 1.0 - pset(&mut m, "rshp", shp[2]); su = pset(&mut m, "sus", sus); }
    set(&mut m, id, "inp", x);
    setting(&mut m, id, "mult", mult);
    m.m.sync().unwrap();
    // a gate, and possibly a second one
    let g1 = sym::choose("start", 2);
    let l1 = 1 + [0, 2, 9][sym::choose("len", 3)];
    let gap = 1 + [0, 3, 5][sym::choose("gap", 3)];
    let again = sym::choose("again", 2) == 1;
    let on = |f: usize| (f >= g1 && f < g1 + l1) || (again && f >= g1 + l1 + gap && f < g1 + l1 + gap + 3);
    let mut e = Env { stage: 0, phase: 0.0, start: 0.0, v: 0.0, gate: false };
    let tl = (sr * 2.0 / 1000.0).ceil() as usize;
    let mut trig = 0;
    for blk in 0..3 {
        let v: Vec<[f32; 2]> = (0..12).map(|f| [if on(blk * 12 + f) { 1.0 } else { 0.0 }, 0.0]).collect();
        let o = run(&mut m, &v);
        for f in 0..12 {
            let (w, end) = e.next(v[f][0], adsr, n, su, [s0, s1, s2]);
            if end { trig = tl; sym::mark(2); }
            if eoet { sym::check(o.out[0][f] == if trig > 0 { vol() } else { 0.0 }, "a trigger marks the end of the envelope"); }
            else {
                sym::check(close(o.out[0][f], x * w * vol(), 1e-3), "the envelope has the set times, shape and levels, scaled by the input");
                if blk == 2 && f == 11 { sym::check(close(m.m.led_value_for(&id), x * w, 1e-3), "the LED shows the envelope"); }
            }
            if trig > 0 { trig -= 1; }
        }
    }
    sym::mark(1);
    forget(m);
}

/// TsLFO: period, shape, reset by a trigger
pub fn h_c14_lfo() {
    let id = NodeId::TsLFO(0);
    let mut m = rig(id, "sig", [Some("trig"), None, None]);
    let sr = [1000.0f32, 500.0][sym::choose("sr", 2)];
    m.ne.set_sample_rate(sr);
    let ms = [8.0f32, 10.0, 400.0][sym::choose("time", 3)];
    let rev = [0.5f32, 0.0, 1.0, 0.2][sym::choose("rev", 4)];
    let p = id.inp_param("time").unwrap();
    let nv = p.norm(ms);
    m.m.set_param(p, SAtom::param(nv));
    let ms = p.denorm(nv) as f64;
    set(&mut m, id, "rev", rev);
    m.m.sync().unwrap();
    let t = sym::choose("trig", 12);
    let mut ph = 0.0f64;
    let r = (rev as f64).clamp(0.0001, 0.999);
    for blk in 0..2 {
        let v: Vec<[f32; 2]> = (0..10).map(|f| [if blk * 10 + f == t { 1.0 } else { 0.0 }, 0.0]).collect();
        let o = run(&mut m, &v);
        for f in 0..10 {
            if blk * 10 + f == t { ph = 0.0; sym::mark(1); }
            let w = |ph: f64| if ph < r { ph / r } else { (1.0 - ph) / (1.0 - r) };
            // (where the phase wraps around or turns, rounding may go either way)
            let (a, b) = (w((ph + 1e-6) % 1.0), w((ph + 1.0 - 1e-6) % 1.0));
            let y = (o.out[0][f] / vol()) as f64;
            // (steep edges: any value in between)
            let edge = (rev == 0.0 || rev == 1.0) && (ph < 2e-3 || ph > 1.0 - 2e-3);
            sym::check(y >= 0.0 && y <= 1.0 + 1e-6, "the LFO stays within 0 and 1");
            sym::check(edge || (y - a).abs() < 2e-3 || (y - b).abs() < 2e-3, "the LFO has the set period and shape and restarts with a trigger");
            ph = (ph + 1000.0 / ms / sr as f64) % 1.0;
        }
    }
    forget(m);
}

/// RndWk: steps without and with randomness, ranges, slew
pub fn h_c14_walk() {
    let id = NodeId::RndWk(sym::choose("inst", 2) as u8);
    let mut m = rig(id, "sig", [Some("trig"), None, None]);
    let (lo, hi) = [(0.0f32, 1.0f32), (0.2, 0.4), (0.75, 0.5)][sym::choose("range", 3)];
    let step = [0.0f32, 0.5, 1.0][sym::choose("step", 3)];
    let slew = [0.0f32, 8.0][sym::choose("slew", 2)];
    let offs = [0.3f32, -0.25, 1.0, -1.0, 0.01, 0.0, 0.05, 0.45, -0.6, 0.9][sym::choose("offs", 10)];
    let ps = id.inp_param("slew").unwrap();
    let ns = ps.norm(slew);
    m.m.set_param(ps, SAtom::param(ns));
    for (n, v) in [("min", lo), ("max", hi), ("step", step), ("offs", offs)] { set(&mut m, id, n, v); }
    m.m.sync().unwrap();
    let o = run(&mut m, &[[0.0, 0.0], [1.0, 0.0], [0.0, 0.0], [0.0, 0.0], [1.0, 0.0], [1.0, 0.0]]);
    sym::check(o.out[0][0] == 0.0, "no walk without a trigger");
    let (lo, hi) = (lo.min(hi), lo.max(hi));
    if slew == 0.0 {
        sym::mark(1);
        for f in 1..6 { sym::check(o.out[0][f] >= (lo - 1e-5) * vol() && o.out[0][f] <= (hi + 1e-5) * vol(), "the walk stays in its range"); }
        sym::check(o.out[0][1] == o.out[0][2] && o.out[0][2] == o.out[0][3] && o.out[0][4] == o.out[0][5], "the value changes by triggers only");
        if step == 0.0 {
            // without randomness: by the offset, reflected at the limits
            sym::mark(2);
            let mut cur = 0.0f32;
            for f in [1, 4] {
                let mut t = cur + offs;
                let d = hi - lo;
                t = t.clamp(lo - (d * 0.99), hi + (d * 0.99));
                if t > hi { t = hi - (hi - t).abs(); }
                if t < lo { t = lo + (lo - t).abs(); }
                sym::check(close(o.out[0][f], t * vol(), 1e-4), "without randomness each trigger moves by the offset, reflected at the limits");
                cur = t;
            }
        }
    } else {
        let d = 1.0 / ps.denorm(ns) + 1e-4;
        for f in 1..6 { sym::check((o.out[0][f] - o.out[0][f - 1]).abs() <= d, "the slew rate is limited"); }
        sym::mark(3);
    }
    forget(m);
}

const MASKS: [i64; 7] = [0, 0xFFF, 1, 0x800, 0x895, 0x221, 0x10];
/// name of the semitone (0: C) above A4 = 0.0
fn in_mask(mask: i64, semi: i64) -> bool { mask == 0 || mask & (1 << (semi + 9).rem_euclid(12)) != 0 }

/// Quant: pitches over 8 octaves, selected keys
pub fn h_c14_quant() {
    let id = NodeId::Quant(0);
    let trig = sym::choose("t", 2) == 1;
    let mut m = rig(id, if trig { "t" } else { "sig" }, [Some("freq"), None, None]);
    let mask = MASKS[sym::choose("keys", 7)];
    let oct = [0.0f32, 0.2, -0.1][sym::choose("oct", 3)];
    setting(&mut m, id, "keys", mask);
    set(&mut m, id, "oct", oct);
    m.m.sync().unwrap();
    let step = if trig { 40 } else { sym::param("step", 10) as usize };
    let k = sym::choose("pitch", 960 / step) * step;
    let f = (k as f32 - 480.0) / 1200.0; // tenths of a semitone around A4
    let o = run(&mut m, &[[f, 0.0], [f, 0.0], [f, 0.0], [f + 0.1, 0.0], [f + 0.1, 0.0], [f + 0.1, 0.0], [f + 0.1, 0.0]]);
    if trig {
        sym::mark(2);
        for i in 0..7 { sym::check(o.out[0][i] == if i == 0 || i == 1 || i == 3 || i == 4 { vol() } else { 0.0 }, "each new pitch is marked by a trigger"); }
    } else { for (i, f) in [(0, f), (6, f + 0.1)] {
        sym::mark(1);
        let p = o.out[0][i] / vol() - den(id, "oct", oct);
        let semi = (p * 120.0).round();
        sym::check((p * 120.0 - semi).abs() < 0.01, "the quantized pitch is a semitone");
        sym::check(in_mask(mask, semi as i64), "the quantized pitch is one of the selected keys");
        let best = (-80..80i64).filter(|s| in_mask(mask, *s)).map(|s| (s as f32 - f * 120.0).abs()).fold(1e9f32, |a, b| a.min(b));
        // the quantizer decides on a grid of half semitones
        sym::check((semi - f * 120.0).abs() <= best + 1.001, "the quantized pitch is the closest selected key");
    } }
    forget(m);
}

/// CQnt: any input, selected keys and octaves
pub fn h_c14_cqnt() {
    let id = NodeId::CQnt(0);
    let mut m = rig(id, "sig", [Some("inp"), None, None]);
    let mask = MASKS[sym::choose("keys", 7)];
    let (omin, omax) = [(0, 0), (1, 0), (0, 2), (2, 1), (4, 0), (0, 4)][sym::choose("range", 6)];
    let oct = [0.0f32, 0.2][sym::choose("oct", 2)];
    setting(&mut m, id, "keys", mask); setting(&mut m, id, "omin", omin); setting(&mut m, id, "omax", omax);
    set(&mut m, id, "oct", oct);
    m.m.sync().unwrap();
    let keys: Vec<f32> = (-omin..=omax).flat_map(|o| (0..12).filter(|k| mask == 0 || mask & (1 << *k) != 0).map(move |k| (o * 12 + k - 9) as f32 / 120.0)).collect();
    let n = keys.len();
    let x = if n == 1 || n == 2 || n == 4 { sym::mark(2); sym::f32_in("x", 0.0, 1.0) } else { (if n > 24 { [0, n / 2, n - 2, n - 1][sym::choose("i", 4)] } else { sym::choose("i", n) } as f32 + [0.02, 0.5, 0.98][sym::choose("in", 3)]) / n as f32 };
    let o = run(&mut m, &[[0.0, 0.0], [x, 0.0]]).out[0];
    sym::check((o[0] / vol() - den(id, "oct", oct) - keys[0]).abs() < 1e-4, "the lowest input plays the lowest key");
    let mut hit = 0;
    for i in 0..n {
        if (o[1] / vol() - den(id, "oct", oct) - keys[i]).abs() < 1e-4 {
            hit += 1;
            sym::mark(1);
            sym::check(x >= i as f32 / n as f32 - 1e-3 && x <= (i + 1) as f32 / n as f32 + 1e-3, "the input range is divided evenly among the keys");
        }
    }
    sym::check(hit == 1, "a selected key of the octave range is played");
    forget(m);
}
