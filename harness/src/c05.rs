//! C05: parameters reach the audio thread
use crate::c04::*;
use crate::env::*;
use crate::sym;
use hexodsp::*;

fn amp(i: u8) -> NodeId { NodeId::Amp(i) }
fn pin(i: u8) -> ParamId { amp(i).inp_param("inp").unwrap() }
fn vol() -> f32 { let p = NodeId::Out(0).inp_param("vol").unwrap(); p.denorm(p.norm_def()) }

/// Amp(0) above Out(0)
fn simple(sr: f32) -> M {
    let mut m = matrix(2, 3, sr);
    m.m.place(0, 0, Cell::empty(amp(0)).out(None, None, Some(0)));
    m.m.place(0, 1, Cell::empty(NodeId::Out(0)).input(Some(0), None, None));
    m.m.set_param(amp(0).inp_param("gain").unwrap(), SAtom::param(0.5)); // 0 dB
    m
}

/// any values, any block sizes, up to two changes and rebuilds in between: the last value set is reached
pub fn h_c05_smooth() {
    let mut m = simple(300.0); // 3 samples of smoothing
    let v = [sym::f32_in("v0", -2.0, 2.0), sym::f32_in("v1", -2.0, 2.0), sym::f32_in("v2", -2.0, 2.0)];
    sym::assume(v[0] != v[1] && v[1] != v[2] && v[0] != v[2]); // equal values: h_c05_jump
    let maxn = sym::param("maxn", 4) as usize;
    m.m.set_param(pin(0), SAtom::param(v[0]));
    m.m.sync().unwrap();
    let mut target = 0;
    // samples since the last change
    let mut since = 100;
    let blocks = sym::param("blocks", 4) as usize;
    for b in 0..blocks {
        if b > 0 && b < 3 {
            match sym::choose("op", 4) {
                1 => { target = b; m.m.set_param(pin(0), SAtom::param(v[b])); since = 0; }
                2 => { m.m.sync().unwrap(); }
                3 => { target = b; m.m.set_param(pin(0), SAtom::param(v[b])); m.m.sync().unwrap(); since = 0; }
                _ => (),
            }
        }
        match m.m.get_param(&pin(0)) { Some(a) => sym::check(same(a.f(), v[target]), "a parameter reads back as set"), None => sym::check(false, "a set parameter has a value") }
        let n = if b + 1 == blocks { maxn + 1 } else { [1, 2, maxn][sym::choose("n", 3)] };
        let ctx = callback(&mut m.ne, n);
        for f in 0..n {
            since += 1;
            if since > 3 { sym::mark(target as u64 + 1); sym::check(close(ctx.out[0][f], v[target] * vol(), 1e-5), "a parameter reaches its value after the smoothing time and keeps it"); }
        }
    }
    forget(m);
}

/// concrete ends: the change is a ramp without jumps or overshoot
pub fn h_c05_ramp() {
    let slope = 1 + sym::choose("slope", sym::param("slope", 6) as usize);
    let mut m = simple(slope as f32 * 100.0);
    let vals = [-1.0f32, 0.25, 1.0];
    let (a, b) = (vals[sym::choose("a", 3)], vals[sym::choose("b", 3)]);
    m.m.set_param(pin(0), SAtom::param(a));
    m.m.sync().unwrap();
    let pre = callback(&mut m.ne, 2);
    sym::check(close(pre.out[0][1], a * vol(), 1e-5), "the initial value is there at once");
    m.m.set_param(pin(0), SAtom::param(b));
    let n = 1 + sym::choose("n", 3);
    let mut prev = a;
    let mut k = 0;
    while k < slope + 3 {
        let ctx = callback(&mut m.ne, n);
        for f in 0..n {
            k += 1;
            let x = ctx.out[0][f] / vol();
            let want = if k >= slope { b } else { a + (b - a) * (k as f32) / (slope as f32) };
            sym::check((x - want).abs() < 1e-4, "a parameter change is a linear ramp over the smoothing time");
            sym::check((x - prev).abs() <= (b - a).abs() / slope as f32 + 1e-4, "no jumps");
            prev = x;
        }
        if k > slope { sym::mark(1); }
    }
    forget(m);
}

/// changes at any time, also while an earlier one is still under way: every one continues linearly from where the value is
pub fn h_c05_jump() {
    let slope = [3, 5][sym::choose("slope", 2)];
    let mut m = simple(slope as f32 * 100.0);
    let vals = [-1.0f32, 0.25, 1.0];
    let mut cur = vals[sym::choose("a", 3)];
    m.m.set_param(pin(0), SAtom::param(cur));
    m.m.sync().unwrap();
    let pre = callback(&mut m.ne, 2);
    sym::check(close(pre.out[0][1], cur * vol(), 1e-5), "the initial value is there at once");
    let (mut start, mut target, mut k) = (cur, cur, slope);
    let blocks = sym::param("blocks", 3) as usize;
    for b in 0..blocks {
        if b + 1 < blocks {
            for _ in 0..sym::choose("changes", 3) {
                target = vals[sym::choose("v", 3)];
                if k < slope && target != cur { sym::mark(1); }
                m.m.set_param(pin(0), SAtom::param(target));
                start = cur;
                k = 0;
            }
        }
        let n = if b + 1 == blocks { slope + 1 } else { [1, 2, 4][sym::choose("n", 3)] };
        let ctx = callback(&mut m.ne, n);
        for f in 0..n {
            k += 1;
            cur = if k >= slope { target } else { start + (target - start) * (k as f32) / (slope as f32) };
            sym::check((ctx.out[0][f] / vol() - cur).abs() < 1e-4, "a parameter moves linearly from where it is to where it was set");
        }
    }
    sym::mark(2);
    forget(m);
}

/// many parameters changed between two audio callbacks: all of them arrive
pub fn h_c05_many() {
    let n = sym::param("n", 45) as usize;
    let mut m = matrix(8, 8, 200.0);
    for i in 0..n { m.m.place(i / 8, i % 8, Cell::empty(amp(i as u8))); m.m.set_param(amp(i as u8).inp_param("gain").unwrap(), SAtom::param(0.5)); }
    m.m.sync().unwrap();
    callback(&mut m.ne, 2);
    let v = sym::f32_in("v", -2.0, 2.0);
    let w = sym::f32_in("w", -2.0, 2.0);
    let cnt = 1 + sym::choose("cnt", n);
    let again = sym::choose("again", 2) == 1;
    for i in 0..cnt { m.m.set_param(pin(i as u8), SAtom::param(v)); }
    if again { callback(&mut m.ne, 1); m.m.set_param(pin(cnt as u8 - 1), SAtom::param(w)); }
    for _ in 0..3 { callback(&mut m.ne, 2); }
    m.m.update_output_feedback();
    for i in 0..n {
        let want = if i >= cnt { 0.0 } else if again && i + 1 == cnt { sym::mark(2); w } else { sym::mark(1); v };
        sym::check(close(m.m.out_fb_for(&amp(i as u8), 0).unwrap(), want, 1e-5), "every parameter that was set reaches the audio thread, however many change at once");
    }
    forget(m);
}

/// a backlog of changes while the audio callback does not run
pub fn h_c05_backlog() {
    let mut m = simple(200.0);
    m.m.sync().unwrap();
    callback(&mut m.ne, 2);
    let v = sym::f32_in("v", -2.0, 2.0);
    let n = sym::param("from", 0) as usize + sym::choose("n", sym::param("n", 3) as usize);
    for _ in 0..n { m.m.set_param(pin(0), SAtom::param(0.3)); }
    m.m.set_param(pin(0), SAtom::param(v));
    let mut last = 9.0;
    for _ in 0..3 { last = callback(&mut m.ne, 2).out[0][1]; }
    sym::mark(1);
    sym::check(close(last, v * vol(), 1e-5), "the last of many parameter changes reaches the audio thread");
    forget(m);
}

/// set and get of parameters and atoms before and after the nodes exist
pub fn h_c05_getset() {
    let mut m = simple(200.0);
    let when = sym::choose("when", 3);
    if when > 0 { m.m.sync().unwrap(); }
    if when > 1 { callback(&mut m.ne, 2); }
    let v = sym::f32("v");
    let i = sym::u64("i") as i64;
    let neg = amp(0).inp_param("neg_att").unwrap();
    let att = amp(0).inp_param("att").unwrap();
    m.m.set_param(pin(0), SAtom::param(v));
    m.m.set_param(neg, SAtom::setting(i));
    let chk = |m: &Matrix| {
        sym::check(matches!(m.get_param(&pin(0)), Some(SAtom::Param(x)) if x.to_bits() == v.to_bits()), "an input parameter reads back as set");
        sym::check(matches!(m.get_param(&neg), Some(SAtom::Setting(x)) if x == i), "a setting reads back as set");
    };
    chk(&m.m);
    m.m.sync().unwrap();
    chk(&m.m);
    sym::check(matches!(m.m.get_param(&att), Some(x) if x.f() == att.norm_def()), "an untouched parameter of a placed node has its default");
    // for_each_atom shows the same values, each parameter once
    let (mut seen, mut bad) = (0, false);
    m.m.for_each_atom(|_, p, a, _| {
        if p == pin(0) { seen += 1; bad |= a.f().to_bits() != v.to_bits(); }
        if p == neg { seen += 1; bad |= a.i() != i; }
    });
    sym::check(seen == 2 && !bad, "for_each_atom lists the current values");
    sym::mark(when as u64 + 1);
    forget(m);
}
