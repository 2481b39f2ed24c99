//! C19: what the frontend is shown is what happens: signal monitor, scopes, change notifications
use crate::c04::*;
use crate::c13::{den, ivol, set, setting};
use crate::c17::Big;
use crate::env::*;
use crate::sym;
use hexodsp::matrix::MatrixObserver;
use hexodsp::*;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};

fn amp(i: u8) -> NodeId { NodeId::Amp(i) }
const WIN: usize = 900;
const PATS: [&[usize]; 4] = [&[100], &[60, 30], &[128, 22, 75], &[7, 18, 75]];

/// Inp -> Amp -> Out in a column; one of the cells is monitored, for two windows each
pub fn h_c19_monitor() {
    let mut m = matrix(2, 3, 44100.0);
    let pin = amp(0).inp_param("inp").unwrap();
    let mut amp_cell = Cell::empty(amp(0)).input(Some(0), None, None).out(None, None, Some(0));
    m.m.place(0, 0, Cell::empty(NodeId::Inp(0)).out(None, None, Some(0)));
    m.m.place(0, 1, amp_cell);
    m.m.place(0, 2, Cell::empty(NodeId::Out(0)).input(Some(0), None, None));
    m.m.set_param(amp(0).inp_param("gain").unwrap(), SAtom::param(0.5)); // 0 dB
    m.m.set_param(pin, SAtom::param(0.25));
    let mut amt = if sym::choose("modulated", 2) == 1 { Some(0.5f32) } else { None };
    let _ = m.m.set_param_modamt(pin, amt);
    m.m.sync().unwrap();
    let mut which = sym::choose("cell", 3);
    let c = m.m.get_copy(0, which).unwrap();
    m.m.monitor_cell(c);
    let pat = PATS[sym::choose("blocks", PATS.len())];
    let often = sym::choose("monitor thread runs after each callback", 2) == 1;
    let b = sym::f32_in("b", -1.0, 1.0);
    let (ta, a) = [(WIN - 1, 1.0f32), (WIN, -1.0), (2 * WIN - 2, 0.5)][sym::choose("ta", 3)];
    let mut hist: Vec<[(f32, f32); 6]> = vec![];
    for phase in 0..2 {
        if phase == 1 {
            match sym::choose("then", 5) {
                0 => (),
                1 => { which = (which + 1) % 3; let c = m.m.get_copy(0, which).unwrap(); m.m.monitor_cell(c); sym::mark(1); }
                2 => { m.m.place(1, 2, Cell::empty(amp(2))); m.m.sync().unwrap(); }
                3 => { amt = if amt.is_some() { None } else { Some(0.75) }; sym::check(m.m.set_param_modamt(pin, amt).is_ok(), "modulation changes"); }
                _ => { amp_cell = amp_cell.out(Some(0), None, Some(0)); m.m.place(0, 1, amp_cell); m.m.sync().unwrap(); sym::mark(2); }
            }
        }
        // the values of the 6 signals of each window
        let mut mm = [[(100.0f32, -100.0f32); 6]; 2];
        let (mut t, mut k) = (0, 0);
        while t < 2 * WIN {
            let n = pat[k % pat.len()];
            k += 1;
            let mut c = Big::new(n);
            for f in 0..n {
                let g = t + f;
                let x = if g == ta { a } else if g == 2 * WIN - 1 { b } else { 0.125 };
                c.inp[0][f] = x;
                let xi = ivol() * x;
                let ai = match amt { None => xi, Some(k) => 0.25 + k * xi };
                let mut sig = [None; 6];
                match which { 0 => sig[5] = Some(xi), 1 => { sig[0] = Some(ai); sig[5] = Some(ai); if amp_cell.has_dir_set(CellDir::TR) { sig[3] = Some(ai) } } _ => sig[0] = Some(ai) }
                for i in 0..6 { let w = &mut mm[g / WIN][i]; if let Some(v) = sig[i] { *w = (w.0.min(v), w.1.max(v)); } else { *w = (0.0, 0.0); } }
            }
            m.ne.process_graph_updates();
            m.ne.process(&mut c);
            if often { sym::run_monitor(); }
            t += n;
        }
        sym::run_monitor();
        for w in 0..2 { hist.push(mm[w]); }
        for i in 0..6 {
            let s = *m.m.get_minmax_monitor_samples(i);
            // windows without a signal do not count
            let want: Vec<(f32, f32)> = hist.iter().map(|h| h[i]).filter(|w| *w != (0.0, 0.0)).collect();
            for (k, w) in want.iter().rev().enumerate() {
                sym::check(close(s.at(s.len() - 1 - k).0, w.0, 1e-5), "the monitor shows the lowest value of each window of the monitored signal");
                sym::check(close(s.at(s.len() - 1 - k).1, w.1, 1e-5), "the monitor shows the highest value of each window of the monitored signal");
            }
            sym::check(*s.at(s.len() - 1 - want.len()) == (0.0, 0.0), "the monitor shows nothing else");
        }
        sym::check(m.m.monitored_cell().node_id() == [NodeId::Inp(0), amp(0), NodeId::Out(0)][which], "the monitored cell is reported");
    }
    forget(m);
}

fn sc() -> NodeId { NodeId::Scope(0) }
fn scope_rig(sr: f32, in1: &str, in2: &str) -> M {
    let mut m = matrix(2, 3, sr);
    let inp = NodeId::Inp(0);
    m.m.place(1, 0, Cell::empty(inp).out(None, None, inp.out("sig1")));
    m.m.place(0, 1, Cell::empty(inp).out(None, inp.out("sig2"), None));
    m.m.place(1, 1, Cell::empty(sc()).input(sc().inp(in1), sc().inp(in2), None));
    m
}
fn feed(m: &mut M, pat: &[usize], n: usize, src: &dyn Fn(usize) -> [f32; 2]) {
    let (mut t, mut k) = (0, 0);
    while t < n {
        let b = pat[k % pat.len()].min(n - t);
        k += 1;
        let mut c = Big::new(b);
        for f in 0..b { let s = src(t + f); c.inp[0][f] = s[0]; c.inp[1][f] = s[1]; }
        let before = sym::memops();
        m.ne.process_graph_updates();
        m.ne.process(&mut c);
        sym::check(sym::memops() == before, "the audio thread neither allocates nor frees memory");
        t += b;
    }
}

/// a recording without trigger holds all samples in order, spread over the display time
pub fn h_c19_scope() {
    let sr = [44100.0f32, 96000.0][sym::choose("rate", 2)];
    let mut m = scope_rig(sr, "in1", ["in2", "in3"][sym::choose("second", 2)]);
    let ms = [0.5f32, 3.0, 20.0, 30.0][sym::choose("time", 4)];
    let norm = sc().inp_param("time").unwrap().norm(ms);
    set(&mut m, sc(), "time", norm);
    set(&mut m, sc(), "off2", 0.25);
    set(&mut m, sc(), "gain3", 0.25);
    let time = den(sc(), "time", norm);
    let second = if m.m.get(1, 1).unwrap().local_port_idx(CellDir::TL) == sc().inp("in2") { 1 } else { 2 };
    m.m.sync().unwrap();
    let spb = (time * sr / 1000.0) / 512.0; // samples per point
    let total = (spb * 512.0) as usize;
    let (s, at) = (sym::f32_in("s", -1.0, 1.0), [0usize, 17, 20][sym::choose("at", 3)]);
    let x1 = |f: usize| ivol() * (f as f32 * 0.0001 - 0.02);
    let x2 = |f: usize| ivol() * (if f == at { s } else { -0.5 });
    let n = total - 1;
    feed(&mut m, PATS[sym::choose("blocks", 2) * 2], n, &|f| [f as f32 * 0.0001 - 0.02, if f == at { s } else { -0.5 }]);
    let h = m.m.get_scope_handle(0).unwrap();
    let points = if spb < 1.0 { (n - 1) * (1.0 / spb) as usize } else { (n as f32 / spb) as usize - 3 };
    let points = points.min(510);
    sym::check(points > 250, "most of the display is written");
    // position of the first signal tells which samples went into a point
    let mut f = 0usize;
    let mut rep = 0usize;
    if spb < 1.0 {
        sym::mark(1);
        for p in 0..points {
            let v = h.read(0, p).0;
            if !same(v, x1(f)) { sym::check(rep as f32 >= 1.0 / spb - 1.0, "each sample is displayed for its time"); f += 1; rep = 0; }
            rep += 1;
            sym::check(rep as f32 <= 1.0 / spb + 1.0, "each sample is displayed for its time");
            sym::check(same(v, x1(f)) && same(h.read(0, p).1, v), "the samples are displayed in order");
            sym::check(same(h.read(second, p).0, x2(f)) && same(h.read(second, p).1, x2(f)), "the second signal is displayed at the same time");
        }
    } else {
        sym::mark(2);
        for p in 0..points {
            let (hi, lo) = h.read(0, p);
            sym::check(same(lo, x1(f)), "a point starts with the sample after the previous point");
            let f0 = f;
            while f < n && !same(hi, x1(f)) { f += 1; }
            sym::check(f < n, "a point holds the highest sample of its time");
            f += 1;
            sym::check(((f as f32) - (p + 1) as f32 * spb).abs() <= 2.1, "the points are spread evenly over the display time");
            let (mut whi, mut wlo) = (x2(f0), x2(f0));
            for g in f0..f { whi = whi.max(x2(g)); wlo = wlo.min(x2(g)); }
            let (hi2, lo2) = h.read(second, p);
            sym::check(close(hi2, whi, 1e-6) && close(lo2, wlo, 1e-6), "a point of the second signal holds the lowest and highest sample");
        }
    }
    sym::check(h.is_active(0) && h.is_active(second) && !h.is_active(3 - second), "the connected signals are active");
    sym::check(h.get_offs_gain(1).0 == 0.25 && h.get_offs_gain(2).1 == den(sc(), "gain3", 0.25) && h.get_offs_gain(0).0 == 0.0, "offset and gain are those of the signal");
    sym::check(h.get_threshold().is_none(), "without trigger there is no threshold");
    let h1 = m.m.get_scope_handle(1).unwrap();
    for p in 0..4 { sym::check(h1.read(0, p) == (0.0, 0.0) && !h1.is_active(0), "another scope is not affected"); }
    forget(m);
}

/// triggered recordings
pub fn h_c19_trig() {
    let ext = sym::choose("external trigger", 2) == 1;
    let fine = sym::choose("more points than samples", 2) == 1;
    let sr = 44100.0;
    let mut m = scope_rig(sr, "in1", if ext { "trig" } else { "in2" });
    let norm = sc().inp_param("time").unwrap().norm(if fine { 0.5 } else { 20.0 });
    set(&mut m, sc(), "time", norm);
    setting(&mut m, sc(), "tsrc", if ext { 2 } else { 1 });
    let th = [0.0f32, 0.5, -0.5][sym::choose("threshold", 3)];
    set(&mut m, sc(), "thrsh", th);
    m.m.sync().unwrap();
    let spb = (den(sc(), "time", norm) * sr / 1000.0) / 512.0;
    let fill = (spb * 512.0) as usize + if fine { 4 } else { 4 };
    let pat = PATS[sym::choose("blocks", 2) * 2];
    let low = th - 0.25;
    let sig = |x: f32, t: f32| if ext { [x, t] } else { [t, x] };
    feed(&mut m, pat, fill, &|_| sig(0.125, low));
    let h = m.m.get_scope_handle(0).unwrap();
    let sc_i = if ext { 0 } else { 1 };
    let first = h.read(sc_i, 100);
    sym::check(close(first.0, 0.125 * ivol(), 1e-6), "the first recording starts by itself");
    // frozen without trigger; the signal goes close to the threshold
    let s = sym::f32_in("s", -1.0, 1.0);
    feed(&mut m, pat, sym::choose("wait", 3) * 10, &|f| sig(s, low + 0.1 * (f % 2) as f32));
    for p in [0usize, 1, 200, 500] { sym::check(h.read(sc_i, p) == first || p == 0, "without trigger the display is frozen"); }
    // the trigger: s is recorded from then on, only once although it stays high
    feed(&mut m, pat, 1, &|_| sig(0.75, th + 0.125));
    feed(&mut m, pat, fill, &|_| sig(s, th + 0.125));
    let w = s * ivol();
    for p in [100usize, 200, 500] { sym::check(close(h.read(sc_i, p).0, w, 1e-6) && close(h.read(sc_i, p).1, w, 1e-6), "the trigger starts a new recording"); }
    feed(&mut m, pat, 30, &|_| sig(0.375, th + 0.125));
    for p in [100usize, 200, 500] { sym::check(close(h.read(sc_i, p).0, w, 1e-6), "the trigger needs to go low again"); }
    // again
    sym::mark(1);
    feed(&mut m, pat, 1, &|_| sig(0.375, low));
    feed(&mut m, pat, 1, &|_| sig(0.375, th + 0.125));
    feed(&mut m, pat, fill, &|_| sig(0.375, low));
    for p in [100usize, 500] { sym::check(close(h.read(sc_i, p).0, 0.375 * ivol(), 1e-6), "the next trigger starts the next recording"); }
    sym::check(h.get_threshold() == Some(th), "the threshold is shown");
    forget(m);
}

#[derive(Default)]
struct Obs { prop: AtomicUsize, mon: AtomicUsize, param: AtomicUsize, matrix: AtomicUsize, all: AtomicUsize, midi: AtomicUsize, last: Mutex<Option<ParamId>>, ev: Mutex<Vec<HxMidiEvent>> }
impl MatrixObserver for Obs {
    fn update_prop(&self, key: &str) { sym::check(key == "key", "the changed property is named"); self.prop.fetch_add(1, Ordering::Relaxed); }
    fn update_monitor(&self, _c: &Cell) { self.mon.fetch_add(1, Ordering::Relaxed); }
    fn update_param(&self, p: &ParamId) { *self.last.lock().unwrap() = Some(*p); self.param.fetch_add(1, Ordering::Relaxed); }
    fn update_matrix(&self) { self.matrix.fetch_add(1, Ordering::Relaxed); }
    fn update_all(&self) { self.all.fetch_add(1, Ordering::Relaxed); }
    fn midi_event(&self, e: HxMidiEvent) { self.ev.lock().unwrap().push(e); self.midi.fetch_add(1, Ordering::Relaxed); }
}

/// every change is announced to the observer and counted as a new generation
pub fn h_c19_observer() {
    let mut m = matrix(1, 2, 200.0);
    m.m.place(0, 0, Cell::empty(amp(0)));
    m.m.sync().unwrap();
    let o = Arc::new(Obs::default());
    m.m.set_observer(o.clone());
    let ps = [amp(0).inp_param("inp").unwrap(), amp(0).inp_param("neg_att").unwrap(), NodeId::Sin(3).inp_param("freq").unwrap()];
    let snap = |o: &Obs| [&o.prop, &o.mon, &o.param, &o.matrix, &o.all, &o.midi].map(|a| a.load(Ordering::Relaxed));
    let mut queued = 0;
    for _ in 0..sym::param("k", 3) {
        let (b, g) = (snap(&o), m.m.get_generation());
        // which counters have to move: any of a set
        let op = sym::choose("op", 9);
        match op {
            0 => { let p = ps[sym::choose("param", 3)]; m.m.set_param(p, if p.is_atom() { SAtom::setting(1) } else { SAtom::param(0.5) }); sym::check(*o.last.lock().unwrap() == Some(p), "the changed parameter is announced"); }
            1 => { let p = ps[sym::choose("mod param", 2) * 2]; let v = [None, Some(0.5)][sym::choose("amount", 2)];
                   let old = m.m.get_param_modamt(&p);
                   *o.last.lock().unwrap() = None;
                   sym::check(m.m.set_param_modamt(p, v).is_ok(), "modulation can be set");
                   let a = snap(&o);
                   sym::check(a[3] == b[3] && a[4] == b[4], "a modulation amount is no structural change");
                   if old.is_none() != v.is_none() { sym::mark(1); sym::check(*o.last.lock().unwrap() == Some(p), "the parameter with a new or removed modulation is announced"); } }
            2 => m.m.set_prop("key", SAtom::setting(3)),
            3 => sym::check(m.m.sync().is_ok(), "sync works"),
            4 => m.m.clear(),
            5 => { let r = m.m.to_repr(); sym::check(m.m.from_repr(&r).is_ok(), "loading works"); }
            6 => { let c = m.m.get_copy(0, 0).unwrap(); m.m.monitor_cell(c); }
            7 => { m.m.inject_midi_event(HxMidiEvent::NoteOn { channel: 1, note: 2, vel: 0.5 }); queued += 1; }
            _ => { m.ne.process_graph_updates(); m.ne.feed_midi_events_from(|| None); m.ne.process(&mut Ctx::new(1)); m.m.handle_graph_events(); }
        }
        let a = snap(&o);
        let all = a[4] > b[4];
        match op {
            0 => sym::check(a[2] > b[2] || all, "parameter changes are announced"),
            2 => sym::check(a[0] > b[0] || all, "property changes are announced"),
            3 => sym::check(a[3] > b[3], "a sync is announced as a change of the matrix"),
            4 | 5 => { sym::mark(2); sym::check(all, "clearing and loading announce that everything changed") }
            6 => sym::check(a[1] > b[1] || all, "the monitored cell is announced"),
            8 => { if queued > 0 { sym::mark(3); } sym::check(a[5] == b[5] + queued, "each MIDI event is announced once"); queued = 0; }
            _ => (),
        }
        if op < 6 { sym::check(m.m.get_generation() != g, "every change gives a new generation"); }
        if op == 7 || op == 8 { sym::check(a[..5] == b[..5], "nothing else is announced"); }
    }
    forget(m);
}
