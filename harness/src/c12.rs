//! C12: MIDI events and external parameters reach the nodes
use crate::c04::*;
use crate::env::*;
use crate::sym;
use hexodsp::nodes::{EventWindowing, ExternalParams, HxTimedEvent, MidiEventPointer};
use hexodsp::*;
use std::sync::Arc;

/// any sequence of events and blocks: each event is seen once, in order, in the right block
pub fn h_c12_window() {
    let k = sym::param("k", 3) as usize;
    let mut evs = vec![];
    for i in 0..k { evs.push((sym::range("t", 0, 9), i as u8)); }
    let mut w = EventWindowing::new();
    let (mut idx, mut start, mut seen) = (0, 0usize, 0usize);
    for _ in 0..sym::param("blocks", 3) {
        let n = 1 + sym::choose("n", 3);
        let mut got = vec![];
        loop {
            if w.feed_me() { if idx >= k { break; } w.feed(HxTimedEvent::note_on(evs[idx].0, 0, evs[idx].1, 0.5)); idx += 1; }
            match w.next_event_in_range(start, n) { Some(e) => got.push(e), None => break }
        }
        let mut p = MidiEventPointer::new(&got);
        for f in 0..n {
            while let Some(e) = p.next_at(f) {
                sym::check(seen < k, "no event appears twice");
                if let HxMidiEvent::NoteOn { note, .. } = e { sym::check(note as usize == seen, "events keep their order"); }
                // an event waits for the ones before it; a late one comes at once
                let due = (0..seen + 1).map(|j| evs[j].0).max().unwrap();
                sym::check(due <= start + f && (due == start + f || f == 0 || due < start), "an event arrives at its frame");
                sym::mark(1);
                if evs[seen].0 < start { sym::mark(2); }
                seen += 1;
            }
        }
        start += n;
        // everything that was due has been seen
        let mut due = 0; for (t, _) in evs.iter() { if *t < start { due += 1 } else { break } }
        sym::check(seen == due, "no event that is due is missing");
    }
}

fn setup(id: NodeId, out: &str, sr: f32) -> M {
    let mut m = matrix(2, 3, sr);
    m.m.place(0, 0, Cell::empty(id).out(None, None, id.out(out)));
    m.m.place(0, 1, Cell::empty(NodeId::Out(0)).input(Some(0), None, None));
    m
}
fn vol() -> f32 { let p = NodeId::Out(0).inp_param("vol").unwrap(); p.denorm(p.norm_def()) }
fn block(m: &mut M, evs: &[HxTimedEvent], n: usize) -> Ctx {
    let mut c = Ctx::new(n);
    let mut i = 0;
    m.ne.process_graph_updates();
    let before = sym::memops();
    m.ne.feed_midi_events_from(|| { i += 1; evs.get(i - 1).copied() });
    m.ne.process(&mut c);
    sym::check(sym::memops() == before, "the audio thread neither allocates nor frees memory");
    c
}

/// any note events, injected or from the host: pitch, velocity and gate
pub fn h_c12_note() {
    let k = sym::param("k", 3) as usize;
    let outn = ["freq", "gate", "vel"][sym::choose("out", 3)];
    let mut m = setup(NodeId::MidiP(0), outn, 1000.0);
    let k = if outn == "gate" { k } else { k - 1 };
    let chan = if outn == "freq" { 0 } else { 15 };
    m.m.set_param(NodeId::MidiP(0).inp_param("chan").unwrap(), SAtom::setting(chan as i64));
    m.m.sync().unwrap();
    block(&mut m, &[], 2);
    let inject = sym::choose("inject", 2) == 1;
    let obs = Arc::new(Obs(Default::default()));
    m.m.set_observer(obs.clone());
    let mut evs = vec![];
    let mut t = 0;
    for _ in 0..k {
        if !inject { t += [0, 1, 3][sym::choose("dt", if evs.is_empty() { 3 } else { 2 })]; }
        let on = sym::bool("on");
        let ch = sym::u8("ch");
        let note = if outn == "freq" { [69, 0, 127][sym::choose("note", 3)] } else { sym::u8("note") };
        let vel = if outn == "vel" { sym::f32("vel") } else { 0.5 };
        evs.push((t, if on { HxMidiEvent::NoteOn { channel: ch, note, vel } } else { HxMidiEvent::NoteOff { channel: ch, note } }));
    }
    let mut o = vec![];
    if inject {
        for e in evs.iter() { m.m.inject_midi_event(e.1); }
        o.extend(&block(&mut m, &[], 4).out[0][0..4]); o.extend(&block(&mut m, &[], 4).out[0][0..4]);
    } else {
        for b in 0..2 {
            let l: Vec<HxTimedEvent> = evs.iter().filter(|e| e.0 / 4 == b).map(|e| HxTimedEvent::new_timed(e.0 % 4, e.1)).collect();
            o.extend(&block(&mut m, &l, 4).out[0][0..4]);
        }
    }
    // the frontend hears of all of them
    m.m.handle_graph_events();
    let heard = obs.0.lock().unwrap();
    sym::check(heard.len() == evs.len(), "all events are reported to the frontend");
    for (h, e) in heard.iter().zip(evs.iter()) { match (h, &e.1) {
        (HxMidiEvent::NoteOn { channel, note, vel }, HxMidiEvent::NoteOn { channel: c, note: n, vel: v }) => sym::check(*channel == *c && *note == *n && same(*vel, *v), "events are reported as they are"),
        (HxMidiEvent::NoteOff { channel, note }, HxMidiEvent::NoteOff { channel: c, note: n }) => sym::check(*channel == *c && *note == *n, "events are reported as they are"),
        _ => sym::check(false, "events are reported in order"),
    } }
    // oracle: the last note on the channel; the gate is on from its note on until its note off, and restarts with a pause of one frame
    let (mut note, mut vel, mut gate, mut restart, mut off) = (0u8, 0.0f32, false, false, false);
    for f in 0..8 {
        if restart { gate = true; }
        if off { gate = false; }
        restart = false; off = false;
        for (_, e) in evs.iter().filter(|e| e.0 == f) { match e {
            HxMidiEvent::NoteOn { channel, note: n, vel: v } if *channel as usize == chan => {
                sym::mark(1);
                if gate || restart { gate = false; restart = true; } else { gate = true; }
                off = false; note = *n; vel = *v;
            }
            HxMidiEvent::NoteOff { channel, note: n } if *channel as usize == chan && *n == note => { sym::mark(2); off = true; restart = false; }
            _ => (),
        } }
        match outn {
            "freq" => sym::check(close(o[f], (note as f32 - 69.0) / 120.0 * vol(), 1e-6), "the pitch is that of the last note"),
            "vel" => sym::check(same(o[f], vel * vol()), "the velocity is that of the last note"),
            _ => sym::check(o[f] == if gate { vol() } else { 0.0 }, "the gate is on from note on to note off, with a pause before each restart"),
        }
    }
    forget(m);
}

/// many injected events: each of them arrives once
pub fn h_c12_many() {
    let n = 1 + sym::choose("n", sym::param("n", 20) as usize);
    let ccs = sym::choose("cc", 3);
    let mut m = setup(NodeId::MidiP(0), "gate", 1000.0);
    m.m.sync().unwrap();
    block(&mut m, &[], 2);
    let obs = Arc::new(Obs(Default::default()));
    m.m.set_observer(obs.clone());
    for i in 0..n { m.m.inject_midi_event(if i % 3 < ccs { HxMidiEvent::CC { channel: 0, cc: i as u8, value: 0.5 } } else { HxMidiEvent::NoteOn { channel: 0, note: i as u8, vel: 0.5 } }); }
    for _ in 0..3 { block(&mut m, &[], 2); }
    m.m.handle_graph_events();
    let heard = obs.0.lock().unwrap();
    sym::mark(1);
    sym::check(heard.len() == n, "every event arrives once");
    for (i, h) in heard.iter().enumerate() { let k = match h { HxMidiEvent::NoteOn { note, .. } => *note, HxMidiEvent::CC { cc, .. } => *cc, _ => 99 }; sym::check(k as usize == i, "events keep their order"); }
    forget(m);
}


struct Obs(std::sync::Mutex<Vec<HxMidiEvent>>);
impl hexodsp::matrix::MatrixObserver for Obs {
    fn update_prop(&self, _key: &str) {}
    fn update_monitor(&self, _cell: &Cell) {}
    fn update_param(&self, _p: &ParamId) {}
    fn update_matrix(&self) {}
    fn update_all(&self) {}
    fn midi_event(&self, e: HxMidiEvent) { self.0.lock().unwrap().push(e); }
}

/// trigger and gate length modes
pub fn h_c12_gmode() {
    let mut m = setup(NodeId::MidiP(0), "gate", 1000.0);
    let id = NodeId::MidiP(0);
    let mode = 1 + sym::choose("mode", 2);
    m.m.set_param(id.inp_param("gmode").unwrap(), SAtom::setting(mode as i64));
    let g = id.inp_param("glen").unwrap();
    let len = 3 + sym::choose("len", 3);
    m.m.set_param(g, SAtom::param(g.norm(len as f32 + 0.5)));
    m.m.sync().unwrap();
    let (t1, t2) = (sym::choose("t1", 4), 4 + sym::choose("t2", 4));
    let chan = sym::bool("chan") as u8;
    let off = sym::choose("off", 2) == 1;
    let mut evs = vec![HxTimedEvent::note_on(t1, 0, 60, 1.0)];
    if off { evs.push(HxTimedEvent::note_off(t1 + 1, 0, 60)); }
    evs.push(HxTimedEvent::note_on(t2, chan, 62, 1.0));
    sym::assume(!off || t1 + 1 <= t2);
    let o = block(&mut m, &evs, 16);
    let n = if mode == 1 { 2 } else { len + 1 };
    let mut last = None;
    let mut pause = false;
    let mut start = 0;
    let mut on = false;
    for f in 0..16 {
        let mut note = f == t1;
        if f == t2 && chan == 0 { note = true; }
        if note {
            // a gate that is still on pauses for a frame, a trigger is just extended
            pause = mode == 2 && on;
            last = Some(f); start = if pause { f + 1 } else { f };
        }
        on = match last { Some(_) => f >= start && f < start + n, None => false };
        let _ = pause;
        sym::check(o.out[0][f] == if on { vol() } else { 0.0 }, "trigger and gate length");
    }
    sym::mark(1);
    forget(m);
}

struct P([f32; 3]);
impl ExternalParams for P { fn a1(&self) -> f32 { self.0[0] } fn a2(&self) -> f32 { self.0[1] } fn a3(&self) -> f32 { self.0[2] } }

/// controllers: each output follows its controller number, any values
pub fn h_c12_cc() {
    let which = sym::choose("out", 3);
    let mut m = setup(NodeId::MidiCC(0), ["sig1", "sig2", "sig3"][which], 1000.0);
    let id = NodeId::MidiCC(0);
    let chan = sym::choose("chan", 2) * 15;
    m.m.set_param(id.inp_param("chan").unwrap(), SAtom::setting(chan as i64));
    let mut ccs = [0usize; 3];
    for i in 0..3 { ccs[i] = sym::choose("cc", 2) * 127; m.m.set_param(id.inp_param(["cc1", "cc2", "cc3"][i]).unwrap(), SAtom::setting(ccs[i] as i64)); }
    m.m.sync().unwrap();
    block(&mut m, &[], 2);
    let mut evs = vec![];
    let mut t = 0;
    for _ in 0..2 { t += sym::choose("dt", 2); evs.push((t, sym::u8("ch"), sym::u8("ccn"), sym::f32("v"))); }
    let l: Vec<HxTimedEvent> = evs.iter().map(|e| HxTimedEvent::cc(e.0, e.1, e.2, e.3)).collect();
    let o = block(&mut m, &l, 3);
    let mut cur = 0.0;
    for f in 0..3 {
        for e in evs.iter().filter(|e| e.0 == f) { if e.1 as usize == chan && e.2 as usize == ccs[which] { cur = e.3; sym::mark(1); } }
        sym::check(same(o.out[0][f], cur * vol()), "an output holds the last value of its controller");
    }
    forget(m);
}

/// slew limiting of controllers and external parameters depends on the sample rate
pub fn h_c12_slew() {
    let sr = [1000.0f32, 500.0, 44100.0][sym::choose("sr", 3)];
    let ext = sym::choose("ext", 3);
    let which = sym::choose("out", 3);
    let id = [NodeId::MidiCC(0), NodeId::ExtA(0), NodeId::ExtF(0)][ext];
    let mut m = setup(id, ["sig1", "sig2", "sig3"][which], sr);
    if ext > 0 { let mut v = [0.0; 3]; v[which] = 1.0; m.ne.set_external_params(Arc::new(P(v))); }
    else { for i in 0..3 { m.m.set_param(id.inp_param(["cc1", "cc2", "cc3"][i]).unwrap(), SAtom::setting(i as i64)); } }
    let late = sym::choose("late", 2) == 1;
    let s = id.inp_param("slew").unwrap();
    let ms = 8.0;
    m.m.set_param(s, SAtom::param(s.norm(ms)));
    m.m.sync().unwrap();
    if late { m.ne.process_graph_updates(); m.ne.set_sample_rate(sr * 2.0); }
    let sr = if late { sr * 2.0 } else { sr };
    let o = block(&mut m, &if ext == 0 { vec![HxTimedEvent::cc(0, 0, which as u8, 1.0)] } else { vec![] }, 12);
    for f in 0..12 {
        let want = ((f + 1) as f32 * 1000.0 / sr / ms).min(1.0);
        sym::check((o.out[0][f] - want * vol()).abs() <= 1e-3, "the slew time is in milliseconds at the current sample rate");
    }
    sym::mark(1);
    forget(m);
}
