//! C16: sample files are loaded faithfully and played back as set
use crate::c04::*;
use crate::c13::{rig, set, setting, vol};
use crate::env::*;
use crate::sym;
use hexodsp::*;

fn le16(v: &mut Vec<u8>, x: u16) { v.extend_from_slice(&x.to_le_bytes()); }
fn le32(v: &mut Vec<u8>, x: u32) { v.extend_from_slice(&x.to_le_bytes()); }
/// a WAV file: format tag, channels, bits, rate, data bytes
fn wav(tag: u16, ch: u16, bits: u16, rate: u32, data: &[u8]) -> Vec<u8> {
    let mut v = vec![];
    v.extend_from_slice(b"RIFF");
    le32(&mut v, 36 + data.len() as u32);
    v.extend_from_slice(b"WAVEfmt ");
    le32(&mut v, 16);
    le16(&mut v, tag);
    le16(&mut v, ch);
    le32(&mut v, rate);
    le32(&mut v, rate * ch as u32 * (bits / 8) as u32);
    le16(&mut v, ch * (bits / 8));
    le16(&mut v, bits);
    v.extend_from_slice(b"data");
    le32(&mut v, data.len() as u32);
    v.extend_from_slice(data);
    v
}

/// mono and stereo files of each format with any sample data
pub fn h_c16_wav() {
    let ch = 1 + sym::choose("stereo", 2);
    let (tag, bits) = [(1u16, 8u16), (1, 16), (3, 32)][sym::choose("format", 3)];
    let rate = [8000u32, 44100, 96000][sym::choose("rate", 3)];
    const FR: usize = 3;
    let by = (bits / 8) as usize;
    let mut data = vec![0u8; FR * ch * by];
    sym::bytes(&mut data, "data");
    let path = sym::file("t.wav", &wav(tag, ch as u16, bits, rate, &data));
    let mut lib = SampleLibrary::new();
    let mut first = vec![];
    for again in 0..2 {
        match lib.load(&path) {
            Ok(SAtom::AudioSample((p, Some(v)))) => {
                sym::check(*p == path, "a loaded sample carries its path");
                sym::check(v.len() == FR + 1 && v[0] == rate as f32, "a loaded sample has the rate and length of its file");
                for i in 0..FR {
                    let at = i * ch * by; // the first channel
                    let w = match bits {
                        8 => (data[at] as i32 - 128) as f32 / 128.0,
                        16 => i16::from_le_bytes([data[at], data[at + 1]]) as f32 / 32768.0,
                        _ => f32::from_le_bytes([data[at], data[at + 1], data[at + 2], data[at + 3]]),
                    };
                    sym::check(same(v[1 + i], w), "each sample of the first channel is loaded at its level");
                }
                if again == 0 { first = v.to_vec(); sym::mark(1); } else { sym::check(v.len() == first.len(), "a sample loaded again is the same"); }
            }
            _ => sym::check(false, "a valid WAV file is loaded"),
        }
    }
    std::mem::forget(lib);
}

/// damaged files: cut off anywhere, or with any value in one header field
pub fn h_c16_bad() {
    let (tag, bits) = [(1u16, 16u16), (3, 32), (1, 8), (1, 24)][sym::choose("format", 4)];
    let data = [1u8, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12];
    let mut f = wav(tag, 1, bits, 44100, &data);
    match sym::choose("damage", 3) {
        0 => { let n = sym::choose("cut", f.len()); f.truncate(n); sym::mark(1); }
        1 => {
            let (at, n) = [(20, 2), (22, 2), (24, 4), (32, 2), (34, 2)][sym::choose("field", 5)];
            let mut b = [0u8; 4];
            sym::bytes(&mut b[..n], "value");
            for i in 0..n { f[at + i] = b[i]; }
            sym::mark(2);
        }
        _ => { // chunk ids and sizes
            let (at, n) = [(0, 4), (4, 4), (8, 4), (12, 4), (16, 4), (36, 4), (40, 4)][sym::choose("chunk", 7)];
            let k = sym::choose("what", 4);
            for i in 0..n { f[at + i] = [0, 0xff, if i == 0 { 13 } else { 0 }, if i == 3 { 0x7f } else { 1 }][k]; }
            sym::mark(3);
        }
    }
    let path = sym::file("t.wav", &f);
    let mut lib = SampleLibrary::new();
    if let Ok(SAtom::AudioSample((_, d))) = lib.load(&path) {
        sym::mark(4);
        let n = match d { Some(v) => v.len(), None => 0 };
        sym::check(n >= 1, "a loaded sample has a sample rate");
    }
    std::mem::forget(lib);
}

/// playback at the recorded, double and half speed: loop or one shot, forwards or backwards, any trigger schedule
pub fn h_c16_play() {
    let id = NodeId::Sampl(0);
    let mut m = rig(id, "sig", [Some("trig"), None, None]);
    let mut s: Vec<f32> = [0.5, -0.25, 0.75, -1.0, 0.125, 0.375].to_vec();
    s.truncate([6, 5, 2][sym::choose("size", 3)]);
    let total = s.len();
    let (speed, rate) = [(1.0f64, 1000.0f32), (2.0, 2000.0), (0.5, 500.0)][sym::choose("speed", 3)];
    let lp = sym::choose("loop", 2) == 1;
    let rev = sym::choose("rev", 2) == 1;
    let (offs, len) = [(0.0f32, 1.0f32), (0.5, 1.0), (0.0, 0.5), (0.5, 0.25)][sym::choose("part", 4)];
    let mut d = vec![rate];
    d.extend_from_slice(&s);
    let p = id.inp_param("sample").unwrap();
    m.m.set_param(p, SAtom::audio("x", std::sync::Arc::new(d)));
    setting(&mut m, id, "pmode", if lp { 0 } else { 1 });
    setting(&mut m, id, "dir", rev as i64);
    set(&mut m, id, "offs", offs);
    set(&mut m, id, "len", len);
    m.m.sync().unwrap();
    // the part that is played
    let start = (total as f32 * offs).floor() as usize;
    let n = (total - start).min((total as f32 * len).round() as usize);
    let part = &s[start..start + n];
    let (t1, t2) = (sym::choose("t1", 4), sym::choose("t2", sym::param("t2", 6) as usize));
    let (mut pos, mut on) = (0.0f64, lp);
    for blk in 0..2 {
        let fr = 8;
        let mut inp = vec![];
        for f in 0..fr { let t = blk * fr + f; inp.push([if t == t1 + 1 || t == t1 + 3 + t2 { 1.0 } else { 0.0 }, 0.0]); }
        let o = crate::c13::run(&mut m, &inp);
        for f in 0..fr {
            if inp[f][0] > 0.5 { pos = 0.0; on = true; sym::mark(1); }
            if pos >= n as f64 { if lp { pos -= n as f64; while n > 0 && pos >= n as f64 { pos -= n as f64; } sym::mark(2); } else { on = false; } }
            if n == 0 { on = false; }
            if !on { sym::check(o.out[0][f] == 0.0, "outside of the playback the sampler is silent"); }
            else if pos.fract() == 0.0 {
                let i = pos as usize;
                // (backwards: position n - i, as the repository's tests have it; the first one wraps around)
                let w = if rev { sym::mark(3); part[(n - i) % n] } else { part[i] };
                sym::check(close(o.out[0][f], w * vol(), 1e-6), "the samples are played in order, at the speed of the sample rates, from the start of the part that is set");
            }
            if on { pos += speed; }
        }
    }
    forget(m);
}

/// fade in and out: no click at the start and the end, nothing changed in between, for any speed
pub fn h_c16_declick() {
    let id = NodeId::Sampl(0);
    let mut m = rig(id, "sig", [Some("trig"), None, None]);
    let rate = [1000.0f32, 700.0, 1700.0, 9000.0, 250.0][sym::choose("rate", 5)];
    let lp = sym::choose("loop", 2) == 1;
    let rev = sym::choose("rev", 2) == 1;
    let (offs, len) = [(0.0f32, 1.0f32), (0.5, 0.6)][sym::choose("part", 2)];
    let mut d = vec![rate];
    for _ in 0..12 { d.push(0.5); }
    m.m.set_param(id.inp_param("sample").unwrap(), SAtom::audio("x", std::sync::Arc::new(d)));
    setting(&mut m, id, "pmode", if lp { 0 } else { 1 });
    setting(&mut m, id, "dir", rev as i64);
    setting(&mut m, id, "dclick", 1);
    set(&mut m, id, "offs", offs);
    set(&mut m, id, "len", len);
    m.m.sync().unwrap();
    let (t1, t2) = (sym::choose("t1", 4), sym::choose("t2", 9));
    let mut pos = 0.0f64;
    let (n, ramp) = (if offs == 0.0 { 12.0 } else { 6.0 }, 3.0);
    let mut on = lp;
    let mut twice = 0;
    for blk in 0..2 {
        let fr = 10;
        let mut inp = vec![];
        for f in 0..fr { let t = blk * fr + f; inp.push([if t == t1 + 1 || t == t1 + 3 + t2 { 1.0 } else { 0.0 }, 0.0]); }
        let o = crate::c13::run(&mut m, &inp);
        for f in 0..fr {
            if inp[f][0] > 0.5 { pos = 0.0; on = true; twice += 1; }
            if pos >= n { if lp { while pos >= n { pos -= n; } } else { on = false; } }
            let x = o.out[0][f];
            sym::check(x >= -0.0001 && x <= 1.0, "a faded sample stays in range");
            if twice == 1 && !lp {
                sym::mark(1);
                let i = pos.floor();
                let w = if !on { 0.0 } else if i < ramp { 0.5 * i / ramp } else if n - i < ramp { 0.5 * (n - i) / ramp } else { sym::mark(2); 0.5 };
                sym::check(close(x, w as f32 * vol(), 1e-4), "a declicked sample fades in and out over the declick time");
            }
            if on { pos += rate as f64 / 1000.0; }
        }
    }
    forget(m);
}
