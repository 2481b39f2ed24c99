//! Shared pieces of the harnesses: an audio context with small blocks, engine setup.
#![allow(dead_code)]
use crate::sym;
use hexodsp::nodes::{NodeAudioContext, NodeExecutor};

pub const N: usize = 16;
pub struct Ctx { pub n: usize, pub out: [[f32; N]; 2], pub inp: [[f32; N]; 2] }
impl Ctx { pub fn new(n: usize) -> Self { Ctx { n, out: [[0.0; N]; 2], inp: [[0.0; N]; 2] } } }
impl NodeAudioContext for Ctx {
    fn nframes(&self) -> usize { self.n }
    fn output(&mut self, channel: usize, frame: usize, v: f32) { self.out[channel][frame] = v; }
    fn input(&mut self, channel: usize, frame: usize) -> f32 { self.inp[channel][frame] }
}

/// one audio callback: message handling and processing of n frames; nothing may be allocated or freed in it
pub fn callback(ne: &mut NodeExecutor, n: usize) -> Ctx {
    let mut c = Ctx::new(n);
    callback_ctx(ne, &mut c);
    c
}
pub fn callback_ctx(ne: &mut NodeExecutor, c: &mut Ctx) {
    let before = sym::memops();
    ne.process_graph_updates();
    ne.process(c);
    sym::check(sym::memops() == before, "the audio thread neither allocates nor frees memory");
}
/// same value (bitwise or numerically, NaN allowed on both sides)
pub fn same(a: f32, b: f32) -> bool { a.to_bits() == b.to_bits() || a == b || (a.is_nan() && b.is_nan()) }
/// same value up to rounding
pub fn close(a: f32, b: f32, eps: f32) -> bool { a.to_bits() == b.to_bits() || a == b || (a - b).abs() <= eps }
