//! C09 live changes: no history of frontend calls breaks the audio thread
use crate::env::*;
use crate::sym;
use hexodsp::*;

fn id(i: usize) -> NodeId { match i { 0 => NodeId::Amp(0), 1 => NodeId::Out(0), 2 => NodeId::Test(0), _ => NodeId::Mix3(0) } }

struct C { nc: NodeConfigurator, ne: NodeExecutor, created: usize }
impl C {
    fn new(sr: f32) -> C {
        let (nc, mut ne) = new_node_engine();
        ne.no_logging();
        ne.set_sample_rate(sr);
        C { nc, ne, created: 0 }
    }
    fn upload(&mut self, skip: usize, copy: bool) {
        let mut prog = self.nc.rebuild_node_ports();
        for i in 0..self.created { if i != skip { self.nc.add_prog_node(&mut prog, &id(i)); } }
        for i in 1..self.created {
            if i != skip && i - 1 != skip {
                let inp = match i { 1 => "ch1", 2 => "f", _ => "ch1" };
                let src = id(i - 1);
                let out = src.out_name_by_idx(0).and_then(|n| src.out(n));
                if let (Some(a), Some(b)) = (id(i).inp(inp), out) {
                    self.nc.set_prog_node_exec_connection(&mut prog, (id(i), a), (src, b));
                }
            }
        }
        self.nc.upload_prog(prog, copy);
    }
    fn create(&mut self) { if self.created < 4 { self.nc.create_node(id(self.created)); self.created += 1; } }
    fn op(&mut self, k: usize) {
        match k {
            0 => { callback(&mut self.ne, 2); sym::mark(1); }
            1 => { self.create(); self.create(); self.upload(9, true); }
            2 => { self.nc.set_param(NodeId::Amp(0).inp_param("inp").unwrap(), SAtom::param(sym::f32("v"))); }
            3 => { self.nc.set_param(NodeId::Test(0).inp_param("p").unwrap(), SAtom::setting(3)); }
            4 => { self.nc.set_param(NodeId::Mix3(0).inp_param("ch1").unwrap(), SAtom::param(sym::f32("w"))); }
            5 => { let a = if sym::bool("some") { Some(0.5) } else { None }; if self.nc.set_param_modamt(NodeId::Out(0).inp_param("ch1").unwrap(), a) { self.upload(9, true); } }
            6 => { self.nc.delete_nodes(); self.created = 0; }
            7 => { let n = sym::choose("mon", 3); self.nc.monitor(&id(n), &[Some(0), Some(1), None], &[Some(0), None, Some(1)]); }
            8 => { self.upload(1, true); }
            9 => { self.create(); self.create(); let p = self.nc.rebuild_node_ports(); drop(p); }
            10 => { callback(&mut self.ne, 3); sym::run_threads(); callback(&mut self.ne, 1); sym::mark(2); }
            11 => { self.create(); self.upload(0, false); }
            _ => { self.nc.inject_midi_event(HxMidiEvent::NoteOn { channel: 0, note: sym::u8("note"), vel: 1.0 }); self.ne.feed_midi_events_from(|| None); }
        }
    }
}

/// any history of `k` operations after a graph is set up, followed by two audio callbacks around the drop thread
pub fn h_c09_hist() {
    let k = sym::param("k", 3) as usize;
    let mut c = C::new(200.0);
    match sym::choose("start", 3) { 0 => (), 1 => c.op(1), _ => { c.op(1); c.op(1); c.op(0); } }
    for _ in 0..k { let o = sym::choose("op", 13); c.op(o); }
    callback(&mut c.ne, 3);
    sym::run_threads();
    callback(&mut c.ne, 2);
    if sym::bool("drop_exec_first") { drop(c.ne); sym::run_threads(); drop(c.nc); } else { drop(c.nc); let mut ne = c.ne; callback(&mut ne, 2); drop(ne); }
}
