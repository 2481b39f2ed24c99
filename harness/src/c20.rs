//! C20: cells and matrix queries agree with the layout
use crate::c04::{forget, matrix, M};
use crate::sym;
use hexodsp::*;

const DIRS: [CellDir; 7] = [CellDir::TR, CellDir::BR, CellDir::B, CellDir::BL, CellDir::TL, CellDir::T, CellDir::C];
/// order in which sides are reported: inputs from the top, then outputs from the top
const IN: [usize; 3] = [5, 4, 3];
const OUT: [usize; 3] = [0, 1, 2];

/// neighbour of a cell in a grid of columns that are shifted down by half a cell at odd x
fn nb(p: (i64, i64), d: usize) -> (i64, i64) {
    let odd = p.0 % 2;
    match d { 0 => (p.0 + 1, p.1 - 1 + odd), 1 => (p.0 + 1, p.1 + odd), 2 => (p.0, p.1 + 1), 3 => (p.0 - 1, p.1 + odd), 4 => (p.0 - 1, p.1 - 1 + odd), _ => (p.0, p.1 - 1) }
}
fn opposite(d: usize) -> usize { (d + 3) % 6 }

#[derive(Clone, Copy)]
struct Model { id: NodeId, pos: (u8, u8), port: [Option<u8>; 6] }
impl Model {
    fn cell(&self) -> Cell { Cell::empty_at(self.id, self.pos.0, self.pos.1).input(self.port[5], self.port[4], self.port[3]).out(self.port[0], self.port[1], self.port[2]) }
    fn check(&self, c: &Cell) {
        self.check_cell(c);
        sym::check(c.pos() == (self.pos.0 as usize, self.pos.1 as usize), "the cell is at its position");
    }
    /// a reference into the matrix: only cells that were placed know where they are
    fn check_ref(&self, c: &Cell) { if self.id == NodeId::Nop { self.check_cell(c) } else { self.check(c) } }
    fn check_cell(&self, c: &Cell) {
        for d in 0..6 {
            sym::check(c.local_port_idx(DIRS[d]) == self.port[d], "a side has the port it was given");
            sym::check(c.has_dir_set(DIRS[d]) == self.port[d].is_some(), "a side has a port exactly if it was given one");
        }
        sym::check(c.local_port_idx(CellDir::C).is_none() && !c.has_dir_set(CellDir::C), "the centre has no port");
        sym::check(c.node_id() == self.id && c.is_empty() == (self.id == NodeId::Nop), "the cell holds its node");
    }
}

/// any cell, any sequence of `k` edits
pub fn h_c20_cell() {
    let k = sym::param("k", 2) as usize;
    let mut m = Model { id: NodeId::Mix3(sym::u8("inst")), pos: (0, 0), port: [None; 6] };
    m.pos = (sym::u8("x"), sym::u8("y"));
    let init = [0b101101, 0b111111, 0b000000][sym::choose("init", sym::param("init", 2) as usize)];
    for d in 0..6 { if init >> d & 1 == 1 { m.port[d] = Some(sym::u8("port")); } }
    let mut c = m.cell();
    m.check(&c);
    for _ in 0..k {
        let d = sym::choose("dir", 7);
        match sym::choose("op", 8) {
            0 => { let v = sym::u8("idx"); c.set_io_dir(DIRS[d], v as usize); if d < 6 { m.port[d] = Some(v); } }
            1 => { c.clear_io_dir(DIRS[d]); if d < 6 { m.port[d] = None; } else { m.port = [None; 6]; } }
            2 => {
                let (n, i) = [("ch1", Some(0)), ("ch3", Some(2)), ("ovol", Some(6)), ("sig", None), ("", None)][sym::choose("name", 5)];
                let i = if let NodeId::Mix3(_) = m.id { i } else { None };
                sym::check(c.set_input_by_name(n, DIRS[d]).is_ok() == i.is_some(), "an input is found by its name");
                if let (Some(i), true) = (i, d < 6) { m.port[d] = Some(i); }
            }
            3 => {
                let (n, i) = [("sig", Some(0)), ("ch1", None)][sym::choose("name", 2)];
                let i = if m.id == NodeId::Nop { None } else { i };
                sym::check(c.set_output_by_name(n, DIRS[d]).is_ok() == i.is_some(), "an output is found by its name");
                if let (Some(i), true) = (i, d < 6) { m.port[d] = Some(i); }
            }
            4 => { let n = [NodeId::Amp(3), NodeId::Nop][sym::choose("new", 2)]; c.set_node_id(n); m.id = n; m.port = [None; 6]; }
            5 => { let n = NodeId::Amp(sym::u8("inst")); c.set_node_id_keep_ios(n); m.id = n; }
            6 => {
                sym::assume(m.pos.0 < 255 && m.pos.1 < 255);
                let n = if d < 6 { nb((m.pos.0 as i64, m.pos.1 as i64), d) } else { (m.pos.0 as i64, m.pos.1 as i64) };
                let ok = n.0 >= 0 && n.1 >= 0;
                sym::check(c.offs_dir(DIRS[d]) == ok, "a cell moves exactly if there is a place");
                if ok { m.pos = (n.0 as u8, n.1 as u8); }
            }
            _ => {
                // the same cell, somewhere else
                let o = Model { id: NodeId::Sin(0), pos: (sym::u8("ox"), sym::u8("oy")), port: [Some(1); 6] };
                c = c.with_pos_of(o.cell());
                m.pos = o.pos;
            }
        }
        m.check(&c);
        let r = c.to_repr();
        sym::check((r.x, r.y) == c.pos() && r.node_id == m.id, "the saved cell has its node and position");
        for s in 0..3 {
            sym::check(r.inp[s] == m.port[IN[s]].map(|v| v as i16).unwrap_or(-1) && r.out[s] == m.port[OUT[s]].map(|v| v as i16).unwrap_or(-1), "the saved cell has its ports");
        }
        m.check(&Cell::from_repr(&r));
        sym::mark(1);
    }
}

const S: usize = 3;
struct Grid { m: M, cells: [[Model; S]; S] }
impl Grid {
    fn new() -> Grid {
        let e = Model { id: NodeId::Nop, pos: (0, 0), port: [None; 6] };
        let mut g = Grid { m: matrix(S, S, 200.0), cells: [[e; S]; S] };
        for x in 0..S { for y in 0..S { g.cells[x][y].pos = (x as u8, y as u8); } }
        g
    }
    fn at(&self, p: (i64, i64)) -> Option<&Model> { if p.0 < 0 || p.1 < 0 || p.0 >= S as i64 || p.1 >= S as i64 { None } else { Some(&self.cells[p.0 as usize][p.1 as usize]) } }
    fn put(&mut self, p: (i64, i64), c: Model) { self.cells[p.0 as usize][p.1 as usize] = Model { pos: (p.0 as u8, p.1 as u8), ..c }; self.m.m.place(p.0 as usize, p.1 as usize, c.cell()); }
    fn free(&self, p: (i64, i64), d: usize) -> bool { self.at(nb(p, d)).map(|c| c.id == NodeId::Nop).unwrap_or(false) }
    fn connected(&self, p: (i64, i64), d: usize) -> Option<(usize, usize)> {
        self.at(p)?.port[d]?;
        let n = nb(p, d);
        self.at(n)?.port[opposite(d)]?;
        Some((n.0 as usize, n.1 as usize))
    }
    fn queries(&self, p: (i64, i64), what: CellDir, opts: &[usize]) {
        let m = &self.m.m;
        let (x, y) = (p.0 as usize, p.1 as usize);
        let c = m.get_copy(x, y).unwrap();
        let me = self.at(p).unwrap();
        me.check(&c);
        me.check_ref(m.get(x, y).unwrap());
        let free: Vec<usize> = opts.iter().copied().filter(|d| self.free(p, *d)).collect();
        let all = c.find_all_adjacent_free(m, what);
        sym::check(all.len() == free.len(), "all free places around a cell are found");
        for (i, d) in free.iter().enumerate() { let n = nb(p, *d); sym::check(all[i] == (DIRS[*d], (n.0 as usize, n.1 as usize)), "the free places around a cell are found in order"); }
        let first = free.iter().copied().find(|d| me.port[*d].is_some()).or(free.first().copied());
        sym::check(c.find_first_adjacent_free(m, what) == first.map(|d| (DIRS[d], me.port[d])), "the first free place is one with a port, if there is any");
        let un: Vec<CellDir> = opts.iter().copied().filter(|d| self.connected(p, *d).is_none()).map(|d| DIRS[d]).collect();
        sym::check(c.find_unconnected_ports(m, what) == un, "the unconnected sides are found");
        for d in opts.iter().copied() {
            sym::check(c.is_port_dir_connected(m, DIRS[d]) == self.connected(p, d), "a side is connected exactly if both sides have a port");
            let n = self.at(nb(p, d));
            sym::check(m.get_adjacent(x, y, DIRS[d]).is_some() == n.is_some(), "the neighbours are those inside the grid");
            if let (Some(a), Some(n)) = (m.get_adjacent(x, y, DIRS[d]), n) { n.check_ref(a); }
            let o = if d < 3 { None } else { n.filter(|n| n.id != NodeId::Nop).and_then(|n| n.port[opposite(d)].map(|o| (n.id, o))) };
            sym::check(m.get_adjacent_output(x, y, DIRS[d]) == o, "the output next to an input side");
            let h = d < 3 && n.map(|n| n.port[opposite(d)].is_some()).unwrap_or(false);
            sym::check(m.adjacent_edge_has_input(x, y, DIRS[d]) == h, "the input next to an output side");
        }
        let con = m.get_connections(x, y).unwrap();
        let exp: Vec<usize> = (0..6).filter(|d| self.connected(p, *d).is_some()).collect();
        sym::check(con.len() == exp.len(), "all connections of a cell are found");
        for (i, d) in exp.iter().enumerate() {
            let n = self.connected(p, *d).unwrap();
            let ((c0, d0, i0), (c1, d1, i1, p1)) = &con[i];
            me.check(c0);
            self.at(nb(p, *d)).unwrap().check(c1);
            sym::check(*d0 == DIRS[*d] && Some(*i0) == me.port[*d] && *d1 == DIRS[opposite(*d)] && Some(*i1) == self.cells[n.0][n.1].port[opposite(*d)] && *p1 == n, "a connection names both its ends");
        }
    }
}

/// one side of a cell and all cases of what is beyond
fn side(g: &mut Grid, p: (i64, i64), d: usize, me: &mut Model, full: bool) {
    let own = sym::choose("own", 2) == 1;
    if own { me.port[d] = Some(if d < 3 { 0 } else { sym::u8("in") % 7 }); }
    let n = nb(p, d);
    if g.at(n).is_none() { return; }
    let mut c = Model { id: NodeId::Mix3(1 + d as u8), pos: (0, 0), port: [None; 6] };
    match sym::choose("other", if full { 3 } else { 2 }) {
        0 => { sym::mark(2); return; }
        1 => { c.port[opposite(d)] = Some(d as u8 % 4); }
        _ => { c.port = [Some(3); 6]; c.port[opposite(d)] = None; }
    }
    g.put(n, c);
}

/// any cell of a 3x3 matrix; on one half of its sides any port here and there
pub fn h_c20_query() {
    let mut g = Grid::new();
    let p = sym::choose("pos", S * S) as i64;
    let p = (p / S as i64, p % S as i64);
    let mut me = Model { id: NodeId::Mix3(0), pos: (0, 0), port: [None; 6] };
    let inputs = sym::choose("inputs", 2) == 1;
    let (what, opts) = if inputs { (CellDir::T, IN) } else { (CellDir::B, OUT) };
    for d in opts { side(&mut g, p, d, &mut me, true); }
    g.put(p, me);
    g.queries(p, what, &opts);
    sym::mark(1);
    forget(g.m);
}

/// all six sides at once
pub fn h_c20_around() {
    let mut g = Grid::new();
    let p = [(1, 1), (0, 0), (2, 1), (1, 2)][sym::choose("pos", 4)];
    let mut me = Model { id: NodeId::Mix3(0), pos: (0, 0), port: [None; 6] };
    let own = [0b000000, 0b111111, 0b010010, 0b100100, 0b000001, 0b011010][sym::choose("own", sym::param("own", 4) as usize)];
    for d in 0..6 {
        if own >> d & 1 == 1 { me.port[d] = Some(0); }
        let n = nb(p, d);
        if g.at(n).is_none() || sym::choose("other", 2) == 0 { continue; }
        let mut c = Model { id: NodeId::Amp(1 + d as u8), pos: (0, 0), port: [None; 6] };
        if sym::u8("facing") == 7 { c.port[opposite(d)] = Some(0); }
        g.put(n, c);
    }
    g.put(p, me);
    g.queries(p, CellDir::C, &[5, 4, 3, 0, 1, 2]);
    let mut seen = 0;
    let cells = g.cells;
    g.m.m.for_each(|x, y, c| { sym::check(seen == x * S + y, "every cell is visited once, in order"); seen += 1; cells[x][y].check_ref(c); });
    sym::check(seen == S * S, "all cells are visited");
    let (x, y) = (sym::usize("ax"), sym::usize("ay"));
    sym::assume(x >= S || y >= S);
    sym::check(g.m.m.get(x, y).is_none() && g.m.m.get_copy(x, y).is_none(), "there are no cells outside");
    sym::check(g.m.m.get_connections(x, y).is_none(), "there are no connections outside");
    sym::mark(1);
    forget(g.m);
}

/// labels of nodes and ports, with a buffer of any size
pub fn h_c20_label() {
    let mut m = matrix(S, S, 200.0);
    let id = [NodeId::Mix3(0), NodeId::Sin(2), NodeId::TSeq(0), NodeId::Ad(1)][sym::choose("node", 4)];
    let (label, ins, outs): (&str, &[&str], &[&str]) = match id {
        NodeId::Mix3(_) => ("Mix3 0", &["ch1", "ch2", "ch3", "vol1", "vol2", "vol3", "ovol"], &["sig"]),
        NodeId::Sin(_) => ("Sin 2", &["freq", "det", "pm"], &["sig"]),
        NodeId::TSeq(_) => ("TSeq 0", &["clock", "trig"], &["trk1", "trk2", "trk3", "trk4", "trk5", "trk6", "gat1", "gat2", "gat3", "gat4", "gat5", "gat6"]),
        _ => ("Ad 1", &["inp", "trig", "atk", "dcy", "ashp", "dshp"], &["sig", "eoet"]),
    };
    let d = sym::choose("dir", 7);
    let mut me = Model { id, pos: (1, 1), port: [None; 6] };
    let mut exp: Option<&str> = None;
    if d < 6 && sym::choose("set", 2) == 1 {
        let names = if d < 3 { outs } else { ins };
        let i = sym::choose("port", names.len() + 1);
        me.port[d] = Some(i as u8);
        // a number beyond the last port has no name (settings come after the inputs)
        if i < names.len() { exp = Some(names[i]); } else if d >= 3 { me.port[d] = Some(30); }
        sym::mark(2);
    }
    let con = d < 3 && sym::choose("con", 2) == 1;
    let p = (1, 1);
    m.m.place(1, 1, me.cell());
    if con { let n = nb(p, d); let mut c = Model { id: NodeId::Amp(0), pos: (0, 0), port: [None; 6] }; c.port[opposite(d)] = Some(0); m.m.place(n.0 as usize, n.1 as usize, c.cell()); }
    sym::check(m.m.sync().is_ok(), "the layout is accepted");
    let c = m.m.get_copy(1, 1).unwrap();
    let len = sym::choose("len", 8);
    let mut buf = [0u8; 8];
    let exp = exp.filter(|e| e.len() <= len).map(|e| (e, con));
    sym::check(m.m.edge_label(&c, DIRS[d], &mut buf[..len]) == exp, "a side is labelled with the name of its port");
    let mut buf = [0u8; 8];
    sym::check(c.label(&mut buf[..len]) == Some(label).filter(|l| l.len() <= len), "a cell is labelled with its node");
    let mut buf = [0u8; 8];
    let e = m.m.get_copy(0, 0).unwrap();
    if !con { sym::check(e.label(&mut buf).is_none() && m.m.edge_label(&e, DIRS[d], &mut [0u8; 8]).is_none(), "an empty cell has no label"); }
    sym::mark(1);
    forget(m);
}
