//! C03: checking and rolling back matrix changes
use crate::c04::*;
use crate::sym;
use hexodsp::matrix::MatrixError;
use hexodsp::*;

fn amp(i: u8) -> NodeId { NodeId::Amp(i) }

/// the layout as a matrix shows it: one entry per position, later placements replace earlier ones
fn place(l: &mut Vec<L>, c: L) { l.retain(|o| o.pos != c.pos); l.push(c); }
/// connections in terms of nodes: (from, output, to, input)
fn node_edges(l: &[L]) -> Vec<(NodeId, u8, NodeId, u8)> {
    edges(l).iter().filter(|e| l[e.2].id != NodeId::Nop).map(|e| (l[e.0].id, e.1, l[e.2].id, e.3)).collect()
}
fn dup(e: &[(NodeId, u8, NodeId, u8)]) -> bool {
    (0..e.len()).any(|i| (0..i).any(|j| e[i].2 == e[j].2 && e[i].3 == e[j].3))
}
fn cyclic(e: &[(NodeId, u8, NodeId, u8)], ids: &[NodeId]) -> bool {
    // peel off nodes without incoming edges
    let mut left: Vec<NodeId> = ids.to_vec();
    for _ in 0..ids.len() { let l2 = left.clone(); left.retain(|n| e.iter().any(|x| x.2 == *n && l2.contains(&x.0))); }
    !left.is_empty()
}
const IDS: [NodeId; 5] = [NodeId::Nop, NodeId::Amp(0), NodeId::Amp(1), NodeId::Amp(2), NodeId::Out(0)];

fn sym_cell(ids: &[NodeId], pats: usize) -> L {
    let id = ids[sym::choose("id", ids.len())];
    let mut c = L::new(sym::choose("pos", W * H), id);
    if id == NodeId::Nop { return c; }
    c.out = [Some(0); 3];
    match sym::choose("ports", pats) {
        k @ 0..=2 => c.inp[k] = Some(0),
        k @ 3..=5 => c.inp[k - 3] = Some(1),
        6 => c.inp = [Some(1), Some(0), Some(2)],
        _ => { c.inp = [Some(0), None, None]; c.out = [None; 3]; }
    }
    c
}
fn observe(m: &Matrix) -> (Vec<Cell>, Vec<((usize, usize), (usize, usize), u8, u8)>, Vec<bool>) {
    let (mut cells, mut conns) = (vec![], vec![]);
    for x in 0..W { for y in 0..H {
        cells.push(m.get_copy(x, y).unwrap());
        for (a, b) in m.get_connections(x, y).unwrap() { conns.push(((x, y), b.3, a.2, b.2)); }
    } }
    let mut used = vec![];
    for id in IDS.iter().skip(1) { for i in 0..3 { if let Some(p) = id.inp_param_by_idx(i) { used.push(m.param_input_is_used(p)); } } }
    (cells, conns, used)
}

/// A change to a synced matrix: accepted iff valid, rejected without a trace
pub fn h_c03_change() {
    let n = 1 + sym::choose("n", sym::param("n", 2) as usize);
    let mut l = vec![];
    let mut a = L::new(0, amp(0)); a.out = [Some(0); 3]; place(&mut l, a);
    let mut b = L::new(1, amp(1)); b.inp[0] = Some(0); b.out = [Some(0); 3]; place(&mut l, b);
    let mut o = L::new(W * H - 2, NodeId::Out(0)); o.inp[1] = Some(1); place(&mut l, o);
    let mut m = matrix(W, H, 200.0);
    for c in &l { m.m.place(c.pos.0, c.pos.1, c.cell()); }
    sym::check(m.m.sync().is_ok(), "the valid base layout is accepted");
    let before = observe(&m.m);
    let mut add = vec![];
    for i in 0..n { add.push(if i == 0 { sym_cell(&IDS[..4], 8) } else { sym_cell(&[IDS[1], IDS[3]], sym::param("pats", 3) as usize) }); }
    let multi = sym::choose("multi", 2) == 1;
    let mut new = l.clone();
    let mut occupied = false;
    for c in &add {
        occupied |= new.iter().any(|o| o.pos == c.pos && o.id != NodeId::Nop);
        place(&mut new, *c);
    }
    let e = node_edges(&new);
    let (d, cy) = (dup(&e), cyclic(&e, &IDS));
    let r = if multi {
        m.m.change_matrix_err(|m| { let cs: Vec<Cell> = add.iter().map(|c| Cell::empty_at(c.id, c.pos.0 as u8, c.pos.1 as u8).input(c.inp[0], c.inp[1], c.inp[2]).out(c.out[0], c.out[1], c.out[2])).collect(); m.place_multiple(&cs) })
    } else {
        m.m.change_matrix(|m| for c in &add { m.place(c.pos.0, c.pos.1, c.cell()) })
    };
    match &r {
        Ok(()) => sym::check(!d && !cy && !(multi && occupied), "an accepted change has no cycle, no input with two sources and overwrites nothing with place_multiple"),
        Err(MatrixError::CycleDetected) => { sym::mark(1); sym::check(cy, "CycleDetected is only reported for cycles") }
        Err(MatrixError::DuplicatedInput { output1, output2 }) => {
            sym::mark(2);
            sym::check(d, "DuplicatedInput is only reported when an input has two sources");
            sym::check(e.iter().any(|x| (x.0, x.1) == *output1 && e.iter().any(|y| (y.0, y.1) == *output2 && (x.2, x.3) == (y.2, y.3))), "the two reported outputs go to the same input");
        }
        Err(MatrixError::NonEmptyCell { .. }) => { sym::mark(3); sym::check(multi && occupied, "NonEmptyCell is only reported for occupied cells") }
        Err(_) => sym::check(false, "no other error occurs"),
    }
    if r.is_err() {
        sym::mark(4);
        sym::check(observe(&m.m) == before, "a rejected change leaves cells, connections and used inputs as they were");
    } else {
        sym::mark(5);
        for x in 0..W { for y in 0..H {
            let got = m.m.get(x, y).unwrap();
            match new.iter().find(|c| c.pos == (x, y)) {
                Some(c) => {
                    sym::check(got.node_id() == c.id, "a placed cell is where it was placed");
                    for (k, d) in [CellDir::T, CellDir::TL, CellDir::BL].iter().enumerate() { sym::check(got.local_port_idx(*d) == c.inp[k], "with its input ports"); }
                    for (k, d) in [CellDir::TR, CellDir::BR, CellDir::B].iter().enumerate() { sym::check(got.local_port_idx(*d) == c.out[k], "with its output ports"); }
                }
                None => sym::check(got.is_empty(), "nothing else appears"),
            }
        } }
        for id in IDS.iter().skip(1) { for i in 0..3 { if let Some(p) = id.inp_param_by_idx(i) {
            sym::check(m.m.param_input_is_used(p) == e.iter().any(|x| x.2 == *id && x.3 == i as u8), "used inputs are those with a connection");
        } } }
    }
    sym::check(m.m.sync().is_ok(), "the state after a checked change can be uploaded");
    forget(m);
}

/// histories of accepted and rejected changes, out of grid placements and direct use of save, check and restore
pub fn h_c03_hist() {
    let mut l: Vec<L> = vec![];
    let mut a = L::new(0, amp(0)); a.out = [Some(0); 3]; place(&mut l, a);
    let mut b = L::new(1, amp(1)); b.inp[0] = Some(0); b.out = [None, None, Some(0)]; place(&mut l, b);
    let mut m = matrix(W, H, 200.0);
    for c in &l { m.m.place(c.pos.0, c.pos.1, c.cell()); }
    sym::check(m.m.sync().is_ok(), "the valid base layout is accepted");
    let (mut rejected, mut accepted) = (false, false);
    for _ in 0..sym::param("k", 3) {
        let op = sym::choose("op", 8);
        let mut n = L::new([2, 4][if op < 3 { sym::choose("pos", 2) } else { 0 }], amp(2));
        n.inp[0] = Some(0);
        n.out = [Some(0); 3];
        // a second source for the input of Amp 1: below it at the bottom right, through a cell of the same node
        let mut bad = L::new(3, amp(1)); bad.inp[1] = Some(0);
        match op {
            0 => { sym::check(m.m.change_matrix(|m| m.place(n.pos.0, n.pos.1, n.cell())).is_ok(), "a valid change is accepted"); l.retain(|o| o.pos != n.pos); l.push(n); accepted = true; }
            1 => { sym::check(m.m.change_matrix_err(|m| m.place_multiple(&[Cell::empty_at(NodeId::Nop, n.pos.0 as u8, n.pos.1 as u8)])).is_ok() == !l.iter().any(|o| o.pos == n.pos), "place_multiple overwrites nothing"); }
            2 => { sym::check(m.m.change_matrix(|m| m.place(n.pos.0, n.pos.1, Cell::empty(NodeId::Nop))).is_ok(), "removing a cell is accepted"); l.retain(|o| o.pos != n.pos); accepted = true; }
            3 => { // a second source for an input
                let r = m.m.change_matrix(|m| { m.place(n.pos.0, n.pos.1, n.cell()); m.place(bad.pos.0, bad.pos.1, bad.cell()) });
                sym::check(matches!(r, Err(MatrixError::DuplicatedInput { .. })), "an input with two sources is rejected");
                rejected = true;
            }
            4 => { // the change itself reports an error after it did something
                let r = m.m.change_matrix_err(|m| { m.place(n.pos.0, n.pos.1, n.cell()); Err(MatrixError::PosOutOfRange) });
                sym::check(matches!(r, Err(MatrixError::PosOutOfRange)), "the error of a change is passed on");
                rejected = true;
            }
            5 => { // out of the grid
                let (x, y, multi) = [(0, H, false), (0, H + 2, true), (W, 0, false), (W - 1, 255, false), (W + 1, H - 1, true)][sym::choose("where", 5)];
                sym::mark(3);
                if multi {
                    let r = m.m.change_matrix_err(|m| m.place_multiple(&[Cell::empty_at(n.id, n.pos.0 as u8, n.pos.1 as u8), Cell::empty_at(amp(3), x as u8, y as u8)]));
                    sym::check(matches!(r, Err(MatrixError::PosOutOfRange) | Err(MatrixError::NonEmptyCell { .. })), "place_multiple reports positions out of the grid");
                    rejected = true;
                } else {
                    sym::check(m.m.change_matrix(|m| m.place(x, y, n.cell())).is_ok(), "placing out of the grid is ignored");
                }
            }
            6 => { // by hand
                m.m.save_matrix();
                m.m.place(n.pos.0, n.pos.1, n.cell());
                let is_bad = sym::bool("bad");
                if is_bad { m.m.place(bad.pos.0, bad.pos.1, bad.cell()); }
                sym::check(m.m.check().is_ok() == !is_bad, "check finds inputs with two sources");
                m.m.restore_matrix();
                rejected = true;
            }
            _ => sym::check(m.m.sync().is_ok(), "the accepted state can be uploaded"),
        }
        if rejected && accepted { sym::mark(1); }
        let e = node_edges(&l);
        for x in 0..W { for y in 0..H {
            let got = m.m.get(x, y).unwrap();
            match l.iter().find(|c| c.pos == (x, y)) {
                Some(c) => sym::check(got.node_id() == c.id && got.pos() == (x, y) && got.local_port_idx(CellDir::T) == c.inp[0] && got.local_port_idx(CellDir::B) == c.out[2], "the cells are those of the accepted changes"),
                None => sym::check(got.is_empty(), "no other cell appears"),
            }
        } }
        for i in 0..4u8 { let p = amp(i).inp_param("inp").unwrap(); sym::check(m.m.param_input_is_used(p) == e.iter().any(|x| x.2 == amp(i) && x.3 == 0), "the used inputs are those of the accepted changes"); }
    }
    sym::mark(2);
    forget(m);
}
