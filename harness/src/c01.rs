//! C01 hexagonal grid geometry
use crate::sym;
use hexodsp::CellDir;

pub fn h_c01_dirs() {
    let e = sym::u8("edge");
    let max = sym::param("max", 1 << 24) as usize;
    let x = sym::range("x", 0, max);
    let y = sym::range("y", 0, max);
    let d = CellDir::from(e);
    sym::check((e < 6) == (d != CellDir::C), "edges 0 to 5 are the six directions, anything else is the centre");
    if d == CellDir::C { sym::mark(1); return; }
    sym::check(d.as_edge() == e, "direction and edge index convert back and forth");
    sym::check(d.flip().flip() == d, "flipping a direction twice is the identity");
    sym::check(d.flip() != d, "flipping changes the direction");
    sym::check(d.is_output() != d.is_input(), "a direction is either an input or an output");
    sym::check(d.is_output() == d.flip().is_input(), "opposite edges are an output and an input");
    // the left and right neighbours of a cell in an even column are shifted up, in an odd column down
    let o = d.as_offs(x);
    let exp = match e { 0 => (1, if x % 2 == 0 { -1 } else { 0 }), 1 => (1, if x % 2 == 0 { 0 } else { 1 }), 2 => (0, 1), 3 => (-1, if x % 2 == 0 { 0 } else { 1 }), 4 => (-1, if x % 2 == 0 { -1 } else { 0 }), _ => (0, -1) };
    let p = (x, y);
    let want = (x as i64 + exp.0 as i64, y as i64 + exp.1 as i64);
    match d.offs_pos(p) {
        None => {
            sym::mark(2);
            sym::check(want.0 < 0 || want.1 < 0, "only border cells lack a neighbour, and only outside the grid");
        }
        Some(q) => {
            sym::mark(3);
            sym::check(q != p, "the neighbour is another cell");
            sym::check(want.0 >= 0 && want.1 >= 0 && q == (want.0 as usize, want.1 as usize), "the neighbour is the cell of the staggered layout, never one outside the grid");
            sym::check(d.flip().offs_pos(q) == Some(p), "going back over the opposite edge returns to the cell");
            sym::check(CellDir::are_adjacent(p, q) == Some(d), "adjacency reports the edge that was crossed");
            sym::check(CellDir::are_adjacent(q, p) == Some(d.flip()), "adjacency seen from the other cell is the opposite edge");
        }
    }
    sym::check(o == exp, "offsets follow the staggered hexagonal layout");
}

pub fn h_c01_distinct() {
    let max = sym::param("max", 1 << 24) as usize;
    let (e1, e2) = (sym::u8("e1"), sym::u8("e2"));
    sym::assume(e1 < 6 && e2 < 6 && e1 != e2);
    let p = (sym::range("x", 0, max), sym::range("y", 0, max));
    let (a, b) = (CellDir::from(e1).offs_pos(p), CellDir::from(e2).offs_pos(p));
    if a.is_some() && b.is_some() { sym::mark(1); sym::check(a != b, "different edges lead to different neighbours"); }
}

pub fn h_c01_adjacent() {
    let max = sym::param("max", 1 << 24) as usize;
    let a = (sym::range("ax", 0, max), sym::range("ay", 0, max));
    let b = (sym::range("bx", 0, max), sym::range("by", 0, max));
    let mut nb = false;
    for e in 0..6 { nb |= CellDir::from(e).offs_pos(a) == Some(b); }
    match CellDir::are_adjacent(a, b) {
        Some(d) => { sym::mark(1); sym::check(d != CellDir::C && d.offs_pos(a) == Some(b), "an adjacent cell is the neighbour over the reported edge"); }
        None => { sym::mark(2); sym::check(!nb, "every neighbour is reported as adjacent"); }
    }
}

pub fn h_c01_path() {
    let n = sym::param("n", 5) as usize;
    let a = (sym::range("ax", 0, n - 1), sym::range("ay", 0, n - 1));
    let b = (sym::range("bx", 0, n - 1), sym::range("by", 0, n - 1));
    let a = (sym::concretize(a.0), sym::concretize(a.1));
    let p = CellDir::path_from_to(a, b);
    let mut c = a;
    for d in p.iter() {
        match d.offs_pos(c) { Some(q) => c = q, None => sym::check(false, "the path stays on the grid") }
    }
    sym::check(c == b, "the path leads from the start to the destination");
    sym::check(p.len() <= 4 * n, "the path does not wander around");
}
