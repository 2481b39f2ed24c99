//! C22: the block code editor
use crate::sym;
use hexodsp::wblockdsp::*;
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Clone, PartialEq, Debug)]
struct B { area: usize, x: i64, y: i64, id: usize, rows: usize, typ: String, lbl: String, sub: [Option<usize>; 2], inp: Vec<Option<String>>, out: Vec<Option<String>> }
impl B {
    fn covers(&self, a: usize, x: i64, y: i64) -> bool { self.area == a && self.x == x && y >= self.y && y < self.y + self.rows as i64 }
}
type D = Vec<B>;

fn typ(name: &str, rows: usize, inp: &[Option<&str>], out: &[Option<&str>], areas: usize) -> BlockType {
    let f = |l: &[Option<&str>]| l.iter().map(|o| o.map(|s| s.to_string())).collect();
    BlockType { category: "x".to_string(), name: name.to_string(), rows, inputs: f(inp), outputs: f(out), area_count: areas, user_input: BlockUserInput::None, description: String::new(), color: rows }
}
const TYPES: [(&str, usize); 5] = [("s", 1), ("f", 1), ("+", 2), ("if", 1), ("w", 1)];
fn lang() -> Rc<RefCell<BlockLanguage>> {
    let mut l = BlockLanguage::new();
    l.define(typ("s", 1, &[], &[Some("o")], 0)); // source
    l.define(typ("f", 1, &[Some("i")], &[Some("o")], 0));
    l.define(typ("+", 2, &[Some("a"), Some("b")], &[Some("o")], 0));
    l.define(typ("if", 1, &[Some("c")], &[Some("o")], 2));
    l.define(typ("w", 1, &[Some("v")], &[], 0)); // sink
    Rc::new(RefCell::new(l))
}

/// everything the function consists of
fn dump(bf: &BlockFun) -> D {
    let v = bf.save_snapshot().serialize();
    let mut d = vec![];
    let strs = |v: &serde_json::Value| v.as_array().unwrap().iter().map(|s| s.as_str().map(|s| s.to_string())).collect::<Vec<_>>();
    for (a, area) in v["areas"].as_array().unwrap().iter().enumerate() {
        for b in area["blocks"].as_array().unwrap() {
            let k = &b["block"];
            let sub = |i: usize| k["contains"][i].as_u64().map(|i| i as usize);
            d.push(B { area: a, x: b["x"].as_i64().unwrap(), y: b["y"].as_i64().unwrap(), id: k["id"].as_i64().unwrap() as usize, rows: k["rows"].as_u64().unwrap() as usize, typ: k["typ"].as_str().unwrap().to_string(), lbl: k["lbl"].as_str().unwrap().to_string(), sub: [sub(0), sub(1)], inp: strs(&k["inputs"]), out: strs(&k["outputs"]) });
        }
    }
    d.sort_by(|a, b| (a.area, a.x, a.y).cmp(&(b.area, b.x, b.y)));
    d
}
fn at(d: &D, a: usize, x: i64, y: i64) -> Option<&B> { d.iter().find(|b| b.covers(a, x, y)) }
fn free(d: &D, a: usize, x: i64, y: i64, rows: usize) -> bool { (0..rows as i64).all(|r| at(d, a, x, y + r).is_none()) }
fn areas(d: &D) -> usize { 1 + d.iter().map(|b| b.sub.iter().flatten().count()).sum::<usize>() }
/// all areas inside a block
fn inside(d: &D, b: &B) -> Vec<usize> {
    let mut r: Vec<usize> = b.sub.iter().flatten().copied().collect();
    let mut i = 0;
    while i < r.len() { let a = r[i]; for c in d.iter().filter(|c| c.area == a) { r.extend(c.sub.iter().flatten()); } i += 1; }
    r
}
fn sorted(mut d: D) -> D { d.sort_by(|a, b| (a.area, a.x, a.y).cmp(&(b.area, b.x, b.y))); d }

/// blocks do not overlap, and are found wherever they are
fn sane(bf: &BlockFun, d: &D) {
    for (i, b) in d.iter().enumerate() {
        for c in &d[i + 1..] {
            sym::check(b.area != c.area || b.x != c.x || b.y + b.rows as i64 <= c.y || c.y + c.rows as i64 <= b.y, "blocks do not overlap");
            sym::check(b.id != c.id, "every block has an id of its own");
            sym::check(b.sub.iter().flatten().all(|s| c.sub.iter().flatten().all(|t| s != t)), "every sub area belongs to one block");
        }
        for s in b.sub.iter().flatten() { sym::check(*s > 0 && bf.area_size(*s) != (0, 0) && !inside(d, b).contains(&b.area), "sub areas exist, blocks are not inside of themselves"); }
        for r in 0..b.rows as i64 { sym::check(bf.origin_at(b.area, b.x, b.y + r) == Some((b.x, b.y)), "a block is found at all its rows"); }
        sym::check(bf.origin_at(b.area, b.x, b.y + b.rows as i64).map(|o| o != (b.x, b.y)).unwrap_or(true), "a block ends after its last row");
        let v = bf.block_at(b.area, b.x, b.y);
        sym::check(v.map(|v| v.rows() == b.rows && v.contains(0) == b.sub[0] && v.contains(1) == b.sub[1]).unwrap_or(false), "a block is at its place");
        if let Some(v) = v {
            let shown = |n: usize, buf: [u8; 3], want: &str, room: usize| if want.len() <= room { n == want.len() && &buf[..n] == want.as_bytes() } else { n <= room };
            for room in [0, 1, 3] {
                let mut buf = [0; 3];
                let n = v.label(&mut buf[..room]);
                sym::check(shown(n, buf, &b.lbl, room), "the label of a block is given if the buffer is long enough");
                let mut buf = [0; 3];
                let n = v.input_label(0, &mut buf[..room]);
                sym::check(shown(n, buf, b.inp.get(0).cloned().flatten().as_deref().unwrap_or(""), room), "the label of an input is given if the buffer is long enough");
                let mut buf = [0; 3];
                let n = v.output_label(0, &mut buf[..room]);
                sym::check(shown(n, buf, b.out.get(0).cloned().flatten().as_deref().unwrap_or(""), room), "the label of an output is given if the buffer is long enough");
            }
        }
        if let Some(v) = v { for r in 0..3 {
            sym::check(v.has_input(r) == b.inp.get(r).map(|p| p.is_some()).unwrap_or(false) && v.has_output(r) == b.out.get(r).map(|p| p.is_some()).unwrap_or(false), "a block has its ports");
        } }
    }
    for (x, y) in [(0, 0), (1, 1), (2, 2), (3, 0), (5, 0), (7, 7)] { sym::check(bf.block_ref(0, x, y).is_some() == at(d, 0, x, y).is_some() && (bf.origin_at(0, x, y).is_some() == at(d, 0, x, y).is_some()), "there are no blocks where none were placed"); }
}

/// two sources into an adder and a sink; a block with two areas, one of them with a block inside
fn base() -> BlockFun {
    let mut bf = BlockFun::new(lang());
    for (a, x, y, t) in [(0, 0, 0, "s"), (0, 0, 1, "s"), (0, 1, 0, "+"), (0, 2, 0, "w"), (0, 4, 1, "if"), (1, 0, 0, "f")] { sym::check(bf.instanciate_at(a, x, y, t, None).is_ok(), "a block can be placed on free space"); }
    bf
}
const SRC: [(usize, i64, i64); 7] = [(0, 0, 1), (0, 1, 1), (0, 4, 1), (1, 0, 0), (0, 3, 3), (7, 0, 0), (0, 2, 0)];
const DST: [(usize, i64, i64); 8] = [(0, 1, 2), (1, 0, 0), (2, 1, 0), (9, 0, 0), (0, 4, 0), (0, 1, 1), (1, 0, 1), (0, 0, 0)];

fn placed(bf: &mut BlockFun, d: &D, op: usize) -> (bool, D, bool) {
    let (a, x, y) = SRC[sym::choose("src", SRC.len())];
    let src = at(d, a, x, y).cloned();
    let maxid = d.iter().map(|b| b.id).max().unwrap_or(0);
    let mut e = d.clone();
    match op {
        0 => {
            let (t, rows) = TYPES[sym::choose("type", TYPES.len())];
            let lbl = if sym::choose("label", 2) == 1 { Some("xyz".to_string()) } else { None };
            let ok = a < 3 && free(d, a, x, y, rows);
            let r = bf.instanciate_at(a, x, y, t, lbl.clone());
            match &r {
                Err(BlockDSPError::UnknownArea(i)) => sym::check(*i == a && a >= 3, "an unknown area is reported"),
                Err(BlockDSPError::NoSpaceAvailable(i, j, k, n)) => sym::check((*i, *j, *k, *n) == (a, x, y, rows) && !ok, "missing space is reported"),
                Err(_) => sym::check(false, "the error says what is wrong"),
                Ok(()) => (),
            }
            let n = dump(bf);
            if ok {
                let b = n.iter().find(|b| b.area == a && b.x == x && b.y == y).cloned();
                sym::check(b.as_ref().map(|b| b.typ == t && b.id > maxid && b.rows == rows && b.lbl == lbl.clone().unwrap_or(t.to_string())).unwrap_or(false), "the block is placed where it should be, with a new id");
                if let Some(b) = b {
                    sym::check(b.sub.iter().flatten().count() == if t == "if" { 2 } else { 0 } && b.sub.iter().flatten().all(|s| d.iter().all(|o| o.area != *s && !o.sub.contains(&Some(*s)))), "a new block has new areas of its own");
                    e.push(b);
                }
            }
            (r.is_ok() == ok, sorted(e), ok)
        }
        1 => {
            let r = bf.remove_at(a, x, y);
            if let Err(BlockDSPError::UnknownArea(i)) = &r { sym::check(*i == a && a >= 3, "an unknown area is reported"); }
            e.retain(|b| Some(b) != src.as_ref());
            // what is inside the areas of a removed block is out of reach
            (r.is_ok() == src.is_some(), e, src.is_some())
        }
        2 | 3 => {
            let (a2, x2, y2) = DST[sym::choose("dst", DST.len())];
            let dy = src.as_ref().map(|s| y - s.y).unwrap_or(0);
            let y3 = if dy > 0 && y2 - dy < 0 { 0 } else { y2 - dy };
            let circular = op == 2 && src.as_ref().map(|s| inside(d, s).contains(&a2)).unwrap_or(false);
            let mut rest = d.clone();
            if op == 2 { rest.retain(|b| Some(b) != src.as_ref()); }
            let ok = src.is_some() && !circular && a2 < 3 && free(&rest, a2, x2, y3, src.as_ref().map(|s| s.rows).unwrap_or(0));
            let r = if op == 2 { bf.move_block_from_to(a, x, y, a2, x2, y2) } else { bf.clone_block_from_to(a, x, y, a2, x2, y2) };
            match &r {
                Err(BlockDSPError::CircularAction(i, j)) => sym::check(circular && (*i, *j) == (a, a2), "a circular move is reported"),
                Err(BlockDSPError::NoBlockAt(i, j, k)) => sym::check(src.is_none() && (*i, *j, *k) == (a, x, y), "a missing block is reported"),
                Err(BlockDSPError::UnknownArea(i)) => sym::check(*i >= 3 && (*i == a || *i == a2), "an unknown area is reported"),
                Err(BlockDSPError::NoSpaceAvailable(i, j, k, _)) => sym::check((*i, *j, *k) == (a2, x2, y3) && src.is_some() && a2 < 3, "missing space is reported"),
                Err(_) => sym::check(false, "the error says what is wrong"),
                Ok(()) => (),
            }
            if circular { sym::mark(3); }
            if ok {
                let s = src.unwrap();
                if op == 2 { rest.push(B { area: a2, x: x2, y: y3, ..s }); e = rest; }
                else {
                    let n = dump(bf);
                    let b = n.iter().find(|b| b.area == a2 && b.x == x2 && b.y == y3).cloned();
                    sym::check(b.as_ref().map(|b| b.id > maxid && B { area: s.area, x: s.x, y: s.y, id: s.id, sub: s.sub, ..b.clone() } == s).unwrap_or(false), "the copy is like the block, with a new id");
                    if let Some(b) = b {
                        sym::check(b.sub.iter().flatten().count() == s.sub.iter().flatten().count() && b.sub.iter().flatten().all(|t| d.iter().all(|o| o.area != *t && !o.sub.contains(&Some(*t)))), "the copy has new areas of its own");
                        e.push(b);
                    }
                }
            }
            (r.is_ok() == ok, sorted(e), ok)
        }
        _ => {
            let (row, output) = (sym::choose("row", 3), sym::choose("output", 2) == 1);
            bf.shift_port(a, x, y, row, output);
            if let Some(b) = e.iter_mut().find(|b| Some(&**b) == src.as_ref()) {
                if b.rows > 1 && row < b.rows {
                    let v = if output { &mut b.out } else { &mut b.inp };
                    while v.len() < b.rows { v.push(None); }
                    let t = v.remove(row);
                    v.insert((row + 1) % b.rows, t);
                    sym::mark(4);
                }
            }
            // a block without a second row has nothing to shift
            let n = dump(bf);
            let pad = |d: &D| d.iter().map(|b| { let mut b = b.clone(); b.inp.resize(3, None); b.out.resize(3, None); b }).collect::<D>();
            (pad(&n) == pad(&e), n, src.is_some())
        }
    }
}

/// any edit of single blocks after any other
pub fn h_c22_edit() {
    let mut bf = base();
    let k = sym::param("k", 1) as usize;
    let mut d = dump(&bf);
    sane(&bf, &d);
    // history: nothing, a block added, moved, removed, copied
    match sym::choose("before", 5) {
        1 => { let _ = bf.instanciate_at(2, 1, 0, "if", None); }
        2 => { let _ = bf.move_block_from_to(0, 4, 1, 0, 1, 2); }
        3 => { let _ = bf.remove_at(0, 1, 0); }
        4 => { let _ = bf.clone_block_from_to(0, 4, 1, 0, 4, 0); }
        _ => (),
    }
    d = dump(&bf);
    sane(&bf, &d);
    // areas 0 to 2 exist in any case, the others only in some of the histories
    if areas(&d) > 3 { sym::mark(5); }
    for _ in 0..k {
        let gen = bf.generation();
        let op = sym::choose("op", 5);
        let (ok, e, changed) = placed(&mut bf, &d, op);
        sym::check(ok, "an edit succeeds exactly if it is possible");
        let n = dump(&bf);
        sym::check(n == e, "an edit changes what it should and a failed one nothing");
        sym::check(!changed || bf.generation() > gen, "a change is announced");
        sane(&bf, &n);
        if changed { sym::mark(1); } else { sym::mark(2); }
        d = n;
    }
}

/// blocks connected from one column to the next
fn chain(d: &D, s: &B) -> Vec<usize> {
    let mut r = vec![s.id];
    let mut i = 0;
    while i < r.len() {
        let b = d.iter().find(|b| b.id == r[i]).unwrap();
        for c in d.iter().filter(|c| c.area == b.area) {
            let con = |l: &B, rr: &B| l.x + 1 == rr.x && (0..l.rows).any(|k| l.out.get(k).cloned().flatten().is_some() && { let j = l.y + k as i64 - rr.y; j >= 0 && rr.inp.get(j as usize).cloned().flatten().is_some() });
            if (con(b, c) || con(c, b)) && !r.contains(&c.id) { r.push(c.id); }
        }
        i += 1;
    }
    r
}

/// moving and splitting chains of connected blocks
pub fn h_c22_chain() {
    let mut bf = base();
    // something in the way or a longer chain
    match sym::choose("more", 5) {
        1 => { sym::check(bf.instanciate_at(0, 3, 0, "f", None).is_ok(), "a block can be placed on free space"); }
        2 => { sym::check(bf.instanciate_at(0, 1, 2, "f", None).is_ok() && bf.instanciate_at(0, 0, 2, "s", None).is_ok(), "a block can be placed on free space"); }
        3 => { sym::check(bf.instanciate_at(0, 1, 3, "if", None).is_ok() && bf.instanciate_at(0, 0, 3, "s", None).is_ok() && bf.instanciate_at(3, 0, 0, "+", None).is_ok(), "a block can be placed on free space"); }
        4 => { sym::check(bf.instanciate_at(0, 3, 1, "f", None).is_ok() && bf.instanciate_at(0, 5, 1, "+", None).is_ok(), "a block can be placed on free space"); }
        _ => (),
    }
    let d = dump(&bf);
    sane(&bf, &d);
    let (a, x, y) = [(0, 0, 1), (0, 1, 1), (0, 4, 1), (0, 1, 3), (1, 0, 0), (0, 6, 6), (8, 0, 0)][sym::choose("src", 7)];
    let src = at(&d, a, x, y).cloned();
    let ch = src.as_ref().map(|s| chain(&d, s)).unwrap_or(vec![]);
    let mine = |b: &&B| ch.contains(&b.id);
    if sym::choose("split", 2) == 1 {
        let fill = [None, Some("f"), Some("nix")][sym::choose("fill", 3)];
        let r = bf.split_block_chain_after(a, x, y, fill);
        let n = dump(&bf);
        sane(&bf, &n);
        if src.is_none() || fill == Some("nix") { sym::check(r.is_err(), "a split of nothing or with an unknown filler fails"); }
        if r.is_err() { sym::check(n == d, "a failed split changes nothing"); sym::mark(2); }
        else {
            for b in d.iter() {
                let nx = if mine(&b) && b.x > x { b.x + 1 } else { b.x };
                sym::check(n.contains(&B { x: nx, ..b.clone() }), "a split moves what comes after by one");
            }
            let new: Vec<&B> = n.iter().filter(|b| d.iter().all(|o| o.id != b.id)).collect();
            // the connections over the split, except for the one in the row of the split
            let mut want = vec![];
            for b in d.iter().filter(mine).filter(|b| b.x == x + 1) { for (i, p) in b.inp.iter().enumerate() {
                let yy = b.y + i as i64;
                let from = at(&d, a, x, yy).filter(|l| ch.contains(&l.id)).and_then(|l| l.out.get((yy - l.y) as usize).cloned().flatten());
                if p.is_some() && from.is_some() && yy != y { want.push(yy); }
            } }
            if fill.is_none() { want.clear(); }
            sym::check(new.len() == want.len() && new.iter().all(|b| b.area == a && b.x == x + 1 && b.typ == "f" && want.contains(&b.y)), "the connections over the split are kept by fillers");
            sym::mark(1);
        }
    } else {
        let (a2, x2, y2) = [(0, 0, 1), (0, 1, 0), (0, 5, 5), (1, 0, 1), (2, 1, 1), (9, 0, 0), (0, 0, 3)][sym::choose("dst", 7)];
        let circular = d.iter().filter(mine).any(|b| inside(&d, b).contains(&a2));
        let r = bf.move_block_chain_from_to(a, x, y, a2, x2, y2);
        let n = dump(&bf);
        sane(&bf, &n);
        if src.is_none() || circular || a2 == 9 { sym::check(r.is_err(), "a chain that does not exist can not be moved, and none into itself or nowhere"); }
        if circular { sym::mark(3); }
        if r.is_err() {
            sym::check(n == d, "a failed move changes nothing");
            // there was no space: not where it was dropped, nor close to it
            if src.is_some() && !circular && a2 < 3 { sym::check(d.iter().any(|b| b.area == a2 && !mine(&b)), "a move into an empty area succeeds"); }
            sym::mark(4);
        } else {
            sym::check(n.len() == d.len(), "a move keeps the number of blocks");
            let mut offs: Option<(i64, i64)> = None;
            for b in d.iter() {
                let m = n.iter().find(|o| o.id == b.id);
                sym::check(m.is_some(), "a move keeps all blocks");
                if let Some(m) = m {
                    if mine(&b) {
                        let o = (m.x - b.x, m.y - b.y);
                        sym::check(m.area == a2 && offs.map(|p| p == o).unwrap_or(true), "a chain moves as a whole");
                        offs = Some(o);
                        sym::check(B { area: b.area, x: b.x, y: b.y, ..m.clone() } == *b, "a moved block stays the same");
                    } else { sym::check(m == b, "other blocks stay where they are"); }
                }
            }
            // dropped where there is space: exactly there
            let (mut dx, mut dy) = (x2 - x, y2 - y);
            if a != a2 {
                let (mx, my) = (d.iter().filter(mine).map(|b| b.x).min().unwrap(), d.iter().filter(mine).map(|b| b.y).min().unwrap());
                if mx + dx < 0 { dx = -mx; }
                if my + dy < 0 { dy = -my; }
            }
            let rest: D = d.iter().filter(|b| !mine(b)).cloned().collect();
            if d.iter().filter(mine).all(|b| free(&rest, a2, b.x + dx, b.y + dy, b.rows)) { sym::check(offs == Some((dx, dy)), "a chain is placed where it is dropped if there is space"); sym::mark(5); }
        }
    }
}

#[derive(Clone, Debug)]
struct Ast(Rc<RefCell<(usize, String, Vec<(String, String, Ast)>)>>);
impl BlockASTNode for Ast {
    fn from(id: usize, typ: &str, _lbl: &str) -> Self { Ast(Rc::new(RefCell::new((id, typ.to_string(), vec![])))) }
    fn add_node(&self, i: String, o: String, n: Self) { self.0.borrow_mut().2.push((i, o, n)); }
}
fn walk(n: &Ast, seen: &mut Vec<(usize, Vec<(String, String, usize, String)>, usize)>) {
    let b = n.0.borrow();
    if b.0 != 0 {
        if seen.iter().any(|s| s.0 == b.0) { return; }
        let e = b.2.iter().filter(|c| c.2 .0.borrow().1 != "<a>").map(|c| { let k = c.2 .0.borrow(); (c.0.clone(), c.1.clone(), k.0, k.1.clone()) }).collect();
        seen.push((b.0, e, b.2.iter().filter(|c| c.2 .0.borrow().1 == "<a>").count()));
    }
    for c in &b.2 { walk(&c.2, seen); }
}

fn layouts(bf: &mut BlockFun) {
    // sources, a block in the middle with its ports shifted, what follows
    for y in 0..2 { if sym::choose("src", 2) == 1 { let _ = bf.instanciate_at(0, 0, y, "s", None); } }
    let (t, y) = (["+", "f", "if"][sym::choose("mid", 3)], sym::choose("y", 2) as i64);
    let _ = bf.instanciate_at(0, 1, y, t, None);
    if t == "+" { for _ in 0..sym::choose("shift", 3) { bf.shift_port(0, 1, y, 0, sym::choose("which", 2) == 1); } }
    if t == "if" { match sym::choose("sub", 3) { 1 => { let _ = bf.instanciate_at(1, 0, 0, "w", None); } 2 => { let _ = bf.instanciate_at(2, 1, 1, "f", None); let _ = bf.instanciate_at(2, 2, 1, "w", Some("lbl".to_string())); } _ => () } }
    match sym::choose("end", 4) { 1 => { let _ = bf.instanciate_at(0, 2, 0, "w", None); } 2 => { let _ = bf.instanciate_at(0, 2, 1, "+", None); } 3 => { let _ = bf.instanciate_at(0, 2, 0, "f", None); let _ = bf.instanciate_at(0, 2, 1, "w", None); } _ => () }
}

/// the syntax tree has exactly the connections of the layout
pub fn h_c22_tree() {
    let mut bf = BlockFun::new(lang());
    layouts(&mut bf);
    let d = dump(&bf);
    sane(&bf, &d);
    sym::check(bf.generate_tree::<Ast>("nix").is_err(), "an unknown filler is an error");
    let t = bf.generate_tree::<Ast>("s");
    sym::check(t.is_ok(), "a tree is generated");
    let mut seen = vec![];
    if let Ok(t) = &t { walk(t, &mut seen); }
    sym::check(seen.len() == d.len(), "every block is in the tree");
    for b in d.iter() {
        let n = seen.iter().find(|s| s.0 == b.id);
        sym::check(n.is_some(), "every block is in the tree");
        if let Some((_, e, subs)) = n {
            let mut want = vec![];
            for (r, p) in b.inp.iter().enumerate() { if let Some(p) = p {
                let y = b.y + r as i64;
                let s = at(&d, b.area, b.x - 1, y).and_then(|s| s.out.get((y - s.y) as usize).cloned().flatten().map(|o| (p.clone(), o, s.id, s.typ.clone())));
                if s.is_some() { sym::mark(2); }
                want.push(s.unwrap_or((p.clone(), "".to_string(), 0, "s".to_string())));
            } }
            sym::check(*e == want, "every input gets the output next to it or the filler");
            sym::check(*subs == b.sub.iter().flatten().count(), "the sub areas of a block are in the tree");
        }
    }
    sym::mark(1);
    std::mem::forget(t);
}

/// saved and loaded again everything is as before, and what is added later gets new ids
pub fn h_c22_save() {
    let mut bf = BlockFun::new(lang());
    layouts(&mut bf);
    let d = dump(&bf);
    let s = bf.save_snapshot();
    let text = s.serialize().to_string();
    let v: serde_json::Value = serde_json::from_str(&text).unwrap();
    let s = BlockFunSnapshot::deserialize(&v);
    sym::check(s.is_ok(), "a saved function can be read");
    let mut bf2 = BlockFun::new(lang());
    if sym::choose("used", 2) == 1 { let _ = bf2.instanciate_at(0, 5, 5, "if", None); }
    let g = bf2.generation();
    if let Ok(s) = s { bf2.load_snapshot(&s); }
    let n = dump(&bf2);
    sym::check(n == d && bf2.generation() > g && !bf2.is_unset(), "a loaded function is the saved one");
    sane(&bf2, &n);
    for a in 0..3 { sym::check(bf2.area_size(a).0 >= bf.area_size(a).0.min(1), "areas are kept"); }
    sym::check(bf2.instanciate_at(0, 7, 0, "if", None).is_ok(), "a block can be placed on free space");
    sane(&bf2, &dump(&bf2));
    sym::mark(1);
}

/// a function made of a loaded snapshot can be used (for C07)
pub fn loaded(r: &BlockFunSnapshot) {
    let mut bf = BlockFun::new(lang());
    bf.load_snapshot(r);
    let d = dump(&bf);
    for b in &d {
        sym::check(b.rows <= 256, "a loaded block has a reasonable number of rows");
        for s in b.sub.iter().flatten() { sym::check(*s > 0 && bf.area_size(*s) != (0, 0), "sub areas of loaded blocks exist"); }
        let _ = inside(&d, b);
    }
    for (i, b) in d.iter().enumerate() { for c in &d[i + 1..] { sym::check(b.sub.iter().flatten().all(|s| c.sub.iter().flatten().all(|t| s != t)), "every sub area of loaded blocks belongs to one block"); } }
    let _ = bf.generate_tree::<Ast>("s");
    let _ = bf.instanciate_at(0, 5, 1, "if", None);
    let _ = bf.move_block_from_to(0, 0, 0, 1, 1, 0);
    let _ = bf.clone_block_from_to(0, 2, 0, 0, 3, 3);
    bf.recalculate_area_sizes();
    let _ = bf.remove_at(0, 0, 0);
    let _ = bf.save_snapshot().serialize();
}
