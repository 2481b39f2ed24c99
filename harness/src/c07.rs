//! C07: loading patches nobody checked
use crate::c04::*;
use crate::env::*;
use crate::sym;
use hexodsp::dsp::tracker::UIPatternModel;
use hexodsp::matrix_repr::{CellRepr, MatrixRepr, PatternRepr};
use hexodsp::*;

/// load, play, look at it, save it again: none of it may panic
fn survive(m: &mut M, r: &MatrixRepr) {
    let ok = m.m.from_repr(r).is_ok();
    if ok { sym::mark(1); } else { sym::mark(2); }
    callback(&mut m.ne, 2);
    callback(&mut m.ne, 1);
    let (w, h) = m.m.size();
    for x in 0..w { for y in 0..h {
        let _ = m.m.get_connections(x, y);
        let c = m.m.get_copy(x, y).unwrap();
        sym::check(c.pos() == (x, y), "a cell knows its position");
        if c.node_id() != NodeId::Nop { let _ = m.m.led_value_for(&c.node_id()); }
    } }
    for t in 0..2 { let p = m.m.get_pattern_data(t).unwrap(); let mut p = p.lock().unwrap(); sym::check(p.rows() <= 256, "a pattern has at most 256 rows"); let r = p.rows(); if r > 0 { let _ = p.get_cell_value(r - 1, 5); } }
    m.m.update_output_feedback();
    let _ = m.m.to_repr();
    callback(&mut m.ne, 2);
}

fn cell(id: NodeId, x: usize, y: usize) -> CellRepr { CellRepr { node_id: id, x, y, inp: [-1; 3], out: [-1; 3] } }

/// any position and ports of a cell
pub fn h_c07_cell() {
    let mut m = matrix(W, H, 200.0);
    let mut r = MatrixRepr::empty();
    let mut c = cell(NodeId::Amp(sym::choose("inst", 3) as u8), sym::usize("x"), sym::usize("y"));
    let anyport = sym::choose("anyport", 3);
    if anyport == 1 { c.inp[1] = sym::u16("in") as i16; } else { c.inp[1] = 0; }
    if anyport == 2 { c.out[1] = sym::u16("out") as i16; } else { c.out[1] = 0; }
    let mut a = cell(NodeId::Amp(1), 0, 0); a.out = [0, 0, 0];
    let mut o = cell(NodeId::Out(0), 1, 1); o.inp = [0, 1, 2];
    r.cells = vec![a, c, o];
    survive(&mut m, &r);
    for x in 0..W { for y in 0..H {
        let id = m.m.get(x, y).unwrap().node_id();
        let want = if (x, y) == (1, 1) { NodeId::Out(0) } else if c.x == x && c.y == y { sym::mark(3); c.node_id } else if (x, y) == (0, 0) { NodeId::Amp(1) } else { NodeId::Nop };
        sym::check(id == want, "cells appear where the patch has them and nowhere else");
        if (x, y) == (c.x, c.y) && want == c.node_id && id == c.node_id {
            let k = m.m.get(x, y).unwrap();
            let p = k.local_port_idx(CellDir::TL);
            sym::check(p.is_none() || p.map(|v| v as i16) == Some(c.inp[1]), "a port is the one in the patch or none");
            let p = k.local_port_idx(CellDir::BR);
            sym::check(p.is_none() || p.map(|v| v as i16) == Some(c.out[1]), "a port is the one in the patch or none");
        }
    } }
    forget(m);
}

/// any pattern
pub fn h_c07_pattern() {
    let mut m = matrix(W, H, 200.0);
    let mut r = MatrixRepr::empty();
    let k = sym::choose("npat", 2);
    let mut t = cell(NodeId::TSeq(0), 0, 0); t.out = [0, 1, 2];
    let mut o = cell(NodeId::Out(0), 0, 1); o.inp = [0, -1, -1];
    r.cells = vec![t, o];
    let nrows = [1, 0, 256, 257, 300][sym::choose("nrows", 5)];
    let ncols = if nrows == 0 { 0 } else { [6, 1, 7, 0][sym::choose("ncols", 4)] };
    let mut p = PatternRepr { col_types: [0; 6], data: vec![vec![-1; ncols]; nrows], rows: 0, edit_step: sym::usize("es"), cursor: (sym::usize("cr"), sym::usize("cc")) };
    p.rows = match sym::choose("rsel", 4) { 0 => 0, 1 => 3, 2 => 256, _ => { let r = sym::usize("rows"); sym::assume(r > 256); r } };
    p.col_types[0] = sym::u8("ct");
    if nrows > 0 && ncols > 0 { p.data[nrows - 1][ncols - 1] = sym::i32("v"); }
    for _ in 0..k { r.patterns.push(None); }
    r.patterns.push(Some(p));
    survive(&mut m, &r);
    forget(m);
}

const T: &str = r#"{"VERSION":2,"cells":[["tseq",0,0,0,[-1,"clock",-1],["trk1",-1,-1]],["out",0,0,1,["ch1",-1,-1],[-1,-1,-1]]],"params":[["amp",0,"inp",0.5,0.1],["out",0,"vol",0.5,null]],"atoms":[["amp",0,"neg_att",["i",1]],["test",0,"p",["p",0.5]]],"props":[["a",["s","x"]],["b",["ms",0.5,1]]],"patterns":[null,{"col_types":[3,1],"rows":4,"edit_step":2,"cursor_row":1,"cursor_col":2,"data":[[1,-1],[],[2]]}],"block_funs":[null]}"#;

/// a valid patch with any one byte replaced by any other
pub fn h_c07_byte() {
    let mut t = T.as_bytes().to_vec();
    let (a, n) = (sym::param("from", 0) as usize, sym::param("n", 40) as usize);
    let pos = (a + sym::choose("pos", n) * sym::param("step", 1) as usize) % t.len();
    t[pos] = sym::u8("byte");
    let r = MatrixRepr::read_from_mem(&t);
    if let Ok(r) = r {
        sym::mark(3);
        let mut m = matrix(W, H, 200.0);
        survive(&mut m, &r);
        forget(m);
    } else { sym::mark(4); }
}

/// numbers with any digits at the places of numbers
pub fn h_c07_num() {
    const F: [&str; 12] = [
        r#"{"cells":[["amp",#,0,0,[-1,-1,-1],[-1,-1,-1]]]}"#, r#"{"cells":[["amp",0,#,0,[-1,-1,-1],[-1,-1,-1]]]}"#, r#"{"cells":[["amp",0,0,#,[-1,-1,-1],[-1,-1,-1]]]}"#,
        r#"{"cells":[["amp",0,0,0,[-1,-1,-1],[0,0,0]],["out",0,0,1,[#,-1,-1],[-1,-1,-1]]]}"#, r#"{"cells":[["amp",0,0,0,[-1,-1,-1],[-1,-1,#]],["out",0,0,1,[0,-1,-1],[-1,-1,-1]]]}"#,
        r#"{"patterns":[{"rows":#}]}"#, r#"{"patterns":[{"edit_step":#,"rows":3}]}"#, r#"{"patterns":[{"cursor_row":#,"cursor_col":#}]}"#,
        r#"{"patterns":[{"col_types":[#,3],"rows":2}]}"#, r#"{"patterns":[{"rows":9,"data":[[#,#]]}]}"#, r#"{"VERSION":#}"#, r#"{"atoms":[["test",0,"p",["i",#]]],"cells":[["test",0,0,0,[-1,-1,-1],[-1,-1,-1]]]}"#,
    ];
    let f = F[sym::choose("f", F.len())];
    let neg = sym::choose("neg", 2) == 1;
    let len = if f.contains("amp\",#") { 1 } else { 1 + sym::choose("len", sym::param("len", 5) as usize) };
    let mut d = vec![];
    if neg { d.push(b'-'); }
    for i in 0..len { let b = sym::u8("d"); sym::assume(b >= b'0' && b <= b'9' && (i > 0 || b > b'0')); d.push(b); }
    let mut t = vec![];
    for b in f.bytes() { if b == b'#' { t.extend_from_slice(&d); } else { t.push(b); } }
    let r = MatrixRepr::read_from_mem(&t);
    if let Ok(r) = r {
        sym::mark(3);
        let mut m = matrix(W, H, 200.0);
        survive(&mut m, &r);
        forget(m);
    } else { sym::mark(4); }
}

/// another kind of value in place of each value of the patch
pub fn h_c07_kind() {
    // the starts of values: after [ : or ,
    let b = T.as_bytes();
    let mut starts = vec![];
    for i in 1..b.len() { if (b[i - 1] == b'[' || b[i - 1] == b':' || b[i - 1] == b',') && b[i] != b']' && !(b[i] == b'"' && T[i..].split('"').nth(2).map_or(false, |s| s.starts_with(':'))) { starts.push(i); } }
    // the value of block_funs has a harness of its own
    let bf = T.find("block_funs").unwrap();
    starts.retain(|i| *i < bf);
    let i = starts[sym::choose("at", starts.len())];
    // its end
    let (mut j, mut depth, mut instr) = (i, 0, false);
    loop {
        let c = b[j];
        if c == b'"' { instr = !instr; }
        if !instr { if c == b'[' || c == b'{' { depth += 1; } if depth == 0 && (c == b',' || c == b']' || c == b'}') { break; } if c == b']' || c == b'}' { depth -= 1; } }
        j += 1;
    }
    const K: [&str; 12] = ["null", "-7", "70000", "\"zz\"", "[]", "[[[0]],1,2,3,4,5,6,7,8]", "1e300", "\"out\"", "{}", "true", "[\"ms\"]", "[\"as\",\"/x.wav\"]"];
    let mut t = T[..i].to_string();
    t.push_str(K[sym::choose("kind", (sym::param("kinds", 12) as usize).min(K.len()))]);
    t.push_str(&T[j..]);
    match MatrixRepr::deserialize(&t) {
        Ok(r) => { sym::mark(3); let mut m = matrix(W, H, 200.0); survive(&mut m, &r); forget(m); }
        Err(_) => sym::mark(4),
    }
}

/// block functions with any sub area references, rows, positions, sizes and counters; without areas
pub fn h_c07_blockfun() {
    fn pick(n: &'static str, v: &[&'static str]) -> &'static str { v[sym::choose(n, v.len())] }
    const C: [&str; 7] = ["null", "0", "1", "2", "7", "-1", "9223372036854775807"];
    const I: [&str; 6] = ["0", "1", "-1", "3", "9223372036854775807", "-9223372036854775808"];
    let f = { let f = sym::choose("f", 6); if f == 3 { 6 } else { f } };
    let t = match f {
        0 => r#"{"block_funs":[{}]}"#.to_string(),
        1 => r#"{"block_funs":[{"areas":[]}, null, {"areas":[{}]}]}"#.to_string(),
        2 => {
            let (a, b, c, d) = (pick("a", &C), pick("b", &C), pick("c", &C[..4]), pick("d", &C[..4]));
            format!(r#"{{"block_funs":[{{"areas":[{{"blocks":[{{"x":0,"y":0,"block":{{"contains":[{},{}],"rows":1}}}},{{"x":2,"y":0,"block":{{"contains":[{},null],"rows":2}}}}],"size":[3,3]}},{{"blocks":[{{"x":0,"y":0,"block":{{"contains":[{},null],"rows":1}}}}],"size":[1,1]}},{{"blocks":[],"size":[1,1]}}]}}]}}"#, a, b, c, d)
        }
        6 => {
            let a = pick("a", &C);
            format!(r#"{{"block_funs":[{{"areas":[{{"blocks":[{{"x":0,"y":0,"block":{{"contains":[{},null],"rows":{}}}}}],"size":[3,3]}},{{"blocks":[],"size":[1,1]}}]}}]}}"#, a, a)
        }
        k => {
            let (a, b, c, s) = (pick("a", &I), pick("b", &I), pick("c", &I), if k == 5 { "true" } else { "false" });
            format!(r#"{{"block_funs":[{{"areas":[{{"auto_shrink":{},"blocks":[{{"x":{},"y":{},"block":{{"contains":[1,null],"rows":{},"id":{}}}}}],"size":[{},{}]}},{{"auto_shrink":false,"blocks":[],"size":[{},{}]}}],"current_block_id_counter":{}}}]}}"#, s, a, b, c, a, b, c, c, a, b)
        }
    };
    if let Ok(r) = MatrixRepr::deserialize(&t) {
        sym::mark(3);
        if r.block_funs.len() == 3 || f < 1 || f == 6 {
            let mut m = matrix(W, H, 200.0);
            survive(&mut m, &r);
            forget(m);
        } else if let Some(Some(r)) = r.block_funs.get(0) {
            crate::c22::loaded(r);
        }
    }
}
