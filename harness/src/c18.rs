//! C18: saving a patch file is all or nothing
use crate::c04::*;
use crate::sym;
use hexodsp::matrix_repr::MatrixRepr;
use hexodsp::*;

/// a patch of its own for each k, of different sizes
fn patch(k: i64) -> MatrixRepr {
    let mut r = MatrixRepr::empty();
    r.properties.push(("id".to_string(), SAtom::setting(k)));
    let long = ["", "some longer text that makes the file bigger than the others", "short"][k as usize % 3];
    r.properties.push(("text".to_string(), SAtom::str(long)));
    r.params.push((NodeId::Amp(0).inp_param("att").unwrap(), [0.25, 0.5, 1.0][k as usize % 3], None));
    r
}
/// which patch a file holds, if it holds one completely
fn which(path: &str) -> Option<i64> {
    let mut r = MatrixRepr::read_from_file(path).ok()?;
    let id = r.properties.iter().find(|p| p.0 == "id").map(|p| p.1.i())?;
    if !(0..3).contains(&id) { return None; }
    if r.serialize() == patch(id).serialize() { Some(id) } else { None }
}

/// a crash at any operation on files (anywhere in a write), then saving again
pub fn h_c18_crash() {
    let path = sym::path("p.hxy");
    let had = sym::bool("file exists") ;
    if had { sym::check(patch(0).write_to_file(&path).is_ok() && which(&path) == Some(0), "a saved patch file loads"); }
    let new = 1 + sym::choose("new", 2) as i64;
    sym::fs(1, sym::choose("operation", sym::param("ops", 8) as usize), sym::choose("part", 9));
    let res = patch(new).write_to_file(&path);
    if sym::crash() {
        sym::mark(1);
        let w = which(&path);
        sym::check(w == Some(new) || (had && w == Some(0)) || (!had && w.is_none() && std::fs::read(&path).is_err()), "after a crash the file holds the old or the new patch completely");
    } else {
        sym::mark(3);
        sym::check(res.is_ok() && which(&path) == Some(new), "a saved patch file holds the new patch");
    }
    // whatever the crash left behind does not get into what is saved next
    let next = 3 - new;
    sym::check(patch(next).write_to_file(&path).is_ok() && which(&path) == Some(next), "saving after a crash gives the new patch");
}

/// an operation on files that fails (disk full), or a short write
pub fn h_c18_fail() {
    let path = sym::path("p.hxy");
    let had = sym::bool("file exists");
    if had { sym::check(patch(0).write_to_file(&path).is_ok(), "saving works"); }
    let new = 1 + sym::choose("new", 2) as i64;
    let kind = 2 + sym::choose("kind", 3);
    sym::fs(kind, sym::choose("operation", sym::param("ops", 8) as usize), sym::choose("part", 8));
    let res = patch(new).write_to_file(&path);
    let hit = sym::crash();
    let w = which(&path);
    if kind == 4 { sym::check(res.is_ok(), "a short write is not an error"); if hit { sym::mark(2); } }
    if !hit { sym::check(res.is_ok(), "saving works if nothing fails"); }
    match res {
        Ok(_) => sym::check(w == Some(new), "saving reports success only if the file holds the new patch"),
        Err(_) => { sym::mark(1); sym::check(w == Some(new) || (had && w == Some(0)) || (!had && std::fs::read(&path).is_err()), "if saving fails the old patch file is intact"); }
    }
    let next = 3 - new;
    sym::check(patch(next).write_to_file(&path).is_ok() && which(&path) == Some(next), "saving after a failure gives the new patch");
}

/// a whole matrix through a file; unreadable files leave the running patch alone
pub fn h_c18_load() {
    let mut m = matrix(2, 2, 44100.0);
    let p = NodeId::Amp(0).inp_param("inp").unwrap();
    m.m.place(0, 0, Cell::empty(NodeId::Amp(0)).out(None, None, Some(0)));
    m.m.set_param(p, SAtom::param(0.25));
    m.m.sync().unwrap();
    let path = sym::path("m.hxy");
    match sym::choose("what", 4) {
        0 => {
            let mut b = [0u8; 2];
            sym::bytes(&mut b, "old file");
            sym::assume(!matches!(b[0], b'0'..=b'9' | b'-' | b'"' | b'[' | b'{' | b' ' | 9..=13)); // no JSON value
            sym::file("m.hxy", &b);
            sym::check(matrix_repr::load_patch_from_file(&mut m.m, &path).is_err(), "what is not a patch is refused");
            sym::mark(1);
        }
        1 => { sym::check(matrix_repr::load_patch_from_file(&mut m.m, &path).is_err(), "a missing file is reported"); sym::mark(2); }
        2 => { // a patch file cut off
            let t = patch(1).write_to_mem();
            let n = sym::choose("cut", t.len() - 2);
            sym::file("m.hxy", &t[..n]);
            sym::check(matrix_repr::load_patch_from_file(&mut m.m, &path).is_err(), "a patch cut off is refused");
            sym::mark(3);
        }
        _ => {
            sym::file("m.hxy", b"something else that was in the file before");
            sym::check(matrix_repr::save_patch_to_file(&mut m.m, &path).is_ok(), "saving works");
            m.m.place(0, 0, Cell::empty(NodeId::Nop));
            m.m.place(1, 1, Cell::empty(NodeId::Sin(1)));
            m.m.set_param(p, SAtom::param(0.75));
            sym::check(matrix_repr::load_patch_from_file(&mut m.m, &path).is_ok(), "a saved patch loads");
            sym::check(m.m.get(1, 1).unwrap().is_empty(), "loading replaces the patch");
            sym::mark(4);
        }
    }
    sym::check(m.m.get(0, 0).unwrap().node_id() == NodeId::Amp(0) && m.m.get(0, 0).unwrap().local_port_idx(CellDir::B) == Some(0), "a failed load leaves the cells alone, a saved patch has them");
    sym::check(matches!(m.m.get_param(&p), Some(SAtom::Param(v)) if (v - 0.25).abs() < 0.0001), "a failed load leaves the parameters alone, a saved patch has them");
    forget(m);
}
