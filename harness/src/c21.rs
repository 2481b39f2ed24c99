//! C21: the pattern editor
use crate::sym;
use hexodsp::dsp::tracker::{PatternData, UIPatternModel};

const COLS: usize = 6;
const MAX: usize = 256;
const ROWS: [usize; 5] = [0, 1, 255, 256, usize::MAX];
const CS: [usize; 4] = [0, 5, 6, usize::MAX];

struct Model { cell: [[Option<u16>; 2]; 3], typ: [usize; 2], rows: usize, cur: (usize, usize), step: usize }
impl Model {
    fn new(rows: usize) -> Model { Model { cell: [[None; 2]; 3], typ: [0; 2], rows, cur: (2, 2), step: 4 } }
    fn get(&self, r: usize, c: usize) -> Option<u16> { if r < 3 && c < 2 { self.cell[r][c] } else { None } }
}

/// any history of `k` edits by the pattern editor, any values
pub fn h_c21_edit() {
    let k = sym::param("k", 2) as usize;
    let mut p = PatternData::new(MAX);
    let mut m = Model::new(MAX);
    let mut text = sym::choose("text", 2) == 1; // has the text been looked at in between?
    for _ in 0..k {
        let gen = p.get_generation();
        let op = sym::choose("op", 8);
        let (r, c) = if op < 3 { (sym::choose("row", ROWS.len()), sym::choose("col", if op == 2 { 3 } else { 4 })) } else { (0, 0) };
        let inside = r < 3 && c < 2;
        let mut changed = true;
        if text && op < 3 { p.get_cell(ROWS[r], CS[c]); }
        match op {
            0 => { let v = sym::u16("v"); p.set_cell_value(ROWS[r], CS[c], v); if inside { m.cell[r][c] = Some(v); } changed = inside; }
            1 => { p.clear_cell(ROWS[r], CS[c]); if inside { m.cell[r][c] = None; } changed = inside; }
            2 => {
                let o = sym::u16("offs") as i16;
                (&mut p as &mut dyn UIPatternModel).change_value(ROWS[r], CS[c], o);
                if inside { m.cell[r][c] = Some((m.get(r, c).unwrap_or(0) as i64 + o as i64).max(0).min(0xFFF) as u16); }
                changed = inside;
                sym::mark(2);
            }
            3 => { let n = sym::usize("rows"); p.set_rows(n); m.rows = if n > MAX { MAX } else { n }; }
            4 => {
                let (c, t) = (sym::choose("col", 4), sym::choose("type", 4));
                match t { 0 => p.set_col_value_type(CS[c]), 1 => p.set_col_note_type(CS[c]), 2 => p.set_col_step_type(CS[c]), _ => p.set_col_gate_type(CS[c]) }
                if c < 2 { m.typ[c] = t; }
                changed = c < 2;
            }
            5 => { m.cur = (sym::usize("crow"), sym::usize("ccol")); p.set_cursor(m.cur.0, m.cur.1); }
            6 => { m.step = sym::usize("step"); p.set_edit_step(m.step); }
            _ => { p.clear(); m = Model::new(MAX); text = false; }
        }
        sym::check(!changed || p.get_generation() > gen, "a change is announced");
        for r in 0..ROWS.len() { for c in 0..CS.len() { sym::check(p.get_cell_value(ROWS[r], CS[c]) == m.get(r, c).unwrap_or(0), "a cell has its last value, cells outside none"); } }
        sym::check(p.get_cell_value(7, 3) == 0 && p.get_cell(7, 3).is_none(), "other cells are left alone");
        for c in 0..CS.len() {
            let t = if c < 2 { m.typ[c] } else { 0 };
            sym::check(p.is_col_note(CS[c]) == (t == 1) && p.is_col_step(CS[c]) == (t == 2) && p.is_col_gate(CS[c]) == (t == 3), "a column has its last type");
        }
        sym::check(!p.is_col_note(3) && !p.is_col_step(3) && !p.is_col_gate(3), "other columns are left alone");
        sym::check(p.rows() == m.rows && p.cols() == COLS, "the pattern has its length and columns");
        sym::check(p.get_cursor() == m.cur && p.get_edit_step() == m.step, "cursor and edit step");
        sym::check(p.is_unset() == (m.typ == [0; 2] && m.cell == [[None; 2]; 3]), "an untouched pattern is recognised");
    }
    sym::mark(1);
}

/// the text of a cell follows its value, whatever was shown before
pub fn h_c21_text() {
    const V: [(u16, &str); 7] = [(0, "000"), (5, "005"), (0x1A, "01a"), (0xFFF, "fff"), (0xABC, "abc"), (0x100, "100"), (0x1234, "1234")];
    let mut p = PatternData::new(MAX);
    let (r, c) = ([0, 77, 255][sym::choose("row", 3)], [0, 3, 5][sym::choose("col", 3)]);
    let mut cur: Option<usize> = None;
    for _ in 0..sym::param("k", 2) {
        match sym::choose("op", 4) {
            0 => { let i = sym::choose("v", V.len()); p.set_cell_value(r, c, V[i].0); cur = Some(i); }
            1 => { p.clear_cell(r, c); cur = None; }
            2 => { p.clear(); cur = None; }
            _ => {
                // load another pattern over it
                let mut q = PatternData::new(MAX);
                let i = sym::choose("v", 3);
                if i < 2 { q.set_cell_value(r, c, V[3 + i].0); cur = Some(3 + i); } else { cur = None; }
                p.from_repr(&q.to_repr());
            }
        }
        if sym::choose("look", 2) == 1 { sym::check(p.get_cell(r, c) == cur.map(|i| V[i].1), "the text shows the value of the cell"); sym::mark(2); }
    }
    sym::check(p.get_cell(r, c) == cur.map(|i| V[i].1), "the text shows the value of the cell");
    sym::check(p.get_cell(256, c).is_none() && p.get_cell(r, 6).is_none(), "there is no text outside");
    sym::mark(1);
}
