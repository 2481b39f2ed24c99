//! C11: node and parameter descriptions are consistent
use crate::env::*;
use crate::sym;
use hexodsp::dsp::{NodeInfo, UICategory, ALL_NODE_IDS};
use hexodsp::*;

fn node() -> NodeId { ALL_NODE_IDS[sym::choose("node", ALL_NODE_IDS.len())] }

/// names, indices and ids of inputs, settings and outputs belong together, for any index and instance
pub fn h_c11_names() {
    let base = node();
    let inst = sym::u8("inst");
    let id = base.to_instance(inst as usize);
    let info = NodeInfo::from_node_id(id);
    let (ni, na, no) = (info.in_count(), info.at_count(), info.out_count());
    sym::check(id.instance() == inst as usize && id.eq_variant(&base) && base.eq_variant(&id), "to_instance keeps the type and sets the instance");
    sym::check(info.to_id() == id && id.to_instance(0) == base, "the description refers to the node");
    sym::check(NodeId::from_str(id.name()) == base, "a node is found by its name");
    sym::check(NodeInfo::from(id.name()).to_id() == base, "a node description is found by the node's name");
    sym::check(info.name() == id.label(), "label");
    for o in ALL_NODE_IDS.iter() { sym::check(o.eq_variant(&id) == (*o == base) && (o.name() == id.name()) == (*o == base), "node types are distinct"); }
    let mut found = 0;
    for c in [UICategory::Osc, UICategory::Signal, UICategory::NtoM, UICategory::Ctrl, UICategory::Mod, UICategory::IOUtil] { c.get_node_ids(0, |n| if n == base { found += 1; sym::check(c == id.ui_category(), "a node is listed in its category") }); }
    sym::check(found == 1, "a node is listed exactly once");
    let i = sym::usize("idx");
    let known = i < 32;
    let i = if known { sym::concretize(i) } else { i };
    let p = id.param_by_idx(i);
    sym::check(p.is_some() == (i < ni + na), "param_by_idx knows exactly the inputs and settings");
    sym::check(id.inp_param_by_idx(i).is_some() == (i < ni), "inp_param_by_idx knows exactly the inputs");
    sym::check(id.atom_param_by_idx(i).is_some() == (i < na), "atom_param_by_idx knows exactly the settings");
    if i < 256 {
        sym::check(id.inp_name_by_idx(i as u8).is_some() == (i < ni + na), "inp_name_by_idx knows exactly the inputs and settings");
        sym::check(id.out_name_by_idx(i as u8).is_some() == (i < no), "out_name_by_idx knows exactly the outputs");
    }
    if !known { sym::mark(4); return; }
    if let Some(p) = p {
        sym::mark(1);
        sym::check(p.node_id() == id && p.inp() as usize == i, "a parameter id refers to its node and index");
        sym::check(id.inp_name_by_idx(i as u8) == Some(p.name()), "names by index agree");
        sym::check(id.inp_param(p.name()) == Some(p), "a parameter is found by its name");
        sym::check(p.is_atom() == (i >= ni), "settings and inputs are told apart");
        if p.is_atom() {
            sym::mark(2);
            sym::check(id.inp(p.name()).is_none(), "a setting is no input port");
            sym::check(id.atom_param_by_idx(i - ni) == Some(p), "settings by index agree");
            sym::check(info.at_name(i - ni) == Some(p.name()) && info.in_name(i) == Some(p.name()), "settings by name agree");
            sym::check(p.param_steps().is_none(), "a setting has no steps");
            sym::check(p.atom_ui().is_some() && p.param_min_max().is_none(), "a setting has a kind");
            let (lo, hi) = p.setting_min_max().unwrap();
            for v in [0.0f32, 1.0, -1.0, 2.5, hi as f32, hi as f32 + 1.0, f32::NAN, f32::INFINITY, -1e30, 128.0] { let mut out = vec![]; sym::check(matches!(p.format(&mut out, v), Some(Ok(()))), "a setting can be formatted"); }
            if let SAtom::Setting(d) = p.as_atom_def() { if lo < hi { sym::check(lo <= d && d <= hi, "the default setting is in range"); } }
        } else {
            sym::check(id.inp(p.name()) == Some(i as u8), "an input is found by its name");
            sym::check(id.inp_param_by_idx(i) == Some(p), "inputs by index agree");
            sym::check(info.in_name(i) == Some(p.name()), "inputs by name agree");
            sym::check(p.setting_min_max().is_none() && p.atom_ui().is_none(), "an input is no setting");
            let ((lo, hi), (c, f)) = p.param_min_max().unwrap();
            let d = p.norm_def();
            sym::check(lo < hi && p.denorm(d) >= p.denorm(lo) - p.denorm(lo).abs() * 1e-4 - 1e-3 && p.denorm(d) <= p.denorm(hi) * 1.0001 + 1e-3, "the default value is in range");
            sym::check(c > 0.0 && f >= c && p.param_steps() == Some((c, f)), "steps");
            sym::check(same(p.as_atom_def().f(), d), "default values agree");
        }
        sym::check(info.in_help(i).is_some(), "help text");
    }
    if i < no {
        sym::mark(3);
        let n = id.out_name_by_idx(i as u8).unwrap();
        sym::check(id.out(n) == Some(i as u8) && info.out_name(i) == Some(n) && info.out_help(i).is_some(), "outputs by index and name agree");
    }
}

/// denorm and norm are inverse, denorm is monotone, rounding is idempotent and stays close
pub fn h_c11_norm() {
    let id = node();
    let ni = NodeInfo::from_node_id(id).in_count();
    if ni == 0 { return; }
    let p = id.inp_param_by_idx(sym::choose("param", ni)).unwrap();
    let ((lo, hi), _) = p.param_min_max().unwrap();
    let steps = sym::param("steps", 400) as usize;
    let info = NodeInfo::from_node_id(id);
    let coarse = sym::choose("coarse", 2) == 1;
    // denormalisation uses libm: the values are points of a grid over the range
    for k in 0..steps {
        let x = lo + (hi - lo) * k as f32 / steps as f32;
        let y = lo + (hi - lo) * (k + 1) as f32 / steps as f32;
        let (dx, dy) = (p.denorm(x), p.denorm(y));
        sym::check(dx.is_finite() && dy.is_finite() && dx <= dy && (k + 20 > steps || dx < p.denorm(lo + (hi - lo) * (k + 20) as f32 / steps as f32)), "denorm is increasing over the range of a parameter");
        let back = p.norm(dx);
        sym::check((back - x).abs() <= 1e-3 || (p.denorm(back) - dx).abs() <= 1e-6 * dx.abs(), "norm undoes denorm");
        sym::check(same(info.denorm(p.inp() as usize, x), dx) && same(info.norm(p.inp() as usize, dx), back), "the node description converts like the parameter");
        let r = p.round(x, coarse);
        sym::check(r.is_finite(), "rounding gives a value");
        let rr = p.round(r, coarse);
        sym::check((rr - r).abs() <= 1e-3 || (p.denorm(rr) - p.denorm(r)).abs() <= 1e-5 * dx.abs(), "rounding is idempotent");
        sym::check((r - x).abs() <= 0.12 * (hi - lo), "rounding stays close");
        if k % 10 == 0 { let mut out = vec![]; sym::check(matches!(p.format(&mut out, x), Some(Ok(()))) && !out.is_empty(), "a value can be formatted"); }
    }
    sym::mark(1);
}
