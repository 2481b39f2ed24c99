#![allow(unknown_lints, invalid_runtime_symbol_definitions)]
#![allow(clippy::all)]
pub mod sym;
macro_rules! harnesses { ($($m:ident :: $f:ident),* $(,)?) => {
    $( #[no_mangle] pub extern "C" fn $f() { $m::$f() } )*
    pub const HARNESSES: &[(&str, extern "C" fn())] = &[ $( (stringify!($f), $f) ),* ];
} }
mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod c15;
mod c16;
mod c17;
mod c18;
mod c19;
mod c20;
mod c21;
mod c22;
mod c23;
mod env;
harnesses!(
    c01::h_c01_dirs, c01::h_c01_distinct, c01::h_c01_adjacent, c01::h_c01_path,
    c02::h_c02_order, c02::h_c02_reuse, c02::h_c02_hub, c02::h_c02_chain,
    c09::h_c09_hist,
    c10::h_c10_play, c10::h_c10_sync, c10::h_c10_flood, c10::h_c10_node,
    c03::h_c03_change, c03::h_c03_hist,
    c04::h_c04_route, c04::h_c04_change, c04::h_c04_live,
    c05::h_c05_smooth, c05::h_c05_ramp, c05::h_c05_jump, c05::h_c05_many, c05::h_c05_backlog, c05::h_c05_getset,
    c06::h_c06_repr, c06::h_c06_text,
    c08::h_c08_node, c08::h_c08_far,
    c12::h_c12_window, c12::h_c12_many, c12::h_c12_note, c12::h_c12_cc, c12::h_c12_gmode, c12::h_c12_slew,
    c11::h_c11_names, c11::h_c11_norm,
    c13::h_c13_mix, c13::h_c13_map, c13::h_c13_select, c13::h_c13_trig,
    c14::h_c14_env, c14::h_c14_lfo, c14::h_c14_walk, c14::h_c14_quant, c14::h_c14_cqnt,
    c15::h_c15_chain, c15::h_c15_chain_err, c15::h_c15_synth, c15::h_c15_params,
    c16::h_c16_wav, c16::h_c16_bad, c16::h_c16_play, c16::h_c16_declick,
    c18::h_c18_crash, c18::h_c18_fail, c18::h_c18_load,
    c19::h_c19_monitor, c19::h_c19_scope, c19::h_c19_trig, c19::h_c19_observer,
    c20::h_c20_cell, c20::h_c20_query, c20::h_c20_around, c20::h_c20_label,
    c21::h_c21_edit, c21::h_c21_text,
    c22::h_c22_edit, c22::h_c22_chain, c22::h_c22_tree, c22::h_c22_save, c23::h_c23_split, c23::h_c23_other, c23::h_c23_load,
    c17::h_c17_delay, c17::h_c17_loop, c17::h_c17_gap, c17::h_c17_rate,
    c07::h_c07_cell, c07::h_c07_pattern, c07::h_c07_byte, c07::h_c07_num, c07::h_c07_kind, c07::h_c07_blockfun,
);
