"""What each property's check runs: harness entries, bounds per tier, vacuity marks."""

COMMON_ASSUMPTIONS = [
    "The encoding is the LLVM IR rustc (nightly, opt-level 2, overflow and debug assertions on) produces for /repo's current source, its dependencies and std; rustc/LLVM up to IR and the symbolic executor in /verif/engine are trusted (cross-checked: every sat model is re-evaluated natively, completed paths are replayed in a native build).",
    "Environment model: allocation never fails and memory is not reused, background threads (drop thread, sample loader, monitor) run as coroutines at the points a harness names (they run until they sleep) instead of at every interleaving, clock and random seed are fixed, println output is discarded.",
]

PROPS = {}

def prop(pid, **kw):
    PROPS[pid] = kw

def H(entry, bounds, **kw):
    return dict(entry=entry, bounds=bounds, **kw)

prop("C01", harnesses=[
    H("h_c01_dirs", "edge: any u8; x, y: 0..=%(max)d", params={"max": 1 << 24}, marks=[1, 2, 3]),
    H("h_c01_distinct", "two edges 0..6, x, y: 0..=%(max)d", params={"max": 1 << 24}, marks=[1]),
    H("h_c01_adjacent", "two positions with coordinates 0..=%(max)d", params={"max": 1 << 24}, marks=[1, 2]),
    H("h_c01_path", "start and destination anywhere on a %(n)d x %(n)d grid", params={"n": 5}, thorough={"n": 8}),
])
prop("C02", harnesses=[
    H("h_c02_order", "%(n)d nodes, any set of edges without self loops", params={"n": 4}, marks=[1, 2]),
    H("h_c02_order", "%(n)d nodes, any set of edges including self loops", suffix="_self", params={"n": 3, "selfloop": 1}, marks=[1, 2]),
    H("h_c02_order", "%(n)d nodes, any set of at most %(maxe)d edges", suffix="_5", params={"n": 5, "maxe": 4}, thorough={"n": 6, "maxe": 5}, marks=[1]),
    H("h_c02_reuse", "any graph on up to 3 nodes after another graph on 3 nodes (full=%(full)d: any; 0: any subset of a cycle), edges added twice, two insertion orders", params={"full": 0}, thorough={"full": 1}, marks=[1, 2]),
    H("h_c02_hub", "a node with 0..=%(max)d successors, with or without a cycle through it", params={"max": 70}, thorough={"max": 200}, marks=[1, 2]),
    H("h_c02_chain", "a chain of %(n)d nodes with any one of 81 extra edges", params={"n": 300}, marks=[1, 2]),
])
prop("C03", harnesses=[
    H("h_c03_change", "2x3 matrix with a valid 3 cell base layout; up to %(n)d further cells (any of Nop, Amp 0..2 anywhere, 8 port patterns for the first, %(pats)d for the others), through change_matrix or change_matrix_err + place_multiple", params={"n": 2, "pats": 3}, thorough={"pats": 8}, marks=[1, 2, 3, 4, 5]),
    H("h_c03_hist", "every history of %(k)d operations out of 16 (accepted, invalid and failing changes, removals, 5 positions out of the grid, save/check/restore by hand, sync)", params={"k": 3}, thorough={"k": 4}, marks=[1, 2, 3]),
])
prop("C04", harnesses=[
    H("h_c04_route", "2x3 matrix, 2 Amp and 1 Out node at any positions (all=%(all)d: Out anywhere), any facing or non-facing ports, any input values in [-2,2], modulation amount none or any in [-1,1]", params={"all": 0, "modes": 2}, thorough={"all": 1}, marks=[1, 2, 3]),
    H("h_c04_change", "two uploads in a row with different layouts, up to 3 Amps, changed modulation, any input values in [-2,2]", marks=[1, 2]),
    H("h_c04_live", "%(k)d callbacks with any input signal (3 frames), the modulation amount set, changed or removed before each", params={"k": 3}, thorough={"k": 5}, marks=[1, 2]),
])
prop("C05", harnesses=[
    H("h_c05_smooth", "any three values in [-2,2]; %(blocks)d callbacks of 1, 2 or %(maxn)d frames, at each of two points: nothing, set, sync, set and sync; 3 samples of smoothing", params={"blocks": 4, "maxn": 4}, thorough={"blocks": 5, "maxn": 8}, marks=[1, 2, 3]),
    H("h_c05_ramp", "smoothing over 1..=%(slope)d samples, blocks of 1..3 frames, 9 pairs of end points", params={"slope": 6}, thorough={"slope": 12}, marks=[1]),
    H("h_c05_jump", "%(blocks)d callbacks of different lengths, up to 2 changes before each of them among 3 values (also the same one), 3 and 5 samples of smoothing", params={"blocks": 3}, thorough={"blocks": 4}, marks=[1, 2]),
    H("h_c05_many", "1..=%(n)d parameters changed between two callbacks (any value), optionally one of them again", params={"n": 45}, marks=[1, 2]),
    H("h_c05_getset", "any float bits and any setting, set before the node exists, before and after the first callback", marks=[1, 2, 3]),
    H("h_c05_backlog", "%(from)d.. (%(n)d counts) changes of a parameter pending before the last one (any value)", params={"from": 0, "n": 3}, marks=[1]),
    H("h_c05_backlog", "%(from)d.. (%(n)d counts) changes of a parameter pending before the last one (any value)", suffix="_500", params={"from": 500, "n": 8}, marks=[1]),
    H("h_c05_backlog", "%(from)d.. (%(n)d counts) changes pending", suffix="_full", params={"from": 512, "n": 3}, known={"id": "c05-ring-full", "label": "the last of many parameter changes reaches the audio thread", "text": "more than 512 parameter changes while the audio callback does not run: the message ring is full and the changes, including the last one, are dropped silently"}),
])
prop("C06", harnesses=[
    H("h_c06_repr", "3x3 matrix, a cell at any of 3 positions with any input/output port; any finite parameter value and setting, any modulation amount in [-1,1]; a pattern cell with any value, any pattern length 0..=256, edit step, cursor, column type; loaded into a fresh or a used matrix", marks=[1, 2]),
    H("h_c06_text", "through the JSON text: 4 node types, 6 values, micro samples of 1..=5 and 8 values, strings with escapes, extreme integers (full=%(full)d: all combinations)", params={"full": 0}, thorough={"full": 1}, marks=[1]),
])
prop("C07", harnesses=[
    H("h_c07_cell", "a cell with any position (usize), instance 0..2 and any input or output port (i16) next to two fixed cells on a 2x3 matrix", marks=[1, 2, 3]),
    H("h_c07_pattern", "patterns of 0..=300 rows and 0..=7 columns, any length > 256 or 0, 3, 256, any edit step, cursor, column type and last cell, played by a TSeq", marks=[1]),
    H("h_c07_byte", "a valid patch text with any one byte at %(n)d positions (every %(step)dth) replaced by any byte", params={"n": 16, "step": 37}, thorough={"n": 545, "step": 1}, marks=[1, 3, 4]),
    H("h_c07_num", "any number of 1..=%(len)d digits, positive or negative, at 12 places of a patch text", params={"len": 3}, thorough={"len": 5}, marks=[1, 3, 4]),
    H("h_c07_kind", "each value of a patch text replaced by each of %(kinds)d values of other kinds", params={"kinds": 6}, thorough={"kinds": 12}, marks=[1, 3, 4]),
    H("h_c07_blockfun", "block functions without areas; any combination of 7 and 4 sub area references in three areas; 6x6x6 extreme rows, positions, sizes and counters", marks=[1, 3]),
])
prop("C09", harnesses=[
    H("h_c09_hist", "every history of %(k)d operations out of 13 (create nodes and upload, partial upload, upload without copying buffers, set parameters to any float, set atoms, set/remove modulation amount, monitor, delete all nodes, rebuild ports, MIDI, audio callbacks, drop thread) from 3 start states; 4 nodes; 2 smoothing samples; then two callbacks, the drop thread, and either drop order", params={"k": 2}, thorough={"k": 3}, marks=[1, 2]),
])

prop("C08", harnesses=[
    H("h_c08_node", "each of the 41 node types except Code; each parameter at each of %(vals)d extreme values (NaN, infinity, denormal, ...), each setting at any i64 / any float / a string / a sample (chosen values for FVaFilt, Quant and CQnt), before or after the first callback, a neighbouring parameter at the end of its range; 20-22 frames", params={"vals": 8}, marks=[1, 2, 3]),
    H("h_c08_node", "26 node types; each parameter at any value in [-2,2] (symbolic), each setting at any value; 3-5 frames", suffix="_any", params={"symf": 1}, marks=[1, 2, 3]),
    H("h_c08_far", "Delay at the time value 33.94", suffix="_delay", known={"id": "c08-delay-far", "label": "src/delay.rs:159", "text": "a Delay time parameter of 33.94 (far out of range) panics by an arithmetic overflow in synfx-dsp's DelayBuffer (with overflow checks on; Comb and AllP use the same buffer)"}),
    H("h_c08_far", "Quant at the pitch -1.4508e25", suffix="_quant", params={"quant": 1}, known={"id": "c08-quant-far", "label": "src/low_freq.rs:284", "text": "a Quant freq parameter of -1.4508e25 panics by an arithmetic overflow in synfx-dsp's Quantizer (with overflow checks on)"}),
])
prop("C10", harnesses=[
    H("h_c10_play", "columns of 1..=%(rows)d rows, every column type, any subset of cells set to any value (value and gate columns: chosen values), 3 phases per row", params={"rows": 3, "cols": 2}, thorough={"rows": 4}, marks=[1, 2, 3, 4]),
    H("h_c10_sync", "every history of %(k)d edits, transfers and backend changes (8 kinds), then all transfers", params={"k": 3}, thorough={"k": 4}, marks=[1, 2]),
    H("h_c10_flood", "%(from)d.. (%(n)d counts) edits while the audio thread does not run", params={"from": 60, "n": 10}, thorough={"from": 0, "n": 200}, marks=[1]),
    H("h_c10_node", "a TSeq (instance 0 or 1) in a patch, any cell value, edited before or after sync; removed and placed again or the patch loaded again", marks=[1, 2, 3]),
])

prop("C11", harnesses=[
    H("h_c11_names", "each of the node types, any instance (u8), any index (usize)", marks=[1, 2, 3, 4]),
    H("h_c11_norm", "each input parameter of each node type, %(steps)d points of its range (libm functions are evaluated, not encoded), fine and coarse rounding", params={"steps": 400}, thorough={"steps": 4000}, marks=[1]),
])

prop("C12", harnesses=[
    H("h_c12_window", "%(k)d events at any times 0..=9 in any order, %(blocks)d blocks of 1..3 frames", params={"k": 3, "blocks": 3}, thorough={"k": 4, "blocks": 4}, marks=[1, 2]),
    H("h_c12_note", "up to %(k)d note on/off events, any channel, any note (pitch: 3 notes), any velocity, injected or at frames 0..5 of 2 blocks", params={"k": 3}, marks=[1, 2]),
    H("h_c12_many", "1..=%(n)d injected events (notes, controllers, mixed)", params={"n": 20}, thorough={"n": 60}, marks=[1]),
    H("h_c12_cc", "2 controller events with any channel, number and value; each output; equal or different controller numbers", marks=[1]),
    H("h_c12_gmode", "trigger and gate length mode, 2 notes at any of 4x4 frames, with or without note off, 3 lengths", marks=[1]),
    H("h_c12_slew", "MidiCC, ExtA, ExtF, each output, 3 sample rates, sample rate set before or after the node was created", marks=[1]),
])

prop("C13", harnesses=[
    H("h_c13_mix", "Mix3, Amp, Inp, Out: any signals in [-2,2], any mono setting, 3-5 values of each volume, attenuator and gain", marks=[1, 2]),
    H("h_c13_map", "Map and SMap: any input in [-2,2], 3 output ranges, 3 input ranges, 3 attenuverter/offset pairs, all modes", marks=[1, 2, 3]),
    H("h_c13_select", "Mux9 with connected slct: any value in [0.0001,1], 1..=9 inputs", marks=[1]),
    H("h_c13_trig", "Mux9: every pattern of two trigger inputs over %(n)d + %(n2)d frames, the number of inputs changed in between", params={"n": 3, "n2": 1}, thorough={"n": 3, "n2": 2}, marks=[1, 2]),
])
prop("C14", harnesses=[
    H("h_c14_env", "Ad and Adsr: any level in [-1,1], gates of 2 starts x 3 lengths, a second gate after 3 gaps or none, 3 sets of times and shapes, 2 sample rates; 36 frames", marks=[1, 2]),
    H("h_c14_lfo", "TsLFO: 3 periods, 4 shapes, 2 sample rates, a trigger at any of 12 frames; 20 frames", marks=[1]),
    H("h_c14_walk", "RndWk: 3 ranges, 3 steps, 10 offsets, with and without slew, 2 instances; 2 triggers", marks=[1, 2, 3]),
    H("h_c14_quant", "Quant: 7 key sets, 3 octave offsets, pitches over 8 octaves in steps of %(step)d tenths of a semitone", params={"step": 10}, thorough={"step": 1}, marks=[1, 2]),
    H("h_c14_cqnt", "CQnt: 7 key sets, 4 octave ranges; any input in [0,1] for 1, 2 or 4 keys, 3 inputs per key otherwise", marks=[1, 2]),
])
prop("C15", harnesses=[
    H("h_c15_chain", "a chain of three cells in each of the 6 directions, 2 positions, 6 sets of used instances, any parameter values", marks=[1, 2]),
    H("h_c15_chain_err", "9 wrong names in a chain, 6 directions", marks=[1]),
    H("h_c15_synth", "every graph of 3 Amps (64 edge sets) described at once or node by node, every further edge, then another change; any signal values", marks=[1, 2, 3]),
    H("h_c15_params", "parameter, modulation amount and setting updates before and after the upload, clear, custom nodes set and replaced; any values (smoothed updates: chosen ones)", marks=[1, 2, 3]),
])
prop("C16", harnesses=[
    H("h_c16_wav", "8 and 16 bit integer and 32 bit float, mono and stereo, 3 rates, 3 frames of any bytes", marks=[1]),
    H("h_c16_bad", "4 formats, cut off at any byte; each format field with any value; each chunk id and size with 4 values", marks=[1, 2, 3, 4]),
    H("h_c16_play", "3 sample lengths, 3 speeds, loop/one shot, both directions, 4 parts, two triggers at any of 4 x %(t2)d frames; 16 frames", params={"t2": 6}, thorough={"t2": 9}, marks=[1, 2, 3]),
    H("h_c16_declick", "5 speeds, loop/one shot, both directions, 2 parts, two triggers at any of 4 x 9 frames; 20 frames", marks=[1, 2]),
])
prop("C17", harnesses=[
    H("h_c17_delay", "two instances, writers before or after the readers, 5 block patterns (1 to 128 frames), impulses of any height at 4 x 2 frames; 288 frames at 44100 Hz", marks=[1]),
    H("h_c17_loop", "closed loop, 2 volumes, 4 block patterns, impulse at 3 frames; 3 repeats", marks=[1]),
    H("h_c17_rate", "88200 Hz", known={"id": "c17-rate", "label": "the feedback delay is 3.14 ms at 88200 Hz", "text": "the feedback delay is always that of 44100 Hz (138 samples) instead of 3.14 ms at 88200 Hz (a FIXME in NodeGlobalData::get_shared_feedback)"}),
    H("h_c17_gap", "a writer out of the patch for 64 frames", known={"id": "c17-gap", "label": "the delay is the same after the writer was out of the patch for a while", "text": "a FbWr taken out of the patch for 64 frames and placed again: the delay of the running FbRd changes by 64 samples"}),
])
prop("C18", harnesses=[
    H("h_c18_crash", "the process dies at any of the first %(ops)d file operations, anywhere in a write (eighths); the file exists before or not; 2 patches; then saved again", params={"ops": 8}, marks=[1, 3]),
    H("h_c18_fail", "any of the first %(ops)d file operations fails, or a write is short and the next fails (disk full), or is just short", params={"ops": 8}, marks=[1, 2]),
    H("h_c18_load", "a whole matrix saved over an older file and loaded; a missing file, a file cut off at any byte, any two bytes that start no JSON value", marks=[1, 2, 3, 4]),
])
prop("C19", harnesses=[
    H("h_c19_monitor", "3 cells of a patch (with and without modulation), 4 block patterns, the monitor thread running after each callback or at the end, 2 + 2 windows, 5 changes in between; an impulse at 3 frames and any last value", marks=[1, 2]),
    H("h_c19_scope", "2 sample rates, 4 display times, 2 block patterns, any value of one sample of the second signal at 3 frames", marks=[1, 2]),
    H("h_c19_trig", "internal and external trigger, 3 thresholds, 2 display times, 3 waiting times, 2 block patterns, any signal value", marks=[1]),
    H("h_c19_observer", "every history of %(k)d operations out of 9", params={"k": 2}, thorough={"k": 3}, marks=[1, 2, 3]),
])
prop("C20", harnesses=[
    H("h_c20_cell", "a cell at any position with any ports on %(init)d sets of sides, every history of %(k)d edits out of 8 (any direction, any port)", params={"k": 2, "init": 2}, thorough={"init": 3}, marks=[1]),
    H("h_c20_query", "every cell of a 3x3 matrix, any ports of it and of its neighbours on one side", marks=[1, 2]),
    H("h_c20_around", "the cell in the middle of a 3x3 matrix, %(own)d sets of used sides, neighbours present or not and with or without a port towards it", params={"own": 4}, thorough={"own": 6}, marks=[1]),
    H("h_c20_label", "labels of 4 nodes and of any port, buffers of 0..=7 bytes", marks=[1, 2]),
])
prop("C21", harnesses=[
    H("h_c21_edit", "every history of %(k)d pattern edits at any row and column (also outside), any values", params={"k": 2}, marks=[1, 2]),
    H("h_c21_text", "%(k)d edits with the text of the cell read in between or not", params={"k": 2}, thorough={"k": 3}, marks=[1, 2]),
])
prop("C22", harnesses=[
    H("h_c22_edit", "5 histories and every further edit (place, remove, move, clone, shift ports; also outside and impossible ones) of a function with nested areas", marks=[1, 2, 3, 4, 5]),
    H("h_c22_chain", "moving chains of connected blocks to any of the positions within and between areas, splitting them", marks=[1, 2, 3, 4, 5]),
    H("h_c22_tree", "the syntax tree of every function after any edit", marks=[1, 2]),
    H("h_c22_save", "every function after any edit saved as JSON, loaded over another one and edited", marks=[1]),
])
prop("C23", harnesses=[
    H("h_c23_split", "every node type (except Code, Inp, Out), every input and its successor driven at audio rate by %(sigs)d signals, the first %(outs)d outputs, default and other parameters and settings, 4 divisions of 12 frames into blocks", params={"sigs": 2, "outs": 2}, thorough={"sigs": 3, "outs": 16}, marks=[1]),
    H("h_c23_split", "as above with any value in [-1,1] of one sample, for the nodes whose computations are within reach of the solver", suffix="_sym", params={"sigs": 1, "outs": 1, "symf": 1}, thorough={"outs": 2}, marks=[1]),
    H("h_c23_other", "every node type and input as above (%(sigs)d signals); another instance of it present or not; 5 changes of other nodes between 3 blocks", params={"sigs": 1, "outs": 1}, thorough={"sigs": 3, "outs": 16}, marks=[1]),
    H("h_c23_load", "every node type and input as above (%(sigs)d signals); loaded into a new engine and into one that played the same patch, the same patch with other values or another one", params={"sigs": 1, "outs": 1}, thorough={"sigs": 3, "outs": 16}, marks=[1]),
])
