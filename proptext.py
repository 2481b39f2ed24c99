"""Texts of the properties; tools/gen.py turns them and specs.py into properties.jsonl and MANIFEST.json."""
P = {}
def p(pid, title, statement, over, quant, why, files, mech, note, comps=None):
    P[pid] = dict(title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, note=note)
NA = {}  # pid -> reason

p("C01", "Hexagonal grid geometry is consistent",
  "For every cell position and edge, the neighbour over an edge is the cell of the staggered hexagonal layout (none outside the grid), going back over the opposite edge returns to the start, and an output edge always faces an input edge. are_adjacent reports exactly the neighbours with the edge crossed, and path_from_to returns a walk over neighbours from start to destination.",
  ["inputs"], "all edges (any u8) and all coordinates up to 2^24; paths between any two cells of a small grid",
  "Tests look at a few cells; parity, borders and opposite edges interact for every coordinate.",
  ["src/cell_dir.rs"], [("CellDir offsets, adjacency, paths", "src/cell_dir.rs: offs_pos, as_offs, flip, are_adjacent, path_from_to")],
  "symbolic edge and coordinates; path search on a bounded grid")
p("C02", "Execution order is a topological order, cycles are detected",
  "For every node graph the computed order contains each node exactly once and every node after all nodes it receives signals from, and an order is refused (and left empty) exactly when the graph has a cycle. has_path never claims a path that does not exist nor denies one that does, also when the structure is reused and edges are added repeatedly.",
  ["inputs", "histories"], "all graphs with up to 4 nodes (6 with few edges), reuse after any small graph, hubs with up to 70 successors, chains of 300 nodes",
  "The number of graphs is exponential; tests contain a handful.",
  ["src/nodes/node_graph_ordering.rs"], [("Kahn ordering", "src/nodes/node_graph_ordering.rs: calculate_order, add_node, add_edge, has_path, clear")],
  "every edge is a symbolic boolean")

p("C03", "Matrix changes are validated and rolled back as a whole",
  "For every change made through change_matrix / change_matrix_err: the change is accepted exactly when the resulting layout has no signal cycle between nodes and no input fed by two outputs (and place_multiple hits no occupied cell), and the reported error names what is wrong. After a rejected change all cells, ports, connections and used-input flags are exactly as before; after an accepted one the matrix holds exactly the placed cells. Either way the matrix can be synced.",
  ["inputs", "histories"], "all changes by up to two cells (node instance, position, port pattern) on a 2x3 matrix with three cells",
  "The combinations of positions, ports and instances are far more than tests try; rollback must hold for every rejected one.",
  ["src/matrix.rs", "src/nodes/node_graph_ordering.rs"], [("change_matrix, check, restore", "src/matrix.rs: change_matrix, change_matrix_err, check, save_matrix, restore_matrix, place_multiple"), ("edges and ordering", "src/matrix.rs: update_graph_ordering_and_edges")],
  "every placement and port pattern on a 2x3 matrix is explored")
p("C04", "The audio output is what the matrix layout connects",
  "For every layout: a signal flows from one cell to another exactly when an output port and an input port are set on facing edges of neighbouring cells. After sync, each connected input receives exactly that output (plus the parameter value scaled by the modulation amount if one is set), unconnected inputs use their parameter value, and the device outputs, LED values, output feedback, param_input_is_used and get_connections all agree with that, also after the layout or the modulation is changed and synced again.",
  ["inputs", "histories"], "2 Amps and an Out cell at all positions of a 2x3 matrix, all edges, all signal values; two layouts in sequence",
  "Routing depends on position parity, edge, port, node order and buffer assignment for every layout; tests render a few fixed layouts.",
  ["src/matrix.rs", "src/nodes/node_conf.rs", "src/nodes/node_prog.rs", "src/nodes/node_exec.rs"], [("edges to program", "src/matrix.rs: create_program, sync; src/nodes/node_conf.rs: set_prog_node_exec_connection, rebuild_node_ports"), ("execution", "src/nodes/node_exec.rs: process; src/nodes/node_prog.rs: assign_outputs, swap_previous_outputs")],
  "layouts up to 4 cells, symbolic signal values and modulation amounts")
p("C05", "Parameter changes reach the audio thread, smoothed, none lost",
  "A parameter or setting reads back exactly as last set, before and after its node exists and after syncs. On the audio thread, every changed input parameter moves from its old value linearly, without jump or overshoot, and is exactly at the newly set value once the smoothing time (10 ms) has passed, for every block size, any number of changes between callbacks, several changes of the same parameter and graph uploads in between; it then keeps that value.",
  ["inputs", "schedules", "histories"], "all values, block sizes up to 8, sequences of set/sync/callback, up to 45 parameters at once",
  "The value on the audio thread depends on the interleaving of sets, uploads and block sizes; tests use single changes.",
  ["src/nodes/node_conf.rs", "src/nodes/node_exec.rs", "src/util.rs"], [("parameter messages", "src/nodes/node_conf.rs: set_param, create_node"), ("smoothing", "src/nodes/node_exec.rs: set_param, process_smoothers, process_param_updates; src/util.rs: Smoother")],
  "histories of up to 4 callbacks and 2 changes, symbolic values")
p("C06", "A saved patch loads back as the same patch",
  "For every matrix: to_repr followed by from_repr (directly or through the JSON text) restores all cells with their ports, all parameter values and settings, modulation amounts, properties and non-empty tracker patterns (cell values, length, column types, edit step, cursor), and nothing of what the target matrix contained before survives.",
  ["inputs", "histories"], "all port choices and values of a small patch; text round trip for chosen values",
  "Every kind of stored value and port must survive for every value, and into every previous state.",
  ["src/matrix.rs", "src/matrix_repr.rs", "src/dsp/tracker/pattern.rs"], [("to_repr, from_repr", "src/matrix.rs: to_repr, from_repr, clear; src/dsp/tracker/pattern.rs: to_repr, from_repr"), ("JSON", "src/matrix_repr.rs: serialize, deserialize")],
  "symbolic values in the representation; float formatting only for chosen values")
p("C07", "Loading an unchecked patch never panics or misplaces cells",
  "Whatever a patch file contains (any bytes, wrong kinds of values, out of range numbers, oversized patterns), loading it returns a result or an error without panicking; afterwards audio callbacks, inspecting and saving work, patterns have at most 256 rows, and cells appear only where the patch has them, with no port other than the one it names.",
  ["inputs"], "any one byte of a patch text replaced, any digits of its numbers, any kind of value in each place, any cell position and port, oversized patterns",
  "Tests load well-formed patches; the malformed ones are unbounded in number.",
  ["src/matrix_repr.rs", "src/matrix.rs", "src/dsp/tracker/pattern.rs"], [("parsing", "src/matrix_repr.rs: MatrixRepr::deserialize, CellRepr, PatternRepr"), ("loading", "src/matrix.rs: from_repr, place, Cell::from_repr; src/dsp/tracker/pattern.rs: from_repr")],
  "symbolic bytes, digits and fields; block function data only as a recorded finding")
p("C09", "No history of live changes breaks the audio thread",
  "For every sequence of frontend calls (creating and deleting nodes, uploading programs, setting parameters, settings and modulation amounts, monitoring, sending MIDI) interleaved with audio callbacks, the audio callback neither panics nor accesses invalid memory, and it neither allocates nor frees memory; frontend and executor can be dropped in either order.",
  ["histories", "schedules"], "all histories of 2 (thorough: 3) operations out of 13 from 3 start states, then callbacks and tear-down",
  "Message order between threads and stale references to an old program only matter in particular sequences.",
  ["src/nodes/node_conf.rs", "src/nodes/node_exec.rs", "src/nodes/node_prog.rs", "src/nodes/drop_thread.rs", "src/nodes/feedback_filter.rs"], [("message handling", "src/nodes/node_exec.rs: process_graph_updates, process_param_updates, process"), ("program hand-over", "src/nodes/node_conf.rs: upload_prog; src/nodes/drop_thread.rs")],
  "operation sequences as symbolic choices; 2-3 frames per callback")

p("C08", "Every node type survives every parameter value",
  "For every node type and every value of its parameters and settings, in or out of range, of any kind (number, setting, text, sample), set before or while it plays: the audio callback finishes without panicking and without allocating or freeing memory.",
  ["inputs"], "all node types except Code; all parameters at extreme or any values in [-2,2]; any setting",
  "41 node types with up to 12 parameters; out of range values reach them through patches, hosts and modulation.",
  ["src/dsp/node_*.rs", "src/dsp/mod.rs", "src/nodes/node_exec.rs"], [("node kernels", "src/dsp/node_*.rs: process"), ("settings as read by nodes", "src/dsp/satom.rs: i, f; src/dsp/mod.rs: denorm")],
  "symbolic node, parameter, setting and (where in reach) value; delay times far beyond the buffer and huge Quant pitches are recorded findings; sample rates below 20 kHz for FVaFilt are excluded")
p("C10", "Trackers play exactly what the pattern holds",
  "For every pattern, a TSeq plays at every clock phase the value and gate that the cells of the column define for its type (step: value of the last set row; note: its pitch; value: linear towards the row's value; gate: the coded fraction of the row), and every edit of cells, column types and pattern length arrives at the audio thread, whatever the order of edits and transfers, however many, and also after the node was removed and placed again.",
  ["inputs", "histories", "schedules"], "all small patterns and phases, all histories of 3 edits/transfers, 60-69 edits in a row",
  "Which columns are transferred when depends on the history of edits; the value at a phase on all cells of the column.",
  ["src/dsp/tracker/pattern.rs", "src/dsp/tracker/sequencer.rs", "src/dsp/tracker/mod.rs", "src/dsp/node_tseq.rs"], [("pattern to column data", "src/dsp/tracker/pattern.rs: sync_out_data, modified_col"), ("transfer", "src/dsp/tracker/mod.rs: send_one_update, check_updates, get_backend"), ("playing", "src/dsp/tracker/sequencer.rs: col_get_at_phase, col_interpolate_at_phase, col_gate_at_phase")],
  "symbolic cells and edit histories")

p("C11", "Node and parameter descriptions are consistent",
  "For every node type, instance and index: names, indices, ParamIds, NodeInfo and categories of nodes, inputs, settings and outputs refer to the same things (looking up by name what was found by index gives it back, and nothing exists beyond the counts), defaults lie in the parameter's range, denorm is increasing over the range and undone by norm, rounding is idempotent and stays close, and every value can be formatted.",
  ["inputs"], "all node types, any instance, any index, all parameters over a grid of values",
  "Tables of 42 nodes with over 200 parameters; tests look up a few.",
  ["src/dsp/mod.rs", "src/dsp/node_*.rs"], [("node table", "src/dsp/mod.rs: node_list, make_node_info_enum, NodeId, ParamId, NodeInfo"), ("conversions", "src/dsp/mod.rs: define_exp, define_db, n_pit, r_lfot, ...")],
  "symbolic index and instance; conversion functions at grid points")

p("C12", "MIDI and external parameters reach the nodes, complete and in time",
  "Every MIDI event, injected or from the host, is seen by the nodes exactly once, in order and at its frame (late ones at once), and is reported to the frontend. MidiP outputs the pitch and velocity of the last note of its channel and a gate from note on to note off that restarts with a pause for each new note (or the trigger / gate length set); MidiCC outputs follow the last value of their controller; external parameters arrive; slew times hold at every sample rate.",
  ["inputs", "histories"], "all sequences of 3 events with any timing, channel, note, value and block sizes",
  "Several events in the same frame, across block borders or late only occur in particular timings.",
  ["src/nodes/midi.rs", "src/nodes/node_exec.rs", "src/dsp/node_midip.rs", "src/dsp/node_midicc.rs", "src/dsp/node_ext.rs"], [("event windows", "src/nodes/midi.rs: EventWindowing, MidiEventPointer"), ("feeding", "src/nodes/node_exec.rs: feed_midi_events_from"), ("nodes", "src/dsp/node_midip.rs, node_midicc.rs, node_ext.rs: process")],
  "symbolic events; slew with chosen times")

p("C13", "Mixing, mapping and routing nodes compute what they document",
  "For all signals: Mix3 outputs the sum of its inputs scaled by their volumes and the output volume; Amp scales by attenuator (negative ones clipped or allowed as set) and gain; Out and Inp pass audio on times their volume, Out copies channel 1 to the right in mono mode; Map maps its input range linearly to its output range and SMap 0..1 or -1..1 (inverted if set), limited to the range if clipping is on; Mux9 routes the input selected by slct if that is connected, otherwise by up/down/reset triggers with wrap-around, always within the configured number of inputs.",
  ["inputs", "histories"], "any signal value, chosen settings, all short trigger patterns",
  "Combinations of modes, ranges and signal values; tests try one or two of each.",
  ["src/dsp/node_mix3.rs", "src/dsp/node_amp.rs", "src/dsp/node_out.rs", "src/dsp/node_inp.rs", "src/dsp/node_map.rs", "src/dsp/node_smap.rs", "src/dsp/node_mux9.rs"], [("node kernels", "src/dsp/node_{mix3,amp,out,inp,map,smap,mux9}.rs: process")],
  "symbolic signals, chosen parameter values")
p("C14", "Envelopes, LFO, random walk and quantizers follow their parameters",
  "For every timing of gates and triggers, block border and sample rate: Ad and Adsr rise to the level in the attack time (continuing from the current value when retriggered), fall in the decay time to zero or the sustain level, hold it while the gate is on, release to zero, scaled by the input, and mark the end with a trigger; TsLFO has the set period and shape and restarts with a trigger; RndWk moves only by triggers, stays within its range and respects offset and slew; Quant outputs the closest selected key plus the octave offset and CQnt divides 0..1 evenly among the selected keys and octaves, new pitches being marked by a trigger.",
  ["inputs", "schedules"], "gate timings, levels, shapes, sample rates; all octaves and several key sets",
  "Retriggering in the middle of a stage, block borders and key sets combine; tests render a few envelopes.",
  ["src/dsp/node_ad.rs", "src/dsp/node_adsr.rs", "src/dsp/node_tslfo.rs", "src/dsp/node_rndwk.rs", "src/dsp/node_quant.rs", "src/dsp/node_cqnt.rs"], [("node kernels", "src/dsp/node_{ad,adsr,tslfo,rndwk,quant,cqnt}.rs: process")],
  "symbolic levels and timings, chosen times and shapes")
p("C15", "The graph builders build the described graph",
  "MatrixCellChain places its cells one after another in its direction with the given ports, each with a node instance nobody else uses (of those known after a sync), sets the given parameters on exactly those nodes and leaves all others alone; a wrong node, port or parameter name is reported by place, which then changes nothing. SynthConstructor accepts an upload exactly if all edges uploaded so far and the new ones form no cycle; the running graph then computes what was described, and a rejected upload changes nothing and does not affect later ones. update_params makes new parameter values, settings and modulation amounts take effect and says whether a new graph was needed; clear silences the graph; a custom Rust1x1 node gets its inputs, is used from the next callback on and its values are reported for its own instance.",
  ["inputs", "histories"], "any directions, used instances, graphs of three nodes with cycles, update orders",
  "Instance collisions and rejected graphs only show for particular patches and upload histories.",
  ["src/chain_builder.rs", "src/synth_constructor.rs", "src/build.rs", "src/dsp/node_rust.rs"], [("chains", "src/chain_builder.rs: MatrixCellChain::place"), ("graphs", "src/synth_constructor.rs: upload, update_params, walk_upload"), ("custom nodes", "src/global.rs: send_dynamic_node1x1; src/dsp/node_rust.rs: process")],
  "all small graphs and chains, symbolic signal values")
p("C16", "Samples are loaded faithfully and played as set",
  "A WAV file with 8 or 16 bit integer or 32 bit float samples is loaded with its sample rate and every value of its first channel at full scale; a damaged or unsupported file gives an error, never a panic. Sampl plays the sample at the speed given by the sample rates and the pitch, from the set offset for the set length, forwards or backwards (position n - i, wrapped around): looped without gaps, or once from each trigger and then silence; a trigger restarts it at once. With declick on it fades in and out over the declick time without leaving the range, at any speed.",
  ["inputs", "schedules"], "any file content, cut or damaged files, trigger timings, modes and speeds",
  "File content and trigger timing relative to sample length and blocks; tests use one sample.",
  ["src/sample_lib.rs", "src/dsp/node_sampl.rs"], [("loading", "src/sample_lib.rs: SampleLibrary::load"), ("playback", "src/dsp/node_sampl.rs: Sampl::play, next_sample")],
  "symbolic sample data for loading; chosen sample values with all schedules for playback")
p("C17", "The feedback nodes are a fixed delay",
  "At 44100 Hz an FbRd node outputs exactly what the FbWr node of the same instance received 138 samples (3.14 ms) before, times its volume, and nothing of other instances: for all block sizes, whatever the order in which the two are executed, from the first sample on; a loop closed through them is not a cycle and repeats its signal once per delay time.",
  ["inputs", "schedules"], "any impulse, block patterns from 1 to 128 frames, both execution orders",
  "The delay depends on how block borders fall and which node runs first; tests run one fixed block size.",
  ["src/shared_feedback.rs", "src/dsp/node_fbwr_fbrd.rs"], [("ring buffer", "src/shared_feedback.rs: SharedFeedbackWriter, SharedFeedbackReader"), ("nodes", "src/dsp/node_fbwr_fbrd.rs: process")],
  "symbolic impulse, chosen block patterns")

p("C18", "Saving a patch file is all or nothing",
  "Whatever happens while a patch is saved over an older file - the process dies at any point, the disk is full, a write is short or an operation fails - the file afterwards holds the old or the new patch completely, and success is only reported if it is the new one; what an interrupted save left behind never gets into a later save. A patch saved over any older content loads again completely; a missing, truncated or foreign file is reported as an error and leaves the running patch as it was.",
  ["inputs", "crash_points", "fault_sequences"], "a crash or error at any file operation and any point of a write; cut and foreign files",
  "Crash points and I/O errors while saving cannot be reached by ordinary tests.",
  ["src/matrix_repr.rs"], [("writing", "src/matrix_repr.rs: MatrixRepr::write_to_file, save_patch_to_file"), ("reading", "src/matrix_repr.rs: MatrixRepr::read_from_file, load_patch_from_file; src/matrix.rs: Matrix::from_repr")],
  "crash of the process between and within file operations (not a power loss); file system model with short writes and errors")

p("C19", "Monitor, scopes and notifications show what happens",
  "For every block pattern and monitored cell, the monitor shows for each window of 900 samples exactly the lowest and highest value of the cell's connected inputs and outputs, for the cell monitored last and also after the matrix was changed and synced, as long as its buffers are fetched. A Scope displays its connected signals in order and evenly spread over the display time (lowest and highest sample of each point), restarting continuously or frozen until the set internal or external trigger passes the threshold from low to high; offset, gain, threshold and active signals are reported per scope. Every change of parameters, properties, layout, monitored cell or of everything is announced to the observer and gives a new generation, and each MIDI event is announced exactly once.",
  ["inputs", "schedules", "histories"], "block patterns, windows, display times, trigger timings, histories of three changes",
  "Whether samples are lost or doubled at window and block borders depends on the schedule; tests check one pattern.",
  ["src/monitor.rs", "src/nodes/node_exec.rs", "src/dsp/node_scope.rs", "src/scope_handle.rs", "src/matrix.rs"], [("monitor", "src/monitor.rs: MonitorMinMax::process, MonitorProcessor; src/nodes/node_conf.rs: monitor; src/nodes/node_exec.rs: process"), ("scope", "src/dsp/node_scope.rs: process; src/scope_handle.rs"), ("observer", "src/matrix.rs: MatrixObserver calls, handle_graph_events")],
  "chosen signals with symbolic samples, symbolic schedules; the points of a scope faster than the sample rate are rounded to whole repetitions")

p("C20", "Cells and matrix queries agree with the layout",
  "A cell keeps exactly the ports it was given on each side, whatever the history of edits by direction, index or port name; edits that are not possible (unknown names, the centre) change nothing else. For every layout the matrix queries - neighbours, connections, adjacent inputs and outputs, the free and the used sides, the cells around a position - report exactly what the hexagonal grid of cells contains, each connection on both of its sides and nothing beyond the border. Labels are those of the node and the port or are left out if they do not fit.",
  ["inputs", "histories", "configurations"], "any cell position and ports, histories of edits, every position and neighbourhood of a grid",
  "The number of neighbourhoods (even and odd columns, borders, present and missing ports) is beyond example tests.",
  ["src/matrix.rs", "src/cell_dir.rs"], [("cell", "src/matrix.rs: Cell (set_io_dir, clear_io_dir, set_input_by_name, set_output_by_name, local_port_idx, label, find_all_adjacent_free, find_unconnected_port..)"), ("grid", "src/cell_dir.rs: CellDir::offs_pos; src/matrix.rs: Matrix::get_adjacent, get_connections, get_adjacent_input, get_adjacent_output, for_each")],
  "a reference model of the cell and of the hexagonal grid written independently; coordinates below 255; the position an empty, never placed cell reports is not specified")

p("C21", "The pattern editor changes exactly the addressed cells",
  "For every sequence of edits of a pattern - cell values, relative changes, clearing, column types, length, edit step and cursor - exactly the addressed cell or attribute changes, relative changes stay in the range of cell values, edits outside of the pattern are ignored, and nothing panics for any row, column or value. The text shown for a cell is always that of its current value, and every change of the pattern gives a new generation.",
  ["inputs", "histories"], "any positions and values, histories of edits",
  "Saturation, cached texts and out of range positions only show for particular values and orders of edits.",
  ["src/dsp/tracker/pattern.rs"], [("pattern", "src/dsp/tracker/pattern.rs: PatternData, impl UIPatternModel for PatternData")],
  "a reference model of the pattern written independently")

p("C22", "The block code editor keeps the program consistent",
  "For every sequence of edits of a block function - placing, removing, moving and cloning blocks and chains of connected blocks within and between nested areas, splitting chains, shifting ports - blocks never overlap, get lost, are duplicated or end up inside of themselves, every block is found at all of its rows, and an edit that is not possible is reported and changes nothing. The syntax tree contains exactly the blocks and connections of the layout, and a saved and loaded function is the same as before and can be edited further.",
  ["inputs", "histories", "programs"], "histories of edits at any of the positions, nested areas",
  "Which blocks a chain contains and whether it fits depends on the whole layout; tests cover a few layouts.",
  ["src/wblockdsp/language.rs"], [("edits", "src/wblockdsp/language.rs: BlockFun::instanciate_at, remove_at, move_block_from_to, move_block_chain_from_to, clone_block_from_to, split_block_chain_after, shift_port; BlockArea; BlockChain"), ("tree", "src/wblockdsp/language.rs: BlockFun::generate_tree"), ("snapshot", "src/wblockdsp/language.rs: BlockFunSnapshot, save_snapshot, load_snapshot")],
  "a small block language; the JIT compiler behind the tree (synfx-dsp-jit, cranelift) is not encoded")

p("C23", "The sound only depends on the patch and its input",
  "For every node and whichever of its inputs are driven at audio rate, the output is the same sample by sample however the host divides time into blocks (BiqFilt reads its controls once per block). Other nodes and other instances of the same node, present or added, changed and removed while playing, do not change it, and a loaded patch sounds exactly as in a new engine, whatever was played before.",
  ["inputs", "schedules", "histories", "configurations"], "divisions into blocks, changes of other nodes between blocks, histories before loading, all node types and inputs",
  "Tests run each node alone with one block size.",
  ["src/dsp", "src/nodes/node_exec.rs", "src/nodes/node_prog.rs"], [("nodes", "src/dsp/node_*.rs: process of every node"), ("engine", "src/nodes/node_exec.rs: process, process_graph_updates; src/nodes/node_prog.rs: assign_previous_outputs, NodeProg")],
  "relational: the same patch is executed twice, no oracle for the sound itself; chosen signals, symbolic samples for the nodes within reach; the Code node is not encoded")
