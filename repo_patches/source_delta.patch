From 31b6ee97407d0ec5432514fdf6a6e013ffb1abd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:57 +0000
Subject: [PATCH 01/44] fix: node graph ordering panics when a node has more
 than 64 outgoing edges

---
 src/nodes/node_graph_ordering.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/nodes/node_graph_ordering.rs b/src/nodes/node_graph_ordering.rs
index a247bd8..bbb53a0 100644
--- a/src/nodes/node_graph_ordering.rs
+++ b/src/nodes/node_graph_ordering.rs
@@ -9,24 +9,25 @@ use std::collections::HashSet;
 pub const MAX_NODE_EDGES: usize = 64;
 pub const UNUSED_NODE_EDGE: usize = 999999;
 
-#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
+#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
 struct Node {
     /// The [NodeId] of this node.
     node_id: NodeId,
-    /// The output edges of this node.
-    edges: [usize; MAX_NODE_EDGES],
+    /// The output edges of this node. Starts out with [MAX_NODE_EDGES] entries
+    /// and grows if a node has more outgoing edges than that.
+    edges: Vec<usize>,
     /// The first unused index in the `edges` array.
     unused_idx: usize,
 }
 
 impl Node {
     pub fn new() -> Self {
-        Self { node_id: NodeId::Nop, edges: [UNUSED_NODE_EDGE; MAX_NODE_EDGES], unused_idx: 0 }
+        Self { node_id: NodeId::Nop, edges: vec![UNUSED_NODE_EDGE; MAX_NODE_EDGES], unused_idx: 0 }
     }
 
     pub fn clear(&mut self) {
         self.node_id = NodeId::Nop;
-        self.edges = [UNUSED_NODE_EDGE; MAX_NODE_EDGES];
+        self.edges.fill(UNUSED_NODE_EDGE);
         self.unused_idx = 0;
     }
 
@@ -37,7 +38,11 @@ impl Node {
             }
         }
 
-        self.edges[self.unused_idx] = node_index;
+        if self.unused_idx >= self.edges.len() {
+            self.edges.push(node_index);
+        } else {
+            self.edges[self.unused_idx] = node_index;
+        }
         self.unused_idx += 1;
     }
 }
-- 
2.43.0


From d4ac16da3a284dcd8775f95fef8a6821bbbb2bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:25 +0000
Subject: [PATCH 02/44] fix: monitoring a node that is not part of the running
 program crashes the audio thread

---
 src/nodes/node_exec.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/nodes/node_exec.rs b/src/nodes/node_exec.rs
index bd5d5aa..2f713f5 100644
--- a/src/nodes/node_exec.rs
+++ b/src/nodes/node_exec.rs
@@ -493,6 +493,13 @@ impl NodeExecutor {
                 continue;
             }
 
+            // Nodes that are not executed by the current program don't have any
+            // input buffers assigned, and the program might not even contain their ports:
+            let bufs = if i > 2 { &prog.out } else { &prog.cur_inp };
+            if bufs.get(*idx).map(|buf| buf.is_null()).unwrap_or(true) {
+                continue;
+            }
+
             if let Some(mut mon) = self.shared.monitor_backend.get_unused_mon_buf() {
                 if i > 2 {
                     mon.feed(i, ctx.nframes(), &prog.out[*idx]);
-- 
2.43.0


From ab02fa73c9ad013ad3876ecb474d0b587014872b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:25 +0000
Subject: [PATCH 03/44] fix: running parameter smoothers survive clearing the
 graph and panic or change other parameters

---
 src/nodes/node_exec.rs | 13 +++++++++++++
 src/util.rs            |  1 -
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/nodes/node_exec.rs b/src/nodes/node_exec.rs
index 2f713f5..48ef194 100644
--- a/src/nodes/node_exec.rs
+++ b/src/nodes/node_exec.rs
@@ -207,6 +207,7 @@ impl NodeExecutor {
                     self.exec_ctx.clear();
 
                     self.monitor_signal_cur_inp_indices = [UNUSED_MONITOR_IDX; MON_SIG_CNT];
+                    self.stop_smoothers();
 
                     log(|w| {
                         let _ = write!(w, "[dbg] Cleared graph ({} nodes)", self.prog.prog.len());
@@ -270,6 +271,8 @@ impl NodeExecutor {
                         // input processing buffers, so we keep any modulation
                         // (smoothed) history of the block too.
                         self.prog.swap_previous_outputs(&mut prev_prog);
+                    } else {
+                        self.stop_smoothers();
                     }
 
                     self.prog.assign_outputs();
@@ -406,6 +409,16 @@ impl NodeExecutor {
         }
     }
 
+    /// Forgets all running parameter changes. Needs to be called if the input indices
+    /// of the next [NodeProg] don't refer to the same parameters anymore.
+    #[inline]
+    fn stop_smoothers(&mut self) {
+        for (_, smoother) in self.smoothers.iter_mut() {
+            smoother.stop();
+        }
+        self.target_refresh.clear();
+    }
+
     #[inline]
     fn process_smoothers(&mut self, nframes: usize) {
         let prog = &mut self.prog;
diff --git a/src/util.rs b/src/util.rs
index 63014d5..8115d05 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -28,7 +28,6 @@ impl Smoother {
     }
 
     #[inline]
-    #[allow(dead_code)]
     pub fn stop(&mut self) {
         self.done = true;
     }
-- 
2.43.0


From 8f132e5f6151145f112168ed9132a6f7f50fcf1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:25 +0000
Subject: [PATCH 04/44] fix: setting an atom before its program is uploaded
 panics on the audio thread

---
 src/nodes/node_exec.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/nodes/node_exec.rs b/src/nodes/node_exec.rs
index 48ef194..d68df93 100644
--- a/src/nodes/node_exec.rs
+++ b/src/nodes/node_exec.rs
@@ -288,8 +288,11 @@ impl NodeExecutor {
                     });
                 }
                 GraphMessage::AtomUpdate { at_idx, value } => {
-                    let prog = &mut self.prog;
-                    let garbage = std::mem::replace(&mut prog.atoms[at_idx], value);
+                    // The atom might belong to a node whose program was not uploaded (yet):
+                    let garbage = match self.prog.atoms.get_mut(at_idx) {
+                        Some(atom) => std::mem::replace(atom, value),
+                        None => value,
+                    };
 
                     let _ = self.shared.graph_drop_prod.push(DropMsg::Atom { atom: garbage });
                 }
-- 
2.43.0


From 0618f4820ab719ad70acee6a9b009e510676f330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:34 +0000
Subject: [PATCH 05/44] fix: a rejected matrix change leaves the used inputs of
 the rejected change behind

---
 src/matrix.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/matrix.rs b/src/matrix.rs
index 9bd7215..b9b740a 100644
--- a/src/matrix.rs
+++ b/src/matrix.rs
@@ -671,6 +671,9 @@ impl Matrix {
     pub fn restore_matrix(&mut self) {
         if let Some(matrix) = self.saved_matrix.take() {
             self.matrix = matrix;
+            // The edges and assigned inputs might have been updated
+            // by a Matrix::check of the discarded changes:
+            self.update_graph_ordering_and_edges();
         }
     }
 
-- 
2.43.0


From cffd9ff1a7d2f71d74ea4fbe55bbf074adb869e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:33 +0000
Subject: [PATCH 06/44] fix: parameter changes are lost when all smoothers are
 busy

---
 src/nodes/node_exec.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/nodes/node_exec.rs b/src/nodes/node_exec.rs
index d68df93..cc93139 100644
--- a/src/nodes/node_exec.rs
+++ b/src/nodes/node_exec.rs
@@ -409,6 +409,11 @@ impl NodeExecutor {
             sm.1.set(prog.params[input_idx], value);
             //d// println!("SET SMOOTHER {} {:6.3} (old = {:6.3})",
             //d//          input_idx, value, prog.params[input_idx]);
+        } else {
+            // All smoothers are busy, so there is nothing left but to jump to the new value:
+            prog.params[input_idx] = value;
+            prog.inp[input_idx].fill(value);
+            self.target_refresh.retain(|(idx, _)| *idx != input_idx);
         }
     }
 
-- 
2.43.0


From 8aceb08279870ed0290d22a3d3861f0d88e9b86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:36 +0000
Subject: [PATCH 07/44] fix: pattern cells show the text of the previously
 loaded pattern

---
 src/dsp/tracker/pattern.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dsp/tracker/pattern.rs b/src/dsp/tracker/pattern.rs
index 4783f09..415d2c4 100644
--- a/src/dsp/tracker/pattern.rs
+++ b/src/dsp/tracker/pattern.rs
@@ -98,6 +98,7 @@ impl PatternData {
         for (row_idx, row) in repr.data.iter().enumerate() {
             for (col_idx, cell) in row.iter().enumerate() {
                 self.data[row_idx][col_idx] = if *cell < 0 { None } else { Some(*cell as u16) };
+                self.strings[row_idx][col_idx] = None;
             }
         }
 
-- 
2.43.0


From d9150a874f8320b0f684db0390dba6f11479a8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:36 +0000
Subject: [PATCH 08/44] fix: saving a micro sample with less than 8 values
 panics, longer ones are cut off

---
 src/matrix_repr.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/matrix_repr.rs b/src/matrix_repr.rs
index c6146f8..e2e9521 100644
--- a/src/matrix_repr.rs
+++ b/src/matrix_repr.rs
@@ -258,11 +258,11 @@ fn deserialize_atom(v: &Value) -> Result<SAtom, MatrixDeserError> {
             }
         }
         "ms" => {
-            let mut buf: [f32; 8] = [0.0; 8];
+            let mut buf: Vec<f32> = vec![];
 
-            for i in 0..8 {
-                if let Some(v) = v[i + 1].as_f64() {
-                    buf[i] = v as f32;
+            for s in v.as_array().iter().flat_map(|a| a.iter().skip(1)) {
+                if let Some(s) = s.as_f64() {
+                    buf.push(s as f32);
                 } else {
                     return Err(MatrixDeserError::InvalidAtom(v.to_string()));
                 }
@@ -276,7 +276,9 @@ fn deserialize_atom(v: &Value) -> Result<SAtom, MatrixDeserError> {
 
 fn serialize_atom(atom: &SAtom) -> Value {
     match atom {
-        SAtom::MicroSample(s) => json!(["ms", s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7],]),
+        SAtom::MicroSample(s) => {
+            Value::Array(std::iter::once(json!("ms")).chain(s.iter().map(|v| json!(v))).collect())
+        }
         SAtom::Str(s) => json!(["s", s]),
         SAtom::AudioSample((s, _)) => json!(["as", s]),
         SAtom::Setting(i) => json!(["i", i]),
-- 
2.43.0


From 3851bb3fc76491ef6a23736344c054d403885bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:36 +0000
Subject: [PATCH 09/44] fix: patterns and block functions of the previous patch
 survive loading another one

---
 src/dsp/tracker/pattern.rs |  6 ++++++
 src/global.rs              | 21 +++++++++++++++++++++
 src/matrix.rs              |  3 +++
 3 files changed, 30 insertions(+)

diff --git a/src/dsp/tracker/pattern.rs b/src/dsp/tracker/pattern.rs
index 415d2c4..9c327cb 100644
--- a/src/dsp/tracker/pattern.rs
+++ b/src/dsp/tracker/pattern.rs
@@ -55,6 +55,12 @@ impl PatternData {
         true
     }
 
+    /// Resets the pattern to the state of a newly created [crate::dsp::tracker::Tracker].
+    pub fn clear(&mut self) {
+        let generation = self.generation + 1;
+        *self = Self { generation, ..Self::new(MAX_PATTERN_LEN) };
+    }
+
     pub fn to_repr(&self) -> PatternRepr {
         let mut col_types = [0; MAX_COLS];
         for (i, ct) in self.col_types.iter().enumerate() {
diff --git a/src/global.rs b/src/global.rs
index fe5c76f..2919cbc 100644
--- a/src/global.rs
+++ b/src/global.rs
@@ -125,6 +125,27 @@ impl NodeGlobalData {
         }
     }
 
+    /// Resets all pattern data and block functions to their initial empty state.
+    pub fn clear_patterns_and_block_functions(&mut self) {
+        for tracker in self.trackers.values() {
+            if let Ok(mut data) = tracker.data().lock() {
+                if !data.is_unset() {
+                    data.clear();
+                }
+            }
+        }
+
+        #[cfg(feature = "synfx-dsp-jit")]
+        for (_, block_fun) in self.block_functions.values() {
+            if let Ok(mut block_fun) = block_fun.lock() {
+                if !block_fun.is_unset() {
+                    let empty = BlockFun::new(block_fun.block_language());
+                    block_fun.load_snapshot(&empty.save_snapshot());
+                }
+            }
+        }
+    }
+
     /// Gives you direct access to the [CodeEngine] for `index` instance of
     /// the corresponding `Code` DSP node. You can also get the corresponding
     /// [BlockFun] via [NodeGlobalData::get_block_fun]. But in case of
diff --git a/src/matrix.rs b/src/matrix.rs
index b9b740a..cc4aa56 100644
--- a/src/matrix.rs
+++ b/src/matrix.rs
@@ -812,6 +812,9 @@ impl Matrix {
         self.properties.clear();
 
         self.config.delete_nodes();
+        if let Ok(mut node_global) = self.config.get_node_global().lock() {
+            node_global.clear_patterns_and_block_functions();
+        }
         self.monitor_cell(Cell::empty(NodeId::Nop));
         let _ = self.sync();
 
-- 
2.43.0


From afe337af1968f3d49cb793516adfe2ef1d4778cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:09 +0000
Subject: [PATCH 10/44] fix: cells and ports with too large numbers in a patch
 end up at wrapped around positions

---
 src/matrix.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/matrix.rs b/src/matrix.rs
index cc4aa56..a79f10c 100644
--- a/src/matrix.rs
+++ b/src/matrix.rs
@@ -116,12 +116,12 @@ impl Cell {
             node_id: repr.node_id,
             x: repr.x as u8,
             y: repr.y as u8,
-            out1: if repr.out[0] < 0 { None } else { Some(repr.out[0] as u8) },
-            out2: if repr.out[1] < 0 { None } else { Some(repr.out[1] as u8) },
-            out3: if repr.out[2] < 0 { None } else { Some(repr.out[2] as u8) },
-            in1: if repr.inp[0] < 0 { None } else { Some(repr.inp[0] as u8) },
-            in2: if repr.inp[1] < 0 { None } else { Some(repr.inp[1] as u8) },
-            in3: if repr.inp[2] < 0 { None } else { Some(repr.inp[2] as u8) },
+            out1: u8::try_from(repr.out[0]).ok(),
+            out2: u8::try_from(repr.out[1]).ok(),
+            out3: u8::try_from(repr.out[2]).ok(),
+            in1: u8::try_from(repr.inp[0]).ok(),
+            in2: u8::try_from(repr.inp[1]).ok(),
+            in3: u8::try_from(repr.inp[2]).ok(),
         }
     }
 
@@ -928,7 +928,7 @@ impl Matrix {
 
         for cell_repr in repr.cells.iter() {
             let cell = Cell::from_repr(cell_repr);
-            self.place(cell.x as usize, cell.y as usize, cell);
+            self.place(cell_repr.x, cell_repr.y, cell);
         }
 
         for (tracker_id, pat) in repr.patterns.iter().enumerate() {
-- 
2.43.0


From 86352b9fc5ce041684ff83dd3d2842d8edd1da2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:09 +0000
Subject: [PATCH 11/44] fix: loading a patch with too large patterns panics

---
 src/dsp/tracker/pattern.rs | 6 +++---
 src/matrix_repr.rs         | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/dsp/tracker/pattern.rs b/src/dsp/tracker/pattern.rs
index 9c327cb..902470b 100644
--- a/src/dsp/tracker/pattern.rs
+++ b/src/dsp/tracker/pattern.rs
@@ -101,14 +101,14 @@ impl PatternData {
             self.modified_col(i);
         }
 
-        for (row_idx, row) in repr.data.iter().enumerate() {
-            for (col_idx, cell) in row.iter().enumerate() {
+        for (row_idx, row) in repr.data.iter().take(MAX_PATTERN_LEN).enumerate() {
+            for (col_idx, cell) in row.iter().take(MAX_COLS).enumerate() {
                 self.data[row_idx][col_idx] = if *cell < 0 { None } else { Some(*cell as u16) };
                 self.strings[row_idx][col_idx] = None;
             }
         }
 
-        self.rows = repr.rows;
+        self.rows = repr.rows.min(self.data.len());
         self.edit_step = repr.edit_step;
         self.cursor = repr.cursor;
         self.generation += 1;
diff --git a/src/matrix_repr.rs b/src/matrix_repr.rs
index e2e9521..635c832 100644
--- a/src/matrix_repr.rs
+++ b/src/matrix_repr.rs
@@ -151,7 +151,7 @@ impl PatternRepr {
 
         let cts = &v["col_types"];
         if let Value::Array(cts) = cts {
-            for (i, ct) in cts.iter().enumerate() {
+            for (i, ct) in cts.iter().take(MAX_COLS).enumerate() {
                 col_types[i] = ct.as_i64().unwrap_or(0) as u8;
             }
         }
@@ -159,9 +159,9 @@ impl PatternRepr {
         let mut data = vec![vec![-1; MAX_COLS]; MAX_PATTERN_LEN];
         let dt = &v["data"];
         if let Value::Array(dt) = dt {
-            for (row_idx, row) in dt.iter().enumerate() {
+            for (row_idx, row) in dt.iter().take(MAX_PATTERN_LEN).enumerate() {
                 if let Value::Array(row) = row {
-                    for (col_idx, c) in row.iter().enumerate() {
+                    for (col_idx, c) in row.iter().take(MAX_COLS).enumerate() {
                         data[row_idx][col_idx] = c.as_i64().unwrap_or(-1) as i32;
                     }
                 }
-- 
2.43.0


From ae7fe995f4eac0ef398f8dce790ebfc386c8002c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:09 +0000
Subject: [PATCH 12/44] fix: connecting an input index just beyond the input
 map panics

---
 src/nodes/node_conf.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/nodes/node_conf.rs b/src/nodes/node_conf.rs
index b25fffa..11917b4 100644
--- a/src/nodes/node_conf.rs
+++ b/src/nodes/node_conf.rs
@@ -87,10 +87,7 @@ impl NodeInstance {
     }
 
     pub fn mod_in_local2global(&self, idx: u8) -> Option<usize> {
-        if (idx as usize) > self.in2mod_map.len() {
-            return None;
-        }
-        self.in2mod_map[idx as usize]
+        self.in2mod_map.get(idx as usize).copied().flatten()
     }
 
     pub fn in_local2global(&self, idx: u8) -> Option<usize> {
-- 
2.43.0


From 65caf46eb549a02c0828a5c1635ce6feb8348553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:21 +0000
Subject: [PATCH 13/44] fix: BiqFilt must not panic on an out of range order
 setting

---
 src/dsp/node_biqfilt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dsp/node_biqfilt.rs b/src/dsp/node_biqfilt.rs
index 063e0bd..6a37a26 100644
--- a/src/dsp/node_biqfilt.rs
+++ b/src/dsp/node_biqfilt.rs
@@ -146,7 +146,7 @@ impl DspNode for BiqFilt {
             self.ogain = cgain;
         }
 
-        let mut order = order.i() as u8;
+        let mut order = order.i().clamp(0, 3) as u8;
         if ftype == 1 {
             // The resonator just blows up with higher orders.
             order = 0;
-- 
2.43.0


From 94e5d8416b46ae831bfcf08e4f0cca6bab5049fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:22 +0000
Subject: [PATCH 14/44] fix: Mux9 must not panic on an out of range in_cnt
 setting

---
 src/dsp/node_mux9.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dsp/node_mux9.rs b/src/dsp/node_mux9.rs
index f0c7e45..df87f4b 100644
--- a/src/dsp/node_mux9.rs
+++ b/src/dsp/node_mux9.rs
@@ -151,7 +151,7 @@ impl DspNode for Mux9 {
         let t_down = inp::Mux9::t_down(inputs);
         let out = out::Mux9::sig(outputs);
 
-        let max: u8 = at::Mux9::in_cnt(atoms).i() as u8 + 1;
+        let max: u8 = at::Mux9::in_cnt(atoms).i().clamp(0, 8) as u8 + 1;
         self.idx %= max;
 
         if nctx.in_connected & 0x1 == 0x1 {
-- 
2.43.0


From 0a69fc53bcb4f40f0c17af70f801184b5ad47ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:38 +0000
Subject: [PATCH 15/44] fix: TSeq must not print (and allocate) on the audio
 thread

---
 src/dsp/node_tseq.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/dsp/node_tseq.rs b/src/dsp/node_tseq.rs
index f362c41..5a2f3cd 100644
--- a/src/dsp/node_tseq.rs
+++ b/src/dsp/node_tseq.rs
@@ -218,7 +218,6 @@ impl DspNode for TSeq {
         for (frame, phase_out) in phase_out.iter_mut().enumerate().take(ctx.nframes()) {
             if time.trigger.check_trigger(denorm::TSeq::trig(trig, frame)) {
                 time.clock.sync();
-                println!("CLOCK SYNC");
             }
 
             let phase = match cmode {
-- 
2.43.0


From 3a8f49e869d86e1dfcc5f4042beef28a0f0f82a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:38 +0000
Subject: [PATCH 16/44] fix: changing the pattern length must update all
 pattern columns

---
 src/dsp/tracker/pattern.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/dsp/tracker/pattern.rs b/src/dsp/tracker/pattern.rs
index 902470b..2152b03 100644
--- a/src/dsp/tracker/pattern.rs
+++ b/src/dsp/tracker/pattern.rs
@@ -124,6 +124,11 @@ impl PatternData {
         }
     }
 
+    /// Marks all columns as modified, so all of them are sent again.
+    pub(crate) fn modified_all_cols(&mut self) {
+        self.dirty_col = [true; MAX_COLS];
+    }
+
     pub fn col_is_modified_reset(&mut self, col: usize) -> bool {
         if self.dirty_col.get(col).copied().unwrap_or(false) {
             self.dirty_col[col] = false;
@@ -364,7 +369,8 @@ impl UIPatternModel for PatternData {
 
     fn set_rows(&mut self, rows: usize) {
         self.rows = rows.min(self.data.len());
-        self.modified_col(0); // modify any col, so we send an update.
+        // The interpolated values of all columns depend on the number of rows:
+        self.modified_all_cols();
         self.generation += 1;
     }
 
-- 
2.43.0


From eaf4a5d89cda27bcd18dca59077c98e04f00b2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:38 +0000
Subject: [PATCH 17/44] fix: a new tracker backend must receive all pattern
 columns

---
 src/dsp/tracker/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dsp/tracker/mod.rs b/src/dsp/tracker/mod.rs
index ea8c745..abf9588 100644
--- a/src/dsp/tracker/mod.rs
+++ b/src/dsp/tracker/mod.rs
@@ -117,6 +117,9 @@ impl Tracker {
             self.seq = Some(PatternSequencer::new(MAX_PATTERN_LEN));
             self.data_prod = prod;
             self.seq_cons = Some(con);
+
+            // The new backend starts out empty, so it needs all columns:
+            self.data.lock().unwrap().modified_all_cols();
         }
 
         let seq = self.seq.take().unwrap();
-- 
2.43.0


From 85e7a40eece782cc81a1e630fe9acbb10a9ce7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:38 +0000
Subject: [PATCH 18/44] fix: pattern updates must not get lost if the update
 queue is full

---
 src/dsp/tracker/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/dsp/tracker/mod.rs b/src/dsp/tracker/mod.rs
index abf9588..c5f5731 100644
--- a/src/dsp/tracker/mod.rs
+++ b/src/dsp/tracker/mod.rs
@@ -87,6 +87,11 @@ impl Tracker {
     }
 
     pub fn send_one_update(&mut self) -> bool {
+        if self.data_prod.is_full() {
+            // Keep the columns marked as modified, until there is space again.
+            return false;
+        }
+
         let mut data = self.data.lock().unwrap();
 
         for col in 0..MAX_COLS {
-- 
2.43.0


From 42a9ec86c1945b7a5512dc2508fc4aa2c86100e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:52 +0000
Subject: [PATCH 19/44] fix: CQnt must not allocate or hang on out of range
 octave settings

---
 src/dsp/node_cqnt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dsp/node_cqnt.rs b/src/dsp/node_cqnt.rs
index 7ed6146..01bcfac 100644
--- a/src/dsp/node_cqnt.rs
+++ b/src/dsp/node_cqnt.rs
@@ -118,7 +118,7 @@ impl DspNode for CQnt {
         let omin = at::CQnt::omin(atoms);
         let omax = at::CQnt::omax(atoms);
 
-        self.quant.update_keys(keys.i(), omin.i(), omax.i());
+        self.quant.update_keys(keys.i(), omin.i().clamp(0, 4), omax.i().clamp(0, 4));
 
         for frame in 0..ctx.nframes() {
             let pitch = self.quant.signal_to_pitch(denorm::CQnt::inp(inp, frame));
-- 
2.43.0


From bd71c774a0fa1130b10c60b2216d3665ac1d1467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:29 +0000
Subject: [PATCH 20/44] fix: CQnt must not panic if only keys outside the
 octave are selected

---
 src/dsp/node_cqnt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dsp/node_cqnt.rs b/src/dsp/node_cqnt.rs
index 01bcfac..f1915b5 100644
--- a/src/dsp/node_cqnt.rs
+++ b/src/dsp/node_cqnt.rs
@@ -118,7 +118,7 @@ impl DspNode for CQnt {
         let omin = at::CQnt::omin(atoms);
         let omax = at::CQnt::omax(atoms);
 
-        self.quant.update_keys(keys.i(), omin.i().clamp(0, 4), omax.i().clamp(0, 4));
+        self.quant.update_keys(keys.i() & 0xFFF, omin.i().clamp(0, 4), omax.i().clamp(0, 4));
 
         for frame in 0..ctx.nframes() {
             let pitch = self.quant.signal_to_pitch(denorm::CQnt::inp(inp, frame));
-- 
2.43.0


From 034183c14a56c7e720df5159071857d59e42214c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:09 +0000
Subject: [PATCH 21/44] fix: the settings of SMap are numbered in a different
 order than they are listed

---
 src/dsp/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dsp/mod.rs b/src/dsp/mod.rs
index 18c4d7a..339bf37 100644
--- a/src/dsp/mod.rs
+++ b/src/dsp/mod.rs
@@ -1458,8 +1458,8 @@ macro_rules! node_list {
                (0 inp   n_id       d_id   r_id  f_def  stp_d -1.0, 1.0, 0.0)
                (1 min   n_id       d_id   r_s   f_def  stp_d -1.0, 1.0, -1.0)
                (2 max   n_id       d_id   r_s   f_def  stp_d -1.0, 1.0, 1.0)
-               {3 1 mode setting(0) mode fa_smap_mode 0  3}
-               {4 0 clip setting(0) mode fa_smap_clip 0  1}
+               {3 0 mode setting(0) mode fa_smap_mode 0  3}
+               {4 1 clip setting(0) mode fa_smap_clip 0  1}
                [0 sig],
             map => Map UIType::Generic UICategory::Ctrl
                (0 inp   n_id       d_id   r_id  f_def  stp_d -1.0, 1.0, 0.0)
-- 
2.43.0


From ac7731f5565d4b6407b36e4276b84f0bfe864779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:27 +0000
Subject: [PATCH 22/44] fix: injected MIDI events are delivered in reverse
 order

---
 src/nodes/node_exec.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nodes/node_exec.rs b/src/nodes/node_exec.rs
index cc93139..c057c9b 100644
--- a/src/nodes/node_exec.rs
+++ b/src/nodes/node_exec.rs
@@ -338,7 +338,7 @@ impl NodeExecutor {
         self.exec_ctx.midi_ccs.clear();
 
         if self.injected_midi.len() > 0 {
-            for ev in self.injected_midi.iter().rev() {
+            for ev in self.injected_midi.iter() {
                 let ev = HxTimedEvent::new_timed(0, *ev);
                 if ev.is_cc() {
                     self.exec_ctx.midi_ccs.push(ev);
-- 
2.43.0


From ffbdd421f211876db7130e7dc4d1126fe3b1253f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:27 +0000
Subject: [PATCH 23/44] fix: late MIDI events make EventWindowing panic

---
 src/nodes/midi.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nodes/midi.rs b/src/nodes/midi.rs
index eef2e10..5f03c28 100644
--- a/src/nodes/midi.rs
+++ b/src/nodes/midi.rs
@@ -93,7 +93,7 @@ impl EventWindowing {
     ) -> Option<HxTimedEvent> {
         if let Some(event) = self.event.take() {
             if event.timing < (to_time + block_size) {
-                return Some(HxTimedEvent { timing: event.timing - to_time, kind: event.kind });
+                return Some(HxTimedEvent { timing: event.timing.saturating_sub(to_time), kind: event.kind });
             } else {
                 self.event = Some(event);
             }
-- 
2.43.0


From ed873788cddcbe43af9450ee04225bc213f66b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:27 +0000
Subject: [PATCH 24/44] fix: MidiP loses gates if multiple note events arrive
 in the same frame

---
 src/dsp/node_midip.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dsp/node_midip.rs b/src/dsp/node_midip.rs
index 6dbe1c3..6daa811 100644
--- a/src/dsp/node_midip.rs
+++ b/src/dsp/node_midip.rs
@@ -141,10 +141,11 @@ impl DspNode for MidiP {
                             continue;
                         }
 
-                        if self.cur_gate > 0 {
+                        if self.cur_gate > 0 || self.next_gate > 0 {
                             self.next_gate = 1;
                             self.cur_gate = 0;
                         } else {
+                            self.next_gate = 0;
                             self.cur_gate = 1;
                         }
                         self.trig_sig.trigger();
-- 
2.43.0


From 6a8db13497fdc2bc6c01fe5b47a65b92d83fbfb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:27 +0000
Subject: [PATCH 25/44] fix: MidiCC updates only the first output if multiple
 outputs use the same CC

---
 src/dsp/node_midicc.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dsp/node_midicc.rs b/src/dsp/node_midicc.rs
index d80da81..8a0b615 100644
--- a/src/dsp/node_midicc.rs
+++ b/src/dsp/node_midicc.rs
@@ -120,10 +120,12 @@ impl DspNode for MidiCC {
                     if cc == midicc_cc1 {
                         self.cur_cc1 = value;
                         change = true;
-                    } else if cc == midicc_cc2 {
+                    }
+                    if cc == midicc_cc2 {
                         self.cur_cc2 = value;
                         change = true;
-                    } else if cc == midicc_cc3 {
+                    }
+                    if cc == midicc_cc3 {
                         self.cur_cc3 = value;
                         change = true;
                     }
-- 
2.43.0


From f0c6058888435646a09b3930aa12c1b0a32b16fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:27 +0000
Subject: [PATCH 26/44] fix: the slew limiters of MidiCC and ExtA-F ignore the
 sample rate

---
 src/dsp/node_ext.rs    | 6 +++++-
 src/dsp/node_midicc.rs | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/dsp/node_ext.rs b/src/dsp/node_ext.rs
index 48dfadc..f6131a4 100644
--- a/src/dsp/node_ext.rs
+++ b/src/dsp/node_ext.rs
@@ -59,7 +59,11 @@ react to MIDI CC messages.
         }
 
         impl DspNode for $name {
-            fn set_sample_rate(&mut self, _srate: f32) {}
+            fn set_sample_rate(&mut self, srate: f32) {
+                self.slew1.set_sample_rate(srate);
+                self.slew2.set_sample_rate(srate);
+                self.slew3.set_sample_rate(srate);
+            }
             fn reset(&mut self) {}
 
             #[inline]
diff --git a/src/dsp/node_midicc.rs b/src/dsp/node_midicc.rs
index 8a0b615..24fbbf8 100644
--- a/src/dsp/node_midicc.rs
+++ b/src/dsp/node_midicc.rs
@@ -73,7 +73,11 @@ If you need different ~~slew~~ values for the CCs, I recommend creating other
 }
 
 impl DspNode for MidiCC {
-    fn set_sample_rate(&mut self, _srate: f32) {}
+    fn set_sample_rate(&mut self, srate: f32) {
+        self.slew_cc1.set_sample_rate(srate);
+        self.slew_cc2.set_sample_rate(srate);
+        self.slew_cc3.set_sample_rate(srate);
+    }
     fn reset(&mut self) {}
 
     #[inline]
-- 
2.43.0


From 9954107f263c977fad9056076f94f22092ed7dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:57 +0000
Subject: [PATCH 27/44] fix: MidiP gate does not restart in Gate Len mode if a
 note off precedes the note

---
 src/dsp/node_midip.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dsp/node_midip.rs b/src/dsp/node_midip.rs
index 6daa811..38c8d75 100644
--- a/src/dsp/node_midip.rs
+++ b/src/dsp/node_midip.rs
@@ -158,7 +158,8 @@ impl DspNode for MidiP {
                             continue;
                         }
 
-                        if self.cur_note == note {
+                        // The gate length overrides the note off:
+                        if self.cur_note == note && gmode != 2 {
                             self.next_gate = -1;
                         }
                     }
-- 
2.43.0


From e13f5b2507a85cb715777ae3d582a13f30d488cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:09 +0000
Subject: [PATCH 28/44] fix: Map mirrors inputs below the input range instead
 of extrapolating or clipping them

---
 src/dsp/node_map.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dsp/node_map.rs b/src/dsp/node_map.rs
index 55db70a..658a583 100644
--- a/src/dsp/node_map.rs
+++ b/src/dsp/node_map.rs
@@ -120,7 +120,7 @@ impl DspNode for Map {
                 let x = if (imax - imin).abs() < std::f32::EPSILON {
                     1.0
                 } else {
-                    ((s - imin) / (imax - imin)).abs()
+                    (s - imin) / (imax - imin)
                 };
                 last_val = x;
                 let s = min + (max - min) * x;
@@ -139,7 +139,7 @@ impl DspNode for Map {
                 let x = if (imax - imin).abs() < std::f32::EPSILON {
                     1.0
                 } else {
-                    ((s - imin) / (imax - imin)).abs()
+                    (s - imin) / (imax - imin)
                 };
                 last_val = x;
                 let s = min + (max - min) * x;
-- 
2.43.0


From 5347d70a9837eae4078a2f5129a92d950aa8cd3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:48 +0000
Subject: [PATCH 29/44] fix: MatrixCellChain::place may assign instances that
 are already used

---
 src/chain_builder.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/chain_builder.rs b/src/chain_builder.rs
index 959618b..21acfe2 100644
--- a/src/chain_builder.rs
+++ b/src/chain_builder.rs
@@ -260,13 +260,11 @@ impl MatrixCellChain {
             let node_name = node_id.name();
 
             let node_id = if let Some(i) = last_unused.get(node_name).cloned() {
-                last_unused.insert(node_name.to_string(), i + 1);
-                node_id.to_instance(i + 1)
+                matrix.get_unused_instance_node_id(node_id.to_instance(i + 1))
             } else {
-                let node_id = matrix.get_unused_instance_node_id(node_id);
-                last_unused.insert(node_name.to_string(), node_id.instance());
-                node_id
+                matrix.get_unused_instance_node_id(node_id)
             };
+            last_unused.insert(node_name.to_string(), node_id.instance());
 
             cell.set_node_id_keep_ios(node_id);
 
-- 
2.43.0


From 8cae0d1a2a1922dd67210ac9efe11f2d313e935d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:48 +0000
Subject: [PATCH 30/44] fix: MatrixCellChain::place sets the parameters of
 instance 0 instead of the placed nodes

---
 src/chain_builder.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/chain_builder.rs b/src/chain_builder.rs
index 21acfe2..99d9f28 100644
--- a/src/chain_builder.rs
+++ b/src/chain_builder.rs
@@ -250,6 +250,7 @@ impl MatrixCellChain {
         let mut last_unused = HashMap::new();
 
         let mut pos = (at_x, at_y);
+        let mut placed_node_ids = vec![];
 
         for link in self.chain.iter() {
             let (x, y) = pos;
@@ -269,15 +270,19 @@ impl MatrixCellChain {
             cell.set_node_id_keep_ios(node_id);
 
             matrix.place(x, y, cell);
+            placed_node_ids.push(node_id);
 
             let offs = link.dir.as_offs(pos.0);
             pos.0 = (pos.0 as i32 + offs.0) as usize;
             pos.1 = (pos.1 as i32 + offs.1) as usize;
         }
 
-        for link in self.chain.iter() {
+        for (link, node_id) in self.chain.iter().zip(placed_node_ids.iter()) {
             for (pid, at) in link.params.iter() {
-                matrix.set_param(*pid, at.clone());
+                // The parameters belong to the instance that was actually placed:
+                if let Some(pid) = node_id.inp_param(pid.name()) {
+                    matrix.set_param(pid, at.clone());
+                }
             }
         }
 
-- 
2.43.0


From 42c3fc17aefb641836291c6b019cf6eb289f88cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:48 +0000
Subject: [PATCH 31/44] fix: SynthConstructor can not be used anymore after a
 graph was rejected

---
 src/synth_constructor.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/synth_constructor.rs b/src/synth_constructor.rs
index f2770a2..6cd8151 100644
--- a/src/synth_constructor.rs
+++ b/src/synth_constructor.rs
@@ -298,7 +298,19 @@ impl SynthConstructor {
 
     pub fn upload(&mut self, node: &dyn ConstructorNodeBuilder) -> Result<(), SynthError> {
         let node = node.build();
-        self.walk_upload(&node, false)?;
+
+        // A rejected graph must not become part of the following uploads:
+        let saved_nodes = self.nodes.clone();
+        let res = self.upload_node(&node);
+        if res.is_err() {
+            self.nodes = saved_nodes;
+        }
+
+        res
+    }
+
+    fn upload_node(&mut self, node: &ConstructorNode) -> Result<(), SynthError> {
+        self.walk_upload(node, false)?;
 
         self.graph_ordering.clear();
 
-- 
2.43.0


From d436665e6fd6d49574ecb6dd28db826c601c0475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:48 +0000
Subject: [PATCH 32/44] fix: the feedback delay depends on the node order and
 loses the first sample

---
 src/shared_feedback.rs | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/shared_feedback.rs b/src/shared_feedback.rs
index 4ee55d8..bdab1df 100644
--- a/src/shared_feedback.rs
+++ b/src/shared_feedback.rs
@@ -52,17 +52,12 @@ impl SharedFeedback {
 pub struct SharedFeedbackWriter {
     buffer: Arc<Vec<AtomicFloat>>,
     write_ptr: usize,
-    delay_sample_count: usize,
 }
 
 impl SharedFeedbackWriter {
     pub fn new(sfb: &SharedFeedback) -> Self {
         let buffer = sfb.buffer.clone();
-        Self {
-            buffer,
-            delay_sample_count: sfb.delay_sample_count,
-            write_ptr: sfb.delay_sample_count,
-        }
+        Self { buffer, write_ptr: sfb.delay_sample_count }
     }
 
     /// Write the next sample in to the feedback buffer.
@@ -73,7 +68,7 @@ impl SharedFeedbackWriter {
     /// `FbRd` DSP node reading from that buffer.
     pub fn write(&mut self, s: f32) {
         self.buffer[self.write_ptr].set(s);
-        self.write_ptr = (self.write_ptr + 1) % self.delay_sample_count;
+        self.write_ptr = (self.write_ptr + 1) % self.buffer.len();
     }
 }
 
@@ -88,12 +83,11 @@ impl SharedFeedbackWriter {
 pub struct SharedFeedbackReader {
     buffer: Arc<Vec<AtomicFloat>>,
     read_ptr: usize,
-    delay_sample_count: usize,
 }
 
 impl SharedFeedbackReader {
     pub fn new(sfb: &SharedFeedback) -> Self {
-        Self { buffer: sfb.buffer.clone(), delay_sample_count: sfb.delay_sample_count, read_ptr: 0 }
+        Self { buffer: sfb.buffer.clone(), read_ptr: 0 }
     }
 
     /// Read the next sample from the buffer. Wraps around after some internal buffer
@@ -101,7 +95,7 @@ impl SharedFeedbackReader {
     /// to do it's functionality.
     pub fn read(&mut self) -> f32 {
         let ret = self.buffer[self.read_ptr].get();
-        self.read_ptr = (self.read_ptr + 1) % self.delay_sample_count;
+        self.read_ptr = (self.read_ptr + 1) % self.buffer.len();
         ret
     }
 }
-- 
2.43.0


From 7a6ff9b31c678c57fe0b4c0e97b466406cbc4ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:48 +0000
Subject: [PATCH 33/44] fix: Sampl declick overflows when the playhead is past
 the end of the sample

---
 src/dsp/node_sampl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dsp/node_sampl.rs b/src/dsp/node_sampl.rs
index 0293add..5d7dbd1 100644
--- a/src/dsp/node_sampl.rs
+++ b/src/dsp/node_sampl.rs
@@ -241,7 +241,7 @@ impl Sampl {
 
                 // next_sample mutates self.phase, so we need the current phase
                 // that is used for looking up the sample from the audio data.
-                let sample_idx = self.phase.floor() as usize;
+                let sample_idx = self.phase.floor() as usize % sample_slice.len().max(1);
 
                 let mut s =
                     self.next_sample(sr_factor, playback_speed as f64, sample_slice, reverse);
-- 
2.43.0


From e1b8a1a3e46b51ee568bd55fdadd27c8416f15dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:48 +0000
Subject: [PATCH 34/44] fix: 8 bit samples are loaded with 1/256 of their
 volume

---
 src/sample_lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sample_lib.rs b/src/sample_lib.rs
index 92c10e1..83eade1 100644
--- a/src/sample_lib.rs
+++ b/src/sample_lib.rs
@@ -62,9 +62,11 @@ impl SampleLibrary {
             }
             // http://blog.bjornroche.com/2009/12/int-float-int-its-jungle-out-there.html
             hound::SampleFormat::Int => {
+                // 8 bit samples have a smaller range than 16 bit samples:
+                let max = if rd.spec().bits_per_sample <= 8 { 0x80 } else { 0x8000 };
                 for s in rd.samples::<i16>().step_by(channels).take(max_sample_count) {
                     let s = s?;
-                    let s = s as f32 / (0x8000 as f32);
+                    let s = s as f32 / (max as f32);
                     v.push(s);
                 }
             }
-- 
2.43.0


From 4345bd52db3585dbd86a360e9db045eba7da0e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:57 +0000
Subject: [PATCH 35/44] fix: Sampl plays the first sample again at the end of a
 OneShot

---
 src/dsp/node_sampl.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/dsp/node_sampl.rs b/src/dsp/node_sampl.rs
index 5d7dbd1..2d9f360 100644
--- a/src/dsp/node_sampl.rs
+++ b/src/dsp/node_sampl.rs
@@ -260,12 +260,11 @@ impl Sampl {
                     s *= ramp_atten_factor as f32;
                 }
 
-                self.last_sample = s;
-                out.write(frame, s);
-
                 if !do_loop && prev_phase > self.phase {
-                    // played past end => stop playing.
+                    // played past end => stop playing and don't play
+                    // the beginning of the sample again.
                     is_playing = false;
+                    s = 0.0;
                 }
 
                 s
-- 
2.43.0


From 8f4ece1426830e0fecf2fd94521bb660fbf989f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:34 +0000
Subject: [PATCH 36/44] fix: Sampl OneShot never ends if the playback is faster
 than the sample is long

---
 src/dsp/node_sampl.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dsp/node_sampl.rs b/src/dsp/node_sampl.rs
index 2d9f360..f97da4f 100644
--- a/src/dsp/node_sampl.rs
+++ b/src/dsp/node_sampl.rs
@@ -212,8 +212,6 @@ impl Sampl {
                 let freq = denorm_offs::Sampl::freq(freq, det.read(frame), frame);
                 let playback_speed = freq / 440.0;
 
-                let prev_phase = self.phase;
-
                 let sd_len = sample_data.len();
 
                 let cur_offs = denorm::Sampl::offs(offs, frame).abs().min(0.999999) as f64;
@@ -242,6 +240,8 @@ impl Sampl {
                 // next_sample mutates self.phase, so we need the current phase
                 // that is used for looking up the sample from the audio data.
                 let sample_idx = self.phase.floor() as usize % sample_slice.len().max(1);
+                let past_end =
+                    !sample_slice.is_empty() && self.phase >= sample_slice.len() as f64;
 
                 let mut s =
                     self.next_sample(sr_factor, playback_speed as f64, sample_slice, reverse);
@@ -260,7 +260,7 @@ impl Sampl {
                     s *= ramp_atten_factor as f32;
                 }
 
-                if !do_loop && prev_phase > self.phase {
+                if !do_loop && past_end {
                     // played past end => stop playing and don't play
                     // the beginning of the sample again.
                     is_playing = false;
-- 
2.43.0


From 5a3be14283752a1c3ac8befdadd04cfc333c962c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:57 +0000
Subject: [PATCH 37/44] fix: the first point of a Scope's first recording
 always includes 0

---
 src/dsp/node_scope.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dsp/node_scope.rs b/src/dsp/node_scope.rs
index ef4b738..a4bfc38 100644
--- a/src/dsp/node_scope.rs
+++ b/src/dsp/node_scope.rs
@@ -54,7 +54,7 @@ impl Scope {
             idx: 0,
             srate_ms: 44.1,
             frame_time: 0.0,
-            cur_mm: Box::new([(0.0, 0.0); 3]),
+            cur_mm: Box::new([(-99999.0, 99999.0); 3]),
             trig: CustomTrigger::new(0.0, 0.0001),
         }
     }
-- 
2.43.0


From 2da735a2b6e7edd9f1033b05cefa446f40d70adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:44 +0000
Subject: [PATCH 38/44] fix: UIPatternModel::change_value overflows for large
 values and offsets

---
 src/dsp/tracker/pattern.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dsp/tracker/pattern.rs b/src/dsp/tracker/pattern.rs
index 2152b03..574ebc9 100644
--- a/src/dsp/tracker/pattern.rs
+++ b/src/dsp/tracker/pattern.rs
@@ -243,8 +243,8 @@ impl PatternData {
 
 impl dyn UIPatternModel {
     pub fn change_value(&mut self, row: usize, col: usize, offs: i16) {
-        let val = self.get_cell_value(row, col) as i16;
-        let val = (val + offs).max(0).min(0xfff);
+        let val = self.get_cell_value(row, col) as i32;
+        let val = (val + offs as i32).max(0).min(0xfff);
         self.set_cell_value(row, col, val as u16);
     }
 }
-- 
2.43.0


From 5ad93d601818f5c0a0bf206e3ec7f6fe5af4019e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:26 +0000
Subject: [PATCH 39/44] fix: NodeInfo::in_name returns the wrong name for
 settings

---
 src/dsp/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dsp/mod.rs b/src/dsp/mod.rs
index 339bf37..4cc4d16 100644
--- a/src/dsp/mod.rs
+++ b/src/dsp/mod.rs
@@ -2549,7 +2549,7 @@ macro_rules! make_node_info_enum {
                 if let Some(s) = self.inputs.get(in_idx) {
                     Some(*s)
                 } else {
-                    Some(*(self.atoms.get(in_idx)?))
+                    Some(*(self.atoms.get(in_idx - self.inputs.len())?))
                 }
             }
 
-- 
2.43.0


From f339f5a7b58952f041bab0e9aab081e874dc16e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:26 +0000
Subject: [PATCH 40/44] fix: ParamId::param_steps returns the range instead of
 the steps

---
 src/dsp/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dsp/mod.rs b/src/dsp/mod.rs
index 4cc4d16..85fd8e0 100644
--- a/src/dsp/mod.rs
+++ b/src/dsp/mod.rs
@@ -2013,7 +2013,7 @@ macro_rules! make_node_info_enum {
                     NodeId::$v1           => None,
                     $(NodeId::$variant(_) => {
                         match self.idx {
-                            $($in_idx => Some(($min, $max)),)*
+                            $($in_idx => Some($steps!()),)*
                             _         => None,
                         }
                     }),+
-- 
2.43.0


From 4c97d4c0560d44085d5b2131edd8d91bcb4c12a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:44 +0000
Subject: [PATCH 41/44] fix: ignore shifting a port of a row that the block
 does not have

Block::shift_port() panicked in Vec::remove for rows outside of the block.
---
 src/wblockdsp/language.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/wblockdsp/language.rs b/src/wblockdsp/language.rs
index 2efe7fe..b0c794a 100644
--- a/src/wblockdsp/language.rs
+++ b/src/wblockdsp/language.rs
@@ -120,6 +120,10 @@ impl Block {
             v.resize(self.rows, None);
         }
 
+        if idx >= v.len() {
+            return;
+        }
+
         let idx_from = idx;
         let idx_to = (idx + 1) % v.len();
         let elem = v.remove(idx_from);
-- 
2.43.0


From a80cf2e2420845f72798795ce3412225d69da278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:44 +0000
Subject: [PATCH 42/44] fix: keep the block if it is moved to an unknown area

BlockFun::move_block_from_to() removed the block before it found out that
the destination area does not exist, the block was lost.
---
 src/wblockdsp/language.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/wblockdsp/language.rs b/src/wblockdsp/language.rs
index b0c794a..a099567 100644
--- a/src/wblockdsp/language.rs
+++ b/src/wblockdsp/language.rs
@@ -1686,6 +1686,10 @@ impl BlockFun {
             return Err(BlockDSPError::CircularAction(id, id2));
         }
 
+        if id2 >= self.areas.len() {
+            return Err(BlockDSPError::UnknownArea(id2));
+        }
+
         let (block, xo, yo) = if let Some(area) = self.areas.get_mut(id) {
             area.remove_at(x, y).ok_or(BlockDSPError::NoBlockAt(id, x, y))?
         } else {
-- 
2.43.0


From f5f5dc2d41b89ace9e51bd2dac8402d0822a00b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:00 +0000
Subject: [PATCH 43/44] fix: loading a broken block function must not panic or
 hang

A block function snapshot without areas, with sub areas that do not exist or that
are contained in multiple blocks (or in themself), and with extreme rows, positions,
sizes or ID counters made BlockFun::load_snapshot() panic or never return.
---
 src/wblockdsp/language.rs | 57 ++++++++++++++++++++++++++++++++++-----
 1 file changed, 51 insertions(+), 6 deletions(-)

diff --git a/src/wblockdsp/language.rs b/src/wblockdsp/language.rs
index a099567..e66d598 100644
--- a/src/wblockdsp/language.rs
+++ b/src/wblockdsp/language.rs
@@ -56,6 +56,12 @@ impl BlockIDGenerator {
     }
 }
 
+/// The maximum number of rows a deserialized [Block] may have.
+const MAX_LOADED_ROWS: i64 = 256;
+/// The maximum (absolute) position of a deserialized [Block] and the maximum
+/// size of a deserialized [BlockArea].
+const MAX_LOADED_POS: i64 = i32::MAX as i64;
+
 /// This structure represents a block inside the [BlockArea] of a [BlockFun].
 /// It stores everything required for calculating a node of the AST.
 ///
@@ -244,7 +250,7 @@ impl Block {
 
         Ok(Box::new(Block {
             id: v["id"].as_i64().unwrap_or(0) as usize,
-            rows: v["rows"].as_i64().unwrap_or(0) as usize,
+            rows: v["rows"].as_i64().unwrap_or(0).clamp(0, MAX_LOADED_ROWS) as usize,
             contains: (
                 if v["contains"][0].is_i64() {
                     Some(v["contains"][0].as_i64().unwrap_or(0) as usize)
@@ -930,15 +936,15 @@ impl BlockArea {
         let blks = &v["blocks"];
         if let Value::Array(blks) = blks {
             for b in blks.iter() {
-                let x = b["x"].as_i64().unwrap_or(0);
-                let y = b["y"].as_i64().unwrap_or(0);
+                let x = b["x"].as_i64().unwrap_or(0).clamp(-MAX_LOADED_POS, MAX_LOADED_POS);
+                let y = b["y"].as_i64().unwrap_or(0).clamp(-MAX_LOADED_POS, MAX_LOADED_POS);
                 blocks.insert((x, y), Block::deserialize(&b["block"])?);
             }
         }
 
         let size = (
-            v["size"][0].as_i64().unwrap_or(0) as usize,
-            v["size"][1].as_i64().unwrap_or(0) as usize,
+            v["size"][0].as_i64().unwrap_or(0).clamp(0, MAX_LOADED_POS) as usize,
+            v["size"][1].as_i64().unwrap_or(0).clamp(0, MAX_LOADED_POS) as usize,
         );
         let auto_shrink = v["auto_shrink"].as_bool().unwrap_or(true);
         let header = v["header"].as_str().unwrap_or("").to_string();
@@ -1149,11 +1155,50 @@ impl BlockFunSnapshot {
             }
         }
 
+        Self::repair_areas(&mut a);
+
         Ok(BlockFunSnapshot {
             areas: a,
-            cur_id: v["current_block_id_counter"].as_i64().unwrap_or(0) as usize,
+            cur_id: v["current_block_id_counter"].as_i64().unwrap_or(0).max(0) as usize,
         })
     }
+
+    /// Makes sure there is a root area and that every sub area exists and is
+    /// contained in only one block. Otherwise the other functions
+    /// of [BlockFun] would panic or run into endless recursion.
+    fn repair_areas(areas: &mut Vec<Box<BlockArea>>) {
+        if areas.is_empty() {
+            areas.push(Box::new(BlockArea::new(16, 16)));
+        }
+
+        let mut parents: Vec<Option<usize>> = vec![None; areas.len()];
+
+        for (area_id, area) in areas.iter_mut().enumerate() {
+            for block in area.blocks.values_mut() {
+                for sub_area in [&mut block.contains.0, &mut block.contains.1] {
+                    let sub_id = match *sub_area {
+                        Some(sub_id) => sub_id,
+                        None => continue,
+                    };
+
+                    let mut valid = sub_id > 0 && parents.get(sub_id) == Some(&None);
+
+                    // The area must not be contained in itself:
+                    let mut cur = Some(area_id);
+                    while let Some(id) = cur {
+                        valid = valid && id != sub_id;
+                        cur = parents[id];
+                    }
+
+                    if valid {
+                        parents[sub_id] = Some(area_id);
+                    } else {
+                        *sub_area = None;
+                    }
+                }
+            }
+        }
+    }
 }
 
 #[derive(Debug, Clone)]
-- 
2.43.0


From 87a013d596abd8d436c53d54d200399e0b826a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:42 +0000
Subject: [PATCH 44/44] fix: the labels of blocks were reported longer than the
 buffer

BlockView::label(), input_label() and output_label() of Block returned the length of
the whole label, even if it did not fit into the given buffer.
---
 src/wblockdsp/language.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/wblockdsp/language.rs b/src/wblockdsp/language.rs
index e66d598..342ac7e 100644
--- a/src/wblockdsp/language.rs
+++ b/src/wblockdsp/language.rs
@@ -289,9 +289,9 @@ impl BlockView for Block {
     }
     fn label(&self, buf: &mut [u8]) -> usize {
         use std::io::Write;
-        let mut bw = std::io::BufWriter::new(buf);
-        match write!(bw, "{}", self.lbl) {
-            Ok(_) => bw.buffer().len(),
+        let mut cur = std::io::Cursor::new(buf);
+        match write!(cur, "{}", self.lbl) {
+            Ok(_) => cur.position() as usize,
             _ => 0,
         }
     }
@@ -305,9 +305,9 @@ impl BlockView for Block {
         use std::io::Write;
         if let Some(lbl_opt) = self.inputs.get(idx) {
             if let Some(lbl) = lbl_opt {
-                let mut bw = std::io::BufWriter::new(buf);
-                match write!(bw, "{}", lbl) {
-                    Ok(_) => bw.buffer().len(),
+                let mut cur = std::io::Cursor::new(buf);
+                match write!(cur, "{}", lbl) {
+                    Ok(_) => cur.position() as usize,
                     _ => 0,
                 }
             } else {
@@ -321,9 +321,9 @@ impl BlockView for Block {
         use std::io::Write;
         if let Some(lbl_opt) = self.outputs.get(idx) {
             if let Some(lbl) = lbl_opt {
-                let mut bw = std::io::BufWriter::new(buf);
-                match write!(bw, "{}", lbl) {
-                    Ok(_) => bw.buffer().len(),
+                let mut cur = std::io::Cursor::new(buf);
+                match write!(cur, "{}", lbl) {
+                    Ok(_) => cur.position() as usize,
                     _ => 0,
                 }
             } else {
-- 
2.43.0

