From 5cd598d3cd4be1a34584e2a2ba9d34c8c8f3a5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:58 +0000
Subject: [PATCH 01/33] fix: do not fold an operand past a unary consumer of
 the next operand

---
 src/parser.rs | 42 ++++++++++++++++++++++++++++++++++++++----
 1 file changed, 38 insertions(+), 4 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 73a4004..c54c013 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -137,6 +137,36 @@ fn take_f64_operand(pending: &mut Vec<PendingOperand>, reg_index: u16) -> F64Reg
     }
 }
 
+/// Check if a foldable consumer takes a single operand.
+#[inline]
+fn is_unary_consumer(op: &wasmparser::Operator) -> bool {
+    matches!(
+        op,
+        wasmparser::Operator::I32Clz
+            | wasmparser::Operator::I32Ctz
+            | wasmparser::Operator::I32Popcnt
+            | wasmparser::Operator::I32Eqz
+            | wasmparser::Operator::I64Clz
+            | wasmparser::Operator::I64Ctz
+            | wasmparser::Operator::I64Popcnt
+            | wasmparser::Operator::I64Eqz
+            | wasmparser::Operator::F32Abs
+            | wasmparser::Operator::F32Neg
+            | wasmparser::Operator::F32Ceil
+            | wasmparser::Operator::F32Floor
+            | wasmparser::Operator::F32Trunc
+            | wasmparser::Operator::F32Nearest
+            | wasmparser::Operator::F32Sqrt
+            | wasmparser::Operator::F64Abs
+            | wasmparser::Operator::F64Neg
+            | wasmparser::Operator::F64Ceil
+            | wasmparser::Operator::F64Floor
+            | wasmparser::Operator::F64Trunc
+            | wasmparser::Operator::F64Nearest
+            | wasmparser::Operator::F64Sqrt
+    )
+}
+
 /// Check if the next instruction(s) can fold an I32 operand.
 #[inline]
 fn can_fold_i32<'a>(
@@ -152,7 +182,8 @@ fn can_fold_i32<'a>(
             wasmparser::Operator::I32Const { .. } | wasmparser::Operator::LocalGet { .. }
         ) {
             if let Some(Ok((next_next_op, _))) = ops.peek() {
-                is_i32_foldable_consumer(next_next_op)
+                // A unary consumer only takes the intervening operand, not this one.
+                is_i32_foldable_consumer(next_next_op) && !is_unary_consumer(next_next_op)
             } else {
                 false
             }
@@ -181,7 +212,8 @@ fn can_fold_i64<'a>(
             wasmparser::Operator::I64Const { .. } | wasmparser::Operator::LocalGet { .. }
         ) {
             if let Some(Ok((next_next_op, _))) = ops.peek() {
-                is_i64_foldable_consumer(next_next_op)
+                // A unary consumer only takes the intervening operand, not this one.
+                is_i64_foldable_consumer(next_next_op) && !is_unary_consumer(next_next_op)
             } else {
                 false
             }
@@ -210,7 +242,8 @@ fn can_fold_f32<'a>(
             wasmparser::Operator::F32Const { .. } | wasmparser::Operator::LocalGet { .. }
         ) {
             if let Some(Ok((next_next_op, _))) = ops.peek() {
-                is_f32_foldable_consumer(next_next_op)
+                // A unary consumer only takes the intervening operand, not this one.
+                is_f32_foldable_consumer(next_next_op) && !is_unary_consumer(next_next_op)
             } else {
                 false
             }
@@ -239,7 +272,8 @@ fn can_fold_f64<'a>(
             wasmparser::Operator::F64Const { .. } | wasmparser::Operator::LocalGet { .. }
         ) {
             if let Some(Ok((next_next_op, _))) = ops.peek() {
-                is_f64_foldable_consumer(next_next_op)
+                // A unary consumer only takes the intervening operand, not this one.
+                is_f64_foldable_consumer(next_next_op) && !is_unary_consumer(next_next_op)
             } else {
                 false
             }
-- 
2.43.0


From eb6986bc063e47d0deda4d99bb1d751ba771303c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:08 +0000
Subject: [PATCH 02/33] fix: pick branch source registers by type for
 mixed-type label values

---
 src/parser.rs | 45 +++------------------------------------------
 1 file changed, 3 insertions(+), 42 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index c54c013..58d4d90 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -7361,49 +7361,10 @@ fn compute_branch_regs(
         target_block.result_regs.clone()
     };
 
-    // Compute source_regs from current allocator state
+    // The source registers are the stack top registers of the target's types
     let source_regs = if let Some(allocator) = reg_allocator {
-        // Get the registers at stack top matching result types
-        let result_count = target_result_regs.len();
-        if result_count == 0 {
-            Vec::new()
-        } else {
-            // Get current state and compute source registers
-            let state = allocator.save_state();
-            target_result_regs
-                .iter()
-                .enumerate()
-                .map(|(i, target_reg)| {
-                    // Source register is at current_depth - result_count + i
-                    match target_reg {
-                        Reg::I32(_) => {
-                            let src_idx = state.i32_depth.saturating_sub(result_count - i);
-                            Reg::I32(src_idx as u16)
-                        }
-                        Reg::I64(_) => {
-                            let src_idx = state.i64_depth.saturating_sub(result_count - i);
-                            Reg::I64(src_idx as u16)
-                        }
-                        Reg::F32(_) => {
-                            let src_idx = state.f32_depth.saturating_sub(result_count - i);
-                            Reg::F32(src_idx as u16)
-                        }
-                        Reg::F64(_) => {
-                            let src_idx = state.f64_depth.saturating_sub(result_count - i);
-                            Reg::F64(src_idx as u16)
-                        }
-                        Reg::Ref(_) => {
-                            let src_idx = state.ref_depth.saturating_sub(result_count - i);
-                            Reg::Ref(src_idx as u16)
-                        }
-                        Reg::V128(_) => {
-                            let src_idx = state.v128_depth.saturating_sub(result_count - i);
-                            Reg::V128(src_idx as u16)
-                        }
-                    }
-                })
-                .collect()
-        }
+        let types: Vec<ValueType> = target_result_regs.iter().map(|r| r.value_type()).collect();
+        allocator.peek_regs_for_types(&types)
     } else {
         Vec::new()
     };
-- 
2.43.0


From e9298967281c3812d62e418b4afa0625de0a28a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:09 +0000
Subject: [PATCH 03/33] fix: pass loop parameters on branches to a loop

---
 src/parser.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 58d4d90..766f2a9 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -5232,6 +5232,15 @@ fn decode_processed_instrs_and_fixups<'a>(
                     let saved_state = allocator.save_state();
                     allocator_state_stack.push(saved_state.clone());
 
+                    // Registers holding the params, where branches to a loop put its arguments
+                    let param_regs: Vec<Reg> = {
+                        let mut state = saved_state.clone();
+                        param_types
+                            .iter()
+                            .map(|vtype| state.next_reg_for_type(vtype))
+                            .collect()
+                    };
+
                     // Calculate result_regs at block entry depth
                     let result_types = get_block_result_types(&blockty, module);
                     let result_regs: Vec<Reg> = {
@@ -5255,7 +5264,7 @@ fn decode_processed_instrs_and_fixups<'a>(
                         block_type: *blockty,
                         is_loop,
                         result_regs: result_regs.into(),
-                        param_regs: Vec::new(),
+                        param_regs,
                     });
 
                     let instr = ProcessedInstr::BlockReg {
-- 
2.43.0


From ae4d8b4d2cdeca286af99ffe14060a2417682616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:19 +0000
Subject: [PATCH 04/33] fix: carry results on branches to the function label

---
 src/parser.rs | 55 ++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 39 insertions(+), 16 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 766f2a9..227fa74 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1373,8 +1373,8 @@ fn preprocess_instructions(
 
         if current_control_stack_pass2.len() <= current_fixup_depth {
             // Depth exceeds control stack - this is a branch to function level (return)
-            // Set target_ip to end of function (processed.len())
-            let function_end_ip = processed.len();
+            // Set target_ip to the function's final End, which returns the results
+            let function_end_ip = processed.len() - 1;
             if let Some(instr_to_patch) = processed.get_mut(current_fixup_pc) {
                 if let ProcessedInstr::BrReg {
                     target_ip: ref mut tip,
@@ -1546,7 +1546,12 @@ fn preprocess_instructions(
                     for (rel_depth, _, result_regs) in targets_clone.iter() {
                         let depth = *rel_depth as usize;
                         if current_control_stack_pass3.len() <= depth {
-                            resolved_reg_targets.push((*rel_depth, 0, result_regs.clone())); // Invalid
+                            // Branch to function level: the final End returns the results
+                            resolved_reg_targets.push((
+                                *rel_depth,
+                                processed.len() - 1,
+                                result_regs.clone(),
+                            ));
                             continue;
                         }
                         let target_stack_level = current_control_stack_pass3.len() - 1 - depth;
@@ -1564,7 +1569,7 @@ fn preprocess_instructions(
                     // Compute target_ip for default target
                     // Note: block_end_map already stores End + 1 position
                     let default_target_ip = if current_control_stack_pass3.len() <= default_depth {
-                        0 // Invalid
+                        processed.len() - 1 // Function level
                     } else {
                         let target_stack_level =
                             current_control_stack_pass3.len() - 1 - default_depth;
@@ -1923,6 +1928,15 @@ fn decode_processed_instrs_and_fixups<'a>(
     use crate::execution::regs::RegAllocator;
     let mut reg_allocator = Some(RegAllocator::new(locals));
 
+    // Registers from which the function's final End takes the results
+    let function_result_regs: Vec<Reg> = {
+        let mut state = reg_allocator.as_ref().unwrap().save_state();
+        result_types
+            .iter()
+            .map(|vtype| state.next_reg_for_type(vtype))
+            .collect()
+    };
+
     // Track allocator state at block entry for proper restoration on block exit
     let mut allocator_state_stack: Vec<crate::execution::regs::RegAllocatorState> = Vec::new();
 
@@ -5182,7 +5196,11 @@ fn decode_processed_instrs_and_fixups<'a>(
                     };
 
                     // Get the top N registers based on result types
-                    let source_regs = allocator.peek_regs_for_types(&result_type_vec);
+                    let source_regs = if control_info_stack.is_empty() {
+                        function_result_regs.clone()
+                    } else {
+                        allocator.peek_regs_for_types(&result_type_vec)
+                    };
 
                     // Get target_result_regs from ControlBlockInfo BEFORE restoring state
                     let target_result_regs = if let Some(block_info) = control_info_stack.last() {
@@ -5522,6 +5540,7 @@ fn decode_processed_instrs_and_fixups<'a>(
                     // Compute source and target registers for branch
                     let (source_regs, target_result_regs) = compute_branch_regs(
                         &control_info_stack,
+                        &function_result_regs,
                         *relative_depth as usize,
                         reg_allocator.as_ref(),
                     );
@@ -5552,6 +5571,7 @@ fn decode_processed_instrs_and_fixups<'a>(
                     // Compute source and target registers for branch
                     let (source_regs, target_result_regs) = compute_branch_regs(
                         &control_info_stack,
+                        &function_result_regs,
                         *relative_depth as usize,
                         reg_allocator.as_ref(),
                     );
@@ -5589,6 +5609,7 @@ fn decode_processed_instrs_and_fixups<'a>(
                     for depth in target_depths.iter() {
                         let (_, target_result_regs) = compute_branch_regs(
                             &control_info_stack,
+                            &function_result_regs,
                             *depth as usize,
                             reg_allocator.as_ref(),
                         );
@@ -5603,6 +5624,7 @@ fn decode_processed_instrs_and_fixups<'a>(
                     // Compute source and target registers for default target
                     let (source_regs, default_result_regs) = compute_branch_regs(
                         &control_info_stack,
+                        &function_result_regs,
                         targets.default() as usize,
                         reg_allocator.as_ref(),
                     );
@@ -7351,23 +7373,24 @@ fn decode_processed_instrs_and_fixups<'a>(
 /// target_result_regs: where to copy them (the target block's result registers, or param_regs for loops)
 fn compute_branch_regs(
     control_info_stack: &[ControlBlockInfo],
+    function_result_regs: &[Reg],
     relative_depth: usize,
     reg_allocator: Option<&RegAllocator>,
 ) -> (Vec<Reg>, Vec<Reg>) {
     // Get target block from control_info_stack
     let stack_len = control_info_stack.len();
-    if stack_len == 0 || relative_depth >= stack_len {
-        return (Vec::new(), Vec::new());
-    }
-
-    let target_idx = stack_len - 1 - relative_depth;
-    let target_block = &control_info_stack[target_idx];
-    // For loops, use param_regs (branch provides parameters)
-    // For blocks/if, use result_regs (branch provides results)
-    let target_result_regs = if target_block.is_loop {
-        target_block.param_regs.clone()
+    let target_result_regs = if relative_depth >= stack_len {
+        // Function level: put the results where the final End takes them
+        function_result_regs.to_vec()
     } else {
-        target_block.result_regs.clone()
+        let target_block = &control_info_stack[stack_len - 1 - relative_depth];
+        // For loops, use param_regs (branch provides parameters)
+        // For blocks/if, use result_regs (branch provides results)
+        if target_block.is_loop {
+            target_block.param_regs.clone()
+        } else {
+            target_block.result_regs.clone()
+        }
     };
 
     // The source registers are the stack top registers of the target's types
-- 
2.43.0


From e769b7f591931f494a05849334556444c7d2a92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:23 +0000
Subject: [PATCH 05/33] fix: memory.grow fails with -1 instead of trapping or
 shrinking memory

The delta is an unsigned page count; sizes beyond the limit, the 65536-page
maximum or what can be allocated return -1 and leave the memory alone.
---
 src/execution/handlers.rs |  9 +--------
 src/execution/mem.rs      | 32 +++++++++++++++++---------------
 2 files changed, 18 insertions(+), 23 deletions(-)

diff --git a/src/execution/handlers.rs b/src/execution/handlers.rs
index 2a40f8d..ce55063 100644
--- a/src/execution/handlers.rs
+++ b/src/execution/handlers.rs
@@ -1997,14 +1997,7 @@ pub fn mem_grow(state: &mut VmState) -> Outcome {
         }
     };
     let delta = state.reg_file().get_i32(args[0].index());
-    let delta_u32: u32 = match delta.try_into() {
-        Ok(v) => v,
-        Err(_) => {
-            state.trap = Some(RuntimeError::InvalidParameterCount);
-            return trap(state);
-        }
-    };
-    let prev_size = mem_addr.mem_grow(delta_u32 as i32);
+    let prev_size = mem_addr.mem_grow(delta);
     if let Some(d) = dst {
         state.reg_file_mut().set_i32(d.index(), prev_size);
     }
diff --git a/src/execution/mem.rs b/src/execution/mem.rs
index 8c51a29..b1d6bba 100644
--- a/src/execution/mem.rs
+++ b/src/execution/mem.rs
@@ -90,26 +90,28 @@ impl MemAddr {
     /// Grows memory by the given number of pages. Returns previous size or -1 on failure.
     pub fn mem_grow(&self, size: i32) -> i32 {
         let prev_size = self.mem_size();
-        let new = prev_size + size;
+        // The delta is an unsigned page count.
+        let new = prev_size as u32 as u64 + size as u32 as u64;
 
-        // Safety: Single-threaded access
-        let mem = unsafe { &*self.mem_inst.get() };
-        let max_pages = mem._type_.0.max;
+        // Safety: Single-threaded access, no overlapping borrows
+        let mem = unsafe { &mut *self.mem_inst.get() };
+        let max_pages = mem._type_.0.max.map_or(65536, |max| max as u64);
 
-        if let Some(max) = max_pages {
-            if new > max as i32 {
-                return -1;
-            }
+        if new > max_pages.min(65536) {
+            return -1;
         }
 
-        if new > 65536 {
-            -1
-        } else {
-            // Safety: Single-threaded access, no overlapping borrows
-            let mem = unsafe { &mut *self.mem_inst.get() };
-            mem.data.resize(new as usize * 65536, 0);
-            prev_size
+        // Refuse sizes the host address space cannot represent or provide.
+        let new_len = match usize::try_from(new * 65536) {
+            Ok(len) => len,
+            Err(_) => return -1,
+        };
+        let additional = new_len - mem.data.len();
+        if mem.data.try_reserve(additional).is_err() {
+            return -1;
         }
+        mem.data.resize(new_len, 0);
+        prev_size
     }
 
     /// Returns a copy of all memory contents.
-- 
2.43.0


From f10e4ffadedb8d4953a47d4e8275c1be51e4abd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:23 +0000
Subject: [PATCH 06/33] fix: i32.trunc_f32_s/u trap at 2^31 and 2^32

i32::MAX and u32::MAX round up when converted to f32, so the inclusive upper
bound accepted the first out-of-range value.
---
 src/execution/handlers.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/execution/handlers.rs b/src/execution/handlers.rs
index ce55063..c2696c4 100644
--- a/src/execution/handlers.rs
+++ b/src/execution/handlers.rs
@@ -1166,7 +1166,7 @@ conv_trap!(
     write_dst_i32,
     f32,
     i32::MIN as f32,
-    i32::MAX as f32,
+    2147483520.0_f32, // largest f32 below 2^31
     |t: f32| t as i32
 );
 conv_trap!(
@@ -1175,7 +1175,7 @@ conv_trap!(
     write_dst_i32,
     f32,
     0.0_f32,
-    u32::MAX as f32,
+    4294967040.0_f32, // largest f32 below 2^32
     |t: f32| (t as u32) as i32
 );
 conv_trap!(
-- 
2.43.0


From 4335ef2dd89c0341b29c13fca3cc1061c224ad0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:13 +0000
Subject: [PATCH 07/33] fix: run the start function before the invoked export

The start section was looked up and then ignored. Its frame is now pushed above
the invoked function's frame of the first runtime of an instance.
---
 src/execution/module.rs  |  7 ++++++-
 src/execution/runtime.rs |  5 ++++-
 src/execution/state.rs   | 14 ++++++++++++++
 3 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/execution/module.rs b/src/execution/module.rs
index 6826a00..bea3319 100644
--- a/src/execution/module.rs
+++ b/src/execution/module.rs
@@ -9,6 +9,7 @@ use crate::error::RuntimeError;
 use crate::structure::{instructions::*, module::*, types::*};
 use crate::wasi::passthrough::PassthroughWasiImpl;
 use rustc_hash::FxHashMap;
+use std::cell::Cell;
 use std::rc::Rc;
 use std::sync::Arc;
 
@@ -22,6 +23,8 @@ pub struct ModuleInst {
     pub elem_addrs: Vec<ElemAddr>,
     pub data_addrs: Vec<DataAddr>,
     pub exports: Vec<ExportInst>,
+    /// Start function that has not been run yet (taken by the first `Runtime::new`).
+    pub start: Cell<Option<FuncAddr>>,
     pub wasi_func_addrs: Vec<WasiFuncAddr>,
     pub wasi_impl: Option<Arc<PassthroughWasiImpl>>,
 }
@@ -63,6 +66,7 @@ impl ModuleInst {
             elem_addrs: Vec::new(),
             data_addrs: Vec::new(),
             exports: Vec::new(),
+            start: Cell::new(None),
             wasi_func_addrs: Vec::new(),
             wasi_impl: None,
         };
@@ -225,7 +229,8 @@ impl ModuleInst {
                 .replace(func.clone(), Rc::downgrade(&arc_module_inst));
         }
         if let Some(start) = &module.start {
-            arc_module_inst.func_addrs.get_by_idx(start.func);
+            let func_addr = arc_module_inst.func_addrs.get_by_idx(start.func);
+            arc_module_inst.start.set(Some(func_addr.clone()));
         }
         Ok(arc_module_inst)
     }
diff --git a/src/execution/runtime.rs b/src/execution/runtime.rs
index 8795437..e371f88 100644
--- a/src/execution/runtime.rs
+++ b/src/execution/runtime.rs
@@ -55,7 +55,10 @@ impl Runtime {
         enable_checkpoint: bool,
         #[cfg(feature = "trace")] trace_config: Option<TraceConfig>,
     ) -> Result<Self, RuntimeError> {
-        let stacks = Stacks::new(func_addr, params)?;
+        let mut stacks = Stacks::new(func_addr, params)?;
+        if let Some(start) = module_inst.start.take() {
+            stacks.push_start(&start)?;
+        }
 
         #[cfg(feature = "trace")]
         let tracer = if let Some(config) = trace_config {
diff --git a/src/execution/state.rs b/src/execution/state.rs
index 8b9cdf6..9a60a65 100644
--- a/src/execution/state.rs
+++ b/src/execution/state.rs
@@ -211,6 +211,20 @@ impl VMState {
         }
     }
 
+    /// Pushes the start function's frame above the invoked function's frame, so
+    /// that it runs to completion before the invoked function begins.
+    pub fn push_start(&mut self, start: &FuncAddr) -> Result<(), RuntimeError> {
+        let start_stacks = VMState::new(start, Vec::new())?;
+        if let FuncInst::RuntimeFunc { code, .. } = start.read_lock() {
+            if let Some(alloc) = code.reg_allocation.as_ref() {
+                self.reg_file.save_offsets(alloc);
+            }
+        }
+        self.activation_frame_stack
+            .extend(start_stacks.activation_frame_stack);
+        Ok(())
+    }
+
     pub fn get_reg_file_and_frames(&mut self) -> (&mut RegFile, &mut Vec<FrameStack>) {
         (&mut self.reg_file, &mut self.activation_frame_stack)
     }
-- 
2.43.0


From 2a4244f7c5371c7af60a6c7e46c2219525686e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:13 +0000
Subject: [PATCH 08/33] fix: keep checkpointing enabled in every restored frame

---
 src/execution/runtime.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/execution/runtime.rs b/src/execution/runtime.rs
index e371f88..5a94167 100644
--- a/src/execution/runtime.rs
+++ b/src/execution/runtime.rs
@@ -222,8 +222,8 @@ impl Runtime {
             }
         }
 
-        // Set checkpoint enabled flag for initial frame stack
-        if let Some(frame_stack) = self.stacks.activation_frame_stack.first_mut() {
+        // Set checkpoint enabled flag for every frame (several after a restore)
+        for frame_stack in self.stacks.activation_frame_stack.iter_mut() {
             frame_stack.enable_checkpoint = self.enable_checkpoint;
         }
 
-- 
2.43.0


From 4a89e6725e7c3e98f1e7650766820b77645b8aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:13 +0000
Subject: [PATCH 09/33] fix: carry the checkpoint poll counter across calls

The counter restarted at every dispatcher entry, so a program whose calls and
returns are less than 1024 instructions apart never polled.
---
 src/execution/runtime.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/execution/runtime.rs b/src/execution/runtime.rs
index 5a94167..85ade22 100644
--- a/src/execution/runtime.rs
+++ b/src/execution/runtime.rs
@@ -32,6 +32,8 @@ pub struct Runtime {
     #[cfg_attr(not(feature = "stats"), allow(dead_code))]
     enable_stats: bool,
     enable_checkpoint: bool,
+    /// Poll throttle carried from one dispatcher entry to the next.
+    checkpoint_poll_counter: u32,
 }
 
 impl Drop for Runtime {
@@ -85,6 +87,7 @@ impl Runtime {
             tracer,
             enable_stats,
             enable_checkpoint,
+            checkpoint_poll_counter: 0,
         })
     }
 
@@ -123,6 +126,7 @@ impl Runtime {
             tracer,
             enable_stats,
             enable_checkpoint,
+            checkpoint_poll_counter: 0,
         }
     }
 
@@ -172,10 +176,11 @@ impl Runtime {
             yielded: None,
             return_result_regs: return_result_regs_ptr,
             enable_checkpoint,
-            checkpoint_poll_counter: 0,
+            checkpoint_poll_counter: self.checkpoint_poll_counter,
         };
 
         let outcome = dispatch::execute_instructions(&mut state);
+        self.checkpoint_poll_counter = state.checkpoint_poll_counter;
 
         let idx = state.current_label_idx;
         if idx < state.label_stack().len() {
-- 
2.43.0


From 3274bb1e9f20e52fb5884a0a7bbb76880d181b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:13 +0000
Subject: [PATCH 10/33] fix: honour checkpoint requests in modules without WASI
 imports

---
 src/execution/migration.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/execution/migration.rs b/src/execution/migration.rs
index 0543d7a..4830d41 100644
--- a/src/execution/migration.rs
+++ b/src/execution/migration.rs
@@ -125,13 +125,14 @@ fn do_poll_checkpoint(state: &mut VmState) -> bool {
         if state.checkpoint_poll_counter & CHECKPOINT_POLL_MASK != 0 {
             return false;
         }
-        if let Some(ref wasi) = state.module().wasi_impl {
-            if wasi.check_file_exists(CHECKPOINT_TRIGGER_FILE) {
-                let _ = std::fs::remove_file(CHECKPOINT_TRIGGER_FILE);
-                return true;
-            }
+        let requested = match state.module().wasi_impl {
+            Some(ref wasi) => wasi.check_file_exists(CHECKPOINT_TRIGGER_FILE),
+            None => Path::new(CHECKPOINT_TRIGGER_FILE).exists(),
+        };
+        if requested {
+            let _ = std::fs::remove_file(CHECKPOINT_TRIGGER_FILE);
         }
-        false
+        requested
     }
 }
 
-- 
2.43.0


From 217c2ec332b2eac8c271e9382231e5b86464bc46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:31 +0000
Subject: [PATCH 11/33] fix: store checkpoints atomically

The previous checkpoint.bin was truncated before the new one was written, so a
crash or a full disk during checkpointing destroyed it.
---
 src/execution/migration.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/execution/migration.rs b/src/execution/migration.rs
index 4830d41..0421d07 100644
--- a/src/execution/migration.rs
+++ b/src/execution/migration.rs
@@ -264,10 +264,17 @@ pub fn checkpoint<P: AsRef<Path>>(
 
     println!("  total encoded:      {} bytes", encoded.len());
 
+    // Write beside the target and rename, so that an interrupted or failed write
+    // never damages a previously stored checkpoint.
+    let mut tmp_path = output_path.as_ref().as_os_str().to_os_string();
+    tmp_path.push(".tmp");
     let mut file =
-        File::create(output_path).map_err(|e| RuntimeError::CheckpointSaveError(e.to_string()))?;
+        File::create(&tmp_path).map_err(|e| RuntimeError::CheckpointSaveError(e.to_string()))?;
     file.write_all(&encoded)
         .map_err(|e| RuntimeError::CheckpointSaveError(e.to_string()))?;
+    drop(file);
+    std::fs::rename(&tmp_path, output_path)
+        .map_err(|e| RuntimeError::CheckpointSaveError(e.to_string()))?;
 
     println!("Checkpoint successful.");
     Ok(())
-- 
2.43.0


From 6097eb8fdf63910059f1d83a53014be044f3e12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:05 +0000
Subject: [PATCH 12/33] fix: refuse damaged checkpoints and checkpoints of
 another module

A checkpoint taken from a different module was applied as far as it fitted and
execution resumed in an inconsistent state. The file now ends with a checksum
keyed by a hash of the module binary.
---
 src/execution/migration.rs | 24 +++++++++++++++++++++---
 src/execution/module.rs    |  3 +++
 src/parser.rs              |  1 +
 src/structure/module.rs    | 13 +++++++++++++
 4 files changed, 38 insertions(+), 3 deletions(-)

diff --git a/src/execution/migration.rs b/src/execution/migration.rs
index 0421d07..1d6d819 100644
--- a/src/execution/migration.rs
+++ b/src/execution/migration.rs
@@ -43,6 +43,7 @@ use crate::execution::mem::MemAddr;
 use crate::execution::module::ModuleInst;
 use crate::execution::state::{Stacks, VmState};
 use crate::execution::value::Val;
+use crate::structure::module::fingerprint;
 use serde::{Deserialize, Serialize};
 use std::fs::File;
 use std::io::{Read, Write};
@@ -259,9 +260,13 @@ pub fn checkpoint<P: AsRef<Path>>(
     println!("  global_values:      {} bytes", globals_size);
     println!("  frame_func_indices: {} bytes", indices_size);
 
-    let encoded: Vec<u8> =
+    let mut encoded: Vec<u8> =
         bincode::serialize(&state).map_err(|e| RuntimeError::SerializationError(e.to_string()))?;
 
+    // Seal the state with a checksum keyed by the module's fingerprint.
+    let seal = fingerprint(module_inst.fingerprint, &encoded);
+    encoded.extend_from_slice(&seal.to_le_bytes());
+
     println!("  total encoded:      {} bytes", encoded.len());
 
     // Write beside the target and rename, so that an interrupted or failed write
@@ -296,8 +301,21 @@ pub fn restore<P: AsRef<Path>>(
     file.read_to_end(&mut encoded)
         .map_err(|e| RuntimeError::CheckpointLoadError(e.to_string()))?;
 
-    // 2. Deserialize the state using bincode
-    let mut state: SerializableState = bincode::deserialize(&encoded[..])
+    // 2. Refuse damaged checkpoints and checkpoints of another module
+    let payload = encoded
+        .split_last_chunk::<8>()
+        .filter(|(payload, seal)| {
+            fingerprint(module_inst.fingerprint, payload) == u64::from_le_bytes(**seal)
+        })
+        .map(|(payload, _)| payload)
+        .ok_or_else(|| {
+            RuntimeError::CheckpointLoadError(
+                "checkpoint is damaged or does not belong to this module".to_string(),
+            )
+        })?;
+
+    // Deserialize the state using bincode
+    let mut state: SerializableState = bincode::deserialize(payload)
         .map_err(|e| RuntimeError::DeserializationError(e.to_string()))?;
 
     // 3. Restore memory state (LZ4 decompress)
diff --git a/src/execution/module.rs b/src/execution/module.rs
index bea3319..2fcb679 100644
--- a/src/execution/module.rs
+++ b/src/execution/module.rs
@@ -27,6 +27,8 @@ pub struct ModuleInst {
     pub start: Cell<Option<FuncAddr>>,
     pub wasi_func_addrs: Vec<WasiFuncAddr>,
     pub wasi_impl: Option<Arc<PassthroughWasiImpl>>,
+    /// Hash of the module binary; ties checkpoints to their module.
+    pub fingerprint: u64,
 }
 
 /// Trait for indexed access to instance vectors.
@@ -69,6 +71,7 @@ impl ModuleInst {
             start: Cell::new(None),
             wasi_func_addrs: Vec::new(),
             wasi_impl: None,
+            fingerprint: module.fingerprint,
         };
 
         // Check if we need WASI support
diff --git a/src/parser.rs b/src/parser.rs
index 227fa74..73abf6e 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -7426,6 +7426,7 @@ pub fn parse_bytecode(
 
     let mut file = File::open(path)?;
     file.read_to_end(&mut buf)?;
+    module.fingerprint = fingerprint(FINGERPRINT_SEED, &buf);
 
     for payload in parser.parse_all(&buf) {
         match payload? {
diff --git a/src/structure/module.rs b/src/structure/module.rs
index 7174bf2..0181b49 100644
--- a/src/structure/module.rs
+++ b/src/structure/module.rs
@@ -592,6 +592,18 @@ pub struct Module {
     pub code_index: usize,
     /// Export declarations.
     pub exports: Vec<Export>,
+    /// Hash of the binary this module was decoded from.
+    pub fingerprint: u64,
+}
+
+/// Initial value for `fingerprint`.
+pub const FINGERPRINT_SEED: u64 = 0xcbf2_9ce4_8422_2325;
+
+/// FNV-1a hash of `bytes` continued from `seed`.
+pub fn fingerprint(seed: u64, bytes: &[u8]) -> u64 {
+    bytes.iter().fold(seed, |hash, byte| {
+        (hash ^ *byte as u64).wrapping_mul(0x0000_0100_0000_01b3)
+    })
 }
 
 impl Module {
@@ -610,6 +622,7 @@ impl Module {
             num_imported_funcs: 0,
             code_index: 0,
             exports: Vec::new(),
+            fingerprint: 0,
         }
     }
 }
-- 
2.43.0


From f8b71aaa700d6d7da72c76ee220e6648ce4c56a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:16 +0000
Subject: [PATCH 13/33] fix: checkpoint tables, function references and dropped
 data segments

Table contents changed by table.set/fill reverted to the element segments on
restore, dropped data segments came back, and a live function reference made
the checkpoint fail.
---
 src/execution/data.rs      |  5 ++
 src/execution/migration.rs | 94 ++++++++++++++++++++++++++++++++++----
 2 files changed, 91 insertions(+), 8 deletions(-)

diff --git a/src/execution/data.rs b/src/execution/data.rs
index 2a4fc85..418d26a 100644
--- a/src/execution/data.rs
+++ b/src/execution/data.rs
@@ -26,6 +26,11 @@ impl DataAddr {
         self.0.borrow()._data.clone()
     }
 
+    /// Whether the segment holds no bytes (empty or dropped).
+    pub fn is_empty(&self) -> bool {
+        self.0.borrow()._data.is_empty()
+    }
+
     /// Clears the data (for data.drop instruction).
     pub fn drop_data(&self) {
         self.0.borrow_mut()._data.clear();
diff --git a/src/execution/migration.rs b/src/execution/migration.rs
index 1d6d819..e59da86 100644
--- a/src/execution/migration.rs
+++ b/src/execution/migration.rs
@@ -10,12 +10,13 @@
 //! - Linear memory contents (LZ4 compressed)
 //! - Global variable values
 //! - Per-frame function indices (used to rebuild skipped `Rc` fields on restore)
+//! - Table elements and function references in locals and registers, as
+//!   function indices
+//! - Which data segments have been dropped
 //!
 //! `FrameStack` fields that are derived from the module instance
 //! (`handlers`, `processed_instrs`, `primary_mem`, `cached_mem_ptr`) are
-//! `#[serde(skip)]` and reconstructed during `restore`. Tables are excluded:
-//! they are deterministically initialized from element segments during
-//! module instantiation.
+//! `#[serde(skip)]` and reconstructed during `restore`.
 //!
 //! ## Trigger Mechanisms
 //!
@@ -42,7 +43,7 @@ use crate::execution::global::GlobalAddr;
 use crate::execution::mem::MemAddr;
 use crate::execution::module::ModuleInst;
 use crate::execution::state::{Stacks, VmState};
-use crate::execution::value::Val;
+use crate::execution::value::{Ref, Val};
 use crate::structure::module::fingerprint;
 use serde::{Deserialize, Serialize};
 use std::fs::File;
@@ -146,15 +147,47 @@ const CHECKPOINT_POLL_MASK: u32 = 0x3FF;
 /// - Call stack and register state
 /// - Linear memory contents (LZ4 compressed)
 /// - Global variable values
-///
-/// Tables are excluded: they are deterministically initialized from element
-/// segments during module instantiation.
+/// - Tables, function references and dropped data segments
 #[derive(Serialize, Deserialize, Debug)]
 pub struct SerializableState {
     pub stacks: Stacks,
     pub memory_data_compressed: Vec<u8>,
     pub global_values: Vec<Val>,
     pub frame_func_indices: Vec<u32>,
+    pub table_elems: Vec<Vec<Option<u32>>>,
+    pub func_refs: Vec<Option<u32>>,
+    pub dropped_data: Vec<bool>,
+}
+
+/// All reference slots of the guest stack, in a fixed order.
+fn ref_slots(stacks: &mut Stacks) -> impl Iterator<Item = &mut Ref> {
+    let locals = stacks
+        .activation_frame_stack
+        .iter_mut()
+        .flat_map(|frame_stack| frame_stack.frame.locals.iter_mut())
+        .filter_map(|val| match val {
+            Val::Ref(r) => Some(r),
+            _ => None,
+        });
+    locals.chain(stacks.reg_file.ref_regs.iter_mut())
+}
+
+/// Index of a function reference in the module, `None` for a null reference.
+fn func_ref_index(module_inst: &ModuleInst, r: &Ref) -> Result<Option<u32>, RuntimeError> {
+    match r {
+        Ref::RefNull => Ok(None),
+        Ref::FuncAddr(func_addr) => module_inst
+            .func_addrs
+            .iter()
+            .position(|f| Rc::ptr_eq(f.get_rc(), func_addr.get_rc()))
+            .map(|idx| Some(idx as u32))
+            .ok_or_else(|| {
+                RuntimeError::SerializationError("foreign function reference".to_string())
+            }),
+        Ref::RefExtern(_) => Err(RuntimeError::SerializationError(
+            "external references cannot be checkpointed".to_string(),
+        )),
+    }
 }
 
 /// Serializes runtime state to a checkpoint file.
@@ -207,14 +240,43 @@ pub fn checkpoint<P: AsRef<Path>>(
         })
         .collect::<Vec<u32>>();
 
+    // Function references are stored as function indices
+    let table_elems = module_inst
+        .table_addrs
+        .iter()
+        .map(|table_addr| {
+            let table = table_addr.read_lock();
+            table
+                .elem
+                .iter()
+                .map(|val| match val {
+                    Val::Ref(r) => func_ref_index(module_inst, r),
+                    _ => Ok(None),
+                })
+                .collect()
+        })
+        .collect::<Result<Vec<Vec<Option<u32>>>, RuntimeError>>()?;
+    let mut stacks = stacks.clone();
+    let func_refs = ref_slots(&mut stacks)
+        .map(|slot| func_ref_index(module_inst, &std::mem::replace(slot, Ref::RefNull)))
+        .collect::<Result<Vec<Option<u32>>, RuntimeError>>()?;
+    let dropped_data = module_inst
+        .data_addrs
+        .iter()
+        .map(|data_addr| data_addr.is_empty())
+        .collect();
+
     // 4. Assemble state
     // Note: Register file is already compact because restore_offsets() truncates
     // register vectors on function return, so no checkpoint-time compaction needed.
     let state = SerializableState {
-        stacks: stacks.clone(),
+        stacks,
         memory_data_compressed,
         global_values,
         frame_func_indices,
+        table_elems,
+        func_refs,
+        dropped_data,
     };
 
     // 6. Serialize and write (with per-component size diagnostics)
@@ -344,6 +406,22 @@ pub fn restore<P: AsRef<Path>>(
         );
     }
 
+    // Restore function references and dropped data segments
+    let func_addr_at = |idx: u32| module_inst.func_addrs[idx as usize].clone();
+    for (table_addr, elems) in module_inst.table_addrs.iter().zip(state.table_elems) {
+        table_addr.set_elements(elems.into_iter().map(|e| e.map(func_addr_at)).collect())?;
+    }
+    for (slot, func_ref) in ref_slots(&mut state.stacks).zip(state.func_refs) {
+        if let Some(idx) = func_ref {
+            *slot = Ref::FuncAddr(func_addr_at(idx));
+        }
+    }
+    for (data_addr, dropped) in module_inst.data_addrs.iter().zip(state.dropped_data) {
+        if dropped {
+            data_addr.drop_data();
+        }
+    }
+
     // 5. Reconstruct skipped fields in Stacks (Frame::module, primary_mem, processed_instrs)
     let primary_mem = module_inst.mem_addrs.first().cloned();
     for (frame_stack, &func_idx) in state
-- 
2.43.0


From 04cd80102e3607f228a209e5db34f0a981f23447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:53 +0000
Subject: [PATCH 14/33] fix: initialise reference-typed locals of called
 functions to null

---
 src/execution/runtime.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/execution/runtime.rs b/src/execution/runtime.rs
index 85ade22..91f1a79 100644
--- a/src/execution/runtime.rs
+++ b/src/execution/runtime.rs
@@ -1053,7 +1053,7 @@ impl Val {
             ValueType::NumType(NumType::F32) => Ok(Val::Num(Num::F32(0.0))),
             ValueType::NumType(NumType::F64) => Ok(Val::Num(Num::F64(0.0))),
             ValueType::VecType(VecType::V128) => Ok(Val::Vec_(Vec_::V128(0))),
-            ValueType::RefType(_) => todo!("Default value for RefType"),
+            ValueType::RefType(_) => Ok(Val::Ref(crate::execution::value::Ref::RefNull)),
         }
     }
 }
-- 
2.43.0


From 4893b32d3f41dce0275f37de4f473dec16621d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:53 +0000
Subject: [PATCH 15/33] fix: report a module that cannot be parsed instead of
 running part of it

---
 src/main.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 163dc3f..07af113 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -146,7 +146,9 @@ fn main() -> Result<()> {
     }
 
     let mut module = Module::new("test");
-    let _ = parser::parse_bytecode(&mut module, &cli.wasm_file);
+    if let Err(e) = parser::parse_bytecode(&mut module, &cli.wasm_file) {
+        return Err(anyhow::anyhow!("Failed to parse module: {}", e));
+    }
     let imports: ImportObjects = FxHashMap::default();
 
     let mut wasm_argv = vec![cli.wasm_file.clone()];
-- 
2.43.0


From c757c904b11e54f101d641563b6739f1c2b190a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:53 +0000
Subject: [PATCH 16/33] fix: call WASI functions through call_indirect

---
 src/execution/runtime.rs | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/execution/runtime.rs b/src/execution/runtime.rs
index 91f1a79..fffc91f 100644
--- a/src/execution/runtime.rs
+++ b/src/execution/runtime.rs
@@ -375,10 +375,27 @@ impl Runtime {
                                         Err(e) => return Err(e),
                                     }
                                 }
-                                FuncInst::WasiFunc { .. } => {
-                                    return Err(RuntimeError::ExecutionFailed(
-                                        "WASI function called via InvokeReg - use CallWasiReg",
-                                    ));
+                                FuncInst::WasiFunc { wasi_func_addr, .. } => {
+                                    // WASI function reached through call_indirect
+                                    let wasi_func_type = &wasi_func_addr.func_type;
+                                    match self.call_wasi_function(wasi_func_type, &params) {
+                                        Ok(result) => {
+                                            if let (Some(reg), Some(val)) =
+                                                (result_regs.first(), result)
+                                            {
+                                                self.stacks.reg_file.set_val(reg, &val);
+                                            }
+                                        }
+                                        Err(e) => {
+                                            eprintln!(
+                                                "WASI register function failed: {:?}, error: {:?}",
+                                                wasi_func_type, e
+                                            );
+                                            return Err(RuntimeError::ExecutionFailed(
+                                                "WASI register function failed",
+                                            ));
+                                        }
+                                    }
                                 }
                             }
                         }
-- 
2.43.0


From 9cd41e47a984202efa74972093cfe12c520d43c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:53 +0000
Subject: [PATCH 17/33] fix: apply element segments given as expressions

---
 src/execution/elem.rs   |  8 +++++++-
 src/execution/module.rs |  9 +++++++++
 src/execution/table.rs  | 10 ++++++----
 3 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/execution/elem.rs b/src/execution/elem.rs
index f7d98e1..1e8f748 100644
--- a/src/execution/elem.rs
+++ b/src/execution/elem.rs
@@ -22,7 +22,13 @@ impl ElemAddr {
     pub fn new(type_: &RefType, funcs: &Vec<FuncAddr>, init: &Vec<i32>) -> ElemAddr {
         let elem: Vec<Ref> = init
             .into_iter()
-            .map(|i| Ref::FuncAddr(funcs.get_by_idx(FuncIdx(*i as u32)).clone()))
+            .map(|i| {
+                if *i < 0 {
+                    Ref::RefNull
+                } else {
+                    Ref::FuncAddr(funcs.get_by_idx(FuncIdx(*i as u32)).clone())
+                }
+            })
             .collect();
         ElemAddr(Rc::new(RefCell::new(ElemInst {
             _type_: *type_,
diff --git a/src/execution/module.rs b/src/execution/module.rs
index 2fcb679..85e3fdf 100644
--- a/src/execution/module.rs
+++ b/src/execution/module.rs
@@ -147,6 +147,15 @@ impl ModuleInst {
                     init.push(idx.0 as i32);
                 }
             }
+            if let Some(exprs) = &elem.init {
+                for expr in exprs {
+                    match &expr.0[..] {
+                        [Instr::RefFunc(idx)] => init.push(idx.0 as i32),
+                        [Instr::RefNull(_)] => init.push(-1),
+                        _ => return Err(RuntimeError::InvalidConstantExpression),
+                    }
+                }
+            }
             module_inst
                 .elem_addrs
                 .push(ElemAddr::new(&elem.type_, &module_inst.func_addrs, &init));
diff --git a/src/execution/table.rs b/src/execution/table.rs
index ca359ee..827ec07 100644
--- a/src/execution/table.rs
+++ b/src/execution/table.rs
@@ -34,13 +34,15 @@ impl TableAddr {
             },
         })))
     }
-    /// Initializes table elements from function indices.
+    /// Initializes table elements from function indices (negative for null).
     pub fn init(&self, offset: usize, funcs: &Vec<FuncAddr>, init: &Vec<i32>) {
         let mut addr_self = self.0.borrow_mut();
         for (index, f) in init.iter().enumerate() {
-            addr_self.elem[index + offset] = Val::Ref(value::Ref::FuncAddr(
-                funcs.get_by_idx(FuncIdx(*f as u32)).clone(),
-            ));
+            addr_self.elem[index + offset] = Val::Ref(if *f < 0 {
+                value::Ref::RefNull
+            } else {
+                value::Ref::FuncAddr(funcs.get_by_idx(FuncIdx(*f as u32)).clone())
+            });
         }
     }
     /// Gets element at index. Out-of-bounds panics; host runtime traps.
-- 
2.43.0


From 253c460313e2dc491b427c4d0226e71310e9b4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:53 +0000
Subject: [PATCH 18/33] fix: select on references reads reference registers

---
 src/execution/handlers.rs | 3 +++
 src/execution/stats.rs    | 3 ++-
 src/execution/trace.rs    | 3 ++-
 src/parser.rs             | 2 +-
 4 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/execution/handlers.rs b/src/execution/handlers.rs
index c2696c4..50eed70 100644
--- a/src/execution/handlers.rs
+++ b/src/execution/handlers.rs
@@ -266,6 +266,7 @@ pub const HANDLER_IDX_SELECT_I32: usize = 0xF0;
 pub const HANDLER_IDX_SELECT_I64: usize = 0xF1;
 pub const HANDLER_IDX_SELECT_F32: usize = 0xF2;
 pub const HANDLER_IDX_SELECT_F64: usize = 0xF3;
+pub const HANDLER_IDX_SELECT_REF: usize = 0x104;
 
 // Type-specialized global.get handler constants
 pub const HANDLER_IDX_GLOBAL_GET_I32: usize = 0xF4;
@@ -1391,6 +1392,7 @@ select!(select_i32, get_i32, set_i32);
 select!(select_i64, get_i64, set_i64);
 select!(select_f32, get_f32, set_f32);
 select!(select_f64, get_f64, set_f64);
+select!(select_ref, get_ref, set_ref);
 
 // ============================================================================
 // Nop / Unreachable
@@ -2291,6 +2293,7 @@ pub fn select_handler(instr: &ProcessedInstr) -> Handler {
             HANDLER_IDX_SELECT_I64 => select_i64,
             HANDLER_IDX_SELECT_F32 => select_f32,
             HANDLER_IDX_SELECT_F64 => select_f64,
+            HANDLER_IDX_SELECT_REF => select_ref,
             _ => invalid,
         },
         ProcessedInstr::GlobalGetReg { handler_index, .. } => match *handler_index {
diff --git a/src/execution/stats.rs b/src/execution/stats.rs
index 9381a3c..76a531e 100644
--- a/src/execution/stats.rs
+++ b/src/execution/stats.rs
@@ -52,7 +52,8 @@ impl ExecutionStats {
             HANDLER_IDX_SELECT_I32
             | HANDLER_IDX_SELECT_I64
             | HANDLER_IDX_SELECT_F32
-            | HANDLER_IDX_SELECT_F64 => "select",
+            | HANDLER_IDX_SELECT_F64
+            | HANDLER_IDX_SELECT_REF => "select",
 
             // Variable Instructions
             HANDLER_IDX_LOCAL_GET => "local.get",
diff --git a/src/execution/trace.rs b/src/execution/trace.rs
index c45a8b8..fdc0328 100644
--- a/src/execution/trace.rs
+++ b/src/execution/trace.rs
@@ -325,7 +325,8 @@ impl Tracer {
             HANDLER_IDX_SELECT_I32
             | HANDLER_IDX_SELECT_I64
             | HANDLER_IDX_SELECT_F32
-            | HANDLER_IDX_SELECT_F64 => "select",
+            | HANDLER_IDX_SELECT_F64
+            | HANDLER_IDX_SELECT_REF => "select",
 
             // Variable Instructions
             HANDLER_IDX_LOCAL_GET => "local.get",
diff --git a/src/parser.rs b/src/parser.rs
index 73abf6e..a1d5640 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -7107,7 +7107,7 @@ fn decode_processed_instrs_and_fixups<'a>(
                         ValueType::NumType(NumType::I64) => HANDLER_IDX_SELECT_I64,
                         ValueType::NumType(NumType::F32) => HANDLER_IDX_SELECT_F32,
                         ValueType::NumType(NumType::F64) => HANDLER_IDX_SELECT_F64,
-                        ValueType::RefType(_) => HANDLER_IDX_SELECT_I64,
+                        ValueType::RefType(_) => HANDLER_IDX_SELECT_REF,
                         ValueType::VecType(_) => panic!("VecType not supported for Select"),
                     };
 
-- 
2.43.0


From d8a60e6026cbbe332b742021a001b1b9d6b73d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:40 +0000
Subject: [PATCH 19/33] fix: allow WASI calls that use no memory in modules
 without one

proc_exit, sched_yield, fd_close and the like aborted the guest when the module
declares no memory.
---
 src/execution/runtime.rs | 15 ++++++++++-----
 src/structure/module.rs  | 20 ++++++++++++++++++++
 2 files changed, 30 insertions(+), 5 deletions(-)

diff --git a/src/execution/runtime.rs b/src/execution/runtime.rs
index fffc91f..225cd42 100644
--- a/src/execution/runtime.rs
+++ b/src/execution/runtime.rs
@@ -4,6 +4,7 @@ use crate::error::RuntimeError;
 use crate::execution::dispatch;
 use crate::execution::func::{FuncAddr, FuncInst};
 use crate::execution::ir::Outcome;
+use crate::execution::mem::MemAddr;
 use crate::execution::migration;
 use crate::execution::module::ModuleInst;
 use crate::execution::regs::{Reg, RegFile};
@@ -14,7 +15,7 @@ use crate::execution::stats::ExecutionStats;
 use crate::execution::trace::{TraceConfig, Tracer};
 use crate::execution::value::{Num, Val, Vec_};
 use crate::structure::module::WasiFuncType;
-use crate::structure::types::{NumType, ValueType, VecType};
+use crate::structure::types::{Limits, MemType, NumType, ValueType, VecType};
 use crate::wasi::{WasiError, WasiResult};
 use arrayvec::ArrayVec;
 use std::path::Path;
@@ -464,10 +465,14 @@ impl Runtime {
             .ok_or(WasiError::NoSys)?;
 
         // Get memory address for WASI functions that need it
-        let memory = if self.module_inst.mem_addrs.is_empty() {
-            return Err(WasiError::Fault);
-        } else {
-            &self.module_inst.mem_addrs[0]
+        let no_memory;
+        let memory = match self.module_inst.mem_addrs.first() {
+            Some(memory) => memory,
+            None if !func_type.uses_memory() => {
+                no_memory = MemAddr::new(&MemType(Limits { min: 0, max: None }));
+                &no_memory
+            }
+            None => return Err(WasiError::Fault),
         };
 
         match func_type {
diff --git a/src/structure/module.rs b/src/structure/module.rs
index 0181b49..da058f8 100644
--- a/src/structure/module.rs
+++ b/src/structure/module.rs
@@ -160,6 +160,26 @@ pub enum WasiFuncType {
 }
 
 impl WasiFuncType {
+    /// Whether the function reads or writes guest memory.
+    pub fn uses_memory(&self) -> bool {
+        !matches!(
+            self,
+            WasiFuncType::ProcExit
+                | WasiFuncType::FdClose
+                | WasiFuncType::SchedYield
+                | WasiFuncType::FdSync
+                | WasiFuncType::FdDatasync
+                | WasiFuncType::FdFdstatSetFlags
+                | WasiFuncType::FdFdstatSetRights
+                | WasiFuncType::FdFilestatSetSize
+                | WasiFuncType::FdFilestatSetTimes
+                | WasiFuncType::FdAdvise
+                | WasiFuncType::FdAllocate
+                | WasiFuncType::FdRenumber
+                | WasiFuncType::SockShutdown
+        )
+    }
+
     /// WASI関数の期待される関数型を返す
     pub fn expected_func_type(&self) -> FuncType {
         match self {
-- 
2.43.0


From 15996f7db18cf26ae393761f2a0c228bd4010981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:50 +0000
Subject: [PATCH 20/33] fix: translate the buffers of sock_recv and sock_send

The guest's iovec array was handed to the host as it is, so the host accessed
the interpreter's own memory instead of the guest's.
---
 src/wasi/passthrough.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/wasi/passthrough.rs b/src/wasi/passthrough.rs
index 9b44f41..89c2bbd 100644
--- a/src/wasi/passthrough.rs
+++ b/src/wasi/passthrough.rs
@@ -146,6 +146,21 @@ pub struct PassthroughWasiImpl {
     argv: Vec<String>,
 }
 
+/// Translates a guest iovec array into host iovecs.
+fn host_iovecs(memory: &MemAddr, iovs_ptr: Ptr, iovs_len: Size) -> Vec<WasiIovec> {
+    let memory_base = memory.get_memory_direct_access().data.as_ptr();
+    (0..iovs_len)
+        .map(|i| {
+            let buf_ptr: u32 = memory.load(i as u64 * 8, iovs_ptr as i32);
+            let buf_len: u32 = memory.load(i as u64 * 8 + 4, iovs_ptr as i32);
+            WasiIovec {
+                buf: unsafe { memory_base.add(buf_ptr as usize) },
+                buf_len,
+            }
+        })
+        .collect()
+}
+
 impl PassthroughWasiImpl {
     pub fn new(argv: Vec<String>) -> Self {
         PassthroughWasiImpl { argv }
@@ -1218,10 +1233,11 @@ impl PassthroughWasiImpl {
         let memory_guard = memory.get_memory_direct_access();
         let memory_base = memory_guard.data.as_ptr();
 
+        let iovecs = host_iovecs(memory, ri_data_ptr, ri_data_len);
         let wasi_errno = unsafe {
             __wasi_sock_recv(
                 fd,
-                memory_base.add(ri_data_ptr as usize) as *const WasiIovec,
+                iovecs.as_ptr(),
                 ri_data_len,
                 ri_flags,
                 memory_base.add(ro_datalen_ptr as usize) as *mut u32,
@@ -1244,10 +1260,11 @@ impl PassthroughWasiImpl {
         let memory_guard = memory.get_memory_direct_access();
         let memory_base = memory_guard.data.as_ptr();
 
+        let iovecs = host_iovecs(memory, si_data_ptr, si_data_len);
         let wasi_errno = unsafe {
             __wasi_sock_send(
                 fd,
-                memory_base.add(si_data_ptr as usize) as *const WasiIovec,
+                iovecs.as_ptr(),
                 si_data_len,
                 si_flags,
                 memory_base.add(so_datalen_ptr as usize) as *mut u32,
-- 
2.43.0


From a88ea049096c4018fc4fc595cb5e89aca71d8b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:12 +0000
Subject: [PATCH 21/33] fix: let every handler of the tail-call dispatcher end
 in a tail call

---
 src/execution/handlers.rs | 839 +++++++++++++++++++++-----------------
 1 file changed, 458 insertions(+), 381 deletions(-)

diff --git a/src/execution/handlers.rs b/src/execution/handlers.rs
index 50eed70..d551167 100644
--- a/src/execution/handlers.rs
+++ b/src/execution/handlers.rs
@@ -318,6 +318,44 @@ macro_rules! advance {
     }};
 }
 
+/// Runs the body of a handler in a frame of its own before dispatching the
+/// next one. A body that owns values with destructors, or takes the address
+/// of a local, would otherwise keep its frame alive across `advance!`, which
+/// then is an ordinary call: every such instruction executed in a loop would
+/// deepen the host's stack until it overflows. The body yields `false` after
+/// storing an error in `state.trap`.
+macro_rules! detached {
+    ($state:ident, $body:block) => {{
+        #[inline(never)]
+        fn body($state: &mut VmState) -> bool $body
+        go_on!($state, body($state))
+    }};
+}
+
+// As in `advance!`, a single call site in tail position.
+#[cfg(feature = "tco")]
+macro_rules! go_on {
+    ($state:ident, $ok:expr) => {{
+        let h = if $ok {
+            unsafe { crate::execution::handlers::next_handler($state) }
+        } else {
+            trap
+        };
+        h($state)
+    }};
+}
+
+#[cfg(not(feature = "tco"))]
+macro_rules! go_on {
+    ($state:ident, $ok:expr) => {{
+        if $ok {
+            Outcome::Continue
+        } else {
+            trap($state)
+        }
+    }};
+}
+
 // ============================================================================
 // Sentinel handlers — chain terminators
 // ============================================================================
@@ -1140,23 +1178,25 @@ conv!(
 macro_rules! conv_trap {
     ($name:ident, $read:ident, $write:ident, $ty:ty, $min:expr, $max:expr, $cast:expr) => {
         pub fn $name(state: &mut VmState) -> Outcome {
-            let (src, dst) = match state.current_instr() {
-                ProcessedInstr::ConversionReg { src, dst, .. } => (*src, *dst),
-                _ => unsafe { std::hint::unreachable_unchecked() },
-            };
-            let v = operand::$read(state, &src);
-            if v.is_nan() {
-                state.trap = Some(RuntimeError::InvalidConversionToInt);
-                return trap(state);
-            }
-            let t = v.trunc();
-            if t < $min || t > $max {
-                state.trap = Some(RuntimeError::IntegerOverflow);
-                return trap(state);
-            }
-            operand::$write(state, &dst, $cast(t));
-            state.pc += 1;
-            advance!(state)
+            detached!(state, {
+                let (src, dst) = match state.current_instr() {
+                    ProcessedInstr::ConversionReg { src, dst, .. } => (*src, *dst),
+                    _ => unsafe { std::hint::unreachable_unchecked() },
+                };
+                let v = operand::$read(state, &src);
+                if v.is_nan() {
+                    state.trap = Some(RuntimeError::InvalidConversionToInt);
+                    return false;
+                }
+                let t = v.trunc();
+                if t < $min || t > $max {
+                    state.trap = Some(RuntimeError::IntegerOverflow);
+                    return false;
+                }
+                operand::$write(state, &dst, $cast(t));
+                state.pc += 1;
+                true
+            })
         }
     };
 }
@@ -1200,80 +1240,88 @@ conv_trap!(
 
 // i64 trunc has different bound check (>= for max), so write explicit functions
 pub fn conv_i64_trunc_f32_s(state: &mut VmState) -> Outcome {
-    let (src, dst) = match state.current_instr() {
-        ProcessedInstr::ConversionReg { src, dst, .. } => (*src, *dst),
-        _ => unsafe { std::hint::unreachable_unchecked() },
-    };
-    let v = operand::read_reg_f32(state, &src);
-    if v.is_nan() {
-        state.trap = Some(RuntimeError::InvalidConversionToInt);
-        return trap(state);
-    }
-    let t = v.trunc();
-    if t < (i64::MIN as f32) || t >= (i64::MAX as f32) {
-        state.trap = Some(RuntimeError::IntegerOverflow);
-        return trap(state);
-    }
-    operand::write_dst_i64(state, &dst, t as i64);
-    state.pc += 1;
-    advance!(state)
+    detached!(state, {
+        let (src, dst) = match state.current_instr() {
+            ProcessedInstr::ConversionReg { src, dst, .. } => (*src, *dst),
+            _ => unsafe { std::hint::unreachable_unchecked() },
+        };
+        let v = operand::read_reg_f32(state, &src);
+        if v.is_nan() {
+            state.trap = Some(RuntimeError::InvalidConversionToInt);
+            return false;
+        }
+        let t = v.trunc();
+        if t < (i64::MIN as f32) || t >= (i64::MAX as f32) {
+            state.trap = Some(RuntimeError::IntegerOverflow);
+            return false;
+        }
+        operand::write_dst_i64(state, &dst, t as i64);
+        state.pc += 1;
+        true
+    })
 }
 pub fn conv_i64_trunc_f32_u(state: &mut VmState) -> Outcome {
-    let (src, dst) = match state.current_instr() {
-        ProcessedInstr::ConversionReg { src, dst, .. } => (*src, *dst),
-        _ => unsafe { std::hint::unreachable_unchecked() },
-    };
-    let v = operand::read_reg_f32(state, &src);
-    if v.is_nan() {
-        state.trap = Some(RuntimeError::InvalidConversionToInt);
-        return trap(state);
-    }
-    let t = v.trunc();
-    if t < 0.0 || t >= (u64::MAX as f32) {
-        state.trap = Some(RuntimeError::IntegerOverflow);
-        return trap(state);
-    }
-    operand::write_dst_i64(state, &dst, (t as u64) as i64);
-    state.pc += 1;
-    advance!(state)
+    detached!(state, {
+        let (src, dst) = match state.current_instr() {
+            ProcessedInstr::ConversionReg { src, dst, .. } => (*src, *dst),
+            _ => unsafe { std::hint::unreachable_unchecked() },
+        };
+        let v = operand::read_reg_f32(state, &src);
+        if v.is_nan() {
+            state.trap = Some(RuntimeError::InvalidConversionToInt);
+            return false;
+        }
+        let t = v.trunc();
+        if t < 0.0 || t >= (u64::MAX as f32) {
+            state.trap = Some(RuntimeError::IntegerOverflow);
+            return false;
+        }
+        operand::write_dst_i64(state, &dst, (t as u64) as i64);
+        state.pc += 1;
+        true
+    })
 }
 pub fn conv_i64_trunc_f64_s(state: &mut VmState) -> Outcome {
-    let (src, dst) = match state.current_instr() {
-        ProcessedInstr::ConversionReg { src, dst, .. } => (*src, *dst),
-        _ => unsafe { std::hint::unreachable_unchecked() },
-    };
-    let v = operand::read_reg_f64(state, &src);
-    if v.is_nan() {
-        state.trap = Some(RuntimeError::InvalidConversionToInt);
-        return trap(state);
-    }
-    let t = v.trunc();
-    if t < (i64::MIN as f64) || t >= (i64::MAX as f64) {
-        state.trap = Some(RuntimeError::IntegerOverflow);
-        return trap(state);
-    }
-    operand::write_dst_i64(state, &dst, t as i64);
-    state.pc += 1;
-    advance!(state)
+    detached!(state, {
+        let (src, dst) = match state.current_instr() {
+            ProcessedInstr::ConversionReg { src, dst, .. } => (*src, *dst),
+            _ => unsafe { std::hint::unreachable_unchecked() },
+        };
+        let v = operand::read_reg_f64(state, &src);
+        if v.is_nan() {
+            state.trap = Some(RuntimeError::InvalidConversionToInt);
+            return false;
+        }
+        let t = v.trunc();
+        if t < (i64::MIN as f64) || t >= (i64::MAX as f64) {
+            state.trap = Some(RuntimeError::IntegerOverflow);
+            return false;
+        }
+        operand::write_dst_i64(state, &dst, t as i64);
+        state.pc += 1;
+        true
+    })
 }
 pub fn conv_i64_trunc_f64_u(state: &mut VmState) -> Outcome {
-    let (src, dst) = match state.current_instr() {
-        ProcessedInstr::ConversionReg { src, dst, .. } => (*src, *dst),
-        _ => unsafe { std::hint::unreachable_unchecked() },
-    };
-    let v = operand::read_reg_f64(state, &src);
-    if v.is_nan() {
-        state.trap = Some(RuntimeError::InvalidConversionToInt);
-        return trap(state);
-    }
-    let t = v.trunc();
-    if t < 0.0 || t >= (u64::MAX as f64) {
-        state.trap = Some(RuntimeError::IntegerOverflow);
-        return trap(state);
-    }
-    operand::write_dst_i64(state, &dst, (t as u64) as i64);
-    state.pc += 1;
-    advance!(state)
+    detached!(state, {
+        let (src, dst) = match state.current_instr() {
+            ProcessedInstr::ConversionReg { src, dst, .. } => (*src, *dst),
+            _ => unsafe { std::hint::unreachable_unchecked() },
+        };
+        let v = operand::read_reg_f64(state, &src);
+        if v.is_nan() {
+            state.trap = Some(RuntimeError::InvalidConversionToInt);
+            return false;
+        }
+        let t = v.trunc();
+        if t < 0.0 || t >= (u64::MAX as f64) {
+            state.trap = Some(RuntimeError::IntegerOverflow);
+            return false;
+        }
+        operand::write_dst_i64(state, &dst, (t as u64) as i64);
+        state.pc += 1;
+        true
+    })
 }
 
 // ============================================================================
@@ -1528,102 +1576,108 @@ pub fn block(state: &mut VmState) -> Outcome {
 }
 
 pub fn r#if(state: &mut VmState) -> Outcome {
-    let (cond_reg, else_target_ip, has_else) = match state.current_instr() {
-        ProcessedInstr::IfReg {
-            cond_reg,
-            else_target_ip,
-            has_else,
-            ..
-        } => (*cond_reg, *else_target_ip, *has_else),
-        _ => unsafe { std::hint::unreachable_unchecked() },
-    };
+    detached!(state, {
+        let (cond_reg, else_target_ip, has_else) = match state.current_instr() {
+            ProcessedInstr::IfReg {
+                cond_reg,
+                else_target_ip,
+                has_else,
+                ..
+            } => (*cond_reg, *else_target_ip, *has_else),
+            _ => unsafe { std::hint::unreachable_unchecked() },
+        };
 
-    let cond = state.reg_file().get_i32(cond_reg.index());
-    // Only clone pi_rc inside branches that need it, so the no-else path
-    // has zero `Rc` destructors at the tail call.
-    if cond != 0 {
-        let next_ip = state.pc + 1;
-        let cur_idx = state.current_label_idx;
-        let label_stack = state.label_stack_mut();
-        let pi_rc = label_stack[cur_idx].processed_instrs.clone();
-        label_stack.push(LabelStack {
-            label: Label {
-                is_loop: false,
-                return_ip: else_target_ip,
-            },
-            processed_instrs: pi_rc,
-            ip: next_ip,
-        });
-        state.current_label_idx = state.label_stack().len() - 1;
-        state.pc = next_ip;
-    } else if has_else {
-        let cur_idx = state.current_label_idx;
-        let label_stack = state.label_stack_mut();
-        let pi_rc = label_stack[cur_idx].processed_instrs.clone();
-        label_stack.push(LabelStack {
-            label: Label {
-                is_loop: false,
-                return_ip: else_target_ip,
-            },
-            processed_instrs: pi_rc,
-            ip: else_target_ip,
-        });
-        state.current_label_idx = state.label_stack().len() - 1;
-        state.pc = else_target_ip;
-    } else {
-        state.pc = else_target_ip;
-    }
-    advance!(state)
+        let cond = state.reg_file().get_i32(cond_reg.index());
+        // Only clone pi_rc inside branches that need it, so the no-else path
+        // has zero `Rc` destructors at the tail call.
+        if cond != 0 {
+            let next_ip = state.pc + 1;
+            let cur_idx = state.current_label_idx;
+            let label_stack = state.label_stack_mut();
+            let pi_rc = label_stack[cur_idx].processed_instrs.clone();
+            label_stack.push(LabelStack {
+                label: Label {
+                    is_loop: false,
+                    return_ip: else_target_ip,
+                },
+                processed_instrs: pi_rc,
+                ip: next_ip,
+            });
+            state.current_label_idx = state.label_stack().len() - 1;
+            state.pc = next_ip;
+        } else if has_else {
+            let cur_idx = state.current_label_idx;
+            let label_stack = state.label_stack_mut();
+            let pi_rc = label_stack[cur_idx].processed_instrs.clone();
+            label_stack.push(LabelStack {
+                label: Label {
+                    is_loop: false,
+                    return_ip: else_target_ip,
+                },
+                processed_instrs: pi_rc,
+                ip: else_target_ip,
+            });
+            state.current_label_idx = state.label_stack().len() - 1;
+            state.pc = else_target_ip;
+        } else {
+            state.pc = else_target_ip;
+        }
+        true
+    })
 }
 
 pub fn end(state: &mut VmState) -> Outcome {
-    let instr = unsafe { &*state.instrs.add(state.pc) };
-    let ProcessedInstr::EndReg {
-        source_regs,
-        target_result_regs,
-    } = instr
-    else {
-        unsafe { std::hint::unreachable_unchecked() }
-    };
+    detached!(state, {
+        let instr = unsafe { &*state.instrs.add(state.pc) };
+        let ProcessedInstr::EndReg {
+            source_regs,
+            target_result_regs,
+        } = instr
+        else {
+            unsafe { std::hint::unreachable_unchecked() }
+        };
 
-    let mut halt = false;
-    if state.label_stack().len() <= 1 {
-        halt = true;
-    } else {
-        state
-            .reg_file_mut()
-            .copy_regs(source_regs, target_result_regs);
-        state.label_stack_mut().pop();
-        state.current_label_idx = state.label_stack().len() - 1;
-        let next_ip = state.pc + 1;
-        if next_ip >= state.instrs_len && state.current_label_idx == 0 {
+        let mut halt = false;
+        if state.label_stack().len() <= 1 {
             halt = true;
         } else {
-            state.pc = next_ip;
+            state
+                .reg_file_mut()
+                .copy_regs(source_regs, target_result_regs);
+            state.label_stack_mut().pop();
+            state.current_label_idx = state.label_stack().len() - 1;
+            let next_ip = state.pc + 1;
+            if next_ip >= state.instrs_len && state.current_label_idx == 0 {
+                halt = true;
+            } else {
+                state.pc = next_ip;
+            }
         }
-    }
-    if halt {
-        let dst = state.return_result_regs_mut();
-        dst.clear();
-        for r in source_regs.iter() {
-            dst.push(*r);
+        if halt {
+            let dst = state.return_result_regs_mut();
+            dst.clear();
+            for r in source_regs.iter() {
+                dst.push(*r);
+            }
+            state.pc = state.instrs_len;
         }
-        state.pc = state.instrs_len;
-    }
-    advance!(state)
+        true
+    })
 }
 
 pub fn jump(state: &mut VmState) -> Outcome {
-    let target_ip = match state.current_instr() {
-        ProcessedInstr::JumpReg { target_ip } => *target_ip,
-        _ => unsafe { std::hint::unreachable_unchecked() },
-    };
-    if state.label_stack().len() > 1 {
-        state.label_stack_mut().pop();
-        state.current_label_idx = state.label_stack().len() - 1;
-    }
-    state.pc = target_ip;
-    advance!(state)
+    detached!(state, {
+        let target_ip = match state.current_instr() {
+            ProcessedInstr::JumpReg { target_ip } => *target_ip,
+            _ => unsafe { std::hint::unreachable_unchecked() },
+        };
+        if state.label_stack().len() > 1 {
+            state.label_stack_mut().pop();
+            state.current_label_idx = state.label_stack().len() - 1;
+        }
+        state.pc = target_ip;
+        true
+    })
 }
 
 // ============================================================================
@@ -1750,22 +1804,24 @@ pub fn r#return(state: &mut VmState) -> Outcome {
 macro_rules! global_get {
     ($name:ident, $to:ident, $write:ident, $variant:ident) => {
         pub fn $name(state: &mut VmState) -> Outcome {
-            let (dst, global_index) = match state.current_instr() {
-                ProcessedInstr::GlobalGetReg {
-                    dst, global_index, ..
-                } => (*dst, *global_index),
-                _ => unsafe { std::hint::unreachable_unchecked() },
-            };
-            let global_addr = state
-                .module()
-                .global_addrs
-                .get_by_idx(crate::structure::types::GlobalIdx(global_index))
-                .clone();
-            let val = global_addr.get();
-            let v = val.$to().unwrap_or(Default::default());
-            operand::$write(state, &dst, v);
-            state.pc += 1;
-            advance!(state)
+            detached!(state, {
+                let (dst, global_index) = match state.current_instr() {
+                    ProcessedInstr::GlobalGetReg {
+                        dst, global_index, ..
+                    } => (*dst, *global_index),
+                    _ => unsafe { std::hint::unreachable_unchecked() },
+                };
+                let global_addr = state
+                    .module()
+                    .global_addrs
+                    .get_by_idx(crate::structure::types::GlobalIdx(global_index))
+                    .clone();
+                let val = global_addr.get();
+                let v = val.$to().unwrap_or(Default::default());
+                operand::$write(state, &dst, v);
+                state.pc += 1;
+                true
+            })
         }
     };
 }
@@ -1778,30 +1834,33 @@ global_get!(global_get_f64, to_f64, write_dst_f64, F64);
 macro_rules! global_set {
     ($name:ident, $get:ident, $variant:ident) => {
         pub fn $name(state: &mut VmState) -> Outcome {
-            let (src, global_index) = match state.current_instr() {
-                ProcessedInstr::GlobalSetReg {
-                    src, global_index, ..
-                } => (*src, *global_index),
-                _ => unsafe { std::hint::unreachable_unchecked() },
-            };
-            let v = match src {
-                RegOrLocal::Reg(idx) => state.reg_file().$get(idx),
-                RegOrLocal::Local(idx) => match state.local(idx as usize) {
-                    Val::Num(crate::execution::value::Num::$variant(v)) => *v,
-                    _ => Default::default(),
-                },
-            };
-            let global_addr = state
-                .module()
-                .global_addrs
-                .get_by_idx(crate::structure::types::GlobalIdx(global_index))
-                .clone();
-            if let Err(e) = global_addr.set(Val::Num(crate::execution::value::Num::$variant(v))) {
-                state.trap = Some(e);
-                return trap(state);
-            }
-            state.pc += 1;
-            advance!(state)
+            detached!(state, {
+                let (src, global_index) = match state.current_instr() {
+                    ProcessedInstr::GlobalSetReg {
+                        src, global_index, ..
+                    } => (*src, *global_index),
+                    _ => unsafe { std::hint::unreachable_unchecked() },
+                };
+                let v = match src {
+                    RegOrLocal::Reg(idx) => state.reg_file().$get(idx),
+                    RegOrLocal::Local(idx) => match state.local(idx as usize) {
+                        Val::Num(crate::execution::value::Num::$variant(v)) => *v,
+                        _ => Default::default(),
+                    },
+                };
+                let global_addr = state
+                    .module()
+                    .global_addrs
+                    .get_by_idx(crate::structure::types::GlobalIdx(global_index))
+                    .clone();
+                if let Err(e) = global_addr.set(Val::Num(crate::execution::value::Num::$variant(v)))
+                {
+                    state.trap = Some(e);
+                    return false;
+                }
+                state.pc += 1;
+                true
+            })
         }
     };
 }
@@ -1876,90 +1935,98 @@ pub fn ref_null(state: &mut VmState) -> Outcome {
 }
 
 pub fn ref_is_null(state: &mut VmState) -> Outcome {
-    let regs = match state.current_instr() {
-        ProcessedInstr::TableRefReg { regs, .. } => *regs,
-        _ => unsafe { std::hint::unreachable_unchecked() },
-    };
-    let rf = state.reg_file_mut();
-    let ref_val = rf.get_ref(regs[1]);
-    let is_null = matches!(ref_val, crate::execution::value::Ref::RefNull) as i32;
-    rf.set_i32(regs[0], is_null);
-    state.pc += 1;
-    advance!(state)
+    detached!(state, {
+        let regs = match state.current_instr() {
+            ProcessedInstr::TableRefReg { regs, .. } => *regs,
+            _ => unsafe { std::hint::unreachable_unchecked() },
+        };
+        let rf = state.reg_file_mut();
+        let ref_val = rf.get_ref(regs[1]);
+        let is_null = matches!(ref_val, crate::execution::value::Ref::RefNull) as i32;
+        rf.set_i32(regs[0], is_null);
+        state.pc += 1;
+        true
+    })
 }
 
 pub fn table_get(state: &mut VmState) -> Outcome {
-    let (table_idx, regs) = match state.current_instr() {
-        ProcessedInstr::TableRefReg {
-            table_idx, regs, ..
-        } => (*table_idx, *regs),
-        _ => unsafe { std::hint::unreachable_unchecked() },
-    };
-    let table_addr = match state.module().table_addrs.get(table_idx as usize) {
-        Some(t) => t.clone(),
-        None => {
-            state.trap = Some(RuntimeError::TableNotFound);
-            return trap(state);
-        }
-    };
-    let index = state.reg_file().get_i32(regs[1]) as usize;
-    let val = table_addr.get(index);
-    match val {
-        Val::Ref(r) => {
-            state.reg_file_mut().set_ref(regs[0], r);
-            state.pc += 1;
-            advance!(state)
-        }
-        _ => {
-            state.trap = Some(RuntimeError::TypeMismatch);
-            trap(state)
+    detached!(state, {
+        let (table_idx, regs) = match state.current_instr() {
+            ProcessedInstr::TableRefReg {
+                table_idx, regs, ..
+            } => (*table_idx, *regs),
+            _ => unsafe { std::hint::unreachable_unchecked() },
+        };
+        let table_addr = match state.module().table_addrs.get(table_idx as usize) {
+            Some(t) => t.clone(),
+            None => {
+                state.trap = Some(RuntimeError::TableNotFound);
+                return false;
+            }
+        };
+        let index = state.reg_file().get_i32(regs[1]) as usize;
+        let val = table_addr.get(index);
+        match val {
+            Val::Ref(r) => {
+                state.reg_file_mut().set_ref(regs[0], r);
+                state.pc += 1;
+                true
+            }
+            _ => {
+                state.trap = Some(RuntimeError::TypeMismatch);
+                false
+            }
         }
-    }
+    })
 }
 
 pub fn table_set(state: &mut VmState) -> Outcome {
-    let (table_idx, regs) = match state.current_instr() {
-        ProcessedInstr::TableRefReg {
-            table_idx, regs, ..
-        } => (*table_idx, *regs),
-        _ => unsafe { std::hint::unreachable_unchecked() },
-    };
-    let table_addr = match state.module().table_addrs.get(table_idx as usize) {
-        Some(t) => t.clone(),
-        None => {
-            state.trap = Some(RuntimeError::TableNotFound);
-            return trap(state);
-        }
-    };
-    let rf = state.reg_file();
-    let index = rf.get_i32(regs[0]) as usize;
-    let ref_val = rf.get_ref(regs[1]);
-    table_addr.set(index, Val::Ref(ref_val));
-    state.pc += 1;
-    advance!(state)
+    detached!(state, {
+        let (table_idx, regs) = match state.current_instr() {
+            ProcessedInstr::TableRefReg {
+                table_idx, regs, ..
+            } => (*table_idx, *regs),
+            _ => unsafe { std::hint::unreachable_unchecked() },
+        };
+        let table_addr = match state.module().table_addrs.get(table_idx as usize) {
+            Some(t) => t.clone(),
+            None => {
+                state.trap = Some(RuntimeError::TableNotFound);
+                return false;
+            }
+        };
+        let rf = state.reg_file();
+        let index = rf.get_i32(regs[0]) as usize;
+        let ref_val = rf.get_ref(regs[1]);
+        table_addr.set(index, Val::Ref(ref_val));
+        state.pc += 1;
+        true
+    })
 }
 
 pub fn table_fill(state: &mut VmState) -> Outcome {
-    let (table_idx, regs) = match state.current_instr() {
-        ProcessedInstr::TableRefReg {
-            table_idx, regs, ..
-        } => (*table_idx, *regs),
-        _ => unsafe { std::hint::unreachable_unchecked() },
-    };
-    let table_addr = match state.module().table_addrs.get(table_idx as usize) {
-        Some(t) => t.clone(),
-        None => {
-            state.trap = Some(RuntimeError::TableNotFound);
-            return trap(state);
-        }
-    };
-    let rf = state.reg_file();
-    let i = rf.get_i32(regs[0]) as usize;
-    let ref_val = rf.get_ref(regs[1]);
-    let n = rf.get_i32(regs[2]) as usize;
-    table_addr.fill(i, Val::Ref(ref_val), n);
-    state.pc += 1;
-    advance!(state)
+    detached!(state, {
+        let (table_idx, regs) = match state.current_instr() {
+            ProcessedInstr::TableRefReg {
+                table_idx, regs, ..
+            } => (*table_idx, *regs),
+            _ => unsafe { std::hint::unreachable_unchecked() },
+        };
+        let table_addr = match state.module().table_addrs.get(table_idx as usize) {
+            Some(t) => t.clone(),
+            None => {
+                state.trap = Some(RuntimeError::TableNotFound);
+                return false;
+            }
+        };
+        let rf = state.reg_file();
+        let i = rf.get_i32(regs[0]) as usize;
+        let ref_val = rf.get_ref(regs[1]);
+        let n = rf.get_i32(regs[2]) as usize;
+        table_addr.fill(i, Val::Ref(ref_val), n);
+        state.pc += 1;
+        true
+    })
 }
 
 // ============================================================================
@@ -1967,119 +2034,129 @@ pub fn table_fill(state: &mut VmState) -> Outcome {
 // ============================================================================
 
 pub fn mem_size(state: &mut VmState) -> Outcome {
-    let dst = match state.current_instr() {
-        ProcessedInstr::MemoryOpsReg { dst, .. } => *dst,
-        _ => unsafe { std::hint::unreachable_unchecked() },
-    };
-    let mem_addr = match state.module().mem_addrs.first() {
-        Some(m) => m.clone(),
-        None => {
-            state.trap = Some(RuntimeError::MemoryNotFound);
-            return trap(state);
+    detached!(state, {
+        let dst = match state.current_instr() {
+            ProcessedInstr::MemoryOpsReg { dst, .. } => *dst,
+            _ => unsafe { std::hint::unreachable_unchecked() },
+        };
+        let mem_addr = match state.module().mem_addrs.first() {
+            Some(m) => m.clone(),
+            None => {
+                state.trap = Some(RuntimeError::MemoryNotFound);
+                return false;
+            }
+        };
+        let size = mem_addr.mem_size();
+        if let Some(d) = dst {
+            state.reg_file_mut().set_i32(d.index(), size);
         }
-    };
-    let size = mem_addr.mem_size();
-    if let Some(d) = dst {
-        state.reg_file_mut().set_i32(d.index(), size);
-    }
-    state.pc += 1;
-    advance!(state)
+        state.pc += 1;
+        true
+    })
 }
 
 pub fn mem_grow(state: &mut VmState) -> Outcome {
-    let instr = unsafe { &*state.instrs.add(state.pc) };
-    let ProcessedInstr::MemoryOpsReg { dst, args, .. } = instr else {
-        unsafe { std::hint::unreachable_unchecked() }
-    };
-    let mem_addr = match state.module().mem_addrs.first() {
-        Some(m) => m.clone(),
-        None => {
-            state.trap = Some(RuntimeError::MemoryNotFound);
-            return trap(state);
+    detached!(state, {
+        let instr = unsafe { &*state.instrs.add(state.pc) };
+        let ProcessedInstr::MemoryOpsReg { dst, args, .. } = instr else {
+            unsafe { std::hint::unreachable_unchecked() }
+        };
+        let mem_addr = match state.module().mem_addrs.first() {
+            Some(m) => m.clone(),
+            None => {
+                state.trap = Some(RuntimeError::MemoryNotFound);
+                return false;
+            }
+        };
+        let delta = state.reg_file().get_i32(args[0].index());
+        let prev_size = mem_addr.mem_grow(delta);
+        if let Some(d) = dst {
+            state.reg_file_mut().set_i32(d.index(), prev_size);
         }
-    };
-    let delta = state.reg_file().get_i32(args[0].index());
-    let prev_size = mem_addr.mem_grow(delta);
-    if let Some(d) = dst {
-        state.reg_file_mut().set_i32(d.index(), prev_size);
-    }
-    state.mem_ptr = mem_addr.data_ptr();
-    state.pc += 1;
-    advance!(state)
+        state.mem_ptr = mem_addr.data_ptr();
+        state.pc += 1;
+        true
+    })
 }
 
 pub fn mem_copy(state: &mut VmState) -> Outcome {
-    let instr = unsafe { &*state.instrs.add(state.pc) };
-    let ProcessedInstr::MemoryOpsReg { args, .. } = instr else {
-        unsafe { std::hint::unreachable_unchecked() }
-    };
-    let mem_addr = match state.module().mem_addrs.first() {
-        Some(m) => m.clone(),
-        None => {
-            state.trap = Some(RuntimeError::MemoryNotFound);
-            return trap(state);
-        }
-    };
-    let regs = state.reg_file();
-    let dest = regs.get_i32(args[0].index());
-    let src = regs.get_i32(args[1].index());
-    let len = regs.get_i32(args[2].index());
-    mem_addr.memory_copy(dest, src, len);
-    state.pc += 1;
-    advance!(state)
+    detached!(state, {
+        let instr = unsafe { &*state.instrs.add(state.pc) };
+        let ProcessedInstr::MemoryOpsReg { args, .. } = instr else {
+            unsafe { std::hint::unreachable_unchecked() }
+        };
+        let mem_addr = match state.module().mem_addrs.first() {
+            Some(m) => m.clone(),
+            None => {
+                state.trap = Some(RuntimeError::MemoryNotFound);
+                return false;
+            }
+        };
+        let regs = state.reg_file();
+        let dest = regs.get_i32(args[0].index());
+        let src = regs.get_i32(args[1].index());
+        let len = regs.get_i32(args[2].index());
+        mem_addr.memory_copy(dest, src, len);
+        state.pc += 1;
+        true
+    })
 }
 
 pub fn mem_init(state: &mut VmState) -> Outcome {
-    let instr = unsafe { &*state.instrs.add(state.pc) };
-    let ProcessedInstr::MemoryOpsReg {
-        args, data_index, ..
-    } = instr
-    else {
-        unsafe { std::hint::unreachable_unchecked() }
-    };
-    let module_inst = state.module();
-    let mem_addr = match module_inst.mem_addrs.first() {
-        Some(m) => m.clone(),
-        None => {
-            state.trap = Some(RuntimeError::MemoryNotFound);
-            return trap(state);
+    detached!(state, {
+        let instr = unsafe { &*state.instrs.add(state.pc) };
+        let ProcessedInstr::MemoryOpsReg {
+            args, data_index, ..
+        } = instr
+        else {
+            unsafe { std::hint::unreachable_unchecked() }
+        };
+        let module_inst = state.module();
+        let mem_addr = match module_inst.mem_addrs.first() {
+            Some(m) => m.clone(),
+            None => {
+                state.trap = Some(RuntimeError::MemoryNotFound);
+                return false;
+            }
+        };
+        if (*data_index as usize) >= module_inst.data_addrs.len() {
+            state.trap = Some(RuntimeError::InvalidDataSegmentIndex);
+            return false;
         }
-    };
-    if (*data_index as usize) >= module_inst.data_addrs.len() {
-        state.trap = Some(RuntimeError::InvalidDataSegmentIndex);
-        return trap(state);
-    }
-    let data_bytes = module_inst.data_addrs[*data_index as usize].get_data();
-    let regs = state.reg_file();
-    let dest = regs.get_i32(args[0].index()) as usize;
-    let offset = regs.get_i32(args[1].index()) as usize;
-    let len = regs.get_i32(args[2].index()) as usize;
-    if len > 0 {
-        mem_addr.init(dest, &data_bytes[offset..offset + len]);
-    }
-    state.pc += 1;
-    advance!(state)
+        let data_bytes = module_inst.data_addrs[*data_index as usize].get_data();
+        let regs = state.reg_file();
+        let dest = regs.get_i32(args[0].index()) as usize;
+        let offset = regs.get_i32(args[1].index()) as usize;
+        let len = regs.get_i32(args[2].index()) as usize;
+        if len > 0 {
+            mem_addr.init(dest, &data_bytes[offset..offset + len]);
+        }
+        state.pc += 1;
+        true
+    })
 }
 
 pub fn mem_fill(state: &mut VmState) -> Outcome {
-    let instr = unsafe { &*state.instrs.add(state.pc) };
-    let ProcessedInstr::MemoryOpsReg { args, .. } = instr else {
-        unsafe { std::hint::unreachable_unchecked() }
-    };
-    let mem_addr = match state.module().mem_addrs.first() {
-        Some(m) => m.clone(),
-        None => {
-            state.trap = Some(RuntimeError::MemoryNotFound);
-            return trap(state);
-        }
-    };
-    let regs = state.reg_file();
-    let dest = regs.get_i32(args[0].index());
-    let val = regs.get_i32(args[1].index()) as u8;
-    let size = regs.get_i32(args[2].index());
-    mem_addr.memory_fill(dest, val, size);
-    state.pc += 1;
-    advance!(state)
+    detached!(state, {
+        let instr = unsafe { &*state.instrs.add(state.pc) };
+        let ProcessedInstr::MemoryOpsReg { args, .. } = instr else {
+            unsafe { std::hint::unreachable_unchecked() }
+        };
+        let mem_addr = match state.module().mem_addrs.first() {
+            Some(m) => m.clone(),
+            None => {
+                state.trap = Some(RuntimeError::MemoryNotFound);
+                return false;
+            }
+        };
+        let regs = state.reg_file();
+        let dest = regs.get_i32(args[0].index());
+        let val = regs.get_i32(args[1].index()) as u8;
+        let size = regs.get_i32(args[2].index());
+        mem_addr.memory_fill(dest, val, size);
+        state.pc += 1;
+        true
+    })
 }
 
 // ============================================================================
-- 
2.43.0


From 5568c7cd39ada033a039172bd4b350fa7f31aa14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:28 +0000
Subject: [PATCH 22/33] fix: drop active data segments once they are applied

---
 src/execution/module.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/execution/module.rs b/src/execution/module.rs
index 85e3fdf..989a72b 100644
--- a/src/execution/module.rs
+++ b/src/execution/module.rs
@@ -202,6 +202,8 @@ impl ModuleInst {
                 };
 
                 module_inst.mem_addrs[idx as usize].init(offset as usize, &init);
+                // An active segment is dropped once it has been applied.
+                module_inst.data_addrs.last().unwrap().drop_data();
             }
         }
 
-- 
2.43.0


From 5e6e054efd6b2759f138be5dd7c0cbe40407537c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:23 +0000
Subject: [PATCH 23/33] fix: memory.init checks its ranges even for no bytes

---
 src/execution/handlers.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/execution/handlers.rs b/src/execution/handlers.rs
index d551167..751ca51 100644
--- a/src/execution/handlers.rs
+++ b/src/execution/handlers.rs
@@ -2128,9 +2128,7 @@ pub fn mem_init(state: &mut VmState) -> Outcome {
         let dest = regs.get_i32(args[0].index()) as usize;
         let offset = regs.get_i32(args[1].index()) as usize;
         let len = regs.get_i32(args[2].index()) as usize;
-        if len > 0 {
-            mem_addr.init(dest, &data_bytes[offset..offset + len]);
-        }
+        mem_addr.init(dest, &data_bytes[offset..offset + len]);
         state.pc += 1;
         true
     })
-- 
2.43.0


From aa20b1d4d1f6c8114328be10ff268e5433cc6246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:42 +0000
Subject: [PATCH 24/33] fix: table.fill checks its whole range before writing

---
 src/execution/table.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/execution/table.rs b/src/execution/table.rs
index 827ec07..71b3421 100644
--- a/src/execution/table.rs
+++ b/src/execution/table.rs
@@ -59,9 +59,7 @@ impl TableAddr {
     /// Out-of-bounds panics; host runtime traps.
     pub fn fill(&self, i: usize, val: Val, n: usize) {
         let mut inst = self.0.borrow_mut();
-        for idx in i..i + n {
-            inst.elem[idx] = val.clone();
-        }
+        inst.elem[i..][..n].fill(val);
     }
 
     /// Gets function address at index for call_indirect.
-- 
2.43.0


From 3c63271e7a664528cd07ca203f19c18a46c5a9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:42 +0000
Subject: [PATCH 25/33] fix: an empty element segment past the end of its table
 does not instantiate

---
 src/execution/table.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/execution/table.rs b/src/execution/table.rs
index 71b3421..e4be1dd 100644
--- a/src/execution/table.rs
+++ b/src/execution/table.rs
@@ -37,8 +37,10 @@ impl TableAddr {
     /// Initializes table elements from function indices (negative for null).
     pub fn init(&self, offset: usize, funcs: &Vec<FuncAddr>, init: &Vec<i32>) {
         let mut addr_self = self.0.borrow_mut();
-        for (index, f) in init.iter().enumerate() {
-            addr_self.elem[index + offset] = Val::Ref(if *f < 0 {
+        // The whole range must lie in the table, even when it is empty.
+        let slots = &mut addr_self.elem[offset..][..init.len()];
+        for (slot, f) in slots.iter_mut().zip(init) {
+            *slot = Val::Ref(if *f < 0 {
                 value::Ref::RefNull
             } else {
                 value::Ref::FuncAddr(funcs.get_by_idx(FuncIdx(*f as u32)).clone())
-- 
2.43.0


From 241c3dd29ec51d6fb958205ed1122639999e3273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:32 +0000
Subject: [PATCH 26/33] fix: args_get and environ_get write only as many
 pointers as there are strings

---
 src/wasi/passthrough.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/wasi/passthrough.rs b/src/wasi/passthrough.rs
index 89c2bbd..fe81e14 100644
--- a/src/wasi/passthrough.rs
+++ b/src/wasi/passthrough.rs
@@ -371,7 +371,7 @@ impl PassthroughWasiImpl {
         }
 
         // Calculate pointer offsets relative to environ_buf_ptr
-        let mut ptr_data = Vec::with_capacity((environ_count as usize + 1) * 4);
+        let mut ptr_data = Vec::with_capacity(environ_count as usize * 4);
         for i in 0..environ_count as usize {
             if !environ_ptrs[i].is_null() {
                 // Calculate offset from the start of environ_buf
@@ -382,8 +382,6 @@ impl PassthroughWasiImpl {
                 ptr_data.extend_from_slice(&0u32.to_le_bytes());
             }
         }
-        // Null terminator for environ array
-        ptr_data.extend_from_slice(&0u32.to_le_bytes());
 
         // Write pointer array to WebAssembly memory
         memory.store_bytes(environ_ptr as i32, &ptr_data);
@@ -427,7 +425,7 @@ impl PassthroughWasiImpl {
 
         // Build the argument buffer and pointer array
         let mut argv_buf = Vec::with_capacity(total_len);
-        let mut ptr_data = Vec::with_capacity((args.len() + 1) * 4); // +1 for null terminator
+        let mut ptr_data = Vec::with_capacity(args.len() * 4);
 
         for arg in args {
             // Store pointer to current position in buffer (relative to argv_buf_ptr)
@@ -439,9 +437,6 @@ impl PassthroughWasiImpl {
             argv_buf.push(0); // null terminator
         }
 
-        // Add null terminator for the argv array
-        ptr_data.extend_from_slice(&0u32.to_le_bytes());
-
         // Write pointer array to WebAssembly memory
         memory.store_bytes(argv_ptr as i32, &ptr_data);
 
-- 
2.43.0


From b43174bc2229fc7767d4778797b00a6267904d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:04 +0000
Subject: [PATCH 27/33] fix: refuse parameters whose types are not those of the
 invoked function

---
 src/execution/state.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/execution/state.rs b/src/execution/state.rs
index 9a60a65..155f40e 100644
--- a/src/execution/state.rs
+++ b/src/execution/state.rs
@@ -156,6 +156,11 @@ impl VMState {
                 if params.len() != type_.params.len() {
                     return Err(RuntimeError::InvalidParameterCount);
                 }
+                let mut given = params.iter().zip(type_.params.iter());
+                // RefNull carries no type of its own
+                if given.any(|(v, t)| !matches!(v, Val::Ref(_)) && v.val_type() != *t) {
+                    return Err(RuntimeError::TypeMismatch);
+                }
 
                 let mut locals = params;
                 for v in code.locals.iter() {
-- 
2.43.0


From 85d4237f627aa071aae967fe5e799183b8727ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:24 +0000
Subject: [PATCH 28/33] fix: refuse malformed and invalid modules before
 anything of them runs

---
 src/main.rs   | 4 +++-
 src/parser.rs | 6 ++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 07af113..984488a 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -146,7 +146,9 @@ fn main() -> Result<()> {
     }
 
     let mut module = Module::new("test");
-    if let Err(e) = parser::parse_bytecode(&mut module, &cli.wasm_file) {
+    if let Err(e) = parser::validate_module(&cli.wasm_file)
+        .and_then(|_| parser::parse_bytecode(&mut module, &cli.wasm_file))
+    {
         return Err(anyhow::anyhow!("Failed to parse module: {}", e));
     }
     let imports: ImportObjects = FxHashMap::default();
diff --git a/src/parser.rs b/src/parser.rs
index a1d5640..f99ad16 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -7404,6 +7404,12 @@ fn compute_branch_regs(
     (source_regs, target_result_regs)
 }
 
+/// Checks that the file at `path` is a well-formed and valid WebAssembly module.
+pub fn validate_module(path: &str) -> Result<(), Box<dyn std::error::Error>> {
+    wasmparser::validate(&std::fs::read(path)?)?;
+    Ok(())
+}
+
 /// Parses a WebAssembly binary file and populates the module structure.
 ///
 /// This is the main entry point for loading a WebAssembly module. It reads
-- 
2.43.0


From bb944a7bf384f0e656eb53b86b7ca3f66dcc015e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:28 +0000
Subject: [PATCH 29/33] fix: an empty quoted word in --app-args is an argument

---
 src/main.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 984488a..c6b079b 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -53,26 +53,30 @@ fn parse_args_string(args: &str) -> Vec<String> {
     let mut result = Vec::new();
     let mut current_arg = String::new();
     let mut in_quotes = false;
+    let mut started = false; // "" is an argument, too
     let mut chars = args.chars().peekable();
 
     while let Some(ch) = chars.next() {
         match ch {
             '"' => {
                 in_quotes = !in_quotes;
+                started = true;
             }
             ' ' if !in_quotes => {
-                if !current_arg.is_empty() {
+                if started {
                     result.push(current_arg.clone());
                     current_arg.clear();
+                    started = false;
                 }
             }
             _ => {
                 current_arg.push(ch);
+                started = true;
             }
         }
     }
 
-    if !current_arg.is_empty() {
+    if started {
         result.push(current_arg);
     }
 
-- 
2.43.0


From 33f178237e86a098ac971ee59cd12b973372f76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:47 +0000
Subject: [PATCH 30/33] fix: functions with more than eight results aborted the
 runtime

---
 src/execution/handlers.rs |  7 +++----
 src/execution/runtime.rs  | 17 +++++++----------
 src/execution/state.rs    | 15 +++++++--------
 3 files changed, 17 insertions(+), 22 deletions(-)

diff --git a/src/execution/handlers.rs b/src/execution/handlers.rs
index 751ca51..339e569 100644
--- a/src/execution/handlers.rs
+++ b/src/execution/handlers.rs
@@ -30,7 +30,6 @@ use crate::execution::operand;
 use crate::execution::regs::Reg;
 use crate::execution::state::{Label, LabelStack, ModuleLevelInstr, VmState};
 use crate::execution::value::Val;
-use arrayvec::ArrayVec;
 
 // ============================================================================
 // Handler index constants
@@ -1709,7 +1708,7 @@ pub fn call(state: &mut VmState) -> Outcome {
     };
     let regs = state.reg_file();
     let params: Vec<Val> = param_regs.iter().map(|r| regs.get_val(r)).collect();
-    let result_regs_vec: ArrayVec<Reg, 8> = result_regs.iter().copied().collect();
+    let result_regs_vec: Vec<Reg> = result_regs.iter().copied().collect();
     state.pc += 1;
     state.yielded = Some(ModuleLevelInstr::InvokeReg {
         func_addr,
@@ -1753,7 +1752,7 @@ pub fn call_indirect(state: &mut VmState) -> Outcome {
     }
     let regs = state.reg_file();
     let params: Vec<Val> = param_regs.iter().map(|r| regs.get_val(r)).collect();
-    let result_regs_vec: ArrayVec<Reg, 8> = result_regs.iter().copied().collect();
+    let result_regs_vec: Vec<Reg> = result_regs.iter().copied().collect();
     state.pc += 1;
     state.yielded = Some(ModuleLevelInstr::InvokeReg {
         func_addr,
@@ -1791,7 +1790,7 @@ pub fn r#return(state: &mut VmState) -> Outcome {
     let ProcessedInstr::ReturnReg { result_regs } = instr else {
         unsafe { std::hint::unreachable_unchecked() }
     };
-    let rrr: ArrayVec<Reg, 8> = result_regs.iter().copied().collect();
+    let rrr: Vec<Reg> = result_regs.iter().copied().collect();
     *state.return_result_regs_mut() = rrr;
     state.yielded = Some(ModuleLevelInstr::Return);
     Outcome::Yield
diff --git a/src/execution/runtime.rs b/src/execution/runtime.rs
index 225cd42..72bf0d6 100644
--- a/src/execution/runtime.rs
+++ b/src/execution/runtime.rs
@@ -17,7 +17,6 @@ use crate::execution::value::{Num, Val, Vec_};
 use crate::structure::module::WasiFuncType;
 use crate::structure::types::{Limits, MemType, NumType, ValueType, VecType};
 use crate::wasi::{WasiError, WasiResult};
-use arrayvec::ArrayVec;
 use std::path::Path;
 use std::rc::Rc;
 #[cfg(all(target_os = "wasi", target_env = "p1", target_feature = "atomics"))]
@@ -158,8 +157,8 @@ impl Runtime {
         let locals_ptr = frame_stack.frame.locals.as_mut_ptr();
         let label_stack_ptr: *mut Vec<LabelStack> =
             &mut frame_stack.label_stack as *mut Vec<LabelStack>;
-        let return_result_regs_ptr: *mut ArrayVec<Reg, 8> =
-            &mut frame_stack.return_result_regs as *mut ArrayVec<Reg, 8>;
+        let return_result_regs_ptr: *mut Vec<Reg> =
+            &mut frame_stack.return_result_regs as *mut Vec<Reg>;
         let enable_checkpoint = frame_stack.enable_checkpoint;
 
         let mut state = VmState {
@@ -355,8 +354,8 @@ impl Runtime {
                                             ip: 0,
                                         }],
                                         enable_checkpoint: self.enable_checkpoint,
-                                        result_regs: ArrayVec::new(),
-                                        return_result_regs: ArrayVec::new(),
+                                        result_regs: Vec::new(),
+                                        return_result_regs: Vec::new(),
                                         primary_mem,
                                         cached_mem_ptr,
                                         handlers: code.handlers.clone(),
@@ -408,18 +407,16 @@ impl Runtime {
 
                             if self.stacks.activation_frame_stack.is_empty() {
                                 // Read values from registers before restoring
-                                // Use ArrayVec to avoid heap allocation (most functions return 0-2 values)
-                                let values_to_pass: ArrayVec<Val, 8> = return_result_regs
+                                let values_to_pass: Vec<Val> = return_result_regs
                                     .iter()
                                     .take(expected_n)
                                     .map(|reg| self.stacks.reg_file.get_val(reg))
                                     .collect();
                                 self.stacks.reg_file.restore_offsets();
-                                return Ok(values_to_pass.into_iter().collect());
+                                return Ok(values_to_pass);
                             } else {
                                 // First read values from finished frame's registers (before restore)
-                                // Use ArrayVec to avoid heap allocation
-                                let values_to_pass: ArrayVec<Val, 8> = return_result_regs
+                                let values_to_pass: Vec<Val> = return_result_regs
                                     .iter()
                                     .map(|reg| self.stacks.reg_file.get_val(reg))
                                     .collect();
diff --git a/src/execution/state.rs b/src/execution/state.rs
index 155f40e..2134d09 100644
--- a/src/execution/state.rs
+++ b/src/execution/state.rs
@@ -15,7 +15,6 @@ use crate::execution::regs::{Reg, RegFile};
 use crate::execution::value::{Num, Ref, Val, Vec_};
 use crate::structure::module::WasiFuncType;
 use crate::structure::types::{NumType, ValueType, VecType};
-use arrayvec::ArrayVec;
 use serde::{Deserialize, Deserializer, Serialize, Serializer};
 use std::rc::{Rc, Weak};
 
@@ -46,7 +45,7 @@ pub struct VmState {
     // Outcome channels
     pub trap: Option<RuntimeError>,
     pub yielded: Option<ModuleLevelInstr>,
-    pub return_result_regs: *mut ArrayVec<Reg, 8>,
+    pub return_result_regs: *mut Vec<Reg>,
 
     // Per-frame flags
     pub enable_checkpoint: bool,
@@ -113,7 +112,7 @@ impl VmState {
 
     /// Mutable reference to the return-value register slot.
     #[inline(always)]
-    pub fn return_result_regs_mut(&mut self) -> &mut ArrayVec<Reg, 8> {
+    pub fn return_result_regs_mut(&mut self) -> &mut Vec<Reg> {
         unsafe { &mut *self.return_result_regs }
     }
 }
@@ -130,7 +129,7 @@ pub enum ModuleLevelInstr {
     InvokeReg {
         func_addr: FuncAddr,
         params: Vec<Val>,
-        result_regs: ArrayVec<Reg, 8>,
+        result_regs: Vec<Reg>,
     },
 }
 
@@ -199,8 +198,8 @@ impl VMState {
                         ip: 0,
                     }],
                     enable_checkpoint: false,
-                    result_regs: ArrayVec::new(),
-                    return_result_regs: ArrayVec::new(),
+                    result_regs: Vec::new(),
+                    return_result_regs: Vec::new(),
                     primary_mem,
                     cached_mem_ptr,
                     handlers: code.handlers.clone(),
@@ -251,8 +250,8 @@ pub struct FrameStack {
     pub label_stack: Vec<LabelStack>,
     #[serde(skip)]
     pub enable_checkpoint: bool,
-    pub result_regs: ArrayVec<Reg, 8>,
-    pub return_result_regs: ArrayVec<Reg, 8>,
+    pub result_regs: Vec<Reg>,
+    pub return_result_regs: Vec<Reg>,
     #[serde(skip)]
     pub primary_mem: Option<MemAddr>,
     #[serde(skip)]
-- 
2.43.0


From a0d58d06c573a3bac176e81e5af0b3a660d5bb88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:35 +0000
Subject: [PATCH 31/33] fix: element segments of externref aborted the runtime

---
 src/execution/module.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/execution/module.rs b/src/execution/module.rs
index 989a72b..79a204c 100644
--- a/src/execution/module.rs
+++ b/src/execution/module.rs
@@ -138,9 +138,6 @@ impl ModuleInst {
         }
 
         for elem in &module.elems {
-            if elem.type_ == RefType::ExternalRef {
-                panic!();
-            }
             let mut init: Vec<i32> = Vec::new();
             if let Some(idxes) = &elem.idxes {
                 for idx in idxes {
-- 
2.43.0


From c0c116e6559d30f2ec151dd6321d9e0b1bc7d8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:45 +0000
Subject: [PATCH 32/33] fix: more than 65536 operands pending at once were
 miscomputed

---
 src/execution/regs.rs | 17 +++++++++++++++++
 src/parser.rs         |  5 +++++
 2 files changed, 22 insertions(+)

diff --git a/src/execution/regs.rs b/src/execution/regs.rs
index 9887a7d..137bb4d 100644
--- a/src/execution/regs.rs
+++ b/src/execution/regs.rs
@@ -416,6 +416,23 @@ pub struct RegAllocation {
     pub v128_count: usize,
 }
 
+impl RegAllocation {
+    /// Whether every register index fits the `u16` of [`Reg`].
+    pub fn is_addressable(&self) -> bool {
+        const MAX: usize = u16::MAX as usize + 1;
+        [
+            self.i32_count,
+            self.i64_count,
+            self.f32_count,
+            self.f64_count,
+            self.ref_count,
+            self.v128_count,
+        ]
+        .iter()
+        .all(|&count| count <= MAX)
+    }
+}
+
 /// Register allocator - tracks stack depth to assign virtual registers
 pub struct RegAllocator {
     // Current stack depth per type
diff --git a/src/parser.rs b/src/parser.rs
index f99ad16..0cef54f 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -7356,6 +7356,11 @@ fn decode_processed_instrs_and_fixups<'a>(
 
     // Finalize register allocation if in register mode
     let reg_allocation = reg_allocator.map(|alloc| alloc.finalize());
+    if reg_allocation.as_ref().is_some_and(|a| !a.is_addressable()) {
+        return Err(Box::new(RuntimeError::InvalidWasm(
+            "Too many operands pending at once in a function",
+        )) as Box<dyn std::error::Error>);
+    }
 
     Ok((
         initial_processed_instrs,
-- 
2.43.0


From 5c125cb89299c488725d161a7dd52e0ab5e85145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:30 +0000
Subject: [PATCH 33/33] fix: a memory of 65536 pages was created empty

---
 src/execution/mem.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/execution/mem.rs b/src/execution/mem.rs
index b1d6bba..90b7009 100644
--- a/src/execution/mem.rs
+++ b/src/execution/mem.rs
@@ -23,7 +23,8 @@ pub struct MemInst {
 impl MemAddr {
     /// Creates a new memory instance with initial size from type.
     pub fn new(type_: &MemType) -> MemAddr {
-        let min = (type_.0.min * 65536) as usize;
+        let min = usize::try_from(type_.0.min as u64 * 65536)
+            .expect("memory does not fit the host's address space");
         let max = type_.0.max.map(|max| max);
         MemAddr {
             mem_inst: Rc::new(UnsafeCell::new(MemInst {
-- 
2.43.0

