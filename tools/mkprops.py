#!/usr/bin/env python3
# Generates properties.jsonl (kept as code so that titles/statements stay reviewable)
import json
P=[]
def p(id,title,st,over,qt,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"where":w} for n,w in state]
    if obs: a["observe_at"]=obs
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})
H="src/execution/handlers.rs"; R="src/execution/runtime.rs"; PA="src/parser.rs"; M="src/execution/migration.rs"
p("P01","Integer instructions compute the exact WebAssembly result",
 "For every i32 and i64 arithmetic, bitwise, shift, rotate, count, comparison and sign-extension instruction and every operand value, the guest observes exactly the result the WebAssembly specification defines, wherever the operands come from (constants, locals, intermediate results) and wherever the result goes (an expression, a local, memory, a branch condition). Division and remainder trap exactly on a zero divisor and on signed-division overflow.",
 ["inputs","programs"],"all integer instructions, all operand values, all operand sources and result destinations",
 "Tests sample a few operand pairs per instruction from the stack; the value space and the operand-source/destination combinations, each of which is a separate code path, are not enumerated.",
 [H,PA,"src/execution/operand.rs"],[("integer handlers","src/execution/handlers.rs i32_*/i64_*"),("operand folding selection","src/parser.rs try_fold_*")])
p("P02","Float instructions follow IEEE 754 and the WebAssembly specification",
 "For every f32 and f64 arithmetic, comparison, rounding, min/max, sqrt, abs, neg and copysign instruction and every operand bit pattern, the guest observes the correctly rounded round-to-nearest-even result required by WebAssembly, including signed zeros, infinities, subnormals and NaN-ness, wherever operands come from and results go.",
 ["inputs","programs"],"all float instructions over all bit patterns, up to the NaN payload freedom WebAssembly allows",
 "Tests sample ordinary values; signed zero, subnormal, halfway and NaN cases combined with constant/local operand forms are not reached.",
 [H,PA],[("float handlers","src/execution/handlers.rs f32_*/f64_*")])
p("P03","Numeric conversions are exact and trap only where the specification says",
 "Every conversion between i32, i64, f32 and f64 (wrap, extend, convert, promote, demote, reinterpret, trapping and saturating truncation) yields the value WebAssembly defines for every input. A trapping truncation traps exactly when the input is NaN or its truncation is outside the target range; a saturating one never traps.",
 ["inputs"],"all conversion instructions over all inputs, especially range boundaries and halfway roundings",
 "Tests cover a handful of mid-range values; the boundary neighbourhoods at which rounding or trapping flips are not enumerated.",
 [H],[("conversion handlers","src/execution/handlers.rs *_trunc_*, *_convert_*, *_extend_*")])
p("P04","Structured control flow transfers to the right place with the right values",
 "For every validated program built from block, loop, if/else, br, br_if, br_table and return, at any nesting depth, control reaches exactly the target the WebAssembly specification designates, and exactly the label's values of the label's types arrive there (block results for forward branches, loop parameters for backward branches, function results for branches to the function label), with any surplus operands discarded. This holds with multiple values, mixed types, dead code after unconditional branches and any number of stack operands below the label.",
 ["programs"],"all validated control-flow nestings, branch depths, label types and stack heights",
 "Tests use hand-written single-value blocks; multi-value, mixed-type, function-label and dead-code combinations form an unbounded space.",
 [PA,H,"src/execution/regs.rs"],[("branch target and register resolution","src/parser.rs preprocess_instructions/compute_branch_regs"),("branch handlers","src/execution/handlers.rs br/br_if/br_table")])
p("P05","Expression translation preserves operand order and evaluation time",
 "In any validated program every instruction consumes precisely the operands that stack order designates, each with the value it had at the moment it was pushed: fusing constants, locals or destinations into an instruction, or reusing registers, never swaps operands, never lets a later write to a local or global change an operand already on the stack, and never attaches a constant or local to a different instruction.",
 ["programs"],"all instruction sequences, in particular all short sequences around constants, local.get/set/tee, global.get/set, select, drop and unary/binary consumers",
 "Tests check isolated instructions; interactions between adjacent instructions grow combinatorially and are not enumerated.",
 [PA,"src/execution/regs.rs","src/execution/operand.rs"],[("operand folding","src/parser.rs decode_processed_instrs_and_fixups"),("register allocation","src/execution/regs.rs RegAllocator")])
p("P06","Calls pass arguments, isolate frames and return every result",
 "For every call graph, including mutual and deep recursion, a callee sees exactly its arguments in order and zero in every other local, cannot disturb the caller's locals or pending operands, and all of its results reach the caller in order, whether it leaves by falling off its end, by return or by a branch to its outermost label. Every function with any number of parameters, results and locals of mixed types behaves alike.",
 ["programs","inputs"],"all signatures, call graphs, recursion depths and pending-operand shapes",
 "Tests call a few fixed signatures; interleavings of pending operands of several types with calls and recursion are not explored.",
 [R,PA,H,"src/execution/regs.rs"],[("frame push/pop and result copying","src/execution/runtime.rs run"),("register windows","src/execution/regs.rs save_offsets/restore_offsets")])
p("P07","Indirect calls reach the designated function or trap",
 "call_indirect invokes exactly the function held by the selected table slot at that moment when its type structurally equals the expected type, passing arguments and results as a direct call does, and traps without calling anything when the index is out of range, the slot is null or the types differ.",
 ["programs","histories"],"all tables, indices, types and table histories",
 "Tests use a fixed table with a few indices; structurally equal but differently numbered types, imported functions in tables, altered tables and boundary indices are not combined.",
 [H,R,"src/execution/table.rs","src/execution/module.rs"],[("call_indirect handler","src/execution/handlers.rs call_indirect"),("table operations","src/execution/table.rs")])
p("P08","In-bounds memory accesses have the specified width, sign, order and address",
 "Every load and store accesses exactly the bytes at (address + offset), little-endian, of exactly its width, with the specified sign or zero extension or truncation, and touches no other byte, for every address that is in bounds, aligned or not, whatever alignment hint, and wherever the address and value operands come from.",
 ["programs","inputs","histories"],"all load/store instructions, offsets, addresses and overlap histories",
 "Tests check single loads and stores at fixed addresses; overlapping histories of mixed widths through all operand forms are not explored.",
 [H,"src/execution/mem.rs",PA],[("load/store handlers","src/execution/handlers.rs"),("linear memory","src/execution/mem.rs")])
p("P09","memory.size/grow and bulk memory operations follow the specification",
 "memory.grow extends memory by zeroed pages and returns the old size, or returns -1 and changes nothing when the limit would be exceeded; memory.size always reports the current size. memory.copy, memory.fill, memory.init and data.drop move exactly the specified bytes (correct under overlap) for in-bounds arguments, in every function of the call chain immediately after a grow.",
 ["programs","histories"],"all histories of grow, size, bulk operations and accesses across calls",
 "Tests exercise each operation alone; grows inside callees followed by accesses in callers, overlap and limit boundaries are sequences tests do not form.",
 [H,"src/execution/mem.rs",R],[("memory.grow and cached pointers","src/execution/mem.rs, src/execution/runtime.rs"),("bulk operations","src/execution/mem.rs")])
p("P10","Instantiation initialises globals, memory, tables and start as specified",
 "Before the invoked export runs, every global holds its initialiser, every active data and element segment has been written in order (later ones overriding), and the start function, if any, has run exactly once; afterwards global.get and global.set act on exactly the designated global.",
 ["programs","configurations"],"all combinations of globals, segments, imports and start functions",
 "Tests instantiate small fixed modules; index spaces shifted by imports, overlapping segments and start functions are not combined.",
 ["src/execution/module.rs",PA,"src/execution/global.rs"],[("instantiation","src/execution/module.rs ModuleInst::new")])
p("P11","A trap ends execution at once and keeps earlier effects only",
 "When an instruction traps (unreachable, integer division by zero or overflow, invalid conversion, bad indirect call), no later instruction of any frame has an observable effect, no result is reported, and all output produced before the trap is kept. A program that does not trap is never reported as failed.",
 ["programs"],"all trapping instructions at all positions in all call structures",
 "Tests check that single instructions trap, not that nothing executes afterwards in any surrounding structure or operand form.",
 [H,R,"src/main.rs"],[("trap propagation","src/execution/handlers.rs, src/execution/runtime.rs")])
p("P12","Checkpoint and restore is invisible to the guest at every point",
 "If a run is checkpointed at any instruction boundary at which the runtime honours a request and later restored in a fresh process with the same module, the concatenated output, the final result and any trap are the same as in the uninterrupted run. All guest state survives: locals, pending operands of every type, call stack, control position, globals, memory contents and size.",
 ["programs","crash_points","schedules"],"all programs and all checkpoint points",
 "No test checkpoints at an arbitrary point of an arbitrary program; the test-suite has no end-to-end checkpoint/restore sweep.",
 [M,R,"src/execution/state.rs","src/execution/regs.rs"],[("checkpoint/restore","src/execution/migration.rs"),("resume","src/execution/runtime.rs run/execute_frame")])
p("P13","Checkpoints chain and migrate across dispatchers",
 "A restored execution run with checkpointing enabled can be checkpointed and restored again any number of times, and each restore may use either dispatcher build, with the guest-visible behaviour equal to the uninterrupted run.",
 ["schedules","histories","configurations"],"all sequences of checkpoint points and dispatcher choices",
 "Requires multi-process histories; no test forms one.",
 [M,R],[("restored runtime","src/execution/runtime.rs new_restored/run")])
p("P14","A checkpoint request is honoured within a bounded number of instructions",
 "With checkpointing enabled, once the request exists it is honoured within a bounded number (about two thousand) of executed guest instructions, whatever the shape of the program: tight loops, short calls, deep recursion, host calls, code without host imports, and after a restore alike. The program is not required to return, call or branch in any particular way first.",
 ["programs","schedules"],"all non-terminating or long-running program shapes, before and after restore",
 "A liveness property over program shapes; tests never wait for a checkpoint in a guest made of short calls.",
 [M,R,"src/execution/dispatch_tco.rs","src/execution/dispatch_loop.rs"],[("polling","src/execution/migration.rs poll_checkpoint"),("poll counter","src/execution/runtime.rs execute_frame")])
p("P15","The checkpoint request protocol is exact and crash-safe",
 "A request is consumed exactly once and only when checkpointing is enabled; a checkpoint is reported successful only after the complete state is stored, and if storing fails or the process dies part-way the run never reports success and any previously stored complete checkpoint is still restorable. Without a request the run never creates a checkpoint and behaves as without the option.",
 ["crash_points","fault_sequences","schedules"],"all fault and crash positions during the checkpoint, all request times",
 "Needs fault injection at every host call of the protocol; tests have none.",
 [M,R],[("checkpoint writing","src/execution/migration.rs checkpoint"),("trigger handling","src/execution/migration.rs do_poll_checkpoint")])
p("P16","A damaged or foreign checkpoint is refused before the guest runs",
 "Restoring from a missing, empty or truncated checkpoint, or one that does not fit the module, is reported as a failure before any guest instruction executes and without guest output; it never resumes in an inconsistent state.",
 ["inputs","fault_sequences"],"all truncations, and structurally mismatching module/checkpoint pairs",
 "Tests never restore damaged files.",
 [M,"src/main.rs"],[("restore","src/execution/migration.rs restore")])
p("P17","WASI calls pass through the guest's data and the host's answers unchanged",
 "Every supported WASI call reaches the host with the arguments the guest gave, gathers and scatters exactly the designated guest bytes in order, returns the host's errno to the guest and writes results only to the designated guest memory; argument and environment data have the standard layout. A host error is an errno for the guest, never an abort of the runtime.",
 ["programs","fault_sequences","inputs"],"all calls, argument shapes, partial transfers and host errors",
 "WASI tests run fixed programs against a cooperative host; short transfers, odd iovec lists and host errors are not injected.",
 ["src/wasi/passthrough.rs",R,PA],[("passthrough","src/wasi/passthrough.rs"),("call_wasi_function","src/execution/runtime.rs")])
p("P18","The command line invokes the chosen export and reports its outcome",
 "The runtime invokes exactly the named export with the parameters given on the command line, converted to the declared types, passes the guest its argument vector with quoting respected, and prints the result value exactly. Unknown exports, imports that nobody provides and malformed modules yield a failure report and no guest effect.",
 ["inputs","configurations"],"all parameter values and types, argument strings and export names",
 "The tests call library functions, not the command line.",
 ["src/main.rs","src/execution/module.rs"],[("CLI","src/main.rs main/parse_params/parse_args_string")])
p("P19","Every valid encoding of a module is decoded to the same behaviour",
 "Two binaries that encode the same module (padded LEB128 immediates, custom sections anywhere, locals split into runs, differently ordered but equivalent type tables, alternative segment encodings) behave identically, and every constant immediate reaches the guest with its exact value.",
 ["inputs","programs"],"all alternative encodings the binary format permits, all immediates",
 "Test modules all come from one encoder, with canonical encodings.",
 [PA,"src/structure/module.rs"],[("binary decoding","src/parser.rs")])
p("P20","Both dispatchers have the same observable behaviour",
 "For every module, input, host behaviour and checkpoint request, the tail-call and the loop dispatcher builds make the same sequence of guest-caused host calls with the same data and end with the same outcome.",
 ["programs","configurations"],"all programs and host behaviours",
 "Each test run compiles one dispatcher; nothing compares their host-call histories.",
 ["src/execution/dispatch_tco.rs","src/execution/dispatch_loop.rs",H],[("dispatchers","src/execution/dispatch_tco.rs, src/execution/dispatch_loop.rs")])
p("P21","Reference values and tables keep their identity",
 "funcref and externref values held in locals, operands and tables compare null or non-null correctly, survive calls, select and block results, and table.get, table.set and table.fill read and write exactly the designated slots, trapping without any effect when out of bounds.",
 ["programs","histories"],"all reference-typed programs and table histories over the supported instructions",
 "Tests check one table operation at a time.",
 ["src/execution/table.rs",H,"src/execution/regs.rs"],[("table instructions","src/execution/table.rs"),("reference handlers","src/execution/handlers.rs")])
p("P22","Runtime state stays proportional to the live guest state",
 "However long a guest runs, the state the runtime keeps and checkpoints depends only on the live call stack, globals and memory: returning from calls, looping, branching out of nested blocks and repeated host calls leave nothing behind.",
 ["histories","programs"],"all long histories of calls, branches and host calls",
 "A leak shows only in long histories; tests are short and never look at runtime state size.",
 [R,"src/execution/regs.rs",M],[("register window restore","src/execution/regs.rs restore_offsets"),("frame stack","src/execution/runtime.rs")])
p("P23","Size does not change meaning",
 "Programs behave the same however large they are: with any number of pending operands, locals, parameters, results, nested or sequential blocks, br_table targets, instructions, functions, function types, imports, exports, globals, tables, table slots, data and element segments, memory pages, call frames, loop iterations and custom sections, and any immediate offset or index, the guest observes exactly what WebAssembly defines; a module that exceeds what the runtime can represent is refused as a whole before any of it runs.",
 ["programs","configurations"],"all sizes of every structure of a module, in particular around the limits of index widths",
 "Test modules are small; a truncated index, a narrowed offset or an overflowing table shows only beyond 2^8, 2^15, 2^16 or 2^24 items.",
 [PA,"src/execution/module.rs",H,"src/execution/regs.rs",R],[("operand addressing and register allocation","src/execution/regs.rs, src/parser.rs"),("instantiation","src/execution/module.rs ModuleInst::new"),("processed instructions","src/parser.rs preprocess_instructions")])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
