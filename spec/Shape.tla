------------------------------- MODULE Shape --------------------------------
(***************************************************************************)
(* Long-running programs by shape: a body built from the constructs of     *)
(* structured control flow and calls, repeated so often that a runtime     *)
(* which polls, counts or releases anything once per call, branch, block   *)
(* or return is exercised thousands of times.  The body changes global 0   *)
(* by a non-commutative update at every leaf, so the final value tells     *)
(* whether everything ran exactly once and in order.                       *)
(*                                                                         *)
(* Used for: a checkpoint request is honoured within a bounded number of   *)
(* instructions (the machine's instruction count n is printed), and the    *)
(* runtime's own state stays proportional to the live state (the machine's *)
(* state is the same size at every iteration, invariant Steady).           *)
(***************************************************************************)
EXTENDS Prog

CONSTANTS DEPTH,     \* nesting of constructors: 1 or 2 (exhaustive), deeper ones are sampled
          SAMPLE,    \* number of deeper shapes drawn
          TOPS, BASE

VARIABLES x, vm
vars == <<x, vm>>

Leaves == <<"arith", "host", "mem", "tab", "hosti", "bulk", "size", "multi", "opnd", "float", "ref", "regs">>
Unary  == <<"call", "callp", "calli", "loop", "lparam", "if", "block", "bt", "rec", "brout", "surplus", "twice">>

S0 == <<<<>>, <<>>>>                              \* [] -> []
Acc(k) == <<<<"global.get", 0>>, I32(31), <<"i32.mul">>, I32(k), <<"i32.add">>, <<"global.set", 0>>>>
(* add the i32 on top of the stack to the accumulator *)
AccTop == <<<<"global.get", 0>>, I32(17), <<"i32.mul">>, <<"i32.add">>, <<"global.set", 0>>>>
L4 == [i \in 1..8 |-> "i32"] \o <<"i64", "f32", "f64", "funcref", "externref">>
Low(k) == <<<<"global.get", 0>>, I32(k), <<"i32.and">>>>
Multi == Fn(<<<<"i32">>, <<"i32", "i64", "f64">>>>, <<>>,
            <<<<"local.get", 0>>, I32(3), <<"i32.add">>, <<"i64.const", <<5,0,0,0,0,0,0,0>>>>, <<"f64.const", <<0,0,0,0,0,0,8,64>>>>>>)
(* the first functions of every program: 0 the indirect leaf, 1 the many-valued one *)
Regs == Fn(<<<<"i64", "f64">>, <<"i32">>>>, <<"funcref", "f32", "externref">>,
           <<<<"local.get", 1>>, <<"f32.demote_f64">>, <<"local.set", 3>>, I32(0), <<"table.get", 0>>, <<"local.tee", 2>>, <<"ref.is_null">>,
             <<"local.get", 4>>, <<"ref.is_null">>, <<"i32.add">>, <<"local.get", 0>>, <<"i32.wrap_i64">>, <<"i32.add">>,
             <<"local.get", 3>>, <<"i32.trunc_sat_f32_s">>, <<"i32.add">>, <<"local.get", 2>>, <<"ref.is_null">>, <<"i32.sub">>>>)
Fixed == <<Fn(S0, <<>>, Acc(9)), Multi, Regs>>

Leaf(t, ni) ==
  CASE t = "arith" -> Acc(1)
    [] t = "host"  -> IF ni = 0 THEN Acc(2) ELSE <<<<"call", 1>>>> \o AccTop
    [] t = "hosti" -> IF ni = 0 THEN Acc(3) ELSE <<I32(40), <<"call_indirect", <<<<>>, <<"i32">>>>, 0>>>> \o AccTop
    [] t = "mem"   -> <<I32(5000)>> \o Low(60) \o <<<<"i32.add">>, <<"global.get", 0>>, <<"i32.store", 4>>, I32(5000)>> \o Low(28)
                      \o <<<<"i32.add">>, <<"i32.load8_u", 4>>>> \o AccTop
    [] t = "tab"   -> <<I32(0), <<"call_indirect", S0, 0>>>>
    [] t = "bulk"  -> <<I32(6000), <<"global.get", 0>>, I32(9), <<"memory.fill">>, I32(6004), I32(6000), I32(9), <<"memory.copy">>,
                        I32(6010), <<"i32.load", 0>>>> \o AccTop
    [] t = "size"  -> <<I32(0), <<"memory.grow">>, <<"memory.size">>, <<"i32.add">>>> \o AccTop
    [] t = "multi" -> <<<<"global.get", 0>>, <<"call", ni + 1>>, <<"i64.trunc_sat_f64_s">>, <<"i64.add">>, <<"i32.wrap_i64">>, <<"i32.mul">>>> \o AccTop
    [] t = "regs"  -> <<<<"global.get", 0>>, <<"i64.extend_i32_s">>, <<"f64.const", <<0,0,0,0,0,0,8,64>>>>, <<"call", ni + 2>>>> \o AccTop
    [] t = "ref"   -> <<I32(0), <<"table.get", 0>>, I32(39), <<"table.get", 0>>>> \o Low(1)
                      \o <<<<"select_t", "funcref">>, <<"ref.is_null">>>> \o AccTop \o <<I32(38), I32(0), <<"table.get", 0>>, <<"table.set", 0>>>>
    [] t = "opnd"  -> <<I32(7), <<"block", <<<<>>, <<"i32">>>>>>, I32(9), <<"i64.const", One(8)>>>> \o Low(15)
                      \o <<<<"br", 0>>, <<"end">>, <<"i32.add">>>> \o AccTop
    [] OTHER       -> <<<<"global.get", 1>>, <<"f64.const", <<0,0,0,0,0,0,224,63>>>>, <<"f64.mul">>, <<"f64.const", <<0,0,0,0,0,0,240,63>>>>, <<"f64.add">>,
                        <<"global.set", 1>>, <<"global.get", 1>>, <<"i32.trunc_sat_f64_s">>>> \o AccTop

(* inside a function with two parameters the scratch locals start one later *)
Shift(i) == IF i[1] \in {"local.get", "local.set", "local.tee"} THEN <<i[1], i[2] + 1>> ELSE i

(* a shape is a sequence of constructors, outermost first, ending in a leaf;
   Build(s, fs, d, ni) = <<code, functions>> with d the first free local      *)
RECURSIVE Build(_, _, _, _)
Build(s, fs, d, ni) ==
  LET h == s[1] IN
  IF Len(s) = 1 THEN <<Leaf(h, ni), fs>>
  ELSE
  LET nested == h \in {"loop", "lparam", "if", "block", "bt", "surplus", "twice"}
      b  == Build(Tail(s), fs, IF nested THEN d + 1 ELSE 1, ni)
      c  == b[1]  f2 == b[2]
      ix == ni + Len(f2)                             \* index of a function added now
      fn(sig, code) == Append(f2, Fn(sig, L4, code))
      n3 == <<I32(3), <<"local.set", d>>>>
      dec == <<<<"local.get", d>>, I32(1), <<"i32.sub">>, <<"local.tee", d>>>>
  IN
  CASE h = "call"  -> <<<<<<"call", ix>>>>, fn(S0, c)>>
    [] h = "callp" -> <<<<<<"global.get", 0>>, <<"i64.const", <<7,0,0,0,0,0,0,0>>>>, <<"call", ix>>>> \o AccTop,
                        fn(<<<<"i32", "i64">>, <<"i32">>>>, <<I32(99), <<"i64.const", One(8)>>>> \o [i \in DOMAIN c |-> Shift(c[i])]
                           \o <<<<"local.get", 0>>, <<"local.get", 1>>, <<"i32.wrap_i64">>, <<"i32.add">>, <<"return">>>>)>>
    [] h = "calli" -> <<<<I32(ix - ni), <<"call_indirect", S0, 0>>>>, fn(S0, c)>>
    [] h = "loop"  -> <<n3 \o <<<<"loop", S0>>>> \o c \o dec \o <<<<"br_if", 0>>, <<"end">>>>, f2>>
    [] h = "lparam" -> <<<<I32(3), <<"loop", <<<<"i32">>, <<>>>>>>, <<"local.set", d>>>> \o c
                         \o dec \o <<<<"local.get", d>>, <<"br_if", 0>>, <<"drop">>, <<"end">>>>, f2>>
    [] h = "if"    -> <<Low(1) \o <<<<"if", S0>>>> \o c \o <<<<"else">>>> \o c \o Acc(5) \o <<<<"end">>>>, f2>>
    [] h = "block" -> <<<<<<"block", S0>>>> \o c \o Low(2) \o <<<<"br_if", 0>>>> \o Acc(6) \o <<<<"end">>>>, f2>>
    [] h = "bt"    -> <<<<<<"block", S0>>, <<"block", S0>>, <<"block", S0>>>> \o Low(3) \o <<<<"br_table", <<0, 1>>, 2>>, <<"end">>>> \o c
                        \o <<<<"br", 1>>, <<"end">>>> \o Acc(7) \o <<<<"end">>>>, f2>>
    [] h = "rec"   -> <<<<I32(5), <<"call", ix>>>>,
                        fn(<<<<"i32">>, <<>>>>, c \o <<<<"local.get", 0>>, <<"if", S0>>, <<"local.get", 0>>, I32(1), <<"i32.sub">>, <<"call", ix>>, <<"end">>>> \o Acc(8))>>
    [] h = "brout" -> <<<<<<"call", ix>>>> \o AccTop,
                        fn(<<<<>>, <<"i32">>>>, <<I32(77), <<"block", S0>>>> \o c \o <<I32(5), <<"br", 1>>, <<"end">>>>)>>
    [] h = "surplus" -> <<<<I32(1), <<"i64.const", <<2,0,0,0,0,0,0,0>>>>, <<"f32.const", <<0,0,128,63>>>>>> \o c
                          \o <<<<"drop">>, <<"i32.wrap_i64">>, <<"i32.sub">>>> \o AccTop, f2>>
    [] OTHER       -> <<c \o c, f2>>
(* ---- whole programs: N repetitions of the body --------------------------------*)
RepCode(n, c, l) == <<I32(n), <<"local.set", l>>, <<"loop", S0>>>> \o c
                    \o <<<<"local.get", l>>, I32(1), <<"i32.sub">>, <<"local.tee", l>>, <<"br_if", 0>>, <<"end">>>>
MkProg(s, top, n) ==
  LET ni == IF top = "nowasi" THEN 0 ELSE 2
      b == Build(s, Fixed, 1, ni)
      body == b[1]  fs == b[2]
      k  == Len(fs)
      show == IF ni = 0 THEN <<>> ELSE <<I32(4096), <<"global.get", 0>>, <<"i32.store", 0>>>> \o DumpRange(4096, 4)
      fin == show \o <<<<"global.get", 0>>>>
      res == <<<<>>, <<"i32">>>>
      worker == Fn(S0, L4, RepCode(n, body, 0))
      deepF == Fn(<<<<"i32">>, <<>>>>, L4,
                  body \o <<<<"local.get", 0>>, <<"if", S0>>, <<"local.get", 0>>, I32(1), <<"i32.sub">>, <<"call", ni + k>>, <<"end">>>> \o Acc(8))
      funcs ==
        CASE top = "callee" -> fs \o <<worker, Fn(res, <<>>, <<<<"call", ni + k>>>> \o fin)>>
          [] top = "start"  -> fs \o <<worker, Fn(res, <<>>, fin)>>
          [] top = "deep"   -> fs \o <<deepF, Fn(res, L4, RepCode(n, <<I32(24), <<"call", ni + k>>>>, 0) \o fin)>>
          [] top = "straight" -> fs \o <<Fn(res, L4, FoldLeft(LAMBDA acc, i : acc \o body, <<>>, [i \in 1..n |-> i]) \o fin)>>
          [] OTHER          -> fs \o <<Fn(res, L4, RepCode(n, body, 0) \o fin)>>
      nf == Len(funcs)
      slots == [i \in 1..k |-> ni + i - 1]
  IN [imps |-> IF ni = 0 THEN <<>> ELSE Imps, isigs |-> IF ni = 0 THEN <<>> ELSE ISigs,
      funcs |-> funcs, globals |-> <<[t |-> "i32", init |-> One(4)], [t |-> "f64", init |-> One(8)]>>,
      mem |-> <<1, 2>>, tables |-> <<[t |-> "funcref", min |-> 41, max |-> -1]>>,
      elems |-> <<[tab |-> 0, off |-> 0, fs |-> slots]>> \o (IF ni = 0 THEN <<>> ELSE <<[tab |-> 0, off |-> 40, fs |-> <<1>>]>>),
      datas |-> <<>>, start |-> IF top = "start" THEN ni + k ELSE -1, main |-> ni + nf - 1, args |-> <<>>]

RECURSIVE RunOn(_, _, _)
RunOn(P, m, k) == IF m.s # "run" \/ k = 0 THEN m ELSE RunOn(P, Run(P, m, 500), k - 1)
Whole(P) == RunOn(P, Boot(P), 1000)

Seqs(d) == IF d = 0 THEN {<<Leaves[i]>> : i \in DOMAIN Leaves}
           ELSE {<<Unary[i], Leaves[j]>> : i \in DOMAIN Unary, j \in DOMAIN Leaves}
(* drawn shapes: two to four constructors over a leaf *)
Drawn(k) == LET d == Draw24(Seeded(k, BASE))[1]
            IN [i \in 1..(2 + (d[1] % 3)) |-> Pick(Unary, d[i + 1])] \o <<Pick(Leaves, d[9])>>
DrawnTop(k) == Pick(SetToSeq(TOPS), Draw24(Seeded(k, BASE))[1][10])
Cost(s, t) == FoldLeft(LAMBDA acc, c : acc * (CASE c = "rec" -> 6 [] c \in {"loop", "lparam"} -> 3 [] c = "twice" -> 2 [] OTHER -> 1),
                       IF t = "deep" THEN 25 ELSE 1, s)
Init == /\ vm = NoVm
        /\ \/ \E d \in 0..DEPTH, t \in TOPS : \E s \in Seqs(d) :
                (IF d = 0 \/ t = "main" THEN TRUE ELSE (t = "nowasi" /\ s[d + 1] = "arith") \/ (t = "callee" /\ s[d + 1] = "mem")) /\ x = <<s, t, "todo", 0>>
           \/ \E k \in 1..SAMPLE : Cost(Drawn(k), DrawnTop(k)) <= 54 /\ x = <<Drawn(k), DrawnTop(k), "todo", 0>>
Foot(m) == <<m.pages, Cardinality(DOMAIN m.m), Len(m.tab[1]), Len(m.fr)>>
(* The behaviour for 16 repetitions is predicted in full; `per`, the instructions
   of one repetition, gives the length of longer runs of the same shape.  rep =
   <<index of the repeating function, length of a repetition's text, per>>          *)
Make == /\ x[3] = "todo"
        /\ \E a \in {Whole(MkProg(x[1], x[2], 8))} :
             LET P == MkProg(x[1], x[2], 16)
                 nf == Len(P.funcs)
             IN \E r \in {Whole(P)} :
                  /\ vm' = [s |-> r.s, a |-> Foot(a), b |-> Foot(r)]
                  /\ PrintT(ToJson(Report(ToString(<<x[2], x[1]>>), P, r) @@
                        [top |-> x[2], rep |-> IF x[2] \in {"callee", "start"} THEN nf - 2 ELSE nf - 1,
                         len |-> Len(MkProg(x[1], x[2], 9).funcs[nf].code) - Len(MkProg(x[1], x[2], 8).funcs[nf].code),
                         per |-> (r.n - a.n) \div 8]))
        /\ x' = [x EXCEPT ![3] = "done"]
Next == Make
Spec == Init /\ [][Next]_vars
(* no shape traps or is undecided, and the machine's own state does not grow *)
Steady == vm.s # "none" => vm.s = "done" /\ (\A i \in {1, 3, 4} : vm.a[i] = vm.b[i]) /\ vm.b[2] <= 400
=============================================================================
