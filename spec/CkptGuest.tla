----------------------------- MODULE CkptGuest -----------------------------
(***************************************************************************)
(* The guests run under the checkpoint protocol, with their behaviour as   *)
(* the machine of WasmSem defines it.  Guest 1 puts out one byte per turn  *)
(* of a busy loop, guest 2 imports nothing and only returns a value,       *)
(* guest 3 works on a memory that does not compress, guest 4 has a start   *)
(* function, calls and function references.  Every byte put out is         *)
(* different and above 127, so it tells the position.  Variants of a guest *)
(* differ from it in one place.                                            *)
(***************************************************************************)
EXTENDS Prog
VARIABLE shown

S0 == <<<<>>, <<>>>>
Turns == 40
(* busy work: k turns of an inner loop on local 1, mixing global 0 *)
Busy(k) == <<I32(k), <<"local.set", 1>>, <<"loop", S0>>, <<"global.get", 0>>, I32(31), <<"i32.mul">>, <<"local.get", 1>>, <<"i32.add">>, <<"global.set", 0>>,
             <<"local.get", 1>>, I32(1), <<"i32.sub">>, <<"local.tee", 1>>, <<"br_if", 0>>, <<"end">>>>
Show == <<I32(3000), <<"local.get", 0>>, I32(128), <<"i32.add">>, <<"i32.store8", 0>>>> \o DumpRange(3000, 1)
Store == <<I32(4096), <<"local.get", 0>>, I32(64), <<"i32.mul">>, <<"i32.add">>, <<"global.get", 0>>, <<"i32.store", 0>>>>
Loop(body) == <<I32(Turns), <<"local.set", 0>>, <<"loop", S0>>>> \o body
              \o <<<<"local.get", 0>>, I32(1), <<"i32.sub">>, <<"local.tee", 0>>, <<"br_if", 0>>, <<"end">>, <<"global.get", 0>>>>
Noise == [i \in 1..1600 |-> (((i * 7919) + (((i * i) % 4093) * 5431)) \div 16) % 256]
SimpleG(g) ==
  LET imp == g # 2
      body == CASE g = 1 -> Busy(20) \o Show [] g = 2 -> Busy(20) [] OTHER -> Busy(17) \o Store \o Show
  IN [imps |-> IF imp THEN Imps ELSE <<>>, isigs |-> IF imp THEN ISigs ELSE <<>>,
      funcs |-> <<Fn(<<<<>>, <<"i32">>>>, <<"i32", "i32">>, Loop(body))>>,
      globals |-> <<[t |-> "i32", init |-> One(4)]>>,
      mem |-> IF g = 2 THEN <<-1, -1>> ELSE <<1, 2>>, tables |-> <<>>, elems |-> <<>>,
      datas |-> IF g = 3 THEN <<[off |-> 8000, b |-> Noise]>> ELSE <<>>,
      start |-> -1, main |-> IF imp THEN 2 ELSE 0, args |-> <<>>]
(* the start function shows byte 250; each turn calls a function that works and shows, through the table *)
Calling ==
  [imps |-> Imps, isigs |-> ISigs,
   funcs |-> <<Fn(<<<<"i32">>, <<>>>>, <<"i32">>, Busy(18) \o Show),
               Fn(S0, <<>>, <<I32(3000), I32(250), <<"i32.store8", 0>>>> \o DumpRange(3000, 1)),
               Fn(<<<<>>, <<"i32">>>>, <<"i32", "i32", "funcref">>, <<I32(1), <<"table.get", 0>>, <<"local.set", 2>>>>
                  \o Loop(<<I32(2), <<"local.get", 2>>, <<"table.set", 0>>, <<"local.get", 0>>, I32(2), <<"call_indirect", <<<<"i32">>, <<>>>>, 0>>>>))>>,
   globals |-> <<[t |-> "i32", init |-> One(4)], [t |-> "f64", init |-> One(8)]>>,
   mem |-> <<1, 2>>, tables |-> <<[t |-> "funcref", min |-> 4, max |-> -1]>>, elems |-> <<[tab |-> 0, off |-> 1, fs |-> <<2>>]>>,
   datas |-> <<>>, start |-> 3, main |-> 4, args |-> <<>>]
Guest(g) == IF g = 4 THEN Calling ELSE SimpleG(g)
SubCode(P, f, i, x) == [P EXCEPT !.funcs[f].code[i] = x]
Variant(P, v) ==
  LET f == Len(P.funcs) IN
  CASE v = 1 -> SubCode(P, 1, 1, IF P.funcs[1].code[1][1] = "i32.const" THEN I32(Turns + 1) ELSE <<"nop">>)   \* an immediate
    [] v = 2 -> [P EXCEPT !.globals = Append(@, [t |-> "i32", init |-> Zero(4)])]
    [] v = 3 -> [P EXCEPT !.funcs = Append(@, Fn(S0, <<>>, <<>>))]
    [] v = 4 -> [P EXCEPT !.funcs[f].loc = Append(@, "i64")]
    [] v = 5 -> [P EXCEPT !.funcs[f].code = @ \o <<<<"i32.clz">>>>]
    [] v = 6 -> [P EXCEPT !.globals[1].init = <<2, 0, 0, 0>>]
    [] v = 7 -> [P EXCEPT !.tables = Append(@, [t |-> "funcref", min |-> 9, max |-> -1])]
    [] v = 8 -> [P EXCEPT !.mem = <<2, 3>>]
    [] v = 9 -> IF P.mem[1] < 0 THEN [P EXCEPT !.mem = <<3, 3>>] ELSE [P EXCEPT !.datas = Append(@, [off |-> 100, b |-> <<1>>])]
    [] OTHER -> [P EXCEPT !.funcs[f].code = <<<<"nop">>>> \o @]
NV == 10
RECURSIVE RunOn(_, _, _)
RunOn(P, m, k) == IF m.s # "run" \/ k = 0 THEN m ELSE RunOn(P, Run(P, m, 500), k - 1)
G1 == Report("guest1", Guest(1), RunOn(Guest(1), Boot(Guest(1)), 1000))
G2 == Report("guest2", Guest(2), RunOn(Guest(2), Boot(Guest(2)), 1000))
G3 == Report("guest3", Guest(3), RunOn(Guest(3), Boot(Guest(3)), 1000))
G4 == Report("guest4", Guest(4), RunOn(Guest(4), Boot(Guest(4)), 1000))
WithVariants(r) == r @@ [var |-> [v \in 1..NV |-> Variant(r.prog, v)]]
Init == shown = 0
Next == shown = 0 /\ shown' = 1 /\ \A i \in 1..4 : PrintT(ToJson(WithVariants(<<G1, G2, G3, G4>>[i])))
Ends == \A g \in {G1, G2, G3, G4} : g.s = "done"
=============================================================================
