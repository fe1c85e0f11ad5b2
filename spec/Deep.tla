-------------------------------- MODULE Deep --------------------------------
(***************************************************************************)
(* Recursion thousands of calls deep: one to three functions that call     *)
(* each other in a ring, each with drawn parameters, results, locals and   *)
(* operands left pending below the call, directly or through a table, from *)
(* inside blocks, and leaving by falling off, return or a branch.  What    *)
(* comes back is folded into two globals by non-commutative updates, level *)
(* by level, so any confusion of two frames' values shows.                 *)
(***************************************************************************)
EXTENDS Prog

CONSTANTS COUNT, LEVELS, BASE
VARIABLES k, vm

D(j) == Draw24(Seeded((k * 8) + j, BASE))[1]
Ts == <<"i32", "i64", "f64", "f32", "funcref", "i32", "i64">>
Types(d, lo, hi) == [i \in 1..(lo + (d[1] % (hi - lo + 1))) |-> Pick(Ts, d[i + 1])]
NF == 1 + (D(0)[1] % 3)
N == (LEVELS \div 2) + (D(0)[2] % (LEVELS \div 2))
Indirect(f) == D(0)[f + 4] % 3 = 0
Mask == Pick(<<255, 1023, 63>>, D(0)[3])
ParT(f) == <<"i32">> \o Types(D(f), 0, 7)             \* parameter 0 counts down
ResT(f) == Types(SubSeq(D(f), 9, 20), 0, 4)
LocT(f) == Types(D(10 + f), 0, 6)
PenT(f) == Types(SubSeq(D(10 + f), 9, 20), 0, 6)
How(f) == D(f)[22]
Nx(f) == (f % NF) + 1
AllT(f) == ParT(f) \o LocT(f) \o ResT(Nx(f))           \* the last ones hold what the call returns
LastOf(ts, t) == IF t \in Range(ts) THEN CHOOSE i \in DOMAIN ts : ts[i] = t /\ \A j \in DOMAIN ts : j > i => ts[j] # t ELSE 0
Get(i) == <<"local.get", i - 1>>
Set(i) == <<"local.set", i - 1>>
I64(n) == C("i64", FromInt(n, 8))
F64Half == C("f64", <<0, 0, 0, 0, 0, 0, 224, 63>>)
F32Half == C("f32", <<0, 0, 0, 63>>)
(* a value of type t made from the j-th source among ts (or from nothing) *)
Make(ts, t, j) ==
  LET p == SelectSeq([i \in DOMAIN ts |-> i], LAMBDA i : ts[i] = t)
      x == IF p = <<>> THEN 0 ELSE Pick(p, j)
  IN CASE t = "i32" -> IF x = 0 THEN <<I32(j + 5)>> ELSE IF j % 3 = 0 THEN <<Get(x)>> ELSE IF j % 3 = 1 THEN <<Get(x), I32(j + 3), <<"i32.sub">>>> ELSE <<I32(2 * j), Get(x), <<"i32.sub">>>>
       [] t = "i64" -> IF x = 0 THEN <<Get(1), <<"i64.extend_i32_s">>, I64(j + 1), <<"i64.shl">>>> ELSE <<Get(x), I64(j - 9), <<"i64.xor">>>>
       [] t = "f64" -> IF x = 0 THEN <<Get(1), <<"f64.convert_i32_u">>>> ELSE IF j % 2 = 0 THEN <<Get(x), F64Half, <<"f64.add">>>> ELSE <<F64Half, Get(x), <<"f64.sub">>>>
       [] t = "f32" -> IF x = 0 THEN <<Get(1), <<"f32.convert_i32_s">>>> ELSE IF j % 2 = 0 THEN <<Get(x), F32Half, <<"f32.sub">>>> ELSE <<Get(x)>>
       [] OTHER -> IF x = 0 \/ j % 3 = 0 THEN <<Get(1), I32(3), <<"i32.and">>, <<"table.get", 0>>>> ELSE <<Get(x)>>
(* fold the operand on top into the globals *)
Fold(t) ==
  LET a32 == <<<<"global.get", 0>>, I32(31), <<"i32.mul">>, <<"i32.add">>, <<"global.set", 0>>>>
      a64 == <<<<"global.get", 1>>, I64(29), <<"i64.mul">>, <<"i64.add">>, <<"global.set", 1>>>>
  IN CASE t = "i32" -> a32 [] t = "i64" -> a64 [] t = "f64" -> <<<<"i64.reinterpret_f64">>>> \o a64
       [] t = "f32" -> <<<<"i32.reinterpret_f32">>>> \o a32 [] OTHER -> <<<<"ref.is_null">>>> \o a32
Cat(f(_), n) == FoldLeft(LAMBDA acc, i : acc \o f(i), <<>>, [i \in 1..n |-> i])
Show == <<I32(4096), <<"global.get", 0>>, <<"i32.store", 0>>, I32(4096), <<"global.get", 1>>, <<"i64.store", 4>>>> \o DumpRange(4096, 12)
ShowAt == NImp                                         \* function index of Show
Ix(f) == NImp + f
CallF(f) == IF Indirect(f) THEN <<I32(4 + f), <<"call_indirect", <<ParT(f), ResT(f)>>, 0>>>> ELSE <<<<"call", Ix(f)>>>>
Blank(t) == IF t = "funcref" THEN <<"ref.null", "funcref">> ELSE C(t, Zero(Size[t]))
Body(f) ==
  LET g == Nx(f)  pt == ParT(f)  lt == LocT(f)  qt == PenT(f)  rg == ResT(g)  rf == ResT(f)
      all == AllT(f)  np == Len(pt)  nl == Len(lt)
      own == pt \o lt
      setup == Cat(LAMBDA i : Make(pt, lt[i], i + How(f)) \o <<Set(np + i)>>, nl)
      pend == Cat(LAMBDA i : Make(own, qt[i], (2 * i) + How(f)), Len(qt))
      seen == <<Get(1), I32(Mask), <<"i32.and">>, <<"i32.eqz">>, <<"if", <<<<>>, <<>>>>>>, <<"call", ShowAt>>, <<"end">>>>
      args == <<Get(1), I32(1), <<"i32.sub">>>> \o Cat(LAMBDA i : IF i = 1 THEN <<>> ELSE Make(own, ParT(g)[i], i + (How(f) \div 4)), Len(ParT(g)))
      down == <<Get(1), <<"if", <<<<>>, rg>>>>>> \o args \o CallF(g)
              \o (IF How(f) % 4 = 1 THEN <<<<"br", 0>>>> ELSE <<>>) \o <<<<"else">>>>
              \o Cat(LAMBDA i : Make(own, rg[i], i), Len(rg)) \o <<<<"end">>>>
      take == Cat(LAMBDA i : <<Set(np + nl + Len(rg) + 1 - i)>>, Len(rg))
      folds == Cat(LAMBDA i : Fold(qt[Len(qt) + 1 - i]), Len(qt)) \o Cat(LAMBDA i : <<Get(i)>> \o Fold(all[i]), Len(all))
      out == Cat(LAMBDA i : Make(all, rf[i], i + 1), Len(rf))
      core == setup \o seen \o pend \o down \o take \o folds \o out
  IN Fn(<<pt, rf>>, lt \o rg,
        CASE How(f) % 3 = 1 -> core \o <<<<"return">>>>
          [] How(f) % 3 = 2 -> <<<<"block", <<<<>>, rf>>>>>> \o core \o <<<<"br", 1>>, <<"end">>>>
          [] OTHER -> core)
Main == LET pt == ParT(1)  rf == ResT(1) IN
  Fn(<<<<>>, <<"i32">>>>, <<"i32">>,
     <<I32(N), <<"local.set", 0>>, I32(N)>> \o Cat(LAMBDA i : IF i = 1 THEN <<>> ELSE Make(<<"i32">>, pt[i], i), Len(pt)) \o CallF(1)
     \o Cat(LAMBDA i : Fold(rf[Len(rf) + 1 - i]), Len(rf)) \o <<<<"call", ShowAt>>, <<"global.get", 0>>>>)
Program ==
  [imps |-> Imps, isigs |-> ISigs,
   funcs |-> <<Fn(<<<<>>, <<>>>>, <<>>, Show)>> \o [f \in 1..NF |-> Body(f)] \o <<Main>>,
   globals |-> <<[t |-> "i32", init |-> One(4)], [t |-> "i64", init |-> One(8)]>>, mem |-> <<1, -1>>,
   tables |-> <<[t |-> "funcref", min |-> 12, max |-> -1]>>,
   elems |-> <<[tab |-> 0, off |-> 1, fs |-> <<ShowAt, ShowAt>>], [tab |-> 0, off |-> 5, fs |-> [f \in 1..NF |-> Ix(f)]]>>,
   datas |-> <<>>, start |-> -1, main |-> NImp + 1 + NF, args |-> <<>>, depth |-> 100000]
RECURSIVE RunOn(_, _, _)
RunOn(P, m, j) == IF m.s # "run" \/ j = 0 THEN m ELSE RunOn(P, Run(P, m, 4000), j - 1)
Init == k \in 1..COUNT /\ vm = "none"
Next == /\ vm = "none" /\ UNCHANGED k
        /\ LET P == Program IN \E r \in {RunOn(P, Boot(P), 800)} :
             /\ vm' = r.s
             /\ PrintT(ToJson(Report("deep", P, r) @@ [levels |-> N]))
Fine == vm \in {"none", "done"}
=============================================================================
