------------------------------ MODULE WasmGen -------------------------------
(***************************************************************************)
(* Programs, grown one instruction at a time by the validation rules of    *)
(* WebAssembly (an action is enabled exactly when the rule's premise holds *)
(* on the type stack and control stack), then executed by WasmSem.  Every  *)
(* finished behaviour prints the program and everything the guest may      *)
(* observe; the driver runs the program on the real runtime and compares.  *)
(*                                                                         *)
(* All nondeterminism of a step is the vector `r` drawn from the seed the  *)
(* behaviour starts with (module Draw).  A profile weights the rules       *)
(* towards one property.                                                   *)
(***************************************************************************)
EXTENDS Enc

CONSTANTS PROFILE,      \* which rules are favoured
          STEPS,        \* bound on executed instructions
          REPS,         \* how often the wrapper calls the program
          SEEDS,        \* number of initial seeds
          BASE,         \* selects another family of seeds
          ENC           \* how many other encodings of each program to print

VARIABLES ph,           \* "plan", "code", "run", "out", "end"
          pl,           \* the program under construction (all but bodies)
          g,            \* generator state of the current function
          vm,           \* the machine executing the finished program
          rnd           \* source of choices
vars == <<ph, pl, g, vm, rnd>>

SortedBy(S) == SetToSeq(S)

(* ---- constants ----------------------------------------------------------*)
I32C == <<<<0,0,0,0>>, <<1,0,0,0>>, <<255,255,255,255>>, <<0,0,0,128>>, <<255,255,255,127>>,
          <<2,0,0,0>>, <<5,0,0,0>>, <<31,0,0,0>>, <<33,0,0,0>>, <<128,0,0,0>>, <<0,1,0,0>>,
          <<200,155,7,244>>, <<120,86,52,18>>, <<254,255,255,255>>, <<7,0,0,0>>, <<64,0,0,0>>>>
I64C == <<Zero(8), One(8), Ones(8), MinS(8), WNot(MinS(8)), <<3,0,0,0,0,0,0,0>>,
          <<0,0,0,0,1,0,0,0>>, <<255,255,255,255,0,0,0,0>>, <<0,0,0,128,255,255,255,255>>,
          <<65,0,0,0,0,0,0,0>>, <<1,2,3,4,5,6,7,8>>, <<200,155,7,244,0,1,99,201>>,
          <<63,0,0,0,0,0,0,0>>, <<128,0,0,0,0,0,0,0>>>>
F32C == <<<<0,0,0,0>>, <<0,0,0,128>>, <<0,0,128,63>>, <<0,0,128,191>>, <<219,15,73,64>>,
          <<1,0,0,0>>, <<255,255,127,127>>, <<0,0,128,127>>, <<0,0,128,255>>, <<0,0,0,63>>,
          <<0,0,32,64>>, <<205,204,204,61>>, <<0,0,0,207>>, <<0,0,0,79>>, <<205,204,246,194>>,
          <<0,0,192,127>>, <<0,0,224,64>>>>
F64C == <<Zero(8), MinS(8), <<0,0,0,0,0,0,240,63>>, <<0,0,0,0,0,0,240,191>>,
          <<24,45,68,84,251,33,9,64>>, <<1,0,0,0,0,0,0,0>>, <<255,255,255,255,255,255,239,127>>,
          <<0,0,0,0,0,0,240,127>>, <<0,0,0,0,0,0,240,255>>, <<154,153,153,153,153,153,185,63>>,
          <<0,0,0,0,0,0,224,63>>, <<0,0,0,0,0,0,4,64>>, <<0,0,0,0,0,0,224,193>>,
          <<0,0,0,0,0,0,224,65>>, <<51,51,51,51,51,211,94,192>>, <<0,0,0,0,0,0,248,127>>,
          <<0,0,0,0,0,0,28,64>>>>
CV == [t \in NumTypes |-> CASE t = "i32" -> I32C [] t = "i64" -> I64C [] t = "f32" -> F32C [] OTHER -> F64C]
RandConst(t, x, y) ==                    \* mostly edge values, sometimes arbitrary bytes
  IF x % 4 # 0 \/ IsFloat(t) THEN Pick(CV[t], y)
  ELSE [i \in 1..Size[t] |-> (y \div (i * i)) % 256]

(* ---- profiles -----------------------------------------------------------*)
Base == Rep("push", 26) \o Rep("num", 34) \o Rep("lset", 12) \o Rep("ltee", 6) \o Rep("gset", 4)
        \o Rep("drop", 3) \o Rep("select", 4) \o Rep("nop", 1) \o Rep("emit", 7)
Ctl == Rep("block", 5) \o Rep("loop", 4) \o Rep("if", 6) \o Rep("close", 12) \o Rep("br", 3)
       \o Rep("br_if", 6) \o Rep("br_table", 4) \o Rep("back", 6) \o Rep("return", 2)
Calls == Rep("call", 10) \o Rep("calli", 6) \o Rep("host", 2)
Mem  == Rep("load", 12) \o Rep("store", 14)
Bulk == Rep("msize", 4) \o Rep("mgrow", 3) \o Rep("mfill", 5) \o Rep("mcopy", 6) \o Rep("minit", 4) \o Rep("ddrop", 1)
Refs == Rep("rnull", 6) \o Rep("tget", 10) \o Rep("tset", 8) \o Rep("tfill", 3) \o Rep("isnull", 10)
Weights ==
  CASE PROFILE = "ctl"   -> Base \o Ctl \o Ctl \o Ctl \o Rep("call", 3) \o Rep("load", 2) \o Rep("store", 2)
    [] PROFILE = "expr"  -> Base \o Base \o Rep("if", 4) \o Rep("close", 4) \o Rep("block", 2) \o Rep("loop", 1) \o Rep("call", 3)
                            \o Rep("load", 5) \o Rep("store", 5) \o Rep("ltee", 8) \o Rep("lset", 8) \o Rep("gset", 4) \o Rep("br_if", 2) \o Rep("back", 1)
    [] PROFILE = "call"  -> Base \o Ctl \o Calls \o Calls \o Calls \o Rep("return", 4) \o Rep("load", 5) \o Rep("store", 6) \o Rep("mgrow", 4)
    [] PROFILE = "calli" -> Base \o Ctl \o Rep("calli", 34) \o Rep("call", 4) \o Rep("tset", 5) \o Rep("tget", 5) \o Rep("tfill", 1)
    [] PROFILE = "mem"   -> Base \o Mem \o Mem \o Mem \o Rep("call", 2) \o Rep("if", 2) \o Rep("loop", 2) \o Rep("back", 2) \o Rep("close", 3)
    [] PROFILE = "bulk"  -> Base \o Bulk \o Bulk \o Bulk \o Mem \o Rep("call", 6) \o Rep("if", 2) \o Rep("loop", 2) \o Rep("back", 2) \o Rep("close", 3)
    [] PROFILE = "init"  -> Base \o Mem \o Rep("gset", 10) \o Rep("calli", 6) \o Rep("call", 4) \o Rep("tget", 4) \o Rep("isnull", 3) \o Rep("if", 3) \o Rep("close", 3) \o Rep("minit", 4)
    [] PROFILE = "trap"  -> Base \o Ctl \o Calls \o Mem \o Rep("emit", 10) \o Rep("unreachable", 3) \o Rep("tget", 2) \o Rep("tset", 2)
    [] PROFILE = "ref"   -> Base \o Ctl \o Refs \o Refs \o Calls \o Rep("select", 6)
    [] OTHER             -> Base \o Ctl \o Calls \o Mem \o Bulk \o Refs      \* "all"
WithRefs == PROFILE \in {"ref", "calli", "all", "trap", "call"}
WithTraps == PROFILE \in {"trap"}
(* a trap ends the program, so profiles about something else meet few of them  *)
Rare(x, n) == WithTraps \/ (PROFILE \in {"calli", "ref"} /\ x % n = 0)
WeightsC == Weights         \* evaluated once

VTypes == <<"i32", "i64", "f32", "f64", "i32", "i64">>
VType(x) == IF WithRefs /\ x % 9 = 0 THEN (IF x % 4 = 3 THEN "externref" ELSE "funcref") ELSE Pick(VTypes, x \div 9)
NType(x) == Pick(VTypes, x)

(* ---- plan: signatures, globals, memory, tables, segments -----------------*)
NHelp == 4                     \* emit_i32, emit_i64, emit_f32, emit_f64
EmitF(t) == NImp + (CASE t = "i32" -> 0 [] t = "i64" -> 1 [] t = "f32" -> 2 [] OTHER -> 3)
Helper(t) ==
  Fn(<<<<t>>, <<>>>>, <<>>,
     <<I32(2072), <<"local.get", 0>>, <<CASE t = "i32" -> "i32.store" [] t = "i64" -> "i64.store"
                                          [] t = "f32" -> "f32.store" [] OTHER -> "f64.store", 0>>,
       I32(2064), I32(2072), <<"i32.store", 0>>, I32(2064), I32(Size[t]), <<"i32.store", 4>>,
       I32(1), I32(2064), I32(1), I32(2080), <<"call", 0>>, <<"drop">>>>)
Helpers == <<Helper("i32"), Helper("i64"), Helper("f32"), Helper("f64")>>
FirstGen == NImp + NHelp

Types(x, n) == [i \in 1..n |-> VType(x \div (7 * i + i * i))]
(* mostly a few parameters and results, sometimes many                          *)
Wide == PROFILE \in {"call", "calli", "ctl", "all", "ref"}
Count(x) == IF Wide /\ (x \div 15) % 11 = 4 THEN x % 12 ELSE (x \div 3) % 5
SigOf(x, y) == <<Types(x, Count(x)), Types(y, Count(y))>>
(* a block may yield many values as well                                        *)
Yields(x, y) == Types(x, IF Wide /\ (y \div 4) % 23 = 5 THEN y % 12 ELSE y % 4)

(* signatures that differ from another one in few places                        *)
NearT(ts, x) == IF Len(ts) = 0 THEN (IF x % 3 = 0 THEN <<"i32">> ELSE ts)
                ELSE CASE x % 6 = 0 -> SubSeq(ts, 1, Len(ts) - 1)
                       [] x % 6 = 1 /\ Len(ts) < 4 -> Append(ts, NType(x \div 6))
                       [] OTHER -> [ts EXCEPT ![(x % Len(ts)) + 1] = NType(x \div 5)]
Near(s, x, y) == CASE x % 3 = 0 -> <<NearT(s[1], y), s[2]>> [] OTHER -> <<s[1], NearT(s[2], y)>>
GlobalTypes(x) == <<"i32">> \o [i \in 1..((x % 4) + 1) |-> NType(x \div (3 * i + 2))]

PlanOf(r) ==
  LET nf   == 1 + (r[1] % 4)
      tsz  == 1 + (r[2] % 6)
      far  == [i \in 1..nf |-> SigOf(r[i + 2], r[i + 6])]
      sigs == IF PROFILE \in {"calli", "trap"}
              THEN [i \in 1..nf |-> IF i > 1 /\ r[i + 2] % 3 # 0 THEN Near(far[1], r[i + 6], r[i + 10]) ELSE far[i]] ELSE far
      gts  == GlobalTypes(r[11])
      pages == 1 + (r[12] % 2)
      seg(k, x) == [off |-> (x % 200), b |-> [i \in 1..((x \div 200) % 12) |-> (x \div i) % 256]]
      \* segments that overlap, in any order of addresses
      ovl(x)  == [off |-> (x % 24), b |-> [i \in 1..(1 + ((x \div 24) % 18)) |-> (x \div (i + 1)) % 256]]
      past(x) == [off |-> pages * PageSize - (x % 4) + 2, b |-> [i \in 1..((x % 3) + 2) |-> i]]
      pas(x)  == [off |-> -1, b |-> [i \in 1..(4 + (x % 20)) |-> (x \div (i + 1)) % 256]]
      allf == NImp + NHelp + nf          \* wrapper is the last function
      es(x) == LET o == x % tsz IN [tab |-> 0, off |-> o, fs |->
                  [i \in 1..(1 + ((x \div 8) % (tsz - o))) |-> FirstGen + ((x \div (8 * i + 3)) % nf)]]
      \* a second table, of functions or of external references
      two == PROFILE \in {"calli", "ref", "init", "all", "trap", "call"} /\ (r[2] \div 6) % 2 = 1
      t2  == IF (r[2] \div 12) % 3 = 0 THEN "externref" ELSE "funcref"
      tsz2 == 1 + ((r[2] \div 36) % 5)
      es2(x) == LET o == x % tsz2 IN [tab |-> 1, off |-> o, fs |->
                  [i \in 1..(1 + ((x \div 8) % (tsz2 - o))) |-> IF t2 = "externref" THEN -1 ELSE FirstGen + ((x \div (8 * i + 3)) % nf)]]
      \* null entries among the functions
      esN(x) == IF x % 7 = 3 THEN [es(x) EXCEPT !.fs[1] = -1] ELSE es(x)
      firstEs == IF r[16] % 8 = 0 THEN <<>> ELSE IF r[16] % 3 = 0 THEN <<es(r[17]), esN(r[18])>> ELSE <<esN(r[17])>>
      both(l) == IF two /\ r[18] % 4 # 0 THEN (IF r[18] % 2 = 0 THEN <<es2(r[19])>> \o l ELSE Append(l, es2(r[19]))) ELSE l
      startOk == PROFILE \in {"init", "all"} /\ r[13] % 3 = 0
  IN [nf |-> nf, sigs |-> IF startOk THEN Append(sigs, <<<<>>, <<>>>>) ELSE sigs,
      globals |-> [i \in DOMAIN gts |->
          [t |-> gts[i], init |-> IF i = 1 THEN FromNat(6 + (r[14] % 7), 4) ELSE RandConst(gts[i], r[(i % 8) + 1], r[(i % 7) + 2])]],
      mem |-> <<pages, IF r[15] % 3 = 0 THEN -1 ELSE pages + ((r[15] \div 3) % 4)>>,
      tables |-> <<[t |-> "funcref", min |-> tsz, max |-> IF r[16] % 2 = 0 THEN -1 ELSE tsz + 1]>>
                  \o (IF two THEN <<[t |-> t2, min |-> tsz2, max |-> -1]>> ELSE <<>>),
      elems |-> IF PROFILE = "init" /\ r[16] % 5 = 1 THEN both(<<es(r[17]), es(r[18]), esN(r[20])>>)
                ELSE IF PROFILE = "init" /\ r[23] % 24 = 7 THEN <<es(r[17]), [tab |-> 0, off |-> tsz + (r[18] % 3) - 1, fs |-> IF r[18] % 4 < 2 THEN <<>> ELSE <<FirstGen, FirstGen>>]>>
                ELSE both(firstEs),
      datas |-> IF PROFILE \in {"ctl", "expr"} THEN <<seg(0, r[19])>>
                ELSE IF PROFILE = "init" /\ r[22] % 24 = 5 THEN <<ovl(r[19]), past(r[20])>>
                ELSE IF PROFILE = "init" /\ r[22] % 2 = 0 THEN [i \in 1..(2 + (r[24] % 4)) |-> ovl(r[i + 14] + r[i + 18])]
                ELSE <<seg(0, r[19]), pas(r[20]), seg(1, r[21]), pas(r[22])>>,
      start |-> IF startOk THEN FirstGen + nf ELSE -1,
      steps |-> STEPS, bud |-> 12 + (r[23] % (IF r[24] % 3 = 0 THEN 70 ELSE 30)),
      funcs |-> <<>>]

FuncSig(fi) == pl.sigs[fi - FirstGen + 1]
AllSig(fi) == IF fi < NImp THEN ISigs[fi + 1]
              ELSE IF fi < FirstGen THEN <<<<Pick(<<"i32", "i64", "f32", "f64">>, fi - NImp)>>, <<>>>>
              ELSE FuncSig(fi)

(* ---- generator state of one function --------------------------------------*)
(* locals: params, 1..4 user locals, address local, 3 loop counters           *)
NewFrame(k, bt, h, c) == [k |-> k, bt |-> bt, h |-> h, dead |-> FALSE, c |-> c]
StartFn(sig, r, fuel) ==
  LET user == [i \in 1..(1 + (r[1] % 4)) |-> VType(r[2] \div (i * 5 + 1))]
      np   == Len(sig[1])
      loc  == user \o <<"i32", "i32", "i32", "i32">>
      rs   == sig[2]
      pro  == IF ~fuel THEN <<>>
              ELSE <<<<"global.get", 0>>, <<"i32.eqz">>, <<"if", <<<<>>, <<>>>>>>>>
                   \o [i \in DOMAIN rs |-> IF rs[i] \in RefTypes THEN <<"ref.null", rs[i]>>
                                           ELSE C(rs[i], RandConst(rs[i], 1, r[3] \div (i + 1)))]
                   \o <<<<"return">>, <<"end">>,
                        <<"global.get", 0>>, I32(1), <<"i32.sub">>, <<"global.set", 0>>>>
  IN [sig |-> sig, loc |-> loc, lt |-> sig[1] \o loc, nl |-> np + Len(user), adr |-> np + Len(user),
      cnt |-> np + Len(user) + 1, code |-> pro, ts |-> <<>>,
      cs |-> <<NewFrame("func", <<<<>>, rs>>, 0, -1)>>, bud |-> pl.bud]

Cur(q) == q.cs[Len(q.cs)]
Dead(q) == Cur(q).dead
Av(q) == SubSeq(q.ts, Cur(q).h + 1, Len(q.ts))
Suffix(s, t) == Len(s) >= Len(t) /\ SubSeq(s, Len(s) - Len(t) + 1, Len(s)) = t
(* premise "the operands are tys": in dead code the stack is polymorphic      *)
CanPop(q, tys) ==
  LET a == Av(q) k == IF Len(a) < Len(tys) THEN Len(a) ELSE Len(tys)
  IN (k = Len(tys) \/ Dead(q)) /\ SubSeq(a, Len(a) - k + 1, Len(a)) = SubSeq(tys, Len(tys) - k + 1, Len(tys))
AfterPop(q, n) == LET k == IF Len(Av(q)) < n THEN Len(Av(q)) ELSE n IN SubSeq(q.ts, 1, Len(q.ts) - k)
Emit(q, is, n, push) == [q EXCEPT !.code = @ \o is, !.ts = AfterPop(q, n) \o push]
Kill(q) == [q EXCEPT !.ts = SubSeq(@, 1, Cur(q).h), !.cs[Len(q.cs)].dead = TRUE]
TopT(q) == LET a == Av(q) IN IF Len(a) = 0 THEN "none" ELSE a[Len(a)]

(* a source for one value of type t: constant, local, global, null, table slot *)
LocalsOf(q, t) == SelectSeq([i \in 1..q.nl |-> i - 1], LAMBDA i : q.lt[i + 1] = t)
GlobalsOf(t) == SelectSeq([i \in 1..(Len(pl.globals) - 1) |-> i], LAMBDA i : pl.globals[i + 1].t = t)
Src(q, t, x, y) ==
  LET ls == LocalsOf(q, t)
  IN IF t \in RefTypes
     THEN IF Len(ls) > 0 /\ x % 3 = 0 THEN <<<<"local.get", Pick(ls, y)>>>>
          ELSE IF t = "funcref" /\ x % 3 = 1 THEN <<I32(y % pl.tables[1].min), <<"table.get", 0>>>>
          ELSE IF x % 3 = 2 /\ Len(pl.tables) = 2 /\ t = pl.tables[2].t THEN <<I32(y % pl.tables[2].min), <<"table.get", 1>>>>
          ELSE <<<<"ref.null", t>>>>
     ELSE LET gs == GlobalsOf(t)
          IN IF Len(ls) > 0 /\ x % 8 < 4 THEN <<<<"local.get", Pick(ls, y)>>>>
             ELSE IF Len(gs) > 0 /\ x % 8 = 4 THEN <<<<"global.get", Pick(gs, y)>>>>
             ELSE <<C(t, RandConst(t, x, y))>>
(* a truth value that is likely to differ from one execution to the next *)
LoopLabels0(q) == SelectSeq([i \in 1..Len(q.cs) |-> i - 1], LAMBDA l : q.cs[Len(q.cs) - l].k = "loop")
Varying(q, x, y) ==
  LET ll == LoopLabels0(q)
      ls == LocalsOf(q, "i32")
  IN CASE x % 6 \in {0, 1} /\ Len(ll) > 0 ->
            <<<<"local.get", q.cs[Len(q.cs) - Pick(ll, y)].c>>>>
            \o (IF x % 5 = 0 THEN <<I32(1 + (y % 3)), <<Pick(<<"i32.eq", "i32.lt_u", "i32.and", "i32.ne">>, y \div 3)>>>> ELSE <<>>)
       [] x % 6 \in {0, 1, 2} -> <<<<"global.get", 0>>, I32(1 + (y % 7)), <<Pick(<<"i32.and", "i32.lt_u", "i32.gt_s", "i32.eq">>, y \div 7)>>>>
       [] x % 6 \in {3, 4} /\ Len(ls) > 0 ->
            <<<<"local.get", Pick(ls, y)>>>> \o (IF x % 4 = 0 THEN <<>> ELSE <<I32(1), <<"i32.and">>>>)
       [] OTHER -> Src(q, "i32", x \div 6, y)
SrcAll(q, tys, x, y) ==
  FoldLeft(LAMBDA acc, i : acc \o Src(q, tys[i], x \div (2 * i + 1), y \div (i + 2)), <<>>, [i \in DOMAIN tys |-> i])
(* make the operands tys available: reuse the stack when it fits, else push    *)
Need(q, tys, x, y) == IF CanPop(q, tys) /\ x % 8 # 0 THEN q ELSE Emit(q, SrcAll(q, tys, x, y), 0, tys)
NeedCond(q, lt, x, y) ==
  IF CanPop(q, Append(lt, "i32")) /\ x % 4 # 0 THEN q
  ELSE LET q1 == Need(q, lt, x \div 4, y) IN Emit(q1, Varying(q1, x \div 8, y \div 2), 0, <<"i32">>)

(* leave exactly tys above the frame height                                    *)
CommonPrefix(a, b) ==
  LET n == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
      S == {k \in 0..n : \A i \in 1..k : a[i] = b[i]}
  IN CHOOSE k \in S : \A j \in S : j <= k
Away(q, tys, x) ==                    \* get rid of these operands, last first: keep them in locals or drop them
  FoldLeft(LAMBDA acc, i :
     LET t == tys[Len(tys) + 1 - i]  ls == LocalsOf(q, t)
     IN Append(acc, IF Len(ls) > 0 /\ (x \div i) % 4 # 0 THEN <<"local.set", Pick(ls, x \div (i + 3))>> ELSE <<"drop">>),
     <<>>, [i \in DOMAIN tys |-> i])
Fix(q, tys, x, y) ==
  LET a == Av(q)  k == CommonPrefix(a, tys)
  IN Emit(q, Away(q, SubSeq(a, k + 1, Len(a)), y) \o SrcAll(q, SubSeq(tys, k + 1, Len(tys)), x, y),
          Len(a) - k, SubSeq(tys, k + 1, Len(tys)))

LabelT(q, l) == LET f == q.cs[Len(q.cs) - l] IN IF f.k = "loop" THEN f.bt[1] ELSE f.bt[2]
Labels(q) == [i \in 1..Len(q.cs) |-> i - 1]
FwdLabels(q) == SelectSeq(Labels(q), LAMBDA l : q.cs[Len(q.cs) - l].k # "loop")
LoopLabels(q) == SelectSeq(Labels(q), LAMBDA l : q.cs[Len(q.cs) - l].k = "loop")
LoopDepth(q) == Len(LoopLabels(q))
(* unconditional transfers out of straight-line code would cut programs short:
   they may leave the function only from a conditional arm                      *)
InArm(q) == \E i \in DOMAIN q.cs : q.cs[i].k \in {"if", "else"}
OutLabels(q, x) == LET f == FwdLabels(q)
                   IN IF InArm(q) \/ x % 16 = 0 THEN f
                      ELSE SelectSeq(f, LAMBDA l : l < Len(q.cs) - 1)

(* ---- one rule ---------------------------------------------------------------*)
UnOf   == [t \in NumTypes |-> SortedBy(UnOps[t] \cup CvtOps[t] \cup (IF t = "i32" THEN {"i32.eqz"} ELSE IF t = "i64" THEN {"i64.eqz"} ELSE {}))]
BinOf  == [t \in NumTypes |-> SortedBy(BinOps[t]) \o SortedBy(RelOps[t])]
LoadOps == SortedBy(Loads)
StoreOf == [t \in NumTypes |-> SortedBy({o \in Stores : MemT[o] = t})]
DivLike == {"i32.div_s", "i32.div_u", "i32.rem_s", "i32.rem_u", "i64.div_s", "i64.div_u", "i64.rem_s", "i64.rem_u"}
NumRule(q, r) ==
  LET t == TopT(q)
  IN IF t \in RefTypes THEN Emit(q, <<<<"ref.is_null">>>>, 1, <<"i32">>)
     ELSE LET t1 == IF t = "none" THEN NType(r[2]) ELSE t
              a  == Av(q)
              two == Len(a) >= 2 /\ a[Len(a) - 1] = t1
              q1 == IF t # "none" \/ Dead(q) THEN q ELSE Emit(q, Src(q, t1, r[3], r[4]), 0, <<t1>>)
          IN IF two \/ r[5] % 3 # 0
             THEN LET q2 == IF two \/ (Dead(q) /\ Len(a) < 2 /\ CanPop(q, <<t1, t1>>)) THEN q1
                            ELSE Emit(q1, Src(q1, t1, r[6], r[7]), 0, <<t1>>)
                      o  == Pick(BinOf[t1], r[8])
                      g1 == IF o \in DivLike /\ (~WithTraps \/ r[9] % 3 # 0) THEN <<C(t1, One(Size[t1])), <<t1 \o ".or">>>> ELSE <<>>
                  IN Emit(q2, g1 \o <<<<o>>>>, 2, <<Sig[o][2]>>)
             ELSE LET o0 == Pick(UnOf[t1], r[8])
                      o  == IF o0 \in TruncOps /\ ~(WithTraps /\ r[9] % 3 = 0) THEN Pick(<<"f32.neg">>, 0) ELSE o0
                      o1 == IF o0 \in TruncOps /\ ~(WithTraps /\ r[9] % 3 = 0) THEN t1 \o ".neg" ELSE o0
                  IN Emit(q1, <<<<o1>>>>, 1, <<Sig[o1][2]>>)

(* an i32 address below 2^9 on the stack, as constant, local or computed        *)
Addr(q, r) ==
  LET x == r[2] % 5
      edge == pl.mem[1] * PageSize - 8 - (r[3] % 4)
  IN IF x = 0 THEN Emit(q, <<I32(r[3] % 250)>>, 0, <<"i32">>)
     ELSE IF x = 1 THEN Emit(q, <<I32(edge)>>, 0, <<"i32">>)
     ELSE IF x = 2 THEN Emit(q, <<<<"local.get", q.adr>>>>, 0, <<"i32">>)
     ELSE LET q1 == IF TopT(q) = "i32" THEN q ELSE Emit(q, Src(q, "i32", r[4], r[5]), 0, <<"i32">>)
              q2 == Emit(q1, <<I32(Pick(<<255, 248, 127, 63>>, r[6])), <<"i32.and">>>>, 1, <<"i32">>)
          IN IF x = 3 THEN q2
             ELSE Emit(q2, <<<<"local.tee", q.adr>>>>, 1, <<"i32">>)
Off(q, r) == LET last == q.code[Len(q.code)]
             IN IF last[1] = "i32.const" /\ ToNat(last[2]) > 1000 THEN 0 ELSE Pick(<<0, 0, 1, 4, 8, 17>>, r[7])
Align(o, x) == LET w == Width[o] IN CASE w = 1 -> 0 [] w = 2 -> x % 2 [] w = 4 -> x % 3 [] OTHER -> x % 4

CtlRule(q, c, r) ==
  CASE c \in {"block", "loop"} /\ Len(q.cs) < 6 /\ (c = "block" \/ LoopDepth(q) < 3) ->
         LET a  == Av(q)
             np == IF r[2] % 2 = 0 THEN 0 ELSE IF Len(a) < r[2] % 4 THEN Len(a) ELSE r[2] % 4
             bt == <<TopN(a, np), Yields(r[3], r[4])>>
             ci == IF c = "loop" THEN q.cnt + LoopDepth(q) ELSE -1
             q1 == IF c = "loop" THEN Emit(q, <<I32(1 + (r[5] % 3)), <<"local.set", ci>>>>, 0, <<>>) ELSE q
         IN [q1 EXCEPT !.code = Append(@, <<c, bt>>), !.cs = Append(@, NewFrame(c, bt, Len(q.ts) - np, ci))]
    [] c = "if" /\ Len(q.cs) < 6 ->
         LET q0 == NeedCond(q, <<>>, r[5], r[6])
             a  == SubSeq(Av(q0), 1, Len(Av(q0)) - 1)
             ok == Len(Av(q0)) > 0
             np == IF ~ok \/ r[2] % 2 = 0 THEN 0 ELSE IF Len(a) < r[2] % 4 THEN Len(a) ELSE r[2] % 4
             ps == IF np = 0 THEN <<>> ELSE TopN(a, np)
             bt == <<ps, IF r[4] % 4 = 0 THEN ps ELSE Yields(r[3], r[4])>>
             q1 == Emit(q0, <<<<"if", bt>>>>, 1, <<>>)
         IN [q1 EXCEPT !.cs = Append(@, NewFrame("if", bt, Len(q1.ts) - np, -1))]
    [] c = "close" /\ Len(q.cs) > 1 ->
         LET f  == Cur(q)
             q1 == IF f.dead /\ r[2] % 2 = 0
                   THEN Emit(q, Rep(<<"drop">>, Len(Av(q))), Len(Av(q)), <<>>)
                   ELSE Fix(q, f.bt[2], r[3], r[4])
         IN IF f.k = "if" /\ (f.bt[1] # f.bt[2] \/ r[5] % 2 = 0)
            THEN [q1 EXCEPT !.code = Append(@, <<"else">>), !.ts = SubSeq(@, 1, f.h) \o f.bt[1],
                            !.cs[Len(q.cs)] = [f EXCEPT !.k = "else", !.dead = FALSE]]
            ELSE [q1 EXCEPT !.code = Append(@, <<"end">>), !.ts = SubSeq(@, 1, f.h) \o f.bt[2],
                            !.cs = Pop(@, 1)]
    [] c = "br" /\ Len(OutLabels(q, r[7])) > 0 ->
         LET l == Pick(OutLabels(q, r[7]), r[2])
             q1 == Need(q, LabelT(q, l), r[3], r[4])
         IN Kill(Emit(q1, <<<<"br", l>>>>, 0, <<>>))
    [] c = "return" /\ (InArm(q) \/ r[7] % 12 = 0) ->
         LET q1 == Need(q, q.sig[2], r[3], r[4]) IN Kill(Emit(q1, <<<<"return">>>>, 0, <<>>))
    [] c = "br_if" ->
         LET l == Pick(FwdLabels(q), r[2])
             lt == LabelT(q, l)
             q1 == NeedCond(q, lt, r[3], r[4])
         IN [Emit(q1, <<<<"br_if", l>>>>, Len(lt) + 1, lt) EXCEPT !.ts = @]
    [] c = "br_table" /\ Len(OutLabels(q, r[11])) > 0 ->
         LET d  == Pick(OutLabels(q, r[11]), r[2])
             lt == LabelT(q, d)
             cs == SelectSeq(OutLabels(q, r[11]), LAMBDA l : LabelT(q, l) = lt)
             ts == [i \in 1..(r[3] % 4) |-> Pick(cs, r[4] \div (i + 1))]
             q1 == Need(q, lt, r[5], r[6])
             q2 == IF CanPop(q1, Append(lt, "i32")) /\ r[7] % 2 = 0 THEN q1
                   ELSE Emit(q1, IF r[7] % 3 = 0 THEN <<I32(r[8] % 5)>> ELSE Varying(q1, r[8], r[9]), 0, <<"i32">>)
             \* keep the selector small often enough
             q3 == IF r[10] % 2 = 0 THEN Emit(q2, <<I32(3), <<"i32.and">>>>, 1, <<"i32">>) ELSE q2
         IN Kill(Emit(q3, <<<<"br_table", ts, d>>>>, 0, <<>>))
    [] c = "back" /\ LoopDepth(q) > 0 /\ ~Dead(q) ->
         LET l  == Pick(LoopLabels(q), r[2])
             f  == q.cs[Len(q.cs) - l]
             lt == LabelT(q, l)
             q1 == Need(q, lt, r[3], r[4])
             dec == <<<<"local.get", f.c>>, I32(1), <<"i32.sub">>, <<"local.tee", f.c>>>>
             ex == SelectSeq(FwdLabels(q), LAMBDA e : LabelT(q, e) = lt)
         IN IF Len(ex) > 0 /\ r[5] % 3 = 0
            THEN Kill(Emit(q1, dec \o <<<<"i32.eqz">>, <<"br_table", <<l>>, Pick(ex, r[6])>>>>, 0, <<>>))
            ELSE IF Len(lt) = 0 /\ r[5] % 3 = 1
            THEN Emit(q1, dec \o <<<<"if", <<<<>>, <<>>>>>>, <<"br", l + 1>>, <<"end">>>>, 0, <<>>)
            ELSE Emit(q1, dec \o <<<<"br_if", l>>>>, 0, <<>>)
    [] OTHER -> q

PasIdx == SelectSeq([i \in DOMAIN pl.datas |-> i - 1], LAMBDA k : pl.datas[k + 1].off < 0)
(* around and far beyond the end of the table                                   *)
TabOf(x) == IF Len(pl.tables) = 2 /\ (x \div 5) % 3 = 0 THEN 1 ELSE 0
FarIdx(x, k) == LET n == pl.tables[k + 1].min
             IN CASE x % 8 = 0 -> I32(-1) [] x % 8 = 1 -> C("i32", MinS(4)) [] x % 8 = 2 -> I32(2) [] x % 8 = 3 -> I32(0)
                  [] x % 8 = 4 -> I32(0 - n) [] OTHER -> I32((n - 1) + (x % 3))
TabIdx(r, k) == IF Rare(r[5], 40) THEN FarIdx(r[6], k) ELSE I32(r[2] % pl.tables[k + 1].min)
OtherRule(q, c, r) ==
  CASE c = "push" -> LET t == VType(r[2]) IN Emit(q, Src(q, t, r[3], r[4]), 0, <<t>>)
    [] c = "num" -> NumRule(q, r)
    [] c \in {"lset", "ltee"} ->
         LET t == IF TopT(q) = "none" THEN NType(r[2]) ELSE TopT(q)
             ls == LocalsOf(q, t)
             q1 == Need(q, <<t>>, 1, r[4])
         IN IF Len(ls) = 0 THEN q
            ELSE IF c = "lset" THEN Emit(q1, <<<<"local.set", Pick(ls, r[3])>>>>, 1, <<>>)
            ELSE Emit(q1, <<<<"local.tee", Pick(ls, r[3])>>>>, 1, <<t>>)
    [] c = "gset" ->
         LET t == IF TopT(q) = "none" THEN NType(r[2]) ELSE TopT(q)
             gs == GlobalsOf(t)
         IN IF Len(gs) = 0 THEN q
            ELSE Emit(Need(q, <<t>>, 1, r[4]), <<<<"global.set", Pick(gs, r[3])>>>>, 1, <<>>)
    [] c = "drop" -> IF Len(Av(q)) = 0 /\ ~Dead(q) THEN q ELSE Emit(q, <<<<"drop">>>>, 1, <<>>)
    [] c = "select" ->
         LET a == Av(q)  n == Len(a)
             t == IF n >= 3 /\ a[n] = "i32" /\ a[n - 1] = a[n - 2] THEN a[n - 1]
                  ELSE VType(r[2])
             q1 == IF n >= 3 /\ a[n] = "i32" /\ a[n - 1] = a[n - 2] THEN q ELSE Need(q, <<t, t, "i32">>, r[3], r[4])
         IN Emit(q1, <<IF t \in RefTypes THEN <<"select_t", t>>
                       ELSE IF r[5] % 5 = 0 THEN <<"select_t", t>> ELSE <<"select">>>>, 3, <<t>>)
    [] c = "emit" ->
         LET t == IF TopT(q) \in NumTypes THEN TopT(q) ELSE NType(r[2])
         IN Emit(Need(q, <<t>>, 1, r[3]), <<<<"call", EmitF(t)>>>>, 1, <<>>)
    [] c = "host" -> Emit(q, <<<<"call", 1>>>>, 0, <<"i32">>)
    [] c = "call" ->
         LET fi == FirstGen + (r[2] % pl.nf)  s == FuncSig(fi)
         IN Emit(Need(q, s[1], r[3], r[4]), <<<<"call", fi>>>>, Len(s[1]), s[2])
    [] c = "calli" ->
         LET k == IF TabOf(r[13]) = 1 /\ pl.tables[2].t = "funcref" THEN 1 ELSE 0
             slot == r[2] % (pl.tables[k + 1].min + (IF Rare(r[10], 40) THEN 2 ELSE 0))
             hits == SelectSeq(pl.elems, LAMBDA e : e.tab = k /\ slot >= e.off /\ slot < e.off + Len(e.fs))
             got  == IF Len(hits) = 0 THEN -1 ELSE hits[Len(hits)].fs[slot - hits[Len(hits)].off + 1]
             fi   == IF got < 0 THEN FirstGen + (r[5] % pl.nf) ELSE got
             s    == IF r[6] % 6 = 0 /\ Rare(r[11], 5) THEN FuncSig(FirstGen + (r[7] % pl.nf)) ELSE FuncSig(fi)
             q1   == Need(q, s[1], r[3], r[4])
             how  == r[8] % 3
             ls   == LocalsOf(q, "i32")
             \* constant slot, slot through a local, or computed
             q2   == IF how = 1 /\ Len(ls) > 0
                     THEN Emit(q1, <<I32(slot), <<"local.set", Pick(ls, r[9])>>, <<"local.get", Pick(ls, r[9])>>>>, 0, <<"i32">>)
                     ELSE IF how = 2 THEN Emit(q1, <<I32(slot + 3), I32(3), <<"i32.sub">>>>, 0, <<"i32">>)
                     ELSE Emit(q1, <<I32(slot)>>, 0, <<"i32">>)
         IN IF got < 0 /\ ~Rare(r[12], 30) THEN q
            ELSE Emit(q2, <<<<"call_indirect", s, k>>>>, Len(s[1]) + 1, s[2])
    [] c = "load" ->
         LET o == Pick(LoadOps, r[8])  q1 == Addr(q, r)
         IN Emit(q1, <<<<o, Off(q1, r), Align(o, r[9])>>>>, 1, <<MemT[o]>>)
    [] c = "store" ->
         LET t  == NType(r[8])
             o  == Pick(StoreOf[t], r[9])
             q1 == Addr(q, r)
             of == Off(q1, r)
             q2 == Emit(q1, Src(q1, t, r[10], r[11]), 0, <<t>>)
             \* sometimes the value is computed
             q3 == IF r[12] % 3 = 0 /\ ~Dead(q)
                   THEN Emit(q2, Src(q2, t, r[11], r[10]) \o <<<<t \o ".add">>>>, 0, <<>>) ELSE q2
         IN Emit(q3, <<<<o, of, Align(o, r[6])>>>>, 2, <<>>)
    [] c = "msize" -> Emit(q, <<<<"memory.size">>>>, 0, <<"i32">>)
    [] c = "mgrow" ->
         LET q1 == IF r[2] % 3 = 0 THEN Emit(q, Src(q, "i32", r[3], r[4]), 0, <<"i32">>)
                   ELSE Emit(q, <<I32(r[2] % 4)>>, 0, <<"i32">>)
         IN Emit(q1, <<<<"memory.grow">>>>, 1, <<"i32">>)
    [] c \in {"mfill", "mcopy", "minit"} ->
         LET d == r[2] % 220
             \* fill with a constant or local; copy overlapping or not; lengths around zero
             len == r[3] % 24
             ls == LocalsOf(q, "i32")
             dd == IF r[6] % 3 = 0 THEN <<<<"local.get", q.adr>>>> ELSE <<I32(d)>>
             nn == IF r[7] % 3 = 0 /\ Len(ls) > 0
                   THEN <<I32(len), <<"local.set", Pick(ls, r[8])>>, <<"local.get", Pick(ls, r[8])>>>> ELSE <<I32(len)>>
             pages == <<"i32.add">>
         IN CASE c = "mfill" ->
                   Emit(q, dd \o Src(q, "i32", r[4], r[5]) \o nn \o <<<<"memory.fill">>>>, 0, <<>>)
              [] c = "mcopy" ->
                   Emit(q, dd \o <<I32(IF r[4] % 2 = 0 THEN r[5] % 220 ELSE (d + (r[5] % 9) + 0))>> \o nn
                           \o <<<<"memory.copy">>>>, 0, <<>>)
              [] OTHER ->
                   IF Len(PasIdx) = 0 THEN q
                   ELSE LET k == Pick(PasIdx, r[9])
                            L == Len(pl.datas[k + 1].b)
                            s == r[5] % L
                            \* any segment (active ones are dropped by instantiation), ranges up to and past its end
                            w == r[10] % Len(pl.datas)
                        IN IF PROFILE \in {"bulk", "trap"} /\ r[9] % 12 = 11
                           THEN Emit(q, dd \o <<I32(r[5] % (Len(pl.datas[w + 1].b) + 2)), I32(IF r[11] % 2 = 0 THEN 0 ELSE r[3] % 4), <<"memory.init", w>>>>, 0, <<>>)
                           ELSE Emit(q, dd \o <<I32(s), I32(r[3] % (L - s + 1)), <<"memory.init", k>>>>, 0, <<>>)
    [] c = "ddrop" -> IF Len(PasIdx) = 0 \/ (PROFILE # "trap" /\ r[3] % 4 # 0) THEN q ELSE Emit(q, <<<<"data.drop", Pick(PasIdx, r[2])>>>>, 0, <<>>)
    [] c = "rnull" -> LET t == Pick(<<"funcref", "funcref", "externref">>, r[2]) IN Emit(q, <<<<"ref.null", t>>>>, 0, <<t>>)
    [] c = "tget" -> LET k == TabOf(r[7]) IN Emit(q, <<TabIdx(r, k), <<"table.get", k>>>>, 0, <<pl.tables[k + 1].t>>)
    [] c = "tset" ->
         LET k == TabOf(r[7])
         IN Emit(q, <<TabIdx(r, k)>> \o Src(q, pl.tables[k + 1].t, r[3], r[4])
                    \o <<<<"table.set", k>>>>, 0, <<>>)
    [] c = "tfill" ->
         LET k == TabOf(r[10])
             n == pl.tables[k + 1].min
             i == r[2] % n
             far == Rare(r[6], 12)
         IN Emit(q, <<IF far /\ r[7] % 2 = 0 THEN FarIdx(r[8], k) ELSE I32(i)>> \o Src(q, pl.tables[k + 1].t, r[3], r[4])
                    \o <<IF far /\ r[9] % 3 # 0 THEN FarIdx(r[9] \div 3, k) ELSE I32(r[5] % (n - i + 1)), <<"table.fill", k>>>>, 0, <<>>)
    [] c = "isnull" -> IF TopT(q) \in RefTypes THEN Emit(q, <<<<"ref.is_null">>>>, 1, <<"i32">>) ELSE q
    [] c = "nop" -> Emit(q, <<<<"nop">>>>, 0, <<>>)
    [] c = "unreachable" -> Kill(Emit(q, <<<<"unreachable">>>>, 0, <<>>))
    [] OTHER -> q

Control == {"block", "loop", "if", "close", "br", "br_if", "br_table", "back", "return"}
Rule(q, r) ==
  LET c0 == Pick(WeightsC, r[1])
      \* code after an unconditional transfer stays short
      c  == IF Dead(q) /\ r[12] % 3 # 0 /\ Len(q.cs) > 1 THEN "close"
            ELSE IF Len(Av(q)) > 7 THEN Pick(<<"num", "lset", "emit", "drop", "num">>, r[1]) ELSE c0
      q1 == IF c \in Control THEN CtlRule(q, c, r) ELSE OtherRule(q, c, r)
  IN [q1 EXCEPT !.bud = IF Dead(q1) /\ Len(q1.cs) = 1 /\ @ > 2 THEN 2 ELSE @ - 1]

(* ---- the wrapper: calls function FirstGen and makes everything visible -------*)
Wrapper(sig, r) ==
  LET ps == sig[1]  rs == sig[2]
      args == FoldLeft(LAMBDA acc, i : acc \o (IF ps[i] \in RefTypes THEN <<<<"ref.null", ps[i]>>>>
                                               ELSE <<C(ps[i], RandConst(ps[i], 1, r[i + 1]))>>), <<>>, [i \in DOMAIN ps |-> i])
      n == Len(rs)
      sets == [i \in 1..n |-> <<"local.set", n - i>>]
      store(i) == IF rs[i] \in RefTypes
                  THEN <<I32(2304 + 8 * i), <<"local.get", i - 1>>, <<"ref.is_null">>, <<"i32.store8", 0>>>>
                  ELSE <<I32(2304 + 8 * i), <<"local.get", i - 1>>, <<StoreOpT(rs[i]), 0>>>>
      stores == FoldLeft(LAMBDA acc, i : acc \o store(i), <<>>, [i \in 1..n |-> i])
      gst == FoldLeft(LAMBDA acc, i : acc \o <<I32(2400 + 8 * i), <<"global.get", i - 1>>, <<StoreOpT(pl.globals[i].t), 0>>>>,
                      <<>>, [i \in DOMAIN pl.globals |-> i])
      tst == FoldLeft(LAMBDA acc, i : acc \o <<I32(2500 + i), I32(i - 1), <<"table.get", 0>>, <<"ref.is_null">>, <<"i32.store8", 0>>>>,
                      <<>>, [i \in 1..pl.tables[1].min |-> i])
             \o (IF Len(pl.tables) = 1 THEN <<>> ELSE
                 FoldLeft(LAMBDA acc, i : acc \o <<I32(2520 + i), I32(i - 1), <<"table.get", 1>>, <<"ref.is_null">>, <<"i32.store8", 0>>>>,
                          <<>>, [i \in 1..pl.tables[2].min |-> i]))
      dump == <<I32(2048), I32(0), <<"i32.store", 0>>,
                I32(2048), <<"memory.size">>, I32(16), <<"i32.shl">>, <<"i32.store", 4>>,
                I32(1), I32(2048), I32(1), I32(2056), <<"call", 0>>, <<"drop">>>>
      fin == IF n > 0 /\ rs[1] \in NumTypes THEN <<<<"local.get", 0>>>> ELSE <<>>
      once == args \o <<<<"call", FirstGen>>>> \o sets \o stores
      body == IF REPS = 1 THEN once
              ELSE <<I32(REPS), <<"local.set", n>>, <<"loop", <<<<>>, <<>>>>>>,
                     C("i32", pl.globals[1].init), <<"global.set", 0>>>> \o once
                   \o <<<<"local.get", n>>, I32(1), <<"i32.sub">>, <<"local.tee", n>>, <<"br_if", 0>>, <<"end">>>>
  IN Fn(<<<<>>, IF n > 0 /\ rs[1] \in NumTypes THEN <<rs[1]>> ELSE <<>>>>, Append(rs, "i32"),
        body \o gst \o tst \o dump \o fin)

Program == [imps |-> <<"fd_write", "sched_yield">>, isigs |-> ISigs,
            funcs |-> Helpers \o pl.funcs, globals |-> pl.globals, mem |-> pl.mem, tables |-> pl.tables,
            elems |-> pl.elems, datas |-> pl.datas, start |-> pl.start,
            main |-> NImp + NHelp + Len(pl.funcs) - 1, args |-> <<>>]

(* ---- the state machine ---------------------------------------------------------*)
Init == /\ ph = "plan" /\ pl = [nf |-> 0] /\ g = [bud |-> 0] /\ vm = NoVm
        /\ \E k \in 1..SEEDS : rnd = Seeded(k, BASE)
R == Draw24(rnd)
Plan == /\ ph = "plan"
        /\ LET d == R IN pl' = PlanOf(d[1]) /\ rnd' = d[2]
        /\ ph' = "fn" /\ UNCHANGED <<g, vm>>
Begin == /\ ph = "fn" /\ Len(pl.funcs) < Len(pl.sigs)
         /\ LET d == R IN g' = StartFn(pl.sigs[Len(pl.funcs) + 1], d[1], TRUE) /\ rnd' = d[2]
         /\ ph' = "code" /\ UNCHANGED <<pl, vm>>
Wrap == /\ ph = "fn" /\ Len(pl.funcs) = Len(pl.sigs)
        /\ LET d == R IN pl' = [pl EXCEPT !.funcs = Append(@, Wrapper(pl.sigs[1], d[1]))] /\ rnd' = d[2]
        /\ ph' = "boot" /\ UNCHANGED <<g, vm>>
Grow == /\ ph = "code" /\ g.bud > 0
        /\ LET d == R IN g' = Rule(g, d[1]) /\ rnd' = d[2]
        /\ UNCHANGED <<ph, pl, vm>>
CloseBlock == /\ ph = "code" /\ g.bud <= 0 /\ Len(g.cs) > 1
              /\ LET d == R IN g' = CtlRule(g, "close", d[1]) /\ rnd' = d[2]
              /\ UNCHANGED <<ph, pl, vm>>
CloseFn == /\ ph = "code" /\ g.bud <= 0 /\ Len(g.cs) = 1
           /\ LET d == R  r == d[1]
                  q == IF Dead(g) /\ r[2] % 2 = 0 THEN Emit(g, Rep(<<"drop">>, Len(Av(g))), Len(Av(g)), <<>>)
                       ELSE Fix(g, g.sig[2], r[3], r[4])
              IN pl' = [pl EXCEPT !.funcs = Append(@, Fn(g.sig, g.loc, q.code))] /\ rnd' = d[2]
           /\ ph' = "fn" /\ UNCHANGED <<g, vm>>
BootP == ph = "boot" /\ vm' = Boot(Program) /\ ph' = "run" /\ UNCHANGED <<pl, g, rnd>>
Execute == /\ ph = "run" /\ vm.s = "run" /\ vm.n < STEPS
           /\ vm' = Run(Program, vm, 100)
           /\ UNCHANGED <<ph, pl, g, rnd>>
Finish == /\ ph = "run" /\ (vm.s # "run" \/ vm.n >= STEPS)
          /\ IF Decided(vm) THEN PrintT(ToJson(IF ENC = 0 THEN Report(PROFILE, Program, vm)
                                                     ELSE Report(PROFILE, Program, vm) @@ [bytes |-> [i \in 1..ENC |-> Encoding(Program, rnd[1] + (i * 7001))]])) ELSE TRUE
          /\ ph' = "end" /\ UNCHANGED <<pl, g, vm, rnd>>
Next == Plan \/ Begin \/ Wrap \/ Grow \/ CloseBlock \/ CloseFn \/ BootP \/ Execute \/ Finish
Spec == Init /\ [][Next]_vars

(* Soundness of the model itself: a validated program never gets stuck --- the
   operands every instruction finds have the widths its type demands, and at
   the function's end exactly the results are there.                             *)
SizeOk(t, v) == Len(v) = IF t \in RefTypes THEN 1 ELSE Size[t]
Sound ==
  ph = "run" /\ vm.s \in {"run", "done"} =>
     /\ vm.s = "done" => LET rs == FSig(Program, Program.main)[2]
                         IN Len(vm.res) = Len(rs) /\ \A i \in DOMAIN rs : SizeOk(rs[i], vm.res[i])
     /\ vm.s = "run" =>
          LET b == FBody(Program, vm.f) lt == b.sig[1] \o b.loc
          IN /\ Len(vm.loc) = Len(lt) /\ \A i \in DOMAIN lt : SizeOk(lt[i], vm.loc[i])
             /\ \A i \in DOMAIN vm.lab : vm.lab[i][2] <= Len(vm.st)
=============================================================================
