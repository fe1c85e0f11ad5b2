-------------------------------- MODULE Seqs --------------------------------
(***************************************************************************)
(* Every validated instruction sequence of LEN letters over a small        *)
(* alphabet.  A letter is an instruction (or an idiom of a few); a state   *)
(* is a prefix with its type stack and control stack, and a letter may     *)
(* follow exactly when the validation rules allow it -- including the      *)
(* polymorphic stack after unconditional transfers.  When LEN - TAIL       *)
(* letters are placed, all completions become the functions of one         *)
(* program, which is executed by WasmSem on every input and printed.       *)
(*                                                                         *)
(* Type "adr" is an i32 known to be a valid address: constants, local 0    *)
(* and zero-extended bytes; it may stand wherever an i32 may.              *)
(***************************************************************************)
EXTENDS Prog

CONSTANTS CLASS,      \* which alphabet
          LEN,        \* letters per sequence
          TAIL,       \* letters enumerated inside one program
          SHARE,      \* keep one prefix out of SHARE
          BASE
VARIABLES q,          \* the prefix
          n,          \* its letters
          vm

(* ---- locals 0: i32 (adr), 1: i32, 2: i64, 3: f64, 4: fuel; globals 0: i32, 1: i64, 2: f64 ---------- *)
LocT == <<"adr", "i32", "i64", "f64", "i32">>
WT(t) == IF t = "adr" THEN "i32" ELSE t
Result == CASE CLASS = "ctl0" -> <<>> [] CLASS = "ctl1" -> <<"i32">> [] OTHER -> <<"*">>      \* "*": whatever is left

Bad == [ok |-> FALSE]
Frame(k, bt, h) == [k |-> k, bt |-> bt, h |-> h, dead |-> FALSE]
Start == [ok |-> TRUE, code |-> <<>>, ts |-> <<>>, cs |-> <<Frame("fn", <<<<>>, Result>>, 0)>>]
Cur(x) == x.cs[Len(x.cs)]
Pop1(x, t) ==
  IF ~x.ok THEN x
  ELSE LET f == Cur(x)  k == Len(x.ts)
       IN IF k = f.h THEN IF f.dead THEN x ELSE Bad
          ELSE IF t = "any" \/ x.ts[k] = t \/ (t = "i32" /\ x.ts[k] = "adr") THEN [x EXCEPT !.ts = SubSeq(@, 1, k - 1)] ELSE Bad
PopAll(x, ts) == FoldLeft(LAMBDA acc, i : Pop1(acc, ts[Len(ts) + 1 - i]), x, [i \in 1..Len(ts) |-> i])
Do(x, ps, rs, ins) == LET y == PopAll(x, ps) IN IF ~y.ok THEN y ELSE [y EXCEPT !.ts = @ \o rs, !.code = @ \o ins]
Kill(x) == IF ~x.ok THEN x ELSE [x EXCEPT !.ts = SubSeq(@, 1, Cur(x).h), !.cs[Len(x.cs)].dead = TRUE]
Open(x, k, bt) == IF Len(x.cs) > 3 THEN Bad
                  ELSE LET y == PopAll(x, bt[1] \o (IF k = "if" THEN <<"i32">> ELSE <<>>)) IN
                  IF ~y.ok THEN y ELSE [y EXCEPT !.code = Append(@, <<k, bt>>), !.cs = Append(@, Frame(k, bt, Len(y.ts))), !.ts = @ \o bt[1]]
Shut(x) ==                    \* the operands of the innermost block are exactly its results
  LET f == Cur(x)  y == PopAll(x, f.bt[2]) IN IF y.ok /\ Len(y.ts) = f.h THEN y ELSE Bad
Close(x) == IF Len(x.cs) = 1 \/ (Cur(x).k = "if" /\ Cur(x).bt[1] # Cur(x).bt[2]) THEN Bad
            ELSE LET y == Shut(x) IN IF ~y.ok THEN y ELSE [y EXCEPT !.code = Append(@, <<"end">>), !.ts = @ \o Cur(x).bt[2], !.cs = Pop(@, 1)]
Else(x) == IF Cur(x).k # "if" THEN Bad
           ELSE LET y == Shut(x) IN IF ~y.ok THEN y ELSE [y EXCEPT !.code = Append(@, <<"else">>), !.ts = @ \o Cur(x).bt[1], !.cs[Len(x.cs)] = [Cur(x) EXCEPT !.k = "else", !.dead = FALSE]]
LabT(x, l) == LET f == x.cs[Len(x.cs) - l] IN IF f.k = "loop" THEN f.bt[1] ELSE f.bt[2]
Forward(x, l) == l < Len(x.cs) /\ x.cs[Len(x.cs) - l].k # "loop"
Loops(x, l) == l < Len(x.cs) /\ x.cs[Len(x.cs) - l].k = "loop"
Br(x, l) == IF ~Forward(x, l) THEN Bad ELSE Kill(Do(x, LabT(x, l), <<>>, <<<<"br", l>>>>))
BrIf(x, l) == IF ~Forward(x, l) THEN Bad ELSE Do(x, LabT(x, l) \o <<"i32">>, LabT(x, l), <<<<"br_if", l>>>>)
BrT(x, l, d) == IF ~Forward(x, l) \/ ~Forward(x, d) THEN Bad ELSE IF LabT(x, l) # LabT(x, d) THEN Bad
                ELSE Kill(Do(x, LabT(x, d) \o <<"i32">>, <<>>, <<<<"br_table", <<l>>, d>>>>))
Fuel == <<<<"local.get", 4>>, I32(1), <<"i32.sub">>, <<"local.tee", 4>>>>
Back(x, l) == IF ~Loops(x, l) THEN Bad ELSE Do(x, LabT(x, l), LabT(x, l), Fuel \o <<I32(0), <<"i32.gt_s">>, <<"br_if", l>>>>)
BackT(x, l, d) == IF ~Loops(x, l) \/ ~Forward(x, d) THEN Bad ELSE IF LabT(x, l) # LabT(x, d) THEN Bad     \* again while there is fuel
                  ELSE Kill(Do(x, LabT(x, d), <<>>, Fuel \o <<I32(1), <<"i32.lt_s">>, <<"br_table", <<l>>, d>>>>))

(* ---- alphabets --------------------------------------------------------------------*)
Here(x) == Len(x.code)
Mark(x) == <<<<"global.get", 0>>, I32(3), <<"i32.mul">>, I32(Here(x) + 1), <<"i32.add">>, <<"global.set", 0>>>>
Sel(x) == LET k == Len(x.ts) IN IF ~Cur(x).dead /\ k - Cur(x).h < 3 THEN Bad
          ELSE LET t == IF k > 2 /\ k - Cur(x).h > 2 THEN x.ts[k - 2] ELSE "i32"   u == IF k > 1 /\ k - Cur(x).h > 1 THEN x.ts[k - 1] ELSE t
                   r == IF t = u THEN t ELSE IF {t, u} = {"adr", "i32"} THEN "i32" ELSE "no"
               IN IF r = "no" THEN Bad ELSE Do(x, <<IF r = "adr" THEN "adr" ELSE r, r, "i32">>, <<r>>, <<<<"select">>>>)
Get(x, l) == Do(x, <<>>, <<LocT[l + 1]>>, <<<<"local.get", l>>>>)
Set(x, l) == Do(x, <<LocT[l + 1]>>, <<>>, <<<<"local.set", l>>>>)
Tee(x, l) == Do(x, <<LocT[l + 1]>>, <<LocT[l + 1]>>, <<<<"local.tee", l>>>>)
Op(x, o) == Do(x, Sig[o][1], <<Sig[o][2]>>, <<<<o>>>>)
H1 == NImp   H2 == NImp + 1   H3 == NImp + 2   H4 == NImp + 3          \* the helpers, see below
Letters(x) ==
  CASE CLASS = "i32" ->
         <<Do(x, <<>>, <<"adr">>, <<I32(72)>>), Get(x, 0), Get(x, 1), Set(x, 1), Tee(x, 1), Do(x, <<>>, <<"i32">>, <<<<"global.get", 0>>>>),
           Do(x, <<"i32">>, <<>>, <<<<"global.set", 0>>>>), Op(x, "i32.sub"), Op(x, "i32.eqz"), Do(x, <<"any">>, <<>>, <<<<"drop">>>>), Sel(x),
           Do(x, <<"i32">>, <<"i32">>, <<<<"call", H1>>>>), Do(x, <<"adr">>, <<"i32">>, <<<<"i32.load", 4>>>>)>>
    [] CLASS = "mem" ->
         <<Do(x, <<>>, <<"adr">>, <<I32(72)>>), Get(x, 0), Get(x, 1), Set(x, 0), Tee(x, 0), Tee(x, 1), Op(x, "i32.sub"), Op(x, "i32.eqz"),
           Do(x, <<"adr">>, <<"i32">>, <<<<"i32.load", 0>>>>), Do(x, <<"adr">>, <<"adr">>, <<<<"i32.load8_u", 3>>>>), Do(x, <<"adr", "i32">>, <<>>, <<<<"i32.store", 0>>>>),
           Do(x, <<"adr", "i32">>, <<>>, <<<<"i32.store8", 2>>>>), Do(x, <<"i32">>, <<>>, <<<<"call", H4>>>>), Do(x, <<>>, <<"adr">>, <<<<"memory.size">>>>)>>
    [] CLASS = "mix" ->
         <<Get(x, 1), Do(x, <<>>, <<"i64">>, <<C("i64", <<7, 0, 0, 0, 1, 0, 0, 0>>)>>), Get(x, 2), Set(x, 2), Tee(x, 2), Op(x, "i64.sub"), Op(x, "i64.extend_i32_s"), Op(x, "i32.wrap_i64"),
           Op(x, "i64.lt_s"), Op(x, "i64.eqz"), Sel(x), Get(x, 3), Tee(x, 3), Op(x, "f64.sub"), Op(x, "f64.convert_i64_s"), Do(x, <<>>, <<"i64">>, <<<<"global.get", 1>>>>), Do(x, <<"i64">>, <<>>, <<<<"global.set", 1>>>>)>>
    [] CLASS = "call" ->
         <<Do(x, <<>>, <<"adr">>, <<I32(72)>>), Get(x, 1), Set(x, 1), Tee(x, 1), Do(x, <<>>, <<"i32">>, <<<<"global.get", 0>>>>), Op(x, "i32.sub"), Do(x, <<"any">>, <<>>, <<<<"drop">>>>),
           Do(x, <<"i32">>, <<"i32">>, <<<<"call", H1>>>>), Do(x, <<"i32", "i32">>, <<"i32", "i32">>, <<<<"call", H2>>>>), Do(x, <<"i32">>, <<"i32", "i32">>, <<<<"call", H3>>>>),
           Do(x, <<"i32">>, <<>>, <<<<"call", H4>>>>), Do(x, <<"i32", "i32">>, <<"i32", "i32">>, <<I32(1), <<"call_indirect", <<<<"i32", "i32">>, <<"i32", "i32">>>>, 0>>>>), Sel(x)>>
    [] OTHER ->        \* "ctl0", "ctl1"
         <<Do(x, <<>>, <<"i32">>, <<I32(10 + Here(x))>>), Get(x, 1), Tee(x, 1), Do(x, <<"any">>, <<>>, <<<<"drop">>>>), Do(x, <<>>, <<>>, Mark(x)),
           Open(x, "block", <<<<>>, <<>>>>), Open(x, "block", <<<<>>, <<"i32">>>>), Open(x, "block", <<<<"i32">>, <<"i32">>>>), Open(x, "loop", <<<<>>, <<>>>>), Open(x, "loop", <<<<"i32">>, <<"i32">>>>),
           Open(x, "if", <<<<>>, <<>>>>), Open(x, "if", <<<<>>, <<"i32">>>>), Open(x, "if", <<<<"i32">>, <<"i32">>>>), Else(x), Close(x),
           Br(x, 0), Br(x, 1), Br(x, 2), BrIf(x, 0), BrIf(x, 1), BrT(x, 0, 1), BrT(x, 1, 0), Back(x, 0), Back(x, 1), BackT(x, 0, 1), BackT(x, 1, 0),
           Kill(Do(x, Result, <<>>, <<<<"return">>>>))>>
Follow(x) == SelectSeq(Letters(x), LAMBDA y : y.ok)
RECURSIVE Words(_, _)
Words(x, k) == IF Len(x.cs) - 1 > k THEN <<>> ELSE IF k = 0 THEN <<x>>
               ELSE LET f == Follow(x) IN FoldLeft(LAMBDA acc, y : acc \o Words(y, k - 1), <<>>, f)
Ended(x) == IF Result = <<"*">> THEN x ELSE LET y == PopAll(x, Result) IN IF y.ok /\ y.ts = <<>> THEN x ELSE Bad

(* ---- the program for one prefix ------------------------------------------------------------*)
ResT(x) == IF Result = <<"*">> THEN [i \in DOMAIN x.ts |-> WT(x.ts[i])] ELSE Result
(* leave the locals behind for inspection, under the pending operands *)
Remains == <<I32(48), <<"local.get", 0>>, <<"i32.store", 0>>, I32(52), <<"local.get", 1>>, <<"i32.store", 0>>, I32(56), <<"local.get", 2>>, <<"i64.store", 0>>>>
Params == <<"i32", "i32", "i64", "f64">>
Body(x) == Fn(<<Params, ResT(x)>>, <<"i32">>, <<I32(3), <<"local.set", 4>>>> \o x.code \o (IF Result = <<"*">> /\ ~Cur(x).dead THEN Remains ELSE <<>>))
(* x + g++;  (y, x);  (x, x - 1);  mem[80] += x *)
Helps == <<Fn(<<<<"i32">>, <<"i32">>>>, <<>>, <<<<"local.get", 0>>, <<"global.get", 0>>, <<"i32.add">>, <<"global.get", 0>>, I32(1), <<"i32.add">>, <<"global.set", 0>>>>),
           Fn(<<<<"i32", "i32">>, <<"i32", "i32">>>>, <<>>, <<<<"local.get", 1>>, <<"local.get", 0>>>>),
           Fn(<<<<"i32">>, <<"i32", "i32">>>>, <<>>, <<<<"local.get", 0>>, <<"local.get", 0>>, I32(1), <<"i32.sub">>>>),
           Fn(<<<<"i32">>, <<>>>>, <<"i32">>, <<I32(80), <<"local.get", 0>>, I32(80), <<"i32.load", 0>>, <<"i32.add">>, <<"local.tee", 1>>, <<"i32.store", 0>>>>)>>
In2 == <<5, 0, 0, 0, 255, 255, 255, 255>>   In3 == <<0, 0, 0, 0, 0, 0, 4, 64>>
Inputs == IF Result = <<"*">> THEN <<<<64, 1>>, <<70, 0>>>> ELSE <<<<64, 0>>, <<64, 1>>, <<64, 2>>>>
At0 == 4096
Width0 == 320                 \* memory below this is looked at
Slot == 64 + Width0
(* one call with one input: everything it can change is set before and stored after *)
Trial(x, fi, inp, adr) ==
  LET rt == ResT(x)  k == Len(rt)
      ofT(t) == CASE t = "i32" -> 0 [] t = "i64" -> 6 [] OTHER -> 12
  IN <<I32(1000), <<"global.set", 0>>, C("i64", One(8)), <<"global.set", 1>>, I32(0), I32(0), I32(Width0), <<"memory.fill">>,
       I32(64), C("i64", <<1, 2, 3, 4, 5, 6, 7, 8>>), <<"i64.store", 0>>, I32(72), C("i64", <<11, 12, 13, 14, 15, 16, 17, 18>>), <<"i64.store", 0>>,
       I32(80), I32(77), <<"i32.store", 0>>,
       I32(inp[1]), I32(inp[2]), C("i64", In2), C("f64", In3), <<"call", fi>>>>
     \o [i \in 1..k |-> <<"local.set", ofT(rt[k + 1 - i]) + (k - i)>>]
     \o FoldLeft(LAMBDA acc, i : acc \o <<I32(adr + (8 * (i - 1))), <<"local.get", ofT(rt[i]) + (i - 1)>>, <<StoreOpT(rt[i]), 0>>>>, <<>>, [i \in 1..k |-> i])
     \o <<I32(adr + 48), <<"global.get", 0>>, <<"i32.store", 0>>, I32(adr + 56), <<"global.get", 1>>, <<"i64.store", 0>>,
          I32(adr + 64), I32(0), I32(Width0), <<"memory.copy">>>>
Mem0 == [a \in 64..83 |-> IF a < 72 THEN a - 63 ELSE IF a < 80 THEN a - 61 ELSE IF a = 80 THEN 77 ELSE 0]
Batch(ws) ==
  LET ni == Len(Inputs)  fs == [i \in DOMAIN ws |-> Body(ws[i])]
      calls == FoldLeft(LAMBDA acc, i : acc \o FoldLeft(LAMBDA a2, j : a2 \o Trial(ws[i], NImp + 3 + i, Inputs[j], At0 + (Slot * (((i - 1) * ni) + (j - 1)))), <<>>, [j \in 1..ni |-> j]),
                        <<>>, [i \in DOMAIN ws |-> i])
      main == Fn(<<<<>>, <<>>>>, [i \in 1..18 |-> IF i <= 6 THEN "i32" ELSE IF i <= 12 THEN "i64" ELSE "f64"], calls \o DumpRange(At0, Slot * ni * Len(ws)))
  IN [imps |-> Imps, isigs |-> ISigs, funcs |-> Helps \o fs \o <<main>>,
      globals |-> <<[t |-> "i32", init |-> Zero(4)], [t |-> "i64", init |-> One(8)], [t |-> "f64", init |-> Zero(8)]>>, mem |-> <<4, -1>>,
      tables |-> <<[t |-> "funcref", min |-> 3, max |-> -1]>>, elems |-> <<[tab |-> 0, off |-> 0, fs |-> <<H1, H2, H3>>]>>, datas |-> <<>>, start |-> -1,
      main |-> NImp + 4 + Len(ws), args |-> <<>>]
(* the enumerated functions are executed here; the main function around them only shows what they did *)
Machine(P, b0, fi, inp) ==
  LET vm0 == [b0 EXCEPT !.f = fi, !.fr = <<>>, !.loc = <<FromInt(inp[1], 4), FromInt(inp[2], 4), In2, In3, Zero(4)>>, !.g = <<FromNat(1000, 4), One(8), Zero(8)>>, !.m = Mem0]
      v1 == Run(P, vm0, 48)
  IN IF v1.s = "run" THEN Run(P, v1, 1000) ELSE v1
Pad8(v) == [i \in 1..8 |-> IF i <= Len(v) THEN v[i] ELSE 0]
Pieces(v) == <<[b |-> FoldLeft(LAMBDA acc, i : acc \o (IF i <= Len(v.res) THEN Pad8(v.res[i]) ELSE Zero(8)), <<>>, [i \in 1..6 |-> i]) \o Pad8(v.g[1]) \o v.g[2]],
               [a |-> 0, n |-> Width0, m |-> v.m]>>
BigRun(P, k) ==
  LET b0 == Boot(P)  ni == Len(Inputs)
      vs == [i \in 1..(k * ni) |-> Machine(P, b0, NImp + 4 + ((i - 1) \div ni), Inputs[((i - 1) % ni) + 1])]
  IN FoldLeft(LAMBDA acc, i : LET v == vs[i] IN [s |-> IF v.s = "done" THEN acc.s ELSE v.s, n |-> acc.n + v.n, hc |-> 1, res |-> <<>>, out |-> IF v.s = "done" THEN acc.out \o Pieces(v) ELSE <<>>],
              [s |-> "done", n |-> 0, hc |-> 1, res |-> <<>>, out |-> <<>>], [i \in 1..(k * ni) |-> i])
Chunk == 150
RECURSIVE Emit(_)
Emit(ws) == IF ws = <<>> THEN TRUE
            ELSE LET k == IF Len(ws) < Chunk THEN Len(ws) ELSE Chunk
                     P == Batch(SubSeq(ws, 1, k))
                 IN (\E r \in {BigRun(P, k)} : r.s \in {"done"} /\ PrintT(ToJson(Report("seq", P, r) @@ [words |-> k]))) /\ Emit(SubSeq(ws, k + 1, Len(ws)))

Init == q = Start /\ n = 0 /\ vm = "none"
Hash(x) == FoldLeft(LAMBDA a, i : ((a * 31) + Len(x.code[i][1]) + (IF Len(x.code[i]) > 1 /\ x.code[i][1] \in {"local.get", "br", "br_if"} THEN 7 * x.code[i][2] ELSE 0)) % 100003, BASE, [i \in DOMAIN x.code |-> i])
Grow == /\ n < LEN - TAIL
        /\ \E i \in DOMAIN Follow(q) : q' = Follow(q)[i]
        /\ n' = n + 1 /\ UNCHANGED vm
Finish == /\ n = LEN - TAIL /\ q # Bad
          /\ LET ws == IF SHARE > 1 /\ Hash(q) % SHARE # 0 THEN <<>> ELSE SelectSeq(Words(q, TAIL), LAMBDA w : Len(w.cs) = 1 /\ Ended(w).ok)
             IN vm' = IF Emit(ws) THEN "fine" ELSE "undecided"
          /\ q' = Bad /\ n' = n + 1
Next == Grow \/ Finish
(* no enumerated program traps, runs out of fuel, or leaves what the specification decides *)
Fine == vm # "undecided"
=============================================================================
