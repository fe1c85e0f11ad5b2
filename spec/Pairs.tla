------------------------------- MODULE Pairs --------------------------------
(***************************************************************************)
(* Every pair of a producing instruction X and a consuming instruction Y:  *)
(* Y takes X's result at each of its operand positions, the other operands *)
(* of both lie beside it on the stack -- constants, locals, globals,       *)
(* loaded values -- and something else is pending below.  Between the push *)
(* of an operand and its use its source may be overwritten.  An operand is *)
(* the value at the moment it was pushed, and goes to the instruction that *)
(* stack order designates: the machine says what every fragment leaves in  *)
(* its result, its locals, its globals, memory and tables.                 *)
(*                                                                         *)
(* Instructions come with the types they take and give; a pair exists when *)
(* the types meet.  Operands are drawn until the machine runs the fragment *)
(* to its end without a trap (or not at all, when a few draws all trap).   *)
(***************************************************************************)
EXTENDS Prog

CONSTANTS FORMS,     \* fragments for every pair and position
          SHARE,     \* every SHARE-th pair (1: all)
          BASE
VARIABLES x, vm

Ts == <<"i32", "i64", "f32", "f64", "funcref">>
Ix(t) == CHOOSE i \in 1..5 : Ts[i] = t
NT == <<"i32", "i64", "f32", "f64">>
L(in, out, code) == [in |-> in, out |-> out, code |-> code]
(* local -i stands for the scratch local of type Ts[i] *)
Nums == SetToSeq(NumInstr)
LNum == [i \in DOMAIN Nums |-> L(Sig[Nums[i]][1], <<Sig[Nums[i]][2]>>, <<<<Nums[i]>>>>)]
Ld == SetToSeq(Loads)
LLoad == [i \in DOMAIN Ld |-> L(<<"i32">>, <<MemT[Ld[i]]>>, <<<<Ld[i], 16384 + (i % 3)>>>>)]
St == SetToSeq(Stores)
LStore == [i \in DOMAIN St |-> L(<<"i32", MemT[St[i]]>>, <<>>, <<<<St[i], i % 2>>>>)]
(* helper functions: identity, second of a pair (with a trace of the first), sink *)
Id(t) == NImp + Ix(t) - 1
Snd(t) == NImp + 4 + Ix(t)
Sink(t) == NImp + 8 + Ix(t)
H == <<IdFn("i32"), IdFn("i64"), IdFn("f32"), IdFn("f64"), Fn(<<<<"funcref">>, <<"funcref">>>>, <<>>, <<<<"local.get", 0>>>>)>>
     \o [i \in 1..4 |-> Fn(<<<<NT[i], "i32">>, <<NT[i]>>>>, <<NT[i]>>, <<<<"local.get", 1>>, <<"global.set", 4>>, <<"local.get", 0>>>>)]
     \o [i \in 1..4 |-> Fn(<<<<NT[i]>>, <<>>>>, <<>>, <<<<"local.get", 0>>, <<"global.set", i - 1>>>>)]
S(a, b) == <<a, b>>
ByType(t) ==
  << L(<<t>>, <<t>>, <<<<"local.tee", 0 - Ix(t)>>>>), L(<<t>>, <<>>, <<<<"local.set", 0 - Ix(t)>>>>), L(<<t>>, <<>>, <<<<"drop">>>>),
     L(<<t>>, <<t>>, <<<<"call", Id(t)>>>>),
     L(<<t>>, <<t>>, <<<<"block", S(<<t>>, <<t>>)>>, <<"end">>>>), L(<<t>>, <<t>>, <<<<"loop", S(<<t>>, <<t>>)>>, <<"end">>>>),
     L(<<t>>, <<t>>, <<<<"block", S(<<t>>, <<t>>)>>, <<"br", 0>>, <<"end">>>>) >>
ByNum(t) ==
  LET c == C(t, FromNat(77, Size[t])) IN
  << L(<<t>>, <<>>, <<<<"global.set", Ix(t) - 1>>>>), L(<<>>, <<t>>, <<<<"global.get", Ix(t) - 1>>>>),
     L(<<t, t, "i32">>, <<t>>, <<<<"select">>>>), L(<<t, t, "i32">>, <<t>>, <<<<"select_t", t>>>>),
     L(<<t, "i32">>, <<t>>, <<<<"call", Snd(t)>>>>), L(<<t>>, <<>>, <<<<"call", Sink(t)>>>>),
     L(<<t, "i32">>, <<t>>, <<<<"call_indirect", S(<<t>>, <<t>>), 0>>>>),
     L(<<t, "i32">>, <<t>>, <<<<"if", S(<<t>>, <<t>>)>>, <<"else">>, <<"drop">>, c, <<"end">>>>),
     L(<<t, "i32">>, <<t>>, <<<<"block", S(<<t, "i32">>, <<t>>)>>, <<"br_if", 0>>, <<"drop">>, c, <<"end">>>>),
     L(<<t, "i32">>, <<t>>, <<<<"block", S(<<t, "i32">>, <<t>>)>>, <<"block", S(<<t, "i32">>, <<t>>)>>, <<"br_table", <<0, 1>>, 0>>, <<"end">>, <<"drop">>, c, <<"end">>>>),
     L(<<t, t, "i32">>, <<t>>, <<<<"block", S(<<t, t, "i32">>, <<t, t>>)>>, <<"br_if", 0>>, <<"drop">>, c, <<"end">>, <<"drop">>>>),
     L(<<t, t>>, <<t>>, <<<<"block", S(<<t, t>>, <<t>>)>>, <<"br", 0>>, <<"end">>>>),
     L(<<>>, <<t>>, <<C(t, FromNat(5, Size[t]))>>), L(<<>>, <<t>>, <<<<"local.get", 0 - Ix(t)>>>>) >>
Others ==
  << L(<<"i32">>, <<"i32">>, <<<<"if", S(<<>>, <<"i32">>)>>, I32(6), <<"else">>, I32(9), <<"end">>>>),
     L(<<"i32">>, <<>>, <<<<"if", S(<<>>, <<>>)>>, I32(6), <<"global.set", 4>>, <<"end">>>>),
     L(<<"i32">>, <<>>, <<<<"block", S(<<"i32">>, <<>>)>>, <<"br_if", 0>>, I32(6), <<"global.set", 4>>, <<"end">>>>),
     L(<<>>, <<"i32">>, <<<<"memory.size">>>>), L(<<"i32">>, <<"i32">>, <<<<"memory.grow">>>>),
     L(<<"i32", "i32", "i32">>, <<>>, <<<<"memory.fill">>>>), L(<<"i32", "i32", "i32">>, <<>>, <<<<"memory.copy">>>>),
     L(<<"i32", "i32", "i32">>, <<>>, <<<<"memory.init", 1>>>>),
     L(<<>>, <<"i32">>, <<<<"call", 1>>>>),
     L(<<"funcref">>, <<"i32">>, <<<<"ref.is_null">>>>), L(<<>>, <<"funcref">>, <<<<"ref.null", "funcref">>>>),
     L(<<"i32">>, <<"funcref">>, <<<<"table.get", 0>>>>), L(<<"i32", "funcref">>, <<>>, <<<<"table.set", 1>>>>),
     L(<<"i32", "funcref", "i32">>, <<>>, <<<<"table.fill", 1>>>>),
     L(<<"funcref", "funcref", "i32">>, <<"funcref">>, <<<<"select_t", "funcref">>>>) >>
Letters == LNum \o LLoad \o LStore \o FoldLeft(LAMBDA a, t : a \o ByType(t), <<>>, Ts) \o FoldLeft(LAMBDA a, t : a \o ByNum(t), <<>>, NT) \o Others
LetterC == Letters
NL == Len(LetterC)
Producers == SelectSeq([i \in 1..NL |-> i], LAMBDA i : LetterC[i].out # <<>>)
(* the consumers of a type: <<letter, position>> *)
Consumers(t) == FoldLeft(LAMBDA a, y : a \o SelectSeq([p \in DOMAIN LetterC[y].in |-> <<y, p>>], LAMBDA q : LetterC[y].in[q[2]] = t), <<>>, [i \in 1..NL |-> i])
ConsC == [t \in {"i32", "i64", "f32", "f64", "funcref"} |-> Consumers(t)]

(* a value for an operand: the later the attempt, the tamer *)
Operand(t, m, a, b) ==
  IF t = "funcref" THEN NullRef
  ELSE IF IsFloat(t) THEN
    IF m \in {0, 1} THEN Arb(t, a, b) ELSE IF m = 2 THEN Pick(EdgeV[t], a) ELSE Value(t \o ".convert_i32_s", <<FromInt((a % 1000) - (IF m = 3 THEN 500 ELSE 0), 4)>>)
  ELSE CASE m = 0 -> Arb(t, a, b) [] m = 1 -> Pick(EdgeV[t], a) [] m = 2 -> FromNat(a % 1500, Size[t]) [] m = 3 -> FromNat(a % 24, Size[t])
         [] m = 4 -> IF a % 3 = 0 THEN Pick(EdgeV[t], b) ELSE FromNat(b % 1500, Size[t]) [] m = 5 -> FromNat(a % 8, Size[t]) [] OTHER -> FromNat(a % 3, Size[t])
NModes == 8

Base0 == 8192
(* <<code before, code>> that makes operand i (value v, type t) a value of source s;
   nothing but null references can be written down                              *)
Src(s, i, t, v, kk) ==
  IF t = "funcref" THEN <<<<>>, IF s % 3 = 0 THEN <<<<"ref.null", "funcref">>>> ELSE IF s % 3 = 1 THEN <<<<"local.get", i>>>> ELSE <<I32(3), <<"table.get", 0>>>>>>
  ELSE CASE s \in {0, 1, 2} -> <<<<>>, <<C(t, v)>>>> [] s \in {3, 4, 5} -> <<<<>>, <<<<"local.get", i>>>>>>
         [] s = 6 -> <<<<<<"local.get", i>>, <<"global.set", Ix(t) - 1>>>>, <<<<"global.get", Ix(t) - 1>>>>>>
         [] OTHER -> <<<<I32(20000 + (8 * i)), <<"local.get", i>>, <<StoreOpT(t), 0>>>>, <<I32(20000), <<LoadOpT(t), 8 * i>>>>>>
Obs(t, lx, adr) == IF t = "funcref" THEN <<I32(adr), <<"local.get", lx>>, <<"ref.is_null">>, <<"i32.store", 0>>>> ELSE <<I32(adr), <<"local.get", lx>>, <<StoreOpT(t), 0>>>>
(* the fragment for producer X, consumer Y, position p; d its draws, m its mode *)
Fragment(X, Y, p, d, m, adr) ==
  LET xi == X.in  yi == SubSeq(Y.in, 1, p - 1) \o SubSeq(Y.in, p + 1, Len(Y.in))
      wt == IF Y.out # <<>> THEN Y.out[1] ELSE Pick(Ts, d[20])
      tys == <<wt>> \o yi \o xi
      k == Len(tys)
      vs == [i \in 1..k |-> Operand(tys[i], IF tys[i] = "i32" /\ d[16] % 3 = 0 /\ m < 2 THEN m + 2 ELSE m, d[(i % 11) + 1] \div 3, d[((i + 4) % 11) + 1])]
      sr(i) == (d[i + 11 - (IF i > 8 THEN 8 ELSE 0)] \div 5) % 8
      g == TLCEval([i \in 1..k |-> Src(sr(i), i - 1, tys[i], vs[i], k)])
      part(a, b) == FoldLeft(LAMBDA acc, i : acc \o g[i][2], <<>>, [i \in 1..(IF b < a THEN 0 ELSE b - a + 1) |-> a + i - 1])
      pre == FoldLeft(LAMBDA acc, i : acc \o g[i][1], <<>>, [i \in 1..k |-> i])
      sub(code) == [i \in DOMAIN code |-> IF code[i][1] \in {"local.get", "local.set", "local.tee"} /\ code[i][2] < 0 THEN <<code[i][1], k - 1 - code[i][2]>> ELSE code[i]]
      xt == X.out[1]  R == k + 4 + Ix(wt)
      \* the operand whose source is overwritten after X, and how
      early == SelectSeq([i \in 1..p |-> i], LAMBDA i : tys[i] \in Range(NT) /\ (sr(i) \in {3, 4, 5, 6}))
      hz == IF early = <<>> THEN <<>>
            ELSE LET e == Pick(early, d[17])  t == tys[e]  w == C(t, FromNat(99, Size[t])) IN
                 CASE d[18] % 4 = 0 -> IF sr(e) = 6 THEN <<w, <<"global.set", Ix(t) - 1>>>> ELSE <<w, <<"local.set", e - 1>>>>
                   [] d[18] % 4 = 1 -> IF sr(e) # 6 /\ t = xt THEN <<<<"local.tee", e - 1>>>> ELSE IF sr(e) # 6 THEN <<w, <<"local.tee", e - 1>>, <<"drop">>>> ELSE <<w, <<"call", Sink(t)>>>>
                   [] d[18] % 4 = 2 -> <<<<"local.get", e - 1>>, <<"drop">>>>
                   [] OTHER -> <<>>
      ny == p - 1
      mid == part(2, 1 + ny) \o part(2 + Len(yi), k) \o sub(X.code) \o hz \o part(2 + ny, 1 + Len(yi)) \o sub(Y.code)
      dest == d[19] % 4
      tail ==
        IF Y.out = <<>> THEN <<<<"local.set", R>>>> \o Obs(wt, R, adr)
        ELSE IF wt = "funcref" THEN <<<<"local.set", R>>, <<"drop">>>> \o Obs(wt, R, adr)
        ELSE CASE dest = 0 -> <<<<wt \o ".sub">>, <<"local.set", R>>>> \o Obs(wt, R, adr)
               [] dest = 1 -> <<<<"local.tee", R>>, <<"drop">>, <<"global.set", Ix(wt) - 1>>>> \o Obs(wt, R, adr) \o <<I32(adr + 8), <<"global.get", Ix(wt) - 1>>, <<StoreOpT(wt), 0>>>>
               [] dest = 2 -> <<<<"local.set", R>>, <<"local.set", 0>>>> \o Obs(wt, R, adr) \o Obs(wt, 0, adr + 8)
               [] OTHER -> <<<<"global.set", Ix(wt) - 1>>, <<"drop">>, I32(adr), <<"global.get", Ix(wt) - 1>>, <<StoreOpT(wt), 0>>>>
      st == IF d[21] % 3 = 0 /\ wt # "funcref" /\ Y.out # <<>>      \* the result goes straight to memory
            THEN pre \o <<I32(adr)>> \o mid \o <<<<StoreOpT(wt), 0>>>>
            ELSE pre \o part(1, 1) \o mid \o tail
      hl == IF early = <<>> THEN <<>> ELSE LET e == Pick(early, d[17]) IN Obs(tys[e], e - 1, adr + 24)
  IN [f |-> Fn(<<tys, <<>>>>, Ts \o Ts, st \o Obs(xt, k - 1 + Ix(xt), adr + 16) \o hl), args |-> vs]

Blob == [i \in 1..1600 |-> ((i * 37) + ((i \div 7) * 11)) % (IF i % 3 = 0 THEN 7 ELSE 256)]
Env(fs, main, args) ==
  [imps |-> Imps, isigs |-> ISigs, funcs |-> H \o fs,
   globals |-> [i \in 1..5 |-> IF i = 5 THEN [t |-> "i32", init |-> Zero(4)] ELSE [t |-> NT[i], init |-> FromNat(40 + i, Size[NT[i]])]],
   mem |-> <<1, 1>>, tables |-> <<[t |-> "funcref", min |-> 32, max |-> 32], [t |-> "funcref", min |-> 32, max |-> -1]>>,
   elems |-> <<[tab |-> 0, off |-> 4, fs |-> [i \in 1..24 |-> NImp + (i % 4)]], [tab |-> 1, off |-> 0, fs |-> [i \in 1..32 |-> NImp + (i % 13)]]>>,
   datas |-> <<[off |-> 16384, b |-> Blob], [off |-> -1, b |-> SubSeq(Blob, 7, 1530)]>>,
   start |-> -1, main |-> main, args |-> args]
Alone(fr) == LET P == Env(<<fr.f>>, NImp + Len(H), fr.args) IN Run(P, Boot(P), 80).s
RECURSIVE Try(_, _, _, _, _, _)
Try(X, Y, p, seed, m, adr) ==
  IF m = NModes THEN <<>>
  ELSE LET fr == TLCEval(Fragment(X, Y, p, Draw24(Seeded(seed + (m * 7), BASE))[1], m, adr))
       IN IF Alone(fr) = "done" THEN <<fr>> ELSE Try(X, Y, p, seed, m + 1, adr)
Chunk == 40
RECURSIVE RunOn(_, _, _)
RunOn(P, m, n) == IF m.s # "run" \/ n = 0 THEN m ELSE RunOn(P, Run(P, m, 500), n - 1)
Arg(t, v) == IF t = "funcref" THEN <<"ref.null", "funcref">> ELSE C(t, v)
Whole(frs, room) ==
  LET n == Len(frs)
      calls == FoldLeft(LAMBDA acc, i : acc \o [j \in DOMAIN frs[i].args |-> Arg(frs[i].f.sig[1][j], frs[i].args[j])] \o <<<<"call", NImp + Len(H) + i - 1>>>>, <<>>, [i \in 1..n |-> i])
      tab == FoldLeft(LAMBDA acc, i : acc \o <<I32(Base0 + (32 * (room + 1)) + i), I32(i), <<"table.get", 1>>, <<"ref.is_null">>, <<"i32.store8", 0>>>>, <<>>, [i \in 1..32 |-> i - 1])
      gs == <<I32(Base0 + (32 * (room + 1)) + 32), <<"global.get", 4>>, <<"i32.store", 0>>>>
      main == Fn(<<<<>>, <<>>>>, <<>>, calls \o tab \o gs \o DumpRange(0, 2048) \o DumpRange(Base0, (32 * (room + 2)) + 40))
  IN Env([i \in 1..n |-> frs[i].f] \o <<main>>, NImp + Len(H) + n, <<>>)
(* What one fragment leaves behind may make another end otherwise than alone;  *)
(* then the fragments are divided until every program runs to its end.         *)
RECURSIVE Parts(_, _)
Parts(frs, room) ==
  LET P == Whole(frs, room)  r == TLCEval(RunOn(P, Boot(P), 60))
  IN IF r.s = "done" \/ Len(frs) = 1 THEN <<[p |-> P, r |-> r, n |-> Len(frs)]>>
     ELSE LET h == Len(frs) \div 2 IN Parts(SubSeq(frs, 1, h), room) \o Parts(SubSeq(frs, h + 1, Len(frs)), room)
Jobs(px) == LET cs == ConsC[LetterC[px].out[1]] IN SelectSeq([i \in 1..(Len(cs) * FORMS) |-> <<cs[((i - 1) \div FORMS) + 1], i>>], LAMBDA j : (j[2] + px + BASE) % SHARE = 0)
JobC == [i \in DOMAIN Producers |-> Jobs(Producers[i])]
Init == /\ vm = "none"
        /\ \E i \in DOMAIN Producers : \E c \in 0..((Len(JobC[i]) - 1) \div Chunk) : x = <<i, c>>
Next == /\ vm = "none" /\ UNCHANGED x
        /\ LET px == Producers[x[1]]  js == JobC[x[1]]
               n == IF Len(js) - (x[2] * Chunk) < Chunk THEN Len(js) - (x[2] * Chunk) ELSE Chunk
               frs == TLCEval(FoldLeft(LAMBDA acc, i :
                        LET j == js[(x[2] * Chunk) + i] IN
                        acc \o Try(LetterC[px], LetterC[j[1][1]], j[1][2], ((px * 1301) + (j[2] * 17)) % 100000, (j[2] + px) % 2, Base0 + (32 * (Len(acc) + 1))), <<>>, [i \in 1..n |-> i]))
           IN IF frs = <<>> THEN vm' = "empty"
              ELSE \E ps \in {TLCEval(Parts(frs, Len(frs)))} :
                     /\ vm' = IF \A k \in DOMAIN ps : ps[k].r.s = "done" THEN "done" ELSE "stuck"
                     /\ \A k \in DOMAIN ps : PrintT(ToJson(Report("pairs", ps[k].p, ps[k].r) @@ [tests |-> ps[k].n, of |-> n]))
Fine == vm \in {"none", "empty", "done"}
=============================================================================
