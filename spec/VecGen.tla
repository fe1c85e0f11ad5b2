------------------------------- MODULE VecGen -------------------------------
(***************************************************************************)
(* Every numeric instruction with every pair of edge operands (and some    *)
(* arbitrary ones), each wrapped in a small function in which the operands *)
(* come from different places and the result goes to different places.     *)
(* A behaviour is one batch: all second operands for one instruction and   *)
(* one first operand.  Trapping vectors become programs of their own.      *)
(***************************************************************************)
EXTENDS Prog

CONSTANTS CLASS,     \* "int", "float", "cvt"
          FORMS,     \* functions per vector
          EXTRA,     \* arbitrary operands in addition to the edge values
          BASE

VARIABLES x,         \* <<op, index of first operand, chunk, "todo"/"done">>
          vm

Ops == CASE CLASS = "int" -> SetToSeq(I32Bin \cup I64Bin \cup I32Rel \cup I64Rel \cup I32Un \cup I64Un \cup Eqz)
         [] CLASS = "float" -> SetToSeq(F32Bin \cup F64Bin \cup F32Rel \cup F64Rel \cup F32Un \cup F64Un)
         [] OTHER -> SetToSeq(Cvt)
OpsC == Ops
ExtraV(t, k) == [i \in 1..EXTRA |-> LET d == Draw24(Seeded(k * 131 + i, BASE))[1] IN Arb(t, d[1], d[2])]
VecV == [t \in NumTypes |->
           EdgeV[t] \o (IF CLASS = "cvt" THEN (IF t = "f32" THEN F32B ELSE IF t = "f64" THEN F64B ELSE <<>>) ELSE <<>>)
           \o ExtraV(t, CASE t = "i32" -> 1 [] t = "i64" -> 2 [] t = "f32" -> 3 [] OTHER -> 4)]

(* helper functions: ids 2..5 *)
IdIx(t) == NImp + (CASE t = "i32" -> 0 [] t = "i64" -> 1 [] t = "f32" -> 2 [] OTHER -> 3)
Helpers == <<IdFn("i32"), IdFn("i64"), IdFn("f32"), IdFn("f64")>>
GIx(t) == CASE t = "i32" -> 0 [] t = "i64" -> 1 [] t = "f32" -> 2 [] OTHER -> 3
Globals == <<[t |-> "i32", init |-> Zero(4)], [t |-> "i64", init |-> Zero(8)],
             [t |-> "f32", init |-> Zero(4)], [t |-> "f64", init |-> Zero(8)]>>

NSrc == 7
(* <<preparation, expression>> for operand i (0-based) of type t *)
SrcForm(f, t, v, i, tmp) ==
  CASE f = 0 -> <<<<>>, <<C(t, v)>>>>
    [] f = 1 -> <<<<>>, <<<<"local.get", i>>>>>>
    [] f = 2 -> <<<<>>, <<<<"block", <<<<>>, <<t>>>>>>, <<"local.get", i>>, <<"end">>>>>>
    [] f = 3 -> <<<<<<"local.get", i>>, <<"global.set", GIx(t)>>>>, <<<<"global.get", GIx(t)>>>>>>
    [] f = 4 -> <<<<I32(3000 + 8 * i), <<"local.get", i>>, <<StoreOpT(t), 0>>>>,
                  <<I32(3000 + 8 * i), <<LoadOpT(t), 0>>>>>>
    [] f = 5 -> <<<<>>, <<<<"local.get", i>>, <<"local.tee", tmp>>>>>>
    [] OTHER -> <<<<>>, <<<<"local.get", i>>, <<"call", IdIx(t)>>>>>>
Dests(rt) == IF rt = "i32" THEN 15 ELSE 10
(* the function testing one vector: parameters = operands, then a local of the
   result type, then one temporary per operand; stores its observation at adr  *)
TestFn(o, args, fs, df, adr, z) ==
  LET tys == Sig[o][1]  rt == Sig[o][2]  n == Len(args)
      a == SrcForm(fs[1], tys[1], args[1], 0, n + 1)
      b == IF n = 2 THEN SrcForm(fs[2], tys[2], args[2], 1, n + 2) ELSE <<<<>>, <<>>>>
      \* with both operands through the same global the second would overwrite the first
      b1 == IF n = 2 /\ fs[1] = 3 /\ fs[2] = 3 THEN SrcForm(1, tys[2], args[2], 1, n + 2) ELSE b
      pre == a[1] \o b1[1]
      e == a[2] \o b1[2] \o <<<<o>>>>
      J == n
      st(ex, t) == <<I32(adr)>> \o ex \o <<<<StoreOpT(t), 0>>>>
      k == Pick(EdgeV[rt], z)
      code ==
        CASE df = 0 -> st(e, rt)
          [] df = 1 -> e \o <<<<"local.set", J>>>> \o st(<<<<"local.get", J>>>>, rt)
          [] df = 2 -> e \o <<<<"local.tee", J>>, <<"drop">>>> \o st(<<<<"local.get", J>>>>, rt)
          [] df = 3 -> e \o <<<<"global.set", GIx(rt)>>>> \o st(<<<<"global.get", GIx(rt)>>>>, rt)
          [] df = 4 -> st(e \o <<<<"call", IdIx(rt)>>>>, rt)
          [] df = 5 -> st(e \o <<C(rt, k), <<rt \o ".add">>>>, rt)
          [] df = 6 -> st(<<C(rt, k)>> \o e \o <<<<rt \o ".sub">>>>, rt)
          [] df = 7 -> st(<<<<"block", <<<<>>, <<rt>>>>>>>> \o e \o <<<<"br", 0>>, <<"end">>>>, rt)
          [] df = 8 -> st(<<C(rt, k)>> \o e \o <<I32(z % 2), <<"select">>>>, rt)
          [] df = 9 -> st(e \o <<<<"local.tee", J>>, <<"local.get", J>>, <<rt \o ".add">>>>, rt)
          [] df = 10 -> st(e \o <<<<"if", <<<<>>, <<"i32">>>>>>, I32(11), <<"else">>, I32(22), <<"end">>>>, "i32")
          [] df = 11 -> st(<<<<"block", <<<<>>, <<"i32">>>>>>, I32(33)>> \o e \o <<<<"br_if", 0>>, <<"drop">>, I32(44), <<"end">>>>, "i32")
          [] df = 12 -> st(<<I32(55), I32(66)>> \o e \o <<<<"select">>>>, "i32")
          [] df = 13 -> st(e \o <<<<"i32.eqz">>>>, "i32")
          [] OTHER -> st(<<<<"block", <<<<>>, <<>>>>>>, <<"block", <<<<>>, <<>>>>>>>> \o e
                          \o <<<<"br_table", <<0>>, 1>>, <<"end">>, I32(adr + 4), I32(77), <<"i32.store", 0>>, <<"end">>, I32(88)>>, "i32")
  IN Fn(<<tys, <<>>>>, <<rt>> \o tys, pre \o code)
(* df = 14 stores 88 at adr always and 77 at adr+4 when the selector is 0 *)

Base0 == 4096
CallTest(o, args, idx) == [i \in DOMAIN args |-> C(Sig[o][1][i], args[i])] \o <<<<"call", idx>>>>
MkProg(tests) ==          \* tests: sequence of <<o, args, src forms, dest form, z>>
  LET n == Len(tests)
      fs == [i \in 1..n |-> TestFn(tests[i][1], tests[i][2], tests[i][3], tests[i][4], Base0 + 8 * i, tests[i][5])]
      main == Fn(<<<<>>, <<>>>>, <<>>,
                 FoldLeft(LAMBDA acc, i : acc \o CallTest(tests[i][1], tests[i][2], NImp + 4 + i - 1), <<>>, [i \in 1..n |-> i])
                 \o DumpRange(Base0, 8 * n + 16))
  IN [imps |-> Imps, isigs |-> ISigs, funcs |-> Helpers \o fs \o <<main>>, globals |-> Globals, mem |-> <<1, -1>>,
      tables |-> <<>>, elems |-> <<>>, datas |-> <<>>, start |-> -1, main |-> NImp + 4 + n, args |-> <<>>]

RECURSIVE RunOn(_, _, _)
RunOn(P, m, k) == IF m.s # "run" \/ k = 0 THEN m ELSE RunOn(P, Run(P, m, 300), k - 1)
BigRun(P) == RunOn(P, Boot(P), 400)

NVec(o) == IF Arity[o] = 1 THEN Len(VecV[Sig[o][1][1]]) ELSE Len(VecV[Sig[o][1][2]])
Chunk == 48                  \* functions per program
Tests(o, ai, c) ==           \* the c-th chunk (from 0) of the tests of (o, ai)
  LET t == Sig[o][1][1]
      vec(i) == IF Arity[o] = 1 THEN <<VecV[t][i]>> ELSE <<VecV[t][ai], VecV[Sig[o][1][2]][i]>>
      opn == CHOOSE i \in DOMAIN OpsC : OpsC[i] = o
      one(k) == LET i == (k \div FORMS) + 1
                    d == Draw24(Seeded(opn * 977 + ai * 53 + k, BASE))[1]
                IN <<o, vec(i), <<d[1] % NSrc, d[2] % NSrc>>, d[3] % Dests(Sig[o][2]), d[4]>>
      total == NVec(o) * FORMS
      n == IF total - c * Chunk < Chunk THEN total - c * Chunk ELSE Chunk
  IN [k \in 1..n |-> one(c * Chunk + k - 1)]
Init == /\ vm = NoVm
        /\ \E o \in {OpsC[i] : i \in DOMAIN OpsC} :
             \E ai \in 1..(IF Arity[o] = 1 THEN 1 ELSE Len(VecV[Sig[o][1][1]])) :
               \E c \in 0..((NVec(o) * FORMS - 1) \div Chunk) : x = <<o, ai, c, "todo">>
Good(s) == SelectSeq(s, LAMBDA t : ~Traps(t[1], t[2]) /\ ~Opaque(t[1], t[2]))
Bad(s) == SelectSeq(s, LAMBDA t : Traps(t[1], t[2]))
Batch == /\ x[4] = "todo"
         /\ LET s == Tests(x[1], x[2], x[3])  P == MkProg(Good(s))  b == Bad(s)
            IN /\ IF Len(Good(s)) = 0 THEN vm' = NoVm
                  ELSE \E r \in {BigRun(P)} : vm' = [s |-> r.s] /\ PrintT(ToJson(Report("vec", P, r)))
               /\ \A i \in DOMAIN b : LET Q == MkProg(<<b[i]>>) IN PrintT(ToJson(Report("vectrap", Q, BigRun(Q))))
         /\ x' = [x EXCEPT ![4] = "done"]
Next == Batch
(* no batch of non-trapping vectors traps or is undecided *)
Fine == vm.s \in {"none", "done"}
=============================================================================
