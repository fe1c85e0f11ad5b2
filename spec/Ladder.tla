------------------------------- MODULE Ladder --------------------------------
(***************************************************************************)
(* Every numeric instruction over operands of every magnitude.  For each   *)
(* exponent an operand is built (exact powers, neighbours, halves, odd     *)
(* units, drawn mantissas), and the second operand is chosen in relation   *)
(* to it: near, far, small, a factor of it, a neighbour of a multiple.     *)
(* One behaviour is a guest loop over an array of such pairs.              *)
(***************************************************************************)
EXTENDS Prog

CONSTANTS CLASS,     \* "int", "float", "cvt"
          PER,       \* pairs for every exponent
          SIGN,      \* 1: both signs
          BASE
VARIABLES x, vm

Ops == CASE CLASS = "int" -> SetToSeq(I32Bin \cup I64Bin \cup I32Rel \cup I64Rel \cup I32Un \cup I64Un \cup Eqz)
         [] CLASS = "float" -> SetToSeq(F32Bin \cup F64Bin \cup F32Rel \cup F64Rel \cup F32Un \cup F64Un)
         [] OTHER -> SetToSeq(Cvt)
Chunk == 96
MLen(t) == IF t = "f32" THEN 23 ELSE 52
BiasT(t) == IF t = "f32" THEN 127 ELSE 1023
(* the exponents walked, in order; for floats the raw exponent field         *)
ELen(t) == CASE t = "i32" -> 33 [] t = "i64" -> 65 [] t = "f32" -> 60 [] OTHER -> 88
(* unary operators see an exponent's full set of patterns, others rotate     *)
RawE(t, e) ==
  IF t = "f32" THEN IF e < 54 THEN 127 - 4 + e ELSE Pick(<<0, 1, 253, 254, 100, 180>>, e)
  ELSE IF e < 74 THEN 1023 - 5 + e ELSE Pick(<<0, 1, 2, 2045, 2046, 896, 897, 1150, 1151, 500, 1500, 873, 874, 1022>>, e)
BitsOf(S, n) == [i \in 1..n |-> FoldLeft(LAMBDA acc, b : IF (8 * (i - 1) + b) \in S THEN acc + P2[b + 1] ELSE acc, 0, <<0, 1, 2, 3, 4, 5, 6, 7>>)]
RndBits(d, n) == [i \in 1..n |-> (d[((i - 1) % 8) + 3] \div (7 * i)) % 256]
(* mantissa pattern p at unbiased exponent E: relations to the units place    *)
Mant(t, E, p, d) ==
  LET M == MLen(t)  n == Size[t]  h == M - 1 - E  in(b) == IF b >= 0 /\ b < M THEN {b} ELSE {}
      mk(S) == BitsOf(S, n)
  IN CASE p = 0 -> mk({}) [] p = 1 -> mk({0}) [] p = 2 -> mk(0..(M - 1))
       [] p = 3 -> mk(in(h)) [] p = 4 -> mk(in(h) \cup {0}) [] p = 5 -> mk(in(h) \cup in(h + 1))
       [] p = 6 -> mk({b \in 0..(M - 1) : b < h}) [] p = 7 -> mk(in(h + 1)) [] p = 8 -> mk(in(h + 1) \cup {b \in 0..(M - 1) : b < h})
       [] p = 9 -> mk(in(h) \cup {b \in 0..(M - 1) : b > h + 1})
       [] p = 10 -> mk({b \in 0..(M - 1) : Bit(RndBits(d, n), b) = 1 /\ b >= M - 29})
       [] OTHER -> mk({b \in 0..(M - 1) : Bit(RndBits(d, n), b) = 1})
NPat == 12
MkFloat(t, neg, raw, m) ==
  IF t = "f32" THEN <<m[1], m[2], (m[3] % 128) + (128 * (raw % 2)), (raw \div 2) + (IF neg THEN 128 ELSE 0)>>
  ELSE [i \in 1..8 |-> IF i < 7 THEN m[i] ELSE IF i = 7 THEN (m[7] % 16) + (16 * (raw % 16)) ELSE (raw \div 16) + (IF neg THEN 128 ELSE 0)]
FloatAt(t, e, p, neg, d) == LET raw == RawE(t, e % ELen(t)) IN MkFloat(t, neg, raw, Mant(t, raw - BiasT(t), p, d))
FloatRaw(t, raw, p, neg, d) ==
  LET top == 2 * BiasT(t)  r == IF raw < 0 THEN 0 ELSE IF raw > top THEN top ELSE raw IN MkFloat(t, neg, r, Mant(t, r - BiasT(t), p, d))
RawOf(t, v) == IF t = "f32" THEN (2 * (v[4] % 128)) + (v[3] \div 128) ELSE (16 * (v[8] % 128)) + (v[7] \div 16)
(* an integer whose highest bit is bit e (e = width: zero) *)
IntAt(t, e, p, d) ==
  LET n == Size[t]  w == 8 * n  k == e % (w + 1)
  IN IF k = w THEN Zero(n)
     ELSE CASE p % 4 = 0 -> BitsOf({k}, n) [] p % 4 = 1 -> BitsOf({k, 0}, n) [] p % 4 = 2 -> BitsOf(0..k, n)
            [] OTHER -> BitsOf({k} \cup {b \in 0..(k - 1) : Bit(RndBits(d, n), b) = 1}, n)
Signed(v, d) == IF d % 3 = 0 THEN NegW(v) ELSE v
Neighbour(v, up) == IF up THEN Add(v, One(Len(v))) ELSE Sub(v, One(Len(v)))
(* the pair number k of operator o *)
Pair(o, k) ==
  LET ts == Sig[o][1]  t == ts[1]  s == x[1] * 131 + k
      d == Draw24(Seeded((s * 17) % 100000, BASE))[1]
      e == k % ELen(t)  q == k \div ELen(t)                \* exponent, and which of its pairs
      neg == IF SIGN = 1 THEN d[1] % 2 = 1 ELSE FALSE
  IN IF IsFloat(t)
     THEN LET a == FloatAt(t, e, IF Len(ts) = 1 THEN q % NPat ELSE d[2] % NPat, neg, d)
              ra == RawOf(t, a)  nb == d[12] % 2 = 0  pb == d[13] % NPat
              b == CASE q % 7 = 0 -> FloatRaw(t, ra + (d[14] % 3) - 1, pb, nb, Tail(d))
                     [] q % 7 = 1 -> FloatRaw(t, ra - (d[14] % (MLen(t) + 4)), pb, nb, Tail(d))
                     [] q % 7 = 2 -> Pick(EdgeV[t], d[14])
                     [] q % 7 = 3 -> IF d[15] % 3 = 0 THEN Neighbour(a, d[14] % 2 = 0) ELSE IF d[15] % 3 = 1 THEN [a EXCEPT ![Size[t]] = (@ + 128) % 256] ELSE a
                     [] q % 7 = 4 -> FloatAt(t, d[14], pb, nb, Tail(d))
                     [] q % 7 = 5 -> FloatRaw(t, Pick(<<BiasT(t) - ra, (3 * BiasT(t)) - ra, 2 + ra - BiasT(t), ra + BiasT(t)>>, d[14]) + (d[15] % 5) - 2, pb, nb, Tail(d))
                     [] OTHER -> Value(t \o ".convert_i32_s", <<FromInt(1 + (d[14] % 12), 4)>>)
          IN IF Len(ts) = 1 THEN <<a>> ELSE IF d[16] % 4 = 0 THEN <<b, a>> ELSE <<a, b>>
     ELSE LET n == Size[t]
              a0 == Signed(IntAt(t, e, q, d), d[1])
              small == FromNat(1 + (d[14] % 12), n)
              f1 == IntAt(t, e \div 2, 3, Tail(d))  f2 == IntAt(t, (e + 1) \div 2, d[15], SubSeq(d, 3, 24))
              m == Mul(f1, f2)
          IN IF Len(ts) = 1 THEN <<a0>>
             ELSE CASE q % 10 = 0 -> <<a0, small>> [] q % 10 = 1 -> <<a0, IntAt(t, d[14], d[15], Tail(d))>>
                    [] q % 10 = 2 -> <<a0, Neighbour(a0, d[14] % 2 = 0)>> [] q % 10 = 3 -> <<m, f1>>
                    [] q % 10 = 4 -> <<Neighbour(m, FALSE), f1>> [] q % 10 = 5 -> <<Neighbour(m, TRUE), Signed(f2, d[16])>>
                    [] q % 10 = 6 -> <<a0, One(n)>> [] q % 10 = 7 -> <<IntAt(t, d[14], d[15], Tail(d)), a0>>
                    [] q % 10 = 8 -> <<a0, NegW(small)>> [] OTHER -> <<a0, IF d[14] % 2 = 0 THEN NegW(a0) ELSE a0>>
Pad8(v) == v \o [i \in 1..(8 - Len(v)) |-> 0]
In0 == 4096
Out0 == 8192
(* the guest: a loop over the pairs, in one of three shapes *)
Guest(o, ps, form) ==
  LET ts == Sig[o][1]  rt == Sig[o][2]  n == Len(ps)  two == Len(ts) = 2
      la == <<<<"local.get", 0>>, <<LoadOpT(ts[1]), In0>>>>
      lb == IF two THEN <<<<"local.get", 0>>, <<LoadOpT(ts[2]), In0 + 8>>>> ELSE <<>>
      e == CASE form = 0 -> la \o lb \o <<<<o>>>>
             [] form = 1 -> la \o <<<<"local.set", 1>>>> \o lb \o (IF two THEN <<<<"local.set", 2>>>> ELSE <<>>) \o <<<<"local.get", 1>>>>
                            \o (IF two THEN <<<<"local.get", 2>>>> ELSE <<>>) \o <<<<o>>, <<"local.set", 3>>, <<"local.get", 3>>>>
             [] OTHER -> la \o lb \o <<<<"call", NImp>>>>
      body == <<<<"local.get", 0>>>> \o e \o <<<<StoreOpT(rt), Out0>>, <<"local.get", 0>>, I32(16), <<"i32.add">>, <<"local.tee", 0>>, I32(16 * n), <<"i32.lt_u">>, <<"br_if", 0>>>>
      f == Fn(<<ts, <<rt>>>>, <<>>, [i \in DOMAIN ts |-> <<"local.get", i - 1>>] \o <<<<o>>>>)
      main == Fn(<<<<>>, <<>>>>, <<"i32", ts[1], ts[Len(ts)], rt>>, <<<<"loop", <<<<>>, <<>>>>>>>> \o body \o <<<<"end">>>> \o DumpRange(Out0, 16 * n))
  IN [imps |-> Imps, isigs |-> ISigs, funcs |-> <<f, main>>, globals |-> <<>>, mem |-> <<1, -1>>, tables |-> <<>>, elems |-> <<>>,
      datas |-> <<[off |-> In0, b |-> FoldLeft(LAMBDA acc, i : acc \o Pad8(ps[i][1]) \o Pad8(ps[i][Len(ps[i])]), <<>>, [i \in 1..n |-> i])]>>,
      start |-> -1, main |-> NImp + 1, args |-> <<>>]
Good(o, s) == SelectSeq(s, LAMBDA p : ~Traps(o, p) /\ ~Opaque(o, p))
RECURSIVE RunOn(_, _, _)
RunOn(P, m, k) == IF m.s # "run" \/ k = 0 THEN m ELSE RunOn(P, Run(P, m, 500), k - 1)
Total(o) == LET t == Sig[o][1][1] IN IF Len(Sig[o][1]) = 1 THEN ELen(t) * (IF IsFloat(t) THEN NPat ELSE 4) ELSE ELen(t) * PER
Init == /\ vm = "none"
        /\ \E i \in DOMAIN Ops : \E c \in 0..((Total(Ops[i]) - 1) \div Chunk) : x = <<i, c>>
Next == /\ vm = "none" /\ UNCHANGED x
        /\ LET o == Ops[x[1]]
               n == IF Total(o) - (x[2] * Chunk) < Chunk THEN Total(o) - (x[2] * Chunk) ELSE Chunk
               ps == TLCEval(Good(o, TLCEval([k \in 1..n |-> Pair(o, (x[2] * Chunk) + k - 1)])))
           IN IF ps = <<>> THEN vm' = "empty"
              ELSE LET P == Guest(o, ps, (x[1] + x[2]) % 3) IN
                   \E r \in {RunOn(P, Boot(P), 40)} : /\ vm' = r.s
                                                      /\ PrintT(ToJson(Report("ladder", P, r) @@ [op |-> o, pairs |-> Len(ps)]))
Fine == vm \in {"none", "empty", "done"}
=============================================================================
