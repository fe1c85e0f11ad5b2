-------------------------------- MODULE Enc ---------------------------------
(***************************************************************************)
(* The binary format: Encoding(P, s) is one of the many byte sequences     *)
(* that mean the program record P.  The number s decides everything the    *)
(* format leaves open: how far each LEB128 number is padded, the order and *)
(* the repetition of types, the order of functions, globals and imports,   *)
(* how locals are cut into runs, which form each segment and block type    *)
(* takes, where custom sections lie.                                       *)
(***************************************************************************)
EXTENDS Prog

(* ---- choices: a number below n for decision k under s ---------------------*)
H(s, k, n) ==
  LET a == (((s % 20011) * 171) + ((k % 9973) * 1009) + 7) % 30269
      b == ((a * 172) + (k % 30011) + (s % 613)) % 30307
      c == ((b * 170) + a) % 30323
  IN (c + (b \div 7)) % n
Pw2 == [i \in 0..30 |-> 2 ^ i]
FlatE(ss) == FoldLeft(LAMBDA x, y : x \o y, <<>>, ss)
Ix(n) == [i \in 1..n |-> i]

(* ---- LEB128 -----------------------------------------------------------------*)
(* the least number of groups n needs *)
ULen(n) == IF n < 128 THEN 1 ELSE IF n < 16384 THEN 2 ELSE IF n < 2097152 THEN 3 ELSE IF n < 268435456 THEN 4 ELSE 5
ULebN(n, len) == [i \in 1..len |-> (IF i < 5 THEN (n \div Pw2[7 * (i - 1)]) % 128 ELSE n \div 268435456) + (IF i < len THEN 128 ELSE 0)]
(* u32; padded in about half of the places *)
U(n, s, k) == LET m == ULen(n)  p == H(s, k, 12)
              IN IF p < 6 /\ m = 1 THEN <<n>> ELSE ULebN(n, IF p < 6 THEN m ELSE IF p = 11 THEN 5 ELSE IF m + p - 5 > 5 THEN 5 ELSE m + p - 5)
EBit(b, j) == LET n == Len(b)  q == IF j >= 8 * n THEN 8 * n - 1 ELSE j IN (b[(q \div 8) + 1] \div Pw2[q % 8]) % 2
SLebN(b, len) == [i \in 1..len |-> FoldLeft(LAMBDA a, j : a + (EBit(b, 7 * (i - 1) + j) * Pw2[j]), 0, <<0, 1, 2, 3, 4, 5, 6>>) + (IF i < len THEN 128 ELSE 0)]
SLen(b) == LET max == ((8 * Len(b)) + 6) \div 7
               fits(len) == \A j \in (7 * len - 1)..(8 * Len(b) - 1) : EBit(b, j) = EBit(b, 8 * Len(b) - 1)
           IN CHOOSE len \in 1..max : fits(len) /\ \A l2 \in 1..(len - 1) : ~fits(l2)
Sg(b, s, k) == LET m == SLen(b)  max == ((8 * Len(b)) + 6) \div 7  p == H(s, k, 12)
              IN SLebN(b, IF p < 6 THEN m ELSE IF p = 11 THEN max ELSE IF m + p - 5 > max THEN max ELSE m + p - 5)
VecE(items, s, k) == U(Len(items), s, k) \o FlatE(items)
NameE(b, s, k) == U(Len(b), s, k) \o b

(* ---- codes --------------------------------------------------------------------*)
VCode == [t \in NumTypes \cup RefTypes |-> CASE t = "i32" -> 127 [] t = "i64" -> 126 [] t = "f32" -> 125 [] t = "f64" -> 124
                                             [] t = "funcref" -> 112 [] OTHER -> 111]
EBin == <<"add", "sub", "mul", "div_s", "div_u", "rem_s", "rem_u", "and", "or", "xor", "shl", "shr_s", "shr_u", "rotl", "rotr">>
ERel == <<"eqz", "eq", "ne", "lt_s", "lt_u", "gt_s", "gt_u", "le_s", "le_u", "ge_s", "ge_u">>
EFRel == <<"eq", "ne", "lt", "gt", "le", "ge">>
EFOps == <<"abs", "neg", "ceil", "floor", "trunc", "nearest", "sqrt", "add", "sub", "mul", "div", "min", "max", "copysign">>
Pre(t, ns) == [i \in DOMAIN ns |-> t \o ns[i]]
From69 ==                             \* the instructions from 0x45 on, in order
  Pre("i32.", ERel) \o Pre("i64.", ERel) \o Pre("f32.", EFRel) \o Pre("f64.", EFRel)
  \o <<"i32.clz", "i32.ctz", "i32.popcnt">> \o Pre("i32.", EBin) \o <<"i64.clz", "i64.ctz", "i64.popcnt">> \o Pre("i64.", EBin)
  \o Pre("f32.", EFOps) \o Pre("f64.", EFOps)
  \o <<"i32.wrap_i64", "i32.trunc_f32_s", "i32.trunc_f32_u", "i32.trunc_f64_s", "i32.trunc_f64_u", "i64.extend_i32_s",
       "i64.extend_i32_u", "i64.trunc_f32_s", "i64.trunc_f32_u", "i64.trunc_f64_s", "i64.trunc_f64_u",
       "f32.convert_i32_s", "f32.convert_i32_u", "f32.convert_i64_s", "f32.convert_i64_u", "f32.demote_f64",
       "f64.convert_i32_s", "f64.convert_i32_u", "f64.convert_i64_s", "f64.convert_i64_u", "f64.promote_f32",
       "i32.reinterpret_f32", "i64.reinterpret_f64", "f32.reinterpret_i32", "f64.reinterpret_i64",
       "i32.extend8_s", "i32.extend16_s", "i64.extend8_s", "i64.extend16_s", "i64.extend32_s">>
Sats == <<"i32.trunc_sat_f32_s", "i32.trunc_sat_f32_u", "i32.trunc_sat_f64_s", "i32.trunc_sat_f64_u",
          "i64.trunc_sat_f32_s", "i64.trunc_sat_f32_u", "i64.trunc_sat_f64_s", "i64.trunc_sat_f64_u">>
MemSeq == <<"i32.load", "i64.load", "f32.load", "f64.load", "i32.load8_s", "i32.load8_u", "i32.load16_s", "i32.load16_u",
            "i64.load8_s", "i64.load8_u", "i64.load16_s", "i64.load16_u", "i64.load32_s", "i64.load32_u",
            "i32.store", "i64.store", "f32.store", "f64.store", "i32.store8", "i32.store16", "i64.store8", "i64.store16", "i64.store32">>
At(seq, x) == CHOOSE i \in DOMAIN seq : seq[i] = x
Simple == [o \in Range(From69) |-> 68 + At(From69, o)]
SatCode == [o \in Range(Sats) |-> At(Sats, o) - 1]
MemCode == [o \in Range(MemSeq) |-> 39 + At(MemSeq, o)]

(* ---- what is renamed --------------------------------------------------------------*)
(* the signatures a program uses *)
BlockSigs(P) == UNION {UNION {IF P.funcs[f].code[i][1] \in {"block", "loop", "if", "call_indirect"} THEN {P.funcs[f].code[i][2]} ELSE {}
                                : i \in DOMAIN P.funcs[f].code} : f \in DOMAIN P.funcs}
AllSigs(P) == SetToSeq({P.funcs[f].sig : f \in DOMAIN P.funcs} \cup Range(P.isigs) \cup BlockSigs(P))
Rotated(seq, r) == [i \in DOMAIN seq |-> seq[((i + r) % Len(seq)) + 1]]
Odd == <<<<"f64", "externref">>, <<"i64">>>>       \* a type nobody uses
(* names: [types, fo: order of functions (0: filler), go: order of globals, io: order of imports] *)
Names(P, s) ==
  LET base == AllSigs(P)
      fill == Pick(<<0, 0, 1, 3, 0, 1, 2, 130>>, H(s, 1, 800))
      tys  == [i \in 1..Pick(<<0, 0, 1, 2, 0, 66, 140>>, H(s, 2, 700)) |-> Odd] \o Rotated(base, H(s, 3, 50)) \o Rotated(base, H(s, 4, 50))
      nf   == Len(P.funcs)
      fs   == Rotated(Ix(nf), H(s, 5, 40))
      fs2  == IF H(s, 6, 2) = 0 THEN Reverse(fs) ELSE fs
      cut  == H(s, 7, nf + 1)
      Void == <<<<>>, <<>>>>
      types == IF fill > 0 /\ Void \notin Range(base) THEN Append(tys, Void) ELSE tys
      fo == SubSeq(fs2, 1, cut) \o [i \in 1..fill |-> 0] \o SubSeq(fs2, cut + 1, nf)
  IN TLCEval([types |-> types, fo |-> fo,
      tix |-> [sig \in Range(types) |-> SelectSeq(Ix(Len(types)), LAMBDA i : types[i] = sig)],
      fix |-> [i \in 1..nf |-> IF i \in Range(SubSeq(fs2, 1, cut)) THEN At(fs2, i) ELSE At(fs2, i) + fill],
      go |-> IF Len(P.globals) = 0 THEN <<>> ELSE Rotated(Ix(Len(P.globals)), H(s, 8, 10)),
      io |-> Rotated(Ix(Len(P.imps)), H(s, 9, 4))])
TyIx(nm, sig, s, k) == Pick(nm.tix[sig], H(s, k + 5, 1000)) - 1
FnIx(P, nm, f) == LET n == Len(P.imps) IN IF f < n THEN At(nm.io, f + 1) - 1 ELSE IF f - n < Len(nm.fix) THEN n + nm.fix[f - n + 1] - 1 ELSE f + 200
GlIx(nm, g) == IF g < Len(nm.go) THEN At(nm.go, g + 1) - 1 ELSE g

(* ---- instructions ------------------------------------------------------------------*)
BlockE(nm, sig, s, k) ==
  IF sig[1] = <<>> /\ Len(sig[2]) <= 1 /\ H(s, k + 1, 3) > 0 THEN (IF sig[2] = <<>> THEN <<64>> ELSE <<VCode[sig[2][1]]>>)
  ELSE Sg(FromInt(TyIx(nm, sig, s, k), 4), s, k + 2)
InstrE(P, nm, ins, s, k) ==
  LET o == ins[1] IN
  CASE o \in DOMAIN Simple -> <<Simple[o]>>
    [] o \in DOMAIN SatCode -> <<252>> \o U(SatCode[o], s, k)
    [] o \in DOMAIN MemCode -> <<MemCode[o]>> \o U(H(s, k + 3, CASE Width[o] = 1 -> 1 [] Width[o] = 2 -> 2 [] Width[o] = 4 -> 3 [] OTHER -> 4), s, k) \o U(ins[2], s, k + 1)
    [] o = "i32.const" -> <<65>> \o Sg(ins[2], s, k)
    [] o = "i64.const" -> <<66>> \o Sg(ins[2], s, k)
    [] o = "f32.const" -> <<67>> \o ins[2]
    [] o = "f64.const" -> <<68>> \o ins[2]
    [] o = "unreachable" -> <<0>> [] o = "nop" -> <<1>>
    [] o = "block" -> <<2>> \o BlockE(nm, ins[2], s, k) [] o = "loop" -> <<3>> \o BlockE(nm, ins[2], s, k) [] o = "if" -> <<4>> \o BlockE(nm, ins[2], s, k)
    [] o = "else" -> <<5>> [] o = "end" -> <<11>>
    [] o = "br" -> <<12>> \o U(ins[2], s, k) [] o = "br_if" -> <<13>> \o U(ins[2], s, k)
    [] o = "br_table" -> <<14>> \o VecE([i \in DOMAIN ins[2] |-> U(ins[2][i], s, k + 2 + i)], s, k) \o U(ins[3], s, k + 1)
    [] o = "return" -> <<15>>
    [] o = "call" -> <<16>> \o U(FnIx(P, nm, ins[2]), s, k)
    [] o = "call_indirect" -> <<17>> \o U(TyIx(nm, ins[2], s, k), s, k + 1) \o U(ins[3], s, k + 2)
    [] o = "drop" -> <<26>>
    [] o = "select" -> <<27>>
    [] o = "select_t" -> <<28>> \o U(1, s, k) \o <<VCode[ins[2]]>>
    [] o = "local.get" -> <<32>> \o U(ins[2], s, k) [] o = "local.set" -> <<33>> \o U(ins[2], s, k) [] o = "local.tee" -> <<34>> \o U(ins[2], s, k)
    [] o = "global.get" -> <<35>> \o U(GlIx(nm, ins[2]), s, k) [] o = "global.set" -> <<36>> \o U(GlIx(nm, ins[2]), s, k)
    [] o = "table.get" -> <<37>> \o U(ins[2], s, k) [] o = "table.set" -> <<38>> \o U(ins[2], s, k)
    [] o = "memory.size" -> <<63, 0>> [] o = "memory.grow" -> <<64, 0>>
    [] o = "ref.null" -> <<208, VCode[ins[2]]>> [] o = "ref.is_null" -> <<209>>
    [] o = "memory.init" -> <<252>> \o U(8, s, k) \o U(ins[2], s, k + 1) \o <<0>>
    [] o = "data.drop" -> <<252>> \o U(9, s, k) \o U(ins[2], s, k + 1)
    [] o = "memory.copy" -> <<252>> \o U(10, s, k) \o <<0, 0>>
    [] o = "memory.fill" -> <<252>> \o U(11, s, k) \o <<0>>
    [] o = "table.fill" -> <<252>> \o U(17, s, k) \o U(ins[2], s, k + 1)
OffsetE(n, s, k) == <<65>> \o Sg(FromInt(n, 4), s, k) \o <<11>>
(* an if without else may as well have an empty one *)
BodyE(P, nm, f, s, k) ==
  LET lone == {f.lk[j][2] : j \in {j \in DOMAIN f.code : f.code[j][1] = "if" /\ f.lk[j][1] = 0}}
  IN FlatE([i \in DOMAIN f.code |-> (IF i \in lone /\ H(s, k + i, 2) = 0 THEN <<5>> ELSE <<>>) \o InstrE(P, nm, f.code[i], s, k + (7 * i))])

(* locals as runs of equal types; runs may be empty; unused locals may follow *)
RECURSIVE Runs(_, _, _)
Runs(ts, s, k) ==
  LET empty == IF H(s, k, 5) = 0 THEN <<<<0, Pick(<<"i64", "f32", "i32", "f64", "externref", "funcref">>, H(s, k + 1, 600))>>>> ELSE <<>>
  IN IF ts = <<>> THEN empty
     ELSE LET same == SelectSeq(Ix(Len(ts)), LAMBDA i : \A j \in 1..i : ts[j] = ts[1])
              n == 1 + H(s, k + 2, Len(same))
          IN empty \o <<<<n, ts[1]>>>> \o Runs(SubSeq(ts, n + 1, Len(ts)), s, k + 3)
Spare(s, k) == Pick(<<<<>>, <<>>, <<>>, <<<<1, "f64">>>>, <<<<130, "i32">>, <<2, "f32">>>>, <<<<3000, "i64">>>>, <<<<40000, "i32">>>>>>, H(s, k, 700))
FuncE(P, nm, i, s) ==
  LET k == 100 + (977 * i)
      body == IF i = 0 THEN <<0, 11>>
              ELSE LET f == P.funcs[i]  rs == Runs(f.loc, s, k) \o Spare(s, k + 50)
                   IN VecE([r \in DOMAIN rs |-> U(rs[r][1], s, k + r) \o <<VCode[rs[r][2]]>>], s, k + 51) \o BodyE(P, nm, f, s, k + 52) \o <<11>>
  IN U(Len(body), s, k + 53) \o body

(* ---- sections -------------------------------------------------------------------------*)
WasiName == <<119, 97, 115, 105, 95, 115, 110, 97, 112, 115, 104, 111, 116, 95, 112, 114, 101, 118, 105, 101, 119, 49>>
ImpName == [n \in {"fd_write", "sched_yield"} |-> IF n = "fd_write" THEN <<102, 100, 95, 119, 114, 105, 116, 101>>
                                                  ELSE <<115, 99, 104, 101, 100, 95, 121, 105, 101, 108, 100>>]
Customs == <<<<<<>>, <<>>>>, <<<<110, 97, 109, 101>>, <<255, 255, 255>>>>, <<<<110, 97, 109, 101>>, <<1, 4, 1, 0, 1, 102>>>>,
             <<<<120>>, [i \in 1..200 |-> i]>>, <<<<195, 169>>, <<0, 97, 115, 109, 1, 0, 0, 0>>>>, <<<<116, 97, 114, 103, 101, 116>>, <<11>>>>>>
CustomE(s, k) ==
  IF H(s, k, 3) > 0 THEN <<>>
  ELSE LET c == Pick(Customs, H(s, k + 1, 600))  b == NameE(c[1], s, k + 2) \o c[2] IN <<0>> \o U(Len(b), s, k + 3) \o b
SectionE(id, body, s, k) == <<id>> \o U(Len(body), s, k) \o body
(* the sections: [id, items, v]; v: the section is a vector (all but start and
   data count are); an empty section may be left out                            *)
Sec(id, items, v) == [id |-> id, items |-> items, v |-> v]
Maybe(id, items, s, k) == IF Len(items) = 0 /\ H(s, k, 2) = 0 THEN <<>> ELSE <<Sec(id, items, TRUE)>>
SecE(x, s, k) == SectionE(x.id, IF x.v THEN VecE(x.items, s, k + 1) ELSE FlatE(x.items), s, k + 2)
TypesE(ts, s, k) == VecE([i \in DOMAIN ts |-> <<VCode[ts[i]]>>], s, k)
LimitsE(min, max, s, k) == IF max < 0 THEN <<0>> \o U(min, s, k) ELSE <<1>> \o U(min, s, k) \o U(max, s, k + 1)
FnE == <<102>>   MemE == <<109, 101, 109, 111, 114, 121>>
Extras == <<<<103>>, <<102, 102>>, <<>>, <<70>>, <<195, 169, 32, 34>>>>
DataOps == {"memory.init", "data.drop"}
UsesData(P) == \E f \in DOMAIN P.funcs : \E i \in DOMAIN P.funcs[f].code : P.funcs[f].code[i][1] \in DataOps
Sections(P, s) ==
  LET nm == Names(P, s)
      nI == Len(P.imps)
      FillSig == <<<<>>, <<>>>>
      types == nm.types
      n2 == nm
      sec1 == [i \in DOMAIN types |-> <<96>> \o TypesE(types[i][1], s, 20 * i) \o TypesE(types[i][2], s, 20 * i + 9)]
      sec2 == [i \in 1..nI |-> NameE(WasiName, s, 40 + i) \o NameE(ImpName[P.imps[n2.io[i]]], s, 44 + i) \o <<0>> \o U(TyIx(n2, P.isigs[n2.io[i]], s, 48 + i), s, 52 + i)]
      sec3 == [i \in DOMAIN n2.fo |-> U(TyIx(n2, IF n2.fo[i] = 0 THEN FillSig ELSE P.funcs[n2.fo[i]].sig, s, 60 + i), s, 360 + i)]
      sec4 == [i \in DOMAIN P.tables |-> <<VCode[P.tables[i].t]>> \o LimitsE(P.tables[i].min, P.tables[i].max, s, 760 + 3 * i)]
      sec5 == IF P.mem[1] < 0 THEN <<>> ELSE <<LimitsE(P.mem[1], P.mem[2], s, 780)>>
      sec6 == [i \in DOMAIN P.globals |-> LET g == P.globals[n2.go[i]] IN <<VCode[g.t], 1>> \o InstrE(P, n2, C(g.t, g.init), s, 800 + i) \o <<11>>]
      ex1 == <<NameE(FnE, s, 820) \o <<0>> \o U(FnIx(P, n2, P.main), s, 821)>>
      ex2 == IF P.mem[1] < 0 THEN <<>> ELSE <<NameE(MemE, s, 822) \o <<2, 0>>>>
      ex3 == [i \in 1..H(s, 823, 4) |-> NameE(Extras[i], s, 823 + i) \o <<0>> \o U((H(s, 840 + i, 500)) % (nI + Len(n2.fo)), s, 830 + i)]
      exs == Rotated(ex1 \o ex2 \o ex3, H(s, 841, 10))
      sec8 == IF P.start < 0 THEN <<>> ELSE <<Sec(8, <<U(FnIx(P, n2, P.start), s, 850)>>, FALSE)>>
      elem(e, k) ==
        LET ix == [i \in DOMAIN e.fs |-> IF e.fs[i] < 0 THEN <<>> ELSE U(FnIx(P, n2, e.fs[i]), s, k + (i % 20))]
            ty == VCode[P.tables[e.tab + 1].t]
            xs == [i \in DOMAIN e.fs |-> IF e.fs[i] < 0 THEN <<208, ty, 11>> ELSE <<210>> \o ix[i] \o <<11>>]
            off == OffsetE(e.off, s, k + 20)
            \* null entries need the expression forms, other tables the forms with an index, externref the last one
            nulls == \E i \in DOMAIN e.fs : e.fs[i] < 0
            want == H(s, k, 4)
            form == IF ty # 112 THEN 3 ELSE IF e.tab > 0 THEN (IF nulls \/ want > 1 THEN 3 ELSE 1)
                    ELSE IF nulls /\ want < 2 THEN want + 2 ELSE want
        IN CASE form = 0 -> <<0>> \o off \o VecE(ix, s, k + 21)
             [] form = 1 -> <<2>> \o U(e.tab, s, k + 22) \o off \o <<0>> \o VecE(ix, s, k + 21)
             [] form = 2 -> <<4>> \o off \o VecE(xs, s, k + 21)
             [] OTHER -> <<6>> \o U(e.tab, s, k + 22) \o off \o <<ty>> \o VecE(xs, s, k + 21)
      declared == CASE H(s, 870, 5) = 0 -> <<<<3, 0>> \o VecE(<<U(FnIx(P, n2, nI), s, 871)>>, s, 872)>>
                    [] H(s, 870, 5) = 1 -> <<<<5, 112>> \o VecE(<<<<210>> \o U(FnIx(P, n2, nI), s, 871) \o <<11>>, <<208, 112, 11>>>>, s, 872)>>
                    [] OTHER -> <<>>
      sec9 == [i \in DOMAIN P.elems |-> elem(P.elems[i], 880 + 30 * i)] \o declared
      sec10 == [i \in DOMAIN n2.fo |-> FuncE(P, n2, n2.fo[i], s)]
      data(d, k) == IF d.off < 0 THEN <<1>> \o U(Len(d.b), s, k) \o d.b
                    ELSE IF H(s, k, 2) = 0 THEN <<0>> \o OffsetE(d.off, s, k + 1) \o U(Len(d.b), s, k + 2) \o d.b
                    ELSE <<2>> \o U(0, s, k + 3) \o OffsetE(d.off, s, k + 1) \o U(Len(d.b), s, k + 2) \o d.b
      sec11 == [i \in DOMAIN P.datas |-> data(P.datas[i], 1200 + 10 * i)]
      count == IF UsesData(P) \/ H(s, 1300, 2) = 0 THEN <<Sec(12, <<U(Len(P.datas), s, 1301)>>, FALSE)>> ELSE <<>>
  IN FlatE(<<Maybe(1, sec1, s, 1310), Maybe(2, sec2, s, 1320), Maybe(3, sec3, s, 1330), Maybe(4, sec4, s, 1340), Maybe(5, sec5, s, 1350),
             Maybe(6, sec6, s, 1360), Maybe(7, exs, s, 1370), sec8, Maybe(9, sec9, s, 1380), count, Maybe(10, sec10, s, 1390), Maybe(11, sec11, s, 1400)>>)
Magic == <<0, 97, 115, 109, 1, 0, 0, 0>>
Encoding(P, s) ==
  LET ss == Sections(P, s)
  IN Magic \o CustomE(s, 1410) \o FlatE([i \in DOMAIN ss |-> SecE(ss[i], s, 1410 + (10 * i)) \o CustomE(s, 1415 + (10 * i))])
=============================================================================
