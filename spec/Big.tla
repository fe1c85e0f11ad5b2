--------------------------------- MODULE Big ---------------------------------
(***************************************************************************)
(* Size does not change meaning.  Program schemas with counted repetition: *)
(* a plan is a module in which any list may say "these items, n times",    *)
(* with immediates that are affine in the repetition index.  For each      *)
(* schema the specification knows two things: the machine of WasmSem runs  *)
(* its expansion, and a formula predicts its result.  `Agree` checks for   *)
(* small n that the formula is what the machine computes; the formula then *)
(* decides the expansions of tens of thousands of items, operands, labels, *)
(* functions, segments, pages, which the machine is too slow to run.       *)
(***************************************************************************)
EXTENDS Prog

CONSTANTS KINDS, SIZES, SMALL, VARIANTS, SHARE, BASE
VARIABLES job, vm

(* ---- runs ---------------------------------------------------------------*)
R(n, of) == [n |-> n, of |-> of]
L(of) == R(1, of)
(* <<a, c, b, m>>: a * (inner index) + c * (outer index) + b, modulo m       *)
Aff(x, i, s) == LET v == (x[1] * i) + (x[2] * s) + x[3] IN IF x[4] = 0 THEN v ELSE v % x[4]
Upto(n) == [i \in 1..n |-> i]
Expand(runs, It(_, _)) ==
  FoldLeft(LAMBDA acc, r : FoldLeft(LAMBDA q, i : q \o [j \in DOMAIN r.of |-> It(r.of[j], i - 1)], acc, Upto(r.n)), <<>>, runs)
Types(runs) == Expand(runs, LAMBDA t, i : t)
RECURSIVE Pow2(_)
Pow2(j) == IF j = 0 THEN 1 ELSE 2 * Pow2(j - 1)
BitTypes(w, s) == [j \in 1..w |-> IF (s \div Pow2(j - 1)) % 2 = 0 THEN "i32" ELSE "i64"]
SigOf(q, s) == <<BitTypes(q.bits, s) \o Types(q.p), Types(q.r)>>
Q(p, r) == [p |-> p, r |-> r, bits |-> 0]
Num(t, v) == CASE t = "i32" -> FromInt(v, 4) [] t = "i64" -> FromInt(v, 8)
               [] t = "f32" -> Value("f32.convert_i32_s", <<FromInt(v, 4)>>)
               [] OTHER -> Value("f64.convert_i32_s", <<FromInt(v, 4)>>)
TypeOfConst == [o \in Consts |-> CHOOSE t \in NumTypes : ConstOp[t] = o]
Ins(x, i, s) ==
  CASE x[1] = "@" -> IF x[2] \in Consts THEN <<x[2], Num(TypeOfConst[x[2]], Aff(x[3], i, s))>> ELSE <<x[2], Aff(x[3], i, s)>>
    [] x[1] = "brt" -> <<"br_table", Expand(x[2], LAMBDA y, j : Aff(y, j, s)), x[3]>>
    [] x[1] = "blk" -> <<x[2], SigOf(x[3], 0)>>
    [] x[1] = "ci" -> <<"call_indirect", SigOf(x[2], Aff(x[3], i, s)), Aff(x[4], i, s)>>
    [] OTHER -> x
FnOf(f, s) == Fn(SigOf(f, s), Types(f.loc), Expand(f.code, LAMBDA x, i : Ins(x, i, s)))
SigByName(n) == IF n = "fd_write" THEN ISigs[1] ELSE ISigs[2]
ProgramOf(p) ==
  LET imps == Types(p.imps) IN
  [imps |-> imps, isigs |-> [i \in DOMAIN imps |-> SigByName(imps[i])],
   funcs |-> Expand(p.funcs, LAMBDA f, i : FnOf(f, i)),
   globals |-> Expand(p.globals, LAMBDA g, i : [t |-> g.t, init |-> Num(g.t, Aff(g.v, i, 0))]),
   mem |-> p.mem, tables |-> Types(p.tables),
   elems |-> Expand(p.elems, LAMBDA e, s : [tab |-> Aff(e.tab, 0, s), off |-> Aff(e.off, 0, s), fs |-> Expand(e.fs, LAMBDA x, i : Aff(x, i, s))]),
   datas |-> Expand(p.datas, LAMBDA e, s : [off |-> IF e.pass THEN -1 ELSE Aff(e.off, 0, s), b |-> Expand(e.b, LAMBDA x, i : Aff(x, i, s))]),
   start |-> p.start, main |-> p.main, args |-> <<>>, depth |-> 100000]

(* ---- common parts --------------------------------------------------------*)
H == 1048576
Mx(h, x) == ((h * 31) + x) % H
MixAll(h, n, f(_)) == FoldLeft(LAMBDA a, i : Mx(a, f(i - 1)), h, Upto(n))
MixSeq(h, xs) == FoldLeft(LAMBDA a, x : Mx(a, x), h, xs)
Fnc(p, r, loc, code) == [p |-> p, r |-> r, bits |-> 0, loc |-> loc, code |-> code]
I(v) == <<"@", "i32.const", <<0, 0, v, 0>>>>
G(i) == <<"local.get", i>>
MixFn == Fnc(<<L(<<"i32">>)>>, <<>>, <<>>, <<L(<<<<"global.get", 0>>, I(31), <<"i32.mul">>, G(0), <<"i32.add">>, I(H - 1), <<"i32.and">>, <<"global.set", 0>>>>)>>)
Acc == L(<<[t |-> "i32", v |-> <<0, 0, 0, 0>>]>>)
Out == L(<<<<"global.get", 0>>>>)
Blank == [imps |-> <<>>, funcs |-> <<>>, globals |-> <<Acc>>, mem |-> <<1, -1>>, tables |-> <<>>, elems |-> <<>>, datas |-> <<>>, start |-> -1, main |-> 0]
TakeI32 == Q(<<L(<<"i32">>)>>, <<L(<<"i32">>)>>)
GiveI32 == Q(<<>>, <<L(<<"i32">>)>>)
Main(loc, code) == Fnc(<<>>, <<L(<<"i32">>)>>, loc, Append(code, Out))
ToI(t) == CASE t = "i64" -> <<<<"i32.wrap_i64">>>> [] t = "f32" -> <<<<"i32.trunc_f32_s">>>> [] t = "f64" -> <<<<"i32.trunc_f64_s">>>>
            [] t = "funcref" -> <<<<"ref.is_null">>>> [] OTHER -> <<>>
Eat(t, mix) == ToI(t) \o <<<<"call", mix>>>>
Flat(xs) == FoldLeft(LAMBDA acc, x : acc \o x, <<>>, xs)
Rev(xs) == [i \in DOMAIN xs |-> xs[Len(xs) + 1 - i]]
All5 == <<"i32", "i64", "f64", "f32", "funcref">>
DrawTs(d) == LET k == 1 + (d[1] % 3) IN [j \in 1..k |-> Pick(All5, d[1 + j])]
NumTs(d) == LET k == 1 + (d[1] % 3) IN [j \in 1..k |-> Pick(SubSeq(All5, 1, 4), d[1 + j])]
Ref5 == [tables |-> <<L(<<[t |-> "funcref", min |-> 5, max |-> -1]>>)>>, elems |-> <<L(<<[tab |-> <<0, 0, 0, 0>>, off |-> <<0, 0, 1, 0>>, fs |-> <<R(2, <<<<0, 0, 0, 0>>>>)>>]>>)>>]
(* the value standing for item i of type t is 3i+7, or a table entry         *)
Make(t) == IF t = "funcref" THEN <<<<"@", "i32.const", <<1, 0, 0, 5>>>>, <<"table.get", 0>>>> ELSE <<<<"@", ConstOp[t], <<3, 0, 7, 0>>>>>>
Is(t, i) == IF t = "funcref" THEN IF i % 5 \in {1, 2} THEN 0 ELSE 1 ELSE (3 * i) + 7
Plan(over, want, may) == [plan |-> over @@ Blank, want |-> want, may |-> may, out |-> <<>>, hc |-> 0]
Over(n, k) == n * k > 65000
EachT(h, n, ts, f(_, _)) == FoldLeft(LAMBDA a, i : FoldLeft(LAMBDA b, j : Mx(b, f(ts[j], i - 1)), a, Upto(Len(ts))), h, Upto(n))
(* a loop over local c from 0 to n-1 *)
Loop(c, n, body) == <<I(0), <<"local.set", c>>, <<"loop", <<<<>>, <<>>>>>>>> \o body
                    \o <<G(c), I(1), <<"i32.add">>, <<"local.tee", c>>, I(n), <<"i32.lt_u">>, <<"br_if", 0>>, <<"end">>>>
Probes(n) == SelectSeq(<<0, 1, 2, 126, 127, 128, 129, 255, 256, 257, 4095, 16383, 16384, 32767, 32768, 65535, 65536, 65537, n - 2, n - 1>>, LAMBDA p : p >= 0 /\ p < n)

(* ---- the schemas ---------------------------------------------------------*)
(* n operands of each of some types pending at once, across a call           *)
Pend(n, d) ==
  LET ts == DrawTs(d)  k == Len(ts)
      pushed(t) == IF t = "funcref" \/ d[9] % 2 = 0 THEN Make(t)
                   ELSE CASE t = "i32" -> <<<<"@", "i32.const", <<3, 0, 2, 0>>>>, G(0), <<"i32.add">>>>
                          [] t = "i64" -> <<<<"@", "i32.const", <<3, 0, 7, 0>>>>, <<"i64.extend_i32_u">>>>
                          [] t = "f32" -> <<<<"@", "i32.const", <<3, 0, 7, 0>>>>, <<"f32.convert_i32_s">>>>
                          [] OTHER -> <<G(0), <<"f64.convert_i32_s">>, <<"@", "f64.const", <<3, 0, 2, 0>>>>, <<"f64.add">>>>
      code == <<L(<<I(5), <<"local.set", 0>>>>), R(n, Flat([j \in 1..k |-> pushed(ts[j])])), L(<<I(77), <<"call", 0>>>>),
                R(n, Flat([j \in 1..k |-> Eat(ts[k + 1 - j], 0)]))>>
  IN Plan([funcs |-> <<L(<<MixFn, Main(<<L(<<"i32">>)>>, code)>>)>>, main |-> 1] @@ Ref5,
          EachT(77, n, Rev(ts), LAMBDA t, i : Is(t, n - 1 - i)), Over(n, k))
(* n locals of each of some types, in frames that call each other            *)
Local(n, d) ==
  LET ts == DrawTs(d)  k == Len(ts)
      ps == Pick(<<<<"i32">>, <<"i64", "i32">>, <<"f64", "i32", "f32">>, <<"i32", "i64">>, <<"funcref", "f32", "i32", "i64">>>>, d[10])
      v == CHOOSE i \in DOMAIN ps : ps[i] = "i32"   np == Len(ps)
      pass(arg) == Flat([i \in 1..np |-> IF i = v THEN arg ELSE Make(ps[i])])
      at(op, j) == <<"@", op, <<k, 0, np + j - 1, 0>>>>
      eat == R(n, Flat([j \in 1..k |-> <<at("local.get", j)>> \o Eat(ts[j], 0)]))
      set == R(n, Flat([j \in 1..k |-> Make(ts[j]) \o (IF ts[j] = "i32" THEN <<G(v - 1), <<"i32.add">>>> ELSE <<>>)
                                       \o (IF d[8] % 2 = 0 THEN <<at("local.set", j)>> ELSE <<at("local.tee", j), <<"drop">>>>)]))
      g == Fnc(<<L(ps)>>, <<>>, <<R(n, ts)>>,
               <<eat, set, L(<<G(v - 1), <<"if", <<<<>>, <<>>>>>>>> \o pass(<<G(v - 1), I(1), <<"i32.sub">>>>) \o <<<<"call", 1>>, <<"end">>>>), eat>>)
      fresh(h) == EachT(h, n, ts, LAMBDA t, i : IF t = "funcref" THEN 1 ELSE 0)
      full(h, x) == EachT(h, n, ts, LAMBDA t, i : Is(t, i) + (IF t = "i32" THEN x ELSE 0))
  IN Plan([funcs |-> <<L(<<MixFn, g, Main(<<>>, <<L(pass(<<I(2)>>) \o <<<<"call", 1>>>>)>>)>>)>>, main |-> 2] @@ Ref5,
          full(full(full(fresh(fresh(fresh(0))), 0), 1), 2), (n * k) + np > 49990)
(* n values of each of some types through a call, a block, a branch          *)
Wide(n, d) ==
  LET ts == DrawTs(d)  k == Len(ts)  q == Q(<<>>, <<R(n, ts)>>)
      how == d[9] % 8
      q2 == Q(<<R(n, ts)>>, <<R(n, ts)>>)
      g == Fnc(<<R(n, ts)>>, <<R(n, Rev(ts))>>, <<>>, <<R(n * k, <<<<"@", "local.get", <<-1, 0, (n * k) - 1, 0>>>>>>)>>)
      push == R(n, Flat([j \in 1..k |-> Make(ts[j])]))
      eat == R(n, Flat([j \in 1..k |-> Eat(ts[k + 1 - j], 0)]))       \* last pushed first
      taken == R(n, Flat([j \in 1..k |-> Eat(ts[j], 0)]))             \* in order
      back == EachT(0, n, Rev(ts), LAMBDA t, i : Is(t, n - 1 - i))
      forth == EachT(0, n, ts, LAMBDA t, i : Is(t, i))
      end == <<"end">>
      code == CASE how = 0 -> <<push, L(<<<<"call", 1>>>>), taken>>
                [] how = 1 -> <<push, L(<<I(3), <<"ci", Q(<<R(n, ts)>>, <<R(n, Rev(ts))>>), <<0, 0, 0, 0>>, <<0, 0, 0, 0>>>>>>), taken>>
                [] how = 2 -> <<L(<<<<"blk", "block", q>>>>), push, L(<<<<"br", 0>>, end>>), eat>>
                [] how = 3 -> <<L(<<<<"blk", "block", q>>>>), push, L(<<I(1), <<"br_if", 0>>, <<"unreachable">>, end>>), eat>>
                [] how = 4 -> <<L(<<<<"blk", "block", q>>, <<"blk", "block", q>>>>), push, L(<<I(1), <<"br_table", <<0>>, 1>>, end, <<"unreachable">>, end>>), eat>>
                [] how = 5 -> <<push, L(<<I(3), <<"local.set", 0>>, <<"blk", "loop", q2>>, G(0), I(1), <<"i32.sub">>, <<"local.tee", 0>>, <<"br_if", 0>>, end>>), eat>>
                [] how = 6 -> <<push, L(<<I(1), <<"blk", "if", q2>>, <<"else">>, <<"unreachable">>, end>>), eat>>
                [] OTHER -> <<L(<<I(9), <<"drop">>, <<"blk", "block", q>>>>), push, L(<<I(0), <<"br_if", 0>>, end>>), eat>>
  IN Plan([funcs |-> <<L(<<MixFn, g, Main(<<L(<<"i32">>)>>, code)>>)>>, main |-> 2,
           tables |-> Ref5.tables,
           elems |-> Ref5.elems \o <<L(<<[tab |-> <<0, 0, 0, 0>>, off |-> <<0, 0, 3, 0>>, fs |-> <<L(<<<<0, 0, 1, 0>>>>)>>]>>)>>],
          IF how < 2 THEN EachT(0, n, ts, LAMBDA t, i : IF t = "funcref" /\ i % 5 = 3 THEN 0 ELSE Is(t, i))
          ELSE EachT(0, n, Rev(ts), LAMBDA t, i : IF t = "funcref" /\ (n - 1 - i) % 5 = 3 THEN 0 ELSE Is(t, n - 1 - i)), FALSE)
(* n pairs of nested structures, left by a branch over some of them          *)
Nest(n, d) ==
  LET rt == <<<<>>, <<"i32">>>>
      (* nested ifs are parsed in quadratic time *)
      pair == IF n > 2000 THEN Pick(<<<<"block", "loop">>, <<"block", "block">>>>, d[1]) ELSE Pick(<<<<"block", "loop">>, <<"block", "if">>, <<"if", "loop">>, <<"block", "block">>, <<"if", "block">>>>, d[1])
      open(o) == IF o = "if" THEN <<I(1), <<"if", rt>>>> ELSE <<<<o, rt>>>>
      close(o) == IF o = "if" THEN <<<<"else">>, I(0), <<"end">>>> ELSE <<<<"end">>>>
      out == Pick(<<0, 1, n \div 2, n - 1, n, 0, n, (2 * n) \div 3>>, d[2])
      depth == IF out = n THEN 2 * n ELSE (2 * out) + 1
      br == CASE d[3] % 4 = 0 -> <<<<"br", depth>>>> [] d[3] % 4 = 1 -> <<I(1), <<"br_if", depth>>>>
              [] d[3] % 4 = 2 -> <<I(d[4] % 5), <<"br_table", <<depth, depth, depth, depth>>, depth>>>>
              [] OTHER -> IF out = n THEN <<<<"return">>>> ELSE <<I(3), <<"br_table", <<>>, depth>>>>
      g == Fnc(<<>>, <<L(<<"i32">>)>>, <<>>,
               <<R(n, open(pair[1]) \o open(pair[2])), L(<<I(12345)>> \o br),
                 R(n, close(pair[2]) \o close(pair[1]) \o <<I(31), <<"i32.mul">>, <<"@", "i32.const", <<3, 0, 7, 0>>>>, <<"i32.add">>, I(H - 1), <<"i32.and">>>>)>>)
      v == FoldLeft(LAMBDA a, i : IF i <= out THEN a ELSE Mx(a, (3 * (i - 1)) + 7), 12345, Upto(n))
  IN Plan([funcs |-> <<L(<<MixFn, g, Main(<<>>, <<L(<<<<"call", 1>>, <<"call", 0>>>>)>>)>>)>>, main |-> 2], Mx(0, v), FALSE)
(* a br_table of n targets, at and around every border of its index          *)
BrTab(n, d) ==
  LET a == 1 + (d[1] % 4)  b == d[2] % 5  dflt == d[3] % 5  e == <<<<>>, <<>>>>
      inner == Flat([j \in 1..5 |-> <<<<"end">>, I(9 + j), <<"return">>>>])
      f == Fnc(<<L(<<"i32">>)>>, <<L(<<"i32">>)>>, <<>>,
               <<R(5, <<<<"block", e>>>>), L(<<G(0), <<"brt", <<R(n, <<<<a, 0, b, 5>>>>)>>, dflt>>>>), L(inner \o <<I(0)>>)>>)
      ix == <<0, 1, n - 1, n, n + 1, 65535, 65536, 65537, 65536 + n - 1, 131072, 255, 256, 32767, 32768, 16777216, 2147483647, (-2147483647) - 1, -1, -2, -n, -65536>>
      to(x) == IF x >= 0 /\ x < n THEN ((a * x) + b) % 5 ELSE dflt
  IN Plan([funcs |-> <<L(<<MixFn, f, Main(<<>>, <<L(Flat([j \in DOMAIN ix |-> <<IF ix[j] = (-2147483647) - 1 THEN <<"i32.const", MinS(4)>> ELSE I(ix[j]), <<"call", 1>>, <<"call", 0>>>>]))>>)>>)>>, main |-> 2],
          MixSeq(0, [j \in DOMAIN ix |-> 10 + to(ix[j])]), FALSE)
(* branches, arms and loop bodies n instructions long                        *)
Long(n, d) ==
  LET e == <<<<>>, <<>>>>
      arm(a, b) == R(n, <<<<"@", "i32.const", <<a, 0, b, 0>>>>, <<"call", 0>>>>)
      f == Fnc(<<L(<<"i32">>)>>, <<>>, <<L(<<"i32">>)>>,
               CASE d[1] % 3 = 0 -> <<L(<<G(0), <<"if", e>>>>), arm(3, 7), L(<<<<"else">>>>), arm(2, 5), L(<<<<"end">>>>)>>
                 [] d[1] % 3 = 1 -> <<L(<<<<"block", e>>, G(0), <<"br_if", 0>>>>), arm(2, 5), L(<<<<"return">>, <<"end">>>>), arm(3, 7)>>
                 [] OTHER -> <<L(<<<<"loop", e>>, <<"block", e>>, G(0), <<"i32.eqz">>, <<"br_if", 0>>>>), arm(3, 7),
                              L(<<I(0), <<"local.set", 0>>, <<"br", 1>>, <<"end">>, <<"end">>, G(1), <<"i32.eqz">>, <<"br_if", 0>>, <<"return">>>>), arm(2, 5)>>)
      a1(h) == MixAll(h, n, LAMBDA i : (3 * i) + 7)   a2(h) == MixAll(h, n, LAMBDA i : (2 * i) + 5)
      code == IF d[1] % 3 = 2 THEN L(<<I(1), <<"call", 1>>>>) ELSE L(<<I(1), <<"call", 1>>, I(0), <<"call", 1>>>>)
  IN IF d[1] % 3 = 2
     THEN LET f3 == [f EXCEPT !.code = <<L(<<<<"loop", e>>, <<"block", e>>, G(0), <<"i32.eqz">>, <<"br_if", 0>>>>), arm(3, 7),
                                         L(<<G(0), I(1), <<"i32.sub">>, <<"local.set", 0>>, <<"br", 1>>, <<"end">>, <<"end">>>>), arm(2, 5)>>]
          IN Plan([funcs |-> <<L(<<MixFn, f3, Main(<<>>, <<L(<<I(2), <<"call", 1>>>>)>>)>>)>>, main |-> 2], a2(a1(a1(0))), FALSE)
     ELSE Plan([funcs |-> <<L(<<MixFn, f, Main(<<>>, <<code>>)>>)>>, main |-> 2], a2(a1(0)), FALSE)
(* n structures one after another *)
Many(n, d) ==
  LET e == <<<<>>, <<>>>>
      m1 == 2 + (d[1] % 3)  m2 == 2 + (d[2] % 3)
      (* ifs are parsed in quadratic time *)
      arms == IF n <= 2000 THEN <<<<"@", "i32.const", <<1, 0, 0, m1>>>>, <<"if", e>>, I(11), <<"call", 0>>, <<"else">>, I(22), <<"call", 0>>, <<"end">>>>
              ELSE <<<<"block", <<<<>>, <<"i32">>>>>>, I(22), <<"@", "i32.const", <<1, 0, 0, m1>>>>, <<"i32.eqz">>, <<"br_if", 0>>, <<"drop">>, I(11), <<"end">>, <<"call", 0>>>>
      body == arms \o <<<<"block", e>>, <<"@", "i32.const", <<1, 0, 1, m2>>>>, <<"br_if", 0>>, <<"@", "i32.const", <<1, 0, 5, 0>>>>, <<"call", 0>>, <<"end">>,
                <<"loop", <<<<>>, <<"i32">>>>>>, I(3), <<"end">>, <<"drop">>>>
  IN Plan([funcs |-> <<L(<<MixFn, Main(<<>>, <<R(n, body)>>)>>)>>, main |-> 1],
          FoldLeft(LAMBDA a, j : LET i == j - 1  x == Mx(a, IF i % m1 = 0 THEN 22 ELSE 11) IN IF (i + 1) % m2 = 0 THEN Mx(x, i + 5) ELSE x, 0, Upto(n)), FALSE)
(* n functions, called directly and through a table that lists them backwards *)
Funcs(n, d) ==
  LET st == d[1] % 2 = 1
      f == Fnc(<<L(<<"i32">>)>>, <<L(<<"i32">>)>>, <<>>, <<L(<<G(0), <<"@", "i32.const", <<0, 3, 7, 0>>>>, <<"i32.add">>>>)>>)
      s == Fnc(<<>>, <<>>, <<>>, <<L(<<I(4321), <<"call", 0>>>>)>>)
      main == Main(<<L(<<"i32">>)>>,
                   <<R(n, <<<<"@", "i32.const", <<1, 0, 0, 7>>>>, <<"@", "call", <<1, 0, 1, 0>>>>, <<"call", 0>>>>),
                     L(Loop(0, n, <<G(0), G(0), I(1), <<"i32.add">>, <<"ci", TakeI32, <<0, 0, 0, 0>>, <<0, 0, 0, 0>>>>, <<"call", 0>>>>))>>)
      h1 == MixAll(IF st THEN 4321 ELSE 0, n, LAMBDA i : (i % 7) + (3 * i) + 7)
  IN Plan([funcs |-> <<L(<<MixFn>>), R(n, <<f>>), L(<<s, main>>)>>, main |-> n + 2, start |-> IF st THEN n + 1 ELSE -1,
           tables |-> <<L(<<[t |-> "funcref", min |-> n + 2, max |-> -1]>>)>>,
           elems |-> <<L(<<[tab |-> <<0, 0, 0, 0>>, off |-> <<0, 0, 1, 0>>, fs |-> <<R(n, <<<<-1, 0, n, 0>>>>)>>]>>)>>],
          MixAll(h1, n, LAMBDA i : i + (3 * (n - 1 - i)) + 7), FALSE)
(* n function types *)
TypesN(n, d) ==
  LET w == CHOOSE w \in 1..20 : Pow2(w) >= n /\ (w = 1 \/ Pow2(w - 1) < n)
      q == [p |-> <<>>, r |-> <<L(<<"i32">>)>>, bits |-> w]
      f == q @@ [loc |-> <<>>, code |-> <<L(<<<<"@", "i32.const", <<0, 3, 7, 0>>>>>>)>>]
      args(p) == [j \in 1..w |-> LET t == BitTypes(w, p)[j] IN <<"@", ConstOp[t], <<0, 0, j, 0>>>>]
      ps == Probes(n)
      ci(p, at) == args(p) \o <<I(at), <<"ci", q, <<0, 0, p, 0>>, <<0, 0, 0, 0>>>>, <<"call", 0>>>>
      bad == d[1] % 3 = 0 /\ n > 1
      wrong == LET p == Pick(ps, d[2]) IN ci(p, IF p = 0 THEN 1 ELSE IF p >= 65536 THEN p - 65536 ELSE p - 1)
  IN Plan([funcs |-> <<L(<<MixFn>>), R(n, <<f>>), L(<<Main(<<>>, <<L(Flat([j \in DOMAIN ps |-> args(ps[j]) \o <<<<"call", 1 + ps[j]>>, <<"call", 0>>>> \o ci(ps[j], ps[j])])),
                                                              L(IF bad THEN wrong ELSE <<>>)>>)>>)>>, main |-> n + 1,
           tables |-> <<L(<<[t |-> "funcref", min |-> n, max |-> -1]>>)>>,
           elems |-> <<L(<<[tab |-> <<0, 0, 0, 0>>, off |-> <<0, 0, 0, 0>>, fs |-> <<R(n, <<<<1, 0, 1, 0>>>>)>>]>>)>>],
          IF bad THEN -1 ELSE MixSeq(0, Flat([j \in DOMAIN ps |-> <<(3 * ps[j]) + 7, (3 * ps[j]) + 7>>])), FALSE)
(* n imports of one host function before another *)
Imports(n, d) ==
  LET mix == n + 1
      code == <<R(n, <<<<"@", "call", <<1, 0, 0, 0>>>>, <<"call", mix>>>>),
                L(<<I(1), I(0), I(1), I(8), <<"call", n>>, <<"call", mix>>, I(8), <<"i32.load", 0>>, <<"call", mix>>>>)>>
      b == <<16, 0, 0, 0, 4, 0, 0, 0, 9, 9, 9, 9, 0, 0, 0, 0, 66, 105, 103, 33>>
  IN [Plan([imps |-> <<R(n, <<"sched_yield">>), L(<<"fd_write">>)>>,
            funcs |-> <<L(<<MixFn, Main(<<>>, code)>>)>>, main |-> n + 2,
            datas |-> <<L(<<[pass |-> FALSE, off |-> <<0, 0, 0, 0>>, b |-> <<L([i \in DOMAIN b |-> <<0, 0, b[i], 0>>])>>]>>)>>],
           MixSeq(MixAll(0, n, LAMBDA i : 0), <<0, 4>>), FALSE)
        EXCEPT !.out = <<[b |-> <<66, 105, 103, 33>>]>>, !.hc = n + 1]
(* n globals of each of some types *)
GlobalsN(n, d) ==
  LET ts == NumTs(d)  k == Len(ts)
      at(op, j) == <<"@", op, <<k, 0, j, 0>>>>
      one(t) == <<"@", ConstOp[t], <<0, 0, 1, 0>>>>
      addT(t) == <<CASE t = "i32" -> "i32.add" [] t = "i64" -> "i64.add" [] t = "f32" -> "f32.add" [] OTHER -> "f64.add">>
      code == <<R(n, Flat([j \in 1..k |-> <<at("global.get", j)>> \o Eat(ts[j], 0)])),
                R(n, Flat([j \in 1..k |-> <<at("global.get", j), one(ts[j]), addT(ts[j]), at("global.set", j)>>])),
                R(n, Flat([j \in 1..k |-> <<<<"@", "global.get", <<-k, 0, (k * (n - 1)) + j, 0>>>>>> \o Eat(ts[j], 0)]))>>
  IN Plan([funcs |-> <<L(<<MixFn, Main(<<>>, code)>>)>>, main |-> 1,
           globals |-> <<Acc, R(n, [j \in 1..k |-> [t |-> ts[j], v |-> <<3, 0, 7, 0>>]])>>],
          EachT(EachT(0, n, ts, LAMBDA t, i : (3 * i) + 7), n, ts, LAMBDA t, i : (3 * (n - 1 - i)) + 8), FALSE)
(* n data segments *)
Datas(n, d) ==
  LET pass == d[1] % 2 = 0  bad == d[2] % 4 = 0
      by == <<<<0, 3, 7, 251>>, <<0, 5, 1, 241>>>>
      val(s) == (((3 * s) + 7) % 251) + (256 * (((5 * s) + 1) % 241))
      drops == R(n, <<<<"@", "data.drop", <<1, 0, 0, 0>>>>>>)
      gone(s) == <<I(0), I(0), I(IF bad THEN 1 ELSE 0), <<"memory.init", s>>>>      \* an active segment is dropped once applied
  IN IF pass
     THEN Plan([datas |-> <<R(n, <<[pass |-> TRUE, off |-> <<0, 0, 0, 0>>, b |-> <<L(by)>>]>>)>>,
                funcs |-> <<L(<<MixFn, Main(<<>>, <<R(n, <<I(40), I(0), I(2), <<"@", "memory.init", <<1, 0, 0, 0>>>>, I(40), <<"i32.load16_u", 0>>, <<"call", 0>>>>), drops,
                                                   L(IF bad THEN <<I(40), I(0), I(1), <<"memory.init", n - 1>>>> ELSE <<I(40), I(0), I(0), <<"memory.init", n - 1>>>>)>>)>>)>>, main |-> 1],
               IF bad THEN -1 ELSE MixAll(0, n, LAMBDA i : val(i)), FALSE)
     ELSE Plan([mem |-> <<((4 * n) \div 65536) + 1, -1>>,
                datas |-> <<R(n, <<[pass |-> FALSE, off |-> <<0, -4, 4 * (n - 1), 0>>, b |-> <<L(by)>>]>>)>>,
                funcs |-> <<L(<<MixFn, Main(<<L(<<"i32">>)>>, <<L(Loop(0, n, <<G(0), I(2), <<"i32.shl">>, <<"i32.load", 0>>, <<"call", 0>>>>) \o gone(d[4] % n))>>)>>)>>, main |-> 1],
               IF bad THEN -1 ELSE MixAll(0, n, LAMBDA i : val(n - 1 - i)), FALSE)
(* n passive segments, every q-th dropped, and their use a while later       *)
Drops(n, d) ==
  LET q == 1 + (d[1] % 3)  r == IF n = 1 THEN 0 ELSE (n - 1) % q      \* segment n-1 is among the dropped
      k == ((n - 1 - r) \div q) + 1
      kept == IF q = 1 THEN 0 ELSE k - 1                                \* segments q*i + r + 1, all below n
      how == d[2] % 3
      end == CASE how = 0 -> <<I(41), I(0), I(1), <<"memory.init", n - 1>>>>
               [] how = 1 -> <<I(41), I(0), I(1), <<"@", "memory.init", <<0, 0, (q * (d[3] % k)) + r, 0>>>>>>
               [] OTHER -> <<I(65536), I(0), I(0), <<"memory.init", n - 1>>>>
  IN Plan([datas |-> <<R(n, <<[pass |-> TRUE, off |-> <<0, 0, 0, 0>>, b |-> <<L(<<<<0, 3, 7, 251>>, <<0, 5, 1, 241>>>>)>>]>>)>>,
           funcs |-> <<L(<<MixFn, Main(<<L(<<"i32">>)>>, <<R(k, <<<<"@", "data.drop", <<q, 0, r, 0>>>>>>),
              L(Loop(0, 200, <<G(0), <<"call", 0>>>>)),
              R(kept, <<I(40), I(0), I(2), <<"@", "memory.init", <<q, 0, r + 1, 0>>>>, I(40), <<"i32.load16_u", 0>>, <<"call", 0>>>>),
              L(end)>>)>>)>>, main |-> 1],
          IF how < 2 THEN -1
          ELSE MixAll(MixAll(0, 200, LAMBDA i : i), kept, LAMBDA i : LET s == (q * i) + r + 1 IN (((3 * s) + 7) % 251) + (256 * (((5 * s) + 1) % 241))), FALSE)
(* a data segment of n bytes *)
BigData(n, d) ==
  LET b(i) == ((7 * i) + 3) % 251  how == d[1] % 3
      len == IF n < 8 THEN n ELSE 8
      pages == ((2 * n) \div 65536) + 2
      all == <<I(1024), I(0), I(n), <<"memory.init", 0>>>>
      look(a) == <<I(a), <<"i32.load8_u", 0>>, <<"call", 0>>>>
      tail == <<I(16), I(n - len), I(len), <<"memory.init", 0>>>> \o Flat([j \in 1..8 |-> look(15 + j)])
      gone == <<I(0), I(0), I(IF d[2] % 2 = 0 THEN 1 + (d[3] % n) ELSE 0), <<"memory.init", 0>>>>
      tailV == [j \in 1..8 |-> IF j <= len THEN b(n - len + j - 1) ELSE 0]
  IN IF how = 2
     THEN Plan([mem |-> <<pages, -1>>, datas |-> <<L(<<[pass |-> FALSE, off |-> <<0, 0, n, 0>>, b |-> <<R(n, <<<<7, 0, 3, 251>>>>)>>]>>)>>,
                funcs |-> <<L(<<MixFn, Main(<<>>, <<L(look(n) \o look((2 * n) - 1) \o look(2 * n) \o look(n - 1) \o look(n + (n \div 2)) \o gone)>>)>>)>>, main |-> 1],
               IF d[2] % 2 = 0 THEN -1 ELSE MixSeq(0, <<b(0), b(n - 1), 0, 0, b(n \div 2)>>), FALSE)
     ELSE Plan([mem |-> <<pages, -1>>, datas |-> <<L(<<[pass |-> TRUE, off |-> <<0, 0, 0, 0>>, b |-> <<R(n, <<<<7, 0, 3, 251>>>>)>>]>>)>>,
                funcs |-> <<L(<<MixFn, Main(<<>>, <<L(tail \o all \o look(1023) \o look(1024) \o look(1023 + n) \o look(1024 + n) \o look(1024 + (n \div 2))
                                                      \o (IF how = 1 THEN <<I(16), I(n - len + 1), I(len), <<"memory.init", 0>>>> ELSE <<I(16), I(n), I(0), <<"memory.init", 0>>>>))>>)>>)>>, main |-> 1],
               IF how = 1 THEN -1 ELSE MixSeq(0, tailV \o <<0, b(0), b(n - 1), 0, b(n \div 2)>>), FALSE)
(* n element segments *)
Elems(n, d) ==
  LET c(v) == Fnc(<<>>, <<L(<<"i32">>)>>, <<>>, <<L(<<I(v)>>)>>)
  IN Plan([funcs |-> <<L(<<c(11), c(22), c(33), MixFn, Main(<<L(<<"i32">>)>>, <<L(Loop(0, n, <<G(0), <<"ci", GiveI32, <<0, 0, 0, 0>>, <<0, 0, 0, 0>>>>, <<"call", 3>>>>))>>)>>)>>, main |-> 4,
           tables |-> <<L(<<[t |-> "funcref", min |-> n + 1, max |-> -1]>>)>>,
           elems |-> <<R(n, <<[tab |-> <<0, 0, 0, 0>>, off |-> <<0, 1, 0, 0>>, fs |-> <<L(<<<<0, 1, 0, 3>>, <<0, 0, 0, 0>>>>)>>]>>)>>],
          MixAll(0, n, LAMBDA i : 11 * (1 + (i % 3))), FALSE)
(* a table of n slots *)
Slots(n, d) ==
  LET m == n + 3  h == m \div 2  bad == d[1] % 3
      c(v) == Fnc(<<>>, <<L(<<"i32">>)>>, <<>>, <<L(<<I(v)>>)>>)
      look(a) == <<I(a), <<"table.get", 0>>, <<"ref.is_null">>, <<"call", 2>>>>
      callAt(a) == <<I(a), <<"ci", GiveI32, <<0, 0, 0, 0>>, <<0, 0, 0, 0>>>>, <<"call", 2>>>>
      code == look(m - 1) \o <<I(m - 1), I(1), <<"table.get", 0>>, <<"table.set", 0>>>> \o look(m - 1) \o callAt(m - 1)
              \o <<I(1), I(0), <<"table.get", 0>>, I(m - 1), <<"table.fill", 0>>>> \o callAt(m - 1) \o callAt(h)
              \o <<I(h), <<"ref.null", "funcref">>, I(m - h), <<"table.fill", 0>>>> \o look(h - 1) \o look(h) \o look(m - 1)
              \o (CASE bad = 0 -> <<I(m), <<"table.get", 0>>, <<"drop">>>> [] bad = 1 -> <<I(m), <<"ref.null", "funcref">>, I(0), <<"table.fill", 0>>>>
                    [] OTHER -> <<I(m - 1), <<"ref.null", "funcref">>, <<"table.set", 0>>>>)
  IN Plan([funcs |-> <<L(<<c(11), c(22), MixFn, Main(<<>>, <<L(code)>>)>>)>>, main |-> 3,
           tables |-> <<L(<<[t |-> "funcref", min |-> m, max |-> -1]>>)>>,
           elems |-> <<L(<<[tab |-> <<0, 0, 0, 0>>, off |-> <<0, 0, 0, 0>>, fs |-> <<L(<<<<0, 0, 0, 0>>, <<0, 0, 1, 0>>>>)>>]>>)>>],
          IF bad = 0 THEN -1 ELSE MixSeq(0, <<1, 0, 22, 11, 11, 0, 1, 1>>), FALSE)
(* n tables *)
TablesN(n, d) ==
  LET c(v) == Fnc(<<>>, <<L(<<"i32">>)>>, <<>>, <<L(<<I(v)>>)>>)
  IN Plan([funcs |-> <<L(<<c(11), c(22), c(33), MixFn, Main(<<>>, <<R(n, <<I(1), <<"ci", GiveI32, <<0, 0, 0, 0>>, <<1, 0, 0, 0>>>>, <<"call", 3>>>>),
                     R(n, <<I(0), I(1), <<"@", "table.get", <<-1, 0, n - 1, 0>>>>, <<"@", "table.set", <<-1, 0, n - 1, 0>>>>,
                            I(0), <<"ci", GiveI32, <<0, 0, 0, 0>>, <<1, 0, 0, 0>>>>, <<"drop">>>>)>>)>>)>>, main |-> 4,
           tables |-> <<R(n, <<[t |-> "funcref", min |-> 2, max |-> -1]>>)>>,
           elems |-> <<R(n, <<[tab |-> <<0, 1, 0, 0>>, off |-> <<0, 0, 0, 0>>, fs |-> <<L(<<<<0, 1, 1, 3>>, <<0, 1, 0, 3>>>>)>>]>>)>>],
          MixAll(0, n, LAMBDA i : 11 * (1 + (i % 3))), FALSE)
(* a memory of n pages *)
Pages(n, d) ==
  LET last(p) == (p * 65536) - 4
      put(a, v) == <<I(a), I(v), <<"i32.store", 0>>>>
      look(a) == <<I(a), <<"i32.load", 0>>, <<"call", 0>>>>
      size == <<<<"memory.size">>, <<"call", 0>>>>
      grow(k) == <<I(k), <<"memory.grow">>, <<"call", 0>>>>
      g == 1 + (d[1] % 3)
      code == put(0, 5) \o put(last(n), 1234) \o look(last(n)) \o look(0) \o size \o grow(g) \o size \o look(last(n)) \o look(last(n + g))
              \o put(last(n + g), 77) \o look(last(n + g)) \o look(n * 65536) \o grow(4 - g) \o grow(0) \o size \o look(last(n + g)) \o look(0)
  IN Plan([mem |-> <<n, n + 3>>, funcs |-> <<L(<<MixFn, Main(<<>>, <<L(code)>>)>>)>>, main |-> 1],
          MixSeq(0, <<1234, 5, n, n, n + g, 1234, 0, 77, 0, -1, n + g, n + g, 77, 5>>), FALSE)
(* a memory of n pages that is full, and its growth a while later: new pages are zero *)
Regrow(n, d) ==
  LET look(b) == <<G(0), I(252), <<"i32.mul">>, I(b), <<"i32.add">>, <<"i32.load", 0>>, <<"call", 0>>>>
      k == 1 + (d[1] % 3)
      all == IF n < 10 THEN 2000 ELSE n * 65536          \* (the machine's memory is a map)
      page(j) == <<I(1), <<"memory.grow">>, <<"call", 0>>>> \o Loop(0, 260, look((n + j) * 65536))
  IN Plan([mem |-> <<n, -1>>, funcs |-> <<L(<<MixFn, Main(<<L(<<"i32">>)>>,
             <<L(<<I((n * 65536) - all), I(171), I(all), <<"memory.fill">>>>),
               L(Loop(0, 200, <<G(0), <<"call", 0>>>>) \o Flat([j \in 1..k |-> page(j - 1)])
                 \o <<I((n * 65536) - 1), <<"i32.load8_u", 0>>, <<"call", 0>>>>)>>)>>)>>, main |-> 1],
          Mx(FoldLeft(LAMBDA h, j : MixAll(Mx(h, n + j - 1), 260, LAMBDA i : 0), MixAll(0, 200, LAMBDA i : i), Upto(k)), 171), FALSE)
(* every access at a constant offset of n *)
MOff(n, d) ==
  LET st == <<"i32.store", "i64.store", "f32.store", "f64.store", "i32.store8", "i32.store16", "i64.store8", "i64.store16", "i64.store32">>
      ld == <<"i32.load", "i64.load", "f32.load", "f64.load", "i32.load8_s", "i32.load8_u", "i32.load16_s", "i32.load16_u",
              "i64.load8_s", "i64.load8_u", "i64.load16_s", "i64.load16_u", "i64.load32_s", "i64.load32_u">>
      fits(s, l) == MemT[s] = MemT[l] /\ Width[s] = Width[l]
      pairs == Flat([i \in DOMAIN st |-> SelectSeq([j \in DOMAIN ld |-> <<i, j>>], LAMBDA x : fits(st[x[1]], ld[x[2]]))])
      b0 == d[1] % 3000
      base(v) == CASE d[2] % 3 = 0 -> <<I(v)>> [] d[2] % 3 = 1 -> <<I(v), <<"local.set", 0>>, G(0)>> [] OTHER -> <<G(1), I(v), <<"i32.add">>>>
      val(t, v) == IF d[3] % 2 = 0 \/ t # "i32" THEN <<<<"@", ConstOp[t], <<0, 0, v, 0>>>>>> ELSE <<G(1), I(v), <<"i32.add">>>>
      one(k) == LET s == st[pairs[k][1]]  l == ld[pairs[k][2]]  o == n + (16 * k)  t == MemT[s]
                IN base(b0) \o val(t, 60 + k) \o <<<<s, o>>>> \o base(b0) \o <<<<l, o>>>> \o Eat(t, 0)
                   \o base(b0 + o) \o <<<<l, 0>>>> \o Eat(t, 0) \o base(b0) \o <<<<l, o + 8>>>> \o Eat(t, 0)
                   \o base(b0 + o) \o val(t, 30 + k) \o <<<<s, 0>>>> \o base(b0) \o <<<<l, o>>>> \o Eat(t, 0)
  IN Plan([mem |-> <<((n + 8000) \div 65536) + 1, -1>>,
           funcs |-> <<L(<<MixFn, Main(<<L(<<"i32", "i32">>)>>, <<L(Flat([k \in DOMAIN pairs |-> one(k)]))>>)>>)>>, main |-> 1],
          MixSeq(0, Flat([k \in DOMAIN pairs |-> <<60 + k, 60 + k, 0, 30 + k>>])), FALSE)
(* n calls deep with m operands of each of some types pending in each        *)
Rec(n, d) ==
  LET ts == NumTs(d)  k == Len(ts)  m == 1 + (d[5] % (IF n > 20 THEN 300 ELSE 4))
      lift(t) == CASE t = "i32" -> <<G(0), <<"i32.add">>>> [] t = "i64" -> <<G(0), <<"i64.extend_i32_s">>, <<"i64.add">>>>
                   [] t = "f32" -> <<G(0), <<"f32.convert_i32_s">>, <<"f32.add">>>> [] OTHER -> <<G(0), <<"f64.convert_i32_s">>, <<"f64.add">>>>
      f == Fnc(<<L(<<"i32">>)>>, <<>>, <<>>,
               <<R(m, Flat([j \in 1..k |-> Make(ts[j]) \o lift(ts[j])])),
                 L(<<G(0), <<"if", <<<<>>, <<>>>>>>, G(0), I(1), <<"i32.sub">>, <<"call", 1>>, <<"end">>>>),
                 R(m, Flat([j \in 1..k |-> Eat(ts[k + 1 - j], 0)]))>>)
  IN Plan([funcs |-> <<L(<<MixFn, f, Main(<<>>, <<L(<<I(n), <<"call", 1>>>>)>>)>>)>>, main |-> 2],
          FoldLeft(LAMBDA a, v : EachT(a, m, ts, LAMBDA t, i : (3 * (m - 1 - i)) + 7 + (v - 1)), 0, Upto(n + 1)), FALSE)
(* n rounds of a loop, which is inside other constructs, with operands waiting *)
Rounds(n, d) ==
  LET e == <<<<>>, <<>>>>
      w == IF d[4] % 3 = 0 THEN 0 ELSE 1 + (d[5] % 24)
      how == d[6] % 4
      mix == IF d[7] % 2 = 0 THEN <<G(0), <<"call", 0>>>>
             ELSE <<<<"global.get", 0>>, I(31), <<"i32.mul">>, G(0), <<"i32.add">>, I(H - 1), <<"i32.and">>, <<"global.set", 0>>>>
      open == CASE how = 0 -> <<<<"block", e>>>> [] how = 1 -> <<<<"loop", e>>>> [] how = 2 -> <<I(1), <<"if", e>>>> [] OTHER -> <<I(9), <<"block", e>>>>
      close == IF how = 3 THEN <<<<"end">>, <<"drop">>>> ELSE <<<<"end">>>>
      body == CASE d[1] % 2 = 0 -> Loop(0, n, mix)
                [] OTHER -> <<<<"block", e>>, <<"loop", e>>, G(0), I(n), <<"i32.eq">>, <<"br_if", 1>>>> \o mix \o <<
                              G(0), I(1), <<"i32.add">>, <<"local.set", 0>>, <<"br", 0>>, <<"end">>, <<"end">>>>
  IN Plan([funcs |-> <<L(<<MixFn, Main(<<L(<<"i32">>)>>, <<R(w, open), L(body), R(w, close)>>)>>)>>, main |-> 1],
          MixAll(0, n, LAMBDA i : i), FALSE)
(* n exported functions, one of them called by name; or a name n bytes long  *)
Exports(n, d) ==
  LET f == Fnc(<<>>, <<L(<<"i32">>)>>, <<>>, <<L(<<<<"@", "i32.const", <<0, 3, 7, 0>>>>>>)>>)
      p == Pick(Probes(n), d[1])
  IN [Plan([funcs |-> <<R(n, <<f>>)>>, main |-> p], (3 * p) + 7, FALSE) EXCEPT !.plan = @ @@ [exports |-> n, invoke |-> p, long |-> d[2] % 3 = 0]]
(* custom sections *)
Customs(n, d) ==
  LET p == Many(2, d) IN [p EXCEPT !.plan = @ @@ [customs |-> n, custom |-> d[5] % 400]]
(* memory filled and copied n bytes at a time *)
Fill(n, d) ==
  LET m == n + 3  h == 1 + (m \div 2)  a == 100 + (d[1] % 900)
      up == d[2] % 2 = 0
      put(x, v) == <<I(x), I(v), <<"i32.store8", 0>>>>
      look(x) == <<I(x), <<"i32.load8_u", 0>>, <<"call", 0>>>>
      (* fill [a, a+m) with 171, mark its ends, move it by h up (or from a+h down to a) *)
      from == IF up THEN a ELSE a + h   to == IF up THEN a + h ELSE a
      code == <<I(from), I(171), I(m), <<"memory.fill">>>> \o look(from - 1) \o look(from) \o look(from + m - 1) \o look(from + m)
              \o put(from, 1) \o put(from + m - 1, 2) \o <<I(to), I(from), I(m), <<"memory.copy">>>>
              \o look(to - 1) \o look(to) \o look(to + 1) \o look(to + m - 1) \o look(to + m - 2) \o look(to + m)
      (* what is at x after the move *)
      old(x) == IF x < from \/ x >= from + m THEN 0 ELSE IF x = from THEN 1 ELSE IF x = from + m - 1 THEN 2 ELSE 171
      new(x) == IF x >= to /\ x < to + m THEN old(x - to + from) ELSE old(x)
  IN Plan([mem |-> <<((2 * m) \div 65536) + 2, -1>>, funcs |-> <<L(<<MixFn, Main(<<>>, <<L(code)>>)>>)>>, main |-> 1],
          MixSeq(0, <<0, 171, 171, 0, new(to - 1), new(to), new(to + 1), new(to + m - 1), new(to + m - 2), new(to + m)>>), FALSE)

Most == [pend |-> 100000, local |-> 60000, wide |-> 333, nest |-> 50000, brtab |-> 130000, long |-> 70000, many |-> 2000,
        funcs |-> 70000, types |-> 70000, imports |-> 70000, globals |-> 33000, datas |-> 70000, bigdata |-> 300000, elems |-> 70000,
        slots |-> 300000, tables |-> 100, pages |-> 4100, moff |-> 67200000, rec |-> 1000, rounds |-> 300000, exports |-> 70000,
        customs |-> 70000, fill |-> 17000000, drops |-> 70000, regrow |-> 300]
Least == [o \in DOMAIN Most |-> IF o = "bigdata" THEN 4 ELSE 1]
Of(kind, n, d) ==
  CASE kind = "pend" -> Pend(n, d) [] kind = "local" -> Local(n, d) [] kind = "wide" -> Wide(n, d) [] kind = "nest" -> Nest(n, d)
    [] kind = "brtab" -> BrTab(n, d) [] kind = "long" -> Long(n, d) [] kind = "many" -> Many(n, d) [] kind = "funcs" -> Funcs(n, d)
    [] kind = "types" -> TypesN(n, d) [] kind = "imports" -> Imports(n, d) [] kind = "globals" -> GlobalsN(n, d) [] kind = "datas" -> Datas(n, d)
    [] kind = "bigdata" -> BigData(n, d) [] kind = "elems" -> Elems(n, d) [] kind = "slots" -> Slots(n, d) [] kind = "tables" -> TablesN(n, d)
    [] kind = "pages" -> Pages(n, d) [] kind = "moff" -> MOff(n, d) [] kind = "rec" -> Rec(n, d) [] kind = "rounds" -> Rounds(n, d)
    [] kind = "exports" -> Exports(n, d) [] kind = "customs" -> Customs(n, d) [] kind = "drops" -> Drops(n, d) [] kind = "regrow" -> Regrow(n, d) [] OTHER -> Fill(n, d)

KindSeq == <<"pend", "local", "wide", "nest", "brtab", "long", "many", "funcs", "types", "imports", "globals", "datas", "bigdata", "elems",
             "slots", "tables", "pages", "moff", "rec", "rounds", "exports", "customs", "fill", "drops", "regrow">>
KindNo(kind) == CHOOSE i \in DOMAIN KindSeq : KindSeq[i] = kind
D(j) == Draw24(Seeded((KindNo(j[1]) * 977) + (j[2] % 7919) + (j[3] * 131), BASE))[1]
(* what the machine makes of a plan *)
RECURSIVE RunOn(_, _, _)
RunOn(P, m, j) == IF m.s # "run" \/ j = 0 THEN m ELSE RunOn(P, Run(P, m, 4000), j - 1)
Computed(p) == LET P == ProgramOf(p) IN RunOn(P, Boot(P), 100)
Same(m, r) == IF r.want = -1 THEN m.s = "trap"
              ELSE /\ m.s = "done" /\ m.res = <<FromInt(r.want, 4)>> /\ (r.hc > 0 => m.hc = r.hc)
                   /\ [i \in DOMAIN m.out |-> m.out[i].b] = [i \in DOMAIN r.out |-> r.out[i].b]
Init == /\ job \in {j \in KINDS \X (SMALL \cup SIZES) \X (1..VARIANTS) :
                      /\ j[2] >= Least[j[1]] /\ j[2] <= Most[j[1]]
                      /\ (j[2] \in SMALL \/ (((j[2] % 1009) * 7) + (j[3] * 13) + KindNo(j[1]) + BASE) % SHARE = 0)}
        /\ vm = "none"
Next == /\ vm = "none" /\ UNCHANGED job
        /\ \E r \in {Of(job[1], job[2], D(job))} :
             /\ vm' = IF job[2] \in SMALL THEN IF Same(Computed(r.plan), r) THEN "same" ELSE "other" ELSE "predicted"
             /\ PrintT(ToJson([kind |-> job[1], n |-> job[2], v |-> job[3], plan |-> r.plan, want |-> r.want, may |-> r.may, out |-> r.out, hc |-> r.hc]))
Agree == vm # "other"
=============================================================================
