-------------------------------- MODULE Cli ---------------------------------
(***************************************************************************)
(* The command line: which function runs, with which values, what is       *)
(* reported; and what happens to requests and modules that make no sense.  *)
(* Every record is one command: the module, the arguments, and either what *)
(* the guest must write and what must be reported, or a refusal: a failure *)
(* is reported and the guest has no effect.                                *)
(***************************************************************************)
EXTENDS Enc, Decimal

CONSTANTS COUNT, BASE, KIND
VARIABLES rec, done

Dr(j) == LET a == Draw24(Seeded(rec * 8 + j, BASE)) IN <<a[1], Draw24(a[2])[1]>>

(* ---- values and texts that denote them ------------------------------------------*)
Signed(neg, t) == IF neg THEN <<45>> \o t ELSE t
IntText(v, x) == LET t == Ch(IntDigits(Abs(v)))
                     z == Zs(x % 3) \o t
                 IN IF Neg(v) THEN <<45>> \o z ELSE CASE x % 5 = 0 -> <<43>> \o z [] x % 11 = 0 /\ IsZero(v) -> <<45>> \o z [] OTHER -> z
(* texts that are no value of the type *)
Beyond(n, x) ==
  LET up == ExtU(MinS(n), n + 1) IN
  CASE x % 8 = 0 -> Ch(IntDigits(BAdd(up, FromNat(x % 3, 2))))                      \* 2^(N-1) and a little
    [] x % 8 = 1 -> <<45>> \o Ch(IntDigits(BAdd(up, FromNat(1 + (x % 3), 2))))
    [] x % 8 = 2 -> Ch(IntDigits(Append(Zero(n), 1 + (x % 4))))                     \* multiples of 2^N
    [] x % 8 = 3 -> Ch(IntDigits(Ones(n)))                                          \* unsigned -1
    [] x % 8 = 4 -> <<>> [] x % 8 = 5 -> <<49, 46, 53>> [] x % 8 = 6 -> <<48, 120, 49>> [] OTHER -> <<97>>
FSpecial(n, x) ==           \* <<text, value>>
  LET inf == <<105, 110, 102>>  nan == <<78, 97, 78>>
      far == <<49, 101, 52, 48, 48>>   tiny == <<49, 101, 45, 52, 48, 48>>          \* 1e400 1e-400
  IN Pick(<<<<inf, InfF(n, FALSE)>>, <<<<45>> \o inf, InfF(n, TRUE)>>, <<nan, NaN(n)>>, <<far, InfF(n, FALSE)>>, <<<<45>> \o far, InfF(n, TRUE)>>,
            <<tiny, ZeroF(n, FALSE)>>, <<<<45>> \o tiny, ZeroF(n, TRUE)>>, <<<<45, 48>>, ZeroF(n, TRUE)>>, <<<<48>>, ZeroF(n, FALSE)>>,
            <<<<45, 48, 46, 48>>, ZeroF(n, TRUE)>>, <<<<49, 46>>, IF n = 4 THEN <<0, 0, 128, 63>> ELSE <<0, 0, 0, 0, 0, 0, 240, 63>>>>,
            <<<<46, 53>>, IF n = 4 THEN <<0, 0, 0, 63>> ELSE <<0, 0, 0, 0, 0, 0, 224, 63>>>>>>, x)
Finite(a) == ~IsNaN(a) /\ ~IsInf(a)
FCase(a0, x, y) ==          \* a0 a finite float
  LET n == Len(a0)  neg == Sgn(a0)  a == WithSign(a0, FALSE)  nx == Next1(a)  j == 1 + (y % 14)
      v(b) == WithSign(b, neg)
  IN CASE x % 6 = 0 -> <<Signed(neg, TextOf(ExactDec(a), y)), v(a)>>
       [] x % 6 = 1 -> <<Signed(neg, TextOf(MidDec(a), y)), v(IF EvenF(a) THEN a ELSE nx)>>
       [] x % 6 = 2 -> <<Signed(neg, TextOf(Above(MidDec(a), j), y)), v(nx)>>
       [] x % 6 = 3 -> <<Signed(neg, TextOf(Below(MidDec(a), j), y)), v(a)>>
       [] x % 6 = 4 /\ ~IsZero(a) -> <<Signed(neg, TextOf(Above(MidDec(Prev1(a)), j), y)), v(a)>>
       [] OTHER -> <<Signed(neg, TextOf(Above(ExactDec(a), j), y)), v(a)>>
(* exponents of all sizes, the extremes seldom (they are long) *)
SomeFloat(n, p, q, r) ==
  LET e == IF n = 4 THEN F32V \o F32B ELSE F64V \o F64B
      b == [i \in 1..n |-> ((IF i % 2 = 0 THEN p ELSE q) \div (1 + (i * i))) % 256]
      mild == IF n = 4 THEN b ELSE [b EXCEPT ![8] = (IF r % 2 = 0 THEN 61 ELSE 189) + ((r \div 2) % 6)]
      c == IF r % 3 = 0 THEN Pick(e, p) ELSE IF r % 13 = 0 THEN b ELSE mild
  IN IF Finite(c) THEN c ELSE mild
ParamCase(t, p, q, r) ==    \* <<text, value>>
  CASE t = "i32" -> LET v == IF r % 2 = 0 THEN Pick(I32V, p) ELSE Arb("i32", p, q) IN <<IntText(v, q), v>>
    [] t = "i64" -> LET v == IF r % 2 = 0 THEN Pick(I64V, p) ELSE Arb("i64", p, q) IN <<IntText(v, q), v>>
    [] OTHER -> IF r % 10 = 0 THEN FSpecial(Size[t], p)
                ELSE LET f == SomeFloat(Size[t], p, q, r) IN IF Finite(f) THEN FCase(f, p \div 7, q) ELSE FSpecial(Size[t], p)
Tag == [t \in NumTypes |-> CASE t = "i32" -> <<73, 51, 50>> [] t = "i64" -> <<73, 54, 52>> [] t = "f32" -> <<70, 51, 50>> [] OTHER -> <<70, 54, 52>>]
Given(t, text) == Tag[t] \o <<40>> \o text \o <<41>>

(* ---- what may be printed for a result --------------------------------------------
   integers: this text; floats: a decimal between lo and hi, ends included if incl   *)
Shown(t, v) ==
  CASE t \in {"i32", "i64"} -> [t |-> t, text |-> IF Neg(v) THEN <<45>> \o Ch(IntDigits(Abs(v))) ELSE Ch(IntDigits(v))]
    [] IsNaN(v) -> [t |-> t, text |-> <<78, 97, 78>>]
    [] IsInf(v) -> [t |-> t, text |-> Signed(Sgn(v), <<105, 110, 102>>)]
    [] IsZeroF(v) -> [t |-> t, text |-> Signed(Sgn(v), <<48, 46, 48>>)]
    [] OTHER -> LET a == WithSign(v, FALSE) IN [t |-> t, neg |-> Sgn(v), lo |-> MidDec(Prev1(a)), hi |-> MidDec(a), incl |-> EvenF(a)]

(* ---- the modules ---------------------------------------------------------------------*)
Dump(c) == <<I32(300), I32(c), <<"i32.store8", 0>>>> \o DumpRange(300, 1)         \* writes one character
Mod(fs, ds) == [imps |-> Imps, isigs |-> ISigs, funcs |-> fs, globals |-> <<[t |-> "i32", init |-> Zero(4)]>>, mem |-> <<1, 2>>,
                tables |-> <<[t |-> "funcref", min |-> 2, max |-> -1]>>, elems |-> <<[tab |-> 0, off |-> 0, fs |-> <<NImp>>]>>,
                datas |-> ds, start |-> -1, main |-> NImp, args |-> <<>>]

(* parameters: the function writes them out and returns one of them *)
ParamProg(ts, ret, starts) ==
  LET stores == FlatE([i \in DOMAIN ts |-> <<I32(248 + (8 * i)), <<"local.get", i - 1>>, <<StoreOpT(ts[i]), 0>>>>])
      code == Dump(65) \o stores \o DumpRange(256, 8 * Len(ts)) \o (IF ret = 0 THEN <<>> ELSE <<<<"local.get", ret - 1>>>>)
  IN [Mod(<<Fn(<<ts, IF ret = 0 THEN <<>> ELSE <<ts[ret]>>>>, <<>>, code), Fn(<<<<>>, <<>>>>, <<>>, Dump(83))>>, <<>>) EXCEPT !.start = IF starts THEN NImp + 1 ELSE -1]
Fill8(v) == [i \in 1..8 |-> IF i <= Len(v) THEN v[i] ELSE 0]
NTypes == <<"i32", "i64", "f32", "f64", "f32", "f64">>
Param ==
  LET d == Dr(0)[1]  e == Dr(0)[2]
      n == d[1] % 5
      ts == [i \in 1..n |-> Pick(NTypes, d[i + 1])]
      ps == [i \in 1..n |-> ParamCase(ts[i], d[i + 6], e[i], e[i + 6])]
      ret == IF n = 0 THEN 0 ELSE d[20] % (n + 1)
      starts == d[21] % 3 = 0
      wrong == d[22] % 5                     \* sometimes the request is not meaningful
      k == IF n = 0 THEN 0 ELSE 1 + (d[23] % n)
      other == CHOOSE t \in NumTypes : n > 0 => t # ts[k]
      good == [i \in 1..n |-> Given(ts[i], ps[i][1])]
      given == CASE wrong = 0 /\ n > 0 /\ d[24] % 3 = 0 -> SubSeq(good, 1, n - 1)
                 [] wrong = 0 /\ d[24] % 3 = 1 -> Append(good, Given("i32", <<49>>))
                 [] wrong = 0 /\ n > 0 -> [good EXCEPT ![k] = Given(other, <<49>>)]
                 [] wrong = 1 /\ n > 0 /\ ts[k] \in {"i32", "i64"} -> [good EXCEPT ![k] = Given(ts[k], Beyond(Size[ts[k]], e[20]))]
                 [] OTHER -> good
      ok == given = good
  IN [kind |-> "param", fail |-> ~ok, name |-> FnE, invoke |-> e[21] % 4, params |-> given, pass |-> e[22] % 4,
      prog |-> ParamProg(ts, ret, starts), 
      out |-> IF ~ok THEN <<>> ELSE (IF starts THEN <<83>> ELSE <<>>) \o <<65>> \o FlatE([i \in 1..n |-> Fill8(ps[i][2])]),
      shown |-> IF ok /\ ret > 0 THEN <<Shown(ts[ret], ps[ret][2])>> ELSE <<>>]

(* exports: several functions under several names, and other things under names *)
XNames == <<<<102>>, <<103>>, <<70>>, <<102, 102>>, <<>>, <<95, 115, 116, 97, 114, 116>>, <<195, 169>>, <<102, 32>>, <<32, 102>>, <<34>>, <<44>>, <<120, 61, 121>>,
            <<109, 97, 105, 110>>, <<45, 45, 120>>, <<102, 0, 103>>, [i \in 1..150 |-> 97 + (i % 7)]>>
Export ==
  LET d == Dr(1)[1]  e == Dr(1)[2]
      names == [i \in 1..(3 + (d[1] % 5)) |-> XNames[(((d[2] % 16) + (i * (1 + 2 * (d[3] % 8)))) % 16) + 1]]      \* distinct
      at == [i \in DOMAIN names |-> IF d[4 + i] % 4 = 0 THEN Pick(<<"mem", "table", "global">>, d[4 + i] \div 4) ELSE "func"]
      ix == [i \in DOMAIN names |-> e[i] % 4]
      wish == IF d[20] % 4 = 0 THEN Pick(XNames, d[21]) ELSE Pick(names, d[21])
      ask == IF \E i \in DOMAIN wish : wish[i] = 0 THEN FnE ELSE wish            \* no command line can hold a NUL
      hits == SelectSeq(Ix(Len(names)), LAMBDA i : names[i] = ask /\ at[i] = "func")
      starts == d[22] % 3 = 0
      fs == [i \in 1..4 |-> Fn(<<<<>>, <<"i32">>>>, <<>>, Dump(64 + i) \o <<I32(i * 1000)>>)] \o <<Fn(<<<<>>, <<>>>>, <<>>, Dump(83))>>
      ok == Len(hits) = 1
  IN [kind |-> "export", fail |-> ~ok, name |-> ask, invoke |-> e[20] % 4, params |-> <<>>, pass |-> 0,
      prog |-> [Mod(fs, <<>>) EXCEPT !.start = IF starts THEN NImp + 4 ELSE -1],
      exports |-> [i \in DOMAIN names |-> [name |-> names[i], kind |-> at[i], idx |-> IF at[i] = "func" THEN NImp + ix[i] ELSE 0]],
      out |-> IF ~ok THEN <<>> ELSE (IF starts THEN <<83>> ELSE <<>>) \o <<65 + ix[hits[1]]>>,
      shown |-> IF ok THEN <<Shown("i32", FromNat((ix[hits[1]] + 1) * 1000, 4))>> ELSE <<>>]

(* ---- modules that are none ---------------------------------------------------------------*)
(* bodies that do not validate: <<result types, locals, code>> *)
Badly ==
  LET c32 == I32(7)  c64 == <<"i64.const", One(8)>>  f32 == <<"f32.const", Zero(4)>> IN
  << <<<<>>, <<>>, <<c32>>>>, <<<<"i32">>, <<>>, <<>>>>, <<<<"i32">>, <<>>, <<c64>>>>, <<<<"i32">>, <<>>, <<c32, c64, <<"i32.add">>>>>>,
     <<<<"i32">>, <<>>, <<c32, <<"i32.add">>>>>>, <<<<>>, <<>>, <<<<"drop">>>>>>, <<<<>>, <<"i32">>, <<<<"local.get", 50000>>, <<"drop">>>>>>,
     <<<<>>, <<"i32">>, <<c64, <<"local.set", 0>>>>>>, <<<<>>, <<>>, <<<<"global.get", 1>>, <<"drop">>>>>>, <<<<>>, <<>>, <<f32, <<"global.set", 0>>>>>>,
     <<<<>>, <<>>, <<<<"br", 1>>>>>>, <<<<>>, <<>>, <<c32, <<"br_if", 7>>>>>>, <<<<>>, <<>>, <<c64, <<"br_if", 0>>>>>>,
     <<<<>>, <<>>, <<c32, <<"br_table", <<0, 3>>, 0>>>>>>, <<<<"i32">>, <<>>, <<<<"br", 0>>>>>>, <<<<>>, <<>>, <<<<"call", 70>>>>>>,
     <<<<>>, <<>>, <<<<"call", NImp>>, <<"drop">>>>>>, <<<<>>, <<>>, <<c32, <<"call_indirect", <<<<"i64">>, <<>>>>, 0>>>>>>,
     <<<<>>, <<>>, <<c32, <<"call_indirect", <<<<>>, <<>>>>, 1>>>>>>, <<<<>>, <<>>, <<c32, <<"table.get", 1>>, <<"drop">>>>>>,
     <<<<>>, <<>>, <<c32, c32, <<"table.set", 0>>>>>>, <<<<>>, <<>>, <<c32, c32, c32, <<"memory.init", 1>>>>>>, <<<<>>, <<>>, <<<<"data.drop", 1>>>>>>,
     <<<<"i32">>, <<>>, <<c32, c64, c32, <<"select">>>>>>, <<<<>>, <<>>, <<<<"ref.null", "funcref">>, <<"ref.null", "funcref">>, c32, <<"select">>, <<"drop">>>>>>,
     <<<<"i64">>, <<>>, <<c32, c32, c32, <<"select_t", "i64">>>>>>, <<<<>>, <<>>, <<c64, <<"i64.load", 0>>, <<"drop">>>>>>,
     <<<<>>, <<>>, <<c32, c64, <<"i32.store", 0>>>>>>, <<<<>>, <<>>, <<c32, <<"ref.is_null">>, <<"drop">>>>>>,
     <<<<>>, <<>>, <<<<"block", <<<<>>, <<"i32">>>>>>, <<"end">>, <<"drop">>>>>>, <<<<>>, <<>>, <<<<"block", <<<<"i32">>, <<>>>>>>, <<"drop">>, <<"end">>>>>>,
     <<<<"i32">>, <<>>, <<c32, <<"if", <<<<>>, <<"i32">>>>>>, c32, <<"end">>>>>>, <<<<>>, <<>>, <<c32, <<"if", <<<<>>, <<"i32">>>>>>, c32, <<"else">>, c64, <<"end">>, <<"drop">>>>>>,
     <<<<>>, <<>>, <<<<"loop", <<<<>>, <<>>>>>>, c32, <<"end">>>>>>, <<<<>>, <<>>, <<c32, <<"block", <<<<>>, <<>>>>>>, <<"drop">>, <<"end">>>>>>,
     <<<<>>, <<>>, <<<<"memory.grow">>, <<"drop">>>>>>, <<<<>>, <<>>, <<c32, c32, <<"memory.copy">>>>>>, <<<<"i32">>, <<>>, <<<<"unreachable">>, c64>>>>,
     <<<<>>, <<>>, <<<<"return">>, c64, <<"i32.eqz">>, <<"drop">>>>>> >>
(* faults in the sections of a sound module; each yields the bytes *)
LenE(n) == ULebN(n, ULen(n))
Raw(id, body) == <<id>> \o LenE(Len(body)) \o body
Body1(x) == IF x.v THEN LenE(Len(x.items)) \o FlatE(x.items) ELSE FlatE(x.items)
Whole(ss) == Magic \o FlatE([i \in DOMAIN ss |-> Raw(ss[i].id, Body1(ss[i]))])
Without(ss, id) == SelectSeq(ss, LAMBDA x : x.id # id)
With(ss, id, items) == [i \in DOMAIN ss |-> IF ss[i].id = id THEN [ss[i] EXCEPT !.items = items] ELSE ss[i]]
Splice(ss, i, b) == Magic \o FlatE([j \in DOMAIN ss |-> IF j = i THEN b ELSE Raw(ss[j].id, Body1(ss[j]))])
(* a sound module whose imports nobody provides; the import of sched_yield is the one that changes *)
YieldAt(x) == LET ps == {p \in 1..(Len(x) - 10) : SubSeq(x, p, p + 10) = ImpName["sched_yield"]} IN IF ps = {} THEN 0 ELSE CHOOSE p \in ps : TRUE
Name1(b) == LenE(Len(b)) \o b
Nobody == <<<<<<101, 110, 118>>, ImpName["sched_yield"]>>, <<WasiName, SubSeq(ImpName["sched_yield"], 1, 10)>>, <<WasiName, ImpName["sched_yield"] \o <<0>>>>,
            <<SubSeq(WasiName, 1, 21), ImpName["sched_yield"]>>, <<<<>>, <<>>>>, <<WasiName \o <<32>>, ImpName["sched_yield"]>>,
            <<WasiName, <<83>> \o SubSeq(ImpName["sched_yield"], 2, 11)>>, <<<<87>> \o SubSeq(WasiName, 2, 22), ImpName["sched_yield"]>>,
            <<SubSeq(WasiName, 1, 21) \o <<50>>, ImpName["sched_yield"]>>, <<WasiName, <<>>>>>>
Unmet(ss, items, x) == [i \in DOMAIN items |-> LET p == YieldAt(items[i]) IN
                          IF p = 0 THEN items[i] ELSE Name1(x[1]) \o Name1(x[2]) \o SubSeq(items[i], p + 11, Len(items[i]))]
Bad ==
  LET d == Dr(2)[1]  e == Dr(2)[2]
      what == rec % 34
      body == Pick(Badly, (rec \div 34) + d[2])
      starts == d[3] % 2 = 0
      main == Fn(<<<<>>, <<>>>>, <<>>, Dump(65) \o <<I32(0), I32(0), I32(1), <<"memory.init", 0>>>>)
      evil == [sig |-> <<<<>>, body[1]>>, loc |-> body[2], code |-> body[3], lk |-> [i \in DOMAIN body[3] |-> <<1, 1>>]]
      P0 == [Mod(<<main, Fn(<<<<>>, <<>>>>, <<>>, Dump(83))>>, <<[off |-> -1, b |-> <<1, 2, 3>>]>>) EXCEPT !.start = IF starts THEN NImp + 1 ELSE -1]
      P == IF what < 8 THEN [P0 EXCEPT !.funcs = Append(@, evil)] ELSE P0
      ss == Sections(P, rec)
      full == Whole(ss)
      i == 1 + (d[4] % Len(ss))
      b == Body1(ss[i])
      Up == IF d[5] % 2 = 0 THEN 1 ELSE -1
      fn == Sections(P, rec)
      at(id) == CHOOSE j \in DOMAIN ss : ss[j].id = id
      bytes ==
        CASE what < 8 -> full
          [] what \in 8..12 -> SubSeq(full, 1, d[6] % Len(full))
          [] what = 13 -> [full EXCEPT ![1 + (d[6] % 8)] = (@ + 1 + (d[7] % 255)) % 256]
          [] what = 14 -> Splice(ss, i, Raw(ss[i].id, b) \o Raw(ss[i].id, b))
          [] what = 15 -> LET j == 1 + (d[4] % (Len(ss) - 1)) IN Whole([ss EXCEPT ![j] = ss[j + 1], ![j + 1] = ss[j]])
          [] what = 16 -> Splice(ss, i, <<ss[i].id>> \o LenE(Len(b) + Up) \o b)
          [] what = 17 -> LET vs == SelectSeq(Ix(Len(ss)), LAMBDA j : ss[j].v)  j == Pick(vs, d[4])
                              n == Len(ss[j].items) IN Splice(ss, j, Raw(ss[j].id, LenE(IF n = 0 THEN 1 ELSE n + Up) \o FlatE(ss[j].items)))
          [] what = 18 -> Splice(ss, i, Raw(ss[i].id, b) \o Raw(20 + (d[6] % 100), <<>>))
          [] what = 19 -> full \o <<1 + (d[6] % 255)>>
          [] what = 20 -> Splice(ss, i, <<ss[i].id>> \o ULebN(Len(b), 5) \o <<>> \o SubSeq(b, 1, Len(b) - 1))
          [] what = 21 -> Splice(ss, i, <<ss[i].id>> \o [k \in 1..5 |-> IF k = 1 THEN (Len(b) % 128) + 128 ELSE IF k = 2 THEN ((Len(b) \div 128) % 128) + 128 ELSE 128] \o <<0>> \o b)   \* six bytes
          [] what = 22 -> Whole(Without(ss, Pick(<<1, 3, 10, 11, 12>>, d[6])))
          [] what = 23 -> Whole(With(ss, 7, Append(ss[at(7)].items, <<1, 102, 0, NImp>>)))                                    \* exported twice
          [] what = 24 -> Whole(With(ss, 7, Append(ss[at(7)].items, Pick(<<<<1, 122, 0, 255, 127>>, <<1, 122, 1, 1>>, <<1, 122, 2, 1>>, <<1, 122, 3, 1>>, <<1, 122, 5, 0>>>>, d[6]))))
          [] what = 25 -> Whole(With(ss, 7, Append(ss[at(7)].items, Pick(<<<<1, 128, 0, NImp>>, <<2, 195, 40, 0, NImp>>, <<3, 237, 160, 128, 0, NImp>>, <<1, 195, 0, NImp>>>>, d[6]))))    \* not UTF-8
          [] what = 26 -> Whole(With(ss, 5, Pick(<<<<<<1, 3, 2>>>>, <<<<0>> \o LenE(65537)>>, <<<<1, 1>> \o LenE(70000)>>, <<<<9, 1>>>>>>, d[6])))
          [] what = 27 -> Whole(With(ss, 6, Pick(<<<<<<127, 1, 66, 0, 11>>>>, <<<<127, 2, 65, 0, 11>>>>, <<<<127, 1, 11>>>>, <<<<127, 1, 65, 0, 65, 0, 11>>>>, <<<<127, 1, 35, 0, 11>>>>, <<<<127, 1, 65, 0, 69, 11>>>>>>, d[6])))
          [] what = 28 -> Whole(With(ss, 9, Pick(<<<<<<0, 65, 0, 11, 1, 255, 127>>>>, <<<<2, 1, 65, 0, 11, 0, 0>>>>, <<<<0, 66, 0, 11, 0>>>>, <<<<8, 65, 0, 11, 0>>>>, <<<<2, 0, 65, 0, 11, 1, 0>>>>>>, d[6])))
          [] what \in {30, 31} -> Whole(With(ss, 2, Unmet(ss, ss[at(2)].items, Pick(Nobody, d[6]))))
          [] what = 32 -> Whole(With(Without(ss, 5), 2, Append(ss[at(2)].items, Name1(Pick(<<WasiName, <<101, 110, 118>>>>, d[7])) \o Name1(MemE) \o <<2, 0, 1>>)))
          [] what = 33 -> Whole(With(ss, 2, Append(ss[at(2)].items, Name1(Pick(<<WasiName, <<101, 110, 118>>>>, d[7])) \o Name1(FnE) \o Pick(<<<<3, 127, 0>>, <<3, 126, 0>>, <<1, 112, 0, 2>>, <<1, 112, 1, 0, 9>>>>, d[6]))))
          [] OTHER -> Whole(With(ss, 10, Append(SubSeq(ss[at(10)].items, 2, Len(ss[at(10)].items)),
                        Pick(<<<<2, 0, 1>>, <<3, 0, 11, 11>>, <<4, 0, 2, 64, 11>>, <<3, 0, 5, 11>>, <<3, 0, 39, 11>>, <<10, 2, 255, 255, 255, 255, 15, 127, 1, 127, 11>>, <<4, 1, 1, 0, 11>>,
                               <<8, 0, 65, 255, 255, 255, 255, 63, 26>>, <<9, 0, 65, 255, 255, 255, 255, 63, 26, 11>>, <<7, 0, 65, 0, 40, 3, 0, 11>>, <<7, 0, 65, 0, 40, 3, 0, 26, 11>>, <<4, 0, 252, 100, 11>>>>, d[6]))))
  IN [kind |-> "bad", fail |-> TRUE, name |-> FnE, invoke |-> 0, params |-> <<>>, pass |-> 0, what |-> what, sound |-> what >= 30, bytes |-> bytes, out |-> <<>>, shown |-> <<>>]

Record == CASE KIND = "param" -> Param [] KIND = "export" -> Export [] OTHER -> Bad
Init == rec \in 1..COUNT /\ done = FALSE
Next == ~done /\ done' = TRUE /\ PrintT(ToJson(Record)) /\ UNCHANGED rec
Fine == TRUE
=============================================================================
