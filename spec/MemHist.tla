------------------------------- MODULE MemHist -------------------------------
(***************************************************************************)
(* Linear memory as the history of what was done to it.  The byte at an     *)
(* address is decided by the last operation that covers it, and a copied    *)
(* byte is the byte its source address held before the copy -- also when    *)
(* the ranges overlap, in either direction, by any distance, at any length. *)
(* (WasmSem holds memory as a map, which suits many small accesses; here    *)
(* lengths and distances of several pages are cheap.)                       *)
(*                                                                          *)
(* A behaviour is a history of stores, fills, copies, segment copies and    *)
(* growth inside the bounds.  It prints the program and the predicted bytes *)
(* around every border of every operation and at arbitrary addresses; the   *)
(* program shows all of memory to the host.                                 *)
(***************************************************************************)
EXTENDS Prog

CONSTANTS OPS,       \* operations in a history
          SEEDS, BASE

VARIABLES hist, pages, drops, rnd, ph
vars == <<hist, pages, drops, rnd, ph>>

Act == [i \in 1..600 |-> (i * 7 + (i \div 97)) % 251]             \* active segment at 100
Pas == [i \in 1..5000 |-> (i * 13 + (i \div 251) * 3) % 256]       \* passive segment
MaxPages == 5

(* what a byte of memory holds after the first k operations *)
RECURSIVE ByteAt(_, _, _)
ByteAt(h, k, a) ==
  IF k = 0 THEN IF a >= 100 /\ a < 700 THEN Act[a - 99] ELSE 0
  ELSE LET o == h[k]  in == a >= o.d /\ a < o.d + o.n
       IN IF ~in THEN ByteAt(h, k - 1, a)
          ELSE CASE o.k = "fill" -> o.v
                 [] o.k = "copy" -> ByteAt(h, k - 1, a - o.d + o.s)
                 [] o.k = "init" -> Pas[a - o.d + o.s + 1]
                 [] OTHER -> o.b[a - o.d + 1]

Size0 == pages * PageSize
(* lengths and distances worth meeting: around words, pages and powers of two  *)
Lens == <<0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 513, 1000, 1023, 1025, 2047, 2048, 2049,
          4095, 4096, 4097, 5000, 8191, 8192, 8193, 10000, 16384, 20000, 32767, 32768, 32769, 50000, 65535, 65536, 65537, 70000, 100000, 131072>>
Len1(x, y) == LET n == Pick(Lens, x) IN IF y % 4 = 0 THEN n + ((y \div 4) % 50) ELSE n
Dist == <<1, 2, 3, 4, 7, 8, 9, 16, 31, 64, 100, 255, 1000, 1024, 4095, 4096, 4097, 8192, 16384, 20000, 65535, 65536, 65537>>
At(x, y, n) ==                                   \* an address for n bytes
  LET room == Size0 - n
  IN IF room <= 0 THEN 0
     ELSE CASE x % 6 = 0 -> room                                      \* up to the very end
            [] x % 6 = 1 -> 0
            [] x % 6 = 2 -> (IF room < 700 THEN 0 ELSE y % 700)
            [] x % 6 = 3 -> LET p == ((y % pages) * PageSize) - (y % 40) IN IF p < 0 \/ p > room THEN room ELSE p
            [] OTHER -> y % (room + 1)
Fit(n) == IF n > Size0 THEN Size0 ELSE n
MkFill(r) == LET n == Fit(Len1(r[2], r[3])) IN [k |-> "fill", d |-> At(r[4], r[5], n), n |-> n, v |-> r[6] % 256, s |-> 0, b |-> <<>>, how |-> r[10]]
MkCopy(r) ==
  LET n0 == Fit(Len1(r[2], r[3]))
      dist == IF r[6] % 7 = 0 THEN r[7] % 3000 ELSE Pick(Dist, r[7])
      \* usually the ranges overlap or touch: the lower one starts at a, the other dist above
      near == r[8] % 4 # 0
      n == IF near /\ n0 + dist > Size0 THEN (IF dist >= Size0 THEN 0 ELSE Size0 - dist) ELSE n0
      a == IF near THEN (IF n + dist > Size0 THEN 0 ELSE At(r[4], r[5], n + dist)) ELSE At(r[4], r[5], n)
      d2 == IF near /\ n + dist <= Size0 THEN a + dist ELSE a
      up == r[9] % 2 = 0
  IN IF near THEN [k |-> "copy", d |-> IF up THEN d2 ELSE a, s |-> IF up THEN a ELSE d2, n |-> n, v |-> 0, b |-> <<>>, how |-> r[10]]
     ELSE [k |-> "copy", d |-> a, s |-> At(r[11], r[12], n), n |-> n, v |-> 0, b |-> <<>>, how |-> r[10]]
MkInit(r) == LET s == r[2] % 5000  n == IF r[3] % 3 = 0 THEN 5000 - s ELSE r[3] % (5001 - s)
             IN [k |-> "init", d |-> At(r[4], r[5], n), s |-> s, n |-> n, v |-> 0, b |-> <<>>, how |-> r[10]]
MkStore(r) == LET w == Pick(<<1, 2, 4, 8>>, r[2]) IN
              [k |-> "store", d |-> At(r[4], r[5], w), n |-> w, b |-> [i \in 1..w |-> (r[6] \div i) % 256], v |-> 0, s |-> 0, how |-> r[10]]
MkGrow(r) == [k |-> "grow", d |-> 0, n |-> 0, v |-> r[2] % 4, s |-> 0, b |-> <<>>, how |-> r[10]]
(* the result of growing is stored at 1024 + 4 * position *)
GrowRes(i, v) == [k |-> "grown", d |-> 1024 + 4 * i, n |-> 4, b |-> v, v |-> 0, s |-> 0, how |-> 0]

Init == /\ \E k \in 1..SEEDS : rnd = Seeded(k, BASE)
        /\ hist = <<>> /\ ph = "ops" /\ drops = FALSE
        /\ \E p \in {LET v == Draw24(Seeded((rnd[1] * 3) % 9973, BASE))[1] IN 1 + (v[1] % 3)} : pages = p
Do == /\ ph = "ops" /\ Len(hist) < OPS
      /\ \E dr \in {Draw24(rnd)} :
           LET r == dr[1]  c == r[1] % 16 IN
           /\ rnd' = dr[2]
           /\ IF c < 8 THEN hist' = Append(hist, MkCopy(r)) /\ UNCHANGED <<pages, drops>>
              ELSE IF c < 11 THEN hist' = Append(hist, MkFill(r)) /\ UNCHANGED <<pages, drops>>
              ELSE IF c < 13 /\ ~drops THEN hist' = Append(hist, MkInit(r)) /\ UNCHANGED <<pages, drops>>
              ELSE IF c = 13 THEN LET g == MkGrow(r)  ok == pages + g.v <= MaxPages
                                  IN /\ hist' = hist \o <<g, GrowRes(Len(hist), IF ok THEN FromNat(pages, 4) ELSE Ones(4))>>
                                     /\ pages' = (IF ok THEN pages + g.v ELSE pages) /\ UNCHANGED drops
              ELSE IF c = 14 /\ r[2] % 4 = 0 THEN drops' = TRUE /\ hist' = Append(hist, [MkGrow(r) EXCEPT !.k = "drop"]) /\ UNCHANGED pages
              ELSE hist' = Append(hist, MkStore(r)) /\ UNCHANGED <<pages, drops>>
      /\ UNCHANGED ph

(* ---- the program ----------------------------------------------------------*)
FillF == Fn(<<<<"i32", "i32", "i32">>, <<>>>>, <<>>, <<<<"local.get", 0>>, <<"local.get", 1>>, <<"local.get", 2>>, <<"memory.fill">>>>)
CopyF == Fn(<<<<"i32", "i32", "i32">>, <<>>>>, <<>>, <<<<"local.get", 0>>, <<"local.get", 1>>, <<"local.get", 2>>, <<"memory.copy">>>>)
InitF == Fn(<<<<"i32", "i32", "i32">>, <<>>>>, <<>>, <<<<"local.get", 0>>, <<"local.get", 1>>, <<"local.get", 2>>, <<"memory.init", 1>>>>)
GrowF == Fn(<<<<"i32">>, <<"i32">>>>, <<>>, <<<<"local.get", 0>>, <<"memory.grow">>>>)
Three(o, a, b, c) ==                             \* three operands: constants, or some through locals
  CASE o.how % 4 = 0 -> <<I32(a), I32(b), I32(c)>>
    [] o.how % 4 = 1 -> <<I32(a), <<"local.set", 0>>, I32(b), <<"local.set", 1>>, I32(c), <<"local.set", 2>>,
                          <<"local.get", 0>>, <<"local.get", 1>>, <<"local.get", 2>>>>
    [] o.how % 4 = 2 -> <<I32(a), I32(b), I32(c), <<"local.tee", 2>>>>
    [] OTHER -> <<I32(c), <<"local.set", 3>>, I32(a), I32(b - 5), I32(5), <<"i32.add">>, <<"local.get", 3>>>>
Via(o, ins, f) == IF (o.how \div 4) % 3 = 0 THEN <<<<"call", f>>>> ELSE <<ins>>
StoreW(w) == CASE w = 1 -> "i64.store8" [] w = 2 -> "i64.store16" [] w = 4 -> "i64.store32" [] OTHER -> "i64.store"
Code(o) ==
  CASE o.k = "fill" -> Three(o, o.d, o.v + (IF o.how % 5 = 0 THEN 256 ELSE 0), o.n) \o Via(o, <<"memory.fill">>, NImp)
    [] o.k = "copy" -> Three(o, o.d, o.s, o.n) \o Via(o, <<"memory.copy">>, NImp + 1)
    [] o.k = "init" -> Three(o, o.d, o.s, o.n) \o Via(o, <<"memory.init", 1>>, NImp + 2)
    [] o.k = "store" -> LET off == IF o.how % 3 = 0 THEN 0 ELSE o.how % (o.d + 1)
                        IN <<I32(o.d - off), <<"i64.const", [i \in 1..8 |-> IF i <= o.n THEN o.b[i] ELSE 170]>>, <<StoreW(o.n), off, 0>>>>
    [] o.k = "grow" -> <<I32(o.v)>> \o Via(o, <<"memory.grow">>, NImp + 3)
    [] o.k = "grown" -> <<<<"local.set", 4>>, I32(o.d), <<"local.get", 4>>, <<"i32.store", 0>>>>
    [] OTHER -> <<<<"data.drop", 1>>>>
(* the size known to the guest, kept out of the way of the dump *)
Main == Fn(<<<<>>, <<"i32">>>>, [i \in 1..5 |-> "i32"],
           FoldLeft(LAMBDA acc, i : acc \o Code(hist[i]), <<>>, [i \in DOMAIN hist |-> i])
           \o DumpRange(0, Size0) \o <<<<"memory.size">>>>)
Program == [imps |-> Imps, isigs |-> ISigs, funcs |-> <<FillF, CopyF, InitF, GrowF, Main>>,
            globals |-> <<>>, mem |-> <<pages - FoldLeft(LAMBDA acc, i : acc + (IF hist[i].k = "grow" /\ hist[i + 1].b # Ones(4) THEN hist[i].v ELSE 0), 0, [i \in DOMAIN hist |-> i]), MaxPages>>,
            tables |-> <<>>, elems |-> <<>>, datas |-> <<[off |-> 100, b |-> Act], [off |-> -1, b |-> Pas]>>,
            start |-> -1, main |-> NImp + 4, args |-> <<>>]

(* ---- the addresses whose bytes are predicted -------------------------------*)
Around(a) == {a - 1, a, a + 1}
Of(o, x) == Around(o.d) \cup Around(o.d + o.n) \cup Around(o.s) \cup Around(o.s + o.n) \cup Around(o.d + o.n \div 2)
            \cup UNION {Around((o.d + (j * 4096))) : j \in {1, 2, x % 16}} \cup UNION {Around(o.d + o.n - j * 4096) : j \in {1, 2}}
            \cup {o.d + j * 256 : j \in {1, x % 64}}
Samples(r) == {a \in UNION {Of(hist[i], r[(i % 24) + 1]) : i \in {j \in DOMAIN hist : hist[j].k \in {"fill", "copy", "init", "store", "grown"}}}
                     \cup {r[i] % Size0 : i \in 1..24} \cup {0, 99, 100, 101, 699, 700, Size0 - 1} :
                 a >= 0 /\ a < Size0 /\ (a < 2048 \/ a >= 2064)}
Show == /\ ph = "ops" /\ Len(hist) >= OPS
        /\ \E dr \in {Draw24(rnd)} : \E S \in {Samples(dr[1])} :
             PrintT(ToJson([prog |-> Program, size |-> Size0, n |-> Len(hist), at |-> SetToSeq({<<a, ByteAt(hist, Len(hist), a)>> : a \in S})]))
        /\ ph' = "end" /\ UNCHANGED <<hist, pages, drops, rnd>>
Next == Do \/ Show
Spec == Init /\ [][Next]_vars
(* every operation stays inside the memory of its time, so nothing here traps   *)
Inside == \A i \in DOMAIN hist : hist[i].d >= 0 /\ hist[i].s >= 0 /\ hist[i].d + hist[i].n <= Size0 /\ (hist[i].k = "copy" => hist[i].s + hist[i].n <= Size0)
=============================================================================
