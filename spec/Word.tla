-------------------------------- MODULE Word --------------------------------
(***************************************************************************)
(* Fixed-width machine words as little-endian byte sequences (TLC integers *)
(* are 32-bit signed, so every i32/i64 value is <<b1,...,bn>> with b1 the  *)
(* least significant byte).  These operators are the integer semantics of  *)
(* the WebAssembly specification (section 4.3.2).                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Bitwise

P2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256>>          \* P2[k+1] = 2^k

Zero(n) == [i \in 1..n |-> 0]
Ones(n) == [i \in 1..n |-> 255]
One(n)  == [i \in 1..n |-> IF i = 1 THEN 1 ELSE 0]
MinS(n) == [i \in 1..n |-> IF i = n THEN 128 ELSE 0]

IsZero(a) == \A i \in DOMAIN a : a[i] = 0
Neg(a)    == a[Len(a)] >= 128                       \* sign bit
Bool(p)   == IF p THEN One(4) ELSE Zero(4)          \* i32 truth value

(* carry/borrow chains ---------------------------------------------------*)
Add(a, b) ==
  FoldLeft(LAMBDA acc, i : LET t == a[i] + b[i] + acc[1]
                           IN <<t \div 256, Append(acc[2], t % 256)>>,
           <<0, <<>>>>, [i \in 1..Len(a) |-> i])[2]
Sub(a, b) ==
  FoldLeft(LAMBDA acc, i : LET t == a[i] - b[i] - acc[1]
                           IN IF t < 0 THEN <<1, Append(acc[2], t + 256)>>
                                       ELSE <<0, Append(acc[2], t)>>,
           <<0, <<>>>>, [i \in 1..Len(a) |-> i])[2]
WNot(a)  == [i \in DOMAIN a |-> 255 - a[i]]
NegW(a) == Add(WNot(a), One(Len(a)))
Abs(a)  == IF Neg(a) THEN NegW(a) ELSE a

WAnd(a, b) == [i \in DOMAIN a |-> a[i] & b[i]]
WOr(a, b)  == [i \in DOMAIN a |-> a[i] | b[i]]
WXor(a, b) == [i \in DOMAIN a |-> a[i] ^^ b[i]]

(* column sums stay below 8*255*255 < 2^31 *)
Mul(a, b) ==
  LET n == Len(a)
      Col(k) == FoldLeft(LAMBDA acc, i : acc + a[i] * b[k + 1 - i], 0, [i \in 1..k |-> i])
  IN FoldLeft(LAMBDA acc, k : LET t == Col(k) + acc[1]
                              IN <<t \div 256, Append(acc[2], t % 256)>>,
              <<0, <<>>>>, [k \in 1..n |-> k])[2]

(* comparisons ------------------------------------------------------------*)
RECURSIVE LtAt(_, _, _)
LtAt(a, b, i) == IF i = 0 THEN FALSE
                 ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LtAt(a, b, i - 1)
LtU(a, b) == LtAt(a, b, Len(a))
LtS(a, b) == IF Neg(a) # Neg(b) THEN Neg(a) ELSE LtU(a, b)

(* small non-negative value as an integer (only when it fits in 31 bits) --*)
Fits(a) == (Len(a) >= 4 => a[4] < 128) /\ \A i \in DOMAIN a : i > 4 => a[i] = 0
ToNat(a) == FoldLeft(LAMBDA acc, i : acc * 256 + a[Len(a) + 1 - i], 0,
                     [i \in 1..Len(a) |-> i])
FromNat(v, n) == [i \in 1..n |-> IF i > 4 THEN 0
                    ELSE (v \div (IF i = 1 THEN 1 ELSE IF i = 2 THEN 256
                                  ELSE IF i = 3 THEN 65536 ELSE 16777216)) % 256]
FromInt(v, n) == IF v >= 0 THEN FromNat(v, n) ELSE NegW(FromNat(-v, n))

(* shifts -----------------------------------------------------------------*)
ShlK(a, k) ==
  LET n == Len(a)  q == k \div 8  m == P2[(k % 8) + 1]
      At(i) == IF i < 1 THEN 0 ELSE a[i]
  IN [i \in 1..n |-> ((At(i - q) * m) % 256) + ((At(i - q - 1) * m) \div 256)]
ShrK(a, k, fill) ==                                   \* fill = 0 or 255
  LET n == Len(a)  q == k \div 8  r == k % 8
      At(i) == IF i > n THEN fill ELSE a[i]
  IN [i \in 1..n |-> (At(i + q) \div P2[r + 1]) + ((At(i + q + 1) * P2[9 - r]) % 256)]
Cnt(b)     == b[1] % (8 * Len(b))                     \* shift count mod width
Shl(a, b)  == ShlK(a, Cnt(b))
ShrU(a, b) == ShrK(a, Cnt(b), 0)
ShrS(a, b) == ShrK(a, Cnt(b), IF Neg(a) THEN 255 ELSE 0)
RotlK(a, k) == IF k = 0 THEN a ELSE WOr(ShlK(a, k), ShrK(a, 8 * Len(a) - k, 0))
Rotl(a, b) == RotlK(a, Cnt(b))
Rotr(a, b) == RotlK(a, (8 * Len(a) - Cnt(b)) % (8 * Len(a)))

(* bit counting -----------------------------------------------------------*)
Bit(a, k) == (a[(k \div 8) + 1] \div P2[(k % 8) + 1]) % 2   \* k from 0
BitLen(a) ==                                          \* 0 for zero
  LET S == {i \in DOMAIN a : a[i] # 0}
  IN IF S = {} THEN 0
     ELSE LET t == CHOOSE i \in S : \A j \in S : j <= i
              B(v) == CHOOSE k \in 1..8 : v < P2[k + 1] /\ v >= P2[k]
          IN 8 * (t - 1) + B(a[t])
TrailZ(a) ==
  LET S == {i \in DOMAIN a : a[i] # 0}
  IN IF S = {} THEN 8 * Len(a)
     ELSE LET t == CHOOSE i \in S : \A j \in S : j >= i
          IN 8 * (t - 1) + (CHOOSE k \in 0..7 : /\ (a[t] \div P2[k + 1]) % 2 = 1
                                                /\ a[t] % P2[k + 1] = 0)
Clz(a)    == FromNat(8 * Len(a) - BitLen(a), Len(a))
Ctz(a)    == FromNat(TrailZ(a), Len(a))
Popcnt(a) == FromNat(FoldLeft(LAMBDA acc, k : acc + Bit(a, k), 0,
                              [k \in 1..(8 * Len(a)) |-> k - 1]), Len(a))

(* division: schoolbook, one bit at a time, with an exact shortcut --------*)
DivModU(a, b) ==
  IF Fits(a) /\ Fits(b)
  THEN LET x == ToNat(a) y == ToNat(b)
       IN <<FromNat(x \div y, Len(a)), FromNat(x % y, Len(a))>>
  ELSE LET n == Len(a)
           bb == Append(b, 0)                         \* one spare byte for the shift
           F(acc, k) ==
             LET r0 == ShlK(acc[2], 1)
                 r  == [r0 EXCEPT ![1] = @ + Bit(a, k)]
             IN IF LtU(r, bb) THEN <<ShlK(acc[1], 1), r>>
                ELSE <<[ShlK(acc[1], 1) EXCEPT ![1] = @ + 1], Sub(r, bb)>>
           L == BitLen(a)
           res == FoldLeft(F, <<Zero(n), Zero(n + 1)>>, [i \in 1..L |-> L - i])
       IN <<res[1], SubSeq(res[2], 1, n)>>
DivU(a, b) == DivModU(a, b)[1]
RemU(a, b) == DivModU(a, b)[2]
DivS(a, b) == LET q == DivU(Abs(a), Abs(b)) IN IF Neg(a) # Neg(b) THEN NegW(q) ELSE q
RemS(a, b) == LET r == RemU(Abs(a), Abs(b)) IN IF Neg(a) THEN NegW(r) ELSE r

(* width changes ----------------------------------------------------------*)
Take(a, k)    == SubSeq(a, 1, k)
ExtU(a, n)    == [i \in 1..n |-> IF i <= Len(a) THEN a[i] ELSE 0]
ExtS(a, n)    == [i \in 1..n |-> IF i <= Len(a) THEN a[i] ELSE IF Neg(a) THEN 255 ELSE 0]
SignExt(a, k) == ExtS(Take(a, k), Len(a))             \* extend8/16/32_s
=============================================================================
