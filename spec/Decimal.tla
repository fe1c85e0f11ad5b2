------------------------------ MODULE Decimal -------------------------------
(***************************************************************************)
(* Exact decimal expansions.  Every finite float is an integer times a     *)
(* power of two, so it -- and the midpoint between it and its neighbour -- *)
(* has a finite decimal expansion: digits d, of which k follow the point.  *)
(***************************************************************************)
EXTENDS Float

(* naturals as little-endian limbs of four decimal digits *)
MulL(l, c) == LET r == FoldLeft(LAMBDA acc, x : LET t == (x * c) + acc[1] IN <<t \div 10000, Append(acc[2], t % 10000)>>, <<0, <<>>>>, l)
              IN IF r[1] = 0 THEN r[2] ELSE Append(r[2], r[1])
AddL(l, c) == LET r == FoldLeft(LAMBDA acc, x : LET t == x + acc[1] IN <<t \div 10000, Append(acc[2], t % 10000)>>, <<c, <<>>>>, l)
              IN IF r[1] = 0 THEN r[2] ELSE Append(r[2], r[1])
LimbsOf(b) == FoldLeft(LAMBDA l, i : AddL(MulL(l, 256), b[Len(b) + 1 - i]), <<0>>, [i \in 1..Len(b) |-> i])
RECURSIVE ScaleL(_, _, _)
ScaleL(l, c, n) ==             \* times c^n, for c in {2, 5}
  LET step == IF c = 2 THEN 13 ELSE 5   big == IF c = 2 THEN 8192 ELSE 3125
  IN IF n = 0 THEN l ELSE IF n >= step THEN ScaleL(MulL(l, big), c, n - step) ELSE ScaleL(MulL(l, c), c, n - 1)
RECURSIVE Strip(_)
Strip(d) == IF Len(d) > 1 /\ d[1] = 0 THEN Strip(Tail(d)) ELSE d
Digits(l) == Strip(FoldLeft(LAMBDA d, i : LET x == l[Len(l) + 1 - i] IN d \o <<x \div 1000, (x \div 100) % 10, (x \div 10) % 10, x % 10>>, <<>>, [i \in 1..Len(l) |-> i]))
IntDigits(b) == Digits(LimbsOf(b))

(* m * 2^e *)
Expand(m, e) == IF e >= 0 THEN [d |-> Digits(ScaleL(LimbsOf(m), 2, e)), k |-> 0]
                ELSE [d |-> Digits(ScaleL(LimbsOf(m), 5, -e)), k |-> -e]
ExactDec(a) == Expand(Man(a), Exp(a))                                        \* the value of |a|
Next1(a) == Add(a, One(Len(a)))      Prev1(a) == Sub(a, One(Len(a)))         \* neighbours of a positive float
MidDec(a) == Expand(BAdd(BShl(Man(a), 1), <<1>>), Exp(a) - 1)                \* halfway between |a| and the next
EvenF(a) == a[1] % 2 = 0
(* a little above, a little below *)
Above(x, j) == [d |-> x.d \o [i \in 1..j |-> IF i = j THEN 1 ELSE 0], k |-> x.k + j]
Minus1(d) == FoldLeft(LAMBDA acc, i : LET q == Len(d) + 1 - i IN IF acc[1] = 0 THEN acc ELSE IF acc[2][q] > 0 THEN <<0, [acc[2] EXCEPT ![q] = @ - 1]>> ELSE <<1, [acc[2] EXCEPT ![q] = 9]>>,
                      <<1, d>>, [i \in 1..Len(d) |-> i])[2]
Below(x, j) == [d |-> Strip(Minus1(x.d)) \o [i \in 1..j |-> 9], k |-> x.k + j]

(* ---- texts: sequences of character codes --------------------------------------*)
Ch(d) == [i \in DOMAIN d |-> 48 + d[i]]
Zs(n) == [i \in 1..n |-> 48]
NatText(n) == Ch(Digits(AddL(<<0>>, n)))
SmallInt(n) == IF n < 0 THEN <<45>> \o NatText(-n) ELSE NatText(n)
Plain10(x) == IF x.k = 0 THEN Ch(x.d)
              ELSE IF Len(x.d) > x.k THEN Ch(SubSeq(x.d, 1, Len(x.d) - x.k)) \o <<46>> \o Ch(SubSeq(x.d, Len(x.d) - x.k + 1, Len(x.d)))
              ELSE <<48, 46>> \o Zs(x.k - Len(x.d)) \o Ch(x.d)
Scaled(x) == Ch(x.d) \o <<101>> \o SmallInt(-x.k)                            \* ddd e -k
Normed(x) == Ch(SubSeq(x.d, 1, 1)) \o <<46>> \o Ch(Tail(x.d)) \o <<69>> \o SmallInt(Len(x.d) - 1 - x.k)
TextOf(x, how) == CASE how % 4 = 0 -> Plain10(x) [] how % 4 = 1 -> Scaled(x) [] how % 4 = 2 -> Normed(x)
                    [] OTHER -> <<48, 48>> \o Plain10(x)
=============================================================================
