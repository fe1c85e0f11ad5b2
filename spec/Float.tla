-------------------------------- MODULE Float -------------------------------
(***************************************************************************)
(* IEEE-754 binary32/binary64 as defined by the WebAssembly specification  *)
(* (section 4.3.3), computed exactly on unbounded naturals (byte sequences *)
(* of any length) and rounded once, to nearest, ties to even.              *)
(*                                                                         *)
(* A value is its bit pattern (4 or 8 bytes, little endian).  WebAssembly  *)
(* leaves the bits of a NaN produced by an arithmetic instruction open; it *)
(* is written NaN(n), a pattern of pseudo-bytes above 255 that only stands *)
(* for "some NaN of this width": an instruction that would expose its bits *)
(* as anything else ends the run as "discard" (see WasmSem).               *)
(***************************************************************************)
EXTENDS Word

Mb(n)   == IF n = 4 THEN 23 ELSE 52                  \* stored mantissa bits
Bias(n) == IF n = 4 THEN 127 ELSE 1023
EMax(n) == IF n = 4 THEN 255 ELSE 2047               \* biased exponent of inf/nan
NaN(n)  == IF n = 4 THEN <<256, 257, 258, 259>>
           ELSE <<264, 265, 266, 267, 268, 269, 270, 271>>
Marked(a) == a[1] > 255

BExp(a) == IF Len(a) = 4 THEN (a[4] % 128) * 2 + a[3] \div 128
                         ELSE (a[8] % 128) * 16 + a[7] \div 16
Frac(a) == IF Len(a) = 4 THEN <<a[1], a[2], a[3] % 128>>
                         ELSE <<a[1], a[2], a[3], a[4], a[5], a[6], a[7] % 16>>
Sgn(a)    == a[Len(a)] >= 128
IsNaN(a)  == Marked(a) \/ (BExp(a) = EMax(Len(a)) /\ ~IsZero(Frac(a)))
IsInf(a)  == ~Marked(a) /\ BExp(a) = EMax(Len(a)) /\ IsZero(Frac(a))
IsZeroF(a) == ~Marked(a) /\ BExp(a) = 0 /\ IsZero(Frac(a))
(* value = Man(a) * 2^Exp(a) *)
Man(a) == IF BExp(a) = 0 THEN Frac(a)
          ELSE IF Len(a) = 4 THEN [Frac(a) EXCEPT ![3] = @ + 128]
                             ELSE [Frac(a) EXCEPT ![7] = @ + 16]
Exp(a) == (IF BExp(a) = 0 THEN 1 ELSE BExp(a)) - Bias(Len(a)) - Mb(Len(a))

WithSign(a, s) == [a EXCEPT ![Len(a)] = (@ % 128) + (IF s THEN 128 ELSE 0)]
ZeroF(n, s) == WithSign(Zero(n), s)
InfF(n, s)  == WithSign(IF n = 4 THEN <<0, 0, 128, 127>> ELSE <<0, 0, 0, 0, 0, 0, 240, 127>>, s)

(* unbounded naturals ------------------------------------------------------*)
Pad(a, n) == [i \in 1..n |-> IF i <= Len(a) THEN a[i] ELSE 0]
MaxI(x, y) == IF x > y THEN x ELSE y
BShl(a, k) == LET n == Len(a) + (k \div 8) + 1 IN ShlK(Pad(a, n), k)
BShr(a, k) == IF k >= 8 * Len(a) THEN <<0>> ELSE ShrK(a, k, 0)
LowNZ(a, k) == IF k <= 0 THEN FALSE ELSE TrailZ(a) < k /\ ~IsZero(a)   \* any of the k low bits set
BAdd(a, b) == LET n == MaxI(Len(a), Len(b)) + 1 IN Add(Pad(a, n), Pad(b, n))
BSub(a, b) == LET n == MaxI(Len(a), Len(b)) IN Sub(Pad(a, n), Pad(b, n))
BLt(a, b)  == LET n == MaxI(Len(a), Len(b)) IN LtU(Pad(a, n), Pad(b, n))
BMul(a, b) == LET n == Len(a) + Len(b) IN Mul(Pad(a, n), Pad(b, n))
BDivMod(a, b) == LET n == MaxI(Len(a), Len(b)) IN DivModU(Pad(a, n), Pad(b, n))
BitB(a, k) == IF k < 0 \/ k >= 8 * Len(a) THEN 0 ELSE Bit(a, k)

(* round (m + sticky) * 2^e to the format of n bytes -----------------------*)
Pack(n, s, m, be) ==       \* m has at most Mb+1 bits; be the biased exponent if normal
  LET mb == Mb(n)
      p  == Pad(m, n)
      normal == BitLen(m) = mb + 1
      e  == IF normal THEN be ELSE 0
      f  == IF normal THEN Sub(p, ShlK(One(n), mb)) ELSE p
      \* add the exponent bits
      w  == IF n = 4
            THEN [f EXCEPT ![3] = @ + 128 * (e % 2), ![4] = e \div 2]
            ELSE [f EXCEPT ![7] = @ + 16 * (e % 16), ![8] = e \div 16]
  IN WithSign(w, s)
RoundTo(n, s, m, e, sticky) ==
  IF IsZero(m) THEN ZeroF(n, s)
  ELSE LET mb   == Mb(n)
           emin == 1 - Bias(n) - mb
           te   == MaxI(e + BitLen(m) - (mb + 1), emin)
           sh   == te - e
           q    == IF sh <= 0 THEN BShl(m, -sh) ELSE BShr(m, sh)
           half == sh > 0 /\ BitB(m, sh - 1) = 1
           low  == sticky \/ (sh > 0 /\ LowNZ(m, sh - 1))
           up   == half /\ (low \/ q[1] % 2 = 1)
           q1   == IF up THEN BAdd(q, <<1>>) ELSE q
           q2   == IF BitLen(q1) = mb + 2 THEN BShr(q1, 1) ELSE q1
           te2  == IF BitLen(q1) = mb + 2 THEN te + 1 ELSE te
           be   == te2 + Bias(n) + mb
       IN IF IsZero(q2) THEN ZeroF(n, s)
          ELSE IF be >= EMax(n) THEN InfF(n, s)
          ELSE Pack(n, s, SubSeq(Pad(q2, n + 1), 1, n), be)

(* arithmetic --------------------------------------------------------------*)
FAddS(a, b, sb) ==          \* a + (b with sign sb)
  LET n == Len(a)  sa == Sgn(a)
  IN IF IsNaN(a) \/ IsNaN(b) THEN NaN(n)
     ELSE IF IsInf(a) THEN IF IsInf(b) /\ sa # sb THEN NaN(n) ELSE a
     ELSE IF IsInf(b) THEN WithSign(b, sb)
     ELSE IF IsZeroF(a) /\ IsZeroF(b) THEN ZeroF(n, sa /\ sb)
     ELSE IF IsZeroF(b) THEN a
     ELSE IF IsZeroF(a) THEN WithSign(b, sb)
     ELSE LET big   == Exp(a) >= Exp(b)
              mh    == IF big THEN Man(a) ELSE Man(b)
              ml    == IF big THEN Man(b) ELSE Man(a)
              sh    == IF big THEN sa ELSE sb
              sl    == IF big THEN sb ELSE sa
              eh    == IF big THEN Exp(a) ELSE Exp(b)
              el    == IF big THEN Exp(b) ELSE Exp(a)
              far   == eh - el > 2 * Mb(n) + 8
              \* far apart: the small operand only matters as "not zero"
              d     == IF far THEN 2 * Mb(n) + 8 ELSE eh - el
              h     == BShl(mh, d)
              l     == IF far THEN <<1>> ELSE ml
              e     == eh - d
          IN IF sh = sl THEN RoundTo(n, sh, BAdd(h, l), e, FALSE)
             ELSE IF BLt(h, l) THEN RoundTo(n, sl, BSub(l, h), e, FALSE)
             ELSE IF BLt(l, h) THEN RoundTo(n, sh, BSub(h, l), e, FALSE)
             ELSE ZeroF(n, FALSE)
FAdd(a, b) == FAddS(a, b, Sgn(b))
FSub(a, b) == FAddS(a, b, ~Sgn(b))
FMul(a, b) ==
  LET n == Len(a)  s == Sgn(a) # Sgn(b)
  IN IF IsNaN(a) \/ IsNaN(b) THEN NaN(n)
     ELSE IF IsInf(a) \/ IsInf(b)
          THEN IF IsZeroF(a) \/ IsZeroF(b) THEN NaN(n) ELSE InfF(n, s)
     ELSE IF IsZeroF(a) \/ IsZeroF(b) THEN ZeroF(n, s)
     ELSE RoundTo(n, s, BMul(Man(a), Man(b)), Exp(a) + Exp(b), FALSE)
FDiv(a, b) ==
  LET n == Len(a)  s == Sgn(a) # Sgn(b)
  IN IF IsNaN(a) \/ IsNaN(b) THEN NaN(n)
     ELSE IF IsInf(a) THEN IF IsInf(b) THEN NaN(n) ELSE InfF(n, s)
     ELSE IF IsInf(b) THEN ZeroF(n, s)
     ELSE IF IsZeroF(b) THEN IF IsZeroF(a) THEN NaN(n) ELSE InfF(n, s)
     ELSE IF IsZeroF(a) THEN ZeroF(n, s)
     ELSE LET k == MaxI(0, Mb(n) + 4 + BitLen(Man(b)) - BitLen(Man(a)))
              r == BDivMod(BShl(Man(a), k), Man(b))
          IN RoundTo(n, s, r[1], Exp(a) - Exp(b) - k, ~IsZero(r[2]))
(* integer square root, two bits at a time *)
ISqrt(m) ==
  LET w == Len(m) + 2
      L == (BitLen(m) + 1) \div 2
      F(acc, k) ==                          \* acc = <<root, remainder>>
        LET r1 == ShlK(acc[2], 2)
            r  == [r1 EXCEPT ![1] = @ + 2 * BitB(m, 2 * k + 1) + BitB(m, 2 * k)]
            t0 == ShlK(acc[1], 2)
            t  == [t0 EXCEPT ![1] = @ + 1]
        IN IF LtU(r, t) THEN <<ShlK(acc[1], 1), r>>
           ELSE <<[ShlK(acc[1], 1) EXCEPT ![1] = @ + 1], Sub(r, t)>>
  IN FoldLeft(F, <<Zero(w), Zero(w)>>, [i \in 1..L |-> L - i])
FSqrt(a) ==
  LET n == Len(a)
  IN IF IsNaN(a) THEN NaN(n)
     ELSE IF IsZeroF(a) THEN a
     ELSE IF Sgn(a) THEN NaN(n)
     ELSE IF IsInf(a) THEN a
     ELSE LET want == 2 * (Mb(n) + 3)
              k0 == MaxI(0, want - BitLen(Man(a)))
              k  == IF (Exp(a) - k0) % 2 = 0 THEN k0 ELSE k0 + 1
              r  == ISqrt(BShl(Man(a), k))
          IN RoundTo(n, FALSE, r[1], (Exp(a) - k) \div 2, ~IsZero(r[2]))

(* comparison ---------------------------------------------------------------*)
MagLt(a, b) == LtU(WithSign(a, FALSE), WithSign(b, FALSE))
FEq(a, b) == ~IsNaN(a) /\ ~IsNaN(b) /\ (a = b \/ (IsZeroF(a) /\ IsZeroF(b)))
FLt(a, b) == /\ ~IsNaN(a) /\ ~IsNaN(b) /\ ~(IsZeroF(a) /\ IsZeroF(b))
             /\ IF Sgn(a) # Sgn(b) THEN Sgn(a)
                ELSE IF Sgn(a) THEN MagLt(b, a) ELSE MagLt(a, b)
FLe(a, b) == FLt(a, b) \/ FEq(a, b)
FNe(a, b) == ~FEq(a, b)
FMin(a, b) == IF IsNaN(a) \/ IsNaN(b) THEN NaN(Len(a))
              ELSE IF IsZeroF(a) /\ IsZeroF(b) THEN ZeroF(Len(a), Sgn(a) \/ Sgn(b))
              ELSE IF FLt(b, a) THEN b ELSE a
FMax(a, b) == IF IsNaN(a) \/ IsNaN(b) THEN NaN(Len(a))
              ELSE IF IsZeroF(a) /\ IsZeroF(b) THEN ZeroF(Len(a), Sgn(a) /\ Sgn(b))
              ELSE IF FLt(a, b) THEN b ELSE a

(* sign operations work on bits, NaN included --------------------------------*)
FAbs(a) == IF Marked(a) THEN a ELSE WithSign(a, FALSE)
FNegF(a) == IF Marked(a) THEN a ELSE WithSign(a, ~Sgn(a))

(* rounding to integral: dir in {"ceil","floor","trunc","nearest"} -----------*)
FRound(a, dir) ==
  LET n == Len(a)
  IN IF IsNaN(a) THEN NaN(n)
     ELSE IF IsInf(a) \/ IsZeroF(a) \/ Exp(a) >= 0 THEN a
     ELSE LET k  == -Exp(a)
              q  == BShr(Man(a), k)
              fr == LowNZ(Man(a), k)
              half == BitB(Man(a), k - 1) = 1
              low  == LowNZ(Man(a), k - 1)
              up == CASE dir = "ceil"  -> fr /\ ~Sgn(a)
                      [] dir = "floor" -> fr /\ Sgn(a)
                      [] dir = "trunc" -> FALSE
                      [] OTHER -> half /\ (low \/ q[1] % 2 = 1)
              r  == IF up THEN BAdd(q, <<1>>) ELSE q
          IN RoundTo(n, Sgn(a), r, 0, FALSE)

(* conversions ----------------------------------------------------------------*)
(* truncation towards zero: <<ok, magnitude as unbounded natural>>             *)
TruncMag(a) == IF Exp(a) >= 0 THEN BShl(Man(a), Exp(a)) ELSE BShr(Man(a), -Exp(a))
(* does the truncated value fit n bytes, signed or unsigned?                    *)
TruncFits(a, n, signed) ==
  LET m == TruncMag(a) L == BitLen(m)
  IN IF Exp(a) + BitLen(Man(a)) > 8 * n + 1 THEN FALSE      \* the magnitude is at least 2^(8n)
     ELSE IF signed
     THEN IF Sgn(a) THEN L < 8 * n \/ (L = 8 * n /\ TrailZ(m) = 8 * n - 1)
                    ELSE L < 8 * n
     ELSE IF Sgn(a) THEN L = 0 ELSE L <= 8 * n
TruncOk(a, n, signed) == ~IsNaN(a) /\ ~IsInf(a) /\ TruncFits(a, n, signed)
TruncVal(a, n) == LET m == SubSeq(Pad(TruncMag(a), MaxI(n, Len(TruncMag(a)))), 1, n)
                  IN IF Sgn(a) THEN NegW(m) ELSE m
TruncSat(a, n, signed) ==
  IF IsNaN(a) THEN Zero(n)
  ELSE IF ~IsInf(a) /\ TruncFits(a, n, signed) THEN TruncVal(a, n)
  ELSE IF signed THEN IF Sgn(a) THEN MinS(n) ELSE WNot(MinS(n))
       ELSE IF Sgn(a) THEN Zero(n) ELSE Ones(n)
ConvertInt(a, n, signed) ==                      \* integer a to an n-byte float
  IF signed /\ Neg(a) THEN RoundTo(n, TRUE, NegW(a), 0, FALSE)
                      ELSE RoundTo(n, FALSE, a, 0, FALSE)
Resize(a, n) ==                                  \* promote / demote
  IF IsNaN(a) THEN NaN(n)
  ELSE IF IsInf(a) THEN InfF(n, Sgn(a))
  ELSE RoundTo(n, Sgn(a), Man(a), Exp(a), FALSE)
=============================================================================
