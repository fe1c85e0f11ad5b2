-------------------------------- MODULE Draw --------------------------------
(***************************************************************************)
(* A reproducible source of choices inside the specification: three small  *)
(* multiplicative generators (Wichmann-Hill).  A behaviour is determined   *)
(* by its initial seed, so every generated program can be regenerated.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt
Seeded(k, base) == <<1 + ((k * 7919 + base * 31) % 30268), 1 + ((k * 104 + base * 7) % 30306),
                     1 + ((k * 31 + base * 1009 + 17) % 30322)>>
Tick(s) == <<(s[1] * 171) % 30269, (s[2] * 172) % 30307, (s[3] * 170) % 30323>>
Val(s) == (s[1] * 554 + s[2] * 277 + s[3] * 911) % 16777216
N24 == [i \in 1..24 |-> i]
(* <<24 numbers below 2^24, next state>> *)
Draw24(s) == FoldLeft(LAMBDA acc, i : LET t == Tick(acc[2]) IN <<Append(acc[1], Val(t)), t>>, <<<<>>, s>>, N24)
=============================================================================
