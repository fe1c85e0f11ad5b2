------------------------------- MODULE Damage -------------------------------
(***************************************************************************)
(* Restoring from a file that may not be what was stored.  A process stores *)
(* a checkpoint of a guest at some look; then the file, or the module next  *)
(* to it, is changed once; then a fresh process is asked to restore.  The   *)
(* file is judged as a whole: it is either exactly what was stored for      *)
(* exactly this module, and the guest continues, or it is refused before    *)
(* the guest does anything.                                                 *)
(*                                                                          *)
(* Positions count from the front or from the back of the file, whose       *)
(* length the model does not know: positions past the end change nothing,   *)
(* and then the restore has to succeed.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS BYTES,     \* file positions enumerated one by one
          GUESTS, LOOKS, VARIANTS,
          FINE,      \* guests for which every bit of every position is flipped
          PADS       \* how much a module is made longer before it is changed at a distance

Kinds == {"none", "missing", "empty", "directory", "unsealed", "slow", "noopen"}
Flip(a, i, b) == [k |-> "flip", from |-> a, i |-> i, b |-> b]
Damages(g, l) ==
       {[k |-> x] : x \in Kinds}
  \cup {[k |-> "cut", from |-> a, i |-> i] : a \in {"front", "back"}, i \in 0..BYTES}        \* keep, or remove, i bytes
  \cup (IF g \in FINE /\ l = 1 THEN {Flip("front", i, b) : i \in 0..BYTES, b \in 0..7} \cup {Flip("back", i, b) : i \in 0..40, b \in 0..7}
        ELSE {Flip("front", 5 * i + (l % 5), (i + l) % 8) : i \in 0..(BYTES \div 5)} \cup {Flip("back", i, i % 8) : i \in 0..15})
  \cup {[k |-> "remove", from |-> "front", i |-> 3 * i, n |-> n] : i \in 0..(BYTES \div 6), n \in {1, 8}}
  \cup {[k |-> "insert", from |-> "front", i |-> 3 * i, n |-> n] : i \in 0..(BYTES \div 6), n \in {1, 8}}
  \cup {[k |-> "zero", from |-> "front", i |-> 4 * i, n |-> n] : i \in 0..(BYTES \div 8), n \in {4, 64}}
  \cup {[k |-> "exchange", from |-> "front", i |-> 8 * i, n |-> 8] : i \in 0..(BYTES \div 8)}    \* two neighbouring words
  \cup {[k |-> "append", n |-> n] : n \in {1, 7, 8, 9, 4096}}
  \cup {[k |-> "other", g |-> h] : h \in GUESTS \ {g}}                                           \* another guest's checkpoint
  \cup {[k |-> "splice", from |-> "front", i |-> 7 * i] : i \in 0..(BYTES \div 7)}               \* head of this one, tail of a later one
  \cup {[k |-> "variant", v |-> v] : v \in VARIANTS}                                             \* the module is another one
  \cup {[k |-> "iofail", i |-> i] : i \in 1..24}                                                 \* the i-th host call on the file fails
  (* the guest inside a longer module: `size` bytes of a segment, instructions, or functions it never uses come after it,
     and the module restored differs in the one that is at/12 of the way along, or (12) nowhere *)
  \cup (IF l = 1 THEN {[k |-> "far", pad |-> w, size |-> z, at |-> a] : w \in {"data", "code", "funcs"}, z \in PADS, a \in 0..12} ELSE {})
VARIABLES file, module, guest, look, dmg, out
vars == <<file, module, guest, look, dmg, out>>
(* contents are compared, never inspected: <<guest, look>> is what was stored, anything else is damage *)
Init == /\ guest \in GUESTS /\ look \in 1..LOOKS
        /\ file = <<"stored", guest, look>> /\ module = <<guest, 0>> /\ dmg = [k |-> "none"] /\ out = "stored"
Harmless == {"none", "slow"}
Hit == /\ out = "stored"
       /\ \E d \in Damages(guest, look) :
            /\ dmg' = d
            /\ file' = IF d.k \in Harmless \cup {"variant", "far"} THEN file ELSE <<"damaged", 0, 0>>
            /\ module' = IF d.k = "variant" THEN <<guest, d.v>> ELSE IF d.k = "far" /\ d.at < 12 THEN <<guest, d.at + 100>> ELSE module
       /\ out' = "damaged" /\ UNCHANGED <<guest, look>>
Fits == file = <<"stored", guest, look>> /\ module = <<guest, 0>>
Restore == /\ out = "damaged"
           /\ out' = IF Fits THEN "resumed" ELSE "refused"
           /\ PrintT(ToJson([guest |-> guest, look |-> look, d |-> dmg, want |-> out']))
           /\ UNCHANGED <<file, module, guest, look, dmg>>
Next == Hit \/ Restore
(* the guest runs only from what was stored for it *)
OnlyWhole == out = "resumed" => dmg.k \in Harmless \/ (dmg.k = "far" /\ dmg.at = 12)
=============================================================================
