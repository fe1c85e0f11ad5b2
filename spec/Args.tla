-------------------------------- MODULE Args --------------------------------
(***************************************************************************)
(* How the text after --app-args becomes the guest's argument vector: one  *)
(* transition per character.  Words are separated by spaces; a double      *)
(* quote begins or ends a stretch in which spaces are ordinary characters, *)
(* and makes a word even if nothing is in it.  Every text of up to LENGTH  *)
(* characters over Alphabet is a state; each is printed with its vector.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json
CONSTANTS LENGTH, WIDE
(* a " space e-acute backslash; or: tab newline space " # $ ' , - / = \ ` a e-acute euro { and a rocket *)
Alphabet == IF WIDE THEN {9, 10, 32, 34, 35, 36, 39, 44, 45, 47, 61, 92, 96, 97, 233, 8364, 123, 128640}
            ELSE {97, 34, 32, 233, 92}
VARIABLES text, quoted, begun, word, argv
vars == <<text, quoted, begun, word, argv>>
Init == text = <<>> /\ quoted = FALSE /\ begun = FALSE /\ word = <<>> /\ argv = <<>>
Read(c) ==
  /\ text' = Append(text, c)
  /\ IF c = 34 THEN quoted' = ~quoted /\ begun' = TRUE /\ UNCHANGED <<word, argv>>
     ELSE IF c = 32 /\ ~quoted
     THEN /\ argv' = IF begun THEN Append(argv, word) ELSE argv
          /\ begun' = FALSE /\ word' = <<>> /\ UNCHANGED quoted
     ELSE word' = Append(word, c) /\ begun' = TRUE /\ UNCHANGED <<quoted, argv>>
Vector == IF begun THEN Append(argv, word) ELSE argv
Next == /\ Len(text) < LENGTH
        /\ \E c \in Alphabet : Read(c)
        /\ PrintT(ToJson([kind |-> "args", text |-> text', argv |-> Vector']))
(* nothing but quotes and separating spaces is lost, and order is kept *)
Ink(t) == SelectSeq(t, LAMBDA c : c \notin {32, 34})
FlatA(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)
Kept == Ink(FlatA(Vector)) = Ink(text)
=============================================================================
