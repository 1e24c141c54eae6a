-------------------------------- MODULE Text --------------------------------
(* Strings as sequences of letters. *)
EXTENDS Integers, Sequences

Letters(s) == [i \in 1..Len(s) |-> SubSeq(s, i, i)]

RECURSIVE IndexFrom(_, _, _)
IndexFrom(s, c, i) == IF i > Len(s) THEN 0 ELSE IF SubSeq(s, i, i) = c THEN i ELSE IndexFrom(s, c, i + 1)
Index(s, c) == IndexFrom(s, c, 1)                       \* 0 if it's not there

RECURSIVE Split(_, _)
Split(s, c) == LET i == Index(s, c) IN
               IF i = 0 THEN <<s>> ELSE <<SubSeq(s, 1, i - 1)>> \o Split(SubSeq(s, i + 1, Len(s)), c)

RECURSIVE Joined(_, _)
Joined(l, sep) == IF l = <<>> THEN "" ELSE IF Len(l) = 1 THEN l[1] ELSE (l[1] \o sep) \o Joined(Tail(l), sep)

StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
EndsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p

Blank == {" ", "\n", "\t", "\r"}
RECURSIVE Trim(_)
Trim(s) == IF s = "" THEN s
           ELSE IF SubSeq(s, 1, 1) \in Blank THEN Trim(SubSeq(s, 2, Len(s)))
           ELSE IF SubSeq(s, Len(s), Len(s)) \in Blank THEN Trim(SubSeq(s, 1, Len(s) - 1)) ELSE s

IsIn(x, l) == \E i \in 1..Len(l) : l[i] = x
Range(l) == {l[i] : i \in 1..Len(l)}
=============================================================================
