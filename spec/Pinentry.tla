------------------------------ MODULE Pinentry ------------------------------
(***************************************************************************)
(* The dialogue with a pinentry program: what the passphrase is, given     *)
(* what the program answered and how it ended.                             *)
(*                                                                         *)
(* What the program says is a sequence of lines.  A line is [s, d, x]:     *)
(* the text, whether it is data, and the data as character codes.          *)
(***************************************************************************)
EXTENDS Integers, Sequences

Greeting == "OK Pleased to meet you"

(* Escapes, decoded once from left to right. *)
Esc == {<<<<37, 50, 53>>, 37>>, <<<<37, 48, 68>>, 13>>, <<<<37, 48, 65>>, 10>>}   \* %25 %0D %0A
EscapeAt(x, i) == {e \in Esc : i + 2 <= Len(x) /\ SubSeq(x, i, i + 2) = e[1]}
RECURSIVE DecodeFrom(_, _)
DecodeFrom(x, i) == IF i > Len(x) THEN <<>>
                    ELSE IF EscapeAt(x, i) # {} THEN <<(CHOOSE e \in EscapeAt(x, i) : TRUE)[2]>> \o DecodeFrom(x, i + 3)
                    ELSE <<x[i]>> \o DecodeFrom(x, i + 1)
Decode(x) == IF \A i \in DOMAIN x : x[i] # 37 THEN x ELSE DecodeFrom(x, 1)
RECURSIVE Encode(_)
Encode(p) == IF p = <<>> THEN <<>> ELSE
             LET es == {e \in Esc : e[2] = p[1]} IN
             (IF es = {} THEN <<p[1]>> ELSE (CHOOSE e \in es : TRUE)[1]) \o Encode(Tail(p))

Yes(p) == [how |-> "ok", pw |-> p]
No == [how |-> "error", pw |-> <<>>]

(* lines: everything that was said; n: how many settings were sent before  *)
(* the passphrase was asked for (-1: it never was); exit: the status at    *)
(* the end; gone(l): whether l says that the user cancelled.               *)
Outcome(lines, n, exit, gone(_)) ==
  LET has(i) == i <= Len(lines)
      is(i, s) == has(i) /\ lines[i].s = s
      r == n + 2 IN
  IF n < 0 \/ ~is(1, Greeting) \/ \E k \in 2..n + 1 : ~is(k, "OK") \/ ~has(r) THEN No
  ELSE IF ~has(r) THEN No
  ELSE IF gone(lines[r].s) THEN Yes(<<>>)
  ELSE IF lines[r].d THEN (IF is(r + 1, "OK") /\ exit = 0 THEN Yes(Decode(lines[r].x)) ELSE No)
  ELSE IF is(r, "OK") /\ exit = 0 THEN Yes(<<>>)
  ELSE No
=============================================================================
