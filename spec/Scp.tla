-------------------------------- MODULE Scp --------------------------------
(***************************************************************************)
(* Moving one file over scp: what may be taken for a file that came over,  *)
(* and when a file may be said to have been sent.                          *)
(*                                                                         *)
(* What the other side sends is a line (sequence of bytes) followed by     *)
(* more, in runs [n, b]: n bytes called b; a single byte is [1, byte].     *)
(* How it ends: rc, the status (0 good), -1 without one, -2 the connection *)
(* broke.                                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences

Digit(b) == b \in 48..57
Oct(b) == b \in 48..55
Blank(b) == b \in {9, 10, 11, 12, 13, 32}

(* Words of a line. *)
RECURSIVE Words(_, _, _)
Words(l, w, ws) ==
  IF l = <<>> THEN IF w = <<>> THEN ws ELSE Append(ws, w)
  ELSE IF Blank(l[1]) THEN Words(Tail(l), <<>>, IF w = <<>> THEN ws ELSE Append(ws, w))
  ELSE Words(Tail(l), Append(w, l[1]), ws)

All(w, P(_)) == w # <<>> /\ \A i \in 1..Len(w) : P(w[i])
RECURSIVE Num(_)
Num(w) == IF w = <<>> THEN 0 ELSE 10 * Num(SubSeq(w, 1, Len(w) - 1)) + (w[Len(w)] - 48)

Ended(l) == l # <<>> /\ l[Len(l)] = 10
Body(l) == SubSeq(l, 1, Len(l) - 1)
Fields(l) == Words(Tail(Body(l)), <<>>, <<>>)

(* Headers as they are meant to be, those nobody may accept, and some      *)
(* between, of which nothing is claimed but that nothing else than what    *)
(* was announced is accepted.                                              *)
Small(w) == Len(w) < 10
Good(l) == /\ Ended(l) /\ l[1] = 67 /\ Len(Fields(l)) = 3 /\ Len(Fields(l)[1]) = 4 /\ All(Fields(l)[1], Oct)
           /\ All(Fields(l)[2], Digit) /\ Small(Fields(l)[2])
           /\ l = <<67>> \o Fields(l)[1] \o <<32>> \o Fields(l)[2] \o <<32>> \o Fields(l)[3] \o <<10>>
Plus(w) == IF w # <<>> /\ w[1] = 43 THEN Tail(w) ELSE w
Readable(l) == /\ Ended(l) /\ l[1] = 67 /\ Len(Fields(l)) >= 3
               /\ All(Plus(Fields(l)[2]), Digit) /\ Small(Plus(Fields(l)[2]))
Announced(l) == Num(Plus(Fields(l)[2]))

RECURSIVE Count(_)
Count(r) == IF r = <<>> THEN 0 ELSE r[1][1] + Count(Tail(r))
(* The runs that make up the first n bytes, if they do exactly. *)
RECURSIVE First(_, _)
First(r, n) == IF n = 0 THEN <<>> ELSE IF r = <<>> \/ r[1][1] > n THEN <<<<0, -1>>>> ELSE <<r[1]>> \o First(Tail(r), n - r[1][1])

(* What came is a whole file. *)
Whole(l, r) == LET n == Announced(l)  f == First(r, n) IN
               Count(r) > n /\ Count(f) = n /\ r[Len(f) + 1] = <<1, 0>>
Contents(l, r) == First(r, Announced(l))

(* A receiver that accepts a file must have been sent it, *)
MayAccept(l, r, rc, got) == Readable(l) /\ Whole(l, r) /\ rc = 0 /\ got = Contents(l, r)
(* and what is sent as it should be is accepted. *)
MustAccept(l, r, rc) == Good(l) /\ Whole(l, r) /\ Count(r) = Announced(l) + 1 /\ rc = 0
(* A file is missing if the other side says so. *)
Missing(l) == Ended(l) /\ l[1] = 1

(* A sender: the answers the other side gave, and how it ended. *)
MaySent(answers, rc)  == Len(answers) >= 3 /\ (\A i \in 1..3 : answers[i] = 0) /\ rc = 0
MustSent(answers, rc) == answers = <<0, 0, 0>> /\ rc = 0
(* What it must have been sent. *)
SentRight(l, r, size, mode, data) ==
  /\ Good(l) /\ Announced(l) = size /\ Fields(l)[1] = mode
  /\ Count(r) = size + 1 /\ r = data \o <<<<1, 0>>>>
=============================================================================
