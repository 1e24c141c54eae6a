------------------------------ MODULE HostKeys ------------------------------
(***************************************************************************)
(* Whom the program talks to over ssh.  An entry records the hosts known   *)
(* as lines; a line is the sequence of its fields: host, address, type and *)
(* hash of the key.                                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences

Line(h, a, t, k) == <<h, a, t, k>>
(* The first line of a host is the one that counts. *)
Recorded(known, h) == {i \in 1..Len(known) : known[i] # <<>> /\ known[i][1] = h /\ \A j \in 1..(i - 1) : known[j] = <<>> \/ known[j][1] # h}
Decide(known, h, t, k) ==
  IF Recorded(known, h) = {} THEN "ask"
  ELSE LET l == known[CHOOSE i \in Recorded(known, h) : TRUE] IN
       IF Len(l) = 4 /\ l[3] = t /\ l[4] = k THEN "go" ELSE "refuse"
Yes(a) == a \in {"y", "Y"}
Goes(known, h, t, k, a) == LET d == Decide(known, h, t, k) IN d = "go" \/ (d = "ask" /\ Yes(a))
(* A confirmed key is recorded next to those already there. *)
None(known) == known = <<>> \/ known = <<<<"">>>>
Record(known, l) == IF None(known) THEN <<l>> ELSE Append(known, l)
=============================================================================
