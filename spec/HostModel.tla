----------------------------- MODULE HostModel -----------------------------
(***************************************************************************)
(* An entry that is synced again and again with hosts whose keys change,   *)
(* also between a pull and the push after it, while the user answers and   *)
(* edits what is recorded.                                                 *)
(***************************************************************************)
EXTENDS HostKeys, FiniteSets, Json, TLC

CONSTANTS Hosts, Keys, MaxSteps, Control

VARIABLES known,   \* what the entry records
          sent,    \* whom something was sent to by the last sync
          asked,   \* about whom the last sync asked
          vouched, \* what the user confirmed or recorded, and did not take back
          fresh,   \* what was vouched for before the last sync
          n, hist
vars == <<known, sent, asked, vouched, fresh, n, hist>>
View == <<known, sent, asked, vouched, fresh, n>>

T(k) == k[1]
K(k) == k[2]
L(h, k) == Line(h, "a", T(k), K(k))

Init == known = <<>> /\ sent = {} /\ asked = {} /\ vouched = {} /\ fresh = {} /\ n = 0 /\ hist = <<>>

(* One connection: what it does to [known, sent, asked, ok]. *)
Dec(kn, h, k) == IF Control = "type" /\ Recorded(kn, h) # {} /\ Decide(kn, h, T(k), kn[CHOOSE i \in Recorded(kn, h) : TRUE][4]) = "go" THEN "go"
                 ELSE Decide(kn, h, T(k), K(k))
Conn(s, h, k, a, push) ==
  IF push /\ Control = "push" THEN [s EXCEPT !.sent = @ \cup {<<h, k>>}]
  ELSE LET d == Dec(s.known, h, k) IN
       IF d = "refuse" THEN [s EXCEPT !.ok = FALSE]
       ELSE IF d = "go" THEN [s EXCEPT !.sent = @ \cup {<<h, k>>}]
       ELSE IF ~Yes(a) THEN [s EXCEPT !.ok = FALSE, !.asked = @ \cup {<<h, k>>}]
       ELSE [known |-> IF Control = "forget" THEN <<L(h, k)>> ELSE Record(s.known, L(h, k)),
             sent |-> s.sent \cup {<<h, k>>}, asked |-> s.asked \cup {<<h, k>>}, ok |-> TRUE]

Sync == \E h \in Hosts, k1 \in Keys, k2 \in Keys, a1 \in {"y", "n"}, a2 \in {"y", "n"}, there \in {"absent", "ahead", "same"} :
  LET s0 == [known |-> known, sent |-> {}, asked |-> {}, ok |-> TRUE]
      s1 == Conn(s0, h, k1, a1, FALSE)
      s2 == IF s1.ok /\ (there # "same" \/ s1.known # known) THEN Conn(s1, h, k2, a2, TRUE) ELSE s1
  IN /\ known' = s2.known /\ sent' = s2.sent /\ asked' = s2.asked
     /\ vouched' = vouched \cup {x \in s2.asked : Goes(<<>>, x[1], T(x[2]), K(x[2]), IF x = <<h, k1>> THEN a1 ELSE a2)}
     /\ fresh' = vouched
     /\ hist' = Append(hist, [op |-> "sync", h |-> h, k1 |-> k1, k2 |-> k2, a1 |-> a1, a2 |-> a2, there |-> there])
Edit == /\ \/ /\ known' = <<>> /\ vouched' = {} /\ hist' = Append(hist, [op |-> "forget"])
           \/ \E i \in 1..Len(known) : /\ known' = [known EXCEPT ![i] = SubSeq(@, 1, 3)]
                                       /\ vouched' = {x \in vouched : i \notin Recorded(known, x[1])}
                                       /\ hist' = Append(hist, [op |-> "break", i |-> i])
           \/ \E h \in Hosts, k \in Keys : /\ known' = <<L(h, k)>> \o known
                                          /\ vouched' = {x \in vouched : x[1] # h} \cup {<<h, k>>}
                                          /\ hist' = Append(hist, [op |-> "put", h |-> h, k |-> k])
        /\ fresh' = vouched' /\ sent' = {} /\ asked' = {}
Next == n < MaxSteps /\ n' = n + 1 /\ (Sync \/ Edit)
Spec == Init /\ [][Next]_vars

(* Nothing is sent but to a host whose key the user vouched for. *)
OnlyVouched == sent \subseteq vouched
(* What was vouched for is not asked about. *)
NotAgain == asked \cap {x \in fresh : Decide(known, x[1], T(x[2]), K(x[2])) # "refuse"} = {}
(* What was confirmed is kept. *)
Kept == \A x \in vouched : Decide(known, x[1], T(x[2]), K(x[2])) # "ask"
(* No host has two. *)
One == \A x, y \in sent : x[1] = y[1] => x[2] = y[2]

MKeys == {<<"ed", "k1">>, <<"ed", "k2">>, <<"rsa", "k3">>}

MEnd == n = MaxSteps => PrintT(<<"@@", ToJson([h |-> hist])>>)
=============================================================================
