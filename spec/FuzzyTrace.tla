----------------------------- MODULE FuzzyTrace -----------------------------
(***************************************************************************)
(* Judges recorded matches by the matching of Session.  Of text that is not   *)
(* valid it is only said that matching ends, finds nothing missing in the  *)
(* empty query, and everything in itself.                                  *)
(***************************************************************************)
EXTENDS Session, Json

Traces == ndJsonDeserialize("traces.ndjson")
Tables == JsonDeserialize("tables.json")
TLC1(c) == IF c \in DOMAIN Tables.low THEN Tables.low[c] ELSE c
No(s) == FALSE
Id(s) == s
Zero(s) == 0

VARIABLES tid
If(b, what) == IF b THEN {what} ELSE {}
Judge(e) == If(e.res # "ok", "crash")
            \cup If(e.res = "ok" /\ e.text /\ e.m # Fuzzy(e.s, e.q), "match")
            \cup If(e.res = "ok" /\ (e.none \/ e.same) /\ ~e.m, "match")
Report(i, w) == w # {} => PrintT(<<"@@", ToJson([tid |-> tid, at |-> i, w |-> w])>>)
TInit == tid \in 1..Len(Traces) /\ log = <<>> /\ txp = 0 /\ ver = 0 /\ snap = Empty
         /\ \A i \in 1..Len(Traces[tid].t) : Report(i, Judge(Traces[tid].t[i]))
TNext == FALSE /\ UNCHANGED <<vars, tid>>
=============================================================================
