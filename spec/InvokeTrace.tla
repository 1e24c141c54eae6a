---------------------------- MODULE InvokeTrace ----------------------------
(***************************************************************************)
(* Judges recorded runs of the real program by module Invoke.  A trace is  *)
(* [fs, t]: the files at first and the runs, each                          *)
(*  [r, works, status, asks, seen, files, extra]: the run, whether it got  *)
(*  to work on its file, its status, what it asked before that, the        *)
(*  entries that it listed or exported, the files after it, and whatever   *)
(*  else changed.                                                          *)
(***************************************************************************)
EXTENDS Invoke, Naturals, Json, TLC

Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES tid, at
vars == <<tid, at>>
Init == tid \in 1..Len(Traces) /\ at = 0
Wrong(w) == IF w = {} THEN TRUE ELSE PrintT(<<"@@", ToJson([tid |-> tid, at |-> at + 1, w |-> w])>>)

Range(s) == {s[i] : i \in 1..Len(s)}
World(fs) == [p \in DOMAIN fs |-> [k |-> fs[p].k, pass |-> fs[p].pass, user |-> fs[p].user, names |-> Range(fs[p].names)]]

Judge(fs, e) ==
  LET o == Outcome(e.r, fs) IN
  (IF e.status = o.status THEN {} ELSE {"status"})
  \cup (IF e.works = o.works \/ e.r.cmd = "nolpass" THEN {} ELSE {"opened"})
  \cup (IF fs[Target(e.r)].k \in {"dir", "junk"} \/ e.asks = o.asks THEN {} ELSE {"asked"})
  \cup (IF Range(e.seen) = o.seen THEN {} ELSE {"shown"})
  \cup (IF World(e.files) = o.files THEN {} ELSE {"files"})
  \cup (IF e.extra = <<>> THEN {} ELSE {"other files"})

Step == /\ at < Len(Traces[tid].t)
        /\ at' = at + 1 /\ tid' = tid
        /\ Wrong(Judge(World(IF at = 0 THEN Traces[tid].fs ELSE Traces[tid].t[at].files), Traces[tid].t[at + 1]))
Next == Step
Spec == Init /\ [][Next]_vars
=============================================================================
