---------------------------- MODULE DurableTrace ----------------------------
(***************************************************************************)
(* Judges the operations of real runs, in every state they may leave       *)
(* behind, and how the runs ended.  Events:                                *)
(*  start [files, links, targets]: files: name, identity and contents of   *)
(*    each file there is; targets: the names that matter, with what are    *)
(*    complete contents of it and whether it may be absent                 *)
(*  op: an operation, see Durable                                          *)
(*  end: how it ended, see Durable!Outcome                                 *)
(***************************************************************************)
EXTENDS Durable, Json

Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES tid, at, fs, about
vars == <<tid, at, fs, about>>
Nothing == [dir |-> <<>>, dirs |-> {<<>>}, now |-> <<>>, dur |-> <<>>, wild |-> {}]
Init == tid \in 1..Len(Traces) /\ at = 0 /\ fs = Nothing /\ about = <<>>
Wrong(w) == IF w = {} THEN TRUE ELSE PrintT(<<"@@", ToJson([tid |-> tid, at |-> at + 1, w |-> w])>>)
Range(s) == {s[i] : i \in 1..Len(s)}

Start(e) == LET names == {e.files[i].name : i \in 1..Len(e.files)}
                of(n) == CHOOSE i \in 1..Len(e.files) : e.files[i].name = n
                dir == [n \in names |-> e.files[of(n)].id]
                ids == {e.files[i].id : i \in 1..Len(e.files)}
                tok(d) == e.files[CHOOSE i \in 1..Len(e.files) : e.files[i].id = d].tok IN
  [dir |-> dir, dirs |-> {dir}, now |-> [d \in ids |-> tok(d)], dur |-> [d \in ids |-> {tok(d)}], wild |-> {}]
Links(e) == [n \in {e.links[i].name : i \in 1..Len(e.links)} |-> e.links[CHOOSE i \in 1..Len(e.links) : e.links[i].name = n].to]

Complete(t) == Range(t.complete) \cup (IF t.absent THEN {Absent} ELSE {})
Hurt == {about.targets[i].name : i \in {j \in 1..Len(about.targets) :
           ~Safe(fs', about.targets[j].name, Links(about), Complete(about.targets[j]))}}

Step == /\ at < Len(Traces[tid].t)
        /\ at' = at + 1 /\ tid' = tid
        /\ LET e == Traces[tid].t[at + 1] IN
           CASE e.k = "start" -> fs' = Start(e) /\ about' = e
             [] e.k = "end" -> UNCHANGED <<fs, about>> /\ Wrong(Outcome(e))
             [] OTHER -> fs' = Apply(fs, e) /\ about' = about /\ Wrong({"unsafe " \o n : n \in Hurt})
Next == Step
Spec == Init /\ [][Next]_vars
=============================================================================
