------------------------------ MODULE KeyTrace ------------------------------
(***************************************************************************)
(* Judges recorded sessions of user management by module KeyMgmt.          *)
(* Events:                                                                 *)
(*  start [f]             the file to begin with                           *)
(*  open  [who, ok]       the program is given these credentials           *)
(*  cmd   [c, open, crash, spoke, changed, touched]                        *)
(*  end   [saved, creds, same, salts, ivs]: whether it was rewritten, all   *)
(*        pairs that open it then of all that could, whether it holds the  *)
(*        same for all of them, and the numbers of the users' salts        *)
(***************************************************************************)
EXTENDS KeyMgmt, Json

Traces == ndJsonDeserialize("traces.ndjson")

VARIABLES tid, at, file, s, how, fresh, seen
vars == <<tid, at, file, s, how, fresh, seen>>

Idle == [multi |-> FALSE, own |-> "", ents |-> Empty, m |-> 0, top |-> 0, cur |-> ""]
SetOf(l) == {l[i] : i \in DOMAIN l}
F(x) == [multi |-> x.multi, own |-> x.own, ents |-> IF x.ents = <<>> THEN Empty ELSE x.ents, m |-> x.m, top |-> x.top]

Init == /\ tid \in 1..Len(Traces) /\ at = 0
        /\ file = F([multi |-> FALSE, own |-> "", ents |-> <<>>, m |-> 0, top |-> 0])
        /\ s = Idle /\ how = "" /\ fresh = {} /\ seen = {}

(* Which entries a command may touch: those it is about. *)
About(x, c) ==
  CASE c.c \in {"passwd", "rekey"} -> IF x.multi THEN {"user/" \o (IF c.a = <<>> THEN x.cur ELSE c.a[1])} ELSE {}
    [] c.c = "adduser" -> IF c.a = <<>> THEN {} ELSE {"user/" \o c.a[1]}
                            \cup (IF x.multi THEN {} ELSE {x.ents[i].n : i \in {j \in DOMAIN x.ents : x.ents[j].k.p # ""}})
    [] c.c = "rekeyall" -> {x.ents[i].n : i \in DOMAIN x.ents}
    [] c.c \in {"add", "rm", "mv"} -> {c.a[1]}
    [] OTHER -> {}

Wrong(w) == IF w = {} THEN TRUE ELSE PrintT(<<"@@", ToJson([tid |-> tid, at |-> at + 1, w |-> w])>>)

Step ==
  LET e == Traces[tid].t[at + 1] IN
  /\ at < Len(Traces[tid].t)
  /\ at' = at + 1 /\ tid' = tid
  /\ CASE e.k = "start" ->
            /\ file' = F(e.f) /\ s' = Idle /\ how' = "" /\ fresh' = {} /\ seen' = SetOf(e.salts) \cup SetOf(e.ivs)
            /\ Wrong(IF SetOf(e.creds) = Creds(F(e.f)) THEN {} ELSE {"start"})
       [] e.k = "open" ->
            LET may == <<e.who[1], e.who[2]>> \in Creds(file) IN
            /\ s' = IF may THEN Open(file, e.who) ELSE s
            /\ how' = IF may THEN "on" ELSE "off"
            /\ fresh' = {} /\ UNCHANGED <<file, seen>>
            /\ Wrong(IF e.ok = may THEN {} ELSE {"open"})
       [] e.k = "cmd" ->
            LET r == Do(s, e.c) IN
            /\ s' = r.s /\ how' = IF r.ends = "" THEN "on" ELSE r.ends
            /\ fresh' = fresh \cup r.fresh
            /\ UNCHANGED <<file, seen>>
            /\ Wrong((IF e.crash THEN {"crash"} ELSE {})
                     \cup (IF e.open # (r.ends = "") THEN {"ends"} ELSE {})
                     \cup (IF r.no /\ ~e.spoke THEN {"silent"} ELSE {})
                     \cup (IF r.no /\ e.changed THEN {"refused-changes"} ELSE {})
                     \cup (IF SetOf(e.touched) \subseteq About(s, e.c) THEN {} ELSE {"others-changed"}))
       [] e.k = "end" ->
            LET f == IF how = "exit" THEN Saved(s) ELSE file
                have == SetOf(e.creds) IN
            /\ file' = f /\ s' = Idle /\ how' = "" /\ fresh' = {} /\ seen' = seen \cup SetOf(e.salts) \cup SetOf(e.ivs)
            /\ Wrong((IF Creds(f) \subseteq have THEN {} ELSE {"locked-out"})
                     \cup (IF have \subseteq Creds(f) THEN {} ELSE {"let-in"})
                     \cup (IF e.same THEN {} ELSE {"contents"})
                     \cup (IF how # "exit" /\ e.saved THEN {"saved"} ELSE {})
                     \cup (IF how = "exit" /\ \E i \in DOMAIN e.names : e.names[i] \in fresh /\ e.salts[i] \in seen THEN {"salt"} ELSE {})
                     \cup (IF e.saved /\ SetOf(e.ivs) \cap seen # {} THEN {"iv"} ELSE {}))
Next == Step
Spec == Init /\ [][Next]_vars
=============================================================================
