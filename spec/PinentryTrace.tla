---------------------------- MODULE PinentryTrace ----------------------------
(***************************************************************************)
(* Judges recorded dialogues by module Pinentry.  Events:                  *)
(*  ask [want, found, lines, n, exit, loose, res]                          *)
(*    want: "none", "search" or "program"; found: whether one was found    *)
(*    and could be run; started: whether one was started; typed: what was  *)
(*    entered, if lines give that; loose: whether there is something that  *)
(*    a client may or may not accept; res: [how, pw]                       *)
(*  use [want, found, lines, n, exit, loose, file, open, asked]            *)
(*    the program given the file of passphrase file: whether it opened it  *)
(*    and whether it asked at the terminal                                 *)
(*  set [rounds, file, creds]: a new passphrase asked for twice in a       *)
(*    session; what opens the file after that                              *)
(***************************************************************************)
EXTENDS Pinentry, FiniteSets, Json, TLC

Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES tid, at
vars == <<tid, at>>
Init == tid \in 1..Len(Traces) /\ at = 0
Wrong(w) == IF w = {} THEN TRUE ELSE PrintT(<<"@@", ToJson([tid |-> tid, at |-> at + 1, w |-> w])>>)

Gone(s) == s = "<cancelled>"
Out(e) == IF e.want = "none" \/ (e.want = "search" /\ ~e.found) THEN [how |-> "terminal", pw |-> <<>>]
          ELSE IF ~e.found THEN No
          ELSE Outcome(e.lines, e.n, e.exit, Gone)
Same(r, o) == r.how = o.how /\ (r.how = "ok" => r.pw = o.pw)

Judge(e) ==
  LET o == Out(e)
      loosely == IF e.loose THEN {o, No} ELSE {o} IN
  CASE e.k = "ask" ->
         (IF \E x \in loosely : Same(e.res, x) THEN {} ELSE {"passphrase"})
         \cup (IF o.how = "ok" /\ e.typed.is /\ o.pw # e.typed.p THEN {"generator"} ELSE {})
    [] e.k = "use" ->
         (IF e.open = (\E x \in loosely : x.how = "ok" /\ x.pw = e.file) \/ (e.loose /\ ~e.open) THEN {} ELSE {"opened"})
         \cup (IF e.asked = (o.how = "terminal") THEN {} ELSE {"asked"})
         \cup (IF ~e.open /\ ~e.asked /\ e.rc = 0 THEN {"status"} ELSE {})
    [] e.k = "set" ->
         LET os == {Out(e.rounds[i]) : i \in {1, 2}}
             p == (CHOOSE x \in os : TRUE).pw
             new == Cardinality(os) = 1 /\ \A x \in os : x.how = "ok" /\ x.pw # <<>> IN
         (IF e.creds = <<IF new THEN p ELSE e.file>> THEN {} ELSE {"stored"})

Step == /\ at < Len(Traces[tid].t)
        /\ at' = at + 1 /\ tid' = tid
        /\ Wrong(Judge(Traces[tid].t[at + 1]))
Next == Step
Spec == Init /\ [][Next]_vars
=============================================================================
