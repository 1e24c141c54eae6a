--------------------------- MODULE PasswordsTrace ---------------------------
(***************************************************************************)
(* Judges recorded dialogues by module Passwords.  Events:                 *)
(*  start [shown, again]              after the program has started        *)
(*  line  [l, hidden, clips, end, shown, again, crash]                     *)
(*         l a line, hidden: what was typed at hidden prompts after it,    *)
(*         end: the program has ended, with status ok or not and text put  *)
(*         out; shown: the passwords seen (none or one), again: whether    *)
(*         that was shown before, anywhere                                 *)
(*  batch [n, shown, all, chars]: n times enter; the different passwords   *)
(*         shown; whether all meeting ones must have occurred; whether     *)
(*         every character must have occurred at every place               *)
(***************************************************************************)
EXTENDS Passwords, Json, TLC

Real == "u" :> {65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90}
     @@ "l" :> {97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122}
     @@ "n" :> {48, 49, 50, 51, 52, 53, 54, 55, 56, 57}
     @@ "b" :> {33, 64, 35, 36, 37, 94, 38, 42}
     @@ "e" :> {40, 41, 95, 43, 45, 61, 60, 62, 44, 46, 123, 125, 91, 93, 92, 124, 63, 47, 126, 34, 39, 96}

Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES tid, at, req, shown
vars == <<tid, at, req, shown>>

(* shown is <<>> or <<password>> *)
Shown(r, s, again) ==
  IF s = <<>> THEN (IF Feasible(r) /\ r.len <= Refusable THEN {"refused"} ELSE {})
  ELSE (IF Feasible(r) THEN {} ELSE {"impossible"}) \cup Faults(s[1], r)
       \cup (IF again /\ r.len >= 20 THEN {"not-new"} ELSE {})

(* What must occur in many passwords for the same request. *)
Places(r, S) ==
  LET slack == Needed(r) < r.len
      may(k) == r.set[k] > 0 \/ (r.set[k] = 0 /\ slack) IN
  \A k \in Ks : may(k) => \A i \in 1..r.len : \E p \in S : p[i] \in Kinds[k]

Init == /\ tid \in 1..Len(Traces) /\ at = 0 /\ req = Default /\ shown = <<>>
Wrong(w) == IF w = {} THEN TRUE ELSE PrintT(<<"@@", ToJson([tid |-> tid, at |-> at + 1, w |-> w])>>)

Step ==
  LET e == Traces[tid].t[at + 1] IN
  /\ at < Len(Traces[tid].t)
  /\ at' = at + 1 /\ tid' = tid
  /\ CASE e.k = "start" -> req' = Default /\ shown' = e.shown /\ Wrong(Shown(Default, e.shown, e.again))
       [] e.k = "line" ->
            LET a == Ask(req, e.l)
                same == e.shown = shown /\ ~e.end.is
                new == Shown(a.req, e.shown, e.again)
                left == e.l.gone \/ \E i \in DOMAIN e.hidden : e.hidden[i].gone
                acc(text) == IF e.end.is /\ e.end.ok /\ e.end.text = text THEN {} ELSE {"accepted"}
                stay == IF e.end.is THEN {"ended"} ELSE {}
                noclip == IF e.clips = <<>> THEN {} ELSE {"clipboard"} IN
            /\ req' = a.req /\ shown' = e.shown
            /\ Wrong((IF e.crash THEN {"crash"} ELSE {}) \cup
                 CASE left -> (IF e.end.is /\ ~e.end.ok THEN {} ELSE {"gave-up"}) \cup noclip
                   [] a.m = "accept" /\ shown # <<>> -> acc(shown[1]) \cup noclip
                   [] a.m = "accept" -> stay \cup (IF same THEN {} ELSE new) \cup noclip
                   [] a.m = "manual" -> noclip \cup
                        IF Len(e.hidden) # 2 THEN {"not-twice"}
                        ELSE IF e.hidden[1].p = e.hidden[2].p THEN acc(e.hidden[1].p)
                        ELSE stay \cup (IF same THEN {} ELSE new)
                   [] a.m = "copy" -> stay \cup (IF e.shown = shown THEN {} ELSE {"another"})
                        \cup (IF e.clips = shown THEN {} ELSE {"clipboard"})
                   [] a.m = "again" -> stay \cup new \cup noclip
                   [] OTHER -> stay \cup noclip \cup (IF same THEN {} ELSE new))
       [] e.k = "batch" ->
            LET S == {e.shown[i] : i \in DOMAIN e.shown}
                f == UNION {Faults(p, req) : p \in S} IN
            /\ UNCHANGED <<req, shown>>
            /\ Wrong(IF S = {} \/ f # {} THEN f \cup {"batch"} ELSE
                     (IF Places(req, S) THEN {} ELSE {"places"})
                     \cup (IF e.all => S = Meeting(req) THEN {} ELSE {"some-never"})
                     \cup (IF e.chars => \A c \in Allowed(req), i \in 1..req.len : \E p \in S : p[i] = c THEN {} ELSE {"character-never"}))
Next == Step
Spec == Init /\ [][Next]_vars
=============================================================================
