----------------------------- MODULE MergeTrace -----------------------------
(***************************************************************************)
(* Runs of the real Merge, on devices that edit and exchange copies, judged *)
(* against Merge and against the laws of Replicas.  One run per line:      *)
(* edits (input), every call of Merge with the decisions handed to it and  *)
(* its outcome, and, for the copies the run ended in, the laws between     *)
(* every two (three) of them evaluated on outcomes of the real code.       *)
(***************************************************************************)
EXTENDS Merge, Json

Traces == ndJsonDeserialize("traces.ndjson")
CONSTANT Judge   \* which rules are judged: a set out of {"C04", "C05", "C06"}

VARIABLES tid, l, logs, resolved

Ev == Traces[tid].t[l]
Is(op) == l <= Len(Traces[tid].t) /\ Ev.op = op /\ l' = l + 1 /\ tid' = tid /\ UNCHANGED vars
On(p, cond) == p \in Judge => cond

RECURSIVE ResOf(_, _)
ResOf(s, n) ==
  IF n = 0 THEN NoRes
  ELSE LET R == ResOf(s, n - 1) IN
       CASE s[n].how = "force"   -> [R EXCEPT !.force = TRUE]
         [] s[n].how = "restore" -> [R EXCEPT !.di = @ \cup {s[n].initial}]
         [] OTHER                -> [R EXCEPT !.dc = @ \cup {s[n].initial}]

Fine(a, b, c) == IF resolved THEN Elems(c) = Elems(a) \cup Elems(b) /\ Len(c) = Cardinality(Elems(c))
                             ELSE Complete(a, b, c)

Kinds(conf) == {<<conf[n].kind, conf[n].initial>> : n \in {m \in 1..Len(conf) : conf[m].kind = "deleteset"}}

TInit == Init /\ tid \in 1..Len(Traces) /\ l = 1 /\ logs = Empty /\ resolved = FALSE

TNext ==
  \/ Is("init") /\ logs' = Ev.logs /\ resolved' = FALSE
  \/ Is("edit") /\ logs' = [logs EXCEPT ![Ev.d] = Append(@, Ev.tx)] /\ UNCHANGED resolved
  \/ Is("merge") /\ Ev.ok
     /\ LET a == logs[Ev.d]  b == logs[Ev.e]  R == ResOf(Ev.res, Len(Ev.res))
            m == Merge(a, b, R) IN
        \* the same verdict, the same outcome
        /\ On("C06", Ev.conf = m.conf)
        /\ (Ev.conf = <<>> /\ m.conf = <<>>) => Ev.c = m.c
        /\ Ev.conf # <<>> => Ev.c = <<>>
        /\ (Ev.conf = <<>> /\ R = NoRes) => On("C04", Fine(a, b, Ev.c))
        /\ (Ev.conf = <<>> /\ R # NoRes) => On("C06", CompleteUnder(a, b, Ev.c, R))
     /\ UNCHANGED <<logs, resolved>>
  \/ Is("adopt") /\ On("C04", Ev.valid) /\ On("C06", Ev.valid)
     /\ logs' = [logs EXCEPT ![Ev.d] = Ev.c]
     /\ resolved' = (resolved \/ Ev.resolved)
  \/ Is("undecided") /\ On("C06", Ev.before = Ev.after) /\ UNCHANGED <<logs, resolved>>
  \/ Is("laws")
     /\ LET a == logs[Ev.d]  b == logs[Ev.e] IN
        /\ On("C05", Ev.ab.c = Ev.ba.c /\ Ev.ab.ok /\ Ev.ba.ok)
        /\ On("C05", Ev.ab.conf = <<>> <=> Ev.ba.conf = <<>>)
        /\ On("C06", Kinds(Ev.ab.conf) = Kinds(Ev.ba.conf))
        /\ On("C06", Ev.ab.conf = Merge(a, b, NoRes).conf)
        /\ Ev.ab.conf = <<>> =>
             /\ On("C04", Fine(a, b, Ev.ab.c) /\ Ev.valid)
             /\ On("C05", Ev.m1.c = Ev.ab.c /\ Ev.m2.c = Ev.ab.c /\ Ev.m3.c = Ev.ab.c)
             /\ On("C05", Ev.m1.conf = <<>> /\ Ev.m2.conf = <<>> /\ Ev.m3.conf = <<>>)
     /\ UNCHANGED <<logs, resolved>>
  \/ Is("assoc")
     \* Which three copies agree does not depend on who met whom first.
     /\ On("C05", (Ev.l.conf = <<>> /\ Ev.r.conf = <<>>) =>
                     IF resolved THEN Elems(Ev.l.c) = Elems(Ev.r.c) ELSE Ev.l.c = Ev.r.c)
     /\ UNCHANGED <<logs, resolved>>

Reach == TLCGet(tid) < l => TLCSet(tid, l)
ASSUME \A i \in 1..Len(Traces) : TLCSet(i, 0)
Accepted == \A i \in 1..Len(Traces) :
              TLCGet(i) > Len(Traces[i].t) \/ PrintT(<<"@@", ToJson([tid |-> i, at |-> TLCGet(i)])>>)
=============================================================================
