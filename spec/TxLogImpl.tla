----------------------------- MODULE TxLogImpl -----------------------------
(***************************************************************************)
(* txlogs.DB step by step: an incrementally applied snapshot, invalidated  *)
(* by the undo operations.  TLC checks that it refines TxLog, and uses it  *)
(* to generate the histories that the real package is driven through.      *)
(***************************************************************************)
EXTENDS TxLog, TLC, Json

CONSTANTS Ents, Keys, Vals, MaxLog, MaxOps,
          StaleRollback   \* TRUE: the defect fixed in /repo ("Version > txPoint")

VARIABLES born,   \* entries ever added (uuids are never reused)
          hist    \* the operations so far (hidden by the VIEW)

ivars == <<log, txp, ver, snap, born>>
View  == <<log, txp, ver, snap, born>>

IInit == Init /\ born = {} /\ hist = <<>>

Note(o) == hist' = Append(hist, o)

(* UpdateSnapshot: apply one change after the other, stop at the first that fails *)
RECURSIVE Advance(_, _)
Advance(v, s) ==
  IF v >= Len(log) THEN <<v, s>>
  ELSE LET n == Apply(s, log[v + 1]) IN
       IF n = BAD THEN <<v, s>> ELSE Advance(v + 1, n)

IAdd(u) == /\ u \notin born /\ Len(log) < MaxLog
           /\ log' = Append(log, [kind |-> "add", u |-> u, k |-> "", v |-> "", tm |-> ""])
           /\ born' = born \cup {u} /\ UNCHANGED <<txp, ver, snap>>
           /\ Note([op |-> "add", u |-> u])
ITx(t) == /\ Len(log) < MaxLog /\ t.u \in born
          /\ log' = Append(log, t) /\ UNCHANGED <<txp, ver, snap, born>>
ISet(u, k, v) == ITx([kind |-> "setk", u |-> u, k |-> k, v |-> v, tm |-> ""]) /\ Note([op |-> "set", u |-> u, k |-> k, v |-> v])
IDel(u)     == ITx([kind |-> "del", u |-> u, k |-> "", v |-> "", tm |-> ""]) /\ Note([op |-> "del", u |-> u])
IDelK(u, k) == ITx([kind |-> "delk", u |-> u, k |-> k, v |-> "", tm |-> ""]) /\ Note([op |-> "delk", u |-> u, k |-> k])

IBegin  == txp = 0 /\ txp' = Len(log) + 1 /\ UNCHANGED <<log, ver, snap, born>> /\ Note([op |-> "begin"])
ICommit == txp # 0 /\ txp' = 0 /\ UNCHANGED <<log, ver, snap, born>> /\ Note([op |-> "commit"])

IRollback == /\ txp # 0
             /\ IF (IF StaleRollback THEN ver > txp ELSE ver >= txp)
                THEN ver' = 0 /\ snap' = Empty
                ELSE UNCHANGED <<ver, snap>>
             /\ log' = Prefix(log, txp - 1) /\ txp' = 0 /\ UNCHANGED born
             /\ Note([op |-> "rollback"])

IUndo(n) == /\ txp = 0 /\ n >= 1
            /\ IF n > Len(log) THEN UNCHANGED <<log, ver, snap>>
               ELSE /\ log' = Prefix(log, Len(log) - n)
                    /\ IF ver > Len(log) - n THEN ver' = 0 /\ snap' = Empty
                       ELSE UNCHANGED <<ver, snap>>
            /\ UNCHANGED <<txp, born>>
            /\ Note([op |-> "undo", n |-> n])

IUpdate == /\ LET r == Advance(ver, snap) IN ver' = r[1] /\ snap' = r[2]
           /\ UNCHANGED <<log, txp, born>>
           /\ Note([op |-> "update"])

IReset == ver' = 0 /\ snap' = Empty /\ UNCHANGED <<log, txp, born>> /\ Note([op |-> "reset"])
IReload == txp = 0 /\ UNCHANGED ivars /\ Note([op |-> "reload"])

INext == /\ Len(hist) < MaxOps
         /\ \/ \E u \in Ents : IAdd(u) \/ IDel(u)
            \/ \E u \in Ents, k \in Keys : IDelK(u, k) \/ \E v \in Vals : ISet(u, k, v)
            \/ IBegin \/ ICommit \/ IRollback
            \/ \E n \in 1..3 : IUndo(n)
            \/ IUpdate \/ IReset \/ IReload

ISpec == IInit /\ [][INext]_<<ivars, hist>>

(* Refinement: every implementation step is a step of TxLog. *)
AbsNext == \/ \E u \in Ents, k \in Keys \cup {""}, v \in Vals \cup {""}, kd \in {"add", "del", "setk", "delk"} :
                 Record([kind |-> kd, u |-> u, k |-> k, v |-> v, tm |-> ""])
           \/ Begin \/ Commit \/ Rollback \/ (\E n \in 1..3 : Undo(n)) \/ Drop
Refines == [][AbsNext]_vars

(* Rolling back gives back exactly what was there when the transaction began. *)
RollbackExact == [][(txp # 0 /\ txp' = 0 /\ log' # log) => log' = Prefix(log, txp - 1)]_vars

(* One scenario per transition of the state graph. *)
Emit == PrintT(<<"@@", ToJson(hist')>>)
(* One scenario per simulated behaviour. *)
EmitEnd == (Len(hist) = MaxOps) => PrintT(<<"@@", ToJson(hist)>>)
=============================================================================
