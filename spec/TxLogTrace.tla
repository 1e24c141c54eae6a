---------------------------- MODULE TxLogTrace -----------------------------
(***************************************************************************)
(* Trace validation for TxLog.  traces.ndjson holds one recorded run of    *)
(* the real package per line: [t |-> <<event, ...>>].  Every event is the  *)
(* operation, its arguments and result, and the complete state after it.   *)
(***************************************************************************)
EXTENDS TxLog, TLC, Json

Traces == ndJsonDeserialize("traces.ndjson")

VARIABLES tid, l

tvars == <<log, txp, ver, snap, tid, l>>
Ev == Traces[tid].t[l]

Obs(e) == log' = e.log /\ ver' = e.ver /\ snap' = e.snap

IsOp(name) == l <= Len(Traces[tid].t) /\ Ev.op = name /\ l' = l + 1 /\ tid' = tid /\ Obs(Ev)
IsOk(name)  == IsOp(name) /\ Ev.res = "ok"
IsErr(name) == IsOp(name) /\ Ev.res = "err"
IsPanic(name) == IsOp(name) /\ Ev.res = "panic"

Tx(kd, u, k, v) == [kind |-> kd, u |-> u, k |-> k, v |-> v, tm |-> Ev.tm]
Made(t) == Ev.fresh /\ Record(t)   \* stamped with the moment of the call

SameAs(f, g) == DOMAIN f = DOMAIN g /\ \A x \in DOMAIN f : f[x] = g[x]

TNext ==
  \/ IsOk("add")    /\ Made(Tx("add", Ev.u, "", ""))
  \/ IsOk("set")    /\ Made(Tx("setk", Ev.u, Ev.k, Ev.v))
  \/ IsOk("del")    /\ Made(Tx("del", Ev.u, "", ""))
  \/ IsOk("delk")   /\ Made(Tx("delk", Ev.u, Ev.k, ""))
  \/ IsOk("begin")  /\ Begin
  \/ IsPanic("begin") /\ txp # 0 /\ Look
  \/ IsOk("commit") /\ Commit
  \/ IsPanic("commit") /\ txp = 0 /\ Look
  \/ IsOk("rollback") /\ Rollback
  \/ IsPanic("rollback") /\ txp = 0 /\ Look
  \/ IsOk("undo")   /\ Undo(Ev.n)
  \/ IsErr("undo")  /\ UndoFail(Ev.n)
  \/ IsOk("update") /\ Update
  \/ IsErr("update") /\ UpdateFail
  \/ IsOk("reset")  /\ Drop
  \/ IsOk("reload") /\ Reload
  \/ IsErr("reload") /\ txp # 0 /\ Look
  \/ IsOk("clock")  /\ Reclock(Ev.log)
  \/ IsOk("viewat")  /\ ViewAt(Ev.n) # BAD /\ SameAs(ViewAt(Ev.n), Ev.got) /\ Look
  \/ IsErr("viewat") /\ ViewAt(Ev.n) = BAD /\ Look
  \/ IsOk("entryat")  /\ EntryAt(Ev.u, Ev.n) # BAD /\ SameAs(EntryAt(Ev.u, Ev.n), Ev.got) /\ Look
  \/ IsErr("entryat") /\ EntryAt(Ev.u, Ev.n) = BAD /\ Look
  \/ IsOk("nver") /\ Ev.got = NVersions(Ev.u) /\ Look
  \/ IsOk("last") /\ Ev.got = LastTime(Ev.u) /\ Look

TInit == Init /\ tid \in 1..Len(Traces) /\ l = 1

(* The furthest event reached in each trace (needs -workers 1). *)
Reach == TLCGet(tid) < l => TLCSet(tid, l)
ASSUME \A i \in 1..Len(Traces) : TLCSet(i, 0)
Accepted == \A i \in 1..Len(Traces) :
              TLCGet(i) > Len(Traces[i].t) \/ PrintT(<<"@@", ToJson([tid |-> i, at |-> TLCGet(i)])>>)
=============================================================================
