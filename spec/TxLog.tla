------------------------------- MODULE TxLog -------------------------------
(***************************************************************************)
(* The key-value database behind a bpass file, as its user sees it: a      *)
(* history (log) of changes, transactions over it, and a view of the       *)
(* entries which is a cache of "the history replayed from the start".      *)
(*                                                                         *)
(* How much of the history the cache covers (ver) is left open: every      *)
(* action may move it anywhere the history can be replayed to, except      *)
(* Update, which must bring it to the end.  The implementation-shaped      *)
(* module TxLogImpl is checked to refine this one.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

(* A change is [kind, u, k, v, tm]; u the entry, k the key, v the value,   *)
(* tm when it was made.                                                    *)
Empty == [x \in {} |-> ""]

(* Stands for "this history cannot be replayed". *)
BAD == [x \in {"<unreplayable>"} |-> Empty]

Without(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
With(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]

Apply(s, t) ==
  CASE t.kind = "add"  -> IF t.u \in DOMAIN s THEN BAD ELSE With(s, t.u, Empty)
    [] t.kind = "del"  -> IF t.u \notin DOMAIN s THEN BAD ELSE Without(s, t.u)
    [] t.kind = "setk" -> IF t.u \notin DOMAIN s THEN BAD ELSE With(s, t.u, With(s[t.u], t.k, t.v))
    [] t.kind = "delk" -> IF t.u \notin DOMAIN s THEN BAD ELSE With(s, t.u, Without(s[t.u], t.k))
    [] OTHER -> s

RECURSIVE ReplayFrom(_, _, _)
ReplayFrom(s, l, i) ==
  IF i > Len(l) THEN s
  ELSE LET n == Apply(s, l[i]) IN IF n = BAD THEN BAD ELSE ReplayFrom(n, l, i + 1)

Replay(l) == ReplayFrom(Empty, l, 1)
Prefix(l, n) == SubSeq(l, 1, n)

(* The changes of one entry, in order. *)
Of(l, u) == SelectSeq(l, LAMBDA t : t.u = u)

----------------------------------------------------------------------------
VARIABLES log,   \* the history
          txp,   \* 0, or 1 + the length of the history when the transaction began
          ver,   \* how many changes the cached view covers
          snap   \* the cached view

vars == <<log, txp, ver, snap>>

(* The property of the view: whatever it covers, it is a faithful replay.  *)
Faithful == ver <= Len(log) /\ snap = Replay(Prefix(log, ver))

Init == log = <<>> /\ txp = 0 /\ ver = 0 /\ snap = Empty

(* Any cache that is faithful to the new history. *)
Recache == ver' \in 0..Len(log') /\ snap' = Replay(Prefix(log', ver')) /\ snap' # BAD

Record(t)  == log' = Append(log, t) /\ txp' = txp /\ Recache
Begin      == txp = 0 /\ txp' = Len(log) + 1 /\ log' = log /\ Recache
Commit     == txp # 0 /\ txp' = 0 /\ log' = log /\ Recache
Rollback   == txp # 0 /\ txp' = 0 /\ log' = Prefix(log, txp - 1) /\ Recache
Undo(n)    == txp = 0 /\ n <= Len(log) /\ log' = Prefix(log, Len(log) - n) /\ txp' = txp /\ Recache
UndoFail(n) == n > Len(log) /\ UNCHANGED <<log, txp>> /\ Recache
Drop       == UNCHANGED <<log, txp>> /\ Recache
Update     == UNCHANGED <<log, txp>> /\ Replay(log) # BAD /\ Recache /\ ver' = Len(log)
UpdateFail == UNCHANGED <<log, txp>> /\ Replay(log) = BAD /\ Recache
Reload     == txp = 0 /\ UNCHANGED <<log, txp>> /\ Recache
(* The same history as other clocks would have recorded it: which moments  *)
(* are in it means nothing for what it produces, and the last change is    *)
(* the one recorded last.                                                  *)
Reclock(l2) == /\ Len(l2) = Len(log) /\ log' = l2 /\ txp' = txp
               /\ \A i \in 1..Len(l2) : [l2[i] EXCEPT !.tm = ""] = [log[i] EXCEPT !.tm = ""]
               /\ Recache
Look       == UNCHANGED <<log, txp>> /\ Recache

(* What the history queries must answer. *)
ViewAt(n)      == IF n < 0 \/ n > Len(log) THEN BAD ELSE Replay(Prefix(log, Len(log) - n))
EntryAt(u, n)  == LET m == Of(log, u) IN
                  IF n < 0 \/ n > Len(m) THEN BAD
                  ELSE LET s == Replay(Prefix(m, Len(m) - n)) IN
                       IF s = BAD \/ u \notin DOMAIN s THEN BAD ELSE s[u]
NVersions(u)   == Len(Of(log, u))
LastTime(u)    == LET m == Of(log, u) IN IF m = <<>> THEN "-1" ELSE m[Len(m)].tm
=============================================================================
