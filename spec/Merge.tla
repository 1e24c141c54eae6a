------------------------------- MODULE Merge -------------------------------
(***************************************************************************)
(* Reconciling two histories of the same file (txlogs.Merge).              *)
(*                                                                         *)
(* Both histories are walked together: a change they agree on is taken     *)
(* once; where they differ the one that sorts first (time, then entry) is  *)
(* taken.  Each history's own order is therefore kept even where clocks    *)
(* disagreed.  The one situation that cannot be merged is a change to an   *)
(* entry after its deletion: that is a conflict, and so is the absence of  *)
(* any common beginning.                                                   *)
(***************************************************************************)
EXTENDS TxLog, TLC

(* Order of changes.  Names are tokens whose position in this list is      *)
(* their rank; the drivers hand out entry ids in the same order.           *)
Tokens == <<"", "add", "del", "delk", "setk",
            "e1", "e2", "e3", "e4", "e5", "e6", "e7", "e8", "e9",
            "k1", "k2", "k3", "name", "updated",
            "v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8", "v9">>
RankOf == [s \in {Tokens[i] : i \in 1..Len(Tokens)} |-> CHOOSE i \in 1..Len(Tokens) : Tokens[i] = s]
Rank(s) == RankOf[s]

Less(x, y) ==
  IF x.tm # y.tm THEN x.tm < y.tm
  ELSE IF x.u # y.u THEN Rank(x.u) < Rank(y.u)
  ELSE IF x.kind # y.kind THEN Rank(x.kind) < Rank(y.kind)
  ELSE IF x.k # y.k THEN Rank(x.k) < Rank(y.k)
  ELSE IF x.v # y.v THEN Rank(x.v) < Rank(y.v) ELSE FALSE

(* Resolutions: [force, di, dc]: force - merge although nothing is shared; *)
(* di - the deletions to drop (restore the entry); dc - the deletions that *)
(* stand, whatever happened to the entry afterwards being dropped.         *)
NoRes == [force |-> FALSE, di |-> {}, dc |-> {}]

(* st: [c, del, conf]: merged so far, standing deletions, open conflicts.  *)
Take(st, x, R) ==
  IF \E n \in 1..Len(st.c) : st.c[n] = x THEN st
  ELSE IF x.u \notin DOMAIN st.del
  THEN IF x.kind # "del" THEN [st EXCEPT !.c = Append(@, x)]
       ELSE IF x \in R.di THEN st
       ELSE [st EXCEPT !.c = Append(@, x), !.del = With(@, x.u, x)]
  ELSE LET d == st.del[x.u] IN
       IF d \in R.dc THEN st
       ELSE IF \E n \in 1..Len(st.conf) : st.conf[n].initial = d
            THEN [st EXCEPT !.c = Append(@, x)]
            ELSE [st EXCEPT !.c = Append(@, x),
                            !.conf = Append(@, [kind |-> "deleteset", initial |-> d, conflict |-> x])]

RECURSIVE Walk(_, _, _, _, _, _)
Walk(a, b, i, j, st, R) ==
  IF i > Len(a) /\ j > Len(b) THEN st
  ELSE IF i > Len(a) THEN Walk(a, b, i, j + 1, Take(st, b[j], R), R)
  ELSE IF j > Len(b) THEN Walk(a, b, i + 1, j, Take(st, a[i], R), R)
  ELSE IF a[i] = b[j] THEN Walk(a, b, i + 1, j + 1, Take(st, a[i], R), R)
  ELSE LET st1 == IF i = 1 /\ j = 1 /\ ~R.force
                  THEN [st EXCEPT !.conf = Append(@, [kind |-> "root", initial |-> a[1], conflict |-> b[1]])]
                  ELSE st
       IN IF Less(a[i], b[j]) THEN Walk(a, b, i + 1, j, Take(st1, a[i], R), R)
          ELSE Walk(a, b, i, j + 1, Take(st1, b[j], R), R)

Merge(a, b, R) ==
  IF a = b THEN [c |-> a, conf |-> <<>>]
  ELSE LET st == Walk(a, b, 1, 1, [c |-> <<>>, del |-> Empty, conf |-> <<>>], R)
       IN [c |-> IF st.conf = <<>> THEN st.c ELSE <<>>, conf |-> st.conf]

Merged(a, b)    == Merge(a, b, NoRes).c
Mergeable(a, b) == Merge(a, b, NoRes).conf = <<>>

(* What the resolution of a conflict adds to the resolutions given so far. *)
Resolve(R, cf, how) ==
  IF cf.kind = "root" THEN [R EXCEPT !.force = TRUE]
  ELSE IF how = "restore" THEN [R EXCEPT !.di = @ \cup {cf.initial}]
  ELSE [R EXCEPT !.dc = @ \cup {cf.initial}]

----------------------------------------------------------------------------
(* What users rely on. *)
Elems(s) == {s[i] : i \in 1..Len(s)}

RECURSIVE SubseqFrom(_, _, _, _)
SubseqFrom(a, i, b, j) ==
  IF i > Len(a) THEN TRUE ELSE IF j > Len(b) THEN FALSE
  ELSE IF a[i] = b[j] THEN SubseqFrom(a, i + 1, b, j + 1) ELSE SubseqFrom(a, i, b, j + 1)
IsSubseq(a, b) == SubseqFrom(a, 1, b, 1)

ConfSet(r) == {[kind |-> r.conf[n].kind,
                initial |-> IF r.conf[n].kind = "root" THEN "-" ELSE ToString(r.conf[n].initial)] : n \in 1..Len(r.conf)}

(* Nothing lost, nothing invented, nothing twice, nobody's order changed.  *)
Complete(a, b, c) ==
  /\ Elems(c) = Elems(a) \cup Elems(b)
  /\ Len(c) = Cardinality(Elems(c))
  /\ IsSubseq(a, c) /\ IsSubseq(b, c)

(* After resolutions: only what was decided away is missing. *)
CompleteUnder(a, b, c, R) ==
  /\ Elems(c) \subseteq Elems(a) \cup Elems(b)
  /\ \A t \in (Elems(a) \cup Elems(b)) \ Elems(c) :
       t \in R.di \/ \E d \in R.dc : d.u = t.u
  /\ R.di \cap Elems(c) = {}
  /\ R.dc \subseteq Elems(c) \cup R.di
=============================================================================
