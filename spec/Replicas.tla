------------------------------ MODULE Replicas ------------------------------
(***************************************************************************)
(* Devices that edit their own copy of one file and exchange copies: the   *)
(* setting in which merging has to work.  Clocks may stand still, run      *)
(* apart, or (Monotone = FALSE) run backwards.                             *)
(***************************************************************************)
EXTENDS Merge, TLC, Json

CONSTANTS Dev,       \* devices
          T,         \* clock values 1..T
          Ents,      \* entries that may be added (all share entry "e1")
          MaxEdits,  \* edits overall
          Monotone,  \* a device never stamps below what its history already holds
          Dels,      \* may entries be deleted?
          Resolving, \* may conflicts be resolved?
          Forked     \* does one device start from an unrelated file?

Kinds(conf) == {<<conf[n].kind, conf[n].initial>> : n \in {m \in 1..Len(conf) : conf[m].kind = "deleteset"}}

VARIABLES logs, made, hist
rvars == <<logs, made, hist>>
RView == <<logs, made>>

Root == <<[tm |-> 0, kind |-> "add", u |-> "e1", k |-> "", v |-> ""]>>
Other == <<[tm |-> 0, kind |-> "add", u |-> "e9", k |-> "", v |-> ""]>>
RInit == logs = [d \in Dev |-> IF Forked /\ d = "d2" THEN Other ELSE Root] /\ made = {} /\ hist = <<>>
         /\ log = <<>> /\ txp = 0 /\ ver = 0 /\ snap = Empty

Same == UNCHANGED vars

MaxTm(l) == LET S == {l[i].tm : i \in 1..Len(l)} IN CHOOSE m \in S : \A x \in S : x <= m
Val(d) == CASE d = "d1" -> "v1" [] d = "d2" -> "v2" [] OTHER -> "v3"

Edit(d, t) == /\ Cardinality(made) < MaxEdits
              /\ t \notin made
              /\ Monotone => t.tm >= MaxTm(logs[d])
              /\ Replay(Append(logs[d], t)) # BAD
              /\ t.kind = "add" => \A x \in made : ~(x.kind = "add" /\ x.u = t.u)  \* uuids are unique
              /\ logs' = [logs EXCEPT ![d] = Append(@, t)]
              /\ made' = made \cup {t}
              /\ hist' = Append(hist, [op |-> "edit", d |-> d, tx |-> t])
              /\ Same

(* d merges a copy of e's file into its own. *)
Pull(d, e) == /\ d # e /\ logs[d] # logs[e]
              /\ Mergeable(logs[d], logs[e])
              /\ logs' = [logs EXCEPT ![d] = Merged(logs[d], logs[e])]
              /\ hist' = Append(hist, [op |-> "pull", d |-> d, e |-> e])
              /\ UNCHANGED made /\ Same

(* Resolutions that settle everything, each conflict one way. *)
RECURSIVE Settle(_, _, _, _, _)
Settle(a, b, R, how, n) ==
  LET m == Merge(a, b, R) IN
  IF m.conf = <<>> \/ n = 0 THEN <<m, R>>
  ELSE LET RR[i \in 0..Len(m.conf)] == IF i = 0 THEN R ELSE Resolve(RR[i - 1], m.conf[i], how)
       IN Settle(a, b, RR[Len(m.conf)], how, n - 1)

PullResolve(d, e, how) ==
  /\ Resolving /\ d # e /\ ~Mergeable(logs[d], logs[e])
  /\ LET s == Settle(logs[d], logs[e], NoRes, how, 8) IN
     /\ s[1].conf = <<>>
     /\ logs' = [logs EXCEPT ![d] = s[1].c]
  /\ hist' = Append(hist, [op |-> "pull", d |-> d, e |-> e, how |-> how])
  /\ UNCHANGED made /\ Same

RNext == \/ \E d \in Dev, tm \in 1..T :
              \/ \E u \in {"e1"} \cup Ents :
                   \/ Edit(d, [tm |-> tm, kind |-> "setk", u |-> u, k |-> "k1", v |-> Val(d)])
                   \/ Dels /\ Edit(d, [tm |-> tm, kind |-> "del", u |-> u, k |-> "", v |-> ""])
              \/ \E u \in Ents : Edit(d, [tm |-> tm, kind |-> "add", u |-> u, k |-> "", v |-> ""])
         \/ \E d, e \in Dev : Pull(d, e) \/ \E how \in {"restore", "delete"} : PullResolve(d, e, how)

RSpec == RInit /\ [][RNext]_<<rvars, vars>>

Pairs == {<<x, y>> \in Dev \X Dev : x # y}

(* -------- the laws, for every pair of copies that can exist -------- *)
Valid       == \A d \in Dev : Replay(logs[d]) # BAD
NoLoss      == \A p \in Pairs : Mergeable(logs[p[1]], logs[p[2]]) =>
                 Complete(logs[p[1]], logs[p[2]], Merged(logs[p[1]], logs[p[2]]))
Content     == \A p \in Pairs : Mergeable(logs[p[1]], logs[p[2]]) =>
                 LET c == Merged(logs[p[1]], logs[p[2]]) IN
                 Elems(c) = Elems(logs[p[1]]) \cup Elems(logs[p[2]]) /\ Len(c) = Cardinality(Elems(c))
Symmetric   == \A p \in Pairs : /\ Merged(logs[p[1]], logs[p[2]]) = Merged(logs[p[2]], logs[p[1]])
                                /\ Mergeable(logs[p[1]], logs[p[2]]) = Mergeable(logs[p[2]], logs[p[1]])
                                /\ Kinds(Merge(logs[p[1]], logs[p[2]], NoRes).conf) = Kinds(Merge(logs[p[2]], logs[p[1]], NoRes).conf)
Absorbing   == \A p \in Pairs : Mergeable(logs[p[1]], logs[p[2]]) =>
                 LET m == Merged(logs[p[1]], logs[p[2]]) IN
                 /\ Mergeable(m, logs[p[1]]) /\ Merged(m, logs[p[1]]) = m
                 /\ Mergeable(logs[p[2]], m) /\ Merged(logs[p[2]], m) = m
Associative == \A x, y, z \in Dev :
                 LET xy == Merge(logs[x], logs[y], NoRes)  yz == Merge(logs[y], logs[z], NoRes) IN
                 (xy.conf = <<>> /\ yz.conf = <<>> /\ Mergeable(xy.c, logs[z]) /\ Mergeable(logs[x], yz.c)) =>
                   Merged(xy.c, logs[z]) = Merged(logs[x], yz.c)
(* Copies without clock trouble: changes end up in the order of their times. *)
ByTime(l) == \A i \in 1..Len(l) - 1 : l[i].tm <= l[i + 1].tm
TimeOrder == \A p \in Pairs : (ByTime(logs[p[1]]) /\ ByTime(logs[p[2]])) =>
               ByTime(Merged(logs[p[1]], logs[p[2]]))
(* A conflict is reported only for a deletion one copy made and a change   *)
(* the other copy made to the same entry, and whenever there is none the   *)
(* outcome can be replayed.                                                *)
ConflictExact == \A p \in Pairs :
   LET m == Merge(logs[p[1]], logs[p[2]], NoRes) IN
   /\ m.conf = <<>> => Replay(m.c) # BAD
   /\ \A n \in 1..Len(m.conf) : m.conf[n].kind = "deleteset" =>
        /\ m.conf[n].initial.kind = "del" /\ m.conf[n].initial.u = m.conf[n].conflict.u
        /\ ~(IsSubseq(<<m.conf[n].initial, m.conf[n].conflict>>, logs[p[1]]))
(* Resolving every conflict, any one way, ends, and drops only what was decided. *)
Resolvable == \A p \in Pairs, how \in {"restore", "delete"} :
   LET s == Settle(logs[p[1]], logs[p[2]], NoRes, how, 8) IN
   /\ s[1].conf = <<>>
   /\ s[2] # NoRes => CompleteUnder(logs[p[1]], logs[p[2]], s[1].c, s[2])
   /\ Replay(s[1].c) # BAD

REmit == PrintT(<<"@@", ToJson([h |-> hist', logs |-> logs'])>>)
=============================================================================
