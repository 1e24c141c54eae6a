--------------------------- MODULE TransferModel ---------------------------
(***************************************************************************)
(* An importer that appends a letter until the name is free: shown to meet *)
(* Transfer for every sequence of rows and every file they are added to,   *)
(* and that names that were unique stay so.  An exporter likewise.         *)
(***************************************************************************)
EXTENDS Transfer, TLC, Json

CONSTANTS Names0, RowNames, MaxRows, Bug
Id(c) == CASE c = "A" -> "a" [] c = "B" -> "b" [] OTHER -> c

VARIABLES old, rows, at, ents
vars == <<old, rows, at, ents>>
RowsOf(n) == [n |-> 7, url |-> "", username |-> "u", password |-> "", extra |-> "", name |-> n, grouping |-> IF n = "A" THEN "G" ELSE "", fav |-> "1"]
Old(S) == LET RECURSIVE L(_)
              L(T) == IF T = {} THEN <<>> ELSE LET x == CHOOSE y \in T : TRUE IN <<("name" :> x)>> \o L(T \ {x}) IN L(S)
Init == /\ \E S \in SUBSET Names0 : old = Old(S)
        /\ \E n \in 0..MaxRows : \E f \in [1..n -> RowNames] : rows = [i \in 1..n |-> RowsOf(f[i])]
        /\ at = 1 /\ ents = old
RECURSIVE Free(_, _)
Free(n, S) == IF n \in S THEN Free(n \o "1", S) ELSE n
Next == /\ at <= Len(rows)
        /\ LET r == rows[at]
               nm == IF Bug = "same" THEN NameOf(r) ELSE IF Bug = "old" THEN Free(NameOf(r), Names(old)) ELSE Free(NameOf(r), Names(ents)) IN
           ents' = Append(ents, ("name" :> nm) @@ ("user" :> r.username) @@ (IF Labels(r) = "" THEN <<>> ELSE ("labels" :> Labels(r))))
        /\ at' = at + 1 /\ UNCHANGED <<old, rows>>
Spec == Init /\ [][Next]_vars

Unique == Cardinality(Names(ents)) = Len(ents)
Kept == SubSeq(ents, 1, Len(old)) = old
Meets == at > Len(rows) => ImportFaults(old, SubSeq(ents, Len(old) + 1, Len(ents)), rows) = {}
Export == LET h == <<"labels", "name", "user">>
              hs == SelectSeq(h, LAMBDA k : k \in Keys(ents)) IN
          ExportFaults(ents, hs, [i \in DOMAIN ents |-> [j \in DOMAIN hs |-> IF hs[j] \in DOMAIN ents[i] THEN ents[i][hs[j]] ELSE ""]]) = {}
Emit == at > Len(rows) => PrintT(<<"@@", ToJson([old |-> [i \in DOMAIN old |-> old[i].name], rows |-> [i \in DOMAIN rows |-> rows[i].name]])>>)
=============================================================================
