------------------------------ MODULE Transfer ------------------------------
(***************************************************************************)
(* Import from lpass and export to csv.                                    *)
(* An entry is a function from keys to values; a row of lpass is           *)
(* [n, url, username, password, extra, name, grouping, fav] where n is the *)
(* number of its fields.                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Text

CONSTANT LC(_)          \* a letter's lowercase

RECURSIVE Mapped(_, _)
Mapped(s, i) == IF i > Len(s) THEN "" ELSE
                LET c == SubSeq(s, i, i) IN (IF c = " " THEN "_" ELSE LC(c)) \o Mapped(s, i + 1)
RECURSIVE Low(_, _)
Low(s, i) == IF i > Len(s) THEN "" ELSE LC(SubSeq(s, i, i)) \o Low(s, i + 1)
NameOf(row) == Mapped(row.name, 1)

(* A line break inside of a field counts as one, however it's written. *)
RECURSIVE Lf(_)
Lf(s) == LET i == Index(s, "\r") IN
         IF i = 0 THEN s
         ELSE SubSeq(s, 1, i - 1) \o (IF i < Len(s) /\ SubSeq(s, i + 1, i + 1) = "\n" THEN "" ELSE "\r") \o Lf(SubSeq(s, i + 1, Len(s)))

Labels(row) == LET g == IF row.grouping = "" THEN <<>> ELSE <<Low(row.grouping, 1)>>
                   f == IF row.fav = "1" THEN <<"lpfav">> ELSE <<>> IN Joined(g \o f, ",")

(* What an entry made of a row holds besides its name. *)
Wanted(row) == [user |-> Lf(row.username), pass |-> Lf(row.password), url |-> Lf(row.url), notes |-> Lf(row.extra), labels |-> Lf(Labels(row))]
Holds(ent, row) ==
  LET w == Wanted(row) IN
  /\ \A k \in DOMAIN w : IF w[k] = "" THEN k \notin DOMAIN ent \/ ent[k] = "" ELSE k \in DOMAIN ent /\ ent[k] = w[k]
  /\ DOMAIN ent \subseteq DOMAIN w \cup {"name", "updated"}

(* Names: as it is if nobody has it, else made different. *)
NameFits(name, row, taken) == LET n == Lf(NameOf(row)) IN
                              IF n \notin taken THEN name = n ELSE name \notin taken /\ StartsWith(name, n)

(* lp: what lpass did [found, status, head, cut, rows]. *)
Recognised(lp) == /\ lp.found /\ lp.status = 0 /\ lp.head /\ ~lp.cut
                  /\ \A i \in DOMAIN lp.rows : lp.rows[i].n = 7
Goes(lp, existed, ans) == Recognised(lp) /\ (existed => ans \in {"y", "Y"})

Names(ents) == {ents[i].name : i \in {j \in DOMAIN ents : "name" \in DOMAIN ents[j]}}
RECURSIVE RowFaults(_, _, _, _)
RowFaults(new, rows, taken, i) ==
  IF i > Len(rows) THEN {}
  ELSE (IF "name" \in DOMAIN new[i] /\ NameFits(new[i].name, rows[i], taken) THEN {} ELSE {"name"})
       \cup (IF Holds(new[i], rows[i]) THEN {} ELSE {"values"})
       \cup RowFaults(new, rows, taken \cup Names(<<new[i]>>), i + 1)
ImportFaults(old, new, rows) ==
  IF Len(new) # Len(rows) THEN {"rows"} ELSE RowFaults(new, rows, Names(old), 1)

(* A table [head, rows] that says the same as the entries. *)
Keys(ents) == UNION {DOMAIN ents[i] : i \in DOMAIN ents}
Count(l, x) == Cardinality({i \in DOMAIN l : l[i] = x})
ExportFaults(ents, head, rows) ==
  LET ks == Keys(ents)
      want(e) == [i \in DOMAIN head |-> IF head[i] \in DOMAIN e THEN e[head[i]] ELSE ""] IN
  IF Range(head) # ks \/ Cardinality(ks) # Len(head) THEN {"header"}
  ELSE IF Len(rows) # Len(ents) THEN {"rows"}
  ELSE LET all == [i \in DOMAIN ents |-> want(ents[i])] IN
       IF \A i \in DOMAIN rows : Count(rows, rows[i]) = Count(all, rows[i]) THEN {} ELSE {"values"}
=============================================================================
