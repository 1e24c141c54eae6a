----------------------------- MODULE BlobTrace ------------------------------
(***************************************************************************)
(* Judges recorded runs of package blobformat (names, labels, searches, on *)
(* any history, also ones in which names are not unique) by the notions of *)
(* module Session.  traces.ndjson: [log |-> history, t |-> <<event, ...>>]. *)
(***************************************************************************)
EXTENDS Session, Json

Traces == ndJsonDeserialize("traces.ndjson")
Tables == JsonDeserialize("tables.json")

TLC1(c) == IF c \in DOMAIN Tables.low THEN Tables.low[c] ELSE c
TFold(k) == IF k \in DOMAIN Tables.fold THEN Tables.fold[k] ELSE k
No(s) == FALSE
Id(s) == s
Zero(s) == 0

VARIABLES tid, l, view
tvars == <<vars, tid, l, view>>
Ev == Traces[tid].t[l]
If(b, what) == IF b THEN {what} ELSE {}
IsUpd(t) == t.kind = "setk" /\ t.k = "updated"
NoUpd(ch) == SelectSeq(ch, LAMBDA t : ~IsUpd(t))
Upd(ch) == {ch[i].u : i \in {i \in 1..Len(ch) : IsUpd(ch[i])}}
NewOf(ch) == LET a == {i \in 1..Len(ch) : ch[i].kind = "add"} IN
             IF Cardinality(a) = 1 THEN ch[CHOOSE i \in a : TRUE].u ELSE "<new>"

Found(us) == [u \in us |-> Name(view, u)]
SameFn(f, g) == DOMAIN f = DOMAIN g /\ \A x \in DOMAIN f : f[x] = g[x]
Exactly(e, res, ch) == e.res = res /\ Len(NoUpd(e.new)) = Len(ch)
                       /\ \A i \in 1..Len(ch) : \E j \in 1..Len(e.new) : e.new[j] = ch[i]
Quiet(e) == e.new = <<>>

(* Renaming duplicates: names unique afterwards, one keeper per name, only *)
(* duplicates touched, and what was done is reported.                      *)
Duplicates(v) == {n \in {Name(v, u) : u \in DOMAIN v} : Cardinality(Named(v, n)) > 1}
Deduped(e, v2) ==
  If(e.res # "ok", "error") \cup
  (IF v2 = BAD THEN {"view"} ELSE
     If(~UniqueNames(v2), "names")
     \cup If(\E n \in {Name(view, u) : u \in DOMAIN view} : ~\E u \in Named(view, n) : Name(v2, u) = n, "keeper")
     \cup If(DOMAIN v2 # DOMAIN view, "entries")
     \cup If(\E i \in 1..Len(e.new) : e.new[i].kind # "setk" \/ e.new[i].k \notin {"name", "updated"}
                 \/ Name(view, e.new[i].u) \notin Duplicates(view) \/ Name(v2, e.new[i].u) = Name(view, e.new[i].u), "touched")
     \cup If(\E n \in Duplicates(view) : n \notin DOMAIN e.got, "report")
     \cup If(\E n \in DOMAIN e.got : ~\E u \in Named(view, n) : Name(v2, u) = e.got[n] /\ e.got[n] # n, "report"))

Judge(e, v2) ==
  LET old == IF e.u \in DOMAIN view THEN LabelsOf(view[e.u]) ELSE <<>> IN
  If(e.res = "panic", "crash") \cup If(~e.pre, "history") \cup If(~e.fresh, "stamp") \cup
  IF e.res = "panic" \/ ~e.pre THEN {} ELSE
  CASE e.op = "dups" -> Deduped(e, v2)
    [] e.op = "search" -> If(e.res # "ok" \/ ~SameFn(e.got, Found(Hits(view, e.q))), "found") \cup If(~Quiet(e), "change")
    [] e.op = "labels" -> If(e.res # "ok" \/ ~SameFn(e.got, Found({u \in DOMAIN view : \A i \in 1..Len(e.ls) : IsIn(e.ls[i], LabelsOf(view[u]))})), "found")
                          \cup If(~Quiet(e), "change")
    [] e.op = "users" -> If(e.res # "ok" \/ ~SameFn(e.got, Found({u \in DOMAIN view : StartsWith(Name(view, u), "user/")})), "found") \cup If(~Quiet(e), "change")
    [] e.op = "addlabel" -> If(~Exactly(e, "ok", <<Ch("setk", e.u, "labels", Joined(Append(old, e.q), ","))>>), "change")
                            \cup If(Upd(e.new) # {e.u}, "touch")
    [] e.op = "rmlabel" ->
         LET n == IF old = <<>> THEN 1 ELSE Len(old)
             ls == SubSeq(old, 1, e.i) \o SubSeq(old, e.i + 2, Len(old)) IN
         IF old = <<>> THEN If(e.res = "panic", "crash") ELSE   \* nothing to remove: nothing is promised
         IF e.i < 0 \/ e.i >= Len(old) THEN If(~Exactly(e, "err", <<>>), "change")
         ELSE If(~Exactly(e, "ok", <<IF ls = <<>> THEN Ch("delk", e.u, "labels", "") ELSE Ch("setk", e.u, "labels", Joined(ls, ","))>>), "change")
              \cup If(Upd(e.new) # {e.u}, "touch")
    [] e.op = "rename" ->
         IF Named(view, e.q) # {} \/ e.u \notin DOMAIN view THEN If(~Exactly(e, "err", <<>>) \/ ~Quiet(e), "change")
         ELSE If(~Exactly(e, "ok", <<Ch("setk", e.u, "name", e.q)>>), "change") \cup If(Upd(e.new) # {e.u}, "touch")
    [] e.op = "set" -> IF ~MaySet(e.k) THEN If(~Exactly(e, "err", <<>>) \/ ~Quiet(e), "change")
                       ELSE If(~Exactly(e, "ok", <<Ch("setk", e.u, e.k, e.q)>>), "change") \cup If(Upd(e.new) # {e.u}, "touch")
    [] e.op = "delk" -> IF ~MayDelete(e.k) THEN If(~Exactly(e, "err", <<>>) \/ ~Quiet(e), "change")
                        ELSE If(~Exactly(e, "ok", <<Ch("delk", e.u, e.k, "")>>), "change") \cup If(Upd(e.new) # {e.u}, "touch")
    [] e.op \in {"new", "newuser", "newsync"} ->
         LET n == CASE e.op = "new" -> e.q [] e.op = "newuser" -> "user/" \o e.q [] OTHER -> FreeName(view, "sync/" \o e.q)
             w == NewOf(e.new) IN
         IF Named(view, n) # {} THEN If(~Exactly(e, "err", <<>>) \/ ~Quiet(e), "change")
         ELSE If(~Exactly(e, "ok", <<Ch("add", w, "", ""), Ch("setk", w, "name", n)>>), "change")
              \cup If(Upd(e.new) # {w} \/ w \in DOMAIN view, "touch")
    [] OTHER -> {"unknown"}

Report(w) == w # {} => PrintT(<<"@@", ToJson([tid |-> tid, at |-> l, w |-> w])>>)

TInit == tid \in 1..Len(Traces) /\ l = 1 /\ log = Traces[tid].log /\ view = Replay(Traces[tid].log)
         /\ txp = 0 /\ ver = 0 /\ snap = Empty
TNext == /\ l <= Len(Traces[tid].t) /\ l' = l + 1 /\ tid' = tid
         /\ LET v2 == After(view, Ev.new, 1) IN Report(Judge(Ev, v2)) /\ view' = v2
         /\ log' = log \o Ev.new /\ UNCHANGED <<txp, ver, snap>>

Reach == TLCGet(tid) < l => TLCSet(tid, l)
ASSUME \A i \in 1..Len(Traces) : TLCSet(i, 0)
Accepted == \A i \in 1..Len(Traces) :
              TLCGet(i) > Len(Traces[i].t) \/ PrintT(<<"@@", ToJson([tid |-> i, at |-> TLCGet(i), w |-> {"stuck"}])>>)
=============================================================================
