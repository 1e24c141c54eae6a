----------------------------- MODULE SyncTrace -----------------------------
(***************************************************************************)
(* Judges recorded sessions of the real program which sync, on several     *)
(* devices with several remotes, by module Sync.  Events:                  *)
(*  files [f]        files as they are now (path -> state), put there      *)
(*  open  [path, who]                                                      *)
(*  sync  [name, auto, pol, log, written, asks, crash, ro, down]           *)
(*                   a sync, the history after it, the files written by it *)
(*                   and the questions asked; ro are the files that cannot *)
(*                   be written, down those that cannot be reached         *)
(*  edit  [log, pass, key]   a command that changed something              *)
(*  end   [leave, auto, pol, written, asks, crash, ro]                    *)
(* A state of a file is [st, log, m, own, key, creds].                     *)
(***************************************************************************)
EXTENDS Sync, Json

Traces == ndJsonDeserialize("traces.ndjson")
Tables == JsonDeserialize("tables.json")
TRank(s) == Tables.rank[s]
TKey(k) == IF k \in DOMAIN Tables.key THEN Tables.key[k] ELSE [p |-> "", m |-> "none"]
TPath(u) == IF u \in DOMAIN Tables.path THEN Tables.path[u] ELSE "none"

VARIABLES tid, at,
          files,   \* path -> state
          poss,    \* the sessions it may be
          path, start
tv == <<tid, at, files, poss, path, start>>

SetOf(l) == {l[i] : i \in DOMAIN l}
Pairs(l) == {<<l[i][1], l[i][2]>> : i \in DOMAIN l}
F(o) == [log |-> o.log, m |-> o.m, own |-> o.own, key |-> o.key]
Rem(down) == [p \in DOMAIN files |-> [st |-> IF p \in down THEN "bad" ELSE files[p].st, f |-> F(files[p])]]

TInit == /\ Init /\ tid \in 1..Len(Traces) /\ at = 0 /\ files = Empty /\ poss = {} /\ path = "" /\ start = 0

Wrong(w) == IF w = {} THEN TRUE ELSE PrintT(<<"@@", ToJson([tid |-> tid, at |-> at + 1, w |-> w])>>)

Put(w) == files' = [p \in DOMAIN files \cup DOMAIN w |-> IF p \in DOMAIN w THEN w[p] ELSE files[p]]

(* Whether what was written to a file is that of a session. *)
HoldsLog(o, S) == o.st = "ok" /\ o.log = S.log
HoldsCreds(o, S) == Pairs(o.creds) = Creds(FileOf(S))
SelfOk(o, S) == (FileOf(S).m # "" /\ \E x \in Users(S.log) : x.u = S.user) => <<S.user, S.pass>> \in Pairs(o.creds)
Learn(S, w) ==
  LET fs == {p \in DOMAIN w : w[p].st = "ok" /\ w[p].m = ""} IN
  IF S.key = "fresh" /\ fs # {} THEN [S EXCEPT !.key = w[CHOOSE p \in fs : TRUE].key] ELSE S

(* Narrow the outcomes down by what was seen, naming what rules out all.   *)
Keep(cands, ok(_), what) ==
  LET k == {o \in cands.os : ok(o)} IN
  IF k = {} THEN [os |-> cands.os, bad |-> cands.bad \cup {what}] ELSE [cands EXCEPT !.os = k]

Judge(e, os, written, lg) ==
  LET c0 == [os |-> os, bad |-> IF e.crash THEN {"crash"} ELSE {}]
      c1 == Keep(c0, LAMBDA o : o.S.log = lg, "log")
      c2 == Keep(c1, LAMBDA o : DOMAIN written \subseteq o.push, "written")
      ro == SetOf(e.ro)
      c3 == Keep(c2, LAMBDA o : (o.push \ ro) \subseteq DOMAIN written, "not-written")
      c4 == Keep(c3, LAMBDA o : \A p \in DOMAIN written : HoldsLog(written[p], o.S), "content")
      c5 == Keep(c4, LAMBDA o : \A p \in DOMAIN written : HoldsCreds(written[p], o.S), "creds")
      c6 == Keep(c5, LAMBDA o : \A p \in DOMAIN written : SelfOk(written[p], o.S), "self")
      asked == Pairs(e.asks)
      Only(X, ks) == {x \in X : x[1] \in ks}
      c7 == Keep(c6, LAMBDA o : Only(o.asks, {"root", "del"}) = Only(asked, {"root", "del"}), "asked-conflict")
      c8 == Keep(c7, LAMBDA o : Only(o.asks, {"cred"}) = Only(asked, {"cred"}), "asked-creds")
      c9 == IF e.loose THEN c8 ELSE Keep(c8, LAMBDA o : Only(o.asks, {"user", "pass"}) = Only(asked, {"user", "pass"}), "asked-who")
  IN c9

Results(ids(_), e) == UNION {Outcomes(S, ids(S), Rem(SetOf(e.down)), e.pol) : S \in poss}

Without1(w, p) == [x \in DOMAIN w \ {p} |-> w[x]]

Step ==
  LET e == Traces[tid].t[at + 1] IN
  /\ at < Len(Traces[tid].t)
  /\ at' = at + 1 /\ tid' = tid /\ UNCHANGED vars
  /\ CASE e.k = "files" ->
            /\ Put(e.f) /\ UNCHANGED <<poss, path, start>>
            /\ Wrong(IF \A p \in DOMAIN e.f : e.f[p].st = "ok" => Pairs(e.f[p].creds) = Creds(F(e.f[p])) THEN {} ELSE {"setup"})
       [] e.k = "open" ->
            /\ path' = e.path /\ start' = Len(files[e.path].log) /\ files' = files
            /\ poss' = {Login(F(files[e.path]), e.who)}
            /\ Wrong(IF e.ok THEN {} ELSE {"open"})
       [] e.k = "sync" ->
            LET os == Results(LAMBDA S : IF e.auto THEN Auto(S.log) ELSE Called(S.log, e.name), e)
                j == Judge(e, os, e.written, e.log) IN
            /\ poss' = {[Learn(o.S, e.written) EXCEPT !.log = e.log] : o \in j.os}
            /\ Put(e.written) /\ UNCHANGED <<path, start>>
            /\ Wrong(j.bad)
       [] e.k = "edit" ->
            /\ poss' = {[S EXCEPT !.log = e.log, !.pass = IF e.pass = "" THEN @ ELSE e.pass,
                                  !.key = IF e.key = "" THEN @ ELSE e.key] : S \in poss}
            /\ UNCHANGED <<files, path, start>>
            /\ Wrong({})
       [] e.k = "end" ->
            LET saved == path \in DOMAIN e.written
                others == Without1(e.written, path)
                grew == \E S \in poss : Len(S.log) # start
                idle == {[S |-> S, done |-> TRUE, push |-> {}, asks |-> {}] : S \in poss}
                os == IF e.leave = "exit" /\ e.auto /\ grew THEN Results(LAMBDA S : Auto(S.log), e) ELSE idle
                c0 == Judge(e, os, others, IF saved THEN e.written[path].log ELSE (CHOOSE o \in os : TRUE).S.log)
                c1 == IF saved THEN Keep(c0, LAMBDA o : HoldsLog(e.written[path], o.S), "saved-content") ELSE c0
                c2 == IF saved THEN Keep(c1, LAMBDA o : HoldsCreds(e.written[path], o.S), "saved-creds") ELSE c1
                c3 == IF saved THEN Keep(c2, LAMBDA o : SelfOk(e.written[path], o.S), "self") ELSE c2
                bad == (IF saved = (e.leave = "exit") THEN {} ELSE {IF saved THEN "saved" ELSE "not-saved"}) IN
            /\ poss' = {} /\ Put(e.written) /\ UNCHANGED <<path, start>>
            /\ Wrong(c3.bad \cup bad)
Spec == TInit /\ [][Step]_<<tv, vars>>
=============================================================================
