-------------------------------- MODULE Sync --------------------------------
(***************************************************************************)
(* Bringing the copies of a file together (sync): pulling every remote,    *)
(* merging the histories, deciding about credentials, and pushing back.    *)
(*                                                                         *)
(* A file    [log, m, own, key]: m names the master key it is encrypted    *)
(*           with, "" if it has a single user; then own is the passphrase  *)
(*           and key the salt it was made a key with.  The users of a file *)
(*           with a master key are those in its history.                   *)
(* A session [log, user, pass, key, m]: an opened file and who opened it.  *)
(* A remote  [st, f]: "ok" holds the file f, "absent" nothing yet, "bad"   *)
(*           cannot be read, understood or replayed; "nowhere" can't even  *)
(*           be created.                                                   *)
(***************************************************************************)
EXTENDS Merge

(* What the user entries' keys are, [p, m]: made with the passphrase p for *)
(* the master key m; and where a url leads to, "" if nowhere.              *)
CONSTANTS KeyOf(_), PathOf(_)

Val(e, k) == IF k \in DOMAIN e THEN e[k] ELSE ""
IsUser(n) == Len(n) >= 5 /\ SubSeq(n, 1, 5) = "user/"
UserOf(n) == IF IsUser(n) THEN SubSeq(n, 6, Len(n)) ELSE ""

(* The users there are, [u, k, s]. *)
UsersIn(s) == {[u |-> UserOf(Val(s[i], "name")), k |-> Val(s[i], "mkey"), s |-> Val(s[i], "salt")] :
                 i \in {j \in DOMAIN s : UserOf(Val(s[j], "name")) # "" /\ Val(s[j], "mkey") # ""}}
Users(l) == UsersIn(Replay(l))
(* Whether anything in there is called a user. *)
HasUsers(l) == LET s == Replay(l) IN \E i \in DOMAIN s : IsUser(Val(s[i], "name"))

FileOf(S) == IF S.m = "" \/ Users(S.log) = {} THEN [log |-> S.log, m |-> "", own |-> S.pass, key |-> S.key]
             ELSE [log |-> S.log, m |-> S.m, own |-> "", key |-> ""]
Creds(f) == IF f.m = "" THEN {<<"", f.own>>}
            ELSE {<<x.u, KeyOf(x.k).p>> : x \in {y \in Users(f.log) : KeyOf(y.k).m = f.m}}

(* Opening a file at the start of a session. *)
Login(f, who) ==
  [log |-> f.log, user |-> who[1], pass |-> who[2], m |-> f.m,
   key |-> IF f.m = "" THEN f.key ELSE (CHOOSE x \in Users(f.log) : x.u = who[1]).s]

----------------------------------------------------------------------------
(* A remote's file is tried with one's own credentials first; then the     *)
(* person is asked for others, may = [u, p] ("" if none are known).        *)
Locked == [ok |-> FALSE, u |-> "", p |-> "", key |-> ""]
Named(f, u) == {x \in Users(f.log) : x.u = u}
Try(f, S, may) ==
  IF f.m = ""
  THEN IF f.own = S.pass THEN [ok |-> TRUE, u |-> S.user, p |-> S.pass, key |-> f.key]
       ELSE IF may.p = f.own THEN [ok |-> TRUE, u |-> S.user, p |-> may.p, key |-> f.key] ELSE Locked
  ELSE LET u == IF S.user # "" THEN S.user ELSE may.u IN
       IF Named(f, u) = {} THEN Locked
       ELSE LET x == CHOOSE x \in Named(f, u) : TRUE
                k == KeyOf(x.k) IN
            IF k.m # f.m THEN Locked
            ELSE IF k.p \in {S.pass, may.p} THEN [ok |-> TRUE, u |-> u, p |-> k.p, key |-> x.s] ELSE Locked

(* What has to be asked for that.  Nobody is told that a user is unknown.  *)
TryAsks(f, S, may, n) ==
  IF f.m = "" THEN IF f.own = S.pass THEN {} ELSE {<<"pass", n>>}
  ELSE LET u == IF S.user # "" THEN S.user ELSE may.u IN
       (IF S.user # "" THEN {} ELSE {<<"user", n>>})
       \cup (IF u # "" /\ ~\E x \in Named(f, u) : KeyOf(x.k) = [p |-> S.pass, m |-> f.m] THEN {<<"pass", n>>} ELSE {})

----------------------------------------------------------------------------
(* Settling conflicts.  pol: [root, ask, del]: the answers to be given; del *)
(* maps entries to answers.  "eof" stands for giving up.                    *)
DelHow(pol, u) == IF u \in DOMAIN pol.del THEN pol.del[u] ELSE pol.any
HowOf(pol, c) == IF c.kind = "root" THEN pol.root ELSE DelHow(pol, c.initial.u)
AskOf(c) == IF c.kind = "root" THEN <<"root", "">> ELSE <<"del", c.initial.u>>

RECURSIVE Decide(_, _, _, _, _)
Decide(conf, i, R, pol, asks) ==
  IF i > Len(conf) THEN [ok |-> TRUE, R |-> R, asks |-> asks]
  ELSE LET how == HowOf(pol, conf[i])
           a == asks \cup {AskOf(conf[i])} IN
       IF how \in {"n", "eof"} THEN [ok |-> FALSE, R |-> R, asks |-> a]
       ELSE Decide(conf, i + 1, Resolve(R, conf[i], how), pol, a)

RECURSIVE SettleBy(_, _, _, _, _)
SettleBy(a, b, R, pol, asks) ==
  LET m == Merge(a, b, R) IN
  IF m.conf = <<>> THEN [ok |-> TRUE, c |-> m.c, asks |-> asks]
  ELSE LET d == Decide(m.conf, 1, R, pol, asks) IN
       IF d.ok THEN SettleBy(a, b, d.R, pol, d.asks) ELSE [ok |-> FALSE, c |-> <<>>, asks |-> d.asks]

Last(l) == IF l = <<>> THEN 0 ELSE l[Len(l)].tm

(* Of two master keys the one whose key of the person is in the merged     *)
(* history stays.                                                          *)
EntryOf(s, u) == {i \in DOMAIN s : Val(s[i], "name") = "user/" \o u}
Told(s, after, u) == \E i \in EntryOf(s, u) : i \in DOMAIN after
Kept(s, after, u) == \E i \in EntryOf(s, u) : i \in DOMAIN after /\ Val(after[i], "mkey") = Val(s[i], "mkey")

(* Merging what was pulled into the session: the new session, whether it   *)
(* was given up, and what was asked.  r = [f, cr, name].                   *)
MergeOne(S, r, pol) ==
  LET b == r.f.log
      st == IF b = <<>> THEN [ok |-> TRUE, c |-> S.log, asks |-> {}] ELSE SettleBy(S.log, b, NoRes, pol, {})
      local == Replay(S.log)  after == Replay(st.c)
      both1 == S.m = "" /\ r.f.m = ""
      differ == both1 /\ S.key # r.cr.key
      ask == differ /\ Last(S.log) = Last(b)
      lost == ~Told(local, after, S.user)
      take ==
        IF both1 THEN differ /\ (Last(S.log) < Last(b) \/ (ask /\ pol.ask = "y"))
        ELSE IF S.m = "" THEN HasUsers(st.c)
        ELSE IF r.f.m = "" THEN ~HasUsers(st.c)
        ELSE IF S.m # r.f.m THEN ~Kept(local, after, S.user)
        ELSE S.user = r.cr.u /\ S.key # r.cr.key /\ \E i \in EntryOf(after, S.user) : Val(after[i], "salt") = r.cr.key
      asks == st.asks \cup (IF st.ok /\ ask THEN {<<"cred", r.name>>} ELSE {})
  IN IF ~st.ok \/ after = BAD THEN [ok |-> FALSE, S |-> S, asks |-> asks]
     ELSE IF (ask /\ pol.ask = "eof") \/ (S.m # "" /\ r.f.m # "" /\ S.m # r.f.m /\ lost) THEN [ok |-> FALSE, S |-> S, asks |-> asks]
     ELSE [ok |-> TRUE, asks |-> asks,
           S |-> IF take THEN [log |-> st.c, user |-> r.cr.u, pass |-> r.cr.p, key |-> r.cr.key, m |-> r.f.m]
                         ELSE [S EXCEPT !.log = st.c]]

RECURSIVE MergeEach(_, _, _)
MergeEach(S, rs, pol) ==
  IF rs = <<>> THEN [ok |-> TRUE, S |-> S, asks |-> {}]
  ELSE LET m == MergeOne(S, rs[1], pol) IN
       IF ~m.ok THEN m
       ELSE LET n == MergeEach(m.S, Tail(rs), pol) IN [n EXCEPT !.asks = @ \cup m.asks]

(* Nobody's own sync makes a file that is not theirs any more. *)
LockedOut(l, u) == LET us == Users(l) IN us # {} /\ ~\E x \in us : x.u = u
MergeAll(S, rs, pol) ==
  LET m == MergeEach(S, rs, pol) IN
  IF m.ok /\ m.S.m # "" /\ Replay(m.S.log) # BAD /\ LockedOut(m.S.log, m.S.user) /\ ~LockedOut(S.log, S.user)
  THEN [m EXCEPT !.ok = FALSE, !.S = S] ELSE m

----------------------------------------------------------------------------
(* The entries a sync is about: those marked for it. *)
Auto(l) == LET s == Replay(l) IN
           {i \in DOMAIN s : Val(s[i], "sync") = "true" /\ Val(s[i], "name") # "" /\ PathOf(Val(s[i], "url")) # "none"}
Called(l, n) == LET s == Replay(l) IN {i \in DOMAIN s : Val(s[i], "name") = n}

SameKeys(S, f) == S.m = f.m /\ (S.m # "" \/ S.key = f.key)
Has(S, f) == f.log = S.log /\ SameKeys(S, f)

Perms(X) == {p \in [1..Cardinality(X) -> X] : \A i, j \in 1..Cardinality(X) : i # j => p[i] # p[j]}

(* All outcomes of a sync of the entries ids, which depend on the order    *)
(* they are merged in.  rem maps paths to what is there, pol.may entries'  *)
(* names to the credentials the person knows for them.                     *)
(* Outcome: [S, done, push, asks]: push the paths that are to hold the     *)
(* file of S; done says whether it was not given up.                       *)
Outcomes(S, ids, rem, pol) ==
  LET s == Replay(S.log)
      url == [i \in ids |-> Val(s[i], "url")]
      path == [i \in ids |-> PathOf(url[i])]
      name == [i \in ids |-> Val(s[i], "name")]
      st == [i \in ids |-> IF path[i] \in DOMAIN rem THEN rem[path[i]].st ELSE "bad"]
      may == [i \in ids |-> IF name[i] \in DOMAIN pol.may THEN pol.may[name[i]] ELSE [u |-> "", p |-> ""]]
      ok == {i \in ids : st[i] = "ok"}
      cr == [i \in ok |-> Try(rem[path[i]].f, S, may[i])]
      open == {i \in ok : cr[i].ok}
      news == {i \in open : ~Has(S, rem[path[i]].f)}
      asked == UNION {TryAsks(rem[path[i]].f, S, may[i], name[i]) : i \in ok}
      There(l, i) == LET t == Replay(l) IN i \in DOMAIN t /\ Val(t[i], "url") = url[i]
      Of1(p) == MergeAll(S, [n \in 1..Len(p) |-> [f |-> rem[path[p[n]]].f, cr |-> cr[p[n]], name |-> name[p[n]]]], pol)
  IN {LET m == Of1(p) IN
      IF ~m.ok \/ Replay(m.S.log) = BAD THEN [S |-> S, done |-> FALSE, push |-> {}, asks |-> asked \cup m.asks]
      ELSE [S |-> m.S, done |-> TRUE, asks |-> asked \cup m.asks,
            push |-> {path[i] : i \in {j \in open \cup {i \in ids : st[i] = "absent"} :
                                       There(m.S.log, j) /\ ~(j \in open /\ Has(m.S, rem[path[j]].f))}}]
      : p \in Perms(news)}

(* What the outcome must mean to people. *)
(* Every change of every copy that took part is in the result.             *)
AllIn(S, O, fs) == \A f \in fs : Elems(f.log) \subseteq Elems(O.S.log)
(* The person can open what is saved, unless not a user any more.          *)
Opens(S) == LET f == FileOf(S) IN
            IF f.m = "" THEN TRUE ELSE (\E x \in Users(f.log) : x.u = S.user) => <<S.user, S.pass>> \in Creds(f)
=============================================================================
