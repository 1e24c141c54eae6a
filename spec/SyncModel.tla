----------------------------- MODULE SyncModel -----------------------------
(***************************************************************************)
(* Devices that edit their copies of a file, change passphrases and users, *)
(* and sync with remotes, any step of which may fail or be cut short: what *)
(* holds of the copies, and histories to run the program on.               *)
(***************************************************************************)
EXTENDS Sync, Json

CONSTANTS Dev, Rems,   \* devices, remotes (paths)
          Multi,       \* does it start as a multi-user file?
          Ops,         \* of "set" "del" "passwd" "adduser" "rmuser" "single" "rekeyall" "break" "moved"
          MaxSteps,
          Faults,      \* may syncs be cut short?
          Control      \* negative control: "" or what is done wrong

VARIABLES files,   \* device -> file
          rem,     \* path -> [st, f]
          now, hist,
          last     \* what the last sync did
mvars == <<files, rem, now, last>>
MView == <<files, rem, now, last>>

MPass == {"p0", "q0"} \cup {x \o ToString(i) : x \in {"p", "q"}, i \in 1..MaxSteps + 3}
MMas == {"M0"} \cup {"M" \o ToString(i) : i \in 1..MaxSteps + 3}
KeyTab == [k \in {p \o "|" \o m : p \in MPass, m \in MMas} |->
             LET x == CHOOSE x \in MPass \X MMas : x[1] \o "|" \o x[2] = k IN [p |-> x[1], m |-> x[2]]]
MKey(k) == KeyTab[k]
MPath(u) == IF u \in Rems THEN u ELSE "none"
MRank(s) == 0

E(t, i, kind, u, k, v) == [tm |-> t * 10 + i, kind |-> kind, u |-> u, k |-> k, v |-> v]
NewSync(p, i) == <<E(0, i, "add", "s" \o p, "", ""), E(0, i + 1, "setk", "s" \o p, "name", "s" \o p),
                   E(0, i + 2, "setk", "s" \o p, "url", p), E(0, i + 3, "setk", "s" \o p, "sync", "true")>>
NewUser(t, u, n, p, m) == <<E(t, 0, "add", u, "", ""), E(t, 1, "setk", u, "name", "user/" \o n),
                            E(t, 2, "setk", u, "salt", "k" \o u \o ToString(t)), E(t, 3, "setk", u, "mkey", p \o "|" \o m)>>
NewKeys(t, u, p, m) == <<E(t, 2, "setk", u, "salt", "k" \o u \o ToString(t)), E(t, 3, "setk", u, "mkey", p \o "|" \o m)>>

RECURSIVE Cat(_, _)
Cat(f, S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN f[x] \o Cat(f, S \ {x})

Base == LET l == <<E(0, 0, "add", "e1", "", "")>> \o Cat([p \in Rems |-> NewSync(p, IF p = "r1" THEN 1 ELSE 5)], Rems) IN
        IF Multi THEN [log |-> l \o NewUser(1, "ua", "ann", "p0", "M0") \o NewUser(2, "ub", "bob", "q0", "M0"),
                       m |-> "M0", own |-> "", key |-> ""]
        ELSE [log |-> l, m |-> "", own |-> "p0", key |-> "k0"]

MInit == /\ files = [d \in Dev |-> Base] /\ rem = [p \in Rems |-> [st |-> "absent", f |-> Base]]
         /\ now = IF Multi THEN 3 ELSE 1
         /\ hist = <<>> /\ last = [k |-> "none"] /\ Init

(* d's person uses the file as the first of its users that can open it.    *)
WhoOf(f) == Creds(f)

Ed(f, es) == [f EXCEPT !.log = @ \o es]
Uid(f, n) == (CHOOSE i \in EntryOf(Replay(f.log), n) : TRUE)
UserSet(f) == {x.u : x \in Users(f.log)}
P(x) == x \o ToString(now)

Edits(f, who) ==
  {[op |-> "set", f |-> Ed(f, <<E(now, 0, "setk", "e1", "k1", "v" \o ToString(now))>>)]}
  \cup {[op |-> "del", f |-> Ed(f, <<E(now, 0, "del", "e1", "", "")>>)]}
  \cup {[op |-> "moved", f |-> Ed(f, <<E(now, 0, "setk", "sr1", "url", "nothing")>>)]}
  \cup {[op |-> "passwd", f |-> IF f.m = "" THEN [f EXCEPT !.own = P("p"), !.key = P("k")]
                                ELSE Ed(f, NewKeys(now, Uid(f, who[1]), P("p"), f.m))]}
  \cup {[op |-> "adduser", f |-> IF f.m = "" THEN [Ed(f, NewUser(now, "u" \o ToString(now), P("n"), f.own, P("M"))) EXCEPT !.m = P("M"), !.own = "", !.key = ""]
                                 ELSE Ed(f, NewUser(now, "u" \o ToString(now), P("n"), P("p"), f.m))]}
  \cup (IF f.m = "" THEN {} ELSE
         {[op |-> "rmuser", f |-> Ed(f, <<E(now, 0, "del", Uid(f, n), "", "")>>)] : n \in UserSet(f) \ {who[1]}}
         \cup {[op |-> "single", f |-> LET ids == {Uid(f, n) : n \in UserSet(f)} IN
                  [Ed(f, Cat([i \in ids |-> <<E(now, 0, "del", i, "", "")>>], ids))
                     EXCEPT !.m = "", !.own = who[2], !.key = (CHOOSE x \in Users(f.log) : x.u = who[1]).s]]}
         \cup {[op |-> "rekeyall", f |-> LET ids == {Uid(f, n) : n \in UserSet(f)} IN
                  [Ed(f, Cat([i \in ids |-> NewKeys(now, i, IF i = Uid(f, who[1]) THEN P("p") ELSE P("q"), P("M"))], ids)) EXCEPT !.m = P("M")]]})

MEdit(d) == \E who \in Creds(files[d]) : \E e \in Edits(files[d], who) :
  /\ e.op \in Ops /\ Replay(e.f.log) # BAD
  /\ files' = [files EXCEPT ![d] = e.f] /\ rem' = rem /\ now' = now + 1
  /\ hist' = Append(hist, [op |-> e.op, d |-> d, who |-> who])
  /\ last' = [k |-> "none"] /\ UNCHANGED vars

Break(p) == /\ "break" \in Ops /\ rem[p].st # "bad" /\ rem' = [rem EXCEPT ![p].st = "bad"] /\ now' = now + 1
            /\ hist' = Append(hist, [op |-> "break", p |-> p]) /\ last' = [k |-> "none"] /\ UNCHANGED <<files, vars>>

(* The right credentials for every remote, as the person of S knows them.  *)
MayOf(S, r) ==
  IF r.st # "ok" THEN [u |-> "", p |-> ""]
  ELSE LET mine == {c \in Creds(r.f) : c[1] \in {S.user, ""}}
           any == IF mine # {} THEN mine ELSE IF S.user = "" THEN Creds(r.f) ELSE {} IN
       IF any = {} THEN [u |-> "", p |-> ""] ELSE LET c == CHOOSE c \in any : TRUE IN [u |-> c[1], p |-> c[2]]
Pol(S, r, ask, any) == [root |-> "y", ask |-> ask, any |-> any, del |-> Empty,
                        may |-> [n \in {"s" \o p : p \in Rems} |-> MayOf(S, r[CHOOSE p \in Rems : n = "s" \o p])]]

Outs(S, r, pol) ==
  IF Control = "blind"      \* a remote that cannot be read is taken for one that doesn't exist
  THEN Outcomes(S, Auto(S.log), [p \in DOMAIN r |-> IF r[p].st = "bad" THEN [r[p] EXCEPT !.st = "absent"] ELSE r[p]], pol)
  ELSE IF Control = "mine"  \* one's own credentials always stay
  THEN {[o EXCEPT !.S.pass = S.pass, !.S.key = S.key, !.S.m = S.m, !.S.user = S.user] : o \in Outcomes(S, Auto(S.log), r, pol)}
  ELSE IF Control = "newest" \* the history with the latest change replaces the others
  THEN {[o EXCEPT !.S.log = LET ls == {S.log} \cup {r[p].f.log : p \in {q \in DOMAIN r : r[q].st = "ok"}} IN
                            CHOOSE l \in ls : \A x \in ls : Last(x) <= Last(l)] : o \in Outcomes(S, Auto(S.log), r, pol)}
  ELSE Outcomes(S, Auto(S.log), r, pol)

Reach(l) == {MPath(Val(Replay(l)[i], "url")) : i \in Auto(l)}
Did(d, who, S, ask, any, o) ==
    /\ \E saved \in BOOLEAN, pushed \in SUBSET o.push :
         /\ ~Faults => saved /\ pushed = o.push
         /\ files' = IF saved THEN [files EXCEPT ![d] = FileOf(o.S)] ELSE files
         /\ rem' = [p \in Rems |-> IF p \in pushed THEN [st |-> "ok", f |-> FileOf(o.S)] ELSE rem[p]]
         /\ hist' = Append(hist, [op |-> "sync", d |-> d, who |-> who, ask |-> ask, any |-> any, saved |-> saved, pushed |-> pushed])
         /\ last' = [k |-> "sync", d |-> d, S |-> S, o |-> o, any |-> any, was |-> rem, pushed |-> pushed,
                     in |-> {rem[p].f : p \in {q \in Reach(S.log) \cap Rems : rem[q].st = "ok" /\ Try(rem[q].f, S, MayOf(S, rem[q])).ok}}]

(* Other answers are only of interest where something is asked. *)
MSync(d) == \E who \in Creds(files[d]) :
  LET S == Login(files[d], who)
      O(ask, any) == Outs(S, rem, Pol(S, rem, ask, any))
      yr == O("y", "restore")
      Asked(k) == \E o \in yr : \E a \in o.asks : a[1] = k IN
    /\ \/ \E o \in yr : Did(d, who, S, "y", "restore", o)
       \/ Asked("cred") /\ \E o \in O("n", "restore") : Did(d, who, S, "n", "restore", o)
       \/ Asked("del") /\ \E o \in O("y", "delete") : Did(d, who, S, "y", "delete", o)
    /\ now' = now + 1 /\ UNCHANGED vars

MNext == Len(hist) < MaxSteps /\ (\E d \in Dev : MEdit(d) \/ MSync(d) \/ \E p \in Rems : Break(p))
MSpec == MInit /\ [][MNext]_<<mvars, hist, vars>>

----------------------------------------------------------------------------
Synced == last.k = "sync" /\ last.o.done
AllFiles == {files[d] : d \in Dev} \cup {rem[p].f : p \in {q \in Rems : rem[q].st = "ok"}}

Valid == \A f \in AllFiles : Replay(f.log) # BAD

(* What is missing after a sync was decided away.                          *)
NoLoss == Synced => LET all == UNION {Elems(f.log) : f \in last.in} \cup Elems(last.S.log)
                        del == {x \in all : x.kind = "del"} IN
  /\ Elems(last.o.S.log) \subseteq all
  /\ \A x \in all \ Elems(last.o.S.log) :
       IF last.any = "restore" THEN <<"del", x.u>> \in last.o.asks /\ x.kind = "del"
       ELSE <<"del", x.u>> \in last.o.asks /\ \E y \in del \ {x} : y.u = x.u /\ y \in Elems(last.o.S.log)

(* Nobody overwrites what could not be read. *)
Untouched == last.k = "sync" => \A p \in Rems : last.was[p].st = "bad" => rem[p] = last.was[p]

(* Who synced can open what that made, as the session goes on to believe.  *)
SelfOpens == Synced => LET f == FileOf(last.o.S) IN
  IF f.m = "" THEN TRUE ELSE <<last.o.S.user, last.o.S.pass>> \in Creds(f)
(* ... with a passphrase there was. *)
OldPass == Synced => <<last.o.S.user, last.o.S.pass>> \in
             {<<last.S.user, last.S.pass>>} \cup {<<last.S.user, c[2]>> : c \in UNION {Creds(f) : f \in last.in}}
                                            \cup UNION {Creds(f) : f \in last.in}
(* Every file can be opened by somebody. *)
Openable == \A f \in AllFiles : Creds(f) # {}

(* A given up sync changes nothing. *)
Given == last.k = "sync" /\ ~last.o.done => FileOf(last.o.S) = FileOf(last.S) /\ last.pushed = {}

(* With everybody back at home: whoever syncs, in turns, all copies become *)
(* the same, as long as everybody gets in everywhere.                      *)
Calm(w, d, who) ==
  LET S == Login(w.f[d], who)
      o == CHOOSE o \in Outs(S, w.r, Pol(S, w.r, "y", "restore")) : TRUE IN
  [ok |-> w.ok /\ o.done /\ \A p \in Rems : w.r[p].st = "ok" => Try(w.r[p].f, S, MayOf(S, w.r[p])).ok,
   f |-> [w.f EXCEPT ![d] = FileOf(o.S)],
   r |-> [p \in Rems |-> IF p \in o.push THEN [st |-> "ok", f |-> FileOf(o.S)] ELSE w.r[p]]]
Someone(f) == CHOOSE c \in Creds(f) : TRUE
RECURSIVE Turns(_, _)
Turns(w, ds) == IF ds = <<>> THEN w
                ELSE IF ~w.ok \/ Creds(w.f[ds[1]]) = {} THEN [w EXCEPT !.ok = FALSE]
                ELSE Turns(Calm(w, ds[1], Someone(w.f[ds[1]])), Tail(ds))
Converges ==
  \A d \in {"d1"}, e \in Dev \ {"d1"} :
    LET w == Turns([ok |-> TRUE, f |-> files, r |-> rem], <<d, e, d, e>>)
        l == w.f[d].log
        good == {p \in Reach(l) : w.r[p].st = "ok"} IN
    w.ok /\ (\E p \in good : p \in Reach(files[d].log) /\ p \in Reach(files[e].log)) =>
      /\ w.f[e].log = l /\ \A p \in good : w.r[p].f.log = l
      /\ Creds(w.f[e]) = Creds(w.f[d]) /\ \A p \in good : Creds(w.r[p].f) = Creds(w.f[d])

MEmit == PrintT(<<"@@", ToJson([h |-> hist'])>>)
MEnd == Len(hist) = MaxSteps => PrintT(<<"@@", ToJson([h |-> hist])>>)
=============================================================================
