---------------------------- MODULE SessionModel ----------------------------
(***************************************************************************)
(* Module Session as a state machine over a small alphabet: what holds of  *)
(* every session whatever is typed, and scenarios to run the program on.   *)
(***************************************************************************)
EXTENDS Session, Json

CONSTANTS Names, Queries, Keys, Labs, Ids, MaxDepth, LooseMv

MLC(c) == CASE c = "A" -> "a" [] c = "B" -> "b" [] OTHER -> c
MFold(k) == CASE k = "Name" -> "name" [] OTHER -> k
MTotp(s) == s = "good"
MUrl(s) == s = "x://y"
MLabel(s) == s # "L 1"
MSecret(s) == s
MWhen(s) == s
MInt(s) == CASE s = "1" -> 1 [] s = "2" -> 2 [] OTHER -> 0
MIsInt(s) == s \in {"1", "2"}

VARIABLES ctx, ro, open, left, hist
mvars == <<vars, ctx, ro, open, left>>
View == <<snap, ctx, ro, open, left>>

NoPw == [how |-> "ok", pw |-> "", clips |-> <<>>]
C(c, a) == [c |-> c, a |-> a, ans |-> <<>>, pw |-> NoPw, codes |-> [s \in {"good", "<secret>good"} |-> <<"123456">>],
            sy |-> [how |-> "ok", url |-> "file:///x", more |-> <<>>], ed |-> [how |-> "ok", text |-> ""]]
Ans(c, ans) == [c EXCEPT !.ans = ans]

Q == {<<>>} \cup {<<q>> : q \in Queries}

Commands ==
       {Ans(C("add", <<n>>), <<"", "me">>) : n \in Names} \cup {Ans(C("add", <<n>>), <<EOF>>) : n \in Names}
  \cup {Ans(C("rm", <<n>>), <<m>>) : n \in Names, m \in Names}
  \cup {C("mv", <<n, m>>) : n \in Names, m \in Names}
  \cup {C("cd", q) : q \in Q} \cup {C("ls", q) : q \in Q}
  \cup {C("set", q \o <<k, val>>) : q \in Q, k \in Keys \cup {"name", "Name"}, val \in {"v"}}
  \cup {C("set", q \o <<"totp", val>>) : q \in Q, val \in {"good", "bad"}}
  \cup {C("rmk", q \o <<k>>) : q \in Q, k \in Keys \cup {"name"}}
  \cup {[C("edit", q \o <<k>>) EXCEPT !.ed = e] : q \in Q, k \in Keys \cup {"name"}, e \in {[how |-> "ok", text |-> "ed"], [how |-> "ok", text |-> ""], [how |-> "fail", text |-> "x"]}}
  \cup {Ans(C("label", q), <<lb, "">>) : q \in Q, lb \in Labs \cup {"L 1"}}
  \cup {C("rmlabel", q \o <<lb>>) : q \in Q, lb \in Labs}
  \cup {C("labels", <<lb>>) : lb \in Labs} \cup {C("labels", <<lb, m>>) : lb \in Labs, m \in Labs}
  \cup {C(cmd, q \o <<k>>) : cmd \in {"cp", "get"}, q \in Q, k \in Keys}
  \cup {C(cmd, q) : cmd \in {"user", "totp", "dump", "show"}, q \in Q} \cup {C("show", q \o <<n>>) : q \in Q, n \in {"1", "2"}}
  \cup {Ans(C("login", q), <<"">>) : q \in Q}
  \cup {C("addsync", <<"file">>), [C("addsync", <<"file">>) EXCEPT !.sy.how = "eof"]}
  \cup {C("?", <<>>), C("exit", <<>>), C(INT, <<>>)}

New == CHOOSE u \in left : \A w \in left : w = u \/ TRUE

MInit == Init /\ ctx = "" /\ ro \in BOOLEAN /\ open = "yes" /\ left = Ids /\ hist = <<>>

MNext == \E c \in Commands :
  LET r == IF LooseMv /\ c.c = "mv" /\ Named(snap, c.a[1]) # {}    \* negative control: mv without its check
           THEN Update1(ctx, CHOOSE u \in Named(snap, c.a[1]) : TRUE, "name", c.a[2])
           ELSE Do(ro, snap, ctx, c, New)  v2 == After(snap, r.ch, 1) IN
  /\ open = "yes" /\ Len(hist) < MaxDepth
  /\ c.c \in {"add", "addsync"} => left # {}
  /\ log' = log \o [i \in 1..Len(r.ch) |-> [kind |-> r.ch[i].kind, u |-> r.ch[i].u, k |-> r.ch[i].k, v |-> r.ch[i].v, tm |-> ""]]
  /\ snap' = v2 /\ ver' = Len(log') /\ txp' = 0
  /\ left' = left \ {r.ch[i].u : i \in {i \in 1..Len(r.ch) : r.ch[i].kind = "add"}}
  /\ ctx' = r.ctx /\ ro' = ro /\ open' = IF r.ends = "" THEN "yes" ELSE r.ends
  /\ hist' = Append(hist, [c |-> c.c, a |-> c.a, ans |-> c.ans, sy |-> c.sy.how, ed |-> c.ed])

MSpec == MInit /\ [][MNext]_<<mvars, hist>>

----------------------------------------------------------------------------
(* Every view is a replay of the history. *)
Replayable == snap # BAD /\ Faithful
UniqueInv == UniqueNames(snap)
CtxInv == ctx # "" => ctx \in DOMAIN snap
(* Nothing is written in a read-only session. *)
ReadOnly == [][ro => log' = log]_<<mvars, hist>>
LastC == hist'[Len(hist')]
(* Reading commands and refusals change nothing. *)
OnlyWriters == [][(Len(hist') > Len(hist) /\ LastC.c \notin Writing) => log' = log]_<<mvars, hist>>
(* A change concerns one entry only, and unless it is new the command was about it. *)
OneEntry == [][(log' # log) =>
   LET us == {log'[i].u : i \in (Len(log) + 1)..Len(log')} IN
   /\ Cardinality(us) = 1
   /\ \A u \in us : u \in DOMAIN snap => (u = ctx \/ (LastC.a # <<>> /\ (Name(snap, u) = LastC.a[1] \/ Matches(Name(snap, u), LastC.a[1]))))]_<<mvars, hist>>
(* Other entries stay as they are. *)
OthersStay == [][\A u \in DOMAIN snap : (snap' # BAD /\ ~\E i \in (Len(log) + 1)..Len(log') : log'[i].u = u) => u \in DOMAIN snap' /\ snap'[u] = snap[u]]_<<mvars, hist>>
(* Names and key material are only changed by their owners. *)
NameOwner == [][\A u \in DOMAIN snap : (snap' # BAD /\ u \in DOMAIN snap' /\ Name(snap, u) # Name(snap', u)) => LastC.c = "mv"]_<<mvars, hist>>
(* An entry never vanishes but by rm with its name typed in full. *)
RmOnly == [][\A u \in DOMAIN snap : u \notin DOMAIN snap' => LastC.c = "rm" /\ LastC.ans = <<Name(snap, u)>>]_<<mvars, hist>>

Emit == PrintT(<<"@@", ToJson([ro |-> ro, h |-> hist'])>>)
EmitEnd == (Len(hist) = MaxDepth \/ open # "yes") => PrintT(<<"@@", ToJson([ro |-> ro, h |-> hist])>>)
=============================================================================
