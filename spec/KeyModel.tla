------------------------------ MODULE KeyModel ------------------------------
(***************************************************************************)
(* Sessions of user management as a state machine: what holds of the saved *)
(* file whatever is done, and scenarios to run the program on.             *)
(***************************************************************************)
EXTENDS KeyMgmt, Json

CONSTANTS Names,      \* of users
          Plain,      \* of other entries
          Pass,       \* that are chosen
          Ids, MaxDepth,
          Rude,       \* give up at prompts, too
          LooseRm     \* negative control: deleting oneself among others is allowed

VARIABLES file, s, on, left, hist
vars == <<file, s, on, left>>
View == vars
NoSess == [multi |-> FALSE, own |-> "", ents |-> Empty, m |-> 0, top |-> 0, cur |-> ""]

All == {"user/" \o n : n \in Names} \cup Plain
C(c, a) == [c |-> c, a |-> a, how |-> "ok", p |-> "", yes |-> TRUE, tab |-> Empty, ans |-> "", id |-> ""]
New == IF left = {} THEN "" ELSE CHOOSE i \in left : TRUE
Told(t) == [n \in Names \cup {""} |-> "r" \o ToString(t) \o n]     \* what rekeyall makes up

Cmds ==
  {[C("adduser", <<n>>) EXCEPT !.p = p, !.id = New] : n \in Names, p \in Pass}
  \cup {[C(c, a) EXCEPT !.p = p] : c \in {"passwd", "rekey"}, a \in {<<>>} \cup {<<n>> : n \in Names}, p \in Pass \cup {""}}
  \cup {[C("rekeyall", <<>>) EXCEPT !.tab = Told(s.top)]}
  \cup {[C("add", <<n>>) EXCEPT !.id = New] : n \in All}
  \cup {C("mv", <<n, o>>) : n \in All, o \in All}
  \cup {[C("rm", <<n>>) EXCEPT !.ans = n] : n \in All}
  \cup {C("exit", <<>>), C("<INT>", <<>>)}
  \cup (IF ~Rude THEN {} ELSE
         {[C("adduser", <<n>>) EXCEPT !.p = "", !.id = New] : n \in Names}
         \cup {[C("adduser", <<n>>) EXCEPT !.how = "eof", !.id = New] : n \in Names}
         \cup {[C("passwd", <<n>>) EXCEPT !.how = "int"] : n \in Names}
         \cup {[C("rekey", <<n>>) EXCEPT !.how = "eof"] : n \in Names}
         \cup {[C("rekeyall", <<>>) EXCEPT !.yes = FALSE, !.tab = Told(s.top)], [C("rekeyall", <<>>) EXCEPT !.how = "eof", !.tab = Told(s.top)]}
         \cup {[C("rm", <<n>>) EXCEPT !.ans = a] : n \in All, a \in {"", "y", "<INT>"}}
         \cup {C("<EOF>", <<>>)})

Init == /\ file = [multi |-> FALSE, own |-> "p0", ents |-> Empty, m |-> 0, top |-> 0]
        /\ s = NoSess /\ on = FALSE /\ left = Ids /\ hist = <<>>

Begin == /\ ~on /\ \E who \in Creds(file) : /\ s' = Open(file, who)
                                            /\ hist' = Append(hist, [C("open", who) EXCEPT !.p = who[2]])
         /\ on' = TRUE /\ UNCHANGED <<file, left>>

Step ==
  /\ on
  /\ \E c \in Cmds :
       /\ c.c \in {"adduser", "add"} => left # {}
       /\ LET r == IF LooseRm /\ c.c = "rm" /\ Named(s, c.a[1]) # {} /\ UserOf(c.a[1]) = s.cur
                   THEN R([s EXCEPT !.ents = [i \in DOMAIN s.ents \ Named(s, c.a[1]) |-> s.ents[i]], !.multi = FALSE, !.cur = ""])
                   ELSE Do(s, c) IN
          /\ IF r.ends = "" THEN s' = r.s /\ on' = TRUE /\ file' = file
             ELSE s' = NoSess /\ on' = FALSE /\ file' = IF r.ends = "exit" THEN Saved(r.s) ELSE file
          /\ left' = left \ (DOMAIN r.s.ents \ DOMAIN s.ents)
          /\ hist' = Append(hist, c)

Next == Len(hist) < MaxDepth /\ (Begin \/ Step)
Spec == Init /\ [][Next]_<<vars, hist>>

----------------------------------------------------------------------------
(* Somebody can always open the file. *)
Openable == Creds(file) # {}
(* Nobody has two passphrases, and nobody's is empty. *)
OnePass == \A x, y \in Creds(file) : (x[1] = y[1] => x = y) /\ x[2] # ""
(* Whoever is using the file can open it after saving it, unless he gave   *)
(* up his name.                                                            *)
SelfIn == on => LET f == Saved(s) IN
          (~f.multi => <<"", s.own>> \in Creds(f))
(* Who had no way in gets one only by adduser, passwd, rekey(all), or by   *)
(* taking over the name of a user.                                         *)
Last == hist'[Len(hist')]
Ins(x) == {UserOf(x.ents[i].n) : i \in Users(x)}
NoWayBack == [][(on /\ on') => (Ins(s') \subseteq Ins(s) \/ Last.c \in {"adduser", "passwd", "rekey", "rekeyall", "mv"})]_<<vars, hist>>
(* Other people's passphrases are only changed by naming them, or all.     *)
Others == [][(on /\ on') => \A i \in DOMAIN s.ents : (i \in DOMAIN s'.ents /\ s'.ents[i].k # s.ents[i].k) =>
             (Last.c = "rekeyall" \/ (Last.c \in {"passwd", "rekey"} /\ s.ents[i].n = "user/" \o (IF Last.a = <<>> THEN s.cur ELSE Last.a[1])))]_<<vars, hist>>
(* Among others nobody deletes himself. *)
NoSelfDelete == [][(on /\ on' /\ s.multi /\ ~s'.multi) => Users(s) \subseteq Named(s, "user/" \o s.cur)]_<<vars, hist>>

Emit == PrintT(<<"@@", ToJson(hist')>>)
EmitEnd == Len(hist) = MaxDepth => PrintT(<<"@@", ToJson(hist)>>)
=============================================================================
