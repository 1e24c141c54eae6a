------------------------------- MODULE KeyMgmt -------------------------------
(***************************************************************************)
(* Who can open a file: its users and their passphrases over sessions, and *)
(* the commands that change them.                                          *)
(*                                                                         *)
(* A file  [multi, own, ents, m, top]: own is the passphrase of a single-  *)
(* user file; ents the entries, of which those with a user's name and a    *)
(* key for the present master key are its users; m is which master key it  *)
(* is encrypted with, top how many there have been.                        *)
(* A session has cur, who is using it, besides.                            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Text

Empty == [x \in {} |-> 0]
NoKey == [p |-> "", m |-> 0]

IsUser(n) == StartsWith(n, "user/")
UserOf(n) == IF IsUser(n) THEN SubSeq(n, 6, Len(n)) ELSE ""
Real(e, m) == UserOf(e.n) # "" /\ e.k.p # "" /\ e.k.m = m
Users(f) == {i \in DOMAIN f.ents : Real(f.ents[i], f.m)}

(* Who opens a file, and with what; a single-user file has no user names.  *)
Creds(f) == IF f.multi THEN {<<UserOf(f.ents[i].n), f.ents[i].k.p>> : i \in Users(f)} ELSE {<<"", f.own>>}

Open(f, who) == [multi |-> f.multi, own |-> who[2], ents |-> f.ents, m |-> f.m, top |-> f.top, cur |-> who[1]]
(* What is saved: a single-user file once there is no user left. *)
Saved(s) == [multi |-> s.multi /\ Users(s) # {}, own |-> s.own, ents |-> s.ents, m |-> s.m, top |-> s.top]

Named(s, n) == {i \in DOMAIN s.ents : s.ents[i].n = n}
The(S) == CHOOSE x \in S : TRUE

(* The effect of a command: the session after it, whether it was refused,  *)
(* and how the session ends if it does.                                    *)
R(s) == [s |-> s, no |-> FALSE, ends |-> "", fresh |-> {}]
No(s) == [R(s) EXCEPT !.no = TRUE]
End(s, how) == [R(s) EXCEPT !.ends = how]

SetKey(s, i, p) == [s EXCEPT !.ents[i].k = [p |-> p, m |-> s.m]]
Put(s, i, n, k) == [s EXCEPT !.ents = [j \in DOMAIN s.ents \cup {i} |-> IF j = i THEN [n |-> n, k |-> k] ELSE s.ents[j]]]

(* A new passphrase for a user; ask: whether one has to be entered. *)
NewPass(s, a, how, p) ==
  LET u == IF a = <<>> THEN s.cur ELSE a[1]
      is == Named(s, "user/" \o u) IN
  IF how # "ok" THEN End(s, how)
  ELSE IF p = "" THEN No(s)
  ELSE IF ~s.multi THEN [R([s EXCEPT !.own = p]) EXCEPT !.fresh = {""}]
  ELSE LET s1 == IF u = s.cur THEN [s EXCEPT !.own = p] ELSE s IN
       [R(SetKey(s1, The(is), p)) EXCEPT !.fresh = {u}]

Unknown(s, a) == s.multi /\ Named(s, "user/" \o (IF a = <<>> THEN s.cur ELSE a[1])) = {}

(* What rekeyall tells a user. *)
TellTo(c, n) == IF n \in DOMAIN c.tab THEN c.tab[n] ELSE ""

Do(s, c) ==
  CASE c.c \in {"exit", "<EOF>"} -> End(s, "exit")
    [] c.c = "<INT>" -> End(s, "int")
    [] c.c = "passwd" -> IF Unknown(s, c.a) THEN (IF c.how = "ok" \/ c.how = "none" THEN No(s) ELSE End(s, c.how)) ELSE NewPass(s, c.a, c.how, c.p)
    [] c.c = "rekey" -> IF Unknown(s, c.a) THEN (IF c.how = "ok" \/ c.how = "none" THEN No(s) ELSE End(s, c.how))
                        ELSE NewPass(s, c.a, IF c.a = <<>> THEN "ok" ELSE c.how, IF c.a = <<>> THEN s.own ELSE c.p)
    [] c.c = "adduser" ->
         LET n == "user/" \o c.a[1] IN
         IF c.a = <<>> \/ Named(s, n) # {} THEN No(s)
         ELSE IF ~s.multi
              THEN R(Put([s EXCEPT !.multi = TRUE, !.cur = c.a[1], !.m = s.top + 1, !.top = s.top + 1], c.id, n, [p |-> s.own, m |-> s.top + 1]))
         ELSE IF c.how # "ok" THEN End(s, c.how)
         ELSE IF c.p = "" THEN No(s)
         ELSE [R(Put(s, c.id, n, [p |-> c.p, m |-> s.m])) EXCEPT !.fresh = {c.a[1]}]
    [] c.c = "rekeyall" ->
         IF ~s.multi THEN R(s)
         ELSE IF c.how # "ok" THEN End(s, c.how)
         ELSE IF ~c.yes THEN R(s)
         ELSE \* everybody gets a new passphrase, which is told
              LET us == {i \in DOMAIN s.ents : IsUser(s.ents[i].n)}
                  ents2 == [i \in DOMAIN s.ents |-> IF i \in us THEN [s.ents[i] EXCEPT !.k = [p |-> TellTo(c, UserOf(s.ents[i].n)), m |-> s.top + 1]] ELSE s.ents[i]] IN
              [R([s EXCEPT !.ents = ents2, !.m = s.top + 1, !.top = s.top + 1,
                  !.own = IF s.cur # "" /\ Named(s, "user/" \o s.cur) # {} THEN TellTo(c, s.cur) ELSE s.own])
               EXCEPT !.fresh = {UserOf(s.ents[i].n) : i \in us} \ {""}]
    [] c.c = "add" ->
         IF Named(s, c.a[1]) # {} THEN No(s) ELSE R(Put(s, c.id, c.a[1], NoKey))
    [] c.c = "mv" ->
         LET is == Named(s, c.a[1])
             s1 == [s EXCEPT !.ents[The(is)].n = c.a[2]] IN
         IF is = {} \/ Named(s, c.a[2]) # {} THEN No(s)
         ELSE R(IF s.cur # "" /\ UserOf(c.a[1]) = s.cur /\ UserOf(c.a[2]) # "" THEN [s1 EXCEPT !.cur = UserOf(c.a[2])] ELSE s1)
    [] c.c = "rm" ->
         LET is == Named(s, c.a[1])
             self == UserOf(c.a[1]) # "" /\ UserOf(c.a[1]) = s.cur
             s1 == [s EXCEPT !.ents = [i \in DOMAIN s.ents \ is |-> s.ents[i]]] IN
         IF is = {} THEN No(s)
         ELSE IF self /\ Cardinality({i \in DOMAIN s.ents : IsUser(s.ents[i].n)}) > 1 THEN No(s)
         ELSE IF c.ans = "<INT>" THEN End(s, "int")
         ELSE IF c.ans # c.a[1] THEN No(s)
         ELSE R(IF self THEN [s1 EXCEPT !.multi = FALSE, !.cur = "", !.m = 0] ELSE s1)
    [] OTHER -> R(s)
=============================================================================
