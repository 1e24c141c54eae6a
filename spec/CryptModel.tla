----------------------------- MODULE CryptModel -----------------------------
(***************************************************************************)
(* Files are made, cut up and put together again by somebody who knows no  *)
(* passphrase, and opened with all sorts of credentials.  Whatever opens   *)
(* is a file that was made, opened by one of those it was made for.        *)
(* HashUsers, HashIV, AskSalt: switched off for negative controls.         *)
(***************************************************************************)
EXTENDS Crypt, Json

CONSTANTS Names, Pass, Texts, MaxFiles, MaxCuts, HashUsers, HashIV, AskSalt

VARIABLES W, files, cur, cuts, last, top, hist
vars == <<W, files, cur, cuts, last, top, hist>>
View == <<W, files, cur, cuts, last>>

Blank == [ok |-> FALSE, magic |-> "", n |-> 0, users |-> NoUsers, salt |-> "", iv |-> "", body |-> ""]
Id(x) == ToString(x)

(* The head as the checksum sees it, which the controls make see less. *)
Covered(f) == LET h == HeadOf(f) IN [h EXCEPT !.users = IF HashUsers THEN @ ELSE NoUsers, !.iv = IF HashIV THEN @ ELSE ""]
BodyW(f, key) == {b \in W.bodies : b.b = f.body /\ b.key = key /\ (HashIV => b.iv = f.iv) /\ b.head = Covered(f)}
KeyM(s, p, ck, cs) == IF ck # None /\ (AskSalt => cs = s) THEN ck ELSE IF p = "" THEN None ELSE <<p, s>>

(* Opening as it is implemented, step by step. *)
OpenM(f, u, p, ck, cs) ==
  IF f.n = 0 THEN
    LET key == KeyM(f.salt, p, ck, cs) bs == BodyW(f, key) IN
    IF key = None \/ bs = {} THEN Err("wrong") ELSE Got((CHOOSE b \in bs : TRUE).text, 0, key, "")
  ELSE IF Slots(f, u) = {} THEN Err("wrong")
  ELSE LET i == Least(Slots(f, u))
           key == KeyM(f.users[i].s, p, ck, cs)
           ms == {m \in W.mkeys : m.m = f.users[i].m /\ m.key = key /\ m.iv = f.users[i].v} IN
       IF key = None \/ ms = {} THEN Err("wrong")
       ELSE LET master == (CHOOSE m \in ms : TRUE).master bs == BodyW(f, <<"master", master>>) IN
            IF bs = {} THEN Err("wrong") ELSE Got((CHOOSE b \in bs : TRUE).text, i, key, master)

Init == W = Facts0 /\ files = <<>> /\ cur = Blank /\ cuts = 0 /\ last = [op |-> "none"] /\ top = 0 /\ hist = <<>>

Put(f, key, t, cr) ==
  /\ W' = [W EXCEPT !.bodies = @ \cup {[b |-> f.body, key |-> key, iv |-> f.iv, head |-> Covered(f), text |-> t]}]
  /\ files' = Append(files, [f |-> f, creds |-> cr, text |-> t])

Single(p, t) ==
  LET f == [ok |-> TRUE, magic |-> "m0", n |-> 0, users |-> NoUsers, salt |-> "s" \o Id(top), iv |-> "v" \o Id(top), body |-> "b" \o Id(top)] IN
  /\ Len(files) < MaxFiles /\ cuts = 0 /\ cur = Blank
  /\ Put(f, <<p, f.salt>>, t, {<<"", p>>})
  /\ top' = top + 1
  /\ hist' = Append(hist, [op |-> "single", p |-> p, t |-> t])
  /\ UNCHANGED <<cur, cuts, last>>

(* cr: who it is for, as a sequence of <<name, passphrase>> *)
Multi(cr, t) ==
  LET us == [i \in 1..Len(cr) |-> [h |-> cr[i][1], s |-> "s" \o Id(top) \o Id(i), v |-> "v" \o Id(top) \o Id(i), m |-> "k" \o Id(top) \o Id(i)]]
      f == [ok |-> TRUE, magic |-> "m" \o Id(Len(cr)), n |-> Len(cr), users |-> us, salt |-> "", iv |-> "v" \o Id(top), body |-> "b" \o Id(top)]
      master == "M" \o Id(top) IN
  /\ Len(files) < MaxFiles /\ cuts = 0 /\ cur = Blank
  /\ W' = [bodies |-> W.bodies \cup {[b |-> f.body, key |-> <<"master", master>>, iv |-> f.iv, head |-> Covered(f), text |-> t]},
           mkeys |-> W.mkeys \cup {[m |-> us[i].m, key |-> <<cr[i][2], us[i].s>>, iv |-> us[i].v, master |-> master] : i \in 1..Len(cr)}]
  /\ files' = Append(files, [f |-> f, creds |-> {cr[i] : i \in 1..Len(cr)}, text |-> t])
  /\ top' = top + 1
  /\ hist' = Append(hist, [op |-> "multi", cr |-> cr, t |-> t])
  /\ UNCHANGED <<cur, cuts, last>>

(* A multi-user file is saved again: same head, same ivm, another text. *)
Resave(i, t) ==
  LET o == files[i]
      f == [o.f EXCEPT !.body = "b" \o Id(top)]
      b0 == CHOOSE b \in W.bodies : b.b = o.f.body IN
  /\ o.f.n > 0 /\ t # o.text /\ Len(files) < MaxFiles /\ cur = Blank
  /\ W' = [W EXCEPT !.bodies = @ \cup {[b0 EXCEPT !.b = f.body, !.text = t]}]
  /\ files' = Append(files, [o EXCEPT !.f = f, !.text = t])
  /\ top' = top + 1
  /\ hist' = Append(hist, [op |-> "resave", i |-> i, t |-> t])
  /\ UNCHANGED <<cur, cuts, last>>

Take(i) == /\ cur = Blank /\ cur' = files[i].f
           /\ hist' = Append(hist, [op |-> "take", i |-> i])
           /\ UNCHANGED <<W, files, cuts, last, top>>

(* Another file's piece, or rubbish, in place of what is there. *)
Cut(what, j) ==
  /\ cur # Blank /\ cuts < MaxCuts /\ last.op = "none"
  /\ LET src == IF j = 0 THEN [Blank EXCEPT !.magic = "x", !.salt = "x", !.iv = "x", !.body = "x"] ELSE files[j].f IN
     cur' = CASE what = "body" -> [cur EXCEPT !.body = src.body]
              [] what = "iv" -> [cur EXCEPT !.iv = src.iv]
              [] what = "salt" -> [cur EXCEPT !.salt = src.salt]
              [] what = "head" -> [src EXCEPT !.body = cur.body]
              [] OTHER -> cur
  /\ cur' # cur
  /\ cuts' = cuts + 1
  /\ hist' = Append(hist, [op |-> "cut", what |-> what, j |-> j, x |-> 0, y |-> 0])
  /\ UNCHANGED <<W, files, last, top>>

(* A piece of a user's record: from another record of any file, or rubbish. *)
CutUser(x, what, j, y) ==
  /\ cur # Blank /\ cuts < MaxCuts /\ last.op = "none"
  /\ x \in 1..Len(cur.users)
  /\ LET rec == IF j = 0 THEN [h |-> "x", s |-> "x", v |-> "x", m |-> "x"] ELSE files[j].f.users[y] IN
     cur' = CASE what = "all" -> [cur EXCEPT !.users[x] = rec]
              [] what = "h" -> [cur EXCEPT !.users[x].h = rec.h]
              [] what = "s" -> [cur EXCEPT !.users[x].s = rec.s]
              [] what = "v" -> [cur EXCEPT !.users[x].v = rec.v]
              [] what = "m" -> [cur EXCEPT !.users[x].m = rec.m]
  /\ cur' # cur
  /\ cuts' = cuts + 1
  /\ hist' = Append(hist, [op |-> "cut", what |-> what, j |-> j, x |-> x, y |-> y])
  /\ UNCHANGED <<W, files, last, top>>

(* Keys one may remember: those of the files there are. *)
Keys == {None} \cup {<<c[2], IF files[i].f.n = 0 THEN files[i].f.salt ELSE files[i].f.users[Least(Slots(files[i].f, c[1]))].s>> : <<i, c>> \in
            {x \in (1..Len(files)) \X ((Names \cup {""}) \X Pass) : x[2] \in files[x[1]].creds}}

Try(u, p, ck) ==
  /\ cur # Blank /\ last.op = "none"
  /\ last' = [op |-> "open", u |-> u, p |-> p, ck |-> ck, r |-> OpenM(cur, u, p, ck, ck[2])]
  /\ hist' = Append(hist, [op |-> "open", u |-> u, p |-> p, ck |-> ck])
  /\ UNCHANGED <<W, files, cur, cuts, top>>

Next == \/ \E p \in Pass, t \in Texts : Single(p, t)
        \/ \E a \in Names, p, q \in Pass, t \in Texts :
             \/ Multi(<<<<a, p>>>>, t)
             \/ \E b \in Names \ {a} : Multi(<<<<a, p>>, <<b, q>>>>, t)
        \/ \E i \in 1..Len(files) : Take(i) \/ \E t \in Texts : Resave(i, t)
        \/ \E what \in {"body", "iv", "salt", "head"}, j \in 0..Len(files) : Cut(what, j)
        \/ \E x \in 1..2, what \in {"all", "h", "s", "v", "m"} :
             \/ CutUser(x, what, 0, 0)
             \/ \E j \in 1..Len(files) : \E y \in 1..Len(files[j].f.users) : CutUser(x, what, j, y)
        \/ \E u \in Names \cup {""}, p \in Pass \cup {"", "w"}, ck \in Keys : Try(u, p, ck)
Spec == Init /\ [][Next]_vars

(* Whatever opens was made just like that, for whoever opens it. *)
Sound == last.op = "open" /\ last.r.ok =>
  \E i \in 1..Len(files) : /\ files[i].f = cur /\ files[i].text = last.r.text
                           /\ LET u == IF cur.n = 0 THEN "" ELSE last.u IN
                              \/ <<u, last.p>> \in files[i].creds
                              \/ last.ck # None /\ <<u, last.ck[1]>> \in files[i].creds
(* Everybody a file was made for can open it, whatever key is remembered. *)
Complete == last.op = "open" =>
  \A i \in 1..Len(files) : files[i].f = cur /\ <<IF cur.n = 0 THEN "" ELSE last.u, last.p>> \in files[i].creds =>
     \/ last.r.ok /\ last.r.text = files[i].text
     \/ last.ck # None /\ last.ck[2] \in {cur.salt} \cup {cur.users[j].s : j \in 1..Len(cur.users)} /\ last.ck[1] # last.p
(* The specification of opening agrees. *)
Agrees == last.op = "open" => LET r == OpenFile(W, cur, last.u, last.p, last.ck, last.ck[2]) IN
  r.ok = last.r.ok /\ r.text = last.r.text /\ (r.ok => r = last.r)

EmitEnd == last.op = "open" => PrintT(<<"@@", ToJson(hist)>>)
=============================================================================
