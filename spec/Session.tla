------------------------------ MODULE Session ------------------------------
(***************************************************************************)
(* A session with an open file: what every command does to the entries, to *)
(* the entry one is working in, to the clipboard and to the session.       *)
(*                                                                         *)
(* What only the alphabet, the library for one-time codes or the one for   *)
(* urls knows comes in through the constants.                              *)
(***************************************************************************)
EXTENDS TxLog, TLC, Text

CONSTANTS LC(_),      \* a letter's lowercase
          FOLD(_),    \* a text regardless of case
          OkTotp(_),  \* a usable two-factor secret, as a key or as a url
          OkUrl(_),   \* a url with a scheme
          OkLabel(_), \* neither spaces nor capitals
          Secret(_),  \* the secret in a two-factor url
          When(_),    \* a stored moment, as it's shown
          IntOf(_),   \* the number a text is, 0 if it's none
          IsInt(_)

EOF == "<EOF>"       \* end of input
INT == "<INT>"       \* interrupt
Ends == {EOF, INT}

(* ---- names *)
Name(v, u) == IF "name" \in DOMAIN v[u] THEN v[u]["name"] ELSE ""
Named(v, n) == {u \in DOMAIN v : Name(v, u) = n}
UniqueNames(v) == \A u, w \in DOMAIN v : Name(v, u) = Name(v, w) => u = w

(* ---- searching: letters in order, a lowercase letter matching both cases *)
RECURSIVE FuzzyFrom(_, _, _, _)
FuzzyFrom(s, i, q, j) ==
  IF j > Len(q) THEN TRUE ELSE IF i > Len(s) THEN FALSE
  ELSE IF q[j] = s[i] \/ q[j] = LC(s[i]) THEN FuzzyFrom(s, i + 1, q, j + 1) ELSE FuzzyFrom(s, i + 1, q, j)
Fuzzy(s, q) == FuzzyFrom(Letters(s), 1, Letters(q), 1)

Matches(n, q) ==
  LET qs == Split(q, "/")  ns == Split(n, "/") IN
  IF Len(qs) = 1 THEN Fuzzy(n, q)
  ELSE Len(ns) >= Len(qs) /\ \A i \in 1..Len(qs) : Fuzzy(ns[i], qs[i])

Hits(v, q) == IF q = "" THEN DOMAIN v ELSE {u \in DOMAIN v : Matches(Name(v, u), q)}
(* The entry a query stands for: the set is empty if there is none. *)
Pick(v, q) == LET h == Hits(v, q)  e == h \cap Named(v, q) IN
              IF Cardinality(h) = 1 THEN h ELSE IF Cardinality(e) = 1 THEN e ELSE {}

(* ---- keys that the general commands do not touch *)
Reserved == {"name", "iv", "salt", "mkey", "updated", "totp"}
MaySet(k) == FOLD(k) \notin Reserved
MayDelete(k) == FOLD(k) \notin Reserved \ {"totp"}

(* ---- changes, without times; those of "updated" are kept apart (touch)  *)
Ch(kind, u, k, val) == [kind |-> kind, u |-> u, k |-> k, v |-> val]

(* What a command does:                                                     *)
(*  ch      the changes, other than of "updated", in any order             *)
(*  touch   the entries whose "updated" is refreshed                       *)
(*  ends    how it ends the session ("" - it does not)                     *)
(*  ctx     the entry one is in afterwards, "" for none                    *)
(*  clip    what is put on the clipboard, in order: sets of possible values *)
(*  says    what it has to say: "" anything, "no" a refusal, "list" names, *)
(*          "value" a value, "show", "dump" the keys of an entry           *)
(*  names, val, entry  what is said: entries, possible values, keys        *)
(*  vers    the number of versions it says the entry has, -1 if it doesn't *)
(*  opened  what is given to the browser                                   *)
(*  edits   the value that is given to the editor                          *)
Nothing(x) == [ch |-> <<>>, touch |-> {}, ends |-> "", ctx |-> x, clip |-> <<>>, says |-> "",
               names |-> {}, val |-> {}, entry |-> Empty, vers |-> -1, opened |-> <<>>, edits |-> <<>>]
Refuse(x) == [Nothing(x) EXCEPT !.says = "no"]
End(how, x) == [Nothing(x) EXCEPT !.ends = how]

(* ---- multi-line text: lines up to ".", end of input or two empty lines.  *)
(* A single empty line between others is kept, one at the end is not.      *)
RECURSIVE ML(_, _, _, _)
ML(ans, i, lines, blank) ==
  IF i > Len(ans) \/ ans[i] \in {EOF, "."} THEN [how |-> "ok", text |-> Joined(lines, "\n")]
  ELSE IF ans[i] = INT THEN [how |-> "int", text |-> ""]
  ELSE IF ans[i] = "" THEN (IF blank THEN [how |-> "ok", text |-> Joined(lines, "\n")] ELSE ML(ans, i + 1, lines, TRUE))
  ELSE ML(ans, i + 1, IF blank THEN lines \o <<"", ans[i]>> ELSE Append(lines, ans[i]), FALSE)

(* ---- labels given one by one until an empty line, "." or end of input   *)
RECURSIVE AddLabels(_, _, _)
AddLabels(ans, i, ls) ==
  IF i > Len(ans) \/ ans[i] \in {"", ".", EOF} THEN [int |-> FALSE, ls |-> ls]
  ELSE IF ans[i] = INT THEN [int |-> TRUE, ls |-> ls]
  ELSE IF ~OkLabel(ans[i]) \/ IsIn(ans[i], ls) THEN AddLabels(ans, i + 1, ls)
  ELSE AddLabels(ans, i + 1, Append(ls, ans[i]))

Has(e, k) == k \in DOMAIN e
LabelsOf(e) == IF Has(e, "labels") /\ e["labels"] # "" THEN Split(e["labels"], ",") ELSE <<>>

(* The first of n, n1, n11, ... which is free. *)
RECURSIVE FreeName(_, _)
FreeName(v, n) == IF Named(v, n) = {} THEN n ELSE FreeName(v, n \o "1")

(* ---- the commands.                                                       *)
(* c: [c command, a arguments, ans the                                      *)
(* answers to its questions, pw [how, pw] the outcome of the password       *)
(* dialogue (module Passwords), codes the current one-time codes of each    *)
(* secret, ed [how, text] what the editor does, ...]                        *)
(* new: the id a new entry gets.                                            *)
Writing == {"add", "rm", "mv", "rmk", "set", "label", "rmlabel", "addsync", "passwd", "rekey", "rekeyall", "adduser", "sync", "edit", "login"}
Queried == {"rmk", "set", "edit", "label", "rmlabel", "show", "get", "cp", "pass", "user", "email", "totp", "login", "open", "dump"}
Shortcut == {"pass", "user", "email", "totp"}
(* Arguments a command needs at least, its query included. *)
Needs(cmd) == CASE cmd \in {"add", "rm", "adduser", "addsync", "labels"} -> 1
                [] cmd \in {"mv", "rmk", "set", "edit", "rmlabel", "get", "cp"} -> 2
                [] cmd \in {"label", "show", "login", "open", "dump"} \cup Shortcut -> 1
                [] OTHER -> 0

Update1(x, u, k, val) == [Nothing(x) EXCEPT !.ch = <<Ch("setk", u, k, val)>>, !.touch = {u}]

(* set: a value that's missing is asked for *)
SetTo(u, k, val, c, x) ==
  CASE k = "" -> Refuse(x)
    [] k = "pass" /\ val = "" -> IF c.pw.how = "ok" THEN Update1(x, u, k, c.pw.pw) ELSE End(c.pw.how, x)
    [] k = "totp" -> IF ~OkTotp(val) THEN Refuse(x)
                     ELSE Update1(x, u, k, IF StartsWith(val, "otpauth://") THEN val ELSE "<secret>" \o val)
    [] k = "url" -> IF OkUrl(val) THEN Update1(x, u, k, val) ELSE Refuse(x)
    [] OTHER -> LET m == ML(c.ans, 1, <<>>, FALSE) IN
                IF val = "" /\ m.how = "int" THEN End("int", x)
                ELSE IF ~MaySet(k) THEN Refuse(x)
                ELSE Update1(x, u, k, IF val # "" THEN val ELSE m.text)

(* The values a key may have for its reader: none if there is nothing. *)
Reads(e, k, c) == IF ~Has(e, k) THEN {}
                  ELSE CASE k = "totp" -> Range(c.codes[e[k]])
                         [] k = "updated" -> {When(e[k])}
                         [] OTHER -> {e[k]}

GetOf(e, k, copy, idx, c, x) ==
  IF (idx # <<>> /\ ~IsInt(idx[1])) \/ Reads(e, k, c) = {} THEN Refuse(x)
  ELSE IF copy THEN [Nothing(x) EXCEPT !.clip = <<Reads(e, k, c)>>] ELSE [Nothing(x) EXCEPT !.says = "value", !.val = Reads(e, k, c)]

(* user, email, pass and code one after another; every answer but the end *)
(* of input or an interrupt goes on to the next.                          *)
Login(e, c, x) ==
  LET ks == SelectSeq(<<"user", "email", "pass", "totp">>, LAMBDA k : Reads(e, k, c) # {})
      cl == [n \in 1..Len(ks) |-> Reads(e, ks[n], c)]
      stop == {n \in 1..(Len(cl) - 1) : n > Len(c.ans) \/ c.ans[n] \in Ends}
      k == CHOOSE n \in stop : \A m \in stop : n <= m
  IN IF stop = {} THEN [Nothing(x) EXCEPT !.clip = cl]
     ELSE [Nothing(x) EXCEPT !.clip = SubSeq(cl, 1, k), !.ends = IF k <= Len(c.ans) /\ c.ans[k] = INT THEN "int" ELSE "eof"]

(* What show shows of an entry: labels are spaced out, codes computed, and *)
(* the space around values is layout.                                      *)
Shown(e, c) ==
  LET ks == {k \in DOMAIN e : k # "totp"} IN
  [k \in ks |-> Trim(IF k = "labels" THEN Joined(Split(e[k], ","), ", ") ELSE IF k = "updated" THEN When(e[k]) ELSE e[k])]

(* A command on the entry u; a: the arguments after the query. *)
OnEntry(cmd, v, u, a, c, x) ==
  CASE cmd = "rmk" -> IF ~Has(v[u], a[1]) THEN Nothing(x)
                      ELSE IF ~MayDelete(a[1]) THEN Refuse(x)
                      ELSE [Nothing(x) EXCEPT !.ch = <<Ch("delk", u, a[1], "")>>, !.touch = {u}]
    [] cmd = "set" -> SetTo(u, a[1], Joined(Tail(a), " "), c, x)
    [] cmd = "edit" ->
         LET r == IF c.ed.how # "ok" THEN Refuse(x)
                  ELSE IF c.ed.text = "" THEN IF ~MayDelete(a[1]) THEN Refuse(x)
                       ELSE [Nothing(x) EXCEPT !.ch = <<Ch("delk", u, a[1], "")>>, !.touch = {u}]
                  ELSE IF ~MaySet(a[1]) THEN Refuse(x) ELSE Update1(x, u, a[1], c.ed.text) IN
         [r EXCEPT !.edits = <<IF Has(v[u], a[1]) THEN v[u][a[1]] ELSE "">>]
    [] cmd = "label" ->
         LET old == LabelsOf(v[u])  r == AddLabels(c.ans, 1, old) IN
         IF r.int THEN End("int", x)
         ELSE IF r.ls = old THEN Nothing(x) ELSE Update1(x, u, "labels", Joined(r.ls, ","))
    [] cmd = "rmlabel" ->
         LET old == LabelsOf(v[u])  is == {n \in 1..Len(old) : old[n] = a[1]} IN
         IF is = {} THEN Refuse(x)
         ELSE LET n == CHOOSE n \in is : \A m \in is : n <= m
                  ls == SubSeq(old, 1, n - 1) \o SubSeq(old, n + 1, Len(old)) IN
              IF ls = <<>> THEN [Nothing(x) EXCEPT !.ch = <<Ch("delk", u, "labels", "")>>, !.touch = {u}]
              ELSE Update1(x, u, "labels", Joined(ls, ","))
    [] cmd = "show" ->
         LET n == IF a = <<>> THEN 0 ELSE IntOf(a[1]) IN
         IF n = 0 THEN [Nothing(x) EXCEPT !.says = "show", !.entry = v[u], !.vers = NVersions(u)]
         ELSE IF EntryAt(u, n) = BAD THEN Refuse(x)
         ELSE [Nothing(x) EXCEPT !.says = "show", !.entry = EntryAt(u, n)]
    [] cmd = "dump" -> [Nothing(x) EXCEPT !.says = "dump", !.entry = v[u]]
    [] cmd \in {"get", "cp"} -> GetOf(v[u], a[1], cmd = "cp", Tail(a), c, x)
    [] cmd \in Shortcut -> GetOf(v[u], cmd, TRUE, <<>>, c, x)
    [] cmd = "login" -> Login(v[u], c, x)
    [] cmd = "open" -> IF ~Has(v[u], "url") \/ v[u]["url"] = "" THEN Refuse(x)
                       ELSE [Nothing(x) EXCEPT !.opened = <<v[u]["url"]>>]
    [] OTHER -> Nothing(x)

(* A new entry with its name and whatever of the rest is not empty. *)
NewEntry(new, n, rest, x) ==
  [Nothing(x) EXCEPT !.ch = <<Ch("add", new, "", ""), Ch("setk", new, "name", n)>> \o SelectSeq(rest, LAMBDA t : t.v # ""), !.touch = {new}]

(* How the questions 1..n ended if they were not all answered. *)
Stopped(ans, n) == LET stop == {i \in 1..n : i > Len(ans) \/ ans[i] \in Ends} IN
                   IF stop = {} THEN "no"
                   ELSE LET i == CHOOSE i \in stop : \A m \in stop : i <= m IN
                        IF i <= Len(ans) /\ ans[i] = INT THEN "int" ELSE "eof"

(* v the entries, x the entry one is in, rdonly whether it is a read-only session *)
Do(rdonly, v, x, c, new) ==
  LET cmd == c.c
      inside == x # "" /\ cmd \in Queried /\ ~(cmd = "login" /\ Len(c.a) >= 1)
      need == Needs(cmd) - (IF inside THEN 1 ELSE 0) IN
  IF cmd \in {"exit", EOF} THEN End("exit", x)
  ELSE IF cmd = INT THEN End("int", x)
  ELSE IF cmd = "" THEN Nothing(x)                   \* an empty line
  ELSE IF cmd = "?" THEN Refuse(x)                   \* no such command
  ELSE IF rdonly /\ cmd \in Writing THEN Refuse(x)
  ELSE IF Len(c.a) < need THEN Refuse(x)
  ELSE
  CASE cmd = "ls" -> LET h == Hits(v, IF Len(c.a) = 0 THEN "" ELSE c.a[1]) IN
                     IF h = {} THEN Refuse(x) ELSE [Nothing(x) EXCEPT !.says = "list", !.names = h]
    [] cmd = "labels" ->
         LET h == {u \in DOMAIN v : \A i \in 1..Len(c.a) : IsIn(c.a[i], LabelsOf(v[u]))} IN
         IF h = {} THEN Refuse(x) ELSE [Nothing(x) EXCEPT !.says = "list", !.names = h]
    [] cmd = "cd" -> IF Len(c.a) = 0 THEN Nothing("")
                     ELSE IF Len(c.a) > 1 THEN Refuse(x)
                     ELSE LET p == Pick(v, c.a[1]) IN
                          IF p = {} THEN Refuse(x) ELSE Nothing(CHOOSE u \in p : TRUE)
    [] cmd = "add" ->
         LET how == IF Stopped(c.ans, 2) # "no" THEN Stopped(c.ans, 2) ELSE c.pw.how IN
         IF Named(v, c.a[1]) # {} THEN Refuse(x)
         ELSE IF how = "int" THEN End("int", x)
         ELSE IF how = "eof" THEN Refuse(x)          \* abandoned
         ELSE NewEntry(new, c.a[1], <<Ch("setk", new, "email", c.ans[1]), Ch("setk", new, "user", c.ans[2]),
                                      Ch("setk", new, "pass", c.pw.pw)>>, x)
    [] cmd = "addsync" ->
         \* sy: [how, url, more] how its questions ended, the url they amount to, the further keys
         IF c.a[1] \notin {"file", "scp"} THEN Refuse(x)
         ELSE IF c.sy.how = "int" THEN End("int", x)
         ELSE IF c.sy.how = "eof" THEN Refuse(x)
         ELSE NewEntry(new, FreeName(v, "sync/" \o c.a[1]),
                       <<Ch("setk", new, "sync", "true"), Ch("setk", new, "url", c.sy.url)>>
                       \o [i \in 1..Len(c.sy.more) |-> Ch("setk", new, c.sy.more[i], "<any>")], x)
    [] cmd = "rm" ->
         LET p == Named(v, c.a[1])  u == CHOOSE u \in p : TRUE IN
         IF p = {} THEN Refuse(x)
         ELSE IF Len(c.ans) >= 1 /\ c.ans[1] = INT THEN End("int", x)
         ELSE IF Len(c.ans) = 0 \/ c.ans[1] # c.a[1] THEN Refuse(x)
         ELSE [Nothing(IF x = u THEN "" ELSE x) EXCEPT !.ch = <<Ch("del", u, "", "")>>]
    [] cmd = "mv" ->
         LET p == Named(v, c.a[1])  u == CHOOSE u \in p : TRUE IN
         IF p = {} \/ Named(v, c.a[2]) # {} THEN Refuse(x)
         ELSE Update1(x, u, "name", c.a[2])
    [] cmd \in Queried ->
         IF inside THEN OnEntry(cmd, v, x, c.a, c, x)
         ELSE IF c.a[1] = "" THEN Refuse(x)
         ELSE LET p == Pick(v, c.a[1]) IN
              IF p = {} THEN Refuse(x) ELSE OnEntry(cmd, v, CHOOSE u \in p : TRUE, Tail(c.a), c, x)
    [] OTHER -> Nothing(x)

(* The entries after the changes of r, the update times left out. *)
RECURSIVE After(_, _, _)
After(v, ch, i) == IF i > Len(ch) THEN v ELSE After(Apply(v, ch[i]), ch, i + 1)

(* Opening at a moment in the past: the changes up to and including it. *)
Until(l, t) == SelectSeq(l, LAMBDA ch : ch.tm <= t)
=============================================================================
