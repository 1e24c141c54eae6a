------------------------------ MODULE SyncEntry ------------------------------
(***************************************************************************)
(* Entries that say where a file is synced to: the dialogue that makes     *)
(* them, the url that is kept, and the place it leads to.                  *)
(*                                                                         *)
(* Text is a sequence of the codes of its bytes.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences

Hash == 35
Percent == 37
Dash == 45
Dot == 46
Slash == 47
Colon == 58
Question == 63
At == 64
Opening == 91
Closing == 93
Digits == 48..57
Plain == Digits \cup 65..90 \cup 97..122 \cup {45, 46, 95, 126}     \* - . _ ~

(* ---- text *)
RECURSIVE FirstFrom(_, _, _)
FirstFrom(s, cs, i) == IF i > Len(s) THEN 0 ELSE IF s[i] \in cs THEN i ELSE FirstFrom(s, cs, i + 1)
First(s, cs) == FirstFrom(s, cs, 1)
RECURSIVE LastTo(_, _, _)
LastTo(s, cs, i) == IF i = 0 THEN 0 ELSE IF s[i] \in cs THEN i ELSE LastTo(s, cs, i - 1)
Last(s, cs) == LastTo(s, cs, Len(s))
To(s, i) == SubSeq(s, 1, i)
From(s, i) == SubSeq(s, i, Len(s))
RECURSIVE Pieces(_, _)
Pieces(s, c) == LET i == First(s, {c}) IN IF i = 0 THEN <<s>> ELSE <<To(s, i - 1)>> \o Pieces(From(s, i + 1), c)
RECURSIVE Glued(_, _)
Glued(l, c) == IF l = <<>> THEN <<>> ELSE <<c>> \o l[1] \o Glued(Tail(l), c)

(* ---- numbers *)
RECURSIVE Number(_)
Number(s) == IF s = <<>> THEN 0 ELSE 10 * Number(To(s, Len(s) - 1)) + s[Len(s)] - 48
IsPort(s) == /\ Len(s) \in 1..5 /\ \A i \in DOMAIN s : s[i] \in Digits
             /\ Number(s) \in 1..65535
RECURSIVE Decimal(_)
Decimal(n) == IF n < 10 THEN <<48 + n>> ELSE Decimal(n \div 10) \o <<48 + (n % 10)>>

(* ---- urls *)
HexVal(c) == IF c \in Digits THEN c - 48 ELSE IF c \in 65..70 THEN c - 55 ELSE IF c \in 97..102 THEN c - 87 ELSE -1
HexDigit(n) == IF n < 10 THEN 48 + n ELSE 55 + n
RECURSIVE Unescape(_)
Unescape(s) ==
  LET i == First(s, {Percent}) IN
  IF i = 0 THEN s
  ELSE IF i + 2 <= Len(s) /\ HexVal(s[i + 1]) >= 0 /\ HexVal(s[i + 2]) >= 0
       THEN To(s, i - 1) \o <<16 * HexVal(s[i + 1]) + HexVal(s[i + 2])>> \o Unescape(From(s, i + 3))
       ELSE To(s, i) \o Unescape(From(s, i + 1))
RECURSIVE Escape(_, _)
Escape(s, keep) == IF s = <<>> THEN <<>>
                   ELSE (IF s[1] \in keep THEN <<s[1]>> ELSE <<Percent, HexDigit(s[1] \div 16), HexDigit(s[1] % 16)>>) \o Escape(Tail(s), keep)

Scp == <<115, 99, 112>>
File == <<102, 105, 108, 101>>

Parse(url) ==
  LET u0 == LET i == First(url, {Hash}) IN IF i = 0 THEN url ELSE To(url, i - 1)
      u1 == LET i == First(u0, {Question}) IN IF i = 0 THEN u0 ELSE To(u0, i - 1)
      c == First(u1, {Colon})
      ok == c > 0 /\ c + 2 <= Len(u1) /\ u1[c + 1] = Slash /\ u1[c + 2] = Slash
      rest == IF ok THEN From(u1, c + 3) ELSE <<>>
      p == First(rest, {Slash})
      auth == IF p = 0 THEN rest ELSE To(rest, p - 1)
      a == Last(auth, {At})
      info == IF a = 0 THEN <<>> ELSE To(auth, a - 1)
      ic == First(info, {Colon})
      hp == From(auth, a + 1)
      closing == Last(hp, {Closing})
      hc == LET x == Last(hp, {Colon}) IN IF x > closing THEN x ELSE 0
      host == IF hc = 0 THEN hp ELSE To(hp, hc - 1)
      bare == IF host # <<>> /\ host[1] = Opening THEN SubSeq(host, 2, Len(host) - 1) ELSE host IN
  [ok |-> ok, scheme |-> IF ok THEN To(u1, c - 1) ELSE <<>>,
   user |-> Unescape(IF ic = 0 THEN info ELSE To(info, ic - 1)),
   pass |-> Unescape(IF ic = 0 THEN <<>> ELSE From(info, ic + 1)),
   host |-> Unescape(bare),
   port |-> IF hc = 0 THEN <<>> ELSE From(hp, hc + 1),
   path |-> Unescape(IF p = 0 THEN <<>> ELSE From(rest, p))]

(* The place a url leads to.  A path at a host starts at the directory     *)
(* where one is after the login; an absolute one has a slash of its own    *)
(* besides that which ends the name of the host.                           *)
Nowhere == [kind |-> "none", user |-> <<>>, pass |-> <<>>, host |-> <<>>, port |-> 0, path |-> <<>>]
Place(url) ==
  LET u == Parse(url) IN
  IF ~u.ok THEN Nowhere
  ELSE IF u.scheme = File THEN [Nowhere EXCEPT !.kind = "file", !.path = u.path]
  ELSE IF u.scheme = Scp /\ IsPort(u.port) /\ Len(u.path) > 1
       THEN [kind |-> "scp", user |-> u.user, pass |-> u.pass, host |-> u.host, port |-> Number(u.port), path |-> Tail(u.path)]
  ELSE Nowhere

(* A url for a place; others may do as well. *)
HasColon(h) == First(h, {Colon}) > 0
Url(o) ==
  IF o.kind = "file" THEN File \o <<Colon, Slash, Slash>> \o Escape(o.path, Plain \cup {Slash})
  ELSE Scp \o <<Colon, Slash, Slash>> \o Escape(o.user, Plain)
       \o (IF o.pass = <<>> THEN <<>> ELSE <<Colon>> \o Escape(o.pass, Plain)) \o <<At>>
       \o (IF HasColon(o.host) THEN <<Opening>> \o Escape(o.host, Plain \cup {Colon}) \o <<Closing>> ELSE Escape(o.host, Plain))
       \o <<Colon>> \o Decimal(o.port) \o <<Slash>> \o Escape(o.path, Plain \cup {Slash})

(* ---- files: where a path leads from a directory *)
RECURSIVE Resolve(_, _)
Resolve(done, todo) ==
  IF todo = <<>> THEN done
  ELSE LET x == todo[1] IN
       Resolve(IF x \in {<<>>, <<Dot>>} THEN done
               ELSE IF x = <<Dot, Dot>> THEN (IF done = <<>> THEN <<>> ELSE To(done, Len(done) - 1))
               ELSE Append(done, x), Tail(todo))
Absolute(cwd, p) ==
  LET full == IF p # <<>> /\ p[1] = Slash THEN p ELSE cwd \o <<Slash>> \o p
      l == Resolve(<<>>, Pieces(full, Slash)) IN
  IF l = <<>> THEN <<Slash>> ELSE Glued(l, Slash)

(* ---- the dialogue *)
(* What is asked for next, what there is so far.  An answer is [t, stop,   *)
(* shown]: a text, or the wish to stop; the password that was on offer.    *)
Start(kind) == [q |-> IF kind = "file" THEN "path" ELSE IF kind = "scp" THEN "user" ELSE "none",
                kind |-> kind, o |-> [Nowhere EXCEPT !.kind = kind], key |-> "none", new |-> <<>>]
Over(s) == s.q \in {"none", "stopped", "done"}
Y == <<121>>
M == <<109>>
Answer(s, a, cwd) ==
  IF a.stop THEN [s EXCEPT !.q = "stopped"]
  ELSE CASE s.q = "user" -> IF a.t = <<>> THEN s ELSE [s EXCEPT !.q = "host", !.o.user = a.t]
         [] s.q = "host" -> IF a.t = <<>> THEN s ELSE [s EXCEPT !.q = "port", !.o.host = a.t]
         [] s.q = "port" -> IF a.t = <<>> THEN [s EXCEPT !.q = "path", !.o.port = 22]
                            ELSE IF IsPort(a.t) THEN [s EXCEPT !.q = "path", !.o.port = Number(a.t)]
                            ELSE s
         [] s.q = "path" -> IF a.t = <<>> THEN s
                            ELSE IF s.kind = "file" THEN [s EXCEPT !.q = "done", !.o.path = Absolute(cwd, a.t)]
                            ELSE [s EXCEPT !.q = "key", !.o.path = a.t]
         [] s.q = "key" -> IF a.t = <<49>> THEN [s EXCEPT !.q = "done", !.key = "ed25519"]
                           ELSE IF a.t = <<50>> THEN [s EXCEPT !.q = "done", !.key = "rsa"]
                           ELSE IF a.t = <<51>> THEN [s EXCEPT !.q = "pw", !.key = "password"]
                           ELSE s
         [] s.q = "pw" -> IF a.t = Y THEN [s EXCEPT !.q = "done", !.o.pass = a.shown]
                          ELSE IF a.t = M THEN [s EXCEPT !.q = "new"] ELSE s
         [] s.q = "new" -> [s EXCEPT !.q = "verify", !.new = a.t]
         [] s.q = "verify" -> IF a.t = s.new THEN [s EXCEPT !.q = "done", !.o.pass = a.t] ELSE [s EXCEPT !.q = "pw"]
         [] OTHER -> s
RECURSIVE Fold(_, _, _)
Fold(s, l, cwd) == IF l = <<>> THEN s ELSE Fold(Answer(s, l[1], cwd), Tail(l), cwd)
Wizard(kind, l, cwd) == Fold(Start(kind), l, cwd)
(* every question is the one that is due *)
RECURSIVE Due(_, _, _)
Due(s, l, cwd) == IF l = <<>> THEN Over(s) ELSE ~Over(s) /\ l[1].q = s.q /\ Due(Answer(s, l[1], cwd), Tail(l), cwd)
=============================================================================
