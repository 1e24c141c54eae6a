------------------------------- MODULE Invoke -------------------------------
(***************************************************************************)
(* Runs of the program over the files of a small world: which of them a    *)
(* run is about, whether it opens it, what it shows of it, what is in the  *)
(* files after it, and its status.                                         *)
(*                                                                         *)
(* A file is [k, pass, user, names]: k is "none", "dir", "junk" or "file"; *)
(* user is "" for a file without users; names are its entries.             *)
(*                                                                         *)
(* A run is [flag, env, home, cmd, tm, user, p1, p2, add, end]:            *)
(*  flag, env   the place named by -f and by $BPASS, "" for neither        *)
(*  home        whether there is a home directory                          *)
(*  cmd         "session", "export", "lpass", "nolpass" (there is no       *)
(*              lpass program), "gen", "version", "help"                   *)
(*  tm          -t: "", "later", "before" (all there is), "bad"            *)
(*  user,p1,p2  what is entered when it asks for the user, the passphrase, *)
(*              and the passphrase once more                               *)
(*  add         the entry that is added, "" for none                       *)
(*  end         how a session ends: "exit", "eof", "int"                   *)
(***************************************************************************)
EXTENDS Sequences, FiniteSets

None == [k |-> "none", pass |-> "", user |-> "", names |-> {}]
File(p, u, n) == [k |-> "file", pass |-> p, user |-> u, names |-> n]

(* a link leads to what it names *)
Deref(p) == IF p = "link" THEN "a" ELSE p
(* -f goes before $BPASS, which goes before the file in the home directory *)
Named(r) == IF r.flag # "" THEN r.flag
            ELSE IF r.env # "" THEN r.env
            ELSE IF r.home THEN "home" ELSE "cwd"
Target(r) == Deref(Named(r))

Needs(r) == r.cmd \in {"session", "export", "lpass", "nolpass"}
ReadOnly(r) == r.tm \in {"later", "before"}

(* whether the run gets to work on the file f *)
Creates(r, f) == f.k = "none" /\ r.p1 # "" /\ r.p2 = r.p1
Opens(r, f) == f.k = "file" /\ (f.user = "" \/ r.user = f.user) /\ r.p1 = f.pass
Works(r, f) == Creates(r, f) \/ Opens(r, f)

(* the entries that the run sees *)
Seen(r, f) == IF r.tm = "before" THEN {} ELSE f.names
(* whether what it did is kept *)
Keeps(r, f) == /\ Works(r, f) /\ ~ReadOnly(r)
               /\ r.cmd \in {"session", "export", "lpass"}
               /\ r.cmd = "session" => r.end # "int"
After(r, f) == IF ~Keeps(r, f) THEN f
               ELSE [k |-> "file", pass |-> r.p1, user |-> f.user,
                     names |-> f.names \cup (IF r.cmd \in {"session", "lpass"} /\ r.add # "" THEN {r.add} ELSE {})]

(* 0: success, 1: failure *)
Status(r, f) ==
  IF r.tm = "bad" THEN 1
  ELSE IF ~Needs(r) THEN 0
  ELSE IF ~Works(r, f) THEN 1
  ELSE IF r.cmd = "nolpass" \/ (r.cmd = "session" /\ r.end = "int") THEN 1
  ELSE 0

Outcome(r, fs) ==
  LET t == Target(r)
      f == fs[t]
      go == Needs(r) /\ r.tm # "bad" IN
  [works |-> go /\ Works(r, f), status |-> Status(r, f),
   \* what it asks for before it works on the file
   asks |-> IF ~go \/ f.k \in {"dir", "junk"} THEN <<>>
            ELSE IF f.k = "none" THEN IF r.p1 = "" THEN <<"pass">> ELSE <<"pass", "pass">>
            ELSE IF f.user # "" THEN <<"user", "pass">> ELSE <<"pass">>,
   \* the entries that a session lists, or that are exported
   seen |-> IF go /\ Works(r, f) /\ r.cmd \in {"session", "export"} THEN Seen(r, f) ELSE {},
   files |-> IF go THEN [fs EXCEPT ![t] = After(r, f)] ELSE fs]
=============================================================================
