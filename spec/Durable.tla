------------------------------- MODULE Durable -------------------------------
(***************************************************************************)
(* A file system as far as it matters for what is left after a crash, and  *)
(* what a program that keeps a file has to achieve on it.                  *)
(*                                                                         *)
(* What was written to a file is only sure to be there after it has been   *)
(* synced; until then anything may be found in it.  Names change at once,  *)
(* in order, but after a crash the names may be those of any moment since  *)
(* the directory was last synced.                                          *)
(*                                                                         *)
(* fs.dir   what each name leads to now, None if it leads nowhere          *)
(* fs.dirs  what the names may lead to after a crash                       *)
(* fs.now   the contents of each file                                      *)
(* fs.dur   the contents each file may have after a crash                  *)
(* fs.wild  files that are mapped, and may change any time                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

None == "none"
Torn == "torn"
Absent == "absent"

With(f, k, v) == (k :> v) @@ f

(* An operation that has been done: [k |-> what, a, b |-> names, id |-> file, tok |-> contents after it, sync |-> whether it is synced at once] *)
Renamed(fs, d) == [fs EXCEPT !.dir = d, !.dirs = @ \cup {d}]
To(fs, n) == IF n \in DOMAIN fs.dir THEN fs.dir[n] ELSE None
Apply(fs, o) ==
  CASE o.k = "create" -> [Renamed(fs, With(fs.dir, o.a, o.id)) EXCEPT
                            !.now = With(@, o.id, o.tok), !.dur = With(@, o.id, {o.tok})]
    [] o.k = "data" -> [fs EXCEPT !.now = With(@, o.id, o.tok),
                          !.dur = With(@, o.id, IF o.sync THEN {o.tok} ELSE @[o.id] \cup {o.tok, Torn})]
    [] o.k = "wild" -> [fs EXCEPT !.wild = @ \cup {o.id}, !.dur = With(@, o.id, @[o.id] \cup {Torn})]
    [] o.k = "sync" -> IF o.id \in fs.wild THEN fs ELSE [fs EXCEPT !.dur = With(@, o.id, {fs.now[o.id]})]
    [] o.k = "dirsync" -> [fs EXCEPT !.dirs = {fs.dir}]
    [] o.k = "syncall" -> [fs EXCEPT !.dirs = {fs.dir}, !.dur = [i \in DOMAIN @ |-> IF i \in fs.wild THEN @[i] ELSE {fs.now[i]}]]
    [] o.k = "move" -> Renamed(fs, With(With(fs.dir, o.b, To(fs, o.a)), o.a, None))
    [] o.k = "swap" -> Renamed(fs, With(With(fs.dir, o.b, To(fs, o.a)), o.a, To(fs, o.b)))
    [] o.k = "link" -> Renamed(fs, With(fs.dir, o.b, To(fs, o.a)))
    [] o.k = "remove" -> Renamed(fs, With(fs.dir, o.a, None))
    [] OTHER -> fs

(* The file name n leads to in d.  links: the links there are, which stand  *)
(* until something else is put in their place.                             *)
Look(d, n, links) ==
  IF n \in DOMAIN d THEN d[n]
  ELSE IF n \in DOMAIN links /\ links[n] \in DOMAIN d THEN d[links[n]] ELSE None

(* What may be found under name n if everything stops now. *)
Possible(fs, n, links) ==
  UNION {LET i == Look(d, n, links) IN IF i = None THEN {Absent} ELSE fs.dur[i] : d \in fs.dirs}
Present(fs, n, links) == LET i == Look(fs.dir, n, links) IN IF i = None THEN Absent ELSE fs.now[i]

(* THE REQUIREMENT: whatever may be found is one of the complete versions. *)
Safe(fs, n, links, complete) == Possible(fs, n, links) \subseteq complete

(* How a run of the program may end.                                       *)
(*  leave: "exit", "eof" (end of input at the prompt), "int" (interrupt),  *)
(*         "refused" (it did not come to a session, or the task failed),   *)
(*         "killed" (it was made to stop at some moment)                   *)
(*  faulty: something was made to fail                                     *)
(*  isOld, isNew: whether the file is as before, or holds all that was     *)
(*         done (both if nothing was)                                      *)
(*  opens: whether it can be opened; was, is: whether there was and is one *)
Outcome(e) ==
  (IF e.leave \in {"exit", "eof"} /\ ~e.faulty /\ ~(e.rc = 0 /\ e.isNew) THEN {"saves"} ELSE {})
  \cup (IF e.leave = "int" /\ ~e.isOld THEN {"untouched"} ELSE {})
  \cup (IF e.leave \in {"exit", "eof"} /\ e.rc = 0 /\ ~e.isNew THEN {"silent"} ELSE {})
  \cup (IF e.leave = "refused" /\ (e.rc = 0 \/ ~e.isOld) THEN {"refused"} ELSE {})
  \cup (IF e.leave \notin {"killed", "int"} /\ e.rc # 0 /\ ~e.msg THEN {"message"} ELSE {})
  \cup (IF ~e.isOld /\ ~e.isNew THEN {"destroyed"} ELSE {})
  \cup (IF e.is /\ ~e.opens /\ ~e.isOld THEN {"opens"} ELSE {})
  \cup (IF e.was /\ ~e.is THEN {"gone"} ELSE {})
=============================================================================
