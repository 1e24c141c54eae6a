---------------------------- MODULE InvokeModel ----------------------------
(***************************************************************************)
(* Runs one after the other.  A run is chosen in steps (what it is told,   *)
(* what it is to do, what is entered), so that the simulator makes many    *)
(* that get somewhere.  Bug, for the negative controls, makes the program  *)
(* do something else.                                                      *)
(***************************************************************************)
EXTENDS Invoke, Naturals, Json, TLC

CONSTANTS MaxRuns, Bug, Small

Places == {"home", "cwd", "a", "b", "dir", "junk", "new"}
Named_ == IF Small THEN {"home", "a", "link", "dir", "new"} ELSE Places \cup {"link"}
Passes == IF Small THEN {"p", ""} ELSE {"p", "q", ""}

VARIABLES fs, pc, r, hist, fs0
vars == <<fs, pc, r, hist, fs0>>

NoRun == [flag |-> "", env |-> "", home |-> TRUE, cmd |-> "session", tm |-> "", user |-> "", p1 |-> "", p2 |-> "", add |-> "", end |-> "exit"]
Kinds(p) == CASE p = "dir" -> {[None EXCEPT !.k = "dir"]}
              [] p = "junk" -> {[None EXCEPT !.k = "junk"]}
              [] p = "new" -> {None}
              [] p = "a" -> {File("p", "", {"a0"}), File("p", "ann", {"a0"})}
              [] p = "b" -> IF Small THEN {None} ELSE {None, File("q", "ann", {"b0"}), File("p", "", {"b0"})}
              [] p = "home" -> {None, File("p", "", {"h0"})}
              [] p = "cwd" -> IF Small THEN {None} ELSE {None, File("q", "", {"c0"})}
Init == /\ fs \in {f \in [Places -> UNION {Kinds(p) : p \in Places}] : \A p \in Places : f[p] \in Kinds(p)}
        /\ fs0 = fs /\ pc = "where" /\ r = NoRun /\ hist = <<>>

Where == /\ pc = "where" /\ Len(hist) < MaxRuns /\ pc' = "which"
         /\ \E f, e, h \in BOOLEAN : r' = [NoRun EXCEPT !.flag = IF f THEN "?" ELSE "", !.env = IF e THEN "?" ELSE "", !.home = h]
         /\ UNCHANGED <<fs, hist, fs0>>
Which == /\ pc = "which" /\ pc' = "what"
         /\ \E f \in IF r.flag = "" THEN {""} ELSE Named_, e \in IF r.env = "" THEN {""} ELSE Named_ :
               r' = [r EXCEPT !.flag = f, !.env = e]
         /\ UNCHANGED <<fs, hist, fs0>>
What == /\ pc = "what" /\ pc' = "when"
        /\ \/ \E a \in BOOLEAN, e \in {"exit", "eof", "int"} : r' = [r EXCEPT !.add = IF a THEN "n" \o ToString(Len(hist)) ELSE "", !.end = e]
           \/ \E c \in {"export", "lpass", "nolpass", "gen", "version", "help"} :
                r' = [r EXCEPT !.cmd = c, !.add = IF c = "lpass" THEN "n" \o ToString(Len(hist)) ELSE ""]
        /\ UNCHANGED <<fs, hist, fs0>>
When == /\ pc = "when" /\ pc' = "who"
        /\ \E n \in (IF Small THEN {0, 6, 7, 8} ELSE 0..8) : r' = [r EXCEPT !.tm = CASE n < 6 -> "" [] n = 6 -> "later" [] n = 7 -> "before" [] n = 8 -> "bad"]
        /\ UNCHANGED <<fs, hist, fs0>>
\* mostly the right answers
Who == /\ pc = "who" /\ pc' = "run"
       /\ LET f == fs[Target(r)] IN
          \E n \in (IF Small THEN 0..1 ELSE 0..3), p, q \in Passes, u \in {"ann", "bob"} :
            r' = IF n > 0 THEN [r EXCEPT !.user = IF f.user = "" THEN "" ELSE f.user, !.p1 = IF f.k = "file" THEN f.pass ELSE "p", !.p2 = IF f.k = "file" THEN f.pass ELSE "p"]
                 ELSE [r EXCEPT !.user = IF f.user = "" THEN "" ELSE u, !.p1 = p, !.p2 = q]
       /\ UNCHANGED <<fs, hist, fs0>>

\* what the program does
Does == LET o == Outcome(r, fs) IN
  CASE Bug = "env first" -> Outcome([r EXCEPT !.flag = IF r.env # "" THEN r.env ELSE r.flag], fs)
    [] Bug = "once" -> Outcome([r EXCEPT !.p2 = r.p1], fs)
    [] Bug = "int" -> Outcome([r EXCEPT !.end = "exit"], fs)
    [] Bug = "at" -> [Outcome([r EXCEPT !.tm = ""], fs) EXCEPT !.seen = o.seen]
    [] Bug = "cwd" -> Outcome([r EXCEPT !.home = FALSE], fs)
    [] Bug = "wrong" -> IF fs[Target(r)].k = "file" THEN Outcome([r EXCEPT !.p1 = fs[Target(r)].pass], fs) ELSE o
    [] Bug = "dir" -> [o EXCEPT !.files = [fs EXCEPT ![Target(r)] = IF @.k \in {"dir", "junk"} THEN File("p", "", {}) ELSE o.files[Target(r)]]]
    [] OTHER -> o
Run == /\ pc = "run" /\ pc' = "where" /\ r' = NoRun
       /\ hist' = Append(hist, r) /\ fs' = Does.files
       /\ UNCHANGED fs0
Next == Where \/ Which \/ What \/ When \/ Who \/ Run
Spec == Init /\ [][Next]_vars

Now == hist'[Len(hist')]
IsRun == Len(hist') > Len(hist)
(* nothing but the file a run was told to work on changes *)
OnlyTarget == [][IsRun => \A p \in Places : fs'[p] # fs[p] => p = Target(Now)]_vars
(* -f is what counts, whatever else is said; what it names goes on to be what it was, whatever $BPASS is *)
FlagCounts == [][IsRun /\ Now.flag # "" => \A p \in Places : fs'[p] # fs[p] => p = Deref(Now.flag)]_vars
(* a run that fails, or is interrupted, or looks at the past, changes nothing *)
FailKeeps == [][IsRun /\ (Outcome(Now, fs).status = 1 \/ Now.tm # "" \/ Now.end = "int") => fs' = fs]_vars
(* what is there is only changed by one who can open it, and grows by what was added only *)
Opened == [][IsRun => \A p \in Places : fs'[p] # fs[p] =>
               \/ fs[p].k = "none" /\ Now.p1 # "" /\ Now.p1 = Now.p2 /\ fs'[p] = File(Now.p1, "", IF Now.add = "" THEN {} ELSE {Now.add})
               \/ /\ fs[p].k = "file" /\ Now.p1 = fs[p].pass /\ (fs[p].user # "" => Now.user = fs[p].user)
                  /\ fs'[p] = [fs[p] EXCEPT !.names = @ \cup {Now.add}]]_vars
(* no file has an empty passphrase *)
Closed == \A p \in Places : fs[p].k = "file" => fs[p].pass # ""
(* what one run leaves the next can open again, and sees *)
Again == \A p \in Places : fs[p].k = "file" =>
           Outcome([NoRun EXCEPT !.flag = p, !.user = fs[p].user, !.p1 = fs[p].pass], fs).seen = fs[p].names
EmitEnd == (Len(hist) = MaxRuns /\ pc = "where") => PrintT(<<"@@", ToJson([fs |-> fs0, h |-> hist])>>)
=============================================================================
