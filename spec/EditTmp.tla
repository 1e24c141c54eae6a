------------------------------ MODULE EditTmp -------------------------------
(***************************************************************************)
(* Editing a value: the value goes into a file of its own, an editor works *)
(* on that file as it likes, and afterwards the new value is taken, the    *)
(* file's contents are overwritten and the file is removed.                *)
(*                                                                         *)
(* Contents are sequences of blocks: "old" and "new" are secret, "zero"    *)
(* not.  An editor may write in place, replace the file, remove it, and    *)
(* end in any way.                                                         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC

CONSTANTS MaxLen,
          Careless      \* negative control: only what was read is overwritten

VARIABLES pc,           \* where the command is
          file,         \* contents by file ever made, in order of making
          at,           \* the file which the name stands for, 0 if none
          how,          \* how the editor ended
          value,        \* the value of the key: its length, and whether it is "old" or "new"
          read          \* how much of the file was known when it is overwritten
vars == <<pc, file, at, how, value, read>>

Blocks(n, what) == [i \in 1..n |-> what]
Secret(i) == \E k \in 1..Len(file[i]) : file[i][k] # "zero"

Init == pc = "idle" /\ file = <<>> /\ at = 0 /\ how = "none" /\ read = 0
        /\ value \in {[n |-> n, what |-> "old"] : n \in 0..MaxLen}

Begin == /\ pc = "idle" /\ pc' = "editing"
         /\ file' = <<Blocks(value.n, "old")>> /\ at' = 1 /\ read' = value.n
         /\ UNCHANGED <<how, value>>
BeginFails == pc = "idle" /\ pc' = "done" /\ UNCHANGED <<file, at, how, value, read>>     \* no place for a file

(* What an editor does *)
InPlace == pc = "editing" /\ at # 0 /\ \E n \in 0..(MaxLen + 1) : file' = [file EXCEPT ![at] = Blocks(n, "new")]
           /\ UNCHANGED <<pc, at, how, value, read>>
Replace == pc = "editing" /\ at # 0 /\ Len(file) < 2 /\ \E n \in 0..(MaxLen + 1) : file' = Append(file, Blocks(n, "new"))
           /\ at' = Len(file') /\ UNCHANGED <<pc, how, value, read>>
Away    == pc = "editing" /\ at # 0 /\ at' = 0 /\ UNCHANGED <<pc, file, how, value, read>>
Ends    == pc = "editing" /\ \E h \in {"ok", "fail", "signal", "missing"} : how' = h
           /\ pc' = "back" /\ UNCHANGED <<file, at, value, read>>

(* Afterwards *)
Take == /\ pc = "back" /\ pc' = "wipe"
        /\ IF at # 0 /\ how = "ok"
           THEN value' = [n |-> Len(file[at]), what |-> IF file[at] = Blocks(Len(file[at]), "old") THEN "old" ELSE "new"]
                /\ read' = IF Len(file[at]) > read THEN Len(file[at]) ELSE read
           ELSE UNCHANGED <<value, read>>
        /\ UNCHANGED <<file, at, how>>
Wipe == /\ pc = "wipe" /\ pc' = "remove"
        /\ IF at = 0 THEN UNCHANGED file
           ELSE LET all == IF Careless THEN read ELSE IF Len(file[at]) > read THEN Len(file[at]) ELSE read IN
                file' = [file EXCEPT ![at] = [i \in 1..(IF all > Len(@) THEN all ELSE Len(@)) |-> IF i <= all THEN "zero" ELSE @[i]]]
        /\ UNCHANGED <<at, how, value, read>>
Remove == pc = "remove" /\ pc' = "done" /\ at' = 0 /\ UNCHANGED <<file, how, value, read>>
Done == pc = "done" /\ UNCHANGED vars

Next == Begin \/ BeginFails \/ InPlace \/ Replace \/ Away \/ Ends \/ Take \/ Wipe \/ Remove \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Begin \/ BeginFails \/ Ends \/ Take \/ Wipe \/ Remove)

(* No trace is left: the name is gone, and the file that was there last    *)
(* holds nothing.                                                          *)
NoTrace == pc = "done" => at = 0
Overwritten == pc = "remove" => (at # 0 => ~Secret(at))
(* The value changes only with an editor that succeeded, and then to what  *)
(* it left behind.                                                         *)
OnlySuccess == [][value' # value => how = "ok" /\ at # 0 /\ value'.n = Len(file[at])]_vars
(* And it always comes to an end. *)
GoesOn == <>(pc = "done")

(* ---- what is to be observed from outside, of an edit of old             *)
Takes(h) == h \in {"ok", "replace", "append"}
Observed(o, old) ==
  IF o.ran THEN /\ o.seen = old          \* the editor got the value,
                /\ o.private             \* in a file of its owner only,
                /\ o.gone /\ o.wiped     \* which is gone, and overwritten
  ELSE o.gone
=============================================================================
