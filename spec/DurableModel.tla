---------------------------- MODULE DurableModel ----------------------------
(***************************************************************************)
(* A session that changes something and is left, and the saving, one       *)
(* operation at a time, any of which may fail, with everything stopping at *)
(* any moment.  Several ways to save are defined; the one that the program *)
(* is to use meets the requirement and the others do not.                  *)
(***************************************************************************)
EXTENDS Durable, Json

CONSTANTS Algo

T == "f"
Tmp == "t"
Op(k, a, b, id, tok) == [k |-> k, a |-> a, b |-> b, id |-> id, tok |-> tok, sync |-> FALSE]
Replace == <<Op("create", Tmp, "", "i2", "empty"), Op("data", "", "", "i2", "part"), Op("data", "", "", "i2", "new"),
             Op("mode", Tmp, "", "i2", ""), Op("sync", "", "", "i2", ""), Op("move", Tmp, T, "", "")>>
Without(s, k) == SelectSeq(s, LAMBDA o : o.k # k)
InPlace(was) == <<IF was THEN Op("data", T, "", "i1", "empty") ELSE Op("create", T, "", "i1", "empty"),
                  Op("data", "", "", "i1", "part"), Op("data", "", "", "i1", "new"), Op("sync", "", "", "i1", "")>>
Steps(was) ==
  CASE Algo = "replace" -> Replace
    [] Algo = "nosync" -> Without(Replace, "sync")
    [] Algo = "late" -> Without(Replace, "sync") \o <<Op("sync", "", "", "i2", "")>>
    [] Algo = "early" -> <<Replace[1], Replace[2], Replace[5], Replace[6], Replace[3], Replace[5]>>
    [] Algo = "inplace" -> InPlace(was)
    [] Algo = "clear" -> (IF was THEN <<Op("remove", T, "", "", "")>> ELSE <<>>) \o Replace
    [] Algo = "aside" -> (IF was THEN <<Op("move", T, "old", "", "")>> ELSE <<>>) \o Replace
    [] OTHER -> Replace

VARIABLES was, leave, fs, pc, failed, rc, msg
vars == <<was, leave, fs, pc, failed, rc, msg>>
Empty == [dir |-> (T :> None), dirs |-> {T :> None}, now |-> <<>>, dur |-> <<>>, wild |-> {}]
Init == /\ was \in BOOLEAN
        /\ leave \in {"exit", "eof", "int"}
        /\ fs = IF was THEN [dir |-> (T :> "i1"), dirs |-> {T :> "i1"}, now |-> ("i1" :> "old"), dur |-> ("i1" :> {"old"}), wild |-> {}] ELSE Empty
        /\ pc = 0 /\ failed = <<0, "">> /\ rc = -1 /\ msg = FALSE
Tasks == Steps(was)
(* the session ends: by an interrupt nothing is saved *)
Leave == /\ pc = 0
         /\ IF leave = "int" /\ Algo # "always" THEN pc' = 100 /\ rc' = 1 /\ msg' = TRUE ELSE pc' = 1 /\ UNCHANGED <<rc, msg>>
         /\ UNCHANGED <<was, leave, fs, failed>>
Do == /\ pc \in 1..Len(Tasks)
      /\ fs' = Apply(fs, Tasks[pc])
      /\ pc' = pc + 1 /\ UNCHANGED <<was, leave, failed, rc, msg>>
Fail == /\ pc \in 1..Len(Tasks) /\ failed[1] = 0 /\ (Algo = "ignores" => Tasks[pc].k = "data")
        /\ failed' = <<pc, Tasks[pc].k>>
        /\ IF Algo = "ignores" THEN pc' = pc + 1 /\ UNCHANGED <<rc, msg>>
           ELSE pc' = 100 /\ rc' = (IF Algo = "quiet" THEN 0 ELSE 1) /\ msg' = TRUE
        /\ UNCHANGED <<was, leave, fs>>
Done == /\ pc = Len(Tasks) + 1 /\ pc' = 100 /\ rc' = 0 /\ UNCHANGED <<was, leave, fs, failed, msg>>
Next == Leave \/ Do \/ Fail \/ Done
Spec == Init /\ [][Next]_vars

Good == {"old", "new"} \cup (IF was THEN {} ELSE {Absent})
AlwaysSafe == Safe(fs, T, <<>>, Good)
View == Present(fs, T, <<>>)
Old == IF was THEN "old" ELSE Absent
Told == pc = 100 =>
  Outcome([leave |-> leave, faulty |-> failed[1] # 0, rc |-> rc, msg |-> msg, isOld |-> View = Old, isNew |-> View = "new",
           opens |-> View \in {"old", "new"}, was |-> was, is |-> View # Absent]) = {}
(* a run with nothing failing always gets to the end *)
Ends == pc = 100 \/ ENABLED Next

Emit == pc \in 1..Len(Tasks) /\ failed[1] = 0 => PrintT(<<"@@", ToJson([was |-> was, leave |-> leave, kind |-> Tasks[pc].k, nth |-> pc])>>)
=============================================================================
