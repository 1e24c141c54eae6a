---------------------------- MODULE PinentryModel ----------------------------
(***************************************************************************)
(* Client and pinentry program as processes: the client takes one answer   *)
(* after the other and gives up at the first that it does not expect.      *)
(* That is shown to be what Pinentry!Outcome says of the whole dialogue,   *)
(* whatever the program says and wherever it ends; every dialogue is       *)
(* printed for the real code.                                              *)
(***************************************************************************)
EXTENDS Pinentry, Json, TLC

CONSTANTS NSet, Bug

Data(x) == [s |-> "D", d |-> TRUE, x |-> x]
Say(s) == [s |-> s, d |-> FALSE, x |-> <<>>]
Gone(s) == s = "cancelled"
\* what can be said in a place, besides ending
Words == {Say(Greeting), Say("OK"), Say("almost OK"), Say("ERR"), Say("cancelled"), Say(""), Say("other"),
          Data(<<>>), Data(<<97>>), Data(<<37, 50, 53, 48, 65>>)}

VARIABLES pc, said, asked, exit, acc, res
vars == <<pc, said, asked, exit, acc, res>>
Running == [how |-> "", pw |-> <<>>]
Init == pc = "greet" /\ said = <<>> /\ asked = 0 /\ exit = -1 /\ acc = <<>> /\ res = Running

End(r) == res' = r /\ pc' = "done"
(* The program says w, which the client takes as it comes. *)
Take(w) ==
  /\ said' = Append(said, w) /\ exit' = exit
  /\ CASE pc = "greet" -> IF w.s = Greeting THEN pc' = "set" /\ asked' = 1 /\ UNCHANGED <<acc, res>> ELSE End(No) /\ UNCHANGED <<acc, asked>>
       [] pc = "set" -> IF w.s = "OK" \/ (Bug = "set" /\ ~w.d)
                        THEN /\ asked' = asked + 1 /\ UNCHANGED <<acc, res>>
                             /\ pc' = IF asked = NSet THEN "pin" ELSE "set"
                        ELSE End(No) /\ UNCHANGED <<acc, asked>>
       [] pc = "pin" -> IF w.d THEN pc' = "data" /\ acc' = w.x /\ UNCHANGED <<asked, res>>
                        ELSE IF Gone(w.s) THEN End(Yes(<<>>)) /\ UNCHANGED <<acc, asked>>
                        ELSE IF w.s = "OK" THEN pc' = "bye" /\ acc' = <<>> /\ UNCHANGED <<asked, res>>
                        ELSE End(No) /\ UNCHANGED <<acc, asked>>
       [] pc = "data" -> IF w.s = "OK" \/ Bug = "data" THEN pc' = "bye" /\ UNCHANGED <<acc, asked, res>> ELSE End(No) /\ UNCHANGED <<acc, asked>>
Quit(e) == /\ exit' = e /\ UNCHANGED <<said, asked, acc>>
           /\ End(IF pc = "bye" /\ e = 0 THEN Yes(IF Bug = "twice" THEN Decode(Decode(acc)) ELSE Decode(acc)) ELSE No)
Next == /\ pc # "done"
        /\ \/ pc # "bye" /\ \E w \in Words : Take(w)
           \/ \E e \in {0, 1} : Quit(e)
Spec == Init /\ [][Next]_vars

Settings == IF asked = NSet + 1 THEN NSet ELSE -1
AsSpecified == pc = "done" => res = Outcome(said, Settings, exit, Gone)
(* never a partial passphrase, nor one of a broken dialogue *)
Whole == res.how = "ok" /\ res.pw # <<>> =>
           /\ exit = 0 /\ Len(said) = NSet + 3 /\ said[NSet + 2].d /\ res.pw = Decode(said[NSet + 2].x)
           /\ said[1].s = Greeting /\ \A i \in 2..NSet + 1 : said[i].s = "OK"
RoundTrip == \A p \in {<<>>, <<37>>, <<37, 50, 53>>, <<10, 37, 48, 65>>, <<13>>, <<97, 37, 37>>} : Decode(Encode(p)) = p
Emit == pc = "done" => PrintT(<<"@@", ToJson([said |-> said, exit |-> exit])>>)
=============================================================================
