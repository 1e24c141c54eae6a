--------------------------- MODULE PasswordsModel ---------------------------
(***************************************************************************)
(* Making up a password as a state machine.  The construction (what is     *)
(* needed, then picks of kinds that are on, then swapping) can make every  *)
(* password that meets the request and no other, for all small requests;   *)
(* the dialogue only ever has the password shown accepted.  Also prints    *)
(* dialogues to run the program on.                                        *)
(***************************************************************************)
EXTENDS Passwords, Json, TLC

CONSTANTS MaxLen, MaxMin, MaxSteps, Bug

K3 == "u" :> {"A", "B"} @@ "n" :> {"1"} @@ "b" :> {"!"}     \* small alphabets
K5 == "u" :> {"A"} @@ "l" :> {"a"} @@ "n" :> {"1"} @@ "b" :> {"!"} @@ "e" :> {"("}

Reqs == [len : -1..MaxLen, set : [Ks -> -1..MaxMin]]

VARIABLES req, shown, picks, phase, hist
vars == <<req, shown, picks, phase>>
None == <<"none">>

Swap(p, i, j) == [p EXCEPT ![i] = p[j], ![j] = p[i]]
NeedKind(r, i) ==  \* the kind that the i-th needed character is of
  CHOOSE k \in On(r) : LET before == {x \in On(r) : \E a, b \in 1..Len(<<"u", "l", "n", "b", "e">>) :
                                        a < b /\ <<"u", "l", "n", "b", "e">>[a] = x /\ <<"u", "l", "n", "b", "e">>[b] = k} IN
      SumOf(r.set, before) < i /\ i <= SumOf(r.set, before) + r.set[k]

(*** construction ***)
GInit == /\ req \in Reqs /\ shown = None /\ phase = "pick" /\ picks = <<>> /\ hist = <<>>
GNext ==
  \/ /\ phase = "pick" /\ ~Feasible(req) /\ phase' = "refused" /\ UNCHANGED <<req, shown, picks, hist>>
  \/ /\ phase = "pick" /\ Feasible(req) /\ Len(picks) < req.len
     /\ \E k \in IF Len(picks) < Needed(req) THEN {NeedKind(req, Len(picks) + 1)}
                 ELSE IF Bug = "off" THEN Ks ELSE On(req) :
          \E c \in Kinds[k] : picks' = Append(picks, c)
     /\ UNCHANGED <<req, shown, phase, hist>>
  \/ /\ phase = "pick" /\ Feasible(req) /\ Len(picks) = req.len
     /\ phase' = (IF Bug = "noswap" THEN "done" ELSE "swap") /\ hist' = <<1>> /\ UNCHANGED <<req, shown, picks>>
  \/ /\ phase = "swap" /\ hist[1] <= req.len
     /\ \E j \in 1..req.len : picks' = Swap(picks, hist[1], j)
     /\ hist' = <<hist[1] + 1>> /\ UNCHANGED <<req, shown, phase>>
  \/ /\ phase = "swap" /\ hist[1] > req.len /\ phase' = "done" /\ UNCHANGED <<req, shown, picks, hist>>
GSpec == GInit /\ [][GNext]_<<vars, hist>>

Sound == phase = "done" => picks \in Meeting(req)
Refused == phase = "refused" => \A p \in [1..(IF req.len < 0 THEN 0 ELSE req.len) -> Allowed(req)] : ~Meets(p, req)

(* The same as a set: everything the construction can make. *)
RECURSIVE PickAll(_, _)
PickAll(r, i) == IF i > r.len THEN {<<>>}
                 ELSE {<<c>> \o p : c \in IF i <= Needed(r) THEN Kinds[NeedKind(r, i)] ELSE Allowed(r), p \in PickAll(r, i + 1)}
RECURSIVE SwapAll(_, _, _)
SwapAll(S, i, n) == IF i > n \/ Bug = "noswap" THEN S ELSE SwapAll({Swap(p, i, j) : p \in S, j \in 1..n}, i + 1, n)
Outcomes(r) == IF Feasible(r) THEN SwapAll(PickAll(r, 1), 1, r.len) ELSE {}
Complete == phase = "pick" /\ picks = <<>> => Outcomes(req) = Meeting(req)

(*** dialogue ***)
Num(v) == [ok |-> TRUE, v |-> v]
NaN == [ok |-> FALSE, v |-> 0]
W(w) == [raw |-> w, f |-> <<w>>, n1 |-> NaN, n |-> NaN]
WN(w, v) == [raw |-> w \o " " \o ToString(v), f |-> <<w, ToString(v)>>, n1 |-> Num(v), n |-> NaN]
N(v) == [raw |-> ToString(v), f |-> <<ToString(v)>>, n1 |-> NaN, n |-> Num(v)]
Lines == {[raw |-> "", f |-> <<>>, n1 |-> NaN, n |-> NaN], W("y"), W("m"), W("c"), W("?"), W("x")}
         \cup {W(k) : k \in Ks} \cup {WN(k, v) : k \in Ks, v \in -1..MaxMin} \cup {N(v) : v \in -1..MaxLen}

Ends == {"accepted", "manual", "left"}
Fresh(r) == IF ~Feasible(r) THEN {None} ELSE IF Bug = "any" THEN {<<"some">>} ELSE Meeting(r)   \* "any" for scenarios only
DInit == /\ req = [len |-> MaxLen, set |-> [k \in Ks |-> 0]] /\ shown \in Fresh(req) /\ picks = None /\ phase = "ask" /\ hist = <<>>
DNext ==
  /\ phase = "ask" /\ Len(hist) < MaxSteps
  /\ \E l \in Lines :
       LET a == Ask(req, l) IN
       /\ hist' = Append(hist, l.raw)
       /\ req' = a.req
       /\ CASE a.m = "accept" /\ shown # None -> phase' = "accepted" /\ picks' = shown /\ UNCHANGED shown
            [] a.m = "manual" -> \/ phase' = "manual" /\ picks' = <<"typed">> /\ UNCHANGED shown
                                 \/ phase' = "ask" /\ picks' = picks /\ shown' \in Fresh(a.req)
            [] a.m = "copy" -> UNCHANGED <<shown, phase, picks>>
            [] OTHER -> shown' \in Fresh(a.req) /\ UNCHANGED <<phase, picks>>
DSpec == DInit /\ [][DNext]_<<vars, hist>>
DView == vars
Honest == /\ phase = "accepted" => Meets(picks, req) /\ picks = shown
          /\ shown # None => Meets(shown, req)
          /\ phase = "accepted" => Feasible(req)
Emit == (Len(hist) = MaxSteps \/ phase \in Ends) => PrintT(<<"@@", ToJson(hist)>>)
=============================================================================
