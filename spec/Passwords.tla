----------------------------- MODULE Passwords -----------------------------
(***************************************************************************)
(* Making up a password: what the user asks for, what is shown and what is *)
(* accepted.                                                               *)
(*                                                                         *)
(* A request is a length and, per kind of character, a setting: negative   *)
(* for "none", 0 for "any number", n for "at least n".                     *)
(* Passwords are sequences of characters; Kinds are sets of them.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Text

CONSTANT Kinds          \* [kind |-> set of characters]
Ks == DOMAIN Kinds
Refusable == 65536      \* longer ones may be refused

RECURSIVE SumOf(_, _)
SumOf(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumOf(f, S \ {x})
Count(p, S) == Cardinality({i \in DOMAIN p : p[i] \in S})
On(req) == {k \in Ks : req.set[k] >= 0}
Needed(req) == SumOf(req.set, On(req))

Feasible(req) == /\ req.len >= 0
                 /\ Needed(req) <= req.len
                 /\ Needed(req) < req.len => On(req) # {}

(* What is wrong with a password as an answer to a request. *)
Faults(p, req) ==
  (IF Len(p) = req.len THEN {} ELSE {"length"})
  \cup (IF \A i \in DOMAIN p : \E k \in Ks : p[i] \in Kinds[k] THEN {} ELSE {"characters"})
  \cup (IF \A k \in Ks : req.set[k] > 0 => Count(p, Kinds[k]) >= req.set[k] THEN {} ELSE {"too-few"})
  \cup (IF \A k \in Ks : req.set[k] < 0 => Count(p, Kinds[k]) = 0 THEN {} ELSE {"switched-off"})

Meets(p, req) == Faults(p, req) = {}

(* All answers to a request (for small ones). *)
Allowed(req) == UNION {Kinds[k] : k \in On(req)}
Meeting(req) == IF ~Feasible(req) THEN {} ELSE {p \in [1..req.len -> Allowed(req)] : Meets(p, req)}

---------------------------------------------------------------------------
(* The dialogue. An input line is [raw, f, n1, n]: what was typed, its     *)
(* words, and the numbers [ok, v] that the second word and the whole are.  *)

Default == [len |-> 32, set |-> [k \in Ks |-> 0]]

(* What a line asks for: its meaning, and the request afterwards. *)
Ask(req, l) ==
  LET set == [req EXCEPT !.set[l.f[1]] = IF Len(l.f) = 1 THEN (IF @ >= 0 THEN -1 ELSE 0)
                                         ELSE IF l.n1.ok THEN l.n1.v ELSE @] IN
  CASE l.raw = ""          -> [m |-> "again", req |-> req]
    [] l.f = <<>>          -> [m |-> "other", req |-> req]
    [] l.raw = "y"         -> [m |-> "accept", req |-> req]
    [] l.raw = "m"         -> [m |-> "manual", req |-> req]
    [] l.f[1] = "c"        -> [m |-> "copy", req |-> req]
    [] l.f[1] \in Ks       -> [m |-> IF Len(l.f) > 1 /\ ~l.n1.ok THEN "other" ELSE "again", req |-> set]
    [] l.n.ok              -> [m |-> "again", req |-> [req EXCEPT !.len = l.n.v]]
    [] OTHER               -> [m |-> "other", req |-> req]
=============================================================================
