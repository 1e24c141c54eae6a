----------------------------- MODULE CryptTrace -----------------------------
(***************************************************************************)
(* Judges what packages crypt and pkcs7, and the program, did with files,  *)
(* by module Crypt.  Byte strings have been given names by the recorder;   *)
(* a key's name is the passphrase and salt it is to be derived from (found *)
(* by the independent implementation), or something unknown.  Events:      *)
(*  fact    [bodies, mkeys]  files made by the independent implementation  *)
(*  derive  [p, key, s, chunks]                                            *)
(*  master  [chunks]                                                       *)
(*  encmk   [key, master, m, v, chunks, back]                              *)
(*  enc     [n, want, master, key, text, f, chunks, back]                  *)
(*  open    [f, u, p, ck, cs, res, par, multi]                             *)
(*  prog    [f, u, p, res, asked, status, changed]                         *)
(*  pad / unpad [b, n, res]                                                *)
(***************************************************************************)
EXTENDS Crypt, Json

Traces == ndJsonDeserialize("traces.ndjson")

VARIABLES tid, at, W, seen
vars == <<tid, at, W, seen>>

SetOf(l) == {l[i] : i \in DOMAIN l}
Init == tid \in 1..Len(Traces) /\ at = 0 /\ W = Facts0 /\ seen = {}

Wrong(w) == IF w = {} THEN TRUE ELSE PrintT(<<"@@", ToJson([tid |-> tid, at |-> at + 1, w |-> w])>>)
IfNot(c, w) == IF c THEN {} ELSE {w}

(* Randomness: no part of it has been there before. *)
Fresh(e) == Cardinality(SetOf(e.chunks)) = Len(e.chunks) /\ SetOf(e.chunks) \cap seen = {}

(* What is returned to encrypt with again. *)
ParOk(e, r) ==
  LET p == e.par f == e.f IN
  IF f.n = 0 THEN p.n = 0 /\ p.key = r.key /\ p.salt = f.salt /\ p.version = 1
  ELSE /\ p.n = f.n /\ p.user = r.slot /\ p.key = r.key /\ p.salt = f.users[r.slot].s
       /\ p.users = f.users /\ p.ivm = f.iv /\ p.master = r.master /\ p.version = 1

Step ==
  LET e == Traces[tid].t[at + 1] IN
  /\ at < Len(Traces[tid].t)
  /\ at' = at + 1 /\ tid' = tid
  /\ CASE e.k = "fact" ->
            /\ W' = [bodies |-> W.bodies \cup SetOf(e.bodies), mkeys |-> W.mkeys \cup SetOf(e.mkeys)]
            /\ seen' = seen
       [] e.k = "derive" ->
            /\ W' = W /\ seen' = seen \cup SetOf(e.chunks)
            /\ Wrong(IF ~e.ok THEN {"refused"} ELSE IfNot(e.key = <<e.p, e.s>>, "key") \cup IfNot(Fresh(e), "salt"))
       [] e.k = "master" ->
            /\ W' = W /\ seen' = seen \cup SetOf(e.chunks)
            /\ Wrong(IF ~e.ok THEN {"refused"} ELSE IfNot(Fresh(e), "iv"))
       [] e.k = "encmk" ->
            /\ seen' = seen \cup SetOf(e.chunks)
            /\ W' = IF e.ok THEN [W EXCEPT !.mkeys = @ \cup {[m |-> e.m, key |-> e.key, iv |-> e.v, master |-> e.master]}] ELSE W
            /\ Wrong(IF ~e.ok THEN {"refused"} ELSE IfNot(e.back = e.master, "format") \cup IfNot(Fresh(e), "iv"))
       [] e.k = "enc" ->
            /\ seen' = seen \cup SetOf(e.chunks)
            /\ W' = IF e.ok THEN [W EXCEPT !.bodies = @ \cup {[b |-> e.f.body, key |-> e.key, iv |-> e.f.iv, head |-> HeadOf(e.f), text |-> e.text]}] ELSE W
            /\ Wrong(IF ~e.ok THEN {"refused"}
                     ELSE IfNot(e.back = e.text, "format")
                          \cup IfNot(e.f.ok /\ e.f.magic = e.magic /\ e.f.n = e.n /\ e.f.users = e.users /\ (e.n = 0 => e.f.salt = e.salt) /\ (e.n > 0 => e.f.iv = e.iv), "header")
                          \cup (IF e.n = 0 THEN IfNot(Fresh(e), "iv") ELSE {})
                          \cup IfNot(~e.spoiled, "spoiled"))
       [] e.k = "open" ->
            LET r == OpenFile(W, e.f, e.u, e.p, e.ck, e.cs)
                (* a wrong key for the right salt is no reason to refuse the right passphrase *)
                r2 == OpenFile(W, e.f, e.u, e.p, None, "")
                res == e.res IN
            /\ UNCHANGED <<W, seen>>
            /\ Wrong((IF res.crash THEN {"crash"}
                      ELSE IF res.ok THEN
                        IF r.ok THEN IfNot(res.text = r.text, "text") \cup IfNot(ParOk(e, r), "params")
                        ELSE IF r2.ok THEN IfNot(res.text = r2.text, "text") ELSE {"accepted"}
                      ELSE IF r.ok THEN {"refused-good"}
                      ELSE IfNot(res.text = "", "leak")
                           \cup IfNot((r.class = "need") = (res.class = "need") \/ ~e.f.ok, "need-user")
                           \cup IfNot(Intact(W, e.f) /\ r.class = "wrong" => res.class = "wrong", "told-apart"))
                     \cup IfNot(~res.spoiled, "spoiled")
                     \cup IfNot(e.f.ok => e.multi = (IF e.f.n > 0 THEN "yes" ELSE "no"), "multi")
                     \cup IfNot(e.multi # "crash", "crash"))
       [] e.k = "prog" ->
            LET r == OpenFile(W, e.f, e.u, e.p, None, "") IN
            /\ UNCHANGED <<W, seen>>
            /\ Wrong(IfNot(~e.crash, "crash")
                     \cup (IF r.ok THEN IfNot(e.opened, "refused-good") \cup IfNot(e.opened => e.text = r.text, "text")
                           ELSE IfNot(~e.opened, "accepted") \cup IfNot(e.status # 0, "status") \cup IfNot(~e.changed, "changed"))
                     \cup IfNot(e.f.ok => e.asked = (e.f.n > 0), "need-user"))
       [] e.k = "pad" ->
            /\ UNCHANGED <<W, seen>>
            /\ Wrong(IfNot(e.ok /\ e.out = PadOf(e.b, e.n), "pad"))
       [] e.k = "unpad" ->
            /\ UNCHANGED <<W, seen>>
            /\ Wrong(IF e.crash THEN {"crash"} ELSE IfNot(e.ok = Unpads(e.b), IF e.ok THEN "accepted" ELSE "refused-good") \cup IfNot(e.ok => e.out = UnpadOf(e.b), "pad"))
Next == Step
Spec == Init /\ [][Next]_vars
=============================================================================
