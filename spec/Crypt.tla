-------------------------------- MODULE Crypt --------------------------------
(***************************************************************************)
(* The encrypted file, symbolically.  A file is what can be read off it:   *)
(*  [ok, magic, n, users, salt, iv, body]                                  *)
(* ok: it has the shape of a version 1 file; users: for every user the     *)
(* hash of the name (standing for the name), salt, iv and encrypted master *)
(* key; salt is the passphrase's in a single-user file.                    *)
(*                                                                         *)
(* A key derived from a passphrase is <<p, s>>.  Ciphertexts are opaque:   *)
(* what is known of them are the facts in W:                               *)
(*  W.bodies [b, key, iv, head, text] : b was made of text with key and iv *)
(*                                      for a file with this head          *)
(*  W.mkeys  [m, key, iv, master]     : m is master, encrypted             *)
(* Changing anything of a ciphertext gives something nothing is known of.  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

None == <<"", "">>                     \* no key
NoUsers == <<>>
Facts0 == [bodies |-> {}, mkeys |-> {}]

(* Everything the checksum covers besides the text. *)
HeadOf(f) == [magic |-> f.magic, n |-> f.n, users |-> f.users, salt |-> f.salt, iv |-> f.iv]

Slots(f, u) == {i \in 1..Len(f.users) : f.users[i].h = u}
Least(S) == CHOOSE x \in S : \A y \in S : x <= y

(* The key to use with a salt: a remembered one only if it was derived with *)
(* this very salt. *)
KeyFor(s, p, ck, cs) == IF ck # None /\ cs = s THEN ck ELSE IF p = "" THEN None ELSE <<p, s>>

Err(c) == [ok |-> FALSE, class |-> c, text |-> "", slot |-> 0, key |-> None, master |-> ""]
Got(t, i, k, m) == [ok |-> TRUE, class |-> "", text |-> t, slot |-> i, key |-> k, master |-> m]

BodyWith(W, f, key) == {b \in W.bodies : b.b = f.body /\ b.key = key /\ b.iv = f.iv /\ b.head = HeadOf(f)}

(* Opening a file with a user name, a passphrase, and a remembered key. *)
OpenFile(W, f, u, p, ck, cs) ==
  IF ~f.ok THEN Err("any")
  ELSE IF f.n = 0 THEN
    LET key == KeyFor(f.salt, p, ck, cs)
        bs == BodyWith(W, f, key) IN
    IF key = None \/ bs = {} THEN Err("wrong") ELSE Got((CHOOSE b \in bs : TRUE).text, 0, key, "")
  ELSE IF u = "" THEN Err("need")
  ELSE IF Slots(f, u) = {} THEN Err("wrong")
  ELSE
    LET i == Least(Slots(f, u))
        key == KeyFor(f.users[i].s, p, ck, cs)
        ms == {m \in W.mkeys : m.m = f.users[i].m /\ m.key = key /\ m.iv = f.users[i].v} IN
    IF key = None \/ ms = {} THEN Err("wrong")
    ELSE LET master == (CHOOSE m \in ms : TRUE).master
             bs == BodyWith(W, f, <<"master", master>>) IN
         IF bs = {} THEN Err("wrong") ELSE Got((CHOOSE b \in bs : TRUE).text, i, key, master)

(* A file that somebody made and nobody altered. *)
Intact(W, f) == f.ok /\ \E b \in W.bodies : b.b = f.body /\ b.head = HeadOf(f)

(* Padding: k bytes of value k, 1 <= k <= n, to a multiple of n. *)
PadOf(b, n) == LET k == n - (Len(b) % n) IN b \o [i \in 1..k |-> k]
Unpads(b) == Len(b) > 0 /\ b[Len(b)] > 0 /\ b[Len(b)] <= Len(b)
             /\ \A i \in (Len(b) - b[Len(b)] + 1)..Len(b) : b[i] = b[Len(b)]
UnpadOf(b) == SubSeq(b, 1, Len(b) - b[Len(b)])
=============================================================================
