--------------------------- MODULE SyncEntryTrace ---------------------------
(***************************************************************************)
(* Judges recorded wizards for sync entries, and the syncs of what came of *)
(* them, by module SyncEntry.  Events:                                     *)
(*  add [kind, cwd, asked, said, crash, others, new]                       *)
(*    asked: [q, t, stop, shown]; others: how many entries that were there *)
(*    before have changed or are gone; new: the entries that were not, as  *)
(*    [unique, sync, url, priv, pub, info [type, bits, pub], shown, fresh] *)
(*    priv, pub: whether there are these keys; shown: whether the public   *)
(*    half was; fresh: whether it has never been seen before               *)
(*  set [url, stored]: a url that was set by hand                          *)
(*  sync [kind, cwd, asked, url, pub, conns, hosts, other, touched, there] *)
(*    url: that of an entry made by hand, otherwise empty; conns: of all   *)
(*    servers there are, as [port, host, users, passes, keys, login, cmds],*)
(*    a command being [k, to], to being what its path can be read as;      *)
(*    touched: paths of files written, there: whether the right one was    *)
(***************************************************************************)
EXTENDS SyncEntry, FiniteSets, Json, TLC

Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES tid, at
vars == <<tid, at>>
Init == tid \in 1..Len(Traces) /\ at = 0
Wrong(w) == IF w = {} THEN TRUE ELSE PrintT(<<"@@", ToJson([tid |-> tid, at |-> at + 1, w |-> w])>>)
In(x, l) == \E i \in DOMAIN l : l[i] = x
Only(l, x) == \A i \in DOMAIN l : l[i] = x

KeyFaults(n, key) ==
  IF key = "password" THEN (IF n.priv \/ n.pub THEN {"needless-key"} ELSE {})
  ELSE (IF n.priv /\ n.pub THEN {} ELSE {"no-key"})
       \cup (IF n.info.type = (IF key = "rsa" THEN "ssh-rsa" ELSE "ssh-ed25519") /\ (key = "rsa" => n.info.bits = 4096) THEN {} ELSE {"kind-of-key"})
       \cup (IF n.pair THEN {} ELSE {"halves-differ"}) \cup (IF n.shown THEN {} ELSE {"not-shown"}) \cup (IF n.fresh THEN {} ELSE {"not-fresh"})

Judge(e) ==
  CASE e.k = "add" ->
         LET r == Wizard(e.kind, e.asked, e.cwd) IN
         (IF e.crash THEN {"crash"} ELSE {})
         \cup (IF Due(Start(e.kind), e.asked, e.cwd) THEN {} ELSE {"asked"})
         \cup (IF e.others = 0 THEN {} ELSE {"others"})
         \cup (IF r.q # "done" THEN (IF e.new = <<>> THEN {} ELSE {"left-behind"})
               ELSE IF Len(e.new) # 1 THEN {"not-added"}
               ELSE LET n == e.new[1] IN
                    (IF n.unique THEN {} ELSE {"name"}) \cup (IF n.sync THEN {} ELSE {"not-synced"})
                    \cup (IF Place(n.url) = r.o THEN {} ELSE {"place"}) \cup (IF e.kind = "scp" THEN KeyFaults(n, r.key) ELSE {}))
    [] e.k = "set" -> IF e.stored = e.url THEN {} ELSE {"stored"}
    [] e.k = "sync" ->
         LET p == IF e.url # <<>> THEN Place(e.url) ELSE Wizard(e.kind, e.asked, e.cwd).o
             own == SelectSeq(e.conns, LAMBDA x : x.port = p.port)
             cmds == [i \in DOMAIN own |-> own[i].cmds] IN
         (IF e.crash THEN {"crash"} ELSE {})
         \cup (IF p.kind = "scp"
               THEN (IF Len(own) = Len(e.conns) THEN {} ELSE {"elsewhere"})
                    \cup (IF own # <<>> /\ \A i \in DOMAIN own : own[i].login THEN {} ELSE {"not-there"})
                    \cup UNION {LET x == own[i] IN
                                (IF Only(x.users, p.user) THEN {} ELSE {"user"})
                                \cup (IF Only(x.passes, p.pass) /\ (p.pass # <<>> => x.passes # <<>>) THEN {} ELSE {"password"})
                                \cup (IF Only(x.keys, e.pub) /\ (e.pub # "" => x.keys # <<>>) THEN {} ELSE {"key"})
                                \cup UNION {IF x.cmds[j].k \in {"f", "t"} /\ In(p.path, x.cmds[j].to) THEN {} ELSE {"path"} : j \in DOMAIN x.cmds} : i \in DOMAIN own}
                    \cup (IF {"f", "t"} \subseteq UNION {{c[j].k : j \in DOMAIN c} : c \in {cmds[i] : i \in DOMAIN cmds}} THEN {} ELSE {"not-synced"})
                    \cup (IF e.touched = <<>> THEN {} ELSE {"files"})
               ELSE (IF e.conns = <<>> THEN {} ELSE {"elsewhere"})
                    \cup (IF e.touched = <<p.path>> THEN {} ELSE IF In(p.path, e.touched) THEN {"files"} ELSE {"not-there"})
                    \cup (IF e.right THEN {} ELSE {"content"}))

Step == /\ at < Len(Traces[tid].t)
        /\ at' = at + 1 /\ tid' = tid
        /\ Wrong(Judge(Traces[tid].t[at + 1]))
Next == Step
Spec == Init /\ [][Next]_vars
=============================================================================
