----------------------------- MODULE HostTrace -----------------------------
(***************************************************************************)
(* Judges recorded syncs with one host each by HostKeys.  A sync has       *)
(*  host, addr  as the program connects to it                              *)
(*  before      the lines known when it began                              *)
(*  merged      those after the merge, before anything is recorded         *)
(*  kept        if the entry still exists then                             *)
(*  news        the values recorded, in order                              *)
(*  conns       the connections made: [type, hash, usable, asks, auth,     *)
(*              cmds], asks the questions [type, hash, a]; auth if any     *)
(*              credentials were sent, cmds the commands run               *)
(*  stray       questions about no host that was connected to              *)
(***************************************************************************)
EXTENDS HostKeys, Json, TLC

Traces == ndJsonDeserialize("traces.ndjson")

VARIABLE tid
If(b, what) == IF b THEN {what} ELSE {}
Ans(c) == IF c.asks = <<>> THEN "" ELSE c.asks[1].a
Confirmed(known, e, c) == Decide(known, e.host, c.type, c.hash) = "ask" /\ Yes(Ans(c))
L(e, c) == Line(e.host, e.addr, c.type, c.hash)
Conn(known, e, c) ==
  LET d == Decide(known, e.host, c.type, c.hash)
      go == Goes(known, e.host, c.type, c.hash, Ans(c)) IN
  If((c.auth \/ c.cmds # <<>>) /\ ~(go /\ c.usable), "talked")
  \cup If(go /\ c.usable /\ ~c.auth, "silent")
  \cup If(c.usable /\ c.asks # <<>> /\ d # "ask", "asked")
  \cup If(c.usable /\ c.asks = <<>> /\ d = "ask", "not-asked")
  \cup If(~c.usable /\ c.asks # <<>>, "asked")
  \cup If(Len(c.asks) > 1, "asked-twice")
  \cup If(\E i \in 1..Len(c.asks) : c.asks[i].type # c.type \/ c.asks[i].hash # c.hash \/ c.asks[i].addr # e.addr, "shown")
Judge(e) ==
  LET one == IF Len(e.conns) >= 1 THEN e.conns[1] ELSE [asks |-> <<>>]
      p1 == Len(e.conns) >= 1 /\ one.usable /\ Confirmed(e.before, e, one)
      k1 == IF p1 THEN Record(e.merged, L(e, one)) ELSE e.merged
      p2 == Len(e.conns) >= 2 /\ e.conns[2].usable /\ Confirmed(k1, e, e.conns[2])
      k2 == IF p2 THEN Record(k1, L(e, e.conns[2])) ELSE k1
      want == IF e.kept THEN (IF p1 THEN <<k1>> ELSE <<>>) \o (IF p2 THEN <<k2>> ELSE <<>>) ELSE <<>>
  IN (IF Len(e.conns) >= 1 THEN Conn(e.before, e, one) ELSE {})
     \cup (IF Len(e.conns) >= 2 THEN Conn(k1, e, e.conns[2]) ELSE {})
     \cup If(Len(e.conns) > 2, "connections") \cup If(e.stray, "asked")
     \cup If(e.crash, "crash")
     \cup If(~e.crash /\ e.news # want, "recorded")
Report(i, w) == w # {} => PrintT(<<"@@", ToJson([tid |-> tid, at |-> i, w |-> w])>>)
TInit == tid \in 1..Len(Traces) /\ \A i \in 1..Len(Traces[tid].t) : Report(i, Judge(Traces[tid].t[i]))
TNext == FALSE /\ UNCHANGED tid
=============================================================================
