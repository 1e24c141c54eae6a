------------------------------ MODULE ScpTrace ------------------------------
(***************************************************************************)
(* Judges recorded transfers by Scp.                                       *)
(*   dir "recv": line, rest, rc what the server did; fair if it took turns *)
(*   and did not hang up; clear if the connection was let be made at all   *)
(*   ok, nf, got what the program said; nofile if the line says so.        *)
(*   dir "send": answers, rc, fair the same; sline, srest what the server  *)
(*   got, whole if it took all there was; size, mode, data what was to be  *)
(*   sent; stray if the sender changed that.                               *)
(* cmd is the command run, path the file's name.                           *)
(***************************************************************************)
EXTENDS Scp, Json, TLC

Traces == ndJsonDeserialize("traces.ndjson")

VARIABLE tid
If(b, what) == IF b THEN {what} ELSE {}
Recv(e) == If(e.ok /\ ~MayAccept(e.line, e.rest, e.rc, e.got), "accepted")
           \cup If(e.fair /\ e.clear /\ ~e.ok /\ MustAccept(e.line, e.rest, e.rc), "not-accepted")
           \cup If(e.nf /\ ~(e.clear /\ Missing(e.line) /\ e.nofile), "missing")
           \cup If(e.fair /\ e.clear /\ Missing(e.line) /\ e.nofile /\ ~e.nf, "not-missing")
Send(e) == If(e.ok /\ ~(e.clear /\ MaySent(e.answers, e.rc)), "sent")
           \cup If(e.fair /\ e.clear /\ ~e.ok /\ MustSent(e.answers, e.rc), "not-sent")
           \cup If(e.ok /\ e.whole /\ ~SentRight(e.sline, e.srest, e.size, e.mode, e.data), "sent-wrong")
           \cup If(e.stray, "altered")
Judge(e) == (IF e.dir = "recv" THEN Recv(e) ELSE Send(e))
            \cup If(e.cmds # (IF e.clear THEN <<(IF e.dir = "recv" THEN "f" ELSE "t")>> ELSE <<>>), "command")
            \cup If(~e.clear /\ e.ok, "refused")
Report(i, w) == w # {} => PrintT(<<"@@", ToJson([tid |-> tid, at |-> i, w |-> w])>>)
TInit == tid \in 1..Len(Traces) /\ \A i \in 1..Len(Traces[tid].t) : Report(i, Judge(Traces[tid].t[i]))
TNext == FALSE /\ UNCHANGED tid
=============================================================================
