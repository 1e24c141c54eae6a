------------------------------ MODULE ScpModel ------------------------------
(***************************************************************************)
(* Both ends of a transfer taking turns, one of them deviating from the    *)
(* protocol at any point, a disk being full or the connection breaking.    *)
(* In "recv" the other side is a source, in "send" a sink.                 *)
(***************************************************************************)
EXTENDS Scp, Json, TLC

CONSTANTS Dir,      \* "recv" or "send"
          MaxOut,   \* how much the other side says
          Acks      \* how many answers a sender waits for (3; 1 as a negative control)

Lines == {<<67, 48, 54, 48, 48, 32, 48 + n, 32, 102, 10>> : n \in 0..2}               \* C0600 n f
         \cup {<<67, 48, 54, 48, 48, 32, 45, 49, 32, 102, 10>>, <<67, 48, 54, 48, 48, 32, 49, 10>>,
               <<67, 48, 57, 32, 49, 32, 102, 10>>, <<1, 110, 10>>, <<2, 110, 10>>, <<68, 48, 10>>, <<10>>,
               <<67, 48, 54, 48, 48, 32, 49, 32, 102>>}
Bytes == {97, 0, 10}

VARIABLES line, rest, rc,   \* what the other side said, and how it ended (9 not yet)
          cpc, got, res,    \* the program: where it is, what it has, what it says
          spc, stored, full, hist
vars == <<line, rest, rc, cpc, got, res, spc, stored, full, hist>>

Data == <<<<1, 97>>, <<1, 10>>>>

Init == /\ line = <<>> /\ rest = <<>> /\ rc = 9 /\ got = <<>> /\ res = "" /\ stored = <<>> /\ hist = <<>>
        /\ cpc = (IF Dir = "recv" THEN "line" ELSE "ack1")
        /\ spc = "start"
        /\ full \in (IF Dir = "send" THEN {TRUE, FALSE} ELSE {FALSE})

(* -------- the other side *)
Says(x) == hist' = Append(hist, x)
SourceLine == /\ Dir = "recv" /\ spc = "start" /\ \E l \in Lines : line' = l /\ Says([line |-> l])
              /\ spc' = "body" /\ UNCHANGED <<rest, rc, cpc, got, res, stored, full>>
SourceByte == /\ Dir = "recv" /\ spc = "body" /\ Ended(line) /\ Len(rest) < MaxOut
              /\ \E b \in Bytes : rest' = Append(rest, <<1, b>>) /\ Says([byte |-> b])
              /\ UNCHANGED <<line, rc, cpc, got, res, spc, stored, full>>
End == /\ rc = 9 /\ \E x \in {0, 1, -1, -2} : rc' = x /\ Says([rc |-> x])
       /\ UNCHANGED <<line, rest, cpc, got, res, spc, stored, full>>
(* A sink answers three times: at the start, to the line, to the contents. *)
(* It does not claim to have stored what it could not.                     *)
SinkSay(at, next, due) == /\ Dir = "send" /\ rc = 9 /\ spc = at /\ due /\ spc' = next
                          /\ \E a \in {0, 1, 2, 67} :
                               /\ (next = "3" /\ a = 0) => ~full
                               /\ stored' = (IF next = "3" /\ a = 0 THEN got ELSE stored)
                               /\ rest' = Append(rest, <<1, a>>) /\ Says([ack |-> a])
                          /\ UNCHANGED <<line, rc, cpc, got, res, full>>
Sink == SinkSay("start", "1", TRUE) \/ SinkSay("1", "2", line # <<>>) \/ SinkSay("2", "3", got # <<>>)

(* -------- the program *)
Fail == res' = "err" /\ cpc' = "done"
Over == rc # 9
Recv ==
  /\ Dir = "recv" /\ UNCHANGED <<line, rest, rc, spc, stored, full, hist>>
  /\ \/ /\ cpc = "line" /\ (Ended(line) \/ Over)
        /\ IF Ended(line) /\ Readable(line) THEN cpc' = "body" /\ UNCHANGED res ELSE Fail
        /\ UNCHANGED got
     \/ /\ cpc = "body" /\ Len(got) < Announced(line) /\ Len(rest) > Len(got)
        /\ got' = Append(got, rest[Len(got) + 1]) /\ UNCHANGED <<cpc, res>>
     \/ /\ cpc = "body" /\ Len(got) = Announced(line) /\ Len(rest) > Len(got)
        /\ IF rest[Len(got) + 1] = <<1, 0>> THEN cpc' = "status" /\ UNCHANGED res ELSE Fail
        /\ UNCHANGED got
     \/ /\ cpc = "body" /\ Over /\ Len(rest) = Len(got) /\ Fail /\ UNCHANGED got
     \/ /\ cpc = "status" /\ Over /\ (IF rc = 0 THEN res' = "ok" /\ cpc' = "done" ELSE Fail) /\ UNCHANGED got
Answer(n, next, write(_)) ==
  /\ cpc = "ack" \o ToString(n)
  /\ IF Len(rest) >= n THEN IF rest[n][2] = 0 THEN cpc' = next /\ res' = res /\ write(TRUE) ELSE Fail /\ write(FALSE)
     ELSE Over /\ Fail /\ write(FALSE)
WLine(y) == line' = (IF y THEN <<67>> ELSE line) /\ UNCHANGED got
WData(y) == got' = (IF y THEN Data ELSE got) /\ UNCHANGED line
WBoth(y) == IF y THEN line' = <<67>> /\ got' = Data ELSE UNCHANGED <<line, got>>
WNone(y) == UNCHANGED <<line, got>>
Send ==
  /\ Dir = "send" /\ UNCHANGED <<rest, rc, spc, stored, full, hist>>
  /\ \/ IF Acks = 3 THEN Answer(1, "ack2", WLine) ELSE Answer(1, "status", WBoth)
     \/ Answer(2, "ack3", WData)
     \/ Answer(3, "status", WNone)
     \/ cpc = "status" /\ Over /\ (IF rc = 0 THEN res' = "ok" /\ cpc' = "done" ELSE Fail) /\ UNCHANGED <<line, got>>

Next == (rc = 9 /\ SourceLine) \/ (rc = 9 /\ SourceByte) \/ End \/ Sink \/ Recv \/ Send
Spec == Init /\ [][Next]_vars
View == <<line, rest, rc, cpc, got, res, spc, stored, full>>

Answers == [i \in 1..Len(rest) |-> rest[i][2]]
Exact == (Dir = "recv" /\ res = "ok") => MayAccept(line, rest, rc, got)
Accepts == (Dir = "recv" /\ res = "err") => ~MustAccept(line, rest, rc)
Acked == (Dir = "send" /\ res = "ok") => MaySent(Answers, rc)
Stored == (Dir = "send" /\ res = "ok") => stored = Data
Sends == (Dir = "send" /\ res = "err") => ~MustSent(Answers, rc)
(* However it ends, the program says something. *)
Decides == Over /\ ~ENABLED (Recv \/ Send) => res # ""

MEmit == PrintT(<<"@@", ToJson([dir |-> Dir, h |-> hist])>>)
MEnd == Over => PrintT(<<"@@", ToJson([dir |-> Dir, h |-> hist])>>)
=============================================================================
