--------------------------- MODULE TransferTrace ---------------------------
(***************************************************************************)
(* Judges recorded imports and exports by module Transfer.  Events:        *)
(*  import [existed, lp, asked, ans, rc, old, new, kept, same, opens]      *)
(*    old, new: the entries before, and those only there after; kept: the  *)
(*    earlier history is still there as it was; same: the file is          *)
(*    unchanged; opens: everybody who could open it before still can       *)
(*  export [fmt, fine, rc, ents, fresh, private, read, head, rows, same]   *)
(*    fine: the target can be written; fresh: it did not exist; private:   *)
(*    nobody else may read it; read: it is a table [head, rows]            *)
(***************************************************************************)
EXTENDS Transfer, TLC, Json

Traces == ndJsonDeserialize("traces.ndjson")
Tables == JsonDeserialize("tables.json")
Lc(c) == IF c \in DOMAIN Tables THEN Tables[c] ELSE c

VARIABLES tid, at
vars == <<tid, at>>
Init == tid \in 1..Len(Traces) /\ at = 0
Wrong(w) == IF w = {} THEN TRUE ELSE PrintT(<<"@@", ToJson([tid |-> tid, at |-> at + 1, w |-> w])>>)

Judge(e) ==
  CASE e.k = "import" ->
         IF Goes(e.lp, e.existed, e.ans)
         THEN (IF e.existed /\ e.asked = 0 THEN {"not-asked"} ELSE {})
              \cup (IF e.rc = 0 THEN {} ELSE {"status"}) \cup (IF e.kept THEN {} ELSE {"earlier-changed"})
              \cup (IF e.opens THEN {} ELSE {"locked-out"})
              \cup ImportFaults(e.old, e.new, e.lp.rows)
         ELSE (IF e.same THEN {} ELSE {"file-changed"})
              \cup (IF e.rc = 0 /\ ~(e.existed /\ e.ans \notin {"y", "Y", "<EOF>", "<INT>"}) THEN {"status"} ELSE {})
    [] e.k = "export" ->
    (IF e.same THEN {} ELSE {"file-changed"})
    \cup IF e.fmt # "CSV" \/ ~e.fine THEN (IF e.rc = 0 THEN {"status"} ELSE {})
         ELSE (IF e.rc = 0 THEN {} ELSE {"status"})
              \cup (IF e.fresh /\ ~e.private THEN {"readable"} ELSE {})
              \cup (IF e.read THEN ExportFaults(e.ents, e.head, e.rows) ELSE {"not-a-table"})

Step == /\ at < Len(Traces[tid].t)
        /\ at' = at + 1 /\ tid' = tid
        /\ Wrong(Judge(Traces[tid].t[at + 1]))
Next == Step
Spec == Init /\ [][Next]_vars
=============================================================================
