--------------------------- MODULE SyncEntryModel ---------------------------
(***************************************************************************)
(* The wizard for sync entries, one answer after the other, and the syncs  *)
(* that follow the entries there are.  Bug stands for mistakes that the    *)
(* properties have to notice.                                              *)
(***************************************************************************)
EXTENDS SyncEntry, FiniteSets, Json, TLC

CONSTANTS Kinds, Small, MaxAnswers, MaxEntries, Bug

Texts == IF Small THEN {<<97>>, <<58>>} ELSE {<<>>, <<97>>, <<58>>, <<64, 37>>, <<47, 50>>}
Paths == IF Small THEN {<<97>>, <<47, 97>>} ELSE {<<>>, <<97>>, <<47, 97>>, <<46, 46, 47, 35>>, <<37, 52, 49>>, <<63>>}

Cwd == <<Slash, 100>>
VARIABLES store, dlg, asked, seen, hist
vars == <<store, dlg, asked, seen, hist>>
Idle == [Start("ftp") EXCEPT !.q = "idle"]
Init == store = <<>> /\ dlg = Idle /\ asked = <<>> /\ seen = <<>> /\ hist = <<>>

Text(t) == [t |-> t, stop |-> FALSE, shown |-> <<120>>]
Choices(q) == CASE q \in {"user", "host"} -> Texts
                [] q = "path" -> Paths
                [] q = "port" -> {<<>>, <<50>>, <<43, 50>>, <<48>>, <<120>>, <<55, 48, 48, 48, 48>>}
                [] q = "key" -> {<<49>>, <<51>>, <<52>>, <<>>}
                [] q = "pw" -> {Y, M, <<>>}
                [] q \in {"new", "verify"} -> {t \in Texts : t # <<>>}
                [] OTHER -> {}

Begin(k) == /\ dlg = Idle /\ Len(hist) < MaxEntries
            /\ dlg' = Start(k) /\ asked' = <<>> /\ UNCHANGED <<store, seen, hist>>

(* What is stored as the url, rightly or wrongly. *)
Raw(o) == IF o.kind = "file" THEN File \o <<Colon, Slash, Slash>> \o o.path
          ELSE Scp \o <<Colon, Slash, Slash>> \o o.user \o (IF o.pass = <<>> THEN <<>> ELSE <<Colon>> \o o.pass) \o <<At>>
               \o o.host \o <<Colon>> \o Decimal(o.port) \o <<Slash>> \o o.path
Kept(o) == IF Bug = "raw" THEN Raw(o)
           ELSE IF Bug = "slash" /\ o.kind = "scp" /\ o.path[1] = Slash THEN Url([o EXCEPT !.path = Tail(o.path)])
           ELSE Url(o)
Take(a) ==
  /\ dlg # Idle /\ ~Over(dlg) /\ Len(asked) < MaxAnswers
  /\ LET d == IF Bug = "port" /\ dlg.q = "port" /\ ~a.stop /\ a.t # <<>> /\ ~IsPort(a.t)
              THEN [dlg EXCEPT !.q = "path", !.o.port = 7] ELSE Answer(dlg, a, Cwd) IN
     /\ dlg' = d
     /\ asked' = Append(asked, [q |-> dlg.q] @@ a)
     /\ store' = IF Bug = "early" /\ d.q = "key" /\ dlg.q = "path" THEN Append(store, [url |-> Kept(d.o), key |-> d.key])
                 ELSE store
     /\ UNCHANGED <<seen, hist>>
End == /\ dlg # Idle /\ Over(dlg)
       /\ store' = IF dlg.q = "done" THEN Append(store, [url |-> Kept(dlg.o), key |-> dlg.key]) ELSE store
       /\ hist' = Append(hist, [kind |-> dlg.kind, asked |-> asked])
       /\ dlg' = Idle /\ asked' = <<>> /\ UNCHANGED seen
Sync(i) == /\ dlg = Idle /\ i \in 1..Len(store) /\ Len(seen) < MaxEntries
           /\ seen' = Append(seen, [i |-> i, at |-> Place(store[i].url)])
           /\ UNCHANGED <<store, dlg, asked, hist>>
Next == (\E k \in Kinds : Begin(k)) \/ (\E t \in Choices(dlg.q) : Take(Text(t))) \/ Take([t |-> <<>>, stop |-> TRUE, shown |-> <<>>])
        \/ End \/ (\E i \in 1..MaxEntries : Sync(i))
Spec == Init /\ [][Next]_vars

(* ---- what holds *)
Results == [i \in DOMAIN hist |-> Wizard(hist[i].kind, hist[i].asked, Cwd)]
Done == SelectSeq(Results, LAMBDA r : r.q = "done")
(* an entry for every wizard that was gone through, and for no other *)
Entries == Len(store) = Len(Done)
(* each leads to the place that was entered *)
Leads == \A i \in DOMAIN store : i <= Len(Done) => Place(store[i].url) = Done[i].o
Syncs == \A i \in DOMAIN seen : seen[i].i <= Len(Done) => seen[i].at = Done[seen[i].i].o
(* with all that it takes to go there *)
Usable == \A i \in DOMAIN store : LET p == Place(store[i].url) IN
            p.kind = "scp" => p.user # <<>> /\ p.host # <<>> /\ p.port \in 1..65535 /\ p.path # <<>>
AsDue == \A i \in DOMAIN hist : Due(Start(hist[i].kind), hist[i].asked, Cwd)
(* one url for each place *)
OneToOne == \A i, j \in DOMAIN store : i <= Len(Done) /\ j <= Len(Done) /\ store[i].url = store[j].url => Done[i].o = Done[j].o
Clean == \A i \in DOMAIN Done : Done[i].kind = "file" =>
           /\ Done[i].o.path[1] = Slash
           /\ Absolute(Cwd, Done[i].o.path) = Done[i].o.path
Emit == dlg = Idle /\ Len(hist) = MaxEntries /\ seen = <<>> => PrintT(<<"@@", ToJson(hist)>>)
Compact == seen = <<>>
=============================================================================
