---------------------------- MODULE SessionTrace ----------------------------
(***************************************************************************)
(* Judges recorded sessions of the real program by module Session.         *)
(*                                                                         *)
(* traces.ndjson holds one session per line: [t |-> <<event, ...>>].  Every *)
(* event is a command with what was observed of it; the history is taken   *)
(* from what was observed, so each event is judged on its own.  For every  *)
(* event that is not as Session has it the trace, the position and what    *)
(* about it is wrong are printed.                                          *)
(***************************************************************************)
EXTENDS Session, Json

Traces == ndJsonDeserialize("traces.ndjson")
Tables == JsonDeserialize("tables.json")

TLC1(c) == IF c \in DOMAIN Tables.low THEN Tables.low[c] ELSE c
TFold(k) == IF k \in DOMAIN Tables.fold THEN Tables.fold[k] ELSE k
TTotp(s) == s \in DOMAIN Tables.totp /\ Tables.totp[s]
TUrl(s) == s \in DOMAIN Tables.url /\ Tables.url[s]
TLabel(s) == \A i \in 1..Len(s) : SubSeq(s, i, i) \notin DOMAIN Tables.nolabel
TSecret(s) == IF s \in DOMAIN Tables.secret THEN Tables.secret[s] ELSE "<none>"
TWhen(s) == IF s \in DOMAIN Tables.when THEN Tables.when[s] ELSE "<none>"

TInt(s) == IF s \in DOMAIN Tables.int THEN Tables.int[s] ELSE 0
TIsInt(s) == s \in DOMAIN Tables.int

ET == INSTANCE EditTmp WITH MaxLen <- 0, Careless <- FALSE, pc <- "", file <- <<>>, at <- 0, how <- "", value <- 0, read <- 0

VARIABLES tid, l, ctx, ro, view, noclear

tvars == <<vars, tid, l, ctx, ro, view, noclear>>
Ev == Traces[tid].t[l]

If(b, what) == IF b THEN {what} ELSE {}

IsUpd(t) == t.kind = "setk" /\ t.k = "updated"
NoUpd(ch) == SelectSeq(ch, LAMBDA t : ~IsUpd(t))
Upd(ch) == {ch[i].u : i \in {i \in 1..Len(ch) : IsUpd(ch[i])}}

Same(e, t) == e.kind = t.kind /\ e.u = t.u /\ e.k = t.k
              /\ (e.v = t.v \/ e.v = "<any>" \/ (StartsWith(e.v, "<secret>") /\ e.v = "<secret>" \o Secret(t.v)))
SameChanges(exp, got) == Len(exp) = Len(got) /\ \A i \in 1..Len(exp) : \E j \in 1..Len(got) : Same(exp[i], got[j])
                         /\ \A m \in 1..Len(got) : got[m].kind = "add" => m = 1

NewOf(ch) == LET a == {i \in 1..Len(ch) : ch[i].kind = "add"} IN
             IF Cardinality(a) = 1 THEN ch[CHOOSE i \in a : TRUE].u ELSE "<new>"

(* An entry that is added must not have been there before. *)
ClipOk(exp, got) == Len(exp) = Len(got) /\ \A i \in 1..Len(exp) : got[i] \in exp[i]

SameFn(f, g) == DOMAIN f = DOMAIN g /\ \A x \in DOMAIN f : f[x] = g[x]

AfterFirstLine(s) == LET i == Index(s, "\n") IN SubSeq(s, i + 1, Len(s))

Says(r, e) ==
  CASE r.says = "no" -> e.spoke
    [] r.says = "list" -> e.sorted /\ Len(e.names) = Cardinality(r.names) /\ Range(e.names) = {Name(view, u) : u \in r.names}
    [] r.says = "value" -> \E x \in r.val : e.out = x \o "\n" \/ (Index(e.out, "\n") # 0 /\ AfterFirstLine(e.out) = x \o "\n")
    [] r.says = "show" -> ~e.parsed \/
          (/\ SameFn(Shown(r.entry, e.c), [k \in DOMAIN e.entry \ {"totp"} |-> Trim(e.entry[k])])
           /\ Has(e.entry, "totp") <=> Reads(r.entry, "totp", e.c) # {}
           /\ Has(e.entry, "totp") => e.entry["totp"] \in Reads(r.entry, "totp", e.c)
           /\ e.snaps = r.vers)
    [] r.says = "dump" -> ~e.parsed \/ SameFn(r.entry, e.entry)
    [] OTHER -> TRUE

(* Judging a command that r is the expected effect of *)
Judge(r, e) ==
  LET clips == [i \in 1..Len(e.c.pw.clips) |-> {e.c.pw.clips[i]}] \o r.clip
      v2 == After(view, e.new, 1)
      name == IF r.ctx = "" THEN "" ELSE IF v2 = BAD \/ r.ctx \notin DOMAIN v2 THEN "" ELSE Name(v2, r.ctx) IN
  If(ro /\ e.reached, "reached") \cup
  If(e.crash, "crash") \cup
  IF e.crash THEN {} ELSE
  If(e.open # (r.ends = ""), "ends") \cup
  If(~ClipOk(clips \o (IF r.ends # "" /\ ~noclear THEN <<{""}>> ELSE <<>>), e.clips), "clip") \cup
  IF e.open # (r.ends = "") THEN {}
  ELSE IF ~e.open
       THEN \* a file that cannot be saved is said to be (e.lost: the place for it is gone)
            If((e.rc = 0) # (r.ends = "exit" /\ (~e.lost \/ ro)), "rc") \cup
            If(r.ends = "exit" /\ ~ro /\ ~e.cur /\ ~e.lost, "saved") \cup
            If((r.ends # "exit" \/ ro) /\ ~e.same /\ ~e.lost, "saved")
       ELSE If(~e.pre \/ ~SameChanges(r.ch, NoUpd(e.new)), "change") \cup
            If(Upd(e.new) # r.touch, "touch") \cup
            If(\E i \in 1..Len(e.new) : ~e.new[i].fresh, "stamp") \cup
            If(v2 = BAD, "view") \cup
            If(v2 # BAD /\ (e.ctx # name \/ e.inside # (r.ctx # "")), "ctx") \cup
            If(~Says(r, e), "says") \cup
            If(e.claims /\ r.ch = <<>>, "claims") \cup
            If(r.ends = "" /\ ~ClipOk([i \in 1..Len(r.opened) |-> {r.opened[i]}], e.opened), "opened") \cup
            If(e.c.c = "edit" /\ (IF r.edits = <<>> THEN e.edobs.ran ELSE ~ET!Observed(e.edobs, r.edits[1])), "edit") \cup
            If(v2 # BAD /\ UniqueNames(view) /\ ~UniqueNames(v2), "names")

Report(w) == w # {} => PrintT(<<"@@", ToJson([tid |-> tid, at |-> l, w |-> w])>>)

Init0 == tid \in 1..Len(Traces) /\ l = 1 /\ log = <<>> /\ txp = 0 /\ ver = 0 /\ snap = Empty
         /\ ctx = "" /\ ro = FALSE /\ view = Empty /\ noclear = FALSE

(* The file is opened *)
Open ==
  /\ Ev.k = "open"
  /\ LET want == IF Ev.ro THEN Until(Ev.file, Ev.at) ELSE Ev.file IN
     Report(If(Ev.log # want, "opened") \cup If(Ev.ro /\ Ev.reached, "reached"))
  /\ log' = Ev.log /\ view' = Replay(Ev.log) /\ ro' = Ev.ro /\ noclear' = Ev.noclear /\ ctx' = ""

(* A command *)
Command ==
  /\ Ev.k = "cmd"
  /\ LET r == Do(ro, view, ctx, Ev.c, NewOf(Ev.new)) IN
     /\ Report(Judge(r, Ev))
     /\ ctx' = IF ~Ev.inside THEN "" ELSE IF r.ctx # "" THEN r.ctx ELSE ctx
  /\ log' = log \o Ev.new /\ view' = After(view, Ev.new, 1)
  /\ UNCHANGED <<ro, noclear>>

(* The completion of names offered to the user *)
Tab ==
  /\ Ev.k = "tab"
  /\ Report(If(~Ev.sorted \/ Len(Ev.names) # Cardinality(DOMAIN view) \/ Range(Ev.names) # {Name(view, u) : u \in DOMAIN view}, "names"))
  /\ UNCHANGED <<log, view, ro, ctx, noclear>>

TNext == l <= Len(Traces[tid].t) /\ l' = l + 1 /\ tid' = tid /\ (Open \/ Command \/ Tab)
         /\ txp' = 0 /\ ver' = Len(log') /\ snap' = view'

(* All traces were judged to their end. *)
Reach == TLCGet(tid) < l => TLCSet(tid, l)
ASSUME \A i \in 1..Len(Traces) : TLCSet(i, 0)
Accepted == \A i \in 1..Len(Traces) :
              TLCGet(i) > Len(Traces[i].t) \/ PrintT(<<"@@", ToJson([tid |-> i, at |-> TLCGet(i), w |-> {"stuck"}])>>)
=============================================================================
