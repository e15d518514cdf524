------------------------------ MODULE Session ------------------------------
(* A session of the tool with the server: what is asked, what is sent, where    *)
(* the server refuses, and how the command ends. Step is the protocol; the      *)
(* permitted client is explored by TLC in SessionModel, recorded sessions of     *)
(* the real code are judged in SessionTrace.                                      *)
(* scenario: [cmd: "read" | "plan" | "apply" | "check", tables: seq of names,    *)
(*   asked: seq of tables whose rows may be read, plan: seq of statement ids,     *)
(*   kinds: per statement [k: "off" | "on" | "row" | "schema", t: table],          *)
(*   bad: "" | "files" | "live", fails: BOOLEAN (the server refuses something)]    *)
(* entry: [q: "tables" | "create" | "rows" | "change" | "commit" | "rollback" |    *)
(*   "close", t: table, id: statement, ok: BOOLEAN]                                 *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, Fold

InSeq(x, s) == \E i \in DOMAIN s : s[i] = x
Start == [phase |-> "reading", listed |-> FALSE, seen |-> <<>>, selected |-> <<>>, sent |-> 0, why |-> ""]
Wrong(s, why) == IF s.why # "" THEN s ELSE [s EXCEPT !.why = why]
Refused(s) == [s EXCEPT !.phase = "failed"]
Step(sc, s, e) ==
  IF s.why # "" THEN s
  ELSE IF e.q \in {"rollback", "close"} THEN s
  ELSE IF s.phase = "failed" THEN Wrong(s, "goes on after the server has refused")
  ELSE IF s.phase = "done" THEN Wrong(s, "goes on after the commit")
  ELSE IF e.q = "tables" THEN (IF s.listed THEN Wrong(s, "asks for the tables twice") ELSE IF e.ok THEN [s EXCEPT !.listed = TRUE] ELSE Refused(s))
  ELSE IF e.q = "create" THEN
    (IF ~InSeq(e.t, sc.tables) THEN Wrong(s, "asks for a table that is not there")
     ELSE IF InSeq(e.t, s.seen) THEN Wrong(s, "asks for a table twice")
     ELSE IF e.ok THEN [s EXCEPT !.seen = Append(@, e.t)] ELSE Refused(s))
  ELSE IF e.q = "rows" THEN
    (IF ~(InSeq(e.t, sc.asked) /\ InSeq(e.t, sc.tables)) THEN Wrong(s, "reads the rows of a table it does not manage")
     ELSE IF e.ok THEN [s EXCEPT !.selected = Append(@, e.t)] ELSE Refused(s))
  ELSE IF e.q = "change" THEN
    (IF sc.cmd # "apply" THEN Wrong(s, "changes something although it should only read")
     ELSE IF sc.bad # "" THEN Wrong(s, "changes something although there are errors")
     ELSE IF s.sent + 1 > Len(sc.plan) THEN Wrong(s, "sends more than planned")
     ELSE IF sc.plan[s.sent + 1] # e.id THEN Wrong(s, "sends something else than planned, or in another order")
     ELSE IF e.ok THEN [s EXCEPT !.sent = @ + 1, !.phase = "changing"] ELSE Refused([s EXCEPT !.sent = @ + 1]))
  ELSE IF e.q = "commit" THEN
    (IF sc.cmd # "apply" THEN Wrong(s, "commits although it should only read")
     ELSE IF s.sent # Len(sc.plan) THEN Wrong(s, "commits before everything is sent")
     ELSE IF e.ok THEN [s EXCEPT !.phase = "done"] ELSE Refused(s))
  ELSE Wrong(s, "sends something unknown")

\* ---- the shape of a plan -----------------------------------------------------------------
PlanFaults(sc) ==
  LET n == Len(sc.kinds) IN
  IF n = 0 THEN {}
  ELSE (IF n >= 2 /\ sc.kinds[1].k = "off" /\ sc.kinds[n].k = "on" /\ (\A i \in 2..(n - 1) : sc.kinds[i].k \notin {"off", "on"}) THEN {} ELSE {"the plan is not bracketed by switching foreign key checks off and on"})
       \cup (IF \E i \in DOMAIN sc.kinds : sc.kinds[i].k = "row" /\ ~InSeq(sc.kinds[i].t, sc.asked) THEN {"rows are planned for a table without declared rows"} ELSE {})
       \cup (IF sc.bad # "" THEN {"something is planned although there are errors"} ELSE {})
       \cup (IF n = 2 THEN {"only the bracket is planned"} ELSE {})

\* ---- how a command may end: out = [raised, success, list: seq of ids, errors: number of errors shown] -----
EndFaults(sc, s, out) ==
  IF s.why # "" THEN {s.why}
  ELSE IF s.phase = "failed" THEN (IF out.raised \/ ~out.success THEN {} ELSE {"the refusal of the server is swallowed"})
  ELSE IF out.raised THEN {"the command fails without need"}
  ELSE (CASE sc.cmd = "read" ->
             (IF ~s.listed \/ Len(s.seen) # Len(sc.tables) THEN {"not all tables are read"} ELSE {})
             \cup (IF \A i \in DOMAIN sc.asked : InSeq(sc.asked[i], s.selected) THEN {} ELSE {"rows are not read"})
             \cup (IF sc.bad = "live" /\ out.errors = 0 THEN {"a definition that cannot be read is not reported"} ELSE {})
        [] sc.cmd = "check" -> (IF out.success = (sc.bad = "files") \/ (out.errors > 0) # (sc.bad = "files") THEN {"check reports the wrong result"} ELSE {})
        [] sc.cmd \in {"plan", "apply"} ->
             (IF sc.bad = "" /\ (~s.listed \/ Len(s.seen) # Len(sc.tables)) THEN {"not all tables are read"} ELSE {})
             \cup (IF sc.bad = "" /\ \E i \in DOMAIN sc.asked : InSeq(sc.asked[i], sc.tables) /\ ~InSeq(sc.asked[i], s.selected) THEN {"managed rows are not read"} ELSE {})
             \cup (IF sc.bad # "" THEN (IF out.errors = 0 THEN {"errors are not shown"} ELSE {}) \cup (IF out.list # <<>> THEN {"something is planned although there are errors"} ELSE {})
                   ELSE IF out.list = sc.plan THEN {} ELSE {"what is reported is not the plan"})
             \cup (IF sc.cmd = "apply" /\ sc.bad = "" /\ s.phase # "done" THEN {"ends without a commit"} ELSE {}))
Played(sc, log) == FoldS(LAMBDA s, e : Step(sc, s, e), Start, log)
=============================================================================
