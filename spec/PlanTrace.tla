----------------------------- MODULE PlanTrace -----------------------------
(* Executes what the implementation planned on the server model. A case names  *)
(* a live schema (one of the universe, or what is left of it after the first    *)
(* statements of an earlier plan, i.e. after a crash), a declared schema and    *)
(* the planned statements. Every case is a behaviour of the server: one state   *)
(* per statement. The verdict on a case names what it violates.                 *)
EXTENDS Universe, Json
VARIABLES c, k, db, err

Cases == TLCGet(3)
Stmts == TLCGet(4)
Case == Cases[c]
Plan == Case.plan
Pre(cs) == RunAll([Stamp(IF cs.live = 0 THEN EmptyDb ELSE Stored[cs.live]) EXCEPT !.fkc = FALSE], Map(LAMBDA x : Stmts[x], cs.pre))
\* a crash ends the session: the next one has foreign key checks switched on; a plan
\* that was asked for without SET statements runs where the caller has switched them off
Start(cs) == LET r == Pre(cs) IN [Stamp(r.states[Len(r.states)]) EXCEPT !.fkc = cs.mode # "none"]
Decls == Norm(Dbs[Case.decl])
Want == Stored[Case.decl]
IsSet(x) == Stmts[x].t = "fkc"
Body == Sel(Plan, LAMBDA x : ~IsSet(x))
\* "none": no SET statement at all; "own": off at the very start, on at the very end
Bracketed ==
  \/ Case.mode = "none" /\ \A x \in Rng(Plan) : ~IsSet(x)
  \/ /\ Case.mode = "own" /\ Len(Plan) >= 2
     /\ Stmts[Plan[1]] = [t |-> "fkc", on |-> FALSE] /\ Stmts[Plan[Len(Plan)]] = [t |-> "fkc", on |-> TRUE]
     /\ \A i \in 2..(Len(Plan) - 1) : ~IsSet(Plan[i])

Init == /\ LoadUniverse
        /\ TLCSet(3, JsonDeserialize("cases.json"))
        /\ TLCSet(4, JsonDeserialize("stmts.json"))
        /\ c \in 1..Len(Cases)
        /\ k = 0
        /\ db = Start(Cases[c])
        /\ err = ""

Step == /\ err = "" /\ k < Len(Plan)
        /\ LET r == Exec(db, Stmts[Plan[k + 1]])
           IN /\ db' = r.db
              /\ err' = r.err
              /\ IF Case.crash = "" \/ r.err # "" \/ IsSet(Plan[k + 1]) THEN TRUE
                 ELSE PrintT("@@" \o ToJson([crash |-> c, k |-> k + 1, show |-> Show(r.db, Case.crash)]))
        /\ k' = k + 1
        /\ UNCHANGED c

Verdict ==
  LET live == Start(Case)
      before == Diff(live, Decls, live)
  IN [case |-> c, err |-> err, at |-> k,
      bracket |-> Bracketed,
      diff |-> SeqOfSet(IF err = "" THEN Diff(db, Decls, live) ELSE {}),
      needless |-> SeqOfSet(UNION {StmtNeedless(live, Want, Decls, Stmts[x]) : x \in Rng(Plan)}),
      lost |-> SeqOfSet(IF err = "" THEN Lost(db, live, Want) ELSE {}),
      matched |-> before = {}, planned |-> Len(Body)]
Good(v) == v.err = "" /\ v.bracket /\ v.diff = <<>> /\ v.needless = <<>> /\ v.lost = <<>> /\ (v.matched => v.planned = 0)

Judge == /\ err # "" \/ k = Len(Plan)
         /\ k' = -1
         /\ LET v == Verdict IN PrintT("@@" \o ToJson(IF Good(v) THEN [case |-> c, good |-> TRUE, matched |-> v.matched] ELSE v))
         /\ UNCHANGED <<c, db, err>>
Next == k >= 0 /\ (Step \/ Judge)
=============================================================================
