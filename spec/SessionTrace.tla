---------------------------- MODULE SessionTrace ----------------------------
(* Judges recorded sessions: cases.json holds [sc, log, out].                    *)
EXTENDS Session
VARIABLES c, verdict
Cases == TLCGet(3)
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetSeq(S \ {x})
\* rows: what the server gave and what was made of it, [t, given: seq of [id, vals], seen: seq of [id, vals], tracking]
RowFaults(r) == (IF r.tracking THEN {} ELSE {"a table does not count as read: " \o r.t})
                \cup (IF r.given = r.seen THEN {} ELSE {"rows are not those of the server: " \o r.t})
Faults(x) == PlanFaults(x.sc) \cup EndFaults(x.sc, Played(x.sc, x.log), x.out) \cup UNION {RowFaults(x.rows[i]) : i \in DOMAIN x.rows}
Init == /\ TLCSet(3, JsonDeserialize("cases.json"))
        /\ c \in 1..Len(Cases)
        /\ verdict = <<>>
Next == /\ verdict = <<>>
        /\ verdict' = <<SetSeq(Faults(Cases[c]))>>
        /\ PrintT("@@" \o ToJson([case |-> c, faults |-> verdict'[1]]))
        /\ UNCHANGED c
=============================================================================
