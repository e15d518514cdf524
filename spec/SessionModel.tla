---------------------------- MODULE SessionModel ----------------------------
(* The permitted client, explored by TLC: every scenario of up to MaxTables      *)
(* tables and MaxPlan statements, with the server refusing at every point.        *)
EXTENDS Session
CONSTANTS MaxTables, MaxPlan
VARIABLES sc, s, left, applied, durable     \* left: requests until the server refuses (0: never)
vars == <<sc, s, left, applied, durable>>
TableSeqs == { [i \in 1..n |-> <<"a", "b", "c">>[i]] : n \in 0..MaxTables }
Init == /\ sc \in [cmd : {"plan", "apply", "check"}, tables : TableSeqs, asked : {<<>>, <<"a">>, <<"b">>, <<"a", "z">>}, plan : { [i \in 1..n |-> i] : n \in 0..MaxPlan }, kinds : {<<>>}, bad : {"", "files", "live"}]
        /\ sc.bad # "" => sc.plan = <<>>
        /\ s = Start /\ left \in 0..(2 + 2 * MaxTables + MaxPlan) /\ applied = <<>> /\ durable = <<>>
Entry(q, t, id) == [q |-> q, t |-> t, id |-> id, ok |-> left # 1]
Act(e) == /\ s' = Step(sc, s, e)
          /\ left' = IF left > 0 THEN left - 1 ELSE 0
          /\ applied' = IF e.q = "change" /\ e.ok THEN Append(applied, e.id) ELSE applied
          /\ durable' = IF e.q = "commit" /\ e.ok THEN applied ELSE durable
          /\ UNCHANGED sc
Going == s.phase \in {"reading", "changing"} /\ sc.cmd # "check"
Read == sc.bad # "files" /\ s.phase = "reading" /\ Going
Ready == Going /\ (sc.bad # "" \/ (s.listed /\ Len(s.seen) = Len(sc.tables) /\ \A i \in DOMAIN sc.asked : InSeq(sc.asked[i], sc.tables) => InSeq(sc.asked[i], s.selected)))
Next == \/ Read /\ ~s.listed /\ Act(Entry("tables", "", 0))
        \/ \E i \in DOMAIN sc.tables : Read /\ s.listed /\ ~InSeq(sc.tables[i], s.seen) /\ Act(Entry("create", sc.tables[i], 0))
        \/ \E i \in DOMAIN sc.asked : Read /\ InSeq(sc.asked[i], s.seen) /\ ~InSeq(sc.asked[i], s.selected) /\ Act(Entry("rows", sc.asked[i], 0))
        \/ sc.cmd = "apply" /\ sc.bad = "" /\ Ready /\ s.sent < Len(sc.plan) /\ Act(Entry("change", "", sc.plan[s.sent + 1]))
        \/ sc.cmd = "apply" /\ Ready /\ s.sent = Len(sc.plan) /\ Act(Entry("commit", "", 0))
\* the permitted client is permitted
NoFault == s.why = ""
\* all or nothing survives, and only whole plans are committed
AllOrNothing == durable = <<>> \/ durable = sc.plan
NothingAfterRefusal == s.phase = "failed" => durable = <<>>
OnlyApplyChanges == sc.cmd # "apply" => applied = <<>>
Honest == s.phase = "done" => durable = sc.plan /\ EndFaults(sc, s, [raised |-> FALSE, success |-> TRUE, list |-> sc.plan, errors |-> IF sc.bad = "" THEN 0 ELSE 1]) = {}
\* a client that skips, repeats or exchanges statements, or commits early, is told so
Strict == (s.phase \in {"reading", "changing"} /\ sc.cmd = "apply" /\ s.sent < Len(sc.plan)) =>
            /\ Step(sc, s, [q |-> "commit", t |-> "", id |-> 0, ok |-> TRUE]).why # ""
            /\ Step(sc, s, [q |-> "change", t |-> "", id |-> sc.plan[s.sent + 1] + 1, ok |-> TRUE]).why # ""
Spec == Init /\ [][Next]_vars
=============================================================================
