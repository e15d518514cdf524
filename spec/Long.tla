------------------------------- MODULE Long -------------------------------
(* C18: how long a source is makes no difference.  A source is a few runs of equal pieces *)
(* (comments, statements with one row each, one statement with many rows), a table at        *)
(* some place; the reader goes through it piece by piece and at the end everything has to     *)
(* be there: either all of it, or an error has been reported.                                  *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS SIZES
VARIABLES source, at, tables, rows
Kinds == {"dashes", "hash", "block", "insert", "rows"}
Runs == [kind : Kinds, n : SIZES]
Table == [kind |-> "create", n |-> 1]
NoTable == [kind |-> "create", n |-> 0]
Sources == {<<r, Table>> : r \in Runs} \cup {<<Table, r>> : r \in Runs}
           \cup {<<Table, r, Table>> : r \in Runs}
           \cup {<<Table, [kind |-> "insert", n |-> 3], [kind |-> k, n |-> n], [kind |-> "insert", n |-> 2]>> : k \in Kinds, n \in SIZES}
Init == source \in Sources /\ at = 1 /\ tables = 0 /\ rows = 0
Read == /\ at <= Len(source)
        /\ LET r == source[at] IN
           /\ tables' = tables + (IF r.kind = "create" THEN r.n ELSE 0)
           /\ rows' = rows + (IF r.kind \in {"insert", "rows"} THEN r.n ELSE 0)
        /\ at' = at + 1 /\ UNCHANGED source
        /\ IF at' <= Len(source) THEN TRUE ELSE PrintT("@@" \o ToJson([source |-> source, tables |-> tables', rows |-> rows']))
Next == Read
Inv == tables <= 2 /\ rows >= 0
=============================================================================
