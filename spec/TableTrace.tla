----------------------------- MODULE TableTrace -----------------------------
(* Differences of two versions of a table, and what becomes of the first when  *)
(* they are applied to it in memory. A case names two versions by universe      *)
(* schema and table name; it brings the operations the implementation computed  *)
(* (as one list and split in three) and the table that came out both ways, as   *)
(* the statement that would create it. The server model stores that statement   *)
(* and the result has to fulfil the second version.                              *)
EXTENDS Universe, Json
VARIABLES c, verdict

Cases == TLCGet(3)
Stmts == TLCGet(4)
Old(cs) == Stored[cs.a].tables[cs.name]
Want(cs) == Stored[cs.b].tables[cs.name]
Declared(cs) == ByName(Norm(Dbs[cs.b]), cs.name)
Bag(ops) == [o \in Rng(ops) |-> Cardinality({i \in DOMAIN ops : ops[i] = o})]
Ops(xs) == Flat(Map(LAMBDA x : Stmts[x].ops, xs))
Odd(xs, name) == \E x \in Rng(xs) : Stmts[x].t # "alter" \/ Stmts[x].name # name

\* what is wrong with a table that came out
Wrong(cs, x) ==
  LET st == Stmts[x]
      r == Exec([EmptyDb EXCEPT !.fkc = FALSE], st)
      old == NameSet(Old(cs).cols)
  IN IF st.t # "create" THEN {"the result cannot be written down"}
     ELSE IF st.name # cs.name THEN {"the result has another name"}
     ELSE IF r.err # "" THEN {"the result would be refused with " \o r.err}
     ELSE LET H == r.db.tables[cs.name]  keep == old \cap NameSet(H.cols) IN
       TableDiff(H, Want(cs), Declared(cs), old)
       \cup (IF Sel(Names(Old(cs).cols), LAMBDA n : n \in keep) # Sel(Names(H.cols), LAMBDA n : n \in keep) THEN {"order of kept columns changed"} ELSE {})
Is(kinds, xs) == \A o \in Rng(Ops(xs)) : o.op \in kinds
NotIn(kinds, xs) == \A o \in Rng(Ops(xs)) : o.op \notin kinds
\* live: the first version is what the server displays; otherwise what was declared
Fulfilled(cs) == IF cs.live THEN TableDiff(Old(cs), Want(cs), Declared(cs), NameSet(Old(cs).cols)) = {}
                 ELSE Dbs[cs.a] = Dbs[cs.b]
Say(ok, what) == IF ok THEN {} ELSE {what}
Faults(cs) ==
  LET all == cs.removed \o cs.sink \o cs.fks IN
  {"list form: " \o d : d \in Wrong(cs, cs.once)} \cup {"split form: " \o d : d \in Wrong(cs, cs.parts)}
  \cup Say(~Odd(cs.list \o all, cs.name), "an operation is not an ALTER of this table")
  \cup (IF Odd(cs.list \o all, cs.name) THEN {} ELSE
          Say(Bag(Ops(cs.list)) = Bag(Ops(all)), "list and split form differ")
          \cup Say(Is({"dropfk"}, cs.removed), "the first part does not only drop foreign keys")
          \cup Say(Is({"addfk"}, cs.fks), "the last part does not only add foreign keys")
          \cup Say(NotIn({"addfk", "dropfk"}, cs.sink), "the middle part touches foreign keys"))
  \cup Say(Fulfilled(cs) => cs.list = <<>> /\ all = <<>>, "operations between equal tables")

Init == /\ LoadUniverse
        /\ TLCSet(3, JsonDeserialize("cases.json"))
        /\ TLCSet(4, JsonDeserialize("stmts.json"))
        /\ c \in 1..Len(Cases)
        /\ verdict = <<>>
Next == /\ verdict = <<>>
        /\ verdict' = <<SeqOfSet(Faults(Cases[c]))>>
        /\ PrintT("@@" \o ToJson([case |-> c, faults |-> verdict'[1], same |-> Fulfilled(Cases[c])]))
        /\ UNCHANGED c
=============================================================================
