------------------------------- MODULE Edits -------------------------------
(* In-memory schemas under edits: a state machine whose state is a sequence of *)
(* table definitions and whose steps are the edits the library offers, possible *)
(* and impossible ones alike. Every step says whether it is refused and what is  *)
(* there afterwards, and everything that has to follow from that.                 *)
EXTENDS Rules, Json
CONSTANTS Mode, Depth, First
VARIABLES h, k, db, hist

\* ---- one table ---------------------------------------------------------------
Key(x) == IF x.name # "" THEN x.name ELSE x.cols[1]     \* what an index is filed under
Keys(idx) == {Key(x) : x \in Rng(idx)}
Replace(s, n, e) == MapI(LAMBDA j : IF s[j].name = n THEN e ELSE s[j], Len(s))
Without(s, n) == Sel(s, LAMBDA x : x.name # n)
After(s, n, e) == Flat(MapI(LAMBDA j : IF s[j].name = n THEN <<s[j], e>> ELSE <<s[j]>>, Len(s)))
Done(t) == [ok |-> TRUE, t |-> t]
Deny(t) == [ok |-> FALSE, t |-> t]
TabOp(t, o) ==
  CASE o.op = "addcol" ->
         IF o.col.name \in NameSet(t.cols) \/ (o.pos = "after" /\ o.ref \notin NameSet(t.cols)) THEN Deny(t)
         ELSE Done([t EXCEPT !.cols = CASE o.pos = "end" -> Append(@, o.col) [] o.pos = "first" -> <<o.col>> \o @ [] OTHER -> After(@, o.ref, o.col)])
    [] o.op = "chgcol" -> IF o.col.name \notin NameSet(t.cols) THEN Deny(t) ELSE Done([t EXCEPT !.cols = Replace(@, o.col.name, o.col)])
    [] o.op = "rmcol" -> IF o.name \notin NameSet(t.cols) THEN Deny(t) ELSE Done([t EXCEPT !.cols = Without(@, o.name)])
    [] o.op = "addidx" -> IF Key(o.idx) \in Keys(t.idx) THEN Deny(t) ELSE Done([t EXCEPT !.idx = Append(@, o.idx)])
    [] o.op = "chgidx" -> IF Key(o.idx) \notin Keys(t.idx) THEN Deny(t) ELSE Done([t EXCEPT !.idx = MapI(LAMBDA j : IF Key(@[j]) = Key(o.idx) THEN o.idx ELSE @[j], Len(@))])
    [] o.op = "rmidx" -> IF o.name \notin Keys(t.idx) THEN Deny(t) ELSE Done([t EXCEPT !.idx = Sel(@, LAMBDA x : Key(x) # o.name)])
    [] o.op = "addfk" -> IF o.fk.name \in NameSet(t.fks) THEN Deny(t) ELSE Done([t EXCEPT !.fks = Append(@, o.fk)])
    [] o.op = "chgfk" -> IF o.fk.name \notin NameSet(t.fks) THEN Deny(t) ELSE Done([t EXCEPT !.fks = Replace(@, o.fk.name, o.fk)])
    [] o.op = "rmfk" -> IF o.name \notin NameSet(t.fks) THEN Deny(t) ELSE Done([t EXCEPT !.fks = Without(@, o.name)])
    [] OTHER -> Deny(t)
\* ---- the database ----------------------------------------------------------------
Apply(DD, o) ==
  CASE o.op = "addtable" -> IF o.tab.name \in NameSet(DD) THEN [ok |-> FALSE, db |-> DD] ELSE [ok |-> TRUE, db |-> Append(DD, o.tab)]
    [] o.op = "rmtable" -> IF o.t \notin NameSet(DD) THEN [ok |-> FALSE, db |-> DD] ELSE [ok |-> TRUE, db |-> Without(DD, o.t)]
    [] OTHER -> IF o.t \notin NameSet(DD) THEN [ok |-> FALSE, db |-> DD]
                ELSE LET r == TabOp(ByName(DD, o.t), o) IN [ok |-> r.ok, db |-> Replace(DD, o.t, r.t)]

\* ---- what follows from the content --------------------------------------------------
Shown(DD, t) ==
  [name |-> t.name, cols |-> t.cols, idx |-> t.idx, fks |-> t.fks,
   indexed |-> Sel(Names(t.cols), LAMBDA c : LeadsSeq(t.idx, c)),
   before |-> MapI(LAMBDA j : IF j = 1 THEN "" ELSE t.cols[j-1].name, Len(t.cols)),
   primary |-> Map(LAMBDA x : x.cols, Pks(t.idx)),
   unfulfilled |-> Names(Sel(t.fks, LAMBDA f : FkFault(DD, t, f) # ""))]
Snapshot(DD) == [tables |-> Map(LAMBDA t : Shown(DD, t), DD), faults |-> Faults(DD)]

\* ---- edits to choose from -------------------------------------------------------------
Op(t, o) == [t |-> t, op |-> o]
AddC(t, c, p, r) == [t |-> t, op |-> "addcol", col |-> c, pos |-> p, ref |-> r]
ChgC(t, c) == [t |-> t, op |-> "chgcol", col |-> c]
Rm(t, o, n) == [t |-> t, op |-> o, name |-> n]
Idx(t, o, x) == [t |-> t, op |-> o, idx |-> x]
Fk(t, o, f) == [t |-> t, op |-> o, fk |-> f]
AddT(tab) == [t |-> tab.name, op |-> "addtable", tab |-> tab]
EmptyT(n) == TS(n, <<>>, <<>>, <<>>)
BaseT(n) == TS(n, << AI(IdC), IntC("a"), NN(IntC("b")) >>, << PK(<<"id">>), K("ka", <<"a">>) >>, <<>>)
Starts == << <<>>, << BaseT("ta") >>,
             << TS("ta", << IdC, IntC("a"), IntC("b") >>, << PK(<<"id">>), K("ka", <<"a">>), UK("kab", <<"b", "a">>) >>, << FK("f1", "a", "tb", "id", "CASCADE", "RESTRICT") >>),
                TS("tb", << IdC, IntC("a") >>, << PK(<<"id">>) >>, <<>>) >> >>
\* the fixed choice for exhaustive histories
Menu == <<
  AddC("ta", IntC("c"), "end", ""), AddC("ta", IntC("c"), "first", ""), AddC("ta", NN(C("c", "BIGINT")), "after", "id"), AddC("ta", IntC("c"), "after", "b"), AddC("ta", IntC("c"), "after", "nowhere"), AddC("ta", IntC("a"), "end", ""), AddC("ta", IntC("a"), "first", ""),
  AddC("tb", IntC("c"), "after", "a"), AddC("nowhere", IntC("c"), "end", ""), AddC("ta", IntC("id"), "after", "a"),
  ChgC("ta", NN(IntC("a"))), ChgC("ta", L(C("a", "VARCHAR"), <<20>>)), ChgC("ta", U(IntC("a"))), ChgC("ta", IntC("c")), ChgC("tb", NN(U(IntC("id")))), ChgC("ta", NN(IntC("id"))), ChgC("ta", D(IntC("a"), Lit("x"))),
  Rm("ta", "rmcol", "a"), Rm("ta", "rmcol", "id"), Rm("ta", "rmcol", "c"), Rm("tb", "rmcol", "id"), Rm("ta", "rmcol", "b"),
  Idx("ta", "addidx", K("kn", <<"a">>)), Idx("ta", "addidx", K("kn", <<"b", "a">>)), Idx("ta", "addidx", UK("ka", <<"b">>)), Idx("ta", "addidx", K("kc", <<"c">>)), Idx("ta", "addidx", PK(<<"id">>)), Idx("ta", "addidx", PK(<<"a", "id">>)), Idx("tb", "addidx", K("ka", <<"a">>)),
  Idx("ta", "chgidx", K("ka", <<"b">>)), Idx("ta", "chgidx", UK("ka", <<"a", "b">>)), Idx("ta", "chgidx", PK(<<"id", "a">>)), Idx("ta", "chgidx", K("kn", <<"a">>)),
  Rm("ta", "rmidx", "ka"), Rm("ta", "rmidx", "id"), Rm("ta", "rmidx", "kab"), Rm("ta", "rmidx", "kn"), Rm("ta", "rmidx", "a"), Rm("tb", "rmidx", "id"),
  Fk("ta", "addfk", FK("f1", "a", "tb", "id", "RESTRICT", "RESTRICT")), Fk("ta", "addfk", FK("f2", "b", "tb", "id", "SET NULL", "RESTRICT")), Fk("tb", "addfk", FK("f1", "a", "ta", "id", "RESTRICT", "RESTRICT")), Fk("ta", "addfk", FK("f3", "a", "ta", "id", "CASCADE", "CASCADE")),
  Fk("ta", "chgfk", FK("f1", "b", "tb", "id", "CASCADE", "SET NULL")), Fk("ta", "chgfk", FK("f2", "a", "tb", "a", "CASCADE", "CASCADE")), Rm("ta", "rmfk", "f1"), Rm("ta", "rmfk", "f2"),
  AddT(BaseT("ta")), AddT(BaseT("tb")), AddT(EmptyT("tc")), Op("ta", "rmtable"), Op("tb", "rmtable"), Op("nowhere", "rmtable") >>

\* long histories: an edit drawn for a state, possible ones preferred
ColNames == << "a", "b", "c", "d", "e" >>
IdxNames == << "ka", "kb", "kc", "kd" >>
FkNs == << "f1", "f2", "f3" >>
TabNs == << "ta", "tb", "tc" >>
EditVariants == AnyVariants \o << AI(NN(IntC("x"))), IntC("x"), IntC("x"), NN(IntC("x")), D(IntC("x"), Lit("no")), U(C("x", "DATE")), V(C("x", "INT"), <<"a">>) >>
Drawn(DD, s) ==
  LET v(q) == Mix(s, q)
      t == IF DD = <<>> \/ v(1) % 25 = 0 THEN Pick(v(2), TabNs) ELSE Pick(v(2), Names(DD))
      tab == IF t \in NameSet(DD) THEN ByName(DD, t) ELSE BaseT(t)
      colname == Pick(v(3), ColNames)
      old(ns, all, q) == IF ns = <<>> \/ v(q) % 8 = 0 THEN Pick(v(q+1), all) ELSE Pick(v(q+1), ns)
      col(n) == [Pick(v(10), EditVariants) EXCEPT !.name = n]
      icols == LET a == old(Names(tab.cols), ColNames, 20)  b == old(Names(tab.cols), ColNames, 22) IN IF v(24) % 2 = 0 \/ a = b THEN <<a>> ELSE <<a, b>>
      \* the primary key is filed under its first column: kept apart from the names of other indexes
      idx(n) == CASE v(30) % 6 = 0 -> PK(icols) [] v(30) % 3 = 1 -> UK(n, icols) [] OTHER -> K(n, icols)
      rt == IF DD = <<>> \/ v(41) % 8 = 0 THEN Pick(v(42), TabNs) ELSE Pick(v(42), Names(DD))
      rtab == IF rt \in NameSet(DD) THEN ByName(DD, rt) ELSE BaseT(rt)
      fk(n) == LET a == Pick(v(40), << <<"RESTRICT", "CASCADE">>, <<"SET NULL", "RESTRICT">>, <<"CASCADE", "SET NULL">> >>)
               IN FK(n, old(Names(tab.cols), ColNames, 43), rt, old(Names(rtab.cols), ColNames, 45), a[1], a[2])
  IN CASE v(0) % 20 = 0 -> AddT([BaseT(Pick(v(50), TabNs)) EXCEPT !.cols = IF v(51) % 2 = 0 THEN @ ELSE <<>>, !.idx = IF v(52) % 2 = 0 THEN @ ELSE <<>>])
       [] v(0) % 20 = 1 -> IF v(53) % 2 = 0 THEN Op(t, "rmtable") ELSE AddT(BaseT(Pick(v(50), TabNs)))
       [] v(0) % 20 \in 2..5 -> AddC(t, col(colname), Pick(v(60), <<"end", "first", "after", "after">>), old(Names(tab.cols), ColNames, 61))
       [] v(0) % 20 \in 6..7 -> ChgC(t, col(old(Names(tab.cols), ColNames, 63)))
       [] v(0) % 20 \in 8..9 -> Rm(t, "rmcol", old(Names(tab.cols), ColNames, 65))
       [] v(0) % 20 \in 10..11 -> Idx(t, "addidx", idx(Pick(v(67), IdxNames)))
       [] v(0) % 20 = 12 -> Idx(t, "chgidx", IF v(71) % 3 = 0 /\ Pks(tab.idx) # <<>> THEN PK(<<Pks(tab.idx)[1].cols[1]>> \o (IF v(72) % 2 = 0 THEN <<>> ELSE <<Pick(v(73), ColNames)>>))
                                       ELSE LET x == idx(old(Names(NoPks(tab.idx)), IdxNames, 68)) IN IF x.kind = "PRIMARY" THEN K(old(Names(NoPks(tab.idx)), IdxNames, 68), icols) ELSE x)
       [] v(0) % 20 \in 13..14 -> Rm(t, "rmidx", old(Map(LAMBDA x : Key(x), tab.idx), IdxNames, 75))
       [] v(0) % 20 \in 15..16 -> Fk(t, "addfk", fk(Pick(v(77), FkNs)))
       [] v(0) % 20 = 17 -> Fk(t, "chgfk", fk(old(Names(tab.fks), FkNs, 78)))
       [] OTHER -> Rm(t, "rmfk", old(Names(tab.fks), FkNs, 80))

\* ---- behaviours --------------------------------------------------------------------------
Emit(o, r, id) == PrintT("@@" \o ToJson([h |-> h, hist |-> id, k |-> k + 1, op |-> o, refused |-> ~r.ok, start |-> IF k = 0 THEN db ELSE <<>>, snap |-> Snapshot(r.db)]))
Start(j) == Starts[1 + (j % Len(Starts))]
Init == /\ LoadUniverse
        /\ h \in First..Size
        /\ k = 0 /\ hist = <<>>
        /\ db = Start(h)
StepWith(o, id) == LET r == Apply(db, o) IN
  /\ db' = r.db
  /\ Emit(o, r, id)
Next == /\ k < Depth
        /\ k' = k + 1
        /\ h' = h
        /\ \/ /\ Mode = "menu"
              /\ \E m \in 1..Len(Menu) : hist' = Append(hist, m) /\ StepWith(Menu[m], Append(hist, m))
           \/ /\ Mode = "long"
              /\ hist' = hist
              /\ StepWith(Drawn(db, Seed * 509 + h * 67 + k), <<>>)
\* no name is ever there twice
Consistent == /\ ~HasDup(Names(db))
              /\ \A t \in Rng(db) : ~HasDup(Names(t.cols)) /\ ~HasDup(Map(Key, t.idx)) /\ ~HasDup(Names(t.fks))
=============================================================================
