-------------------------------- MODULE Read --------------------------------
(* What reading a table definition has to yield, as a normal form common to    *)
(* declarations, to what a server displays, and to what was observed on the    *)
(* objects of the real code.                                                    *)
EXTENDS Universe

\* the normal form of a table definition (a create statement, default "raw" allowed)
PkCols(idx) == UNION {Rng(idx[i].cols) : i \in {j \in DOMAIN idx : idx[j].kind = "PRIMARY"}}
MeanCol(c, pk) ==
  LET ty == TypeOf(c.ty)  len == LenOf(c.ty, c.len) IN
  [name |-> c.name, ty |-> ty, len |-> len,
   nul |-> IF c.nul = "NOT NULL" \/ c.ai \/ c.name \in pk THEN "NOT NULL" ELSE "NULL",
   un |-> c.un, ai |-> c.ai,
   def |-> StoreDef(ty, len, IF c.def.k = "raw" THEN [c.def EXCEPT !.k = "lit"] ELSE c.def),
   vals |-> c.vals, cs |-> c.cs, co |-> c.co]
MeanIdx(x) == IF x.kind = "PRIMARY" THEN [x EXCEPT !.name = "PRIMARY"] ELSE x
Mean(t) == [name |-> t.name,
            cols |-> MapI(LAMBDA i : MeanCol(t.cols[i], PkCols(t.idx)), Len(t.cols)),
            idx |-> {MeanIdx(t.idx[i]) : i \in DOMAIN t.idx}, nidx |-> Len(t.idx),
            fks |-> Rng(t.fks), nfks |-> Len(t.fks), cs |-> t.cs, co |-> t.co]

\* what a stored table is displayed as, in the form of a definition
ShownCol(c, t, style) ==
  [c EXCEPT !.len = IF c.ty \in IntTypes
                    THEN (IF style = "57" THEN (IF c.len = <<>> THEN <<Width57(c)>> ELSE c.len)
                          ELSE IF c.ty = "TINYINT" /\ c.len = <<1>> /\ ~c.un THEN <<1>> ELSE <<>>)
                    ELSE @,
            !.cs = IF @ # "" /\ (c.cs # t.cs \/ c.co # t.co) THEN @ ELSE "",
            !.co = IF c.cs # "" /\ (c.co # DefaultCollation(c.cs) \/ (c.co # t.co /\ style = "80")) THEN @ ELSE ""]
Shown(t, style) ==
  [t |-> "create", name |-> t.name, cols |-> MapI(LAMBDA i : ShownCol(t.cols[i], t, style), Len(t.cols)),
   idx |-> SeqOfSet(t.idx), fks |-> SeqOfSet(t.fks), cs |-> t.cs,
   co |-> IF style = "80" \/ t.co # DefaultCollation(t.cs) THEN t.co ELSE ""]

\* the parts in which two normal forms differ
Differ(got, want) ==
  (IF got.name # want.name THEN {"name"} ELSE {})
  \cup (IF Names(got.cols) # Names(want.cols) THEN {"columns or their order"}
        ELSE UNION {LET a == got.cols[i]  b == want.cols[i] IN
                    {k \o " of " \o a.name : k \in {f \in {"ty", "len", "nul", "un", "ai", "def", "vals", "cs", "co"} : a[f] # b[f]}} : i \in DOMAIN got.cols})
  \cup (IF got.idx # want.idx \/ got.nidx # want.nidx THEN {"indexes"} ELSE {})
  \cup (IF got.fks # want.fks \/ got.nfks # want.nfks THEN {"foreign keys"} ELSE {})
  \cup (IF got.cs # want.cs \/ got.co # want.co THEN {"options"} ELSE {})
=============================================================================
