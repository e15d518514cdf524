-------------------------------- MODULE Decl --------------------------------
(* Declared schemas: what a set of CREATE TABLE declarations means (the state  *)
(* a server is in after storing them), which declarations are invalid, how a   *)
(* declaration is written as SQL, how the server displays a stored schema, and *)
(* when a live schema fulfils a declaration.                                    *)
(* A declared schema is a sequence of statements as MySQL!ExecCreate takes them *)
EXTENDS MySQL

\* ---- meaning ---------------------------------------------------------------
Store(D) ==
  LET r == RunAll([EmptyDb EXCEPT !.fkc = FALSE], D)
  IN [r.states[Len(r.states)] EXCEPT !.fkc = TRUE]
StoreErr(D) == RunAll([EmptyDb EXCEPT !.fkc = FALSE], D).err
DeclOf(D, n) == ByName(D, n)

\* ---- rendering ---------------------------------------------------------------
RECURSIVE Join(_, _)
Join(s, sep) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o sep \o Join(Tail(s), sep)
Q(n) == "`" \o n \o "`"
QL(ns) == Join(MapI(LAMBDA i : Q(ns[i]), Len(ns)), ",")
Esc(s) == FoldS(LAMBDA acc, i : acc \o (LET c == SubSeq(s, i, i) IN IF c \in {"'", "\\"} THEN c \o c ELSE c), "", [i \in 1..Len(s) |-> i])
Quote(s) == "'" \o Esc(s) \o "'"
LenText(l) == IF l = <<>> THEN "" ELSE "(" \o Join(MapI(LAMBDA i : ToString(l[i]), Len(l)), ",") \o ")"
ValsText(v) == "(" \o Join(MapI(LAMBDA i : Quote(v[i]), Len(v)), ",") \o ")"
TypeText(c) == c.ty \o (IF c.vals # <<>> THEN ValsText(c.vals) ELSE LenText(c.len))
CsText(c) == (IF c.cs # "" THEN " CHARACTER SET " \o c.cs ELSE "") \o (IF c.co # "" THEN " COLLATE " \o c.co ELSE "")

\* how declarations are written by hand (plain spelling)
DefText(d) ==
  CASE d.k = "none" -> "" [] d.k = "null" -> " DEFAULT NULL" [] d.k = "now" -> " DEFAULT CURRENT_TIMESTAMP"
    [] d.k = "raw" -> " DEFAULT " \o d.s
    [] OTHER -> " DEFAULT " \o Quote(d.s)
ColText(c) ==
  Q(c.name) \o " " \o TypeText(c) \o (IF c.un THEN " UNSIGNED" ELSE "") \o CsText(c)
  \o (IF c.nul # "" THEN " " \o c.nul ELSE "") \o DefText(c.def) \o (IF c.ai THEN " AUTO_INCREMENT" ELSE "")
IdxText(x) ==
  (CASE x.kind = "PRIMARY" -> "PRIMARY KEY " [] x.kind = "UNIQUE" -> "UNIQUE KEY " \o Q(x.name) \o " " [] OTHER -> "KEY " \o Q(x.name) \o " ")
  \o "(" \o QL(x.cols) \o ")"
FkText(f) ==
  "CONSTRAINT " \o Q(f.name) \o " FOREIGN KEY (" \o Q(f.col) \o ") REFERENCES " \o Q(f.rt) \o " (" \o Q(f.rc) \o ")"
  \o (IF f.del # "RESTRICT" \/ f.upd # "RESTRICT" THEN " ON DELETE " \o f.del \o " ON UPDATE " \o f.upd ELSE "")
OptText(st) == (IF st.cs # "" THEN " DEFAULT CHARSET=" \o st.cs ELSE "") \o (IF st.co # "" THEN " COLLATE=" \o st.co ELSE "")
TableText(st) ==
  "CREATE TABLE " \o Q(st.name) \o " (" \o
  Join(MapI(LAMBDA i : ColText(st.cols[i]), Len(st.cols)) \o MapI(LAMBDA i : IdxText(st.idx[i]), Len(st.idx)) \o MapI(LAMBDA i : FkText(st.fks[i]), Len(st.fks)), ", ")
  \o ")" \o OptText(st) \o ";"
DeclText(D) == Join(MapI(LAMBDA i : TableText(D[i]), Len(D)), "\n")

\* how the server displays a stored schema; style "80" (MySQL 8.0) or "57" (5.7)
RECURSIVE SeqOfSet(_)
SeqOfSet(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SeqOfSet(S \ {x})
Lower(ty) ==
  CASE ty = "TINYINT" -> "tinyint" [] ty = "SMALLINT" -> "smallint" [] ty = "MEDIUMINT" -> "mediumint" [] ty = "INT" -> "int"
    [] ty = "BIGINT" -> "bigint" [] ty = "DECIMAL" -> "decimal" [] ty = "FLOAT" -> "float" [] ty = "DOUBLE" -> "double"
    [] ty = "BIT" -> "bit" [] ty = "CHAR" -> "char" [] ty = "VARCHAR" -> "varchar" [] ty = "TEXT" -> "text"
    [] ty = "TINYTEXT" -> "tinytext" [] ty = "MEDIUMTEXT" -> "mediumtext" [] ty = "LONGTEXT" -> "longtext"
    [] ty = "BLOB" -> "blob" [] ty = "TINYBLOB" -> "tinyblob" [] ty = "MEDIUMBLOB" -> "mediumblob" [] ty = "LONGBLOB" -> "longblob"
    [] ty = "ENUM" -> "enum" [] ty = "SET" -> "set" [] ty = "DATE" -> "date" [] ty = "TIME" -> "time" [] ty = "DATETIME" -> "datetime"
    [] ty = "TIMESTAMP" -> "timestamp" [] ty = "YEAR" -> "year" [] ty = "JSON" -> "json" [] ty = "BINARY" -> "binary"
    [] ty = "VARBINARY" -> "varbinary" [] OTHER -> ty
Width57(c) == CASE c.ty = "TINYINT" -> (IF c.un THEN 3 ELSE 4) [] c.ty = "SMALLINT" -> (IF c.un THEN 5 ELSE 6)
                [] c.ty = "MEDIUMINT" -> (IF c.un THEN 8 ELSE 9) [] c.ty = "INT" -> (IF c.un THEN 10 ELSE 11) [] OTHER -> 20
ShowType(c, style) ==
  IF c.ty \in IntTypes
  THEN Lower(c.ty) \o (IF style = "57" THEN LenText(IF c.len = <<>> THEN <<Width57(c)>> ELSE c.len)
                       ELSE IF c.ty = "TINYINT" /\ c.len = <<1>> /\ ~c.un THEN "(1)" ELSE "")
  ELSE Lower(c.ty) \o (IF c.vals # <<>> THEN ValsText(c.vals) ELSE LenText(c.len))
DigitsOf(k, width) == LET s == ToString(k) IN IF Len(s) >= width THEN s ELSE SubSeq("0000", 1, width - Len(s)) \o s
NumText(n, scale) ==
  (IF n < 0 THEN "-" ELSE "") \o ToString(Abs(n) \div 10000)
  \o (IF scale = 0 THEN "" ELSE "." \o SubSeq(DigitsOf(Abs(n) % 10000, 4) \o "0000000000", 1, scale))
TrimScale(n) == IF n % 10000 = 0 THEN 0 ELSE IF n % 1000 = 0 THEN 1 ELSE IF n % 100 = 0 THEN 2 ELSE IF n % 10 = 0 THEN 3 ELSE 4
ShowDef(c) ==
  CASE c.def.k = "now" -> " DEFAULT CURRENT_TIMESTAMP"
    [] c.def.k = "lit" /\ c.ty = "BIT" -> " DEFAULT b'" \o (IF c.def.n = 0 THEN "0" ELSE "1") \o "'"
    [] c.def.k = "lit" /\ c.ty = "DECIMAL" -> " DEFAULT '" \o NumText(c.def.n, c.len[2]) \o "'"
    [] c.def.k = "lit" /\ c.def.num -> " DEFAULT '" \o NumText(c.def.n, TrimScale(c.def.n)) \o "'"
    [] c.def.k = "lit" -> " DEFAULT " \o Quote(c.def.s)
    [] c.nul = "NULL" /\ c.ty \notin NoDefault -> " DEFAULT NULL"
    [] c.nul = "NULL" /\ c.ty = "JSON" -> " DEFAULT NULL"
    [] OTHER -> ""
ShowCs(c, t, style) ==
  IF c.cs = "" THEN ""
  ELSE (IF c.cs # t.cs \/ c.co # t.co THEN " CHARACTER SET " \o c.cs ELSE "")
       \o (IF c.co # DefaultCollation(c.cs) \/ (c.co # t.co /\ style = "80") THEN " COLLATE " \o c.co ELSE "")
ShowCol(c, t, style) ==
  "  " \o Q(c.name) \o " " \o ShowType(c, style) \o (IF c.un THEN " unsigned" ELSE "") \o ShowCs(c, t, style)
  \o (IF c.nul = "NOT NULL" THEN " NOT NULL" ELSE IF c.ty = "TIMESTAMP" THEN " NULL" ELSE "")
  \o (IF c.ai THEN " AUTO_INCREMENT" ELSE ShowDef(c))
ShowIdx(x) == "  " \o IdxText(x)
FkAction(a, style) == CASE a = "RESTRICT" /\ style = "57" -> "" [] OTHER -> a
ShowFk(f, style) ==
  "  CONSTRAINT " \o Q(f.name) \o " FOREIGN KEY (" \o Q(f.col) \o ") REFERENCES " \o Q(f.rt) \o " (" \o Q(f.rc) \o ")"
  \o (IF FkAction(f.del, style) # "" THEN " ON DELETE " \o f.del ELSE "")
  \o (IF FkAction(f.upd, style) # "" THEN " ON UPDATE " \o f.upd ELSE "")
IdxKindSeq(idx, k) == SeqOfSet({x \in idx : x.kind = k})
ShowTable(t, style) ==
  LET ix == IdxKindSeq(t.idx, "PRIMARY") \o IdxKindSeq(t.idx, "UNIQUE") \o IdxKindSeq(t.idx, "KEY")
      fk == SeqOfSet(t.fks)
  IN "CREATE TABLE " \o Q(t.name) \o " (\n"
     \o Join(MapI(LAMBDA i : ShowCol(t.cols[i], t, style), Len(t.cols)) \o MapI(LAMBDA i : ShowIdx(ix[i]), Len(ix)) \o MapI(LAMBDA i : ShowFk(fk[i], style), Len(fk)), ",\n")
     \o "\n) ENGINE=InnoDB" \o (IF \E c \in Rng(t.cols) : c.ai THEN " AUTO_INCREMENT=17" ELSE "")
     \o " DEFAULT CHARSET=" \o t.cs
     \o (IF style = "80" \/ t.co # DefaultCollation(t.cs) THEN " COLLATE=" \o t.co ELSE "")
Show(db, style) == LET ns == SeqOfSet(Tabs(db)) IN MapI(LAMBDA i : [name |-> ns[i], text |-> ShowTable(db.tables[ns[i]], style)], Len(ns))

\* ---- when does a stored schema fulfil a declaration? -------------------------
ColSig(c) == [ty |-> c.ty, len |-> IF c.ty \in IntTypes THEN <<>> ELSE c.len, nul |-> c.nul, un |-> c.un, ai |-> c.ai, def |-> c.def, vals |-> c.vals]
\* h: stored column, w: stored form of the declared column, r: the declared column as written
ColFulfils(h, w, r) ==
  /\ ColSig(h) = ColSig(w)
  /\ r.cs # "" => h.cs = w.cs
  /\ r.co # "" => h.co = w.co

\* indexes modulo names if one of the two names is that of a foreign key which is still there
IdxFulfil(H, W) ==
  LET alias == {f.name : f \in H.fks}
      extra == H.idx \ W.idx
      miss == W.idx \ H.idx
      Same(x, y) == x.kind = y.kind /\ x.cols = y.cols
      Alias(x, y) == Same(x, y) /\ x.kind # "PRIMARY" /\ (x.name \in alias \/ y.name \in alias)
  IN /\ \A x \in extra : \E y \in miss : Alias(x, y)
     /\ \A y \in miss : \E x \in extra : Alias(x, y)
     /\ Cardinality(extra) = Cardinality(miss)

TableDiff(H, W, R, old) == \* set of what does not fulfil the declaration; old: names of the columns there from the beginning
  LET hn == NameSet(H.cols)  wn == NameSet(W.cols)
      hseq == Names(H.cols)  wseq == Names(W.cols)
      oldseq == Sel(hseq, LAMBDA n : n \in old)
  IN {"column left over: " \o n : n \in hn \ wn} \cup {"column missing: " \o n : n \in wn \ hn}
     \cup {"column differs: " \o n : n \in {m \in hn \cap wn : ~ColFulfils(ByName(H.cols, m), ByName(W.cols, m), ByName(R.cols, m))}}
     \cup {"column misplaced: " \o n : n \in {m \in (hn \cap wn) \ old :
              LET i == IndexOf(hseq, m)  j == IndexOf(wseq, m)
              IN (IF i = 1 THEN "" ELSE hseq[i-1]) # (IF j = 1 THEN "" ELSE wseq[j-1])}}
     \cup (IF IdxFulfil(H, W) THEN {} ELSE {"indexes differ"})
     \cup (IF H.fks = W.fks THEN {} ELSE {"foreign keys differ"})
     \cup (IF old = {} /\ R.cs # "" /\ H.cs # W.cs THEN {"table character set differs"} ELSE {})

OldCols(L, n) == IF n \in Tabs(L) THEN NameSet(L.tables[n].cols) ELSE {}
Diff(H, D, L) == \* of live schema H against declaration D, for a run that started with L
  LET W == Store(D) IN
  {"table left over: " \o n : n \in Tabs(H) \ Tabs(W)} \cup {"table missing: " \o n : n \in Tabs(W) \ Tabs(H)}
  \cup UNION {{d \o " in " \o n : d \in TableDiff(H.tables[n], W.tables[n], DeclOf(D, n), OldCols(L, n))} : n \in Tabs(H) \cap Tabs(W)}
  \cup UNION {{"order of kept columns changed in " \o n : x \in {1}} : n \in {m \in Tabs(H) \cap Tabs(W) \cap Tabs(L) :
          LET keep == NameSet(L.tables[m].cols) \cap NameSet(H.tables[m].cols)
          IN Sel(Names(L.tables[m].cols), LAMBDA c : c \in keep) # Sel(Names(H.tables[m].cols), LAMBDA c : c \in keep)}}

\* ---- nothing that need not be touched is touched ------------------------------
IdxOf(t, n) == IF \E x \in t.idx : x.name = n THEN CHOOSE x \in t.idx : x.name = n ELSE [name |-> "", kind |-> "", cols |-> <<>>]
HasIdx(t, n) == \E x \in t.idx : x.name = n
FkNamed(t, n) == {f \in t.fks : f.name = n}
ReallyChanges(L, W, D, t, c) ==
  /\ t \in Tabs(L) /\ t \in Tabs(W) /\ c \in NameSet(L.tables[t].cols) /\ c \in NameSet(W.tables[t].cols)
  /\ ~ColFulfils(ByName(L.tables[t].cols, c), ByName(W.tables[t].cols, c), ByName(DeclOf(D, t).cols, c))
FkDiffers(L, W, t, n) == ~(t \in Tabs(L) /\ t \in Tabs(W) /\ FkNamed(L.tables[t], n) = FkNamed(W.tables[t], n) /\ FkNamed(W.tables[t], n) # {})
FkTied(L, W, D, t, n) ==
  \E f \in (IF t \in Tabs(L) THEN FkNamed(L.tables[t], n) ELSE {}) \cup (IF t \in Tabs(W) THEN FkNamed(W.tables[t], n) ELSE {}) :
     ReallyChanges(L, W, D, t, f.col) \/ ReallyChanges(L, W, D, f.rt, f.rc)
OpNeedless(L, W, D, t, o) ==
  LET lt == L.tables[t]  wt == W.tables[t] IN
  CASE o.op = "addcol" -> o.def.name \in NameSet(lt.cols)
    [] o.op = "dropcol" -> o.col \in NameSet(wt.cols)
    [] o.op = "change" -> ~ReallyChanges(L, W, D, t, o.col)
    [] o.op = "addidx" -> \E x \in lt.idx \cap wt.idx : x.name = (IF o.idx.kind = "PRIMARY" THEN "PRIMARY" ELSE o.idx.name)
    [] o.op = "dropidx" -> \E x \in lt.idx \cap wt.idx : x.name = o.name
    [] o.op = "droppk" -> PkOf(lt.idx) = PkOf(wt.idx)
    [] o.op = "addfk" -> ~FkDiffers(L, W, t, o.fk.name) /\ ~FkTied(L, W, D, t, o.fk.name)
    [] o.op = "dropfk" -> ~FkDiffers(L, W, t, o.name) /\ ~FkTied(L, W, D, t, o.name)
    [] OTHER -> FALSE
StmtNeedless(L, W, D, st) == \* set of needless parts of a statement
  CASE st.t = "create" -> IF st.name \in Tabs(L) THEN {"creates existing table " \o st.name} ELSE {}
    [] st.t = "drop" -> IF st.name \in Tabs(W) THEN {"drops declared table " \o st.name} ELSE {}
    [] st.t = "alter" ->
         IF st.name \in Tabs(L) \cap Tabs(W)
         THEN {"needless " \o o.op \o " in " \o st.name : o \in {p \in Rng(st.ops) : OpNeedless(L, W, D, st.name, p)}}
         ELSE IF st.name \in Tabs(L) THEN {"alters table to be dropped " \o st.name : o \in {p \in Rng(st.ops) : p.op # "dropfk"}}
         ELSE IF st.name \in Tabs(W) THEN {"alters new table " \o st.name : o \in {p \in Rng(st.ops) : p.op # "addfk"}}
         ELSE {"alters unknown table " \o st.name}
    [] OTHER -> {}
\* what was there, is declared, and lost its data
Lost(F, L, W) ==
  {"table re-created: " \o n : n \in {m \in Tabs(L) \cap Tabs(W) \cap Tabs(F) : F.tables[m].o # "orig"}}
  \cup UNION {{"column re-added: " \o c \o " in " \o n : c \in {d \in NameSet(L.tables[n].cols) \cap NameSet(W.tables[n].cols) :
         d \in NameSet(F.tables[n].cols) /\ ByName(F.tables[n].cols, d).o # "orig"}} : n \in Tabs(L) \cap Tabs(W) \cap Tabs(F)}
=============================================================================
