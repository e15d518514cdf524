------------------------------- MODULE MySQL -------------------------------
(* The MySQL/InnoDB server as far as structural migrations can see it: an     *)
(* explicit state (tables, columns, indexes, foreign keys, the session's      *)
(* FOREIGN_KEY_CHECKS switch) and one transition per DDL statement, either to *)
(* a new state or refused with the server's error number and no change.       *)
(*                                                                            *)
(* A column as written in SQL and as stored has the same shape                *)
(*   [name, ty, len, nul, un, ai, def, vals, cs, co, o]                       *)
(*   nul: "" (nothing said) | "NULL" | "NOT NULL"     (stored: never "")      *)
(*   len: sequence of numbers; vals: value list of ENUM/SET                   *)
(*   def: [k, s, num, n]  k: "none" | "null" | "lit" | "now"                  *)
(*        s the text of a literal, n its value * 10^4 if it is a number (num) *)
(*   o:   data origin ("orig": holds the data of the start, "new": empty)     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Fold

Rng(s) == {s[i] : i \in DOMAIN s}
\* functions and sequences with concrete elements (TLC would evaluate them anew at every access)
MapI(op(_), n) == FoldS(LAMBDA acc, i : Append(acc, op(i)), <<>>, [i \in 1..n |-> i])
Force(f) == f @@ <<>>
Sel(s, P(_)) == SelectSeq(s, P)
IndexOf(s, x) == IF \E i \in DOMAIN s : s[i] = x THEN CHOOSE i \in DOMAIN s : s[i] = x /\ \A j \in 1..(i-1) : s[j] # x ELSE 0
Names(s) == MapI(LAMBDA i : s[i].name, Len(s))
NameSet(s) == {s[i].name : i \in DOMAIN s}
HasDup(s) == \E i, j \in DOMAIN s : i < j /\ s[i] = s[j]
ByName(s, n) == s[CHOOSE i \in DOMAIN s : s[i].name = n]

IntTypes == {"TINYINT", "SMALLINT", "MEDIUMINT", "INT", "BIGINT"}
FloatTypes == {"FLOAT", "DOUBLE"}
NumTypes == IntTypes \cup FloatTypes \cup {"DECIMAL", "BIT"}
TextTypes == {"TINYTEXT", "TEXT", "MEDIUMTEXT", "LONGTEXT"}
BlobTypes == {"TINYBLOB", "BLOB", "MEDIUMBLOB", "LONGBLOB"}
EnumTypes == {"ENUM", "SET"}
CharTypes == {"CHAR", "VARCHAR"} \cup TextTypes \cup EnumTypes     \* have a character set
NoDefault == TextTypes \cup BlobTypes \cup {"JSON"}
TimeTypes == {"DATE", "TIME", "DATETIME", "TIMESTAMP", "YEAR"}

\* ---- names of types and character sets -----------------------------------
TypeOf(ty) == CASE ty \in {"INTEGER"} -> "INT"
                [] ty \in {"BOOL", "BOOLEAN"} -> "TINYINT"
                [] ty \in {"NUMERIC", "DEC"} -> "DECIMAL"
                [] OTHER -> ty
LenOf(ty, len) ==
  CASE ty \in {"BOOL", "BOOLEAN"} -> <<1>>
    [] TypeOf(ty) = "DECIMAL" /\ len = <<>> -> <<10, 0>>
    [] TypeOf(ty) = "DECIMAL" /\ Len(len) = 1 -> <<len[1], 0>>
    [] ty \in {"CHAR", "BINARY", "BIT"} /\ len = <<>> -> <<1>>
    [] OTHER -> len

DefaultCollation(cs) ==
  CASE cs = "utf8mb4" -> "utf8mb4_0900_ai_ci" [] cs = "latin1" -> "latin1_swedish_ci"
    [] cs = "utf8" -> "utf8_general_ci" [] cs = "ascii" -> "ascii_general_ci" [] OTHER -> cs
CharsetOf(co) ==
  CASE co \in {"utf8mb4_0900_ai_ci", "utf8mb4_bin", "utf8mb4_unicode_ci", "utf8mb4_general_ci"} -> "utf8mb4"
    [] co \in {"latin1_swedish_ci", "latin1_bin"} -> "latin1"
    [] co \in {"utf8_general_ci", "utf8_unicode_ci"} -> "utf8"
    [] co \in {"ascii_general_ci"} -> "ascii"
    [] OTHER -> ""
ResolveCs(cs, co, dcs) == IF cs # "" THEN cs ELSE IF co # "" THEN CharsetOf(co) ELSE dcs
ResolveCo(cs, co, dcs, dco) == IF co # "" THEN co ELSE IF cs # "" THEN DefaultCollation(cs) ELSE dco

\* ---- defaults -------------------------------------------------------------
NoDef == [k |-> "none", s |-> "", num |-> FALSE, n |-> 0]
Pow10(k) == CASE k = 0 -> 1 [] k = 1 -> 10 [] k = 2 -> 100 [] k = 3 -> 1000 [] OTHER -> 10000
Abs(x) == IF x < 0 THEN 0 - x ELSE x
RoundTo(n, scale) ==   \* n * 10^-4 rounded half away from zero at that many decimals
  IF scale >= 4 THEN n
  ELSE LET u == Pow10(4 - scale)
           q == (Abs(n) + (u \div 2)) \div u
       IN IF n < 0 THEN 0 - q * u ELSE q * u
StoreDef(ty, len, d) ==
  CASE d.k \in {"none", "null"} -> NoDef
    [] d.k = "now" -> [NoDef EXCEPT !.k = "now"]
    [] ty \in IntTypes \cup {"BIT"} -> [k |-> "lit", s |-> "", num |-> TRUE, n |-> RoundTo(d.n, 0)]
    [] ty = "DECIMAL" -> [k |-> "lit", s |-> "", num |-> TRUE, n |-> RoundTo(d.n, len[2])]
    [] ty \in FloatTypes -> [k |-> "lit", s |-> "", num |-> TRUE, n |-> d.n]
    [] OTHER -> [k |-> "lit", s |-> d.s, num |-> FALSE, n |-> 0]

IntLow(ty, un) == IF un THEN 0 ELSE CASE ty = "TINYINT" -> -128 [] ty = "SMALLINT" -> -32768 [] OTHER -> -200000
IntHigh(ty, un) == CASE ty = "TINYINT" -> (IF un THEN 255 ELSE 127)
                     [] ty = "SMALLINT" -> (IF un THEN 65535 ELSE 32767) [] OTHER -> 200000

\* a column definition (as written) the server refuses, or ""
ColError(c) ==
  LET ty == TypeOf(c.ty) IN
  CASE c.ai /\ ty \notin IntTypes \cup FloatTypes -> "1063"
    [] c.ai /\ c.def.k \in {"lit", "now"} -> "1067"
    [] c.ai /\ c.nul = "NULL" -> "1171"
    [] c.un /\ ty \notin NumTypes \ {"BIT"} -> "1064"
    [] ty = "VARCHAR" /\ c.len = <<>> -> "1064"
    [] ty \in EnumTypes /\ c.vals = <<>> -> "1064"
    [] ty \notin EnumTypes /\ c.vals # <<>> -> "1064"
    [] ty \notin CharTypes \cup {"BINARY", "VARBINARY"} /\ (c.cs # "" \/ c.co # "") -> "1064"
    [] c.co # "" /\ c.cs # "" /\ CharsetOf(c.co) # c.cs -> "1253"
    [] ty \in NoDefault /\ c.def.k \in {"lit", "now"} -> "1101"
    [] c.def.k = "null" /\ c.nul = "NOT NULL" -> "1067"
    [] c.def.k = "now" /\ ty \notin {"DATETIME", "TIMESTAMP"} -> "1067"
    [] c.def.k = "lit" /\ ty = "ENUM" /\ c.def.s \notin Rng(c.vals) -> "1067"
    [] c.def.k = "lit" /\ ty \in NumTypes /\ ~c.def.num -> "1067"
    [] c.def.k = "lit" /\ ty \in IntTypes /\ (RoundTo(c.def.n, 0) < IntLow(ty, c.un) * 10000 \/ RoundTo(c.def.n, 0) > IntHigh(ty, c.un) * 10000) -> "1067"
    [] c.def.k = "lit" /\ ty \in {"DECIMAL"} \cup FloatTypes /\ c.un /\ c.def.n < 0 -> "1067"
    [] c.def.k = "lit" /\ ty \in {"CHAR", "VARCHAR"} /\ Len(c.def.s) > LenOf(ty, c.len)[1] -> "1067"
    [] OTHER -> ""

StoreCol(c, inpk, dcs, dco, o) ==
  LET ty == TypeOf(c.ty)
      len == LenOf(c.ty, c.len)
      ch == ty \in CharTypes IN
  [name |-> c.name, ty |-> ty, len |-> len,
   nul |-> IF c.nul = "NOT NULL" \/ c.ai \/ inpk THEN "NOT NULL" ELSE "NULL",
   un |-> c.un, ai |-> c.ai, def |-> StoreDef(ty, len, c.def), vals |-> c.vals,
   cs |-> IF ch THEN ResolveCs(c.cs, c.co, dcs) ELSE "",
   co |-> IF ch THEN ResolveCo(c.cs, c.co, dcs, dco) ELSE "", o |-> o]

\* what makes up the "type" of a column for foreign keys; display widths of integers do not
TypeSig(c) == [ty |-> c.ty, len |-> IF c.ty \in IntTypes THEN <<>> ELSE c.len, un |-> c.un, cs |-> c.cs, co |-> c.co, vals |-> c.vals]
FkCompatible(a, b) ==
  /\ a.un = b.un
  /\ \/ a.ty = b.ty
     \/ {a.ty, b.ty} \subseteq {"CHAR", "VARCHAR"}
  /\ a.cs = b.cs /\ a.co = b.co
  /\ a.ty = "DECIMAL" => a.len = b.len

\* ---- tables ---------------------------------------------------------------
\* table: [name, cols (Seq), idx (set of [name, kind, cols]), fks (set of [name, col, rt, rc, del, upd]), cs, co, o]
PkOf(idx) == {x \in idx : x.kind = "PRIMARY"}
InPk(idx, n) == \E x \in PkOf(idx) : n \in Rng(x.cols)
Leads(idx, n) == \E x \in idx : x.cols # <<>> /\ x.cols[1] = n

\* the name the server gives an index declared without one
RECURSIVE FreeName(_, _, _)
FreeName(base, k, taken) ==
  LET n == IF k = 1 THEN base ELSE base \o "_" \o ToString(k)
  IN IF n \in taken THEN FreeName(base, k + 1, taken) ELSE n
NameIdx(x, taken) ==
  IF x.kind = "PRIMARY" THEN [x EXCEPT !.name = "PRIMARY"]
  ELSE IF x.name = "" THEN [x EXCEPT !.name = FreeName(x.cols[1], 1, taken)] ELSE x
NameAll(old, news) == \* old: set of existing indexes
  FoldS(LAMBDA acc, x : Append(acc, NameIdx(x, {y.name : y \in old} \cup NameSet(acc) \cup NameSet(news))), <<>>, news)

EmptyDb == [tables |-> <<>>, fkc |-> TRUE]
Tabs(db) == DOMAIN db.tables
PutTable(db, t) == [db EXCEPT !.tables = (t.name :> t) @@ db.tables]
DelTable(db, n) == [db EXCEPT !.tables = Force([m \in Tabs(db) \ {n} |-> db.tables[m]])]
Ok(db) == [db |-> db, err |-> ""]
Refuse(db, e) == [db |-> db, err |-> e]
FirstErr(es) == LET bad == Sel(es, LAMBDA e : e # "") IN IF bad = <<>> THEN "" ELSE bad[1]
If(c, e) == IF c THEN e ELSE ""
AllFks(db) == UNION {{[t |-> n, f |-> f] : f \in db.tables[n].fks} : n \in Tabs(db)}

\* structure of one table, without foreign keys
TableErr(t, idxseq, code0) ==
  FirstErr(<<
    If(t.cols = <<>>, code0),
    If(HasDup(Names(t.cols)), "1060"),
    If(HasDup(Names(Sel(idxseq, LAMBDA x : x.kind # "PRIMARY"))), "1061"),
    If(Len(Sel(idxseq, LAMBDA x : x.kind = "PRIMARY")) > 1, "1068"),
    If(\E x \in t.idx : x.cols = <<>>, "1064"),
    If(\E x \in t.idx : \E n \in Rng(x.cols) : n \notin NameSet(t.cols), "1072"),
    If(\E x \in t.idx : HasDup(x.cols), "1060"),
    If(\E x \in t.idx : \E n \in Rng(x.cols) : ByName(t.cols, n).ty \in TextTypes \cup BlobTypes \cup {"JSON"}, "1170"),
    LET ais == Sel(t.cols, LAMBDA c : c.ai)
    IN If(Len(ais) > 1 \/ (Len(ais) = 1 /\ ~Leads(t.idx, ais[1].name)), "1075")
  >>)

\* a foreign key f which table t (already in db) is to get
FkErr(db, t, f) ==
  LET T == db.tables[t] IN
  IF f.col \notin NameSet(T.cols) THEN "1072"
  ELSE IF "SET NULL" \in {f.del, f.upd} /\ ByName(T.cols, f.col).nul = "NOT NULL" THEN "1830"
  ELSE IF f.rt \notin Tabs(db) THEN If(db.fkc, "1824")
  ELSE LET P == db.tables[f.rt] IN
    IF f.rc \notin NameSet(P.cols) THEN "3734"
    ELSE IF ~FkCompatible(ByName(T.cols, f.col), ByName(P.cols, f.rc)) THEN "3780"
    ELSE If(~Leads(P.idx, f.rc), "1822")
WithFkIndex(T, fs) == \* the server adds a missing index for a foreign key by itself
  FoldS(LAMBDA acc, f : IF Leads(acc.idx, f.col) \/ f.col \notin NameSet(acc.cols) THEN acc
                        ELSE [acc EXCEPT !.idx = @ \cup {[name |-> f.name, kind |-> "KEY", cols |-> <<f.col>>]}], T, fs)
FkNameErr(db, t, fs) ==
  FirstErr(<< If(HasDup(Names(fs)), "1826"),
              If(\E x \in AllFks(db) : x.f.name \in NameSet(fs), "1826") >>)

\* ---- CREATE TABLE ------------------------------------------------------------
\* st: [t, name, cols, idx (Seq), fks (Seq), cs, co]
ExecCreate(db, st) ==
  LET tcs == ResolveCs(st.cs, st.co, "utf8mb4")
      tco == ResolveCo(st.cs, st.co, "utf8mb4", "utf8mb4_0900_ai_ci")
      idxs == NameAll({}, st.idx)
      pkc == UNION {Rng(x.cols) : x \in {y \in Rng(idxs) : y.kind = "PRIMARY"}}
      T0 == [name |-> st.name,
             cols |-> MapI(LAMBDA i : StoreCol(st.cols[i], st.cols[i].name \in pkc, tcs, tco, "new"), Len(st.cols)),
             idx |-> Rng(idxs), fks |-> {}, cs |-> tcs, co |-> tco, o |-> "new"]
      T1 == WithFkIndex(T0, st.fks)
      T2 == [T1 EXCEPT !.fks = Rng(st.fks)]
      db2 == PutTable(db, T2)
      e == IF st.name \in Tabs(db) THEN "1050" ELSE FirstErr(<<
             FirstErr(MapI(LAMBDA i : ColError(st.cols[i]), Len(st.cols))),
             If(\E c \in Rng(st.cols) : c.name \in pkc /\ c.nul = "NULL", "1171"),
             TableErr(T1, idxs, "1113"),
             FkNameErr(db, st.name, st.fks) >>)
      e2 == FirstErr(MapI(LAMBDA i : FkErr(db2, st.name, st.fks[i]), Len(st.fks)))
      \* keys of other tables which have been waiting for this one
      e3 == IF \E x \in AllFks(db) : x.f.rt = st.name /\ FkErr(db2, x.t, x.f) # ""
            THEN LET x == CHOOSE x \in AllFks(db) : x.f.rt = st.name /\ FkErr(db2, x.t, x.f) # "" IN FkErr(db2, x.t, x.f) ELSE ""
      E == IF e # "" THEN e ELSE IF e2 # "" THEN e2 ELSE e3
  IN IF E # "" THEN Refuse(db, E) ELSE Ok(db2)

ExecDrop(db, st) ==
  IF st.name \notin Tabs(db) THEN Refuse(db, "1051")
  ELSE IF db.fkc /\ \E x \in AllFks(db) : x.f.rt = st.name /\ x.t # st.name THEN Refuse(db, "3730")
  ELSE Ok(DelTable(db, st.name))

\* ---- ALTER TABLE -------------------------------------------------------------
\* st: [t, name, ops]; all parts of one ALTER refer to the table as it was before,
\* only the positions of added columns are resolved one after the other
OpsOf(st, k) == Sel(st.ops, LAMBDA o : o.op = k)
PutAfter(s, i, x) == SubSeq(s, 1, i) \o <<x>> \o SubSeq(s, i + 1, Len(s))  \* after position i
ExecAlter(db, st) ==
  IF st.name \notin Tabs(db) THEN Refuse(db, "1146") ELSE
  LET T == db.tables[st.name]
      dropc == {o.col : o \in Rng(OpsOf(st, "dropcol"))}
      chg == OpsOf(st, "change")
      add == OpsOf(st, "addcol")
      dropi == {o.name : o \in Rng(OpsOf(st, "dropidx"))}
      droppk == OpsOf(st, "droppk") # <<>>
      addi == FoldS(LAMBDA acc, o : Append(acc, o.idx), <<>>, OpsOf(st, "addidx"))
      dropf == {o.name : o \in Rng(OpsOf(st, "dropfk"))}
      addf == FoldS(LAMBDA acc, o : Append(acc, o.fk), <<>>, OpsOf(st, "addfk"))
      NewName(n) == IF \E o \in Rng(chg) : o.col = n THEN (CHOOSE o \in Rng(chg) : o.col = n).def.name ELSE n
      \* indexes
      left == {x \in T.idx : ~(x.kind = "PRIMARY" /\ droppk) /\ ~(x.kind # "PRIMARY" /\ x.name \in dropi)}
      shrunk == {[x EXCEPT !.cols = LET k == Sel(x.cols, LAMBDA n : n \notin dropc) IN MapI(LAMBDA i : NewName(k[i]), Len(k))] : x \in left}
      kept == {x \in shrunk : x.cols # <<>>}
      named == NameAll(kept, addi)
      idx == kept \cup Rng(named)
      pkc == UNION {Rng(x.cols) : x \in PkOf(idx)}
      \* columns
      Changed(c) == LET os == {o \in Rng(chg) : o.col = c.name}
                    IN IF os = {} THEN [c EXCEPT !.nul = IF c.name \in pkc THEN "NOT NULL" ELSE @]
                       ELSE LET o == CHOOSE o \in os : TRUE IN StoreCol(o.def, o.def.name \in pkc, T.cs, T.co, c.o)
      base == LET k == Sel(T.cols, LAMBDA c : c.name \notin dropc) IN MapI(LAMBDA i : Changed(k[i]), Len(k))
      Step(acc, o) ==
        LET c == StoreCol(o.def, o.def.name \in pkc, T.cs, T.co, "new")
            p == IndexOf(Names(acc.cols), o.after)
        IN IF acc.err # "" THEN acc
           ELSE IF o.pos = "first" THEN [acc EXCEPT !.cols = <<c>> \o @]
           ELSE IF o.pos = "last" THEN [acc EXCEPT !.cols = Append(@, c)]
           ELSE IF p = 0 THEN [acc EXCEPT !.err = "1054"]
           ELSE [acc EXCEPT !.cols = PutAfter(@, p, c)]
      placed == FoldS(Step, [cols |-> base, err |-> ""], add)
      T1 == WithFkIndex([T EXCEPT !.cols = placed.cols, !.idx = idx], addf)
      keptf == {f \in T.fks : f.name \notin dropf}
      T2 == [T1 EXCEPT !.fks = {[f EXCEPT !.col = NewName(f.col)] : f \in keptf} \cup Rng(addf)]
      db2 == PutTable(db, T2)
      OldCol(n) == ByName(T.cols, n)
      Retyped(n) == n \in NameSet(T.cols) /\ n \in NameSet(T2.cols) /\ TypeSig(OldCol(n)) # TypeSig(ByName(T2.cols, n))
      parentOf == {x \in AllFks(db) : x.f.rt = st.name /\ ~(x.t = st.name /\ x.f.name \in dropf)}
      es == <<
        FirstErr(MapI(LAMBDA i : ColError(chg[i].def), Len(chg))),
        FirstErr(MapI(LAMBDA i : ColError(add[i].def), Len(add))),
        If(st.ops = <<>>, "1064"),
        If(\E n \in dropc : n \notin NameSet(T.cols), "1091"),
        If(\E o \in Rng(chg) : o.col \notin NameSet(T.cols) \/ o.col \in dropc, "1054"),
        If(HasDup(MapI(LAMBDA i : chg[i].col, Len(chg))), "1054"),
        placed.err,
        If(\E n \in dropi : ~\E x \in T.idx : x.name = n /\ x.kind # "PRIMARY", "1091"),
        If(droppk /\ PkOf(T.idx) = {}, "1091"),
        If(\E n \in dropf : ~\E f \in T.fks : f.name = n, "1091"),
        If(\E d \in Rng(chg) \cup Rng(add) : d.def.name \in pkc /\ d.def.nul = "NULL", "1171"),
        If(\E i \in DOMAIN named : named[i].kind # "PRIMARY" /\ named[i].name \in {x.name : x \in kept}, "1061"),
        If(\E i \in DOMAIN named : named[i].kind = "PRIMARY" /\ PkOf(kept) # {}, "1068"),
        TableErr(T1, named, "1090"),
        \* keys that stay in force, this table as the child ...
        If(\E f \in keptf : f.col \in dropc, "1828"),
        If(\E f \in keptf : Retyped(f.col), "1832"),
        If(\E f \in keptf : "SET NULL" \in {f.del, f.upd} /\ ByName(T2.cols, NewName(f.col)).nul = "NOT NULL", "1830"),
        If(\E f \in keptf : ~Leads(T2.idx, NewName(f.col)), "1553"),
        \* ... and as the parent
        If(\E x \in parentOf : x.f.rc \in dropc, "1829"),
        If(\E x \in parentOf : Retyped(x.f.rc), "1833"),
        If(\E x \in parentOf : x.f.rc \in NameSet(T.cols) /\ ~Leads(T2.idx, NewName(x.f.rc)), "1553"),
        \* new keys; a name cannot be dropped and given again in one statement
        If(\E f \in Rng(addf) : f.name \in {g.name : g \in T.fks}, "1826"),
        FkNameErr(DelTable(db, st.name), st.name, addf) >>
      e == FirstErr(es)
      e2 == FirstErr(MapI(LAMBDA i : FkErr(db2, st.name, addf[i]), Len(addf)))
  IN IF e # "" THEN Refuse(db, e) ELSE IF e2 # "" THEN Refuse(db, e2) ELSE Ok(db2)

Exec(db, st) ==
  CASE st.t = "create" -> ExecCreate(db, st)
    [] st.t = "drop" -> ExecDrop(db, st)
    [] st.t = "alter" -> ExecAlter(db, st)
    [] st.t = "fkc" -> Ok([db EXCEPT !.fkc = st.on])
    [] st.t = "row" -> IF st.name \in Tabs(db) THEN (IF Rng(st.cols) \subseteq NameSet(db.tables[st.name].cols) THEN Ok(db) ELSE Refuse(db, "1054")) ELSE Refuse(db, "1146")
    [] OTHER -> Refuse(db, "1064")

\* all states of a run: <<initial, after 1st, ...>> up to and including the first refusal
RunAll(db, sts) ==
  FoldS(LAMBDA acc, st :
             IF acc.err # "" THEN acc
             ELSE LET r == Exec(acc.states[Len(acc.states)], st)
                  IN IF r.err # "" THEN [acc EXCEPT !.err = r.err, !.at = Len(acc.states)]
                     ELSE [acc EXCEPT !.states = Append(@, r.db)],
           [states |-> <<db>>, err |-> "", at |-> 0], sts)

Stamp(db) == [db EXCEPT !.tables = Force([n \in Tabs(db) |->
  LET T == db.tables[n] IN [T EXCEPT !.o = "orig", !.cols = MapI(LAMBDA i : [T.cols[i] EXCEPT !.o = "orig"], Len(T.cols))]])]
=============================================================================
