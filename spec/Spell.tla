------------------------------- MODULE Spell -------------------------------
(* All the ways of writing a declaration down. A written form is a sequence of *)
(* places, each with its alternatives (the first one is the plain spelling);   *)
(* "structure" says which clauses are used in which order.                      *)
EXTENDS Read, Json
CONSTANTS From, Upto, Randoms
VARIABLE i

\* ---- places ------------------------------------------------------------------
F(s) == <<s>>                                  \* fixed text
Gap == << " ", "\n", "\t ", "   ", " /* a, b) `; */ ", "\n-- it's; (\n", " # x ' y\n ", "\n/* 1\n 2 */\n" >>
May == << "", " ", "\n\t", " /* ' */ ", "\n-- a \" b; CREATE TABLE x (\n" >>    \* white space that may be left out
MayOne == << " ", "", "\n\t", "  ", "/* ) */ ", " #'\n" >>
W(u, l, m) == << u, l, m >>
Words(ws) == Flat(MapI(LAMBDA k : IF k = 1 THEN << ws[1] >> ELSE << Gap, ws[k] >>, Len(ws)))
Name(n) == << Q(n), n >>

wNot == W("NOT", "not", "Not")      wNull == W("NULL", "null", "Null")    wDefault == W("DEFAULT", "default", "Default")
wKey == W("KEY", "key", "Key")      wPrimary == W("PRIMARY", "primary", "Primary")
wOn == W("ON", "on", "On")          wSet == W("SET", "set", "Set")

\* ---- literals ------------------------------------------------------------------
EscWith(s, bad, by(_)) == FoldS(LAMBDA acc, k : acc \o (LET c == SubSeq(s, k, k) IN IF c \in bad THEN by(c) ELSE c), "", [k \in 1..Len(s) |-> k])
Twice(c) == c \o c
Slash(c) == "\\" \o c
Texts(s) == << Quote(s),
               "'" \o EscWith(s, {"'", "\\", "\""}, Slash) \o "'",
               "\"" \o EscWith(s, {"\"", "\\"}, Twice) \o "\"",
               "\"" \o EscWith(s, {"\"", "\\"}, Slash) \o "\"" >>
Literals(c) ==
  LET ty == TypeOf(c.ty)  s == c.def.s IN
  IF ty = "BIT" THEN << s, "b'" \o s \o "'", "B'" \o s \o "'" >>
  ELSE IF c.ty \in {"BOOL", "BOOLEAN"} /\ s \in {"0", "1"} THEN << s, IF s = "1" THEN "TRUE" ELSE "FALSE", IF s = "1" THEN "true" ELSE "False", Quote(s) >>
  ELSE IF ty \in NumTypes THEN << Quote(s), s, "\"" \o s \o "\"" >>
  ELSE Texts(s)

\* ---- columns ---------------------------------------------------------------------
TypeWords(ty) ==
  CASE ty = "INT" -> << "INT", "int", "Int", "INTEGER", "integer" >>
    [] ty = "INTEGER" -> << "INTEGER", "INT", "int" >>
    [] ty = "DECIMAL" -> << "DECIMAL", "decimal", "NUMERIC", "numeric" >>
    [] ty = "NUMERIC" -> << "NUMERIC", "decimal" >>
    [] ty = "BOOL" -> << "BOOL", "bool", "BOOLEAN" >> [] ty = "BOOLEAN" -> << "BOOLEAN", "Boolean", "bool" >>
    [] ty = "VARCHAR" -> << "VARCHAR", "varchar", "VarChar" >>
    [] OTHER -> << ty, Lower(ty) >>
NumList(l) == Flat(MapI(LAMBDA k : (IF k = 1 THEN <<>> ELSE << F(","), May >>) \o << F(ToString(l[k])), May >>, Len(l)))
ValList(v) == Flat(MapI(LAMBDA k : (IF k = 1 THEN <<>> ELSE << F(","), MayOne >>) \o << Texts(v[k]), May >>, Len(v)))
TypeDoc(c) == << TypeWords(c.ty) >> \o (IF c.vals # <<>> THEN << May, F("("), May >> \o ValList(c.vals) \o << F(")") >>
                                       ELSE IF c.len # <<>> THEN << May, F("("), May >> \o NumList(c.len) \o << F(")") >> ELSE <<>>)
CsWords(s) == << s, "'" \o s \o "'" >>
Then(p) == IF p = <<>> THEN <<>> ELSE << Gap >> \o p     \* a clause with a gap before it
PlainType(c) == c.len = <<>> /\ c.vals = <<>> /\ c.cs = "" /\ c.co = ""
\* sv: [order, coll, deffirst, inline, options, nokey]
ColDoc(c, t, sv) ==
  LET pk == PkCols(t.idx)
      must == c.name \in pk \/ c.ai
      cs == IF c.cs = "" THEN <<>> ELSE << W("CHARACTER", "character", "Character"), Gap, wSet, Gap, CsWords(c.cs) >>
      co == IF c.co = "" THEN <<>> ELSE << W("COLLATE", "collate", "Collate"), Gap, CsWords(c.co) >>
      null == IF c.nul = "NOT NULL" THEN << IF must THEN << " NOT NULL", "", " not null", "\nNOT\tNULL" >> ELSE << " NOT NULL", " not null", "\nNOT\tNULL", " NOT /* ; */ Null", "  not\n null" >> >>
              ELSE IF c.nul = "NULL" THEN << << " NULL", "", " null", "\n\tNULL" >> >>
              ELSE IF must THEN <<>> ELSE << << "", " NULL", " null" >> >>
      def == CASE c.def.k = "none" -> IF must \/ c.nul = "NOT NULL" \/ TypeOf(c.ty) \in NoDefault THEN <<>> ELSE << << "", " DEFAULT NULL", " default null", "\nDEFAULT\n NULL" >> >>
               [] c.def.k = "null" -> << << " DEFAULT NULL", "", " default null", "\nDefault\t Null" >> >>
               [] c.def.k = "now" -> Then(<< wDefault, Gap, << "CURRENT_TIMESTAMP", "current_timestamp" >> >>)
               [] OTHER -> Then(<< wDefault, Gap, Literals(c) >>)
      inline == IF sv.inline /\ pk = {c.name} /\ PlainType(c) THEN Then(Words(<< wPrimary, wKey >>)) ELSE <<>>
      body == IF sv.deffirst /\ PlainType(c) THEN def \o null \o inline ELSE null \o inline \o (IF sv.coll = 2 THEN Then(co) ELSE <<>>) \o def
  IN << Name(c.name), Gap >> \o TypeDoc(c) \o (IF c.un THEN Then(<< W("UNSIGNED", "unsigned", "Unsigned") >>) ELSE <<>>)
     \o Then(cs) \o (IF sv.coll = 1 THEN Then(co) ELSE <<>>) \o body \o (IF sv.coll = 3 \/ (sv.coll = 2 /\ sv.deffirst /\ PlainType(c)) THEN Then(co) ELSE <<>>)
     \o (IF c.ai THEN Then(<< W("AUTO_INCREMENT", "auto_increment", "Auto_Increment") >>) ELSE <<>>)

\* ---- keys ----------------------------------------------------------------------------
Prefix(t, x, n) == LET c == ByName(t.cols, n) IN IF c.ty \in {"VARCHAR", "CHAR", "BINARY", "VARBINARY"} /\ c.len # <<>> /\ c.len[1] >= 10 THEN << "", "(10)", "(5)" >> ELSE F("")
ColList(t, x) == << F("("), May >> \o Flat(MapI(LAMBDA k : (IF k = 1 THEN <<>> ELSE << F(","), MayOne >>) \o << Name(x.cols[k]) >> \o (IF x.kind = "PRIMARY" THEN <<>> ELSE << Prefix(t, x, x.cols[k]) >>) \o << May >>, Len(x.cols))) \o << F(")") >>
IdxDoc(x, t) ==
  CASE x.kind = "PRIMARY" -> << wPrimary, Gap, wKey, MayOne >> \o ColList(t, x)
    [] x.kind = "UNIQUE" -> << << "UNIQUE KEY", "unique key", "UNIQUE", "UNIQUE INDEX", "unique\nindex", "Unique" >>, Gap, Name(x.name), MayOne >> \o ColList(t, x)
    [] OTHER -> << << "KEY", "key", "INDEX", "index", "Key" >>, Gap, Name(x.name), MayOne >> \o ColList(t, x)
BareName(t, f) == f.name = t.name \o "_" \o f.col \o "_" \o f.rt \o "_fk"
Action(what, a) ==
  << << " ON " \o what \o " " \o a >> \o (IF a = "RESTRICT" THEN << "" >> ELSE <<>>)
     \o << "\n ON\t" \o what \o "\n" \o a, " on " \o (IF what = "DELETE" THEN "delete " ELSE "Update ")
            \o (CASE a = "RESTRICT" -> "restrict" [] a = "CASCADE" -> "Cascade" [] a = "SET NULL" -> "set null" [] OTHER -> "no action") >> >>
FkDoc(f, t) ==
  << IF BareName(t, f) THEN << "CONSTRAINT " \o Q(f.name) \o " ", "", "constraint " \o f.name \o "\n" >> ELSE << "CONSTRAINT " \o Q(f.name) \o " ", "constraint " \o f.name \o " ", "CONSTRAINT\n\t" \o Q(f.name) \o " /* FOREIGN KEY */ " >>,
     W("FOREIGN", "foreign", "Foreign"), Gap, wKey, Gap, F("("), May, Name(f.col), May, F(")"), Gap, W("REFERENCES", "references", "References"), Gap, Name(f.rt), MayOne, F("("), May, Name(f.rc), May, F(")") >>
  \o Action("DELETE", f.del) \o Action("UPDATE", f.upd)

\* ---- tables ----------------------------------------------------------------------------
OptDoc(name, val) == << << " ", "\n", ", ", " /* = */ ", "," >>, name, << "=", " = ", "= ", "\t=\n" >>, val >>
Note == "it's, (a=b; c"
OptionList(t, sv) ==
  (IF sv.options = 2 THEN OptDoc(<< "ENGINE", "engine", "Engine" >>, F("InnoDB")) \o OptDoc(<< "AUTO_INCREMENT", "auto_increment" >>, F("17")) ELSE <<>>)
  \o (IF t.cs # "" THEN OptDoc(<< "DEFAULT CHARSET", "CHARSET", "CHARACTER SET", "DEFAULT CHARACTER SET", "default charset", "charset", "DEFAULT  \n CHARSET" >>, F(t.cs)) ELSE <<>>)
  \o (IF t.co # "" THEN OptDoc(<< "COLLATE", "collate", "DEFAULT COLLATE" >>, F(t.co)) ELSE <<>>)
  \o (IF sv.options = 2 THEN OptDoc(<< "COMMENT", "comment" >>, Texts(Note)) ELSE <<>>)
OptionDoc(t, sv) ==
  LET d == OptionList(t, sv) IN IF d = <<>> THEN d ELSE << << " ", "\n", "", " /* = */ " >> >> \o Tail(d)     \* no comma in front of the first one
Options(sv) == IF sv.options = 2 THEN << <<"ENGINE", "InnoDB">>, <<"COMMENT", Note>> >> ELSE <<>>
Comma(ds) == Flat(MapI(LAMBDA k : (IF k = 1 THEN <<>> ELSE << May, F(","), MayOne >>) \o ds[k], Len(ds)))
Skipped(t, x, sv) ==   \* definitions that are left out because another one implies them
  \/ x.kind = "PRIMARY" /\ sv.inline /\ Len(x.cols) = 1 /\ PlainType(ByName(t.cols, x.cols[1]))
  \/ sv.nokey /\ x.kind = "KEY" /\ x.cols = << x.name >> /\ \E f \in Rng(t.fks) : f.col = x.name /\ BareName(t, f)
         /\ ~\E y \in Rng(t.idx) : y # x /\ x.name \in Rng(y.cols)
TableDoc(t, sv) ==
  LET cols == MapI(LAMBDA k : ColDoc(t.cols[k], t, sv), Len(t.cols))
      xs == Sel(t.idx, LAMBDA x : ~Skipped(t, x, sv))
      idx == MapI(LAMBDA k : IdxDoc(xs[k], t), Len(xs))
      one(f) == LET d == FkDoc(f, t) IN IF sv.nokey /\ BareName(t, f) THEN << F("") >> \o Tail(d) ELSE d
      fks == MapI(LAMBDA k : one(t.fks[k]), Len(t.fks))
      rev(s) == MapI(LAMBDA k : s[Len(s) + 1 - k], Len(s))
      defs == CASE sv.order = 1 -> cols \o idx \o fks
                [] sv.order = 2 -> cols \o rev(fks) \o rev(idx)
                [] sv.order = 3 -> << cols[1] >> \o idx \o Tail(cols) \o fks
                [] OTHER -> << cols[1] >> \o fks \o Tail(cols) \o rev(idx)
  IN << W("CREATE", "create", "Create"), Gap, W("TABLE", "table", "Table"), << "", " IF NOT EXISTS", " if not exists", "\nIf Not\n\tExists" >>, Gap, Name(t.name), Gap, F("("), May >>
     \o Comma(defs) \o << May, F(")") >> \o OptionDoc(t, sv) \o << May, F(";") >>
Between == << "\n", " ", "\n-- next; 'table'\n", "\n# it's\n", " /* ( */ ", "\n\n;" >>
FileDoc(d, sv) == Flat(MapI(LAMBDA k : (IF k = 1 THEN << << "", "-- first\n", " /* a */\n", "\n" >> >> ELSE << SubSeq(Between, 1, 5) >>) \o TableDoc(d[k], sv), Len(d))) \o << << "", "\n", "\n-- end", "\n/* ; */", " # it's" >> >>

\* ---- which spellings -----------------------------------------------------------------------
Plain == [order |-> 1, coll |-> 1, deffirst |-> FALSE, inline |-> FALSE, options |-> 1, nokey |-> FALSE]
Structures == << [Plain EXCEPT !.order = 2], [Plain EXCEPT !.order = 3], [Plain EXCEPT !.order = 4], [Plain EXCEPT !.coll = 2], [Plain EXCEPT !.coll = 3],
                 [Plain EXCEPT !.deffirst = TRUE], [Plain EXCEPT !.inline = TRUE], [Plain EXCEPT !.options = 2], [Plain EXCEPT !.nokey = TRUE],
                 [Plain EXCEPT !.deffirst = TRUE, !.inline = TRUE] >>
Drawn(seed) ==
  [order |-> 1 + (Mix(seed, 901) % 4), coll |-> 1 + (Mix(seed, 902) % 3), deffirst |-> Mix(seed, 903) % 2 = 0, inline |-> Mix(seed, 904) % 2 = 0,
   options |-> 1 + (Mix(seed, 905) % 2), nokey |-> Mix(seed, 906) % 2 = 0]
\* a text is a form with a choice for every place; with choice <<>>: the plain one and all that differ from it in one place
Emit(d, sv, doc, choice) == PrintT("@@" \o ToJson([d |-> d, opts |-> Options(sv), doc |-> doc, choice |-> choice]))
EmitAll(d) ==
  LET db == Dbs[d] IN
  /\ Emit(d, Plain, FileDoc(db, Plain), <<>>)
  /\ \A k \in 1..Len(Structures) : Emit(d, Structures[k], FileDoc(db, Structures[k]), <<>>)
  /\ \A r \in 1..Randoms :
       LET seed == Seed * 7919 + d * 31 + r * 1009  sv == Drawn(seed)  rd == FileDoc(db, sv)  dense == 2 + (r % 4) IN
       Emit(d, sv, rd, MapI(LAMBDA j : IF Mix(seed, 2 * j) % dense # 0 THEN 1 ELSE 1 + (Mix(seed, 2 * j + 1) % Len(rd[j])), Len(rd)))
Init == /\ i = From - 1
        /\ LoadUniverse
Next == /\ i < (IF Upto < Len(Dbs) THEN Upto ELSE Len(Dbs))
        /\ i' = i + 1
        /\ EmitAll(i + 1)
=============================================================================
