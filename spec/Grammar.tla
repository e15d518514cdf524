------------------------------ MODULE Grammar ------------------------------
(* What a source of SQL says: MySQL's lexer (with comments; -- starts one, as in *)
(* the SQL standard, whatever follows) and the grammar of CREATE TABLE and INSERT, *)
(* from characters to meaning. Everything else is bad.                             *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Fold, Text

Str(chars) == FoldS(LAMBDA a, c : a \o c, "", chars)
\* ---- lexer -------------------------------------------------------------------------
\* q: "" between tokens, "w" in a word, a quote, "#" in a comment to the end of the line, "*" in a block comment
\* token: kind, value, upper case value, first and last position in the text
At(t, i) == IF i <= Len(t) THEN t[i] ELSE ""
Quotes == {"'", "\"", "`"}
Begin == [q |-> "", from |-> 0, cur |-> <<>>, skip |-> 0, out |-> <<>>]
KindQ(q) == CASE q = "`" -> "id" [] q = "w" -> "word" [] OTHER -> "str"
Token(k, cur, a, b) == LET s == Str(cur) IN [k |-> k, s |-> s, u |-> IF k = "word" THEN Str(UpSeq(cur)) ELSE s, a |-> a, b |-> b]
Shut(s, i) == [s EXCEPT !.out = Append(@, Token(KindQ(s.q), s.cur, s.from, i)), !.cur = <<>>, !.q = ""]
Between(t, s, i) ==
  LET c == t[i]  n == At(t, i + 1) IN
  CASE c \in Quotes -> [s EXCEPT !.q = c, !.from = i]
    [] c = "#" \/ (c = "-" /\ n = "-") -> [s EXCEPT !.q = "#"]
    [] c = "/" /\ n = "*" -> [s EXCEPT !.q = "*", !.from = i, !.skip = 1]
    [] c \in Blanks -> s
    [] c \in Puncts -> [s EXCEPT !.out = Append(@, Token("sym", <<c>>, i, i))]
    [] OTHER -> [s EXCEPT !.q = "w", !.from = i, !.cur = <<c>>]
Advance(t, s, i) ==
  LET c == t[i]  n == At(t, i + 1) IN
  CASE s.skip > 0 -> [s EXCEPT !.skip = @ - 1]
    [] s.q = "" -> Between(t, s, i)
    [] s.q = "w" -> IF c \in Blanks \/ c \in Puncts \/ c \in Quotes \/ c = "#" THEN Between(t, Shut(s, i - 1), i) ELSE [s EXCEPT !.cur = Append(@, c)]
    [] s.q = "#" -> IF c = "\n" THEN [s EXCEPT !.q = ""] ELSE s
    [] s.q = "*" -> IF c = "*" /\ n = "/" THEN [s EXCEPT !.q = "", !.skip = 1] ELSE s
    [] c = "\\" /\ s.q # "`" -> IF n = "" THEN s ELSE [s EXCEPT !.cur = IF n \in {"\\", "'", "\""} THEN Append(@, n) ELSE @ \o <<c, n>>, !.skip = 1]
    [] c = s.q -> IF n = c THEN [s EXCEPT !.cur = Append(@, c), !.skip = 1] ELSE Shut(s, i)
    [] OTHER -> [s EXCEPT !.cur = Append(@, c)]
\* [toks, open]: open is where a quote or comment begins that never ends (0: everything ends)
Scan(t) ==
  LET e == FoldS(LAMBDA s, i : Advance(t, s, i), Begin, [i \in 1..Len(t) |-> i]) IN
  IF e.q \in {"", "#"} THEN [toks |-> e.out, open |-> 0]
  ELSE IF e.q = "w" THEN [toks |-> Shut(e, Len(t)).out, open |-> 0]
  ELSE [toks |-> e.out, open |-> e.from]
\* the statements: what stands between semicolons
Split(toks) ==
  LET e == FoldS(LAMBDA acc, x : IF x.k = "sym" /\ x.s = ";" THEN [cur |-> <<>>, out |-> IF acc.cur = <<>> THEN acc.out ELSE Append(acc.out, [toks |-> acc.cur, ended |-> TRUE])]
                              ELSE [acc EXCEPT !.cur = Append(@, x)], [cur |-> <<>>, out |-> <<>>], toks) IN
  IF e.cur = <<>> THEN e.out ELSE Append(e.out, [toks |-> e.cur, ended |-> FALSE])

\* ---- grammar -----------------------------------------------------------------------
End == [k |-> "end", s |-> "", u |-> "", a |-> 0, b |-> 0]
Tk(T, i) == IF i <= Len(T) THEN T[i] ELSE End
W(T, i, w) == Tk(T, i).k = "word" /\ Tk(T, i).u = w
W2(T, i, v, w) == W(T, i, v) /\ W(T, i + 1, w)
Y(T, i, c) == Tk(T, i).k = "sym" /\ Tk(T, i).s = c
Kept == {"ADD", "ALL", "ALTER", "AND", "AS", "ASC", "BETWEEN", "BIGINT", "BINARY", "BLOB", "BY", "CASCADE", "CHANGE", "CHAR", "CHARACTER", "CHECK", "COLLATE", "COLUMN", "CONSTRAINT",
         "CREATE", "CURRENT_TIMESTAMP", "DATABASE", "DECIMAL", "DEFAULT", "DELETE", "DESC", "DOUBLE", "DROP", "EXISTS", "FLOAT", "FOR", "FOREIGN", "FROM", "GROUP", "IF", "IN", "INDEX", "INSERT",
         "INT", "INTEGER", "INTO", "IS", "KEY", "LIKE", "LIMIT", "LONGTEXT", "NOT", "NULL", "NUMERIC", "ON", "OR", "ORDER", "PRIMARY", "RANGE", "REFERENCES", "RENAME", "RESTRICT", "SELECT",
         "SET", "SMALLINT", "TABLE", "TINYINT", "TO", "UNION", "UNIQUE", "UNSIGNED", "UPDATE", "USE", "USING", "VALUES", "VARCHAR", "WHERE", "WITH"}
AllDigits(s) == LET c == Chars(s) IN c # <<>> /\ \A i \in DOMAIN c : c[i] \in Digits
Number(s) == LET c == Chars(s) IN c # <<>> /\ (\A i \in DOMAIN c : c[i] \in Digits \cup {"."}) /\ (\E i \in DOMAIN c : c[i] \in Digits) /\ Cardinality({i \in DOMAIN c : c[i] = "."}) <= 1
\* names with blanks in them are left out
Solid(s) == LET c == Chars(s) IN c # <<>> /\ \A i \in DOMAIN c : c[i] \notin Blanks
IsName(T, i) == (Tk(T, i).k = "id" /\ Solid(Tk(T, i).s)) \/ (Tk(T, i).k = "word" /\ Tk(T, i).u \notin Kept /\ ~Number(Tk(T, i).s))
IsNum(T, i) == Tk(T, i).k = "word" /\ Number(Tk(T, i).s)
IsStr(T, i) == Tk(T, i).k = "str"
No(i) == [ok |-> FALSE, i |-> i, v |-> <<>>]
\* "(" x {"," x} ")"
RECURSIVE ListRest(_, _, _, _)
ListRest(T, i, good(_, _), acc) ==
  IF ~good(T, i) THEN No(i)
  ELSE IF Y(T, i + 1, ",") THEN ListRest(T, i + 2, good, Append(acc, Tk(T, i)))
  ELSE IF Y(T, i + 1, ")") THEN [ok |-> TRUE, i |-> i + 2, v |-> Append(acc, Tk(T, i))]
  ELSE No(i)
List(T, i, good(_, _)) == IF Y(T, i, "(") THEN ListRest(T, i + 1, good, <<>>) ELSE No(i)
Vals(l) == [j \in 1..Len(l.v) |-> l.v[j].s]

IntWords == {"TINYINT", "SMALLINT", "MEDIUMINT", "INT", "INTEGER", "BIGINT"}
CharWords == {"CHAR", "VARCHAR", "TEXT", "TINYTEXT", "MEDIUMTEXT", "LONGTEXT", "ENUM", "SET"}
TypeWords == IntWords \cup CharWords \cup {"DECIMAL", "NUMERIC", "FLOAT", "DOUBLE", "DATE", "DATETIME", "TIMESTAMP", "TIME", "YEAR", "JSON", "BLOB", "BIT", "BINARY", "VARBINARY"}
ColStart(n, ty) == [name |-> n, ty |-> (CASE ty = "INTEGER" -> "INT" [] ty = "NUMERIC" -> "DECIMAL" [] OTHER -> ty), len |-> <<>>, nul |-> "NULL", un |-> FALSE, ai |-> FALSE,
                    def |-> <<"none", "">>, vals |-> <<>>, cs |-> "", co |-> "", pk |-> FALSE]
LowerMap == [u \in {UpMap[c] : c \in LowerSet} |-> CHOOSE c \in LowerSet : UpMap[c] = u]
LowSeq(s) == FoldS(LAMBDA acc, c : Append(acc, IF c \in DOMAIN LowerMap THEN LowerMap[c] ELSE c), <<>>, s)
Low(s) == Str(LowSeq(Chars(s)))
IsPlain(T, i) == IsName(T, i) /\ Tk(T, i).k = "word"
IsWordOrStr(T, i) == IsPlain(T, i) \/ IsStr(T, i)
RECURSIVE Attributes(_, _, _)
Attributes(T, i, c) ==
  CASE W2(T, i, "NOT", "NULL") -> Attributes(T, i + 2, [c EXCEPT !.nul = "NOT NULL"])
    [] W(T, i, "NULL") -> Attributes(T, i + 1, [c EXCEPT !.nul = "NULL"])
    [] W(T, i, "AUTO_INCREMENT") -> Attributes(T, i + 1, [c EXCEPT !.ai = TRUE])
    [] W2(T, i, "PRIMARY", "KEY") -> Attributes(T, i + 2, [c EXCEPT !.pk = TRUE])
    [] W2(T, i, "CHARACTER", "SET") /\ IsPlain(T, i + 2) /\ c.ty \in CharWords -> Attributes(T, i + 3, [c EXCEPT !.cs = Low(Tk(T, i + 2).s)])
    [] W(T, i, "COLLATE") /\ IsPlain(T, i + 1) -> Attributes(T, i + 2, [c EXCEPT !.co = Low(Tk(T, i + 1).s)])
    [] W2(T, i, "DEFAULT", "NULL") -> Attributes(T, i + 2, [c EXCEPT !.def = <<"null", "">>])
    [] W2(T, i, "DEFAULT", "CURRENT_TIMESTAMP") /\ c.ty \in {"DATETIME", "TIMESTAMP"} -> Attributes(T, i + 2, [c EXCEPT !.def = <<"now", "">>])
    [] W(T, i, "DEFAULT") /\ (IsStr(T, i + 1) \/ IsNum(T, i + 1)) -> Attributes(T, i + 2, [c EXCEPT !.def = <<"lit", Tk(T, i + 1).s>>])
    [] W(T, i, "DEFAULT") /\ Y(T, i + 1, "-") /\ IsNum(T, i + 2) -> Attributes(T, i + 3, [c EXCEPT !.def = <<"lit", "-" \o Tk(T, i + 2).s>>])
    [] OTHER -> [ok |-> TRUE, i |-> i, v |-> c]
ColumnAt(T, i) ==
  IF ~(IsName(T, i) /\ Tk(T, i + 1).k = "word" /\ Tk(T, i + 1).u \in TypeWords) THEN No(i)
  ELSE LET ty == Tk(T, i + 1).u
           c == ColStart(Tk(T, i).s, ty)
           l == IF Y(T, i + 2, "(") THEN (IF ty \in {"ENUM", "SET"} THEN List(T, i + 2, IsStr) ELSE List(T, i + 2, IsNum)) ELSE [ok |-> ty \notin {"ENUM", "SET", "VARCHAR"}, i |-> i + 2, v |-> <<>>]
           d == IF ty \in {"ENUM", "SET"} THEN [c EXCEPT !.vals = Vals(l)] ELSE [c EXCEPT !.len = Vals(l)]
           u == W(T, l.i, "UNSIGNED") /\ ty \in IntWords \cup {"DECIMAL", "NUMERIC", "FLOAT", "DOUBLE"}
       IN IF ~l.ok THEN No(i) ELSE Attributes(T, l.i + (IF u THEN 1 ELSE 0), [d EXCEPT !.un = u])
Actions == << <<"CASCADE">>, <<"RESTRICT">>, <<"SET", "NULL">>, <<"NO", "ACTION">> >>
ActionAt(T, i) == IF W2(T, i, "SET", "NULL") THEN [ok |-> TRUE, i |-> i + 2, v |-> "SET NULL"] ELSE IF W2(T, i, "NO", "ACTION") THEN [ok |-> TRUE, i |-> i + 2, v |-> "NO ACTION"]
                  ELSE IF W(T, i, "CASCADE") THEN [ok |-> TRUE, i |-> i + 1, v |-> "CASCADE"] ELSE IF W(T, i, "RESTRICT") THEN [ok |-> TRUE, i |-> i + 1, v |-> "RESTRICT"] ELSE No(i)
OnAt(T, i, what) == IF W2(T, i, "ON", what) THEN ActionAt(T, i + 2) ELSE [ok |-> TRUE, i |-> i, v |-> "RESTRICT"]
KeyAt(T, i) ==
  LET d == OnAt(T, i, "DELETE")  u == OnAt(T, d.i, "UPDATE") IN
  IF ~d.ok \/ ~u.ok THEN No(i) ELSE [ok |-> TRUE, i |-> u.i, v |-> <<d.v, u.v>>]
ForeignAt(T, i) ==
  IF ~(W(T, i, "CONSTRAINT") /\ IsName(T, i + 1) /\ W2(T, i + 2, "FOREIGN", "KEY")) THEN No(i)
  ELSE LET a == List(T, i + 4, IsName) IN
       IF ~(a.ok /\ Len(a.v) = 1 /\ W(T, a.i, "REFERENCES") /\ IsName(T, a.i + 1)) THEN No(i)
       ELSE LET b == List(T, a.i + 2, IsName)  on == IF b.ok THEN KeyAt(T, b.i) ELSE No(i) IN
            IF ~(b.ok /\ Len(b.v) = 1 /\ on.ok) THEN No(i)
            ELSE [ok |-> TRUE, i |-> on.i, v |-> [name |-> Tk(T, i + 1).s, col |-> a.v[1].s, rt |-> Tk(T, a.i + 1).s, rc |-> b.v[1].s, del |-> on.v[1], upd |-> on.v[2]]]
IsKeyWord(T, i) == W(T, i, "KEY") \/ W(T, i, "INDEX")
IndexAt(T, i) ==
  IF W2(T, i, "PRIMARY", "KEY") THEN LET l == List(T, i + 2, IsName) IN IF l.ok THEN [ok |-> TRUE, i |-> l.i, v |-> [name |-> "", kind |-> "PRIMARY", cols |-> Vals(l)]] ELSE No(i)
  ELSE IF W(T, i, "UNIQUE") THEN
    LET j == IF IsKeyWord(T, i + 1) THEN i + 2 ELSE i + 1
        named == IsName(T, j)
        l == List(T, IF named THEN j + 1 ELSE j, IsName) IN
    IF l.ok THEN [ok |-> TRUE, i |-> l.i, v |-> [name |-> IF named THEN Tk(T, j).s ELSE l.v[1].s, kind |-> "UNIQUE", cols |-> Vals(l)]] ELSE No(i)
  ELSE IF IsKeyWord(T, i) /\ IsName(T, i + 1) THEN LET l == List(T, i + 2, IsName) IN IF l.ok THEN [ok |-> TRUE, i |-> l.i, v |-> [name |-> Tk(T, i + 1).s, kind |-> "KEY", cols |-> Vals(l)]] ELSE No(i)
  ELSE No(i)
Blank == [cols |-> <<>>, idx |-> <<>>, fks |-> <<>>]
RECURSIVE ItemsRest(_, _, _)
ItemsRest(T, i, b) ==
  LET x == IndexAt(T, i)  f == IF x.ok THEN No(i) ELSE ForeignAt(T, i)  c == IF x.ok \/ f.ok THEN No(i) ELSE ColumnAt(T, i)
      e == IF x.ok THEN [ok |-> TRUE, i |-> x.i, v |-> [b EXCEPT !.idx = Append(@, x.v)]]
           ELSE IF f.ok THEN [ok |-> TRUE, i |-> f.i, v |-> [b EXCEPT !.fks = Append(@, f.v)]]
           ELSE IF c.ok THEN [ok |-> TRUE, i |-> c.i, v |-> [b EXCEPT !.cols = Append(@, c.v), !.idx = IF c.v.pk THEN Append(@, [name |-> "", kind |-> "PRIMARY", cols |-> <<c.v.name>>]) ELSE @]]
           ELSE No(i) IN
  IF ~e.ok THEN e
  ELSE IF Y(T, e.i, ",") THEN ItemsRest(T, e.i + 1, e.v)
  ELSE IF Y(T, e.i, ")") THEN [e EXCEPT !.i = @ + 1]
  ELSE No(e.i)
\* table options: [DEFAULT] CHARSET | [DEFAULT] COLLATE | ENGINE | AUTO_INCREMENT | COMMENT | ROW_FORMAT, with or without =
IsValue(T, i) == IsWordOrStr(T, i) \/ IsNum(T, i)
RECURSIVE OptionsRest(_, _, _)
OptionsRest(T, i, acc) ==
  IF i > Len(T) THEN [ok |-> TRUE, i |-> i, v |-> acc]
  ELSE LET d == W(T, i, "DEFAULT")  j == IF d THEN i + 1 ELSE i
           known == Tk(T, j).k = "word" /\ Tk(T, j).u \in (IF d THEN {"CHARSET", "COLLATE"} ELSE {"CHARSET", "COLLATE", "ENGINE", "AUTO_INCREMENT", "COMMENT", "ROW_FORMAT"})
           k == IF Y(T, j + 1, "=") THEN j + 2 ELSE j + 1 IN
       IF known /\ IsValue(T, k) THEN OptionsRest(T, k + 1, Append(acc, <<Tk(T, j).u, Tk(T, k).s>>)) ELSE No(i)
CreateAt(T) ==
  LET j == IF W2(T, 3, "IF", "NOT") /\ W(T, 5, "EXISTS") THEN 6 ELSE 3 IN
  IF ~(W2(T, 1, "CREATE", "TABLE") /\ IsName(T, j) /\ Y(T, j + 1, "(")) THEN No(1)
  ELSE LET b == ItemsRest(T, j + 2, Blank) IN
       IF ~b.ok THEN No(j) ELSE LET o == OptionsRest(T, b.i, <<>>) IN
       IF ~o.ok THEN No(b.i) ELSE [ok |-> TRUE, i |-> o.i, v |-> [kind |-> "create", name |-> Tk(T, j).s, cols |-> b.v.cols, idx |-> b.v.idx, fks |-> b.v.fks, opts |-> o.v, rows |-> <<>>]]
\* a value of a row: <<"null">> or <<"v", text>>
ValueAt(T, i) == IF W(T, i, "NULL") THEN [ok |-> TRUE, i |-> i + 1, v |-> <<"null", "">>]
                 ELSE IF IsStr(T, i) \/ IsNum(T, i) THEN [ok |-> TRUE, i |-> i + 1, v |-> <<"v", Tk(T, i).s>>]
                 ELSE IF Y(T, i, "-") /\ IsNum(T, i + 1) THEN [ok |-> TRUE, i |-> i + 2, v |-> <<"v", "-" \o Tk(T, i + 1).s>>] ELSE No(i)
RECURSIVE RowRest(_, _, _)
RowRest(T, i, acc) ==
  LET v == ValueAt(T, i) IN
  IF ~v.ok THEN v ELSE IF Y(T, v.i, ",") THEN RowRest(T, v.i + 1, Append(acc, v.v))
  ELSE IF Y(T, v.i, ")") THEN [ok |-> TRUE, i |-> v.i + 1, v |-> Append(acc, v.v)] ELSE No(v.i)
RECURSIVE RowsRest(_, _, _)
RowsRest(T, i, acc) ==
  LET r == IF Y(T, i, "(") THEN RowRest(T, i + 1, <<>>) ELSE No(i) IN
  IF ~r.ok THEN r ELSE IF Y(T, r.i, ",") THEN RowsRest(T, r.i + 1, Append(acc, r.v)) ELSE [ok |-> TRUE, i |-> r.i, v |-> Append(acc, r.v)]
InsertAt(T) ==
  IF ~(W2(T, 1, "INSERT", "INTO") /\ IsName(T, 3)) THEN No(1)
  ELSE LET l == List(T, 4, IsName) IN
       IF ~(l.ok /\ W(T, l.i, "VALUES")) THEN No(l.i)
       ELSE LET r == RowsRest(T, l.i + 1, <<>>) IN
            IF ~r.ok \/ r.i <= Len(T) \/ (\E n \in DOMAIN r.v : Len(r.v[n]) # Len(l.v)) THEN No(r.i)
            ELSE [ok |-> TRUE, i |-> r.i, v |-> [kind |-> "insert", name |-> Tk(T, 3).s, cols |-> Vals(l), idx |-> <<>>, fks |-> <<>>, opts |-> <<>>, rows |-> r.v]]
Statement(T) == LET c == CreateAt(T) IN IF c.ok THEN c ELSE InsertAt(T)
=============================================================================
