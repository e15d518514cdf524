-------------------------------- MODULE Rows --------------------------------
(* Tables with declared rows: what a server holds, what statements on rows do,  *)
(* what the rows have to be afterwards, and the cases the checks work on.        *)
EXTENDS Text, Json
CONSTANTS Focus, Seed, From, Upto, Deep

Nil == [n |-> TRUE, c |-> <<>>]
Val(s) == [n |-> FALSE, c |-> Chars(s)]
ValC(c) == [n |-> FALSE, c |-> c]
MapS(op(_), s) == FoldS(LAMBDA acc, x : Append(acc, op(x)), <<>>, s)
Flat(ss) == FoldS(LAMBDA acc, x : acc \o x, <<>>, ss)
MapN(op(_), n) == FoldS(LAMBDA acc, x : Append(acc, op(x)), <<>>, [i \in 1..n |-> i])
Sel(s, ok(_)) == FoldS(LAMBDA acc, x : IF ok(x) THEN Append(acc, x) ELSE acc, <<>>, s)
Rng(s) == {s[i] : i \in DOMAIN s}
IndexOf(s, x) == CHOOSE i \in DOMAIN s : s[i] = x
Cross(op(_, _), a, b) == Flat(MapN(LAMBDA i : MapN(LAMBDA j : op(a[i], b[j]), Len(b)), Len(a)))

\* ---- values as the server keeps them -----------------------------------------------
\* (numbers: without leading zeros, with the digits of their scale)
RECURSIVE Strip(_)
Strip(c) == IF Len(c) > 1 /\ c[1] = "0" /\ c[2] \in Digits THEN Strip(Tail(c)) ELSE c
Signed(c, op(_)) == IF c # <<>> /\ c[1] = "-" THEN LET r == op(Tail(c)) IN IF \A i \in DOMAIN r : r[i] \in {"0", "."} THEN r ELSE <<"-">> \o r ELSE IF c # <<>> /\ c[1] = "+" THEN op(Tail(c)) ELSE op(c)
Dot(c) == IF In(c, ".") THEN IndexOf(c, ".") ELSE Len(c) + 1
Digit0(c) == IF c = <<>> THEN <<"0">> ELSE c
RECURSIVE Pad(_, _)
Pad(c, n) == IF Len(c) >= n THEN c ELSE Pad(Append(c, "0"), n)
RECURSIVE Cut(_)
Cut(c) == IF c # <<>> /\ c[Len(c)] = "0" THEN Cut(SubSeq(c, 1, Len(c) - 1)) ELSE c
Dec2(c) == Strip(Digit0(SubSeq(c, 1, Dot(c) - 1))) \o <<".">> \o Pad(SubSeq(c, Dot(c) + 1, Len(c)), 2)
Real(c) == LET f == Cut(SubSeq(c, Dot(c) + 1, Len(c))) IN Strip(Digit0(SubSeq(c, 1, Dot(c) - 1))) \o (IF f = <<>> THEN <<>> ELSE <<".">> \o f)
Whole(c) == Strip(c)
Conv(ty, v) ==
  IF v.n THEN v
  ELSE CASE ty = "int" -> ValC(Signed(v.c, Whole)) [] ty = "dec" -> ValC(Signed(v.c, Dec2)) [] ty = "dbl" -> ValC(Signed(v.c, Real)) [] OTHER -> v

\* ---- tables ---------------------------------------------------------------------------
\* column: [name, ty, sql, nn, def, uq]; def = Nil: none (or NULL)
Col(n, ty, sql, nn, def) == [name |-> n, ty |-> ty, sql |-> sql, nn |-> nn, def |-> def, uq |-> FALSE]
IdInt == Col("id", "int", "INT NOT NULL", TRUE, Nil)
IdStr == Col("id", "str", "VARCHAR(190) NOT NULL", TRUE, Nil)
Str(n) == Col(n, "str", "VARCHAR(190)", FALSE, Nil)
Num(n) == Col(n, "int", "INT", FALSE, Nil)
\* table: [name, cols (as declared), lcols (as the server has them), there, live: rows (values along lcols), ins: inserts]
Tab(n, cols, live, ins) == [name |-> n, cols |-> cols, lcols |-> cols, there |-> TRUE, live |-> live, ins |-> ins]
NewTab(n, cols, ins) == [Tab(n, cols, <<>>, ins) EXCEPT !.there = FALSE]
Ins(cols, rows) == [cols |-> cols, rows |-> rows]
\* a literal: a value and its spelling (0: without quotes)
Lit(v, sty) == [n |-> v.n, c |-> v.c, sty |-> IF v.n THEN 0 ELSE sty]
NamesOf(cols) == MapS(LAMBDA c : c.name, cols)
ColOf(cols, n) == cols[IndexOf(NamesOf(cols), n)]
Has(cols, n) == \E i \in DOMAIN cols : cols[i].name = n

\* rows as functions from column names
AsRow(cols, vals) == [n \in Rng(NamesOf(cols)) |-> vals[IndexOf(NamesOf(cols), n)]]
\* a row of the old columns under the new ones
Under(cols, r) == [n \in Rng(NamesOf(cols)) |-> IF n \in DOMAIN r THEN r[n] ELSE ColOf(cols, n).def]
LiveRows(t) == MapS(LAMBDA vals : AsRow(t.lcols, vals), t.live)
DeclRows(t) ==      \* what is declared of each row
  Flat(MapS(LAMBDA in : MapS(LAMBDA vals : [n \in Rng(in.cols) |-> LET v == vals[IndexOf(in.cols, n)] IN Conv(ColOf(t.cols, n).ty, [n |-> v.n, c |-> v.c])], in.rows), t.ins))
Tracked(t) == t.ins # <<>>
DefRow(t) == [n \in Rng(NamesOf(t.cols)) |-> Conv(ColOf(t.cols, n).ty, ColOf(t.cols, n).def)]
Wanted(t) ==
  IF ~Tracked(t) THEN {Under(t.cols, r) : r \in Rng(LiveRows(t))}
  ELSE LET lr == Rng(LiveRows(t))
           one(d) == LET old == {r \in lr : r["id"] = d["id"]}
                         base == IF old = {} THEN DefRow(t) ELSE Under(t.cols, CHOOSE r \in old : TRUE)
                     IN [n \in DOMAIN base |-> IF n \in DOMAIN d THEN d[n] ELSE base[n]]
       IN {one(d) : d \in Rng(DeclRows(t))}
\* ids of rows which agree already
Agreeing(t) == LET w == Wanted(t) IN {r["id"] : r \in {x \in Rng(LiveRows(t)) : Under(t.cols, x) \in w /\ \A i \in DOMAIN t.cols : t.cols[i].name \in DOMAIN x \/ \A d \in Rng(DeclRows(t)) : t.cols[i].name \notin DOMAIN d}}

\* ---- statements on rows: state = sequence of rows of one table ------------------------------
Clash(t, rows, r) == \E i \in DOMAIN rows : rows[i]["id"] = r["id"] \/ \E c \in Rng(t.cols) : c.uq /\ ~r[c.name].n /\ rows[i][c.name] = r[c.name]
Missing(t, r) == \E c \in Rng(t.cols) : c.nn /\ r[c.name].n
ConvRow(t, r) == [n \in DOMAIN r |-> Conv(ColOf(t.cols, n).ty, r[n])]
InsertRow(t, rows, given) ==      \* given: function
  LET r == ConvRow(t, [n \in Rng(NamesOf(t.cols)) |-> IF n \in DOMAIN given THEN given[n] ELSE ColOf(t.cols, n).def]) IN
  IF ~(DOMAIN given \subseteq Rng(NamesOf(t.cols))) THEN [rows |-> rows, err |-> "1054"]
  ELSE IF Missing(t, r) THEN [rows |-> rows, err |-> "1048"]
  ELSE IF Clash(t, rows, r) THEN [rows |-> rows, err |-> "1062"]
  ELSE [rows |-> Append(rows, r), err |-> ""]
UpdateRows(t, rows, given, id) ==
  LET hit == {i \in DOMAIN rows : rows[i]["id"] = Conv(ColOf(t.cols, "id").ty, id)} IN
  IF ~(DOMAIN given \subseteq Rng(NamesOf(t.cols))) THEN [rows |-> rows, err |-> "1054"]
  ELSE IF hit = {} THEN [rows |-> rows, err |-> ""]
  ELSE LET i == CHOOSE i \in hit : TRUE
           r == ConvRow(t, [n \in DOMAIN rows[i] |-> IF n \in DOMAIN given THEN given[n] ELSE rows[i][n]])
           others == Sel([j \in DOMAIN rows |-> IF j = i THEN <<>> ELSE <<rows[j]>>], LAMBDA x : x # <<>>)
       IN IF Missing(t, r) THEN [rows |-> rows, err |-> "1048"]
          ELSE IF Clash(t, MapS(LAMBDA x : x[1], others), r) THEN [rows |-> rows, err |-> "1062"]
          ELSE [rows |-> MapN(LAMBDA j : IF j = i THEN r ELSE rows[j], Len(rows)), err |-> ""]
DeleteRows(t, rows, ids) == Sel(rows, LAMBDA r : \A j \in DOMAIN ids : r["id"] # Conv(ColOf(t.cols, "id").ty, ids[j]))

\* ---- cases: texts -----------------------------------------------------------------------------
Alphabet == << "'", "\"", "\\", "`", ",", "(", ")", ";", "-", "#", "a", "N", "0", " ", "\n", "%", "/", "*" >>
Up2 == << <<>> >> \o MapS(LAMBDA c : <<c>>, Alphabet) \o Cross(LAMBDA a, b : <<a, b>>, Alphabet, Alphabet)
Up3 == Up2 \o Cross(LAMBDA ab, c : ab \o <<c>>, Cross(LAMBDA a, b : <<a, b>>, Alphabet, Alphabet), Alphabet)
Special == MapS(Chars, << "NULL", "null", "None", "Null", "'NULL'", "0", "007", "1.0", "1.50", "-1", "1e3", "TRUE", "true", "\\n", "\\'", "\\\\", "''", "'", "''''", "\"\"", "it's", "say \"hi\"", "C:\\dir\\", "a\\", "%s", "%d %(x)s", "100%", "{}", "{0}",
  "--", "-- x", "a -- b", "/*", "/* a */", "*/", "#", "a # b", ");", "'); DROP TABLE t; --", "INSERT INTO `t` (`id`) VALUES (1);", "CREATE TABLE x (id INT);", "(1,2),(3,4)", "a,b", "a, b", " a", "a ", "  ", "\t", "a\tb", "\n", "a\nb", "\r\n", "line1\n-- line2\nline3",
  "`", "``", "`id`", "'a','b'", "');\n", ";", ";;", "a;b", "x'y\"z`w\\", "\\\"", "\\\\'", "0x41", "b'1'", "@a", "?", ":a", "&amp;", "<b>", "2020-01-01", "NOW()", "abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyz" >>)
Values == Special \o (IF Deep THEN Up3 ELSE Up2)
Batch == 5
Roles == << "new", "insert", "update", "null", "same", "ids", "mixed" >>
TextCase(role, vs, sty) ==
  LET n == Len(vs)
      st(k) == 1 + ((sty + k) % 6)
      id(k) == Chars(ToString(k))
      cols == << IdInt, Str("v"), Str("w") >>
      names == << "id", "v", "w" >>
      decl == MapN(LAMBDA k : << Lit(ValC(id(k)), IF k % 2 = 0 THEN 0 ELSE st(k)), Lit(ValC(vs[k]), st(k)), Lit(ValC(vs[1 + (k % n)]), st(k + 1)) >>, n)
      distinct == Sel(MapN(LAMBDA k : k, n), LAMBDA k : vs[k] # <<>>)
  IN CASE role = "new" -> << NewTab("t", cols, << Ins(names, decl) >>) >>
       [] role = "insert" -> << Tab("t", cols, << <<Val("99"), Val("x"), Nil>> >>, << Ins(names, decl) >>) >>
       [] role = "update" -> << Tab("t", cols, MapN(LAMBDA k : << ValC(id(k)), Val("other"), ValC(vs[1 + (k % n)]) >>, n), << Ins(names, decl) >>) >>
       [] role = "null" -> << Tab("t", cols, MapN(LAMBDA k : << ValC(id(k)), IF k % 2 = 0 THEN Nil ELSE ValC(vs[k]), IF k % 2 = 0 THEN ValC(vs[k]) ELSE Nil >>, n),
                                  << Ins(names, MapN(LAMBDA k : << Lit(ValC(id(k)), 0), IF k % 2 = 0 THEN Lit(ValC(vs[k]), st(k)) ELSE Lit(Nil, 0), IF k % 2 = 0 THEN Lit(Nil, 0) ELSE Lit(ValC(vs[k]), st(k)) >>, n)) >>) >>
       [] role = "same" -> << Tab("t", cols, MapN(LAMBDA k : << ValC(id(k)), ValC(vs[k]), ValC(vs[1 + (k % n)]) >>, n), << Ins(names, decl) >>) >>
       [] role = "ids" ->     \* every third is deleted, every third is changed, every third is new
            << Tab("t", << IdStr, Str("v") >>, MapS(LAMBDA k : << ValC(vs[k]), Val("old") >>, Sel(distinct, LAMBDA k : (k + sty) % 3 # 0)),
                   << Ins(<<"id", "v">>, << << Lit(Val("keep"), 1), Lit(Val("x"), 1) >> >> \o MapS(LAMBDA k : << Lit(ValC(vs[k]), st(k)), Lit(Val("new"), 1) >>, Sel(distinct, LAMBDA k : (k + sty) % 3 # 1))) >>) >>
       [] role = "mixed" ->   \* one value under one name of a column, several inserts, the other order of columns
            << Tab("t", cols, << << Val("1"), ValC(vs[1]), Nil >>, << Val("2"), Val("b"), ValC(vs[1]) >> >>,
                   MapN(LAMBDA k : Ins(<<"w", "id">>, << << Lit(ValC(vs[k]), st(k)), Lit(ValC(id(k)), 0) >> >>), n)) >>
NBatches == (Len(Values) + Batch - 1) \div Batch
TextCases(i) ==      \* the cases of the i-th batch
  LET vs == SubSeq(Values, (i - 1) * Batch + 1, IF i * Batch > Len(Values) THEN Len(Values) ELSE i * Batch) IN
  Flat(MapN(LAMBDA r : IF Deep THEN MapN(LAMBDA s : TextCase(Roles[r], vs, s), 3) ELSE << TextCase(Roles[r], vs, Seed + i + r) >>, Len(Roles)))

\* ---- cases: all states of a few rows ---------------------------------------------------------------
\* what the server has of a row, what is declared of it
LiveStates == << <<>>, <<Val("a"), Val("1")>>, <<Val("b"), Val("1")>>, <<Val("a"), Nil>>, <<Nil, Nil>> >>
DeclStates == << <<>>, <<Val("a"), Val("1")>>, <<Val("b"), Nil>>, <<Val("a")>>, <<Nil>> >>       \* one value: only v is declared
StateCase(ls, ds, way) ==
  LET n == Len(ls)
      cols == << IdInt, Str("v"), Num("n") >>
      id(k) == Val(ToString(k + 8))
      live == Flat(MapN(LAMBDA k : IF ls[k] = <<>> THEN <<>> ELSE << << id(k) >> \o ls[k] >>, n))
      rowin(k) == Ins(IF Len(ds[k]) = 1 THEN <<"id", "v">> ELSE <<"n", "id", "v">>,
                      << IF Len(ds[k]) = 1 THEN << Lit(id(k), (k + way) % 2), Lit(ds[k][1], 1) >> ELSE << Lit(ds[k][2], way % 2), Lit(id(k), way % 2), Lit(ds[k][1], 3) >> >>)
      ks == Sel(MapN(LAMBDA k : IF way = 2 THEN n + 1 - k ELSE k, n), LAMBDA k : ds[k] # <<>>)
      last == Ins(<<"id">>, << <<Lit(Val("77"), 0)>> >>)
  IN << Tab("t", cols, live, MapS(rowin, ks) \o << last >>) >>
LiveSeqs(n) == IF n = 2 THEN Cross(LAMBDA a, b : <<a, b>>, LiveStates, LiveStates) ELSE Cross(LAMBDA ab, c : ab \o <<c>>, Cross(LAMBDA a, b : <<a, b>>, LiveStates, LiveStates), LiveStates)
DeclSeqs(n) == IF n = 2 THEN Cross(LAMBDA a, b : <<a, b>>, DeclStates, DeclStates) ELSE Cross(LAMBDA ab, c : ab \o <<c>>, Cross(LAMBDA a, b : <<a, b>>, DeclStates, DeclStates), DeclStates)

\* ---- cases: types -------------------------------------------------------------------------------------
\* [column, declared texts (with whether they may stand without quotes)]
Types == <<
  [c |-> Col("c", "int", "INT", FALSE, Nil), v |-> << "0", "5", "-3", "007", "2147483647", "-0" >>, raw |-> TRUE],
  [c |-> Col("c", "int", "TINYINT(1) NOT NULL DEFAULT 0", TRUE, Val("0")), v |-> << "0", "1" >>, raw |-> TRUE],
  [c |-> Col("c", "int", "BIGINT UNSIGNED", FALSE, Nil), v |-> << "18446744073709551615", "12345678901234567890" >>, raw |-> TRUE],
  [c |-> Col("c", "int", "YEAR", FALSE, Nil), v |-> << "2020", "1999" >>, raw |-> TRUE],
  [c |-> Col("c", "dec", "DECIMAL(10,2)", FALSE, Nil), v |-> << "0", "1.5", "1.50", "-2.25", "10", "0.05", "00.5", "-0.00" >>, raw |-> TRUE],
  [c |-> Col("c", "dbl", "DOUBLE", FALSE, Nil), v |-> << "0", "1.5", "-2.25", "10", "10.0", "0.5" >>, raw |-> TRUE],
  [c |-> Col("c", "str", "CHAR(20)", FALSE, Nil), v |-> << "0", "00", "1.0", "None", "NULL", "", "a" >>, raw |-> FALSE],
  [c |-> Col("c", "str", "TEXT", FALSE, Nil), v |-> << "0", "1", "01", "1.0", "None", "True", "", "a" >>, raw |-> FALSE],
  [c |-> Col("c", "blob", "BLOB", FALSE, Nil), v |-> << "", "a", "it's", "b'x'" >>, raw |-> FALSE],
  [c |-> Col("c", "blob", "VARBINARY(20)", FALSE, Nil), v |-> << "", "a", "1" >>, raw |-> FALSE],
  [c |-> Col("c", "date", "DATE", FALSE, Nil), v |-> << "2020-01-02", "1999-12-31" >>, raw |-> FALSE],
  [c |-> Col("c", "datetime", "DATETIME", FALSE, Nil), v |-> << "2020-01-02 00:00:00", "2020-01-02 03:04:05" >>, raw |-> FALSE],
  [c |-> Col("c", "datetime", "TIMESTAMP NULL", FALSE, Nil), v |-> << "2020-01-02 00:00:00", "2020-01-02 03:04:05" >>, raw |-> FALSE],
  [c |-> Col("c", "time", "TIME", FALSE, Nil), v |-> << "00:00:00", "01:02:03", "-01:02:03", "30:00:00", "838:59:59" >>, raw |-> FALSE],
  [c |-> Col("c", "str", "ENUM('a','b','1','0')", FALSE, Nil), v |-> << "a", "b", "1", "0" >>, raw |-> FALSE],
  [c |-> Col("c", "str", "SET('a','b')", FALSE, Nil), v |-> << "a", "a,b", "" >>, raw |-> FALSE],
  [c |-> Col("c", "str", "JSON", FALSE, Nil), v |-> << "{\"a\": 1}", "[]", "null" >>, raw |-> FALSE] >>
TypeCase(t, d, l, way) ==      \* d, l: index into the values, 0: NULL; l = -1: no row
  LET cols == << IdInt, t.c, Str("z") >>
      v(i) == IF i = 0 THEN Nil ELSE Val(t.v[i])
      raw == IF t.raw /\ way = 1 THEN 0 ELSE 1
  IN << Tab("t", cols, IF l = -1 THEN <<>> ELSE << << Val("1"), Conv(t.c.ty, v(l)), Val("z") >> >>, << Ins(<<"id", "c">>, << << Lit(Val("1"), raw), Lit(v(d), raw) >> >>) >>) >>
TypeCases(t) == Flat(MapN(LAMBDA d1 : Flat(MapN(LAMBDA l1 : IF t.c.nn /\ (d1 = 1 \/ l1 = 2) THEN <<>> ELSE MapN(LAMBDA w : TypeCase(t, d1 - 1, l1 - 2, w), IF t.raw THEN 2 ELSE 1), Len(t.v) + 2)), Len(t.v) + 1))

\* ---- cases: unique values ------------------------------------------------------------------------------
UVals == << Nil, Val("a"), Val("b"), Val("c") >>
UStates(n) ==     \* for each id: 0 absent, 1 NULL, 2.. value; no value twice
  LET all == Cross(LAMBDA ab, c : ab \o <<c>>, Cross(LAMBDA a, b : <<a, b>>, <<0, 1, 2, 3, 4>>, <<0, 1, 2, 3, 4>>), <<0, 1, 2, 3, 4>>)
  IN Sel(all, LAMBDA s : \A i, j \in 1..3 : i = j \/ s[i] < 2 \/ s[i] # s[j])
UCase(l, d) ==
  LET cols == << IdInt, [Str("u") EXCEPT !.uq = TRUE] >>
      rows(s, op(_)) == Flat(MapN(LAMBDA k : IF s[k] = 0 THEN <<>> ELSE << << op(Val(ToString(k))), op(UVals[s[k]]) >> >>, 3))
      id(v) == v
      lit(v) == Lit(v, 1)
      dr == rows(d, lit)
  IN << Tab("t", cols, rows(l, id), << Ins(<<"id", "u">>, IF dr = <<>> THEN << << Lit(Val("9"), 0), Lit(Nil, 0) >> >> ELSE dr) >>) >>

\* ---- cases: several tables, drawn -----------------------------------------------------------------------------
P == 32749
Mix(s, k) == LET a == (s % P) * 173 + (k % P) * 16381 + 7
                 b == a % P
                 c == (b * b + (s % P) * 31 + k) % P
                 d == (c * 21401 + 12345) % P
             IN (d * d + b) % P
DrawTab(s, i) ==
  LET r(k) == Mix(s * 7 + i, k)
      extra == << [Num("n") EXCEPT !.def = IF r(1) % 2 = 0 THEN Nil ELSE Val("4"), !.sql = IF r(1) % 2 = 0 THEN "INT" ELSE "INT DEFAULT 4"],
                  [Str("s") EXCEPT !.def = Val(""), !.nn = TRUE, !.sql = "VARCHAR(190) NOT NULL DEFAULT ''"],
                  Col("d", "dec", "DECIMAL(10,2)", FALSE, Nil), Str("v") >>
      cols == << IdInt >> \o Sel(extra, LAMBDA c : r(10 + IndexOf(extra, c)) % 4 # 0)
      lcols == << IdInt >> \o Sel(extra, LAMBDA c : r(20 + IndexOf(extra, c)) % 4 # 0)
      pool(c) == CASE c.ty = "int" -> <<"0", "1", "12">> [] c.ty = "dec" -> <<"0.00", "1.50", "12.00">> [] OTHER -> <<"", "x", "it's">>
      pick(c, k) == IF ~c.nn /\ k % 4 = 0 THEN Nil ELSE Val(pool(c)[1 + (k % 3)])
      liveids == Sel(<<1, 2, 3, 10>>, LAMBDA k : r(30 + k) % 3 # 0)
      declids == Sel(<<10, 2, 1, 3, 4>>, LAMBDA k : r(50 + k) % 3 # 0)
      live == MapS(LAMBDA k : MapS(LAMBDA c : IF c.name = "id" THEN Val(ToString(k)) ELSE pick(c, r(70 + k * 5 + IndexOf(NamesOf(lcols), c.name))), lcols), liveids)
      dcols(k) == << "id" >> \o Sel(NamesOf(Tail(cols)), LAMBDA n : r(200 + k + Len(n) + (IF n = "s" THEN 3 ELSE IF n = "d" THEN 5 ELSE 0)) % 3 # 0)
      rot(ns) == IF r(9) % 2 = 0 THEN ns ELSE Tail(ns) \o <<Head(ns)>>
      ins == MapS(LAMBDA k : LET ns == rot(dcols(k)) IN
                 Ins(ns, << MapS(LAMBDA n : IF n = "id" THEN Lit(Val(ToString(k)), 0) ELSE LET c == ColOf(cols, n)  v == IF r(400 + k) % 2 = 0 /\ Has(lcols, n) /\ k \in Rng(liveids) THEN live[IndexOf(liveids, k)][IndexOf(NamesOf(lcols), n)] ELSE pick(c, r(300 + k * 7 + IndexOf(NamesOf(cols), n))) IN Lit(v, 1 + (r(350 + k) % 6)), ns) >>), declids)
      there == r(2) % 6 # 0
  IN [name |-> << "t", "rows", "b", "key" >>[i], cols |-> cols, lcols |-> IF there THEN lcols ELSE cols, there |-> there, live |-> IF there THEN live ELSE <<>>, ins |-> IF r(3) % 4 = 0 THEN <<>> ELSE ins]
DrawCase(s) == MapN(LAMBDA i : DrawTab(s, i), 1 + (Mix(s, 3) % 4))

\* ---- the cases of a focus, in numbered groups ------------------------------------------------------------------
Groups ==
  CASE Focus = "texts" -> NBatches [] Focus = "states" -> Len(LiveSeqs(IF Deep THEN 3 ELSE 2)) [] Focus = "types" -> Len(Types) [] Focus = "unique" -> Len(UStates(3)) [] Focus = "draw" -> 1000000
GroupCases(i) ==
  CASE Focus = "texts" -> TextCases(i)
    [] Focus = "states" -> LET n == IF Deep THEN 3 ELSE 2  l == TLCGet(5)[i] IN MapN(LAMBDA j : StateCase(l, TLCGet(6)[j], (i + j) % 3), Len(TLCGet(6)))
    [] Focus = "types" -> TypeCases(Types[i])
    [] Focus = "unique" -> LET us == TLCGet(5) IN MapN(LAMBDA j : UCase(us[i], us[j]), Len(us))
    [] Focus = "draw" -> << DrawCase(Seed * 1009 + i) >>
LitText(l) == IF l.n THEN Chars("NULL") ELSE IF l.sty = 0 THEN l.c ELSE Enc(l.c, Styles[l.sty][1], Styles[l.sty][2])
WithText(case) == MapS(LAMBDA t : [t EXCEPT !.ins = MapS(LAMBDA in : [cols |-> in.cols, rows |-> in.rows, lits |-> MapS(LAMBDA r : MapS(LitText, r), in.rows)], @)], case)

VARIABLE g
Init == /\ g = From - 1
        /\ TLCSet(5, CASE Focus = "states" -> LiveSeqs(IF Deep THEN 3 ELSE 2) [] Focus = "unique" -> UStates(3) [] OTHER -> <<>>)
        /\ TLCSet(6, IF Focus = "states" THEN DeclSeqs(IF Deep THEN 3 ELSE 2) ELSE <<>>)
        /\ PrintT("@@" \o ToJson([groups |-> Groups]))
Next == /\ g < Upto /\ g < Groups
        /\ g' = g + 1
        /\ \A c \in {GroupCases(g + 1)} : \A k \in DOMAIN c : PrintT("@@" \o ToJson([group |-> g + 1, tabs |-> WithText(c[k])]))
=============================================================================
