------------------------------ MODULE Universe ------------------------------
(* The sets of schemas which the checks work on, one "focus" per concern, each *)
(* exhaustive over its dimensions; the last ones drawn from a much larger      *)
(* space by index, the seed choosing the part that is looked at.               *)
EXTENDS Decl
CONSTANTS Focus, Seed, Size

\* ---- building blocks ---------------------------------------------------------
Lit(s) == [k |-> "lit", s |-> s, num |-> FALSE, n |-> 0]
Num(s, n) == [k |-> "lit", s |-> s, num |-> TRUE, n |-> n]         \* quoted number; n = value * 10^4
RawNum(s, n) == [k |-> "raw", s |-> s, num |-> TRUE, n |-> n]       \* written without quotes
NullDef == [NoDef EXCEPT !.k = "null"]
NowDef == [NoDef EXCEPT !.k = "now"]
C(n, ty) == [name |-> n, ty |-> ty, len |-> <<>>, nul |-> "", un |-> FALSE, ai |-> FALSE, def |-> NoDef, vals |-> <<>>, cs |-> "", co |-> "", o |-> "new"]
L(c, l) == [c EXCEPT !.len = l]
NN(c) == [c EXCEPT !.nul = "NOT NULL"]
Nul(c) == [c EXCEPT !.nul = "NULL"]
U(c) == [c EXCEPT !.un = TRUE]
AI(c) == [c EXCEPT !.ai = TRUE]
D(c, d) == [c EXCEPT !.def = d]
V(c, v) == [c EXCEPT !.vals = v]
Cs(c, cs, co) == [c EXCEPT !.cs = cs, !.co = co]
IntC(n) == C(n, "INT")
IdC == NN(IntC("id"))
PK(cols) == [name |-> "", kind |-> "PRIMARY", cols |-> cols]
K(n, cols) == [name |-> n, kind |-> "KEY", cols |-> cols]
UK(n, cols) == [name |-> n, kind |-> "UNIQUE", cols |-> cols]
FK(n, col, rt, rc, del, upd) == [name |-> n, col |-> col, rt |-> rt, rc |-> rc, del |-> del, upd |-> upd]
T(n, cols, idx, fks) == [t |-> "create", name |-> n, cols |-> cols, idx |-> idx, fks |-> fks, cs |-> "", co |-> ""]
Opt(t, cs, co) == [t EXCEPT !.cs = cs, !.co = co]

Flat(ss) == FoldS(LAMBDA acc, x : acc \o x, <<>>, ss)
Map(op(_), s) == FoldS(LAMBDA acc, x : Append(acc, op(x)), <<>>, s)
Cross(op(_, _), a, b) == Flat(MapI(LAMBDA i : MapI(LAMBDA j : op(a[i], b[j]), Len(b)), Len(a)))
RECURSIVE SubSeqs(_, _)      \* all subsequences of s with at most k elements
SubSeqs(s, k) == IF s = <<>> \/ k = 0 THEN <<<<>>>>
                 ELSE LET r == SubSeqs(Tail(s), k) IN r \o Map(LAMBDA x : <<Head(s)>> \o x, SubSeqs(Tail(s), k - 1))
RECURSIVE Perms(_)
Perms(s) == IF s = <<>> THEN <<<<>>>>
            ELSE Flat(MapI(LAMBDA i : Map(LAMBDA x : <<s[i]>> \o x, Perms(MapI(LAMBDA j : IF j < i THEN s[j] ELSE s[j+1], (Len(s)-1)))), Len(s)))

\* ---- columns: which and in what order -----------------------------------------
Cols(thorough) ==
  LET pool == <<"a", "b", "c", "d">>
      sets == Sel(SubSeqs(pool, IF thorough THEN 4 ELSE 3), LAMBDA s : s # <<>>)
      seqs == Flat(Map(Perms, sets))
  IN Map(LAMBDA s : << T("t", Map(LAMBDA n : IntC(n), s), <<>>, <<>>) >>, seqs)

\* ---- columns: every kind of attribute ------------------------------------------
Variants == <<
  IntC("c"), NN(IntC("c")), D(IntC("c"), NullDef), Nul(IntC("c")), L(IntC("c"), <<10>>), L(U(IntC("c")), <<10>>), U(IntC("c")),
  D(IntC("c"), Num("0", 0)), NN(D(IntC("c"), Num("0", 0))), NN(D(IntC("c"), RawNum("0", 0))), NN(D(IntC("c"), Num("5", 50000))), NN(D(IntC("c"), RawNum("-5", -50000))),
  NN(D(U(IntC("c")), Num("007", 70000))), C("c", "INTEGER"),
  L(NN(D(C("c", "TINYINT"), Num("1", 10000))), <<1>>), NN(D(C("c", "BOOL"), Num("1", 10000))), C("c", "BOOLEAN"), L(C("c", "TINYINT"), <<4>>),
  C("c", "SMALLINT"), C("c", "MEDIUMINT"), L(U(C("c", "BIGINT")), <<20>>), NN(C("c", "BIGINT")),
  C("c", "BIT"), NN(D(C("c", "BIT"), Num("0", 0))), NN(D(C("c", "BIT"), Num("1", 10000))),
  C("c", "DECIMAL"), L(C("c", "DECIMAL"), <<10>>), L(C("c", "DECIMAL"), <<10, 2>>), L(C("c", "NUMERIC"), <<10, 2>>), L(U(C("c", "DECIMAL")), <<10, 2>>),
  NN(D(L(C("c", "DECIMAL"), <<10, 2>>), Num("0", 0))), NN(D(L(C("c", "DECIMAL"), <<10, 2>>), Num("0.00", 0))), NN(D(L(C("c", "DECIMAL"), <<10, 2>>), Num("0.5", 5000))),
  NN(D(L(C("c", "DECIMAL"), <<10, 2>>), Num("-1.25", -12500))), NN(D(L(C("c", "DECIMAL"), <<12, 4>>), Num("0.5", 5000))), NN(D(L(C("c", "DECIMAL"), <<10, 1>>), RawNum("0.5", 5000))),
  C("c", "FLOAT"), NN(D(C("c", "FLOAT"), Num("0.5", 5000))), NN(D(C("c", "FLOAT"), Num("0", 0))), NN(D(C("c", "DOUBLE"), Num("0.0", 0))), U(C("c", "DOUBLE")),
  C("c", "CHAR"), L(C("c", "CHAR"), <<1>>), L(C("c", "CHAR"), <<5>>), NN(D(L(C("c", "CHAR"), <<2>>), Lit("01"))),
  L(C("c", "VARCHAR"), <<20>>), L(C("c", "VARCHAR"), <<255>>), NN(D(L(C("c", "VARCHAR"), <<20>>), Lit(""))), NN(L(C("c", "VARCHAR"), <<20>>)), D(L(C("c", "VARCHAR"), <<20>>), Lit("")),
  NN(D(L(C("c", "VARCHAR"), <<20>>), Lit("abc"))), NN(D(L(C("c", "VARCHAR"), <<20>>), Lit("ABC"))), NN(D(L(C("c", "VARCHAR"), <<20>>), Lit("0"))), NN(D(L(C("c", "VARCHAR"), <<20>>), Lit("0.0"))), NN(D(L(C("c", "VARCHAR"), <<20>>), Lit("007"))),
  NN(D(L(C("c", "VARCHAR"), <<20>>), Lit("it's"))), NN(D(L(C("c", "VARCHAR"), <<20>>), Lit("a, b (c) -- d; e"))), NN(D(L(C("c", "VARCHAR"), <<20>>), Lit("x\\y"))), NN(D(L(C("c", "VARCHAR"), <<20>>), Lit("say \"hi\""))), NN(D(L(C("c", "VARCHAR"), <<20>>), Lit("null"))),
  NN(D(V(C("c", "ENUM"), <<"it's", "b,c", "d e">>), Lit("d e"))), NN(D(V(C("c", "ENUM"), <<"it's", "b", "c">>), Lit("it's"))), V(C("c", "SET"), <<"a)", "(b", "x\\y">>),
  Cs(L(C("c", "VARCHAR"), <<20>>), "latin1", ""), Cs(L(C("c", "VARCHAR"), <<20>>), "latin1", "latin1_bin"), Cs(L(C("c", "VARCHAR"), <<20>>), "", "utf8mb4_bin"),
  C("c", "TEXT"), NN(C("c", "TEXT")), C("c", "MEDIUMTEXT"), C("c", "LONGTEXT"), C("c", "BLOB"), NN(C("c", "LONGBLOB")), C("c", "JSON"),
  L(C("c", "BINARY"), <<16>>), L(C("c", "VARBINARY"), <<16>>), NN(L(C("c", "BINARY"), <<1>>)),
  V(C("c", "ENUM"), <<"a", "b">>), NN(D(V(C("c", "ENUM"), <<"a", "b">>), Lit("a"))), NN(D(V(C("c", "ENUM"), <<"a", "b">>), Lit("b"))), V(C("c", "ENUM"), <<"b", "a">>), V(C("c", "ENUM"), <<"a", "b", "c">>),
  V(C("c", "SET"), <<"a", "b">>), NN(D(V(C("c", "SET"), <<"a", "b">>), Lit("a"))), Cs(V(C("c", "ENUM"), <<"a", "b">>), "latin1", ""),
  C("c", "DATE"), NN(C("c", "DATE")), NN(D(C("c", "DATE"), Lit("2020-01-01"))), D(C("c", "DATE"), Lit("2020-01-01")), NN(D(C("c", "TIME"), Lit("00:00:00"))), C("c", "YEAR"),
  C("c", "DATETIME"), NN(D(C("c", "DATETIME"), Lit("2020-01-01 00:00:00"))), NN(D(C("c", "DATETIME"), NowDef)), D(C("c", "DATETIME"), NowDef),
  NN(D(C("c", "TIMESTAMP"), NowDef)), Nul(C("c", "TIMESTAMP")), NN(D(C("c", "TIMESTAMP"), Lit("2020-01-01 00:00:00"))) >>
Kinds == Map(LAMBDA c : << T("t", << IdC, c >>, << PK(<<"id">>) >>, <<>>) >>, Variants)

\* ---- primary key and indexes -----------------------------------------------------
Indexes(thorough) ==
  LET pool == << K("ka", <<"a">>), K("kb", <<"b">>), K("k", <<"a">>), K("k", <<"b">>), K("kab", <<"a", "b">>), K("kba", <<"b", "a">>), UK("k", <<"a">>), UK("u", <<"a", "b">>), K("u", <<"a", "b">>) >>
      sets == Sel(SubSeqs(pool, IF thorough THEN 3 ELSE 2), LAMBDA s : ~HasDup(Names(s)))
      pks == << <<>>, <<PK(<<"id">>)>>, <<PK(<<"id", "a">>)>>, <<PK(<<"a", "id">>)>>, <<PK(<<"b">>)>> >>
      cols == << IdC, NN(IntC("a")), NN(IntC("b")) >>
  IN Cross(LAMBDA p, s : << T("t", cols, p \o s, <<>>) >>, pks, sets)
\* indexes over columns that come and go
IndexCols ==
  LET colsets == << <<"id", "a">>, <<"id", "b">>, <<"id", "a", "b">>, <<"id">> >>
      pool == << K("ka", <<"a">>), K("k", <<"b">>), K("k", <<"a">>), K("kab", <<"a", "b">>), UK("k", <<"id", "b">>), K("kid", <<"id">>) >>
      pks == << <<>>, <<PK(<<"id">>)>>, <<PK(<<"id", "a">>)>>, <<PK(<<"b", "id">>)>> >>
      all == Flat(Map(LAMBDA cs : Cross(LAMBDA p, s : << T("t", Map(LAMBDA n : NN(IntC(n)), cs), p \o s, <<>>) >>, pks, Sel(SubSeqs(pool, 2), LAMBDA s : ~HasDup(Names(s)))), colsets))
  IN Sel(all, LAMBDA d : \A x \in Rng(d[1].idx) : Rng(x.cols) \subseteq NameSet(d[1].cols))

\* ---- auto increment and its key ----------------------------------------------------
AutoInc ==
  LET pks == << <<>>, <<PK(<<"id">>)>>, <<PK(<<"a">>)>>, <<PK(<<"id", "a">>)>>, <<PK(<<"a", "id">>)>>, <<PK(<<"id", "b">>)>> >>
      ks == << <<>>, <<K("kid", <<"id">>)>>, <<K("ka", <<"a">>)>> >>
      ais == << "", "id", "a" >>
      colsets == << <<"id", "a", "b">>, <<"b", "id">>, <<"a", "b">> >>
      one(cs, p, k, ai) == << T("t", Map(LAMBDA n : IF n = ai THEN AI(NN(IntC(n))) ELSE NN(IntC(n)), cs), p \o k, <<>>) >>
      all == Flat(Map(LAMBDA cs : Flat(Map(LAMBDA p : Flat(Map(LAMBDA k : Map(LAMBDA ai : one(cs, p, k, ai), ais), ks)), pks)), colsets))
      ok(d) == LET t == d[1]  ai == {c.name : c \in {x \in Rng(t.cols) : x.ai}} IN
        /\ \A x \in Rng(t.idx) : Rng(x.cols) \subseteq NameSet(t.cols)
        /\ \A n \in ai : \E x \in Rng(t.idx) : x.kind = "PRIMARY" /\ x.cols[1] = n
  IN Sel(all, ok)

\* ---- one foreign key, seen from all sides --------------------------------------------
KeyCol(n, kind) == CASE kind = "int" -> IntC(n) [] kind = "uint" -> U(IntC(n)) [] kind = "big" -> U(C(n, "BIGINT")) [] kind = "str" -> L(C(n, "VARCHAR"), <<20>>) [] OTHER -> L(C(n, "CHAR"), <<20>>)
OneFk ==
  LET kinds == << "int", "uint", "big", "str" >>
      fks == << <<>>, <<"f", "id", "RESTRICT", "RESTRICT">>, <<"f", "id", "CASCADE", "RESTRICT">>, <<"f", "id", "SET NULL", "CASCADE">>, <<"g", "id", "RESTRICT", "RESTRICT">>, <<"f", "code", "RESTRICT", "RESTRICT">>, <<"pid", "id", "RESTRICT", "RESTRICT">> >>
      idxs == << "pid", "f", "other" >>
      one(k, f, x) ==
        << T("c", << IdC, KeyCol("pid", k), IntC("x") >>, << PK(<<"id">>), K(x, <<"pid">>) >>, IF f = <<>> THEN <<>> ELSE << FK(f[1], "pid", "p", f[2], f[3], f[4]) >>),
           T("p", << NN(KeyCol("id", k)), KeyCol("code", k) >>, << PK(<<"id">>), UK("code", <<"code">>) >>, <<>>) >>
      full == Flat(Map(LAMBDA k : Cross(LAMBDA f, x : one(k, f, x), fks, idxs), kinds))
      extra == << <<>>,
        << T("p", << NN(KeyCol("id", "int")) >>, << PK(<<"id">>) >>, <<>>) >>,
        << T("p", << NN(KeyCol("id", "big")) >>, << PK(<<"id">>) >>, <<>>) >>,
        << T("c", << IdC, KeyCol("pid", "int") >>, << PK(<<"id">>), K("pid", <<"pid">>) >>, <<>>) >>,
        << T("c", << IdC >>, << PK(<<"id">>) >>, <<>>), T("p", << IdC >>, << PK(<<"id">>) >>, <<>>) >>,
        << T("c", << IdC, KeyCol("pid", "int") >>, << PK(<<"id">>) >>, <<>>), T("p", << IdC >>, << PK(<<"id">>) >>, <<>>) >>,
        << T("c", << IdC, NN(KeyCol("pid", "int")) >>, << PK(<<"id">>), K("pid", <<"pid", "id">>) >>, << FK("f", "pid", "p", "id", "CASCADE", "CASCADE") >>), T("p", << IdC >>, << PK(<<"id">>) >>, <<>>) >>,
        << T("c", << NN(KeyCol("pid", "int")), IdC >>, << PK(<<"pid", "id">>) >>, << FK("f", "pid", "p", "id", "CASCADE", "CASCADE") >>), T("p", << IdC >>, << K("id", <<"id">>) >>, <<>>) >>,
        << T("c", << IdC, KeyCol("pid", "int") >>, << PK(<<"id">>), K("pid", <<"pid">>) >>, << FK("f", "pid", "c", "id", "SET NULL", "RESTRICT") >>) >>,
        << T("c", << IdC, KeyCol("pid", "int") >>, << PK(<<"id">>), K("pid", <<"pid">>) >>, << FK("f", "pid", "p", "id", "RESTRICT", "RESTRICT"), FK("f2", "pid", "p", "id", "CASCADE", "CASCADE") >>), T("p", << IdC >>, << PK(<<"id">>) >>, <<>>) >>,
        << T("p", << NN(KeyCol("id", "int")) >>, << PK(<<"id">>) >>, <<>>), T("q", << IdC, KeyCol("pid", "int") >>, << PK(<<"id">>), K("pid", <<"pid">>) >>, << FK("f", "pid", "p", "id", "RESTRICT", "RESTRICT") >>) >>,
        << T("p", << NN(KeyCol("id", "str")) >>, << PK(<<"id">>) >>, <<>>), T("q", << IdC, KeyCol("pid", "str") >>, << PK(<<"id">>), K("pid", <<"pid">>) >>, << FK("f", "pid", "p", "id", "RESTRICT", "RESTRICT") >>) >> >>
  IN full \o extra

\* ---- graphs of foreign keys: cycles, self references, missing tables -----------------------
GraphTables == << "a", "b", "c" >>
Edges(ns) == Cross(LAMBDA x, y : <<x, y>>, ns, ns)
GraphDb(ns, es, ty) ==
  Map(LAMBDA n : LET mine == Sel(es, LAMBDA e : e[1] = n) IN
    T(n, << NN(C("id", ty)) >> \o Map(LAMBDA e : C("to_" \o e[2], ty), mine),
      << PK(<<"id">>) >> \o Map(LAMBDA e : K("to_" \o e[2], <<"to_" \o e[2]>>), mine),
      Map(LAMBDA e : FK(e[1] \o "_" \o e[2], "to_" \o e[2], e[2], "id", "RESTRICT", "RESTRICT"), mine)), ns)
Graphs(thorough) ==
  LET sets == SubSeqs(GraphTables, 3)
      one(ns) == Cross(LAMBDA es, ty : GraphDb(ns, es, ty), SubSeqs(Edges(ns), IF thorough THEN 3 ELSE 2), <<"INT", "BIGINT">>)
  IN Flat(Map(one, sets))

\* ---- names of foreign keys wandering between tables ----------------------------------------
FkNames ==
  LET places == << <<>>, <<"a", "p">>, <<"a", "q">>, <<"b", "p">>, <<"b", "q">> >>
      child(n, f1, f2, ty, drop) ==
        T(n, << IdC, C("x", ty), C("y", ty) >>, << PK(<<"id">>), K("x", <<"x">>), K("y", <<"y">>) >>,
          (IF f1 # <<>> /\ f1[1] = n THEN << FK("f1", "x", f1[2], "id", "RESTRICT", "CASCADE") >> ELSE <<>>)
          \o (IF f2 # <<>> /\ f2[1] = n THEN << FK("f2", "y", f2[2], "id", "RESTRICT", "CASCADE") >> ELSE <<>>))
      db(f1, f2, ty) == << child("a", f1, f2, ty, FALSE), child("b", f1, f2, ty, FALSE), T("p", << NN(C("id", ty)) >>, << PK(<<"id">>) >>, <<>>), T("q", << NN(C("id", ty)) >>, << PK(<<"id">>) >>, <<>>) >>
      \* the same two keys under each other's names
      swap(ty) == << T("a", << IdC, C("x", ty), C("y", ty) >>, << PK(<<"id">>), K("x", <<"x">>), K("y", <<"y">>) >>, << FK("f2", "x", "p", "id", "RESTRICT", "CASCADE"), FK("f1", "y", "p", "id", "RESTRICT", "CASCADE") >>),
                     T("p", << NN(C("id", ty)) >>, << PK(<<"id">>) >>, <<>>) >>
      without(d, n) == Sel(d, LAMBDA t : t.name # n)
      base == Cross(LAMBDA f1, f2 : db(f1, f2, "INT"), places, places)
  IN base \o << swap("INT"), swap("BIGINT"), db(<<"a", "p">>, <<"a", "p">>, "BIGINT"), db(<<"b", "p">>, <<"a", "q">>, "BIGINT"), db(<<>>, <<"b", "q">>, "BIGINT"),
               without(db(<<"a", "p">>, <<>>, "INT"), "b"), without(db(<<"b", "p">>, <<>>, "INT"), "a"), without(db(<<"b", "p">>, <<"b", "p">>, "INT"), "q") >>

\* ---- character sets -------------------------------------------------------------------------
Charsets ==
  LET anns == << <<"", "">>, <<"utf8mb4", "">>, <<"latin1", "">>, <<"latin1", "latin1_swedish_ci">>, <<"latin1", "latin1_bin">>, <<"utf8mb4", "utf8mb4_bin">>, <<"", "utf8mb4_bin">>, <<"", "latin1_swedish_ci">> >>
      opts == << <<"", "">>, <<"latin1", "">>, <<"utf8mb4", "utf8mb4_0900_ai_ci">>, <<"utf8mb4", "utf8mb4_bin">> >>
      one(a, o) == << Opt(T("t", << IdC, Cs(L(C("c", "VARCHAR"), <<20>>), a[1], a[2]) >>, << PK(<<"id">>) >>, <<>>), o[1], o[2]) >>
  IN Cross(one, anns, opts)

\* collations that are the default on one version of MySQL only, and declared without their character set
Collations ==
  LET anns == << <<"", "">>, <<"utf8mb4", "utf8mb4_general_ci">>, <<"utf8mb4", "utf8mb4_0900_ai_ci">>, <<"", "utf8mb4_unicode_ci">>, <<"ascii", "">>, <<"", "latin1_bin">> >>
      opts == << <<"", "">>, <<"utf8mb4", "utf8mb4_general_ci">>, <<"utf8mb4", "utf8mb4_unicode_ci">>, <<"", "utf8mb4_bin">>, <<"", "latin1_bin">>, <<"latin1", "latin1_swedish_ci">>, <<"ascii", "">> >>
      one(a, o) == << Opt(T("t", << IdC, Cs(L(C("c", "VARCHAR"), <<20>>), a[1], a[2]) >>, << PK(<<"id">>) >>, <<>>), o[1], o[2]) >>
  IN Cross(one, anns, opts)

\* character keys: length and character set of both sides, spelled out or that of the table
FkChar ==
  LET anns == << <<"latin1", "latin1_swedish_ci">>, <<"latin1", "latin1_bin">>, <<"utf8mb4", "utf8mb4_bin">>, <<"utf8mb4", "utf8mb4_0900_ai_ci">> >>
      opts == << "", "latin1" >>
      lens == << <<20, 20>>, <<30, 30>> >>
      one(a, o, l, fk) ==
        << Opt(T("c", << IdC, Cs(L(C("k", "VARCHAR"), <<l[1]>>), a[1], a[2]) >>, << PK(<<"id">>), K("k", <<"k">>) >>,
                 IF fk = "" THEN <<>> ELSE << FK("f", "k", "p", "k", fk, "RESTRICT") >>), o, ""),
           Opt(T("p", << Cs(NN(L(C("k", "VARCHAR"), <<l[2]>>)), a[1], a[2]) >>, << PK(<<"k">>) >>, <<>>), o, "") >>
  IN Flat(Map(LAMBDA a : Flat(Map(LAMBDA o : Cross(LAMBDA l, fk : one(a, o, l, fk), lens, <<"", "RESTRICT", "CASCADE">>), opts)), anns))

\* ---- definitions with many spellings -------------------------------------------------------------
SpellDbs ==
  LET vc(n, l) == L(C(n, "VARCHAR"), <<l>>)
      bare(col, rt, rc, del, upd) == FK("c_" \o col \o "_" \o rt \o "_fk", col, rt, rc, del, upd)
      p == T("p", << NN(U(IntC("id"))), vc("code", 20) >>, << PK(<<"id">>), UK("code", <<"code">>) >>, <<>>)
      one(f, k) == << T("c", << AI(NN(U(IntC("id")))), U(IntC("pid")), vc("code", 20) >>, << PK(<<"id">>) >> \o k, f), p >>
      acts == << <<"RESTRICT", "RESTRICT">>, <<"CASCADE", "RESTRICT">>, <<"RESTRICT", "CASCADE">>, <<"SET NULL", "CASCADE">>, <<"CASCADE", "SET NULL">>, <<"NO ACTION", "RESTRICT">> >>
      kp == K("pid", <<"pid">>)  kc == K("code", <<"code">>)
  IN Map(LAMBDA a : one(<< bare("pid", "p", "id", a[1], a[2]) >>, << kp >>), acts)
     \o Map(LAMBDA a : one(<< FK("f", "pid", "p", "id", a[1], a[2]) >>, << kp >>), acts)
     \o << one(<< bare("pid", "p", "id", "CASCADE", "CASCADE"), bare("code", "p", "code", "RESTRICT", "SET NULL") >>, << kp, kc >>),
           one(<< bare("code", "p", "code", "RESTRICT", "RESTRICT") >>, << K("k2", <<"code", "pid">>) >>),
           one(<< FK("f", "code", "p", "code", "RESTRICT", "RESTRICT") >>, << kp, UK("u", <<"code", "pid">>) >>),
           << Opt(T("t", << Cs(NN(D(vc("c", 50), Lit("x y"))), "latin1", "latin1_bin"), V(Cs(NN(C("e", "ENUM")), "utf8mb4", "utf8mb4_bin"), <<"a", "it's", "b,c">>), NN(D(C("b", "BOOL"), Num("0", 0))), D(C("w", "DATETIME"), Lit("2020-01-01 10:00:00")),
                          NN(D(U(L(C("n", "DECIMAL"), <<8, 3>>)), RawNum("1.5", 15000))) >>,
                    << UK("u", <<"c", "n">>), K("k", <<"c">>), PK(<<"c", "e">>) >>, <<>>), "latin1", "latin1_bin") >>,
           << T("t", << NN(IntC("a")), AI(NN(C("b", "BIGINT"))) >>, << PK(<<"b", "a">>), K("a", <<"a">>) >>, <<>>) >>,
           << T("t", << AI(NN(IntC("a"))), IntC("b") >>, << PK(<<"a">>) >>, <<>>) >> >>

\* ---- names which mean something elsewhere ---------------------------------------------------------
WordDbs ==
  LET ws == << "key", "primary", "unique", "index", "constraint", "foreign", "references", "default", "null", "not", "check", "on", "enum", "set", "date", "text", "int",
               "auto_increment", "engine", "comment", "collate", "values", "insert", "create", "table", "add", "drop", "change", "select", "order", "1a", "a-b", "$x_1", "a.b", "Id", "unsigned", "decimal", "current_timestamp" >>
      p(w) == T("p", << NN(IntC("id")), NN(IntC(w)), V(C("e", "ENUM"), << "x", w >>) >>, << PK(<<"id">>), K(w, <<w>>) >>, <<>>)
      c(w) == T(w, << NN(IntC("i")), IntC(w), NN(D(L(C("v", "VARCHAR"), <<20>>), Lit(w))) >>, << PK(<<"i">>), K("k", <<w, "i">>) >>, << FK(w, w, "p", w, "CASCADE", "RESTRICT") >>)
  IN Flat(Map(LAMBDA w : << << p(w) >>, << c(w), p(w) >> >>, ws))

\* ---- anything, drawn by index -----------------------------------------------------------------
P == 32749
Mix(s, k) == LET a == (s % P) * 173 + (k % P) * 16381 + 7
                 b == a % P
                 c == (b * b + (s % P) * 31 + k) % P
                 d == (c * 21401 + 12345) % P
             IN (d * d + b) % P
Dim == 60     \* number of decisions taken for one schema
Draw(s) == MapI(LAMBDA k : Mix(s, k), Dim)
Mutate(v, s, m) == MapI(LAMBDA k : IF \E i \in 1..m : 1 + (Mix(s, 500 + i) % Dim) = k THEN Mix(s, 700 + k) ELSE v[k], Dim)
Pick(v, seq) == seq[1 + (v % Len(seq))]
AnyNames == << "a", "b", "c" >>
AnyVariants == << IntC("x"), NN(IntC("x")), U(IntC("x")), NN(D(IntC("x"), Num("3", 30000))), C("x", "BIGINT"), L(C("x", "VARCHAR"), <<20>>), NN(D(L(C("x", "VARCHAR"), <<30>>), Lit("abc"))),
                  NN(D(L(C("x", "DECIMAL"), <<10, 2>>), Num("0.5", 5000))), C("x", "DATE"), V(C("x", "ENUM"), <<"a", "b">>), NN(D(V(C("x", "ENUM"), <<"a", "b", "c">>), Lit("b"))), NN(D(C("x", "DATETIME"), NowDef)) >>
AnyTable(v, base, ti) ==
  LET d(i) == v[1 + ((base + i) % Dim)]
      ty == Pick(v[Dim], <<"INT", "INT", "BIGINT", "UINT">>)    \* type of ids and references, all over the database
      TC(n) == IF ty = "UINT" THEN U(IntC(n)) ELSE C(n, ty)
      idc == LET c == NN(TC("id")) IN IF d(1) % 3 = 0 THEN c ELSE AI(c)
      x == [AnyVariants[1 + (d(2) % Len(AnyVariants))] EXCEPT !.name = "x"]
      y == [AnyVariants[1 + (d(3) % Len(AnyVariants))] EXCEPT !.name = "y"]
      r == IF d(4) % 4 = 0 THEN NN(TC("r")) ELSE TC("r")
      s == TC("s")
      opt == (IF d(5) % 4 # 0 THEN <<x>> ELSE <<>>) \o (IF d(6) % 4 # 0 THEN <<y>> ELSE <<>>) \o (IF d(7) % 4 # 0 THEN <<r>> ELSE <<>>) \o (IF d(8) % 3 # 0 THEN <<s>> ELSE <<>>)
      rot == LET p == Perms(opt) IN p[1 + (d(9) % Len(p))]
      cols == IF d(10) % 3 = 0 /\ rot # <<>> THEN << rot[1], idc >> \o Tail(rot) ELSE <<idc>> \o rot
      pk == IF d(11) % 5 = 0 /\ "r" \in NameSet(cols) THEN PK(<<"id", "r">>) ELSE IF d(11) % 7 = 1 /\ ~idc.ai THEN K("id", <<"id">>) ELSE PK(<<"id">>)
      has(n) == n \in NameSet(cols)
      ki == (IF has("r") THEN << K(Pick(d(12), <<"r", "r", "fr", "kk">>), <<"r">>) >> ELSE <<>>)
            \o (IF has("s") /\ d(13) % 4 # 0 THEN << (IF d(13) % 4 = 1 THEN UK("s", <<"s">>) ELSE IF has("x") THEN K("s", <<"s", "x">>) ELSE K("s", <<"s">>)) >> ELSE <<>>)
            \o (IF has("x") /\ d(14) % 3 = 0 THEN << K("kx", <<"x">>) >> ELSE <<>>)
            \o (IF has("x") /\ has("y") /\ d(15) % 3 = 0 THEN << K("kxy", Pick(d(16), << <<"x", "y">>, <<"y", "x">> >>)) >> ELSE <<>>)
      acts == << <<"RESTRICT", "RESTRICT">>, <<"CASCADE", "CASCADE">>, <<"RESTRICT", "CASCADE">> >>
      a1 == Pick(d(17), acts)
      a2 == IF d(18) % 4 = 0 THEN <<"SET NULL", "RESTRICT">> ELSE Pick(d(18), acts)
      me == AnyNames[ti]
      indexed(n) == \E k \in Rng(ki) : k.cols[1] = n
      fkr == IF has("r") /\ d(19) % 4 # 0 THEN << FK(Pick(d(20), << me \o "_fr", "fr" >>), "r", Pick(d(21), AnyNames), "id", a1[1], a1[2]) >> ELSE <<>>
      fks == IF has("s") /\ indexed("s") /\ d(22) % 3 # 0 THEN << FK(Pick(d(23), << me \o "_fs", me \o "_fr2", "gs" >>), "s", Pick(d(24), AnyNames), "id", a2[1], a2[2]) >> ELSE <<>>
  IN T(me, cols, <<pk>> \o ki, fkr \o fks)
AnyDb(v) ==
  LET there(i) == v[Dim - i] % 5 # 0
      ts == Flat(MapI(LAMBDA i : IF there(i) THEN << AnyTable(v, i * 17, i) >> ELSE <<>>, 3))
      alive == NameSet(ts)
      \* keys to tables that are not there, and second keys of one name, are left out
      seen(i, n) == \E j \in 1..(i-1) : \E g \in Rng(ts[j].fks) : g.name = n
  IN MapI(LAMBDA i : [ts[i] EXCEPT !.fks = Sel(@, LAMBDA f : f.rt \in alive /\ ~seen(i, f.name) )], Len(ts))
AnySet == MapI(LAMBDA i : AnyDb(Draw(Seed * 97 + i)), Size)
\* pairs of a schema and a slightly edited version of it: 2i-1 and 2i
Edits == Flat(MapI(LAMBDA i : LET v == Draw(Seed * 131 + i) IN << AnyDb(v), AnyDb(Mutate(v, Seed * 57 + i, 1 + (i % 4))) >>, Size))

AllDbs ==
  CASE Focus = "cols" -> Cols(FALSE) [] Focus = "cols4" -> Cols(TRUE)
    [] Focus = "kinds" -> Kinds
    [] Focus = "indexes" -> Indexes(FALSE) [] Focus = "indexes3" -> Indexes(TRUE)
    [] Focus = "indexcols" -> IndexCols
    [] Focus = "autoinc" -> AutoInc
    [] Focus = "onefk" -> OneFk
    [] Focus = "graphs" -> Graphs(FALSE) [] Focus = "graphs3" -> Graphs(TRUE)
    [] Focus = "fknames" -> FkNames
    [] Focus = "charsets" -> Charsets
    [] Focus = "collations" -> Collations
    [] Focus = "fkchar" -> FkChar
    [] Focus = "spell" -> SpellDbs
    [] Focus = "words" -> WordDbs
    [] Focus = "any" -> AnySet
    [] Focus = "edits" -> Edits
    [] OTHER -> <<>>
\* literals written without quotes mean the same as quoted ones
Norm(d) == Map(LAMBDA t : [t EXCEPT !.cols = Map(LAMBDA c : IF c.def.k = "raw" THEN [c EXCEPT !.def.k = "lit"] ELSE c, t.cols)], d)
\* evaluated once, in the initial predicate, and kept in TLC's registers
Dbs == TLCGet(1)
Stored == TLCGet(2)
LoadUniverse == /\ TLCSet(1, AllDbs)
                /\ TLCSet(2, MapI(LAMBDA i : Store(Norm(TLCGet(1)[i])), Len(TLCGet(1))))
=============================================================================
