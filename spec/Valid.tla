------------------------------- MODULE Valid -------------------------------
(* Declarations made to break the rules, one or several at a time, and what    *)
(* the rules say about them.                                                     *)
EXTENDS Rules, Json
CONSTANT Mode
VARIABLE i

\* ---- declarations with faults ----------------------------------------------------------
Base == << TS("talpha", << IdC, IntC("plain"), IntC("refd"), L(C("word", "VARCHAR"), <<20>>) >>, << PK(<<"id">>), K("kword", <<"word">>), K("krefd", <<"refd">>) >>, << FK("fkalpha", "refd", "tbeta", "id", "RESTRICT", "RESTRICT") >>),
           TS("tbeta", << IdC, IntC("plain"), NN(D(V(C("lst", "ENUM"), <<"a", "b">>), Lit("a"))) >>, << PK(<<"id">>), UK("kplain", <<"plain", "lst">>) >>, <<>>) >>
X65 == "lllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllll"
Pad(s) == s \o SubSeq(X65, 1, 65 - Len(s))
X64(s) == s \o SubSeq(X65, 1, 64 - Len(s))
\* columns, named n
BadCols(n) == <<
  Cs(IntC(n), "latin1", ""), Cs(IntC(n), "", "latin1_bin"), Cs(C(n, "BIGINT"), "latin1", "latin1_bin"), U(L(C(n, "VARCHAR"), <<20>>)), U(C(n, "DATE")), U(C(n, "TEXT")),
  V(IntC(n), <<"a", "b">>), V(C(n, "VARCHAR"), <<"a", "b">>), V(C(n, "DATE"), <<"a">>),
  D(C(n, "TEXT"), Lit("x")), D(C(n, "LONGTEXT"), Lit("")), D(C(n, "BLOB"), Lit("x")), D(C(n, "JSON"), Lit("x")), L(C(n, "TEXT"), <<20>>), L(C(n, "BLOB"), <<20>>),
  D(IntC(n), Lit("abc")), D(IntC(n), Lit("")), D(IntC(n), Num("1.5", 15000)), D(C(n, "TINYINT"), RawNum("0.5", 5000)), D(L(IntC(n), <<11>>), Lit("x")), D(U(C(n, "BIGINT")), Lit("")), D(IntC(n), Lit("1_0")), D(C(n, "SMALLINT"), Lit("1a")),
  D(C(n, "FLOAT"), Lit("x")), D(C(n, "FLOAT"), Lit("nan")), D(L(C(n, "DECIMAL"), <<10, 2>>), Lit("abc")), D(L(C(n, "DECIMAL"), <<10, 2>>), Lit("1.2.3")), D(C(n, "DOUBLE"), Lit("infinity")),
  L(IntC(n), <<10, 2>>), L(C(n, "BIT"), <<3>>), L(C(n, "FLOAT"), <<5>>), L(C(n, "DOUBLE"), <<5, 2>>), D(C(n, "BIT"), RawNum("5", 50000)), D(C(n, "BIT"), Num("-1", -10000)), U(C(n, "BIT")),
  D(V(C(n, "ENUM"), <<"a", "b">>), Lit("c")), NN(D(V(C(n, "ENUM"), <<"a", "b">>), Lit("c"))), D(V(C(n, "ENUM"), <<"a", "b">>), Lit("")), D(V(C(n, "SET"), <<"a">>), Lit("x")), D(V(C(n, "ENUM"), <<"a", "b">>), Lit("A ")), C(n, "ENUM"), C(n, "SET"), Cs(D(V(C(n, "ENUM"), <<"a", "b">>), Lit("z")), "latin1", ""),
  L(C(n, "DATE"), <<4>>), Cs(C(n, "DATE"), "latin1", ""), Cs(C(n, "DATETIME"), "", "latin1_bin"), Cs(L(C(n, "BINARY"), <<4>>), "latin1", ""), Cs(L(C(n, "VARBINARY"), <<4>>), "", "latin1_bin"), Cs(C(n, "JSON"), "", "utf8mb4_bin"), Cs(C(n, "TEXT"), "latin1", ""),
  AI(L(C(n, "VARCHAR"), <<20>>)), AI(C(n, "DATE")), AI(C(n, "FLOAT")), AI(L(C(n, "DECIMAL"), <<10, 2>>)), AI(C(n, "BIT")), AI(IntC(n)), AI(NN(C(n, "BIGINT"))) >>
GoodCols(n) == <<
  D(V(C(n, "SET"), <<"a">>), Lit("")), D(V(C(n, "ENUM"), <<"a", "">>), Lit("")), NN(D(C(n, "BIT"), RawNum("1", 10000))), D(U(C(n, "FLOAT")), RawNum("0.5", 5000)), NN(D(IntC(n), RawNum("-5", -50000))),
  Cs(L(C(n, "VARCHAR"), <<20>>), "latin1", "latin1_bin"), D(L(C(n, "BINARY"), <<4>>), Lit("x")), NN(D(L(C(n, "VARCHAR"), <<5>>), Lit(""))), D(C(n, "DATE"), Lit("2020-01-01")), D(C(n, "DECIMAL"), RawNum("1.50", 15000)),
  Cs(V(C(n, "ENUM"), <<"a", "b">>), "latin1", ""), IntC(X64(n)), C(n, "YEAR"), U(L(IntC(n), <<11>>)) >>
AddCol(DD, k, c) == [DD EXCEPT ![k].cols = Append(@, c)]
AddIdx(DD, k, x) == [DD EXCEPT ![k].idx = Append(@, x)]
AddFk(DD, k, f) == [DD EXCEPT ![k].fks = Append(@, f)]
\* a defect in slot s (1 or 2, for different names) of table k: [how, arg]
Tweaks == << "2pk", "2pkother", "idx0", "idxmiss", "idxmiss2", "pkmiss", "dupcol", "dupcoltype", "dupidx", "dupuidx", "dupfk", "semi", "longtable", "longidx", "longfk", "longcol", "okidx", "okfk",
             "ainopk", "aisecond", "fkaction", "fkaction2", "fktable", "fkcol", "fkown", "fkindex", "fkshared", "nocolname", "notable", "nocols" >>
Tweak(DD, k, s, w) ==
  LET n == "bad" \o ToString(s)
      tn == DD[k].name IN
  CASE w = "2pk" -> AddIdx(DD, k, PK(<<"plain">>))
    [] w = "2pkother" -> AddIdx(AddCol(DD, k, NN(IntC(n))), k, PK(<<n, "id">>))
    [] w = "idx0" -> AddIdx(DD, k, K("k" \o n, <<"miss" \o n>>))
    [] w = "idxmiss" -> AddIdx(DD, k, UK("k" \o n, <<"id", "miss" \o n>>))
    [] w = "idxmiss2" -> AddIdx(DD, k, K("k" \o n, <<"miss" \o n, "plain">>))
    [] w = "pkmiss" -> [DD EXCEPT ![k].idx[1] = PK(<<"id", "miss" \o n>>)]
    [] w = "dupcol" -> AddCol(AddCol(DD, k, IntC("c" \o n)), k, IntC("c" \o n))
    [] w = "dupcoltype" -> AddCol(AddCol(DD, k, C("c" \o n, "DATE")), k, L(C("c" \o n, "VARCHAR"), <<5>>))
    [] w = "dupidx" -> AddIdx(AddIdx(DD, k, K("k" \o n, <<"plain">>)), k, K("k" \o n, <<"plain">>))
    [] w = "dupuidx" -> AddIdx(AddIdx(DD, k, K("k" \o n, <<"plain">>)), k, UK("k" \o n, <<"id">>))
    [] w = "dupfk" -> AddFk(AddFk(DD, k, FK("f" \o n, "id", "tbeta", "id", "RESTRICT", "RESTRICT")), k, FK("f" \o n, "id", "tbeta", "id", "CASCADE", "RESTRICT"))
    [] w = "semi" -> [DD EXCEPT ![k].semi = FALSE]
    [] w = "longtable" -> Append(DD, TS(Pad("t" \o n), <<IdC>>, <<>>, <<>>))
    [] w = "longcol" -> AddCol(DD, k, IntC(Pad(n)))
    [] w = "longidx" -> AddIdx(DD, k, K(Pad(n), <<"plain">>))
    [] w = "longfk" -> AddFk(DD, k, FK(Pad(n), "id", "tbeta", "id", "RESTRICT", "RESTRICT"))
    [] w = "okidx" -> AddIdx(DD, k, K(X64(n), <<"plain">>))
    [] w = "okfk" -> AddFk(DD, k, FK(X64(n), "id", "tbeta", "id", "RESTRICT", "RESTRICT"))
    [] w = "ainopk" -> Append(DD, TS("t" \o n, << AI(NN(IntC("id"))), IntC("x") >>, <<K("k" \o n, <<"id">>)>>, <<>>))
    [] w = "aisecond" -> Append(DD, TS("t" \o n, << IdC, AI(NN(IntC("c" \o n))) >>, <<PK(<<"id", "c" \o n>>)>>, <<>>))
    [] w = "fkaction" -> AddFk(DD, k, FK("f" \o n, "id", "tbeta", "id", "NONSENSE", "RESTRICT"))
    [] w = "fkaction2" -> AddFk(DD, k, FK("f" \o n, "id", "tbeta", "id", "CASCADE", "NULL"))
    [] w = "fktable" -> AddFk(DD, k, FK("f" \o n, "id", "tmiss" \o n, "id", "CASCADE", "CASCADE"))
    [] w = "fkcol" -> AddFk(DD, k, FK("f" \o n, "id", "tbeta", "miss" \o n, "CASCADE", "CASCADE"))
    [] w = "fkown" -> AddFk(DD, k, FK("f" \o n, "miss" \o n, "tbeta", "id", "CASCADE", "CASCADE"))
    [] w = "fkindex" -> AddFk(AddCol(DD, k, IntC("c" \o n)), k, FK("f" \o n, "c" \o n, "tbeta", "id", "CASCADE", "CASCADE"))
    [] w = "fkshared" -> Append(DD, TS("t" \o n, << IdC >>, <<PK(<<"id">>)>>, <<FK("fkalpha", "id", "tbeta", "id", "CASCADE", "CASCADE")>>))
    [] w = "nocolname" -> AddCol(DD, k, IntC(""))
    [] w = "notable" -> Append(DD, TS("", <<IdC>>, <<>>, <<>>))
    [] w = "nocols" -> Append(DD, TS("t" \o n, <<>>, <<K("k" \o n, <<"miss" \o n>>)>>, <<>>))
    [] OTHER -> DD
NBad == Len(BadCols("c"))
NGood == Len(GoodCols("c"))
NTweak == Len(Tweaks)
NEdit == NBad + NGood + NTweak
Edit(DD, k, s, e) ==
  LET n == "cbad" \o ToString(s) IN
  CASE e = 0 -> DD
    [] e <= NBad -> AddCol(DD, k, BadCols(n)[e])
    [] e <= NBad + NGood -> AddCol(DD, k, GoodCols(n)[e - NBad])
    [] OTHER -> Tweak(DD, k, s, Tweaks[e - NBad - NGood])
\* every edit alone, in either table, and pairs of edits drawn by the seed
Singles == Cross(LAMBDA k, e : Edit(Base, k, 1, e), <<1, 2>>, MapI(LAMBDA x : x - 1, NEdit + 1))
Pairs == MapI(LAMBDA j : LET v(q) == Mix(Seed * 211 + j, q)
                         IN Edit(Edit(Base, 1 + (v(1) % 2), 1, 1 + (v(2) % NEdit)), 1 + (v(3) % 2), 2, 1 + (v(4) % NEdit)), Size)

\* ---- foreign keys from all sides: exhaustive for one key -----------------------------------
FCols(n) == << IntC(n), L(IntC(n), <<11>>), U(IntC(n)), C(n, "BIGINT"), L(C(n, "VARCHAR"), <<20>>), L(C(n, "VARCHAR"), <<30>>), L(C(n, "CHAR"), <<20>>),
               Cs(L(C(n, "VARCHAR"), <<20>>), "latin1", ""), Cs(L(C(n, "VARCHAR"), <<20>>), "latin1", "latin1_bin"), Cs(L(C(n, "VARCHAR"), <<20>>), "", "latin1_bin"), NN(IntC(n)), NN(U(L(IntC(n), <<11>>))), C("other", "INT") >>
FIdx(n) == << <<>>, <<K("k", <<n>>)>>, <<K("k", <<n, "z">>)>>, <<K("k", <<"z", n>>)>>, <<UK("k", <<n>>)>>, <<PK(<<"z", n>>)>>, <<PK(<<n, "z">>)>>, <<K("k", <<"z", n>>), K("k2", <<n, "z">>)>> >>
FActs == << <<"RESTRICT", "CASCADE">>, <<"SET NULL", "RESTRICT">>, <<"CASCADE", "SET NULL">> >>
FChild(n, c, x, f) == TS(n, << NN(IntC("z")), c >>, Sel(x, LAMBDA y : Rng(y.cols) \subseteq {"z", c.name}), f)
OneKey(a, b, x, y, act, rt) ==
  << FChild("child", FCols("k")[a], FIdx("k")[x], << FK("fk1", "k", rt, "m", FActs[act][1], FActs[act][2]) >>),
     FChild("parent", FCols("m")[b], FIdx("m")[y], <<>>) >>
NF == Len(FCols("k"))  NX == Len(FIdx("k"))
OneKeyAt(j) == LET q == j - 1 IN OneKey(1 + (q % NF), 1 + ((q \div NF) % NF), 1 + ((q \div (NF * NF)) % NX), 1 + ((q \div (NF * NF * NX)) % NX), 1 + ((q \div (NF * NF * NX * NX)) % 3), "parent")
NOneKey == NF * NF * NX * NX * 3
\* drawn from them, plus the diagonal (equal columns on both sides), which random pairs would rarely meet
Keys == MapI(LAMBDA j : LET v(q) == Mix(Seed * 307 + j, q)
                            b == IF v(1) % 3 = 0 THEN v(2) % NF ELSE (v(3) % NF)
                            a == IF v(1) % 3 = 0 THEN b ELSE v(4) % NF
                        IN OneKey(1 + a, 1 + b, 1 + (v(5) % NX), 1 + (v(6) % NX), 1 + (v(7) % 3), IF v(8) % 40 = 0 THEN "nowhere" ELSE "parent"), Size)
\* several keys over three tables, self references and shared names included
Nets == MapI(LAMBDA j :
  LET v(q) == Mix(Seed * 401 + j, q)
      ts == << "ta", "tb", "tc" >>
      \* types from a small pool, so that keys fit often
      pool == << 1, 1, 1, 5, 3, 11 >>
      col(t, n, q) == [FCols(n)[pool[1 + (v(q) % 6)]] EXCEPT !.name = n]
      idx(t, q) == (IF v(q) % 4 # 0 THEN <<K("kx", <<"x">>)>> ELSE <<>>) \o (IF v(q + 1) % 4 # 0 THEN <<K("ky", Pick(v(q+2), << <<"y">>, <<"y", "x">>, <<"x", "y">> >>))>> ELSE <<>>)
      key(q, n) == FK(Pick(v(q), << "fone", "ftwo", n \o "f", n \o "g" >>), Pick(v(q+1), <<"x", "y", "x", "y", "gone">>), Pick(v(q+2), <<"ta", "tb", "tc", "tb", "ta", "nowhere">>), Pick(v(q+3), <<"id", "id", "x", "y", "away">>), FActs[1 + (v(q+4) % 3)][1], FActs[1 + (v(q+4) % 3)][2])
      keys(q, n) == LET a == key(q, n)  b == key(q + 6, n) IN IF v(q + 12) % 3 = 0 THEN <<>> ELSE IF v(q + 12) % 3 = 1 \/ a.name = b.name THEN <<a>> ELSE <<a, b>>
      tab(k) == TS(ts[k], << [NN(IntC("id")) EXCEPT !.un = (v(90) % 3 = 0)], col(k, "x", k * 100 + 1), col(k, "y", k * 100 + 2) >>, <<PK(<<"id">>)>> \o idx(k, k * 100 + 5), keys(k * 100 + 10, ts[k]))
  IN << tab(1), tab(2), tab(3) >>, Size)

All == CASE Mode = "singles" -> Singles [] Mode = "pairs" -> Pairs [] Mode = "keys" -> Keys [] Mode = "nets" -> Nets [] Mode = "collide" -> << << TS("t", <<IdC, IntC("b")>>, <<PK(<<"id">>), K("id", <<"id">>)>>, <<>>) >>, << TS("t", <<IdC, IntC("b")>>, <<PK(<<"id", "b">>), K("id", <<"b">>)>>, <<>>) >> >>
         [] Mode = "allkeys" -> MapI(LAMBDA j : OneKeyAt(((Seed * 7919 + j * 13) % NOneKey) + 1), Size)
         [] OTHER -> Map(LAMBDA d : Map(LAMBDA t : [t |-> "create", name |-> t.name, cols |-> t.cols, idx |-> t.idx, fks |-> t.fks, cs |-> t.cs, co |-> t.co, semi |-> TRUE], d), AllDbs)
\* as SQL; a table whose semicolon is missing comes without one
OneText(t) == LET s == TableText(t) IN IF t.semi THEN s ELSE SubSeq(s, 1, Len(s) - 1)
Text(DD) == Join(Map(OneText, DD), "\n")
Line(k) ==
  LET DD == TLCGet(1)[k]
      f == Faults(DD)
      good == {t.name : t \in {u \in Rng(DD) : \A x \in Rng(f) : x.t # u.name}} IN
  [id |-> k, decl |-> Text(DD), faults |-> f, clean |-> SeqOfSet(good), db |-> DD,
   keys |-> Map(LAMBDA t : [t |-> t.name, all |-> Names(t.fks), bad |-> Names(Sel(t.fks, LAMBDA g : FkFault(DD, t, g) # ""))], DD)]
\* the rules are sound: what they let pass, the server of the specification accepts
Sound(k) == LET DD == TLCGet(1)[k] IN Faults(DD) = <<>> => StoreErr(Norm(DD)) = ""
Init == i = 0 /\ TLCSet(1, All)
Next == /\ i < Len(TLCGet(1))
        /\ i' = i + 1
        /\ Assert(Sound(i + 1), <<"the server refuses", i + 1>>)
        /\ PrintT("@@" \o ToJson(Line(i + 1)))
=============================================================================
