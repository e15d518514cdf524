------------------------------ MODULE RowTrace ------------------------------
(* Judges planned statements on rows: each is read by the lexer of spec/Text,   *)
(* executed on the tables of the case, and the rows compared with what is       *)
(* wanted (spec/Rows).                                                            *)
EXTENDS Rows
VARIABLES n, verdict
Cases == TLCGet(7)

\* ---- statements from tokens -------------------------------------------------------------
Bad(why) == [t |-> "bad", why |-> why]
IsWord(toks, i, w) == i \in DOMAIN toks /\ toks[i].k = "word" /\ UpSeq(toks[i].c) = Chars(w)
IsSym(toks, i, c) == i \in DOMAIN toks /\ toks[i].k = "sym" /\ toks[i].c = <<c>>
IsName(toks, i) == i \in DOMAIN toks /\ toks[i].k \in {"id", "word"}
Numeric(c) == c # <<>> /\ c[1] \in (Digits \cup {"."}) /\ \A i \in DOMAIN c : c[i] \in (Digits \cup {".", "e", "E"})
\* the value at i: number of tokens (0: none) and value (a number that is not quoted is a number: zeros in front are gone)
Atom(toks, i) ==
  IF i \notin DOMAIN toks THEN [n |-> 0, v |-> Nil]
  ELSE IF toks[i].k = "str" THEN (IF i + 1 \in DOMAIN toks /\ toks[i+1].k = "str" THEN [n |-> 0, v |-> Nil] ELSE [n |-> 1, v |-> ValC(toks[i].c)])
  ELSE IF IsWord(toks, i, "NULL") THEN [n |-> 1, v |-> Nil]
  ELSE IF toks[i].k = "word" /\ Numeric(toks[i].c) THEN [n |-> 1, v |-> ValC(Strip(toks[i].c))]
  ELSE IF IsSym(toks, i, "-") /\ i + 1 \in DOMAIN toks /\ toks[i+1].k = "word" /\ Numeric(toks[i+1].c) THEN [n |-> 2, v |-> ValC(<<"-">> \o Strip(toks[i+1].c))]
  ELSE [n |-> 0, v |-> Nil]
Fail == [ok |-> FALSE, list |-> <<>>, next |-> 0]
RECURSIVE ListOf(_, _, _, _)      \* values or names, separated by commas, up to ")"
ListOf(toks, i, acc, names) ==
  LET a == IF names THEN (IF IsName(toks, i) THEN [n |-> 1, v |-> toks[i].c] ELSE [n |-> 0, v |-> <<>>]) ELSE Atom(toks, i)
      j == i + a.n
  IN IF a.n = 0 THEN Fail
     ELSE IF IsSym(toks, j, ")") THEN [ok |-> TRUE, list |-> Append(acc, a.v), next |-> j + 1]
     ELSE IF IsSym(toks, j, ",") THEN ListOf(toks, j + 1, Append(acc, a.v), names)
     ELSE Fail
RECURSIVE Groups2(_, _, _)
Groups2(toks, i, acc) ==
  IF ~IsSym(toks, i, "(") THEN Fail
  ELSE LET l == ListOf(toks, i + 1, <<>>, FALSE) IN
       IF ~l.ok THEN Fail
       ELSE IF IsSym(toks, l.next, ",") THEN Groups2(toks, l.next + 1, Append(acc, l.list))
       ELSE [ok |-> TRUE, list |-> Append(acc, l.list), next |-> l.next]
RECURSIVE Sets(_, _, _)           \* name = value, ...
Sets(toks, i, acc) ==
  IF ~(IsName(toks, i) /\ IsSym(toks, i + 1, "=")) THEN Fail
  ELSE LET a == Atom(toks, i + 2)  j == i + 2 + a.n  acc2 == Append(acc, <<toks[i].c, a.v>>) IN
       IF a.n = 0 THEN Fail
       ELSE IF IsSym(toks, j, ",") THEN Sets(toks, j + 1, acc2)
       ELSE [ok |-> TRUE, list |-> acc2, next |-> j]
Ended(toks, i) == i = Len(toks) + 1 \/ (i = Len(toks) /\ IsSym(toks, i, ";"))
\* WHERE `id` = v, WHERE `id` IN (v, ...)
Where(toks, i) ==
  IF ~(IsWord(toks, i, "WHERE") /\ IsName(toks, i + 1) /\ UpSeq(toks[i+1].c) = <<"I", "D">>) THEN Fail
  ELSE IF IsSym(toks, i + 2, "=") THEN LET a == Atom(toks, i + 3) IN IF a.n = 0 THEN Fail ELSE [ok |-> TRUE, list |-> <<a.v>>, next |-> i + 3 + a.n]
  ELSE IF IsWord(toks, i + 2, "IN") /\ IsSym(toks, i + 3, "(") THEN ListOf(toks, i + 4, <<>>, FALSE)
  ELSE Fail
Limited(toks, i) == IF IsWord(toks, i, "LIMIT") THEN i + 2 ELSE i
Statement(chars) ==
  LET l == Lex(chars)  k == l.toks IN
  IF l.bad THEN Bad("does not end as it should")
  ELSE IF k = <<>> THEN Bad("is empty")
  ELSE IF IsWord(k, 1, "INSERT") /\ IsWord(k, 2, "INTO") /\ IsName(k, 3) /\ IsSym(k, 4, "(") THEN
    LET ns == ListOf(k, 5, <<>>, TRUE) IN
    IF ~ns.ok \/ ~IsWord(k, ns.next, "VALUES") THEN Bad("is not an INSERT")
    ELSE LET gs == Groups2(k, ns.next + 1, <<>>) IN
      IF ~gs.ok \/ ~Ended(k, gs.next) THEN Bad("is not an INSERT")
      ELSE IF \E i \in DOMAIN gs.list : Len(gs.list[i]) # Len(ns.list) THEN Bad("has another number of values than of columns (1136)")
      ELSE IF Cardinality(Rng(ns.list)) # Len(ns.list) THEN Bad("names a column twice (1110)")
      ELSE [t |-> "insert", tab |-> k[3].c, cols |-> ns.list, rows |-> gs.list]
  ELSE IF IsWord(k, 1, "UPDATE") /\ IsName(k, 2) /\ IsWord(k, 3, "SET") THEN
    LET s == Sets(k, 4, <<>>) IN
    IF ~s.ok THEN Bad("is not an UPDATE")
    ELSE LET w == Where(k, s.next) IN
      IF ~w.ok \/ ~Ended(k, Limited(k, w.next)) THEN Bad("is not an UPDATE of one row")
      ELSE [t |-> "update", tab |-> k[2].c, set |-> s.list, ids |-> w.list]
  ELSE IF IsWord(k, 1, "DELETE") /\ IsWord(k, 2, "FROM") /\ IsName(k, 3) THEN
    LET w == Where(k, 4) IN
    IF ~w.ok \/ ~Ended(k, Limited(k, w.next)) THEN Bad("is not a DELETE of rows by id")
    ELSE [t |-> "delete", tab |-> k[3].c, ids |-> w.list]
  ELSE IF \E w \in {"SET", "CREATE", "ALTER", "DROP"} : IsWord(k, 1, w) THEN [t |-> "ddl", set |-> IsWord(k, 1, "SET")]
  ELSE Bad("is neither on rows nor on tables")

\* ---- execution ---------------------------------------------------------------------------
\* st: [rows: per table, err, ids: ids which statements are about per table, seen: row statements seen]
NameChars(t) == Chars(t.name)
TabAt(case, c) == LET hit == {i \in DOMAIN case : NameChars(case[i]) = c} IN IF hit = {} THEN 0 ELSE CHOOSE i \in hit : TRUE
\* names of columns as strings
ColNames(t) == NamesOf(t.cols)
NameFor(t, c) == LET hit == {x \in Rng(ColNames(t)) : Chars(x) = c} IN IF hit = {} THEN "?" ELSE CHOOSE x \in hit : TRUE
Fn(t, names, vals) == [x \in {NameFor(t, names[i]) : i \in DOMAIN names} |-> vals[CHOOSE i \in DOMAIN names : NameFor(t, names[i]) = x]]
OneByOne(t, rows0, gs, names) == FoldS(LAMBDA acc, g2 : IF acc.err # "" THEN acc ELSE InsertRow(t, acc.rows, Fn(t, names, g2)), [rows |-> rows0, err |-> ""], gs)
IdOf(t, names, vals) == LET f == Fn(t, names, vals) IN IF "id" \in DOMAIN f THEN Conv(ColOf(t.cols, "id").ty, f["id"]) ELSE Nil
\* an update that clashes with a value which another row only holds for now
Passing(t, rows, given) ==
  LET w == Wanted(t) IN \E c \in Rng(t.cols) : c.uq /\ c.name \in DOMAIN given /\ \E i \in DOMAIN rows : rows[i][c.name] = given[c.name] /\ rows[i] \notin w /\ \E r \in w : r["id"] = rows[i]["id"]
ExecOn(case, st, s) ==
  IF s.t = "bad" THEN [st EXCEPT !.err = "a statement " \o s.why]
  ELSE IF s.t = "ddl" THEN (IF ~s.set /\ st.seen THEN [st EXCEPT !.err = "tables change after rows"] ELSE st)
  ELSE LET ti == TabAt(case, s.tab) IN
    IF ti = 0 THEN [st EXCEPT !.err = "statement on an unknown table (1146)"]
    ELSE LET t == case[ti]
             ids == CASE s.t = "insert" -> MapS(LAMBDA g2 : IdOf(t, s.cols, g2), s.rows) [] OTHER -> MapS(LAMBDA v : Conv(ColOf(t.cols, "id").ty, v), s.ids)
             given == IF s.t = "update" THEN Fn(t, MapS(LAMBDA x : x[1], s.set), MapS(LAMBDA x : x[2], s.set)) ELSE <<>>
             r == CASE s.t = "insert" -> OneByOne(t, st.rows[ti], s.rows, s.cols)
                    [] s.t = "update" -> FoldS(LAMBDA acc, id : IF acc.err # "" THEN acc ELSE UpdateRows(t, acc.rows, given, id), [rows |-> st.rows[ti], err |-> ""], s.ids)
                    [] OTHER -> [rows |-> DeleteRows(t, st.rows[ti], s.ids), err |-> ""]
         IN [st EXCEPT !.rows = MapN(LAMBDA k : IF k = ti THEN r.rows ELSE st.rows[k], Len(st.rows)),
                       !.ids = MapN(LAMBDA k : IF k = ti THEN st.ids[k] \o ids ELSE st.ids[k], Len(st.ids)),
                       !.seen = TRUE,
                       !.err = IF r.err = "" THEN "" ELSE IF s.t = "update" /\ r.err = "1062" /\ Passing(t, st.rows[ti], given) THEN "unique values exchanged between rows: UPDATE refused with 1062"
                               ELSE s.t \o " refused with " \o r.err]
Exec(case, stmts) ==
  FoldS(LAMBDA st, c : IF st.err # "" THEN st ELSE ExecOn(case, st, Statement(c)),
        [rows |-> MapS(LAMBDA t : MapS(LAMBDA r : Under(t.cols, r), LiveRows(t)), case), err |-> "", ids |-> MapS(LAMBDA t : <<>>, case), seen |-> FALSE], stmts)
Faults(cs) ==
  LET st == Exec(cs.tabs, cs.stmts) IN
  IF st.err # "" THEN {st.err}
  ELSE UNION {LET t == cs.tabs[i]  w == Wanted(t) IN
        (IF Rng(st.rows[i]) # w THEN {"rows differ from those declared in " \o t.name} ELSE {})
        \cup (IF \E j \in DOMAIN st.ids[i] : st.ids[i][j] \in Agreeing(t) THEN {"a statement on a row that agrees already in " \o t.name} ELSE {})
        \cup (IF ~Tracked(t) /\ st.ids[i] # <<>> THEN {"a statement on a table without declared rows: " \o t.name} ELSE {})
        : i \in DOMAIN cs.tabs}
SetSeq(s) == LET RECURSIVE f(_)  f(x) == IF x = {} THEN <<>> ELSE LET e == CHOOSE e \in x : TRUE IN <<e>> \o f(x \ {e}) IN f(s)
TInit == /\ g = 0
         /\ TLCSet(7, JsonDeserialize("cases.json"))
         /\ n \in 1..Len(Cases)
         /\ verdict = <<>>
TNext == /\ verdict = <<>>
         /\ verdict' = <<SetSeq(Faults(Cases[n]))>>
         /\ PrintT("@@" \o ToJson([case |-> n, faults |-> verdict'[1]]))
         /\ UNCHANGED <<g, n>>
=============================================================================
