---------------------------- MODULE SourceTrace ----------------------------
(* Judges what the real code has read from a source without reporting an error:  *)
(* what the grammar accepts has to be read as it says; of what it does not accept *)
(* every word has to be found in what was read.                                     *)
(* case: [text, tables, rows] as observed                                             *)
EXTENDS Grammar, Json
VARIABLES c, verdict
Cases == TLCGet(3)
Rng2(s) == {s[i] : i \in DOMAIN s}

\* ---- exact reading -----------------------------------------------------------------
PkNames(x) == UNION {Rng2(x.idx[i].cols) : i \in {j \in DOMAIN x.idx : x.idx[j].kind = "PRIMARY"}}
WantCol(x, k) == [x.cols[k] EXCEPT !.nul = IF x.cols[k].ai \/ x.cols[k].name \in PkNames(x) THEN "NOT NULL" ELSE @, !.pk = FALSE]
ColFaults(x, o) ==
  IF Len(x.cols) # Len(o.cols) \/ \E k \in DOMAIN x.cols : x.cols[k].name # o.cols[k].name THEN {"columns of " \o x.name}
  ELSE UNION {LET w == WantCol(x, k)  g == o.cols[k] IN
              {f \o " of " \o w.name : f \in {h \in {"ty", "len", "nul", "un", "ai", "def", "vals", "cs", "co"} : w[h] # g[h]}} : k \in DOMAIN x.cols}
TableFaults(x, o) ==
  ColFaults(x, o)
  \cup (IF Rng2(x.idx) # Rng2(o.idx) \/ Len(x.idx) # Len(o.idx) THEN {"indexes of " \o x.name} ELSE {})
  \cup (IF Rng2(x.fks) # Rng2(o.fks) \/ Len(x.fks) # Len(o.fks) THEN {"foreign keys of " \o x.name} ELSE {})
Observed(cs, n) == {i \in DOMAIN cs.tables : cs.tables[i].name = n}
CreateFaults(cs, x) ==
  IF Observed(cs, x.name) = {} THEN {"table " \o x.name \o " is lost"}
  ELSE TableFaults(x, cs.tables[CHOOSE i \in Observed(cs, x.name) : TRUE])
IdOf(x, r) == LET p == {k \in DOMAIN x.cols : x.cols[k] = "id"} IN IF p = {} THEN <<"null", "">> ELSE r[CHOOSE k \in p : TRUE]
RowFaults(cs, x) ==
  UNION {LET r == x.rows[n]  id == IdOf(x, r)
             o == {i \in DOMAIN cs.rows : cs.rows[i].t = x.name /\ cs.rows[i].id = id[2]} IN
         IF o = {} THEN {"a row of " \o x.name \o " is lost"}
         ELSE LET g == cs.rows[CHOOSE i \in o : TRUE].vals IN
              IF \A k \in DOMAIN x.cols : \E j \in DOMAIN g : g[j][1] = x.cols[k] /\ <<g[j][2], g[j][3]>> = r[k] THEN {} ELSE {"values of a row of " \o x.name} : n \in DOMAIN x.rows}

\* ---- nothing lost --------------------------------------------------------------------
Gap == Blanks \cup Puncts \cup {"'", "\"", "`", "#"}
WordsOf(chars) ==
  LET e == FoldS(LAMBDA s, ch : IF ch \in Gap THEN (IF s.cur = <<>> THEN s ELSE [cur |-> <<>>, out |-> Append(s.out, Str(UpSeq(s.cur)))]) ELSE [s EXCEPT !.cur = Append(@, ch)], [cur |-> <<>>, out |-> <<>>], chars) IN
  IF e.cur = <<>> THEN e.out ELSE Append(e.out, Str(UpSeq(e.cur)))
Noise == {"CREATE", "TABLE", "IF", "EXISTS", "NULL", "DEFAULT", "KEY", "INDEX", "CONSTRAINT", "FOREIGN", "REFERENCES", "ON", "DELETE", "UPDATE", "CHARACTER", "SET", "COLLATE", "CHARSET", "INSERT", "INTO", "VALUES", "RESTRICT"}
\* where a quote or comment never ends, its beginning is left out and what follows is text again
RECURSIVE Opened(_)
Opened(chars) ==
  LET sc == Scan(chars) IN
  IF sc.open > 0 THEN Opened([chars EXCEPT ![sc.open] = " "])
  \* nor does a name go over several lines
  ELSE LET long == {i \in DOMAIN sc.toks : sc.toks[i].k = "id" /\ In(Chars(sc.toks[i].s), "\n")} IN
       IF long # {} THEN Opened([chars EXCEPT ![sc.toks[CHOOSE i \in long : \A j \in long : i <= j].a] = " "])
       ELSE FoldS(LAMBDA acc, x : acc \o WordsOf(Chars(x.s)), <<>>, sc.toks)
TextWords(cs, sc) == Opened(Chars(cs.text))
DumpWords(cs) == FoldS(LAMBDA acc, x : acc \o WordsOf(Chars(x)), <<>>, cs.dump)
\* said twice is the same as said once
Flags == {"NOT", "PRIMARY", "UNIQUE", "UNSIGNED", "AUTO_INCREMENT"}
Lost(cs, sc) ==
  LET t == TextWords(cs, sc)  d == DumpWords(cs)
      count(s, w) == Cardinality({i \in DOMAIN s : s[i] = w}) IN
  {"lost: " \o w : w \in {v \in Rng2(t) \ Noise : (IF v \in Flags THEN (IF count(t, v) > 0 THEN 1 ELSE 0) ELSE count(t, v)) > count(d, v)}}

Faults(cs) ==
  LET sc == Scan(Chars(cs.text))
      sts == Split(sc.toks)
      said == [k \in DOMAIN sts |-> Statement(sts[k].toks)]
      \* the statement in which a quote or comment is never closed is not one
      good == {k \in DOMAIN said : said[k].ok /\ (sc.open = 0 \/ k < Len(sts) \/ sts[k].ended)}
      creates == {k \in good : said[k].v.kind = "create"}
      inserts == good \ creates
      clean == sc.open = 0 /\ good = DOMAIN said
  IN UNION {CreateFaults(cs, said[k].v) : k \in creates}
     \cup UNION {RowFaults(cs, said[k].v) : k \in inserts}
     \cup (IF clean THEN (IF Cardinality(creates) # Len(cs.tables) THEN {"tables"} ELSE {})
                         \cup (IF FoldS(LAMBDA a, k : a + (IF k \in inserts THEN Len(said[k].v.rows) ELSE 0), 0, [i \in 1..Len(said) |-> i]) # Len(cs.rows) THEN {"number of rows"} ELSE {})
           ELSE Lost(cs, sc))
Clean(cs) == LET sc == Scan(Chars(cs.text))  sts == Split(sc.toks) IN sc.open = 0 /\ \A k \in DOMAIN sts : Statement(sts[k].toks).ok
Init == TLCSet(3, JsonDeserialize("cases.json")) /\ c \in 1..Len(Cases) /\ verdict = <<>>
Next == /\ verdict = <<>>
        /\ verdict' = << Faults(Cases[c]), Clean(Cases[c]) >>
        /\ PrintT("@@" \o ToJson([case |-> c, faults |-> verdict'[1], clean |-> verdict'[2]]))
        /\ UNCHANGED c
=============================================================================
