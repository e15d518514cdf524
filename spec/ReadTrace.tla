----------------------------- MODULE ReadTrace -----------------------------
(* Judges what the real code has read: observed tables (spec: Read!Mean of the  *)
(* observation) against what the source says.                                   *)
(* case: [d: schema, from: "decl" | "80" | "57", opts: options besides character *)
(*        set and collation, seen: tables as observed, again: tables as written  *)
(*        down by the real code (statements as the strict reader reads them)]    *)
EXTENDS Read, Json
VARIABLES c, verdict
Cases == TLCGet(3)
Tables == TLCGet(4)
Sources(cs) ==
  IF cs.from = "decl" THEN Dbs[cs.d]
  ELSE LET st == Stored[cs.d] IN MapI(LAMBDA i : Shown(st.tables[SeqOfSet(Tabs(st))[i]], cs.from), Cardinality(Tabs(st)))
TableFaults(cs, src, n) ==
  LET o == Tables[cs.seen[n]] IN
  {k \o " in " \o src.name : k \in Differ(Mean(o), Mean(src))}
  \cup (IF {<<o.opts[i][1], o.opts[i][2]>> : i \in DOMAIN o.opts} # {<<cs.opts[i][1], cs.opts[i][2]>> : i \in DOMAIN cs.opts} \/ Len(o.opts) # Len(cs.opts) THEN {"options in " \o src.name} ELSE {})
SeenNames(cs) == MapI(LAMBDA i : Tables[cs.seen[i]].name, Len(cs.seen))
AgainWrong(cs) ==
  LET want == Stored[cs.d]
      got == RunAll([EmptyDb EXCEPT !.fkc = FALSE], MapI(LAMBDA i : Tables[cs.again[i]], Len(cs.again)))
      st == got.states[Len(got.states)]
      same(n) == LET a == st.tables[n]  b == want.tables[n] IN
                 /\ Names(a.cols) = Names(b.cols)
                 /\ \A i \in DOMAIN a.cols : LET x == a.cols[i]  y == b.cols[i] IN
                      \* the width of an integer is a matter of display
                      [x EXCEPT !.len = IF x.ty \in IntTypes THEN <<>> ELSE @] = [y EXCEPT !.len = IF y.ty \in IntTypes THEN <<>> ELSE @]
                 /\ a.idx = b.idx /\ a.fks = b.fks /\ a.cs = b.cs /\ a.co = b.co
  IN IF got.err # "" THEN {"what is written down would be refused with " \o got.err}
     ELSE IF Tabs(st) # Tabs(want) THEN {"other tables are written down"}
     ELSE {"what is written down is another table: " \o n : n \in {m \in Tabs(st) : ~same(m)}}
Faults(cs) ==
  LET src == Sources(cs) IN
  (IF Rng(SeenNames(cs)) # NameSet(src) \/ Len(cs.seen) # Len(src) THEN {"tables"}
   ELSE UNION {TableFaults(cs, src[k], IndexOf(SeenNames(cs), src[k].name)) : k \in DOMAIN src})
  \cup (IF cs.again = <<>> THEN {} ELSE AgainWrong(cs))

Init == /\ LoadUniverse
        /\ TLCSet(3, JsonDeserialize("cases.json"))
        /\ TLCSet(4, JsonDeserialize("tables.json"))
        /\ c \in 1..Len(Cases)
        /\ verdict = <<>>
Next == /\ verdict = <<>>
        /\ verdict' = <<SeqOfSet(Faults(Cases[c]))>>
        /\ PrintT("@@" \o ToJson([case |-> c, faults |-> verdict'[1]]))
        /\ UNCHANGED c
=============================================================================
