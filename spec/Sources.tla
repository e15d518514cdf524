------------------------------ MODULE Sources ------------------------------
(* A declaration in pieces: items (tables and blocks of rows) are put into       *)
(* files, strings and directories in any arrangement. What they say together     *)
(* does not depend on the arrangement.                                              *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, Fold
CONSTANTS Mode, Items0, MaxItems, Seed, Count
\* items: tables (their name and which definition of it) and rows [t, ids]
Tab(n, k) == [kind |-> "table", t |-> n, which |-> k, ids |-> <<>>]
Ins(n, ids) == [kind |-> "rows", t |-> n, which |-> 0, ids |-> ids]
Cmt == [kind |-> "comment", t |-> "", which |-> 0, ids |-> <<>>]
Items == << Tab("a", 1), Tab("a", 2), Tab("b", 1), Tab("c", 1), Ins("a", <<"1", "2">>), Ins("a", <<"3">>), Ins("a", <<"2", "x">>), Ins("b", <<"1">>), Ins("z", <<"1">>), Cmt >>
\* what a sequence of items says
NamesOf(items) == {items[i].t : i \in {j \in DOMAIN items : items[j].kind = "table"}}
RowsOf(items, n) == FoldS(LAMBDA acc, x : IF x.kind = "rows" /\ x.t = n THEN acc \o x.ids ELSE acc, <<>>, items)
Twice(s) == \E i, j \in DOMAIN s : i < j /\ s[i] = s[j]
Faults(items) ==
  {"two " \o n : n \in {m \in NamesOf(items) : Cardinality({i \in DOMAIN items : items[i].kind = "table" /\ items[i].t = m}) > 1}}
  \cup {"undeclared " \o items[i].t : i \in {j \in DOMAIN items : items[j].kind = "rows" /\ items[j].t \notin NamesOf(items)}}
  \cup {"row twice " \o n : n \in {m \in NamesOf(items) : Twice(RowsOf(items, m))}}
Says(items) ==
  [faults |-> Faults(items),
   tables |-> { [t |-> n, which |-> (CHOOSE i \in DOMAIN items : items[i].kind = "table" /\ items[i].t = n), tracked |-> \E i \in DOMAIN items : items[i].kind = "rows" /\ items[i].t = n,
                 ids |-> {RowsOf(items, n)[i] : i \in DOMAIN RowsOf(items, n)}] : n \in NamesOf(items) }]
\* an arrangement: sources [kind, parts: seq of seq of items]; kinds: a string, a file, a directory of files
Flat(arr) == FoldS(LAMBDA acc, s : FoldS(LAMBDA a, p : a \o p, acc, s.parts), <<>>, arr)
Kinds == << "text", "file", "dir" >>
VARIABLES arr, step
\* ---- every arrangement of few items: items are added one by one, to the last source or a new one ---------
Used == Len(Flat(arr))
Last == arr[Len(arr)]
AddTo(i) == [arr EXCEPT ![Len(arr)].parts[Len(Last.parts)] = Append(@, Items[i])]
NewPart(i) == [arr EXCEPT ![Len(arr)].parts = Append(@, <<Items[i]>>)]
NewSource(k, i) == Append(arr, [kind |-> k, parts |-> << <<Items[i]>> >>])
Mix(a, b) == (((a % 9973) * 7919 + (b % 9973) * 10007 + (a % 1009) + 12345) % 999983)
RECURSIVE Build(_, _, _, _)
Build(acc, seed, i, n) ==
  IF i > n THEN acc
  ELSE LET x == Items[1 + (Mix(seed, i) % Len(Items))]  w == Mix(seed, i + 50) % 5  k == Kinds[1 + (Mix(seed, i + 90) % 3)]  l == Len(acc) IN
       Build(IF l = 0 \/ w = 0 THEN Append(acc, [kind |-> k, parts |-> << <<x>> >>])
             ELSE IF w = 1 /\ acc[l].kind = "dir" THEN [acc EXCEPT ![l].parts = Append(@, <<x>>)]
             ELSE [acc EXCEPT ![l].parts[Len(acc[l].parts)] = Append(@, x)], seed, i + 1, n)
Init == arr = <<>> /\ step = 0
Next == IF Mode = "drawn" THEN /\ step < Count /\ step' = step + 1 /\ arr' = Build(<<>>, Mix(Seed, step), 1, 2 + (step % 8))
        ELSE /\ Used < MaxItems /\ step' = step
             /\ \E i \in (IF Used = 0 THEN {Items0} ELSE DOMAIN Items) :
                  \/ \E k \in {"text", "file", "dir"} : arr' = NewSource(k, i)
                  \/ Used > 0 /\ arr' = AddTo(i)
                  \/ Used > 0 /\ Last.kind = "dir" /\ arr' = NewPart(i)
Say == arr = <<>> \/ PrintT("@@" \o ToJson([arr |-> arr, says |-> Says(Flat(arr))]))
\* the meaning does not depend on the order, up to which of two definitions comes first
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
OrderFree == LET f == Flat(arr)  a == Says(f)  b == Says(Rev(f)) IN a.faults = b.faults /\ {[x EXCEPT !.which = 0] : x \in a.tables} = {[x EXCEPT !.which = 0] : x \in b.tables}
=============================================================================
