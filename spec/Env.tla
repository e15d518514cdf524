-------------------------------- MODULE Env --------------------------------
(* Environment files: what a line says (Reading), and what a text of lines says. *)
(* Texts are sequences of characters.                                              *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, Fold
CONSTANTS Mode, First, MaxLen, Seed, Count
Blank == {" ", "\t", "\r"}
Quotes == {"'", "\""}
Slash == "\\"
RECURSIVE LStrip(_), RStrip(_)
LStrip(s) == IF s # <<>> /\ s[1] \in Blank THEN LStrip(Tail(s)) ELSE s
RStrip(s) == IF s # <<>> /\ s[Len(s)] \in Blank THEN RStrip(SubSeq(s, 1, Len(s) - 1)) ELSE s
StripB(s) == LStrip(RStrip(s))
\* position of the first of some characters, 0 if there is none
RECURSIVE Find(_, _, _)
Find(s, S, i) == IF i > Len(s) THEN 0 ELSE IF s[i] \in S THEN i ELSE Find(s, S, i + 1)
Before(s, i) == SubSeq(s, 1, i - 1)
After(s, i) == SubSeq(s, i + 1, Len(s))
UpToComment(s) == LET i == Find(s, {"#"}, 1) IN IF i = 0 THEN s ELSE Before(s, i)
\* the quote that ends a quoted text: the first one without a backslash in front
RECURSIVE Closing(_, _, _)
Closing(s, q, i) == IF i > Len(s) THEN 0 ELSE IF s[i] = q /\ s[i-1] # Slash THEN i ELSE Closing(s, q, i + 1)
RECURSIVE Unescape(_, _)
Unescape(s, q) == IF s = <<>> THEN <<>> ELSE IF Len(s) >= 2 /\ s[1] = Slash /\ s[2] = q THEN <<q>> \o Unescape(SubSeq(s, 3, Len(s)), q) ELSE <<s[1]>> \o Unescape(Tail(s), q)
Nothing == [k |-> "nothing", name |-> <<>>, value |-> <<>>]
Error == [k |-> "error", name |-> <<>>, value |-> <<>>]
Setting(n, v) == [k |-> "set", name |-> n, value |-> v]
Quoted(v) ==
  LET q == v[1]  j == Closing(v, q, 2) IN
  IF j = 0 THEN [ok |-> FALSE, v |-> <<>>]
  ELSE [ok |-> StripB(UpToComment(After(v, j))) \in {<<>>, <<";">>}, v |-> Unescape(SubSeq(v, 2, j - 1), q)]
Plain(v) == LET w == RStrip(UpToComment(v)) IN [ok |-> Find(w, Quotes, 1) = 0, v |-> w]
Reading(line) ==
  LET s == StripB(line) IN
  IF s = <<>> \/ s[1] = "#" THEN Nothing
  ELSE LET i == Find(s, {"=", ":"}, 1) IN
       IF i = 0 THEN Error
       ELSE LET n == StripB(Before(s, i))  v == StripB(After(s, i)) IN
            IF n = <<>> THEN Error
            ELSE IF v = <<>> THEN Setting(n, <<>>)
            ELSE LET r == IF v[1] \in Quotes THEN Quoted(v) ELSE Plain(v) IN IF r.ok THEN Setting(n, r.v) ELSE Error
\* a text: an error anywhere is an error; the last setting of a name wins
Put(settings, x) == [i \in 1..Len(SelectSeq(settings, LAMBDA y : y.name # x.name)) |-> SelectSeq(settings, LAMBDA y : y.name # x.name)[i]] \o <<[name |-> x.name, value |-> x.value]>>
AddLine(acc, line) == LET r == Reading(line) IN
  IF acc.err \/ r.k = "error" THEN [err |-> TRUE, settings |-> <<>>]
  ELSE IF r.k = "nothing" THEN acc ELSE [acc EXCEPT !.settings = Put(@, r)]
TextSays(lines) == FoldS(AddLine, [err |-> FALSE, settings |-> <<>>], lines)

\* ---- behaviours: lines grow by a character, texts by a line ------------------------------
Alphabet == << "a", "=", "#", "'", "\"", Slash, " ", ":", ";" >>
VARIABLES line, text, step
vars == <<line, text, step>>
Mix(a, b) == (((a % 9973) * 7919 + (b % 9973) * 10007 + (a % 1009) + 12345) % 999983)
Emit1(l) == PrintT("@@" \o ToJson([lines |-> <<l>>, says |-> TextSays(<<l>>)]))
EmitN(t) == PrintT("@@" \o ToJson([lines |-> t, says |-> TextSays(t)]))
\* drawn lines: made of pieces
Pieces == << <<"A">>, <<"B">>, <<"=">>, <<"=">>, <<":">>, <<" ">>, <<"\t">>, <<"#">>, <<"'">>, <<"\"">>, <<Slash, "'">>, <<Slash, "\"">>, <<Slash>>, <<"x">>, <<";">>, <<" ", " ">>, <<"A", "=">>, <<"B", "=", "'">>, <<"'", " ", "#">>, <<"A", "=", "\"", " ">>, <<"\"", " ">>, <<"\r">> >>
RECURSIVE Draw(_, _, _)
Draw(seed, i, n) == IF i > n THEN <<>> ELSE Pieces[1 + (Mix(seed, i) % Len(Pieces))] \o Draw(Mix(seed, i + 17), i + 1, n)
Wellformed == << <<"A", "=", "1">>, <<"B", ":", "'", "x", " ", "'", "#", "y">>, <<"#", "A", "=", "2">>, <<>>, <<"A", "=">>, <<"B", "=", "\"", " ", "x", Slash, "\"", "\"", ";">>, <<"C", " ", "=", " ", "a", "=", "b">>, <<" ">>, <<"A", "=", "#">>, <<"C", "=", "'", "'">> >>
DrawLine(seed) == IF seed % 3 # 0 THEN Wellformed[1 + (Mix(seed, 3) % Len(Wellformed))] ELSE Draw(seed, 1, 1 + (seed % 11))
RECURSIVE DrawText(_, _)
DrawText(seed, n) == IF n = 0 THEN <<>> ELSE <<DrawLine(Mix(seed, n))>> \o DrawText(Mix(seed, n + 31), n - 1)
Init == /\ text = <<>> /\ step = 0
        /\ line = IF Mode = "lines" THEN (IF First = 0 THEN <<>> ELSE <<Alphabet[First]>>) ELSE <<>>
Next == CASE Mode = "lines" -> /\ Len(line) < MaxLen /\ ~(First = 0)
                               /\ \E i \in DOMAIN Alphabet : line' = Append(line, Alphabet[i])
                               /\ UNCHANGED <<text, step>>
          [] Mode = "drawnlines" -> /\ step < Count /\ step' = step + 1 /\ line' = Draw(Mix(Seed, step), 1, 3 + (step % 16)) /\ UNCHANGED text
          [] Mode = "texts" -> /\ step < Count /\ step' = step + 1 /\ text' = DrawText(Mix(Seed * 31 + 7, step), 1 + (step % 6)) /\ UNCHANGED line
Say == IF Mode = "texts" THEN (step > 0 => EmitN(text)) ELSE Emit1(line)
\* sanity of the reading: a line with quotes taken away says the same; no line says two things
Sane == Mode # "texts" =>
  LET r == Reading(line) IN
  /\ r.k = "set" => r.name # <<>> /\ StripB(r.name) = r.name /\ Find(r.name, {"=", ":"}, 1) = 0
  /\ r.k = "set" => Reading(<<"#">> \o line).k = "nothing" /\ Reading(<<" ">> \o line \o <<" ">>) = r
  /\ r.k = "set" /\ Find(line, Quotes \cup {"#", ";", Slash}, 1) = 0 => LET s == StripB(line) IN r.name \o <<"=">> \o r.value \in {r.name \o <<"=">> \o StripB(After(s, Find(s, {"=", ":"}, 1)))}
=============================================================================
