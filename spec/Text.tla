-------------------------------- MODULE Text --------------------------------
(* Texts as sequences of characters (strings of length one): how MySQL reads a *)
(* statement (its lexer, with the default sql_mode), and how a value may be    *)
(* spelled as a literal.                                                        *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, Fold, TLC
Chars(s) == FoldS(LAMBDA acc, i : Append(acc, SubSeq(s, i, i)), <<>>, [i \in 1..Len(s) |-> i])
In(s, c) == \E i \in DOMAIN s : s[i] = c
Lower == Chars("abcdefghijklmnopqrstuvwxyz")
Upper == Chars("ABCDEFGHIJKLMNOPQRSTUVWXYZ")
UpMap == [c \in {Lower[i] : i \in 1..26} |-> Upper[CHOOSE i \in 1..26 : Lower[i] = c]]
LowerSet == DOMAIN UpMap
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Blanks == {" ", "\n", "\t", "\r"}
UpSeq(s) == FoldS(LAMBDA acc, c : Append(acc, IF c \in LowerSet THEN UpMap[c] ELSE c), <<>>, s)
Puncts == {"(", ")", ",", ";", "=", "-", "+", "*", "/", "<", ">", "!", "@", ":", "%", "&", "|", "^", "~", "{", "}", "[", "]", "?", "\\"}

\* what \x stands for inside a literal
EscOf(c) == CASE c = "n" -> "\n" [] c = "t" -> "\t" [] c = "r" -> "\r" [] OTHER -> c

\* ---- the lexer: one character at a time -------------------------------------------
\* q: in which quotes ("" outside, "w" in a word, "#" and "-" and "*" in comments)
\* h: the character in front, when it has not been dealt with: "\\" or the quote itself in quotes, "/" or "-" outside
Start == [q |-> "", h |-> "", cur |-> <<>>, out |-> <<>>, bad |-> FALSE]
Tok(k, c) == [k |-> k, c |-> c]
KindOf(q) == CASE q = "'" -> "str" [] q = "\"" -> "str" [] q = "`" -> "id" [] OTHER -> "word"
Close(s) == IF s.q = "" THEN s ELSE [s EXCEPT !.out = Append(@, Tok(KindOf(s.q), s.cur)), !.cur = <<>>, !.q = "", !.h = ""]
Outside(s, c) ==
  CASE c \in {"'", "\"", "`"} -> [s EXCEPT !.q = c, !.cur = <<>>, !.h = ""]
    [] c = "#" -> [s EXCEPT !.q = "#", !.bad = TRUE]           \* a comment has no business in a planned statement
    [] c \in Blanks -> [s EXCEPT !.h = ""]
    [] c \in Puncts ->
         [s EXCEPT !.out = Append(@, Tok("sym", <<c>>)), !.h = c,
                   !.bad = @ \/ (c = "*" /\ s.h = "/") \/ (c = "-" /\ s.h = "-")]
    [] OTHER -> [s EXCEPT !.q = "w", !.cur = <<c>>, !.h = ""]
LexStep(s, c) ==
  CASE s.q = "" -> Outside(s, c)
    [] s.q = "w" -> IF c \in Blanks \/ c \in Puncts \/ c \in {"'", "\"", "`", "#"} THEN Outside(Close(s), c) ELSE [s EXCEPT !.cur = Append(@, c)]
    [] s.q = "#" -> s
    [] s.h = "\\" -> [s EXCEPT !.cur = IF c \in {"%", "_"} THEN @ \o <<"\\", c>> ELSE Append(@, EscOf(c)), !.h = ""]
    [] s.h = s.q -> IF c = s.q THEN [s EXCEPT !.cur = Append(@, c), !.h = ""] ELSE LET t == Close(s) IN Outside(t, c)
    [] c = s.q -> [s EXCEPT !.h = c]
    [] c = "\\" /\ s.q # "`" -> [s EXCEPT !.h = c]
    [] OTHER -> [s EXCEPT !.cur = Append(@, c)]
Lex(text) ==
  LET e == FoldS(LexStep, Start, text)
      ended == e.q \in {"", "w"} \/ (e.h = e.q /\ e.q # "#")
      f == IF ended THEN Close(e) ELSE e
  IN [toks |-> f.out, bad |-> f.bad \/ ~ended]

\* ---- spellings of a value ------------------------------------------------------------
\* quote: ' or "; how: whether a quote inside is doubled or has a backslash in front
EncChar(c, quote, how) ==
  IF c = "\\" THEN <<"\\", "\\">>
  ELSE IF c = quote THEN (IF how = "double" THEN <<c, c>> ELSE <<"\\", c>>)
  ELSE IF c \in {"'", "\""} /\ how = "all" THEN <<"\\", c>>
  ELSE <<c>>
Enc(v, quote, how) == <<quote>> \o FoldS(LAMBDA acc, c : acc \o EncChar(c, quote, how), <<>>, v) \o <<quote>>
Styles == << <<"'", "double">>, <<"'", "backslash">>, <<"\"", "double">>, <<"\"", "backslash">>, <<"'", "all">>, <<"\"", "all">> >>
=============================================================================
