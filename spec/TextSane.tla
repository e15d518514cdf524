------------------------------ MODULE TextSane ------------------------------
(* Every spelling of every short value is read as one literal with that value. *)
EXTENDS Text
CONSTANT MaxLen
VARIABLE v
Alphabet == {"'", "\"", "\\", "`", ",", ")", ";", "-", "#", "a", "n", "%", " ", "\n"}
Init == v = <<>>
Next == Len(v) < MaxLen /\ \E c \in Alphabet : v' = Append(v, c)
Sane == \A i \in DOMAIN Styles : LET l == Lex(Enc(v, Styles[i][1], Styles[i][2]) \o <<";">>) IN
           ~l.bad /\ l.toks = <<Tok("str", v), Tok("sym", <<";">>)>>
=============================================================================
