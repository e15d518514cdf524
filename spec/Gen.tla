-------------------------------- MODULE Gen --------------------------------
(* Writes out the schemas of a universe: the declaration as SQL and what the   *)
(* server displays once it has stored it.                                       *)
EXTENDS Universe, Json
VARIABLE i
Line(k) == [id |-> k, raw |-> Dbs[k], decl |-> DeclText(Dbs[k]), tables |-> Map(LAMBDA t : <<t.name, TableText(t)>>, Dbs[k]), err |-> StoreErr(Norm(Dbs[k])),
            show80 |-> Show(Stored[k], "80"), show57 |-> Show(Stored[k], "57")]
Init == i = 0 /\ LoadUniverse
Next == /\ i < Len(Dbs)
        /\ i' = i + 1
        /\ PrintT("@@" \o ToJson(Line(i + 1)))
=============================================================================
