------------------------------- MODULE Rules -------------------------------
(* What is wrong with a declaration: the rules every declared table and every  *)
(* declared foreign key has to keep, as functions of the declaration alone.     *)
(* A fault is [t, o, k]: table, name of the faulty object, kind of fault.       *)
(* Tables are those of Universe, with a field semi: their semicolon is there.   *)
EXTENDS Universe

Types(ty) == TypeOf(ty)
F(t, o, k) == [t |-> t, o |-> o, k |-> k]
When(c, f) == IF c THEN <<f>> ELSE <<>>
BinTypes == {"BINARY", "VARBINARY"}
Timely == {"DATE", "DATETIME", "TIMESTAMP", "TIME", "YEAR"}
Long(n) == Len(n) > 64

\* ---- columns: what the type allows --------------------------------------------
DefaultFault(c, ty) ==
  CASE ty \in NumTypes -> c.def.k \in {"lit", "raw"} /\ (~c.def.num \/ (ty \in IntTypes \cup {"BIT"} /\ c.def.n % 10000 # 0) \/ (ty = "BIT" /\ c.def.n \notin {0, 10000}))
    [] ty \in NoDefault -> c.def.k # "none"
    [] ty = "ENUM" -> c.def.k \in {"lit", "raw"} /\ c.def.s \notin Rng(c.vals)
    [] ty = "SET" -> c.def.k \in {"lit", "raw"} /\ c.def.s \notin Rng(c.vals) \cup {""}
    [] OTHER -> FALSE
LengthFault(c, ty) ==
  CASE ty \in FloatTypes \cup {"BIT"} -> c.len # <<>>
    [] ty \in IntTypes -> Len(c.len) > 1
    [] ty \in NoDefault \cup {"DATE"} -> c.len # <<>>
    [] OTHER -> FALSE
CharsetFault(c, ty) ==
  CASE ty \in NumTypes \cup Timely -> (c.cs # "") \/ (c.co # "")
    [] ty \in NoDefault -> c.cs # "" \/ c.co # ""
    [] ty \in BinTypes -> c.cs \notin {"", "binary"} \/ c.co \notin {"", "binary"}
    [] OTHER -> FALSE
ColFaults(t, c) ==
  LET ty == Types(c.ty) IN
  When(c.name = "", F(t, "", "noname")) \o When(Long(c.name), F(t, c.name, "long"))
  \o When(DefaultFault(c, ty), F(t, c.name, "default"))
  \o When(LengthFault(c, ty), F(t, c.name, "length"))
  \o When(CharsetFault(c, ty), F(t, c.name, "charset"))
  \o When(c.ai /\ ty \notin IntTypes, F(t, c.name, "ai"))
  \o When(c.un /\ ty \notin NumTypes \ {"BIT"}, F(t, c.name, "unsigned"))
  \o When(c.vals # <<>> /\ ty \notin EnumTypes, F(t, c.name, "values"))
  \o When(c.vals = <<>> /\ ty \in EnumTypes, F(t, c.name, "novalues"))

\* ---- tables ------------------------------------------------------------------------
Repeats(ns) == Sel(MapI(LAMBDA k : IF \E j \in 1..(k-1) : ns[j] = ns[k] THEN ns[k] ELSE "", Len(ns)), LAMBDA n : n # "")
NoPks(idx) == Sel(idx, LAMBDA x : x.kind # "PRIMARY")
Pks(idx) == Sel(idx, LAMBDA x : x.kind = "PRIMARY")
Actions == {"CASCADE", "NO ACTION", "RESTRICT", "SET DEFAULT", "SET NULL"}
TableFaults(t) ==
  LET n == t.name
      ais == Sel(t.cols, LAMBDA c : c.ai)
      pks == Pks(t.idx)
  IN When(n = "", F(n, "", "noname")) \o When(Long(n), F(n, n, "long")) \o When(t.cols = <<>>, F(n, n, "nocolumns"))
     \o When(~t.semi, F(n, n, "semicolon"))
     \o Flat(Map(LAMBDA c : ColFaults(n, c), t.cols))
     \o Map(LAMBDA c : F(n, c, "twice"), Repeats(Names(t.cols)))
     \o Map(LAMBDA c : F(n, c, "twice"), Repeats(Names(NoPks(t.idx))))
     \o Map(LAMBDA c : F(n, c, "twice"), Repeats(Names(t.fks)))
     \o When(Len(pks) > 1, F(n, n, "primaries"))
     \o When(Len(ais) > 1, F(n, n, "autos"))
     \o When(Len(ais) = 1 /\ pks = <<>>, F(n, n, "autonokey"))
     \o When(Len(ais) = 1 /\ pks # <<>> /\ pks[1].cols[1] # ais[1].name, F(n, ais[1].name, "autokey"))
     \o Flat(Map(LAMBDA x : Map(LAMBDA c : F(n, c, "nocolumn"), Sel(x.cols, LAMBDA c : c \notin NameSet(t.cols))), t.idx))
     \o Flat(Map(LAMBDA x : When(Long(x.name), F(n, x.name, "long")), t.idx))
     \o Flat(Map(LAMBDA f : When(Long(f.name), F(n, f.name, "long")) \o When(f.name = "", F(n, n, "noname"))
                            \o When(f.del \notin Actions, F(n, f.name, "ondelete")) \o When(f.upd \notin Actions, F(n, f.name, "onupdate")), t.fks))

\* ---- foreign keys -------------------------------------------------------------------
LeadsSeq(idx, c) == \E x \in Rng(idx) : x.cols[1] = c
Null(t, c) == ~(c.nul = "NOT NULL" \/ c.ai \/ \E x \in Rng(t.idx) : x.kind = "PRIMARY" /\ c.name \in Rng(x.cols))
\* why the key cannot be, or ""; only what is declared counts
FkFault(DD, t, f) ==
  IF f.rt \notin NameSet(DD) THEN "table"
  ELSE LET p == ByName(DD, f.rt) IN
  IF f.rc \notin NameSet(p.cols) THEN "foreign column"
  ELSE IF f.col \notin NameSet(t.cols) THEN "column"
  ELSE LET a == ByName(t.cols, f.col)  b == ByName(p.cols, f.rc) IN
  CASE ~LeadsSeq(t.idx, a.name) -> "index"
    [] Types(a.ty) # Types(b.ty) -> "type"
    [] a.len # b.len -> "length"
    [] a.cs # b.cs -> "character set"
    [] a.co # b.co -> "collation"
    [] a.un # b.un -> "unsigned"
    [] "SET NULL" \in {f.del, f.upd} /\ ~Null(t, a) -> "set null"
    [] ~LeadsSeq(p.idx, b.name) -> "foreign index"
    [] OTHER -> ""
FkFaults(DD, t) == Flat(Map(LAMBDA f : LET e == FkFault(DD, t, f) IN When(e # "", F(t.name, f.name, e)), t.fks))
SharedFks(DD) == \* names of keys which an earlier table has as well
  Flat(MapI(LAMBDA k : Map(LAMBDA f : F(DD[k].name, f.name, "shared"), Sel(DD[k].fks, LAMBDA f : \E j \in 1..(k-1) : f.name \in NameSet(DD[j].fks))), Len(DD)))
Faults(DD) == Flat(Map(TableFaults, DD)) \o Flat(Map(LAMBDA t : FkFaults(DD, t), DD)) \o SharedFks(DD)

\* a table that ends with a semicolon
TS(n, cols, idx, fks) == [t |-> "create", name |-> n, cols |-> cols, idx |-> idx, fks |-> fks, cs |-> "", co |-> "", semi |-> TRUE]
=============================================================================
