------------------------------- MODULE Damage -------------------------------
(* Damaged sources: a token or a character is lost, added, doubled, exchanged,   *)
(* or the text ends early.                                                          *)
EXTENDS Grammar, Json
CONSTANTS Mode, Base, Seed, Count
Bases == <<
 "CREATE TABLE `a` (`id` INT(10) UNSIGNED NOT NULL AUTO_INCREMENT, `n` VARCHAR(20) CHARACTER SET latin1 COLLATE latin1_bin DEFAULT 'x,y', e ENUM('p','q') NOT NULL DEFAULT 'p', PRIMARY KEY (`id`), UNIQUE KEY `u` (`n`,`e`)) ENGINE=InnoDB DEFAULT CHARSET=utf8;\nINSERT INTO `a` (`id`, n, e) VALUES (1, 'one', 'p'), (2, \"two\", 'q');\nCREATE TABLE z (id INT NOT NULL PRIMARY KEY, zz INT);\n",
 "INSERT INTO c (id, a_id) VALUES (1, NULL);\n-- a comment; with a semicolon\nCREATE TABLE c (\n  id INT NOT NULL,\n  a_id INT(10) UNSIGNED DEFAULT NULL,\n  w DATETIME DEFAULT CURRENT_TIMESTAMP,\n  PRIMARY KEY (id),\n  KEY a_id (a_id),\n  CONSTRAINT `f` FOREIGN KEY (`a_id`) REFERENCES `d` (`id`) ON DELETE CASCADE ON UPDATE SET NULL\n) ENGINE=InnoDB;\nCREATE TABLE `d` (`id` INT(10) UNSIGNED NOT NULL, PRIMARY KEY (`id`));\n",
 "/* first */ CREATE TABLE a (id BIGINT UNSIGNED NOT NULL, d DECIMAL(10,2) DEFAULT '1.50', t TEXT, k CHAR(3) NOT NULL DEFAULT '', PRIMARY KEY (id), INDEX k (k, d)) COMMENT='it; is' ENGINE=InnoDB;# end\nCREATE TABLE b (id INT, w DATE DEFAULT '2020-01-02');\nINSERT INTO a (id, d, t, k) VALUES ('7', 1.5, 'it\\'s; fine', \"a,b\");\nINSERT INTO b (id) VALUES (3), (4);\n",
 "CREATE TABLE `x` (`id` INT NOT NULL AUTO_INCREMENT, `m` MEDIUMTEXT, `f` FLOAT NOT NULL DEFAULT '0', `b` TINYINT(1) DEFAULT NULL, PRIMARY KEY (`id`,`b`), UNIQUE (`b`));\nINSERT INTO `x` (`id`, `m`, `b`) VALUES ('1', 'it''s', NULL), ('2', '', 0);\nINSERT INTO `x` (`id`, `m`, `b`) VALUES ('3', '-- no', '1');\nCREATE TABLE y (`id` INT, KEY `k` (`id`));\n"
>>
Garbage == <<",", ";", "(", ")", "=", "foo", "`bar`", "'baz'", "7", "NOT", "NULL", "KEY", "PRIMARY KEY", "UNIQUE", "DEFAULT", "CREATE", "CREATE TABLE", "INSERT", "INSERT INTO", "VALUES", "INT", "x INT",
             "-- rest", "-- rest\n", "--", "#", "/*", "*/", "/* x */", "/*/", "'", "\"", "`", "''", "SET", "ON", "DROP TABLE z;", "DEFAULT 5", "foo,", ", foo", "(foo)", "UNSIGNED", "COLLATE", "COMMENT 'x'", "AUTO_INCREMENT">>
Signs == <<"'", "\"", "`", ";", ",", "(", ")", "\n", " ", "-", "#", "x", "*", "/", "=">>
Text0 == TLCGet(1)
Toks == TLCGet(2)
Sub(a, b) == IF a > b THEN "" ELSE SubSeq(Bases[Base], a, b)
N == Len(Bases[Base])
NT == Len(Toks)
\* a damage: [op, at (token or character), with]
Pieces(d) ==
  LET t == Toks[IF d.op \in {"del", "dup", "swap", "trunc", "ins", "rep", "cut", "glue"} THEN d.at ELSE 1] IN
  CASE d.op = "del" -> Sub(1, t.a - 1) \o Sub(t.b + 1, N)
    [] d.op = "dup" -> Sub(1, t.b) \o " " \o Sub(t.a, N)
    [] d.op = "swap" -> LET u == Toks[d.at + 1] IN Sub(1, t.a - 1) \o Sub(u.a, u.b) \o Sub(t.b + 1, u.a - 1) \o " " \o Sub(t.a, t.b) \o " " \o Sub(u.b + 1, N)
    [] d.op = "trunc" -> Sub(1, t.b)
    [] d.op = "ins" -> Sub(1, t.a - 1) \o d.with \o " " \o Sub(t.a, N)
    [] d.op = "rep" -> Sub(1, t.a - 1) \o d.with \o Sub(t.b + 1, N)
    \* everything from here up to another token is lost
    [] d.op = "cut" -> Sub(1, t.a - 1) \o Sub(Toks[d.n].a, N)
    [] d.op = "glue" -> Sub(1, t.b) \o Sub(Toks[d.at + 1].a, N)
    [] d.op = "cdel" -> Sub(1, d.at - 1) \o Sub(d.at + 1, N)
    [] d.op = "cins" -> Sub(1, d.at - 1) \o d.with \o Sub(d.at, N)
    [] d.op = "crep" -> Sub(1, d.at - 1) \o d.with \o Sub(d.at + 1, N)
    [] d.op = "ctrunc" -> Sub(1, d.at)
    [] OTHER -> Bases[Base]
D(op, at, with, n) == [op |-> op, at |-> at, with |-> with, n |-> n]
TokenDamages == {D(op, i, "", 0) : op \in {"del", "dup", "trunc"}, i \in 1..NT} \cup {D(op, i, "", 0) : op \in {"swap", "glue"}, i \in 1..(NT - 1)}
                \cup {D(op, i, Garbage[x], 0) : op \in {"ins", "rep"}, i \in 1..NT, x \in DOMAIN Garbage}
CharDamages == {D(op, i, "", 0) : op \in {"cdel", "ctrunc"}, i \in 1..N} \cup {D(op, i, Signs[x], 0) : op \in {"cins", "crep"}, i \in 1..N, x \in DOMAIN Signs}
CutDamages == {D("cut", p[1], "", p[2]) : p \in {q \in (1..NT) \X (1..NT) : q[2] > q[1] + 1}}
\* several damages at once: drawn; the second one is made to what the first has left
Mix(a, b) == (((a % 9973) * 7919 + (b % 9973) * 10007 + (a % 1009) + 12345) % 999983)
Drawn(seed) ==
  LET at(k) == 1 + (Mix(seed, k) % (Len(Bases[Base])))
      with(k) == IF Mix(seed, k + 1) % 3 = 0 THEN Signs[1 + (Mix(seed, k + 2) % Len(Signs))] ELSE " " \o Garbage[1 + (Mix(seed, k + 2) % Len(Garbage))] \o " "
      a == at(11)  b == at(21)  x == IF a < b THEN a ELSE b  y == IF a < b THEN b ELSE a
      gap == Mix(seed, 31) % 4
      lose == (Mix(seed, 41) % 3) * (Mix(seed, 51) % 12) IN
  Sub(1, x) \o with(61) \o Sub(x + 1 + lose, y) \o (IF gap = 0 THEN "" ELSE with(71)) \o (IF gap = 3 THEN "" ELSE Sub(y + 1, N))
VARIABLES text, how, step
Init == /\ TLCSet(2, Scan(Chars(Bases[Base])).toks) /\ text = Bases[Base] /\ how = D("none", 1, "", 0) /\ step = 0
Next == IF Mode = "drawn" THEN step < Count /\ step' = step + 1 /\ text' = Drawn(Mix(Seed, step)) /\ how' = D("drawn", 1, "", 0)
        ELSE /\ step = 0 /\ step' = 1
             /\ \E d \in (CASE Mode = "tokens" -> TokenDamages [] Mode = "chars" -> CharDamages [] Mode = "cuts" -> CutDamages) : text' = Pieces(d) /\ how' = d
Say == PrintT("@@" \o ToJson([text |-> text, how |-> how]))
=============================================================================
