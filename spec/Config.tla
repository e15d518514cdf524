------------------------------- MODULE Config -------------------------------
(* Which configuration file governs a run, and what it says. A path is a         *)
(* sequence of names below the root. The directories are a chain: level 0 is the *)
(* root, level k the k-th name of Chain.                                           *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Family
Chain == << "d1", "d2", "d3" >>
Levels == 0..3
At(l) == SubSeq(Chain, 1, l)
\* normal form of a path with "." and ".."
RECURSIVE Resolve(_, _)
Resolve(done, todo) ==
  IF todo = <<>> THEN done
  ELSE LET x == todo[1] IN
       Resolve(IF x = "." THEN done ELSE IF x = ".." THEN (IF done = <<>> THEN <<>> ELSE SubSeq(done, 1, Len(done) - 1)) ELSE Append(done, x), Tail(todo))
\* scenario: [cwd: level, request: [abs, path], files: set of paths that are configuration files, dirs: set of paths that are directories of that name]
Candidates(sc) == IF sc.request.abs THEN << Resolve(<<>>, sc.request.path) >>
                  ELSE [i \in 1..(sc.cwd + 1) |-> Resolve(At(sc.cwd - i + 1), sc.request.path)]
Governing(sc) ==     \* <<path>>, or <<>> if there is none
  LET c == Candidates(sc)  ok == {i \in DOMAIN c : c[i] \in sc.files} IN
  IF sc.request.path = <<>> \/ ok = {} THEN <<>> ELSE << c[CHOOSE i \in ok : \A j \in ok : i <= j] >>
Directory(p) == SubSeq(p, 1, Len(p) - 1)

\* content: [sql: location, env: location, keys: the four key names, drop: entries left out, envdrop: settings left out]
\* location: [abs, path] or nothing
Loc(abs, path) == [abs |-> abs, path |-> path]
Entries == << "hostname_key", "username_key", "password_key", "database_key" >>
Place(conf, loc) == IF loc.abs THEN Resolve(<<>>, loc.path) ELSE Resolve(Directory(conf), loc.path)
Outcome(sc, co) ==
  LET g == Governing(sc) IN
  IF g = <<>> THEN [k |-> "error", names |-> <<>>]
  ELSE IF "files_directory" \in co.drop THEN [k |-> "error", names |-> <<"files_directory">>]
  ELSE IF "env_file" \in co.drop THEN [k |-> "error", names |-> <<"env_file">>]
  ELSE LET lost == {i \in DOMAIN Entries : Entries[i] \in co.drop}
           gone == {i \in DOMAIN Entries : i \in co.envdrop}
       IN IF lost # {} THEN [k |-> "error", names |-> [i \in 1..1 |-> Entries[CHOOSE j \in lost : TRUE]], any |-> {Entries[j] : j \in lost}]
          ELSE IF co.noenv THEN [k |-> "error", names |-> <<>>]
          ELSE IF gone # {} THEN [k |-> "error", names |-> <<>>, any |-> {co.keys[j] : j \in gone}]
          ELSE [k |-> "ok", conf |-> g[1], sql |-> Place(g[1], co.sql), env |-> Place(g[1], co.env), keys |-> co.keys]

Name == "vmygrate.conf"
Requests == { Loc(FALSE, <<Name>>), Loc(FALSE, <<".", Name>>), Loc(FALSE, <<"sub", Name>>), Loc(FALSE, <<"..", Name>>), Loc(FALSE, <<"..", "d2", Name>>), Loc(FALSE, <<>>) }
            \cup { Loc(TRUE, Append(At(l), Name)) : l \in Levels } \cup { Loc(TRUE, <<"d1", "sub", "..", Name>>) }
Usual == [sql |-> Loc(FALSE, <<"sql">>), env |-> Loc(FALSE, <<".env">>), keys |-> << "DB_HOST", "DB_USER", "DB_PASS", "DB_NAME" >>, drop |-> {}, envdrop |-> {}, noenv |-> FALSE]
\* family "search": the file, or a directory of its name, on every level; also below "sub" of every level
Spots == { Append(At(l), Name) : l \in Levels } \cup { At(l) \o <<"sub", Name>> : l \in {0, 1, 3} }
Searches == { [cwd |-> c, request |-> r, files |-> f, dirs |-> d] : c \in Levels, r \in Requests, f \in SUBSET Spots, d \in {{}} }
Blocked == { [cwd |-> c, request |-> r, files |-> f, dirs |-> { Append(At(l), Name) : l \in Levels } \ f] : c \in Levels, r \in Requests, f \in SUBSET { Append(At(l), Name) : l \in Levels } }
\* family "content": what the file says, with the file one or two levels above the working directory
Locs(n) == { Loc(FALSE, <<n>>), Loc(FALSE, <<".", n>>), Loc(FALSE, <<"conf", n>>), Loc(FALSE, <<"..", n>>), Loc(FALSE, <<"..", "d2", "x", n>>), Loc(TRUE, <<n>>), Loc(TRUE, <<"d1", "abs", n>>), Loc(TRUE, <<"d1", "..", n>>) }
KeyNames == { << "DB_HOST", "DB_USER", "DB_PASS", "DB_NAME" >>, << "DB_USER", "DB_HOST", "DB_NAME", "DB_PASS" >>, << "host", "user", "password", "database" >>, << "SAME", "SAME", "P", "SAME" >>, << "HOST_A", "HOST", "HOST_B", "HOST_" >> }
Drops == { {}, {"files_directory"}, {"env_file"}, {"hostname_key"}, {"username_key"}, {"password_key"}, {"database_key"}, {"hostname_key", "password_key"}, {"env_file", "database_key"} }
Contents == { [sql |-> s, env |-> e, keys |-> k, drop |-> {}, envdrop |-> {}, noenv |-> FALSE] : s \in Locs("sql"), e \in Locs(".env"), k \in KeyNames }
            \cup { [Usual EXCEPT !.drop = d, !.keys = k] : d \in Drops, k \in KeyNames }
            \cup { [Usual EXCEPT !.envdrop = d, !.keys = k] : d \in SUBSET {1, 2, 3, 4}, k \in KeyNames }
            \cup { [Usual EXCEPT !.noenv = TRUE, !.env = e] : e \in Locs(".env") }
Over(l, c) == [cwd |-> c, request |-> Loc(FALSE, <<Name>>), files |-> { Append(At(l), Name) }, dirs |-> {}]
VARIABLES sc, co
Init == CASE Family = "search" -> sc \in Searches \cup Blocked /\ co = Usual
          [] Family = "content" -> sc \in { Over(l, c) : l \in {0, 2}, c \in {2, 3} } \cup {[Over(1, 2) EXCEPT !.request = Loc(TRUE, <<"d1", Name>>)]} /\ co \in Contents
Next == UNCHANGED <<sc, co>>
\* the working directory only counts for relative requests, and the closest file wins
Sane == LET g == Governing(sc) IN
  /\ g # <<>> => g[1] \in sc.files
  /\ sc.request.abs => \A c \in Levels : Governing([sc EXCEPT !.cwd = c]) = g
  /\ (~sc.request.abs /\ sc.request.path = <<Name>> /\ Append(At(sc.cwd), Name) \in sc.files) => g = <<Append(At(sc.cwd), Name)>>
Say == PrintT("@@" \o ToJson([sc |-> sc, co |-> co, out |-> Outcome(sc, co)]))
=============================================================================
