-------------------------------- MODULE Ways ----------------------------------
(* The ways in which programs can be documented: in one go or step by step,    *)
(* again, from a cache of any step, with the command line tool, and with       *)
(* other programs and services in between.  There are two directories; in each *)
(* of them is one of two programs, and at most one service that is in use.     *)
EXTENDS TLC, Naturals, Integers, Sequences, FiniteSets

\* How far a service is: it knows nothing (-1), its own options (0), was set up (1), has routes (2), with what their handlers do (3), without temporary names (4).
Unknown == -1
NoSv == [q |-> 0, cache |-> "", mode |-> "", st |-> Unknown]
\* in: the program in each directory; live: the service in use, if its program is not 0; files: the caches of each directory, as <<directory, name>>; up: the directories in which there is a place for temporary files; made: the directories
\* whose outputs an operation has generated; err: its error, if there is one
Init0 == [in |-> <<0, 0>>, live |-> <<NoSv, NoSv>>, files |-> <<>>, up |-> {}, made |-> {}, err |-> ""]

CacheOf(sv) == IF sv.cache = "" /\ sv.mode = "setup" THEN "default" ELSE sv.cache
Without(f, keys) == [k \in DOMAIN f \ keys |-> f[k]]
Drop(st, d, names) == [st EXCEPT !.files = Without(@, {<<d, c>> : c \in names})]
AllCaches == {"default", "json", "yaml"}

New(st, d, op) ==
  LET s == IF st.in[d] = op.q THEN st ELSE [Drop(st, d, AllCaches) EXCEPT !.in[d] = op.q, !.up = @ \ {d}]
  IN  [s EXCEPT !.live[d] = [q |-> op.q, cache |-> op.cache, mode |-> op.mode, st |-> IF op.bare THEN Unknown ELSE 0]]

Plan(m) ==
  CASE m = "Setup" -> << "setup" >>
    [] m = "CreateRoutes" -> << "create" >>
    [] m = "ParseRoutes" -> << "parse" >>
    [] m = "Clean" -> << "clean" >>
    [] m = "Generate" -> << "gen" >>
    [] m = "Teardown" -> << "down" >>
    [] m = "SetupParse" -> << "check", "setup", "create" >>
    [] m = "CompleteParse" -> << "check", "parse", "clean", "gen", "down" >>
    [] m = "Parse" -> << "check", "setup", "create", "check", "parse", "clean", "gen", "down" >>

Save(st, d) == LET c == CacheOf(st.live[d]) IN IF c = "" THEN st ELSE [st EXCEPT !.files = (<<d, c>> :> st.live[d].st) @@ @]
Up(st, d) == [st EXCEPT !.up = @ \cup {d}]
Later(a, b) == IF a > b THEN a ELSE b

Step(st, d, a) ==
  LET sv == st.live[d]
      At(n) == Save([st EXCEPT !.live[d].st = n], d)
  IN
  IF st.err # "" THEN st
  ELSE CASE a = "check" -> IF sv.st = Unknown THEN [st EXCEPT !.err = "not set"] ELSE st
         [] a = "setup" -> Up(At(Later(sv.st, 1)), d)
         [] a = "create" -> At(2)
         [] a = "parse" -> Up(At(3), d)
         [] a = "clean" -> Up(At(4), d)
         [] a = "gen" -> [Save(st, d) EXCEPT !.made = @ \cup {d}]
         [] a = "down" -> IF CacheOf(sv) = "" /\ sv.mode = "" THEN [Drop(st, d, {"default"}) EXCEPT !.up = @ \ {d}] ELSE st

RECURSIVE Run(_, _, _)
Run(st, d, plan) == IF plan = <<>> THEN st ELSE Run(Step(st, d, plan[1]), d, Tail(plan))

\* The order in which the calls make sense: nothing is done with what is not known yet.
Needs(m) == CASE m = "Setup" -> 0 [] m = "Teardown" -> 1 [] m = "CreateRoutes" -> 1 [] m = "ParseRoutes" -> 2 [] m = "Clean" -> 3 [] m = "Generate" -> 4
              [] m = "CompleteParse" -> 2 [] OTHER -> 0
Calls == {"Setup", "CreateRoutes", "ParseRoutes", "Clean", "Generate", "Teardown", "SetupParse", "CompleteParse", "Parse"}
HasSv(st, d) == st.live[d].q # 0
CanCall(st, d, m) == HasSv(st, d) /\ IF st.live[d].st = Unknown THEN m \in {"SetupParse", "CompleteParse", "Parse"} ELSE st.live[d].st >= Needs(m) /\ (m = "Generate" => d \in st.up)

File(st, d, c) == IF <<d, c>> \in DOMAIN st.files THEN st.files[<<d, c>>] ELSE Unknown
\* The tool does everything that is still to do.  It uses the directory itself, and with it, what a service in use has left there.
Cli(st, d, c) == LET s == [st EXCEPT !.live[d] = NoSv] IN IF File(st, d, c) = Unknown THEN [s EXCEPT !.err = "cache"] ELSE [Up(s, d) EXCEPT !.made = {d}]
CanCli(st, d, c) == st.in[d] # 0 /\ (File(st, d, c) = Unknown \/ File(st, d, c) >= 2)

\* What is wrong with the cache that is given to the tool.
Faults == {"input", "input2", "lastpath", "azurepath", "output", "path", "nopath", "directory", "extension", "cut", "missing", "noinputs", "nooutputs"}

Do(st0, op) ==
  LET st == [st0 EXCEPT !.made = {}, !.err = ""]
      d == op.d
  IN
  CASE op.k = "new" -> New(st, d, op)
    [] op.k = "call" -> Run(st, d, Plan(op.m))
    [] op.k = "load" -> IF File(st, d, op.cache) = Unknown THEN [st EXCEPT !.err = "cache"] ELSE [st EXCEPT !.live[d].st = File(st, d, op.cache)]
    [] op.k = "cli" -> Cli(st, d, op.cache)
    [] op.k = "bad" -> [st EXCEPT !.live[d] = NoSv, !.err = "bad cache"]
=============================================================================
