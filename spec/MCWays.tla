------------------------------- MODULE MCWays --------------------------------
(* All short histories of the ways to document programs, and (simulated)       *)
(* random long ones.                                                           *)
EXTENDS Ways, Json, IOUtils, SequencesExt

Focus == IOEnv.VERIF_FOCUS        \* what a history has to be about
Sim == IOEnv.VERIF_SPACE = "random"
N == CASE IOEnv.VERIF_SPACE = "small" -> (IF Focus = "others" THEN 5 ELSE 4) [] IOEnv.VERIF_SPACE = "full" -> (IF Focus = "others" THEN 6 ELSE 5) [] OTHER -> 12

Op0 == [k |-> "", d |-> 1, q |-> 0, cache |-> "", mode |-> "", bare |-> FALSE, m |-> "", form |-> ""]
Forms == {"here", "parent", "below", "absolute"}
Some(S) == IF Sim THEN {RandomElement(S)} ELSE S

VARIABLES st, h, prev
vars == <<st, h, prev>>
Init == st = Init0 /\ h = <<>> /\ prev = Init0

Dirs == IF Focus = "others" THEN 1..2 ELSE {1}
Programs == IF Focus = "others" THEN 1..2 ELSE {1}
\* A second directory or program is only used after the first, and the program in a directory stays as it is.
InOrder(d, q) == (d = 2 => st.in[1] # 0) /\ (q = 2 => st.in[1] # 0) /\ st.in[d] \in {0, q}
\* Nothing happened after an operation that only makes sense once.
Idle(k, d) == h # <<>> /\ h[Len(h)].k = k /\ h[Len(h)].d = d
Kinds == {<<"", "">>} \cup (IF Focus = "others" /\ ~Sim THEN {} ELSE ({"", "setup"} \X {"", "json", "yaml"}) \cup {<<"", "default">>})

Take(op) == st' = Do(st, op) /\ h' = Append(h, op) /\ prev' = st
MakeFull == \E d \in Some(Dirs), q \in Some(Programs), x \in Some(Kinds) :
              InOrder(d, q) /\ ~Idle("new", d) /\ Take([Op0 EXCEPT !.k = "new", !.d = d, !.q = q, !.cache = x[2], !.mode = x[1]])
Bare(d, x) == Take([Op0 EXCEPT !.k = "new", !.d = d, !.q = st.in[d], !.cache = x[2], !.mode = x[1], !.bare = TRUE])
MakeBare == \E d \in Some(Dirs), x \in Some({<<"", "">>, <<"builder", "">>, <<"", "json">>, <<"", "yaml">>}) :
              st.in[d] # 0 /\ ~Idle("new", d) /\ (\E f \in DOMAIN st.files : f[1] = d) /\ Bare(d, x)
LoadIt == \E d \in Dirs, c \in AllCaches : HasSv(st, d) /\ ~Idle("load", d) /\ (File(st, d, c) # Unknown \/ (Sim /\ RandomElement(1..10) = 1)) /\ Take([Op0 EXCEPT !.k = "load", !.d = d, !.cache = c])
CallIt == \E d \in Dirs, m \in Calls : CanCall(st, d, m) /\ Take([Op0 EXCEPT !.k = "call", !.d = d, !.m = m])
CliIt == /\ Focus = "cli" \/ (Sim /\ Focus # "alone")
         /\ \E d \in Dirs, c \in AllCaches, f \in Some(Forms) : CanCli(st, d, c) /\ (File(st, d, c) # Unknown \/ (Sim /\ RandomElement(1..10) = 1)) /\ Take([Op0 EXCEPT !.k = "cli", !.d = d, !.cache = c, !.form = f])
BadIt == /\ Focus = "cli"
         /\ \E d \in Dirs, c \in AllCaches, f \in Some(Faults) : File(st, d, c) >= 2 /\ (~Sim \/ RandomElement(1..3) = 1) /\ Take([Op0 EXCEPT !.k = "bad", !.d = d, !.cache = c, !.form = f])
Next == Len(h) < N /\ (MakeFull \/ MakeBare \/ LoadIt \/ CallIt \/ CliIt \/ BadIt)

-----------------------------------------------------------------------------
\* What is generated is always of the program that is in the directory, and every service knows the program of its directory.
InvProgram == \A d \in 1..2 : st.live[d].q \in {0, st.in[d]}
InvFiles == \A f \in DOMAIN st.files : st.in[f[1]] # 0 /\ st.files[f] >= 1
\* Only a service that knows everything generates, and only in its own directory.
Latest == h[Len(h)]
InvMade == h # <<>> => st.made \subseteq {Latest.d} /\ (st.made # {} /\ Latest.k = "call" => st.live[Latest.d].st = 4)
\* An operation that fails generates nothing, and changes no cache.
InvFails == st.err # "" => st.made = {} /\ st.files = prev.files
\* What is done in one directory does not change the other.
InvApart == h # <<>> => LET o == 3 - Latest.d IN st.live[o] = prev.live[o] /\ st.in[o] = prev.in[o] /\ \A c \in AllCaches : File(st, o, c) = File(prev, o, c)
\* A cache is as far as the service that wrote it was.
InvCache == h # <<>> /\ Latest.k = "call" /\ CacheOf(st.live[Latest.d]) # "" /\ st.err = "" /\ Latest.m # "Teardown" => File(st, Latest.d, CacheOf(st.live[Latest.d])) = st.live[Latest.d].st
\* Whatever happened before, a new service can document its program.
InvAgain == \A d \in 1..2 : st.in[d] # 0 => LET s == Do(New(st, d, [Op0 EXCEPT !.q = st.in[d]]), [Op0 EXCEPT !.k = "call", !.d = d, !.m = "Parse"]) IN s.made = {d} /\ s.err = ""

-----------------------------------------------------------------------------
(* The histories that are run: those that end with outputs, or with an error   *)
(* of the tool, and that are about what the focus asks for.                    *)
RECURSIVE Mades(_, _, _)
Mades(s, x, n) == IF x = <<>> THEN n ELSE LET t == Do(s, x[1]) IN Mades(t, Tail(x), IF t.made # {} THEN n + 1 ELSE n)
HasOp(k) == \E i \in DOMAIN h : h[i].k = k
About == CASE Focus = "alone" -> ~HasOp("load") /\ Mades(Init0, h, 0) > 1
           [] Focus = "caches" -> HasOp("load")
           [] Focus = "cli" -> HasOp("cli") \/ HasOp("bad")
           [] Focus = "others" -> \E i, j \in DOMAIN h : h[i].k = "new" /\ h[j].k = "new" /\ <<h[i].d, h[i].q>> # <<h[j].d, h[j].q>>
Worth == h # <<>> /\ (st.made # {} \/ (Latest.k = "bad" /\ Focus = "cli")) /\ About
Emit == (IF Sim THEN Len(h) = N /\ Mades(Init0, h, 0) > 2 /\ About ELSE Worth) => PrintT("CASE " \o ToJson(h))
=============================================================================
