----------------------------- MODULE AzureTrace ------------------------------
(* Judges the Azure Functions output: each line of the trace is a sequence of  *)
(* runs, with the tree of files after each of them.                            *)
EXTENDS Azure, Config, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.VERIF_TRACE)

VARIABLES l,     \* line of the trace
          s,     \* number of the run
          i,     \* number of the route, and then the replacement
          st
vars == <<l, s, i, st>>

Work == "w"
Tree0(c) == [p \in {Work} \cup {Work \o "/" \o x.path : x \in ToSet(c.pre)} |->
               IF p = Work THEN Dir ELSE LET x == CHOOSE x \in ToSet(c.pre) : Work \o "/" \o x.path = p IN IF x.kind = "dir" THEN Dir ELSE Old]
Start(n) == [tree |-> IF n > Len(Trace) THEN <<>> ELSE Tree0(Trace[n].case), tmp |-> <<>>, err |-> ""]

Init == l = 1 /\ s = 1 /\ i = 1 /\ st = Start(1)

Run == Trace[l].case.steps[s]
Obs == Trace[l].obs.steps[s]
NR == Len(Run.routes)
NS == Len(Trace[l].case.steps)

Binding == /\ l <= Len(Trace) /\ s <= NS /\ i <= NR
           /\ st' = WriteBinding(st, Run.routes[i])
           /\ i' = i + 1 /\ UNCHANGED <<l, s>>

Reject(what, why) == PrintT("REJECT " \o ToJson([id |-> Trace[l].id, what |-> what, why |-> ToString(why)]))
Check(what, ok, why) == IF ok THEN TRUE ELSE Reject(what, why)

File(f) == [kind |-> IF f.kind = "function" /\ (f.extra # <<>> \/ Len(f.bindings) # 2) THEN "another function" ELSE f.kind,
            b |-> {[type |-> b.type, direction |-> b.direction, name |-> b.name, methods |-> ToSet(b.methods), route |-> b.route] : b \in ToSet(f.bindings)}]
ObsTree == [p \in DOMAIN Obs.tree |-> File(Obs.tree[p])]

Strange(t, u) == {p \in DOMAIN t : p \notin DOMAIN u}

End == /\ l <= Len(Trace) /\ s <= NS /\ i = NR + 1
       /\ LET done == Replace(st, Work, Resolve(Work \o "/" \o Run.dir))
              got == ObsTree
          IN  /\ Check("error", (Obs.err # "") = (done.err # ""), <<"run", s, "expected", done.err, "observed", Obs.err>>)
              /\ Check("tree", DOMAIN done.tree = DOMAIN got, <<"run", s, "missing", Strange(done.tree, got), "extra", Strange(got, done.tree)>>)
              /\ \A p \in DOMAIN done.tree \cap DOMAIN got :
                    Check("tree", done.tree[p] = got[p],
                          <<"run", s, p, "expected", done.tree[p], "observed", got[p]>>)
              /\ st' = [tree |-> done.tree, tmp |-> <<>>, err |-> ""]
       /\ s' = s + 1 /\ i' = 1 /\ UNCHANGED l

NextCase == /\ l <= Len(Trace) /\ s = NS + 1
            /\ l' = l + 1 /\ s' = 1 /\ i' = 1 /\ st' = Start(l + 1)

Next == Binding \/ End \/ NextCase
Consumed == IF l = Len(Trace) + 1 THEN PrintT("CONSUMED " \o ToString(Len(Trace))) ELSE TRUE
=============================================================================
