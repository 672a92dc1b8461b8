---------------------------- MODULE PackagesTrace -----------------------------
(* Judges concurrent histories of package trees: each line of the trace is the *)
(* work of some goroutines, and the histories that were seen of it.            *)
EXTENDS Packages, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.VERIF_TRACE)

VARIABLES l, r, i, cs, cur
vars == <<l, r, i, cs, cur>>

Init == l = 1 /\ r = 1 /\ i = 1 /\ cs = {Init0} /\ cur = <<>>
Runs == Trace[l].obs.runs
Run == Runs[r]
Events == Run.events
OpOf(e) == Trace[l].case.work[e.g][e.i]

Reject(what, why) == PrintT("REJECT " \o ToJson([id |-> Trace[l].id, what |-> what, why |-> ToString(why)]))
Check(what, ok, why) == IF ok THEN TRUE ELSE Reject(what, why)

\* An operation gives a node for each of its paths; only a look-up may give none.
Nodes(e) == Len(e.nodes) = Len(OpOf(e).p) /\ \A k \in DOMAIN e.nodes : Adds(OpOf(e).k) => e.nodes[k].id # 0

\* Without a clock, only what is there in the end is known.
Event == /\ l <= Len(Trace) /\ r <= Len(Runs) /\ i <= Len(Events) /\ Run.clocked
         /\ LET e == Events[i]
                op == OpOf(e)
            IN  IF e.t = "call" THEN cs' = {Invoke(c, e.g) : c \in cs} /\ cur' = (e.g :> op) @@ cur
                ELSE LET found == e.nodes[1].id # 0
                         next == Return(Closure(cs, cur), e.g, op, found)
                     IN  /\ Check("nodes", Nodes(e), <<"run", r, "event", i, e>>)
                         /\ Check("order", next # {} \/ cs = {}, <<"run", r, "event", i, "no order explains", op, e, Events>>)
                         /\ cs' = next /\ cur' = [g \in DOMAIN cur \ {e.g} |-> cur[g]]
         /\ i' = i + 1 /\ UNCHANGED <<l, r>>

Added == UNION {UNION {PathPrefixes(op.p[n]) : n \in DOMAIN op.p} : op \in {op \in UNION {ToSet(Trace[l].case.work[g]) : g \in DOMAIN Trace[l].case.work} : Adds(op.k)}}

\* Everything that was seen of nodes: their number, the path they were asked for with, and the path they say to have.
Returned == UNION {{[id |-> Events[k].nodes[n].id, asked |-> OpOf(Events[k]).p[n], path |-> Events[k].nodes[n].path] : n \in DOMAIN Events[k].nodes} : k \in {k \in DOMAIN Events : Events[k].t = "return"}}
Seen == {x \in Returned \cup ToSet(Run.final) \cup ToSet(Run.tree) : x.id # 0}
Tree == {x.asked : x \in ToSet(Run.tree)}

EndRun == /\ l <= Len(Trace) /\ r <= Len(Runs) /\ (Run.clocked => i = Len(Events) + 1)
          /\ Check("nodes", Run.clocked \/ \A k \in DOMAIN Events : Events[k].t = "return" => Nodes(Events[k]), <<"run", r>>)
          /\ Check("path", \A x \in Seen : x.path = x.asked, <<"run", r, {x \in Seen : x.path # x.asked}>>)
          /\ Check("single", \A x, y \in Seen : (x.id = y.id) = (x.asked = y.asked), <<"run", r, {x \in Seen : \E y \in Seen : (x.id = y.id) # (x.asked = y.asked)}>>)
          /\ Check("tree", IF Run.clocked THEN cs = {} \/ \E c \in cs : c.tree = Tree ELSE Added = Tree, <<"run", r, "the tree is", Tree, "added", Added>>)
          /\ Check("once", Len(Run.tree) = Cardinality(Tree), <<"run", r, "paths are there more than once", Run.tree>>)
          /\ Check("final", \A x \in ToSet(Run.final) : (x.id # 0) = (x.asked \in Tree), <<"run", r, Run.final, Tree>>)
          /\ r' = r + 1 /\ i' = 1 /\ cs' = {Init0} /\ cur' = <<>> /\ UNCHANGED l

NextCase == /\ l <= Len(Trace) /\ r = Len(Runs) + 1
            /\ Check("error", Trace[l].obs.err = "", Trace[l].obs.err)
            /\ l' = l + 1 /\ r' = 1 /\ i' = 1 /\ cs' = {Init0} /\ cur' = <<>>

Next == Event \/ EndRun \/ NextCase
Consumed == IF l = Len(Trace) + 1 THEN PrintT("CONSUMED " \o ToString(Len(Trace))) ELSE TRUE
=============================================================================
