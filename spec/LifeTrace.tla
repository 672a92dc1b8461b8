------------------------------ MODULE LifeTrace ------------------------------
(* Judges histories of a working directory: each line of the trace is a        *)
(* sequence of operations, with what was observed after each of them.  After   *)
(* an interruption there can be several states that explain the observation.   *)
EXTENDS Life, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.VERIF_TRACE)
Prop == IOEnv.VERIF_PROP

VARIABLES l,      \* line of the trace
          i,      \* number of the operation
          cands   \* the states that explain what was observed so far
vars == <<l, i, cands>>

First(c) == [Empty EXCEPT !.tree = [p \in {x.path : x \in ToSet(c.pre)} |-> Node((CHOOSE x \in ToSet(c.pre) : x.path = p).kind)]]
Start0(n) == IF n > Len(Trace) THEN {} ELSE {First(Trace[n].case)}

Init == l = 1 /\ i = 1 /\ cands = Start0(1)
Ops == Trace[l].case.ops
Op == Ops[i]
Obs == Trace[l].obs.ops[i]
End(e) == Obs.end = e

Outcomes(st) ==
  CASE Op.k = "new" -> {[NewService(st, Op.cfg) EXCEPT !.ev = <<>>, !.err = ""]}
    [] Op.k = "call" -> {Call(st, Op.m, Op.fail)}
    [] Op.k = "put" -> {[Place(st, Op.path, Op.kind) EXCEPT !.ev = <<>>, !.err = ""]}
    [] Op.k = "die" -> LET n == NewService(st, Op.cfg)
                       IN  IF End("ok") THEN {[Call(n, Op.m, "") EXCEPT !.sv = NilSv]}
                           ELSE {[s EXCEPT !.sv = NilSv, !.err = IF End("err") THEN "some" ELSE ""] : s \in Interrupted(n, Op.m, "")}

-----------------------------------------------------------------------------
(* What was observed.                                                          *)

ObsSv(s) == [ins |-> s.ins, outs |-> s.outs, routes |-> s.routes, comps |-> s.comps, title |-> s.title]
ObsNode(n) == [k |-> n.k, form |-> n.form, r |-> ToSet(n.r), c |-> ToSet(n.c), sv |-> ObsSv(n.sv)]
ObsTree == [p \in DOMAIN Obs.fs.tree |-> ObsNode(Obs.fs.tree[p])]

\* The content of a cache is the business of the properties about caches.
Known == {"any", "new"}
SameNode(a, b, deep) == a.k = "any" \/ a = b \/ (~deep /\ a.k = "cache" /\ b.k = "cache")
SameTree(t, u, loose, deep) ==
  /\ \A p \in DOMAIN t : t[p].k # "any" => p \in DOMAIN u /\ SameNode(t[p], u[p], deep)
  /\ \A p \in DOMAIN u \ DOMAIN t : \/ \E q \in DOMAIN t : t[q].k = "any" /\ Under(p, q)
                                    \/ u[p].k # "dir" /\ ParentOf(p) \in loose
SameAstra(s) == /\ (s.astra = "any" \/ s.astra = Obs.fs.astra)
                /\ (s.ign \in Known \/ s.astra = "any" \/ s.ign = Obs.fs.ign)
                /\ (s.main \in Known \/ s.astra = "any" \/ s.main = Obs.fs.main)
                /\ (s.extra \in Known \/ ".astra" \in s.loose \/ s.astra = "any" \/ s.extra = Obs.fs.extra)

View(what, s) ==
  CASE what = "error" -> (s.err # "") = (Obs.err # "")
    [] what = "events" -> s.ev = Obs.ev
    [] what = "service" -> Op.k = "put" \/ s.sv = ObsSv(Obs.sv)
    [] what = "files" -> SameTree(s.tree, ObsTree, s.loose, TRUE)
    [] what = "tree" -> SameTree(s.tree, ObsTree, s.loose, FALSE)
    [] what = "astra" -> SameAstra(s)

Views == CASE Prop = "C20" -> <<"error", "files", "events">>
           [] Prop = "C21" -> <<"error", "tree", "astra">>
           [] Prop = "C22" -> <<"error", "events", "service", "files">>
           [] Prop = "C18" -> <<"error", "service", "files">>
           [] OTHER -> <<"error", "events", "service", "files", "astra">>
Explains(s) == \A k \in DOMAIN Views : View(Views[k], s)

Reject(what, why) == PrintT("REJECT " \o ToJson([id |-> Trace[l].id, what |-> what, why |-> ToString(why)]))
Wrong(out) == {k \in DOMAIN Views : \A s \in out : ~View(Views[k], s)}
Diff(s) == [err |-> <<s.err, Obs.err>>, ev |-> <<s.ev, Obs.ev>>, sv |-> IF View("service", s) THEN <<>> ELSE <<s.sv, ObsSv(Obs.sv)>>,
            tree |-> {<<p, IF p \in DOMAIN s.tree THEN s.tree[p] ELSE Node("none"), IF p \in DOMAIN ObsTree THEN ObsTree[p] ELSE Node("none")>> :
                      p \in {p \in DOMAIN s.tree \cup DOMAIN ObsTree : p \notin DOMAIN s.tree \/ p \notin DOMAIN ObsTree \/ s.tree[p] # ObsTree[p]}},
            astra |-> <<s.astra, s.ign, s.main, s.extra, Obs.fs.astra, Obs.fs.ign, Obs.fs.main, Obs.fs.extra>>]

Advance == /\ l <= Len(Trace) /\ i <= Len(Ops)
           /\ LET out == UNION {Outcomes(s) : s \in cands}
                  good == {s \in out : Explains(s)}
              IN  IF good # {} THEN cands' = {[s EXCEPT !.ev = <<>>, !.err = ""] : s \in good} /\ i' = i + 1 /\ UNCHANGED l
                  ELSE /\ Reject(IF Wrong(out) = {} THEN "together" ELSE Views[CHOOSE k \in Wrong(out) : TRUE], <<"operation", i, Op, "specified and observed:", Diff(CHOOSE s \in out : TRUE)>>)
                       /\ l' = l + 1 /\ i' = 1 /\ cands' = Start0(l + 1)

NextCase == /\ l <= Len(Trace) /\ i = Len(Ops) + 1
            /\ l' = l + 1 /\ i' = 1 /\ cands' = Start0(l + 1)

Next == Advance \/ NextCase
Consumed == IF l = Len(Trace) + 1 THEN PrintT("CONSUMED " \o ToString(Len(Trace))) ELSE TRUE
=============================================================================
