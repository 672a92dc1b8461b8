----------------------------- MODULE RoutesTrace -----------------------------
(* Judges the routes of services: each line of the trace is a set of           *)
(* registrations and rules, the routes that the service created for them, and  *)
(* the service and the documents after its analysis.  The registrations are    *)
(* taken one after the other, then the routes are analysed, then compared.     *)
EXTENDS Routes, Handlers, Doc, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.VERIF_TRACE)
Prop == IOEnv.VERIF_PROP

VARIABLES l,     \* line of the trace
          i,     \* number of the registration, then of the route, then the comparison
          routes,
          acc    \* the analysed routes
vars == <<l, i, routes, acc>>

Init == l = 1 /\ i = 1 /\ routes = <<>> /\ acc = <<>>

Obs == Trace[l].obs
Regs == Trace[l].regs
NG == Len(Regs)

Register == /\ l <= Len(Trace) /\ i <= NG
            /\ routes' = AddRegistration(routes, Trace[l].denies, Regs[i])
            /\ i' = i + 1 /\ UNCHANGED <<l, acc>>

Prog == [Trace[l].prog EXCEPT !.routes = [k \in 1..Len(routes) |-> [method |-> routes[k].method, path |-> routes[k].path, fn |-> Trace[l].fns[routes[k].h + 1]]]]

Analyse == /\ l <= Len(Trace) /\ i > NG /\ i <= NG + Len(routes)
           /\ acc' = Append(acc, RunMachine(Env(Prog), Prog, StartRoute(Prog, i - NG)).route)
           /\ i' = i + 1 /\ UNCHANGED <<l, routes>>

Reject(what, why) == PrintT("REJECT " \o ToJson([id |-> Trace[l].id, what |-> what, why |-> ToString(why)]))

CountOf(s, x) == Cardinality({k \in 1..Len(s) : s[k] = x})
SameBag(a, b) == Len(a) = Len(b) /\ \A x \in ToSet(a) : CountOf(a, x) = CountOf(b, x)
Surplus(a, b) == {x \in ToSet(a) : CountOf(a, x) > CountOf(b, x)}
CompareBags(what, want, got) == IF SameBag(want, got) THEN TRUE ELSE Reject(what, [missing |-> Surplus(want, got), extra |-> Surplus(got, want)])

\* The routes that were created, with their handlers (handler 0 is that of the directories, of which there is nothing more to know).
Created == [k \in 1..Len(Obs.created) |-> LET r == Obs.created[k] IN [method |-> r.method, path |-> r.path, h |-> r.h]]
RECURSIVE Plain(_)
Plain(f) == [f EXCEPT !.vals = <<>>, !.doc = "", !.req = FALSE, !.fields = [n \in DOMAIN f.fields |-> Plain(f.fields[n])]]
ObsPaths == [k \in 1..Len(Obs.routes) |-> LET r == Obs.routes[k] IN [method |-> r.method, path |-> r.path, pp |-> [j \in 1..Len(r.pp) |-> [r.pp[j] EXCEPT !.f = Plain(@)]]]]
WantPaths == [k \in 1..Len(acc) |-> [method |-> acc[k].method, path |-> acc[k].path, pp |-> acc[k].pp]]

Config == [title |-> "t", description |-> "", version |-> "1", contact |-> [name |-> "", url |-> "", email |-> ""], license |-> [name |-> "", url |-> ""],
           secure |-> FALSE, host |-> "localhost", port |-> 8080, basePath |-> ""]

Comps == LET env == Env(Prog)
             used == UNION {RunMachine(env, Prog, StartRoute(Prog, k)).reach : k \in 1..Len(routes)}
         IN  [k \in 1..Cardinality(used) |-> ComponentOf(env, SetToSeq(used)[k])]

Ops(d, F(_)) == [p \in DOMAIN d.paths |-> [m \in DOMAIN d.paths[p] |-> F(d.paths[p][m])]]
DocView(d) ==
  CASE Prop = "C01" -> Ops(d, LAMBDA o : o.opid)
    [] Prop = "C02" -> Ops(d, LAMBDA o : {q \in ToSet(o.params) : q.in = "path"})
WantView(d) ==
  CASE Prop = "C01" -> Ops(d, LAMBDA o : o.opid)
    [] Prop = "C02" -> Ops(d, LAMBDA o : {q \in o.params : q.in = "path"})
MapDiff(a, b, D(_, _)) == [missing |-> DOMAIN a \ DOMAIN b, extra |-> DOMAIN b \ DOMAIN a,
                           differ |-> [k \in {k \in DOMAIN a \cap DOMAIN b : a[k] # b[k]} |-> D(a[k], b[k])]]
Pair(a, b) == <<"expected", a, "observed", b>>

\* Every parameter of the path is a parameter of its template, once (said of the real document alone).
ParamsFit(d) == \A p \in DOMAIN d.paths : \A m \in DOMAIN d.paths[p] :
                  LET ps == SelectSeq(d.paths[p][m].params, LAMBDA q : q.in = "path")
                  IN  /\ Cardinality({ps[k].name : k \in DOMAIN ps}) = Len(ps)
                      /\ \A k \in DOMAIN ps : HasPart(p, "{" \o ps[k].name \o "}") \/ HasPart(p, "{" \o ps[k].name \o "*}")

JudgeDocs ==
  LET svc == [routes |-> acc, comps |-> Comps, mapping |-> <<>>, config |-> Config]
      want == WantView(Document(svc))
  IN  \A k \in DOMAIN Obs.docs :
        LET o == Obs.docs[k]
        IN  /\ IF o.err = "" /\ o.doc.unknown = <<>> THEN TRUE ELSE Reject(k, <<o.err, o.doc.unknown>>)
            /\ IF want = DocView(o.doc) THEN TRUE ELSE Reject(k, MapDiff(want, DocView(o.doc), LAMBDA a, b : MapDiff(a, b, Pair)))
            /\ IF Prop # "C02" \/ ParamsFit(o.doc) THEN TRUE ELSE Reject(k, "the parameters do not fit the path")

Judge ==
  /\ IF Prop # "C01" THEN TRUE
     ELSE /\ CompareBags("created", routes, Created)
          /\ IF \A k \in DOMAIN Obs.created : Obs.created[k].h = 0 \/ Obs.created[k].where = "mark" THEN TRUE
             ELSE Reject("handlers", {Obs.created[k] : k \in {k \in DOMAIN Obs.created : Obs.created[k].h # 0 /\ Obs.created[k].where # "mark"}})
          /\ CompareBags("routes", [k \in 1..Len(routes) |-> <<routes[k].method, routes[k].path>>], [k \in 1..Len(Obs.routes) |-> <<Obs.routes[k].method, Obs.routes[k].path>>])
  /\ IF Prop # "C02" THEN TRUE ELSE CompareBags("path parameters", WantPaths, ObsPaths)
  /\ JudgeDocs

Compare == /\ l <= Len(Trace) /\ i = NG + Len(routes) + 1
           /\ IF Obs.err # "" THEN Reject("error", Obs.err) ELSE Judge
           /\ l' = l + 1 /\ i' = 1 /\ routes' = <<>> /\ acc' = <<>>

Next == Register \/ Analyse \/ Compare

Consumed == IF l = Len(Trace) + 1 THEN PrintT("CONSUMED " \o ToString(Len(Trace))) ELSE TRUE
=============================================================================
