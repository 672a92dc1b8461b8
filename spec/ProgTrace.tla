------------------------------ MODULE ProgTrace ------------------------------
(* Judges the analysis of programs: each line of the trace is a program, and   *)
(* what the real code found out about it - the routes and components of the    *)
(* service, the calls that the custom functions saw, and the documents.        *)
(* The routes are analysed one after the other, then everything is compared.   *)
EXTENDS Handlers, Doc, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.VERIF_TRACE)
Prop == IOEnv.VERIF_PROP

VARIABLES l,     \* line of the trace
          i,     \* number of the route, and then the comparison
          acc    \* what the analysis found so far
vars == <<l, i, acc>>

Nothing == [routes |-> <<>>, reach |-> {}, offers |-> <<>>]
Init == l = 1 /\ i = 1 /\ acc = Nothing

Prog == Trace[l].prog
Obs == Trace[l].obs
NR == Len(Prog.routes)

Analyse == /\ l <= Len(Trace) /\ i <= NR
           /\ LET m == RunMachine(Env(Prog), Prog, StartRoute(Prog, i))
              IN  acc' = [routes |-> Append(acc.routes, m.route), reach |-> acc.reach \cup m.reach, offers |-> acc.offers \o m.offers]
           /\ i' = i + 1 /\ UNCHANGED l

---------------------------------------------------------------------------
(* Observations, without what no property is about: how a field is validated,  *)
(* the documentation of fields and of types outside of the program.            *)

External(pkg) == pkg \in {"time", "github.com/gin-gonic/gin"}

RECURSIVE Plain(_)
Plain(f) == [f EXCEPT !.vals = <<>>, !.doc = "", !.req = FALSE,
                      !.pkg = IF f.type \in {"slice", "array", "map"} /\ {f.slice, f.array, f.mapv} \subseteq AcceptedTypes \cup {""} THEN "" ELSE @,
                      !.fields = [n \in DOMAIN f.fields |-> Plain(f.fields[n])]]
PlainComp(c) == [Plain(c) EXCEPT !.pkg = c.pkg, !.doc = IF External(c.pkg) THEN "" ELSE c.doc,
                                 !.epkg = IF {c.slice, c.array, c.mapv} \subseteq AcceptedTypes \cup {""} /\ c.type \in AcceptedTypes \cup {"array"} THEN "" ELSE c.epkg]
PlainParam(p) == [p EXCEPT !.f = Plain(@)]

CompId(c) == <<c.pkg, c.name>>

\* The components that are expected, in the order in which they were found.
ExpectedComps ==
  LET env == Env(Prog)
      obs == [k \in 1..Len(Obs.comps) |-> CompId(Obs.comps[k])]
      known == SelectSeq(obs, LAMBDA id : id \in acc.reach)
      firsts == FoldLeft(LAMBDA a, id : AddOnce(a, id), <<>>, known)
      rest == SetToSeq(acc.reach \ ToSet(obs))
      ids == firsts \o rest
  IN  [k \in 1..Len(ids) |-> LET c == ComponentOf(env, ids[k]) IN IF External(c.pkg) THEN [c EXCEPT !.doc = ""] ELSE c]

Config == [title |-> "t", description |-> "", version |-> "1", contact |-> [name |-> "", url |-> "", email |-> ""], license |-> [name |-> "", url |-> ""],
           secure |-> FALSE, host |-> "localhost", port |-> 8080, basePath |-> ""]

---------------------------------------------------------------------------
(* The aspect of the service that a property is about.                         *)

Inputs(r) == [query |-> ToSet(r.query), hdr |-> ToSet(r.hdr), reshdr |-> ToSet(r.reshdr), body |-> ToSet(r.body), ret |-> ToSet(r.ret)]
Names(r) == [query |-> {p.name : p \in ToSet(r.query)}, hdr |-> {p.name : p \in ToSet(r.hdr)}, reshdr |-> {p.name : p \in ToSet(r.reshdr)},
             body |-> {<<p.name, p.ct>> : p \in ToSet(r.body)}, ret |-> {<<t.code, t.ct>> : t \in ToSet(r.ret)}, pp |-> {p.name : p \in ToSet(r.pp)}]

RECURSIVE Pkgs(_)
Pkgs(f) == [type |-> f.type, pkg |-> f.pkg, epkg |-> f.epkg, mapkpkg |-> f.mapkpkg, fields |-> [n \in DOMAIN f.fields |-> Pkgs(f.fields[n])]]

RoutePkgs(r) == [pp |-> {Pkgs(p.f) : p \in ToSet(r.pp)}, query |-> {Pkgs(p.f) : p \in ToSet(r.query)}, hdr |-> {Pkgs(p.f) : p \in ToSet(r.hdr)},
                 body |-> {Pkgs(p.f) : p \in ToSet(r.body)}, ret |-> {Pkgs(t.f) : t \in ToSet(r.ret)}]

CountOf(s, x) == Cardinality({k \in 1..Len(s) : s[k] = x})

ServiceView(routes, comps) ==
  CASE Prop = "C01" -> [k \in 1..Len(routes) |-> <<routes[k].method, routes[k].path>>]
    [] Prop = "C02" -> [k \in 1..Len(routes) |-> [path |-> routes[k].path, pp |-> ToSet(routes[k].pp)]]
    [] Prop = "C03" -> [k \in 1..Len(routes) |-> Inputs(routes[k])]
    [] Prop = "C04" -> [r |-> [k \in 1..Len(routes) |-> Names(routes[k])], c |-> {<<c.pkg, c.name, DOMAIN c.fields>> : c \in ToSet(comps)}]
    [] Prop = "C05" -> [k \in 1..Len(routes) |-> Inputs(routes[k])]
    [] Prop = "C06" -> {CompId(c) : c \in ToSet(comps)}
    [] Prop = "C07" -> {[c EXCEPT !.enum = <<>>, !.mapk = "", !.mapkpkg = ""] : c \in ToSet(comps)}
    [] Prop = "C08" -> {<<c.pkg, c.name, c.enum>> : c \in ToSet(comps)}
    [] Prop = "C09" -> [r |-> [k \in 1..Len(routes) |-> RoutePkgs(routes[k])], c |-> {[id |-> CompId(c), p |-> Pkgs(c)] : c \in ToSet(comps)}]
    [] Prop = "C27" -> [k \in 1..Len(routes) |-> <<routes[k].doc, routes[k].opid>>]
    [] OTHER -> <<>>

ObsRoutes == [k \in 1..Len(Obs.routes) |->
                LET r == Obs.routes[k]
                    Ps(s) == [j \in 1..Len(s) |-> PlainParam(s[j])]
                IN  [method |-> r.method, path |-> r.path, pp |-> Ps(r.pp), query |-> Ps(r.query), hdr |-> Ps(r.hdr), reshdr |-> Ps(r.reshdr), body |-> Ps(r.body),
                     ret |-> [j \in 1..Len(r.ret) |-> [r.ret[j] EXCEPT !.f = Plain(@)]], doc |-> r.doc, opid |-> r.opid]]
ObsComps == [k \in 1..Len(Obs.comps) |-> PlainComp(Obs.comps[k])]

\* The custom functions were offered the calls, in the order of their registration.
OffersInOrder == \A k \in 1..Len(Obs.offers) : Obs.offers[k].i > 1 => (k > 1 /\ Obs.offers[k - 1] = [Obs.offers[k] EXCEPT !.i = @ - 1])
OffersMatch == /\ Len(Obs.offers) = Len(acc.offers)
               /\ \A o \in ToSet(acc.offers) : CountOf(Obs.offers, o) = CountOf(acc.offers, o)
               /\ OffersInOrder

---------------------------------------------------------------------------
(* The aspect of the documents.                                                *)

ObsOp(o) == [desc |-> o.desc, opid |-> o.opid, params |-> ToSet(o.params), hasbody |-> o.hasbody, body |-> o.body, responses |-> o.responses]
NoExtDesc(d, nt) == [n \in DOMAIN d.schemas |-> IF n \in DOMAIN nt.owners /\ External(nt.owners[n][1]) THEN [d.schemas[n] EXCEPT !.desc = ""] ELSE d.schemas[n]]
ObsDoc(d, nt) == [openapi |-> d.openapi, info |-> d.info, servers |-> d.servers,
                  paths |-> [p \in DOMAIN d.paths |-> [m \in DOMAIN d.paths[p] |-> ObsOp(d.paths[p][m])]], schemas |-> NoExtDesc(d, nt)]
Ops(d, F(_)) == [p \in DOMAIN d.paths |-> [m \in DOMAIN d.paths[p] |-> F(d.paths[p][m])]]

RECURSIVE Shape(_)
Shape(s) == [ref |-> s.ref, items |-> [k \in DOMAIN s.items |-> Shape(s.items[k])], addl |-> [k \in DOMAIN s.addl |-> Shape(s.addl[k])],
             props |-> [n \in DOMAIN s.props |-> Shape(s.props[n])], allOf |-> [k \in DOMAIN s.allOf |-> Shape(s.allOf[k])]]

DocView(d) ==
  CASE Prop = "C01" -> [p \in DOMAIN d.paths |-> DOMAIN d.paths[p]]
    [] Prop = "C02" -> Ops(d, LAMBDA o : {q \in o.params : q.in = "path"})
    [] Prop = "C07" -> [n \in DOMAIN d.schemas |-> [d.schemas[n] EXCEPT !.enum = <<>>]]
    [] Prop = "C08" -> [n \in DOMAIN d.schemas |-> d.schemas[n].enum]
    [] Prop = "C10" -> DocRefs(d)
    [] Prop = "C11" -> [names |-> DOMAIN d.schemas, refs |-> DocRefs(d)]
    [] Prop = "C12" -> [schemas |-> [n \in DOMAIN d.schemas |-> Shape(d.schemas[n])],
                        ops |-> Ops(d, LAMBDA o : [b |-> [c \in DOMAIN o.body |-> Shape(o.body[c])],
                                                   p |-> {[n |-> q.name, i |-> q.in, s |-> Shape(q.schema)] : q \in o.params},
                                                   r |-> [c \in DOMAIN o.responses |-> [t \in DOMAIN o.responses[c].content |-> Shape(o.responses[c].content[t])]]])]
    [] Prop = "C13" -> Ops(d, LAMBDA o : [b |-> o.body, h |-> o.hasbody, r |-> o.responses])
    [] Prop = "C14" -> Ops(d, LAMBDA o : {q \in o.params : q.in # "path"})
    [] Prop = "C26" -> d.schemas
    [] Prop = "C27" -> Ops(d, LAMBDA o : [d |-> o.desc, i |-> o.opid])
    [] OTHER -> <<>>

UsesDoc == Prop \in {"C01", "C02", "C07", "C08", "C10", "C11", "C12", "C13", "C14", "C26", "C27"}

Reject(what, why) == PrintT("REJECT " \o ToJson([id |-> Trace[l].id, what |-> what, why |-> ToString(why)]))

\* What differs, for the report.
SetDiff(a, b) == [missing |-> a \ b, extra |-> b \ a]
SeqDiff(a, b, D(_, _)) == IF Len(a) # Len(b) THEN <<"lengths", Len(a), Len(b)>> ELSE LET ks == {k \in 1..Len(a) : a[k] # b[k]} IN [k \in ks |-> D(a[k], b[k])]
RecDiff(a, b, D(_, _)) == [k \in {k \in DOMAIN a : a[k] # b[k]} |-> D(a[k], b[k])]
Pair(a, b) == <<"expected", a, "observed", b>>
Sets(a, b) == RecDiff(a, b, SetDiff)
ServiceDiff(a, b) ==
  CASE Prop \in {"C03", "C05"} -> SeqDiff(a, b, Sets)
    [] Prop = "C02" -> SeqDiff(a, b, Pair)
    [] Prop = "C04" -> <<SeqDiff(a.r, b.r, Sets), SetDiff(a.c, b.c)>>
    [] Prop = "C09" -> <<SeqDiff(a.r, b.r, Sets), SetDiff(a.c, b.c)>>
    [] Prop \in {"C06", "C07", "C08"} -> SetDiff(a, b)
    [] OTHER -> SeqDiff(a, b, Pair)

MapDiff(a, b, D(_, _)) == [missing |-> DOMAIN a \ DOMAIN b, extra |-> DOMAIN b \ DOMAIN a,
                           differ |-> [k \in {k \in DOMAIN a \cap DOMAIN b : a[k] # b[k]} |-> D(a[k], b[k])]]
SchemaDiff(a, b) == RecDiff(a, b, LAMBDA x, y : <<"expected", x, "observed", y>>)
OpsDiff(a, b, D(_, _)) == MapDiff(a, b, LAMBDA x, y : MapDiff(x, y, D))
DocDiff(a, b) ==
  CASE Prop \in {"C07", "C26"} -> MapDiff(a, b, SchemaDiff)
    [] Prop = "C08" -> MapDiff(a, b, Pair)
    [] Prop = "C12" -> <<MapDiff(a.schemas, b.schemas, SchemaDiff), OpsDiff(a.ops, b.ops, SchemaDiff)>>
    [] Prop \in {"C02", "C14"} -> OpsDiff(a, b, SetDiff)
    [] Prop \in {"C13", "C27"} -> OpsDiff(a, b, SchemaDiff)
    [] OTHER -> Pair(a, b)

JudgeService ==
  LET want == ServiceView(acc.routes, ExpectedComps)
      got == ServiceView(ObsRoutes, ObsComps)
  IN  /\ IF want = got THEN TRUE ELSE Reject("service", ServiceDiff(want, got))
      /\ IF Prop # "C06" \/ Len(Obs.comps) = Cardinality({CompId(c) : c \in ToSet(Obs.comps)}) THEN TRUE ELSE Reject("components", "a component is there more than once")
      /\ IF Prop # "C05" \/ OffersMatch THEN TRUE ELSE Reject("offers", <<"expected", acc.offers, "observed", Obs.offers>>)
      /\ IF Prop # "C28" \/ (Obs.debug.kind = "debug" /\ Obs.debug.routes = Obs.routes /\ Obs.debug.comps = Obs.comps) THEN TRUE ELSE Reject("debug", Obs.debug)
      /\ IF Prop # "C28" \/ \A k \in DOMAIN Obs.routes : Len(Obs.routes[k].ret) = Cardinality(ToSet(Obs.routes[k].ret)) THEN TRUE ELSE Reject("responses", "a response is there more than once")
      /\ IF Prop # "C09" \/ ~Obs.leak THEN TRUE ELSE Reject("leak", "the copy of the main package is left or visible in an output")

JudgeDocs ==
  IF ~UsesDoc THEN TRUE
  ELSE LET svc == [routes |-> acc.routes, comps |-> ExpectedComps, mapping |-> Prog.mapping, config |-> Config]
           nt == NameTable(svc)
           want == DocView(Document(svc))
       IN  \A k \in DOMAIN Obs.docs :
             LET o == Obs.docs[k]
                 got == DocView(ObsDoc(o.doc, nt))
             IN  /\ IF o.err = "" /\ o.doc.unknown = <<>> THEN TRUE ELSE Reject(k, <<o.err, o.doc.unknown>>)
                 /\ IF want = got THEN TRUE ELSE Reject(k, DocDiff(want, got))
                 /\ IF Prop # "C10" \/ ToSet(o.doc.refs) \subseteq {"#/components/schemas/" \o n : n \in DOMAIN o.doc.schemas} THEN TRUE ELSE Reject(k, o.doc.refs)

Compare == /\ l <= Len(Trace) /\ i = NR + 1
           /\ IF Obs.err # "" THEN Reject("error", Obs.err) ELSE JudgeService /\ JudgeDocs
           /\ l' = l + 1 /\ i' = 1 /\ acc' = Nothing

Next == Analyse \/ Compare

Consumed == IF l = Len(Trace) + 1 THEN PrintT("CONSUMED " \o ToString(Len(Trace))) ELSE TRUE
=============================================================================
