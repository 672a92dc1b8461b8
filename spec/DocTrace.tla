------------------------------ MODULE DocTrace -------------------------------
(* Judges documents that the real code generated: each line of the trace is a  *)
(* service and the documents that were observed for it.  The document is       *)
(* rebuilt with the steps of Doc (one state per step), and compared.           *)
EXTENDS Doc, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.VERIF_TRACE)
Prop == IOEnv.VERIF_PROP

VARIABLES l,      \* line of the trace
          step,   \* 0: names, 1..n: routes, then components, then the comparison
          nt,     \* table of names
          doc     \* document so far
vars == <<l, step, nt, doc>>

NoTable == [names |-> <<>>, specific |-> {}, owners |-> <<>>]
Init == l = 1 /\ step = 0 /\ nt = NoTable /\ doc = <<>>

Svc == Trace[l].svc
NR == Len(Svc.routes)
NC == Len(Svc.comps)

Names == /\ l <= Len(Trace) /\ step = 0
         /\ nt' = NameTable(Svc) /\ doc' = EmptyDoc(Svc) /\ step' = 1 /\ UNCHANGED l
AddRoute == /\ l <= Len(Trace) /\ step \in 1..NR
            /\ doc' = PutRoute(Svc, nt, doc, Svc.routes[step]) /\ step' = step + 1 /\ UNCHANGED <<l, nt>>
AddComp == /\ l <= Len(Trace) /\ step \in (NR + 1)..(NR + NC)
           /\ doc' = PutComponent(Svc, nt, doc, Svc.comps[step - NR]) /\ step' = step + 1 /\ UNCHANGED <<l, nt>>

---------------------------------------------------------------------------
(* Observed documents, with the parameters as sets.                          *)
ObsOp(o) == [desc |-> o.desc, opid |-> o.opid, params |-> ToSet(o.params), hasbody |-> o.hasbody, body |-> o.body, responses |-> o.responses]
ObsDoc(d) == [openapi |-> d.openapi, info |-> d.info, servers |-> d.servers,
              paths |-> [p \in DOMAIN d.paths |-> [m \in DOMAIN d.paths[p] |-> ObsOp(d.paths[p][m])]], schemas |-> d.schemas]

Ops(d, F(_)) == [p \in DOMAIN d.paths |-> [m \in DOMAIN d.paths[p] |-> F(d.paths[p][m])]]

NoDesc(d) == [n \in DOMAIN d.schemas |-> [d.schemas[n] EXCEPT !.desc = ""]]

RECURSIVE Shape(_)
\* The names of the properties and the references, without the types (C12).
Shape(s) == [ref |-> s.ref, items |-> [i \in DOMAIN s.items |-> Shape(s.items[i])], addl |-> [i \in DOMAIN s.addl |-> Shape(s.addl[i])],
             props |-> [n \in DOMAIN s.props |-> Shape(s.props[n])], allOf |-> [i \in DOMAIN s.allOf |-> Shape(s.allOf[i])]]

\* The aspect of a document that a property is about.
View(d) ==
  CASE Prop = "C01" -> [p \in DOMAIN d.paths |-> DOMAIN d.paths[p]]
    [] Prop = "C02" -> Ops(d, LAMBDA o : {q \in o.params : q.in = "path"})
    [] Prop = "C07" -> d.schemas
    [] Prop = "C08" -> [n \in DOMAIN d.schemas |-> d.schemas[n].enum]
    [] Prop = "C10" -> DocRefs(d)
    [] Prop = "C11" -> [names |-> DOMAIN d.schemas, refs |-> DocRefs(d)]
    [] Prop = "C12" -> [schemas |-> [n \in DOMAIN d.schemas |-> Shape(d.schemas[n])],
                        ops |-> Ops(d, LAMBDA o : [b |-> [c \in DOMAIN o.body |-> Shape(o.body[c])],
                                                   p |-> {[n |-> q.name, i |-> q.in, s |-> Shape(q.schema)] : q \in o.params},
                                                   r |-> [c \in DOMAIN o.responses |-> [t \in DOMAIN o.responses[c].content |-> Shape(o.responses[c].content[t])]]])]
    [] Prop = "C13" -> Ops(d, LAMBDA o : [b |-> o.body, h |-> o.hasbody, r |-> o.responses])
    [] Prop = "C14" -> Ops(d, LAMBDA o : {q \in o.params : q.in # "path"})
    [] Prop = "C15" -> [i |-> d.info, s |-> d.servers, o |-> d.openapi]
    [] Prop = "C26" -> NoDesc(d)
    [] Prop = "C27" -> Ops(d, LAMBDA o : [d |-> o.desc, i |-> o.opid])
    [] OTHER -> d

ParamsUnique(d) == \A p \in DOMAIN d.paths : \A m \in DOMAIN d.paths[p] : Len(d.paths[p][m].params) = Cardinality(ToSet(d.paths[p][m].params))

Observed(k) == Trace[l].docs[k]

Judge(k) ==
  LET o == Observed(k)
  IN  /\ o.err = ""
      /\ o.doc.unknown = <<>>
      /\ View(ObsDoc(o.doc)) = View(doc)
      /\ Prop \in {"C02", "C14"} => ParamsUnique(o.doc)
      /\ Prop = "C10" => \A r \in ToSet(o.doc.refs) : r \in {"#/components/schemas/" \o n : n \in DOMAIN o.doc.schemas}
      /\ Prop \in {"C11"} => NamesInjective(nt)

Why(k) == IF Observed(k).err # "" THEN <<"error", Observed(k).err>>
          ELSE <<"expected", View(doc), "observed", View(ObsDoc(Observed(k).doc))>>

Compare == /\ l <= Len(Trace) /\ step = NR + NC + 1
           /\ \A k \in DOMAIN Trace[l].docs :
                IF Judge(k) THEN TRUE ELSE PrintT("REJECT " \o ToJson([id |-> Trace[l].id, what |-> k, why |-> ToString(Why(k))]))
           /\ l' = l + 1 /\ step' = 0 /\ nt' = NoTable /\ doc' = <<>>

Next == Names \/ AddRoute \/ AddComp \/ Compare

\* Every record has been judged (a rejected one is reported and skipped).
Consumed == IF l = Len(Trace) + 1 THEN PrintT("CONSUMED " \o ToString(Len(Trace))) ELSE TRUE
=============================================================================
