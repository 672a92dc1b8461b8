--------------------------------- MODULE Doc ---------------------------------
(* The OpenAPI document of a service.  The document is built step by step: the *)
(* names of the components are decided first, then the routes are added in     *)
(* order, then the components.                                                 *)
(*                                                                             *)
(* A service is [routes, comps, mapping, config]; a route is                   *)
(*   [handler, file, line, method, path, pp, query, hdr, reshdr, body, ret,    *)
(*    doc, opid].                                                              *)
EXTENDS Schema

DocumentedMethods == {"GET", "POST", "PUT", "PATCH", "DELETE", "HEAD", "OPTIONS", "TRACE"}

\* The binding of a content type ("none": the type has no tags of its own for it).
BindingOfContentType(ct) ==
  CASE ct = "application/json" -> "json"
    [] ct = "application/xml" -> "xml"
    [] ct = "application/x-www-form-urlencoded" -> "form"
    [] ct = "multipart/form-data" -> "form"
    [] ct = "application/yaml" -> "yaml"
    [] OTHER -> "none"

QueryStyle(schema) == IF schema.type = "object" THEN [style |-> "deepObject", explode |-> TRUE] ELSE [style |-> "form", explode |-> FALSE]

Parameter(name, in, req, style, explode, schema) ==
  [name |-> name, in |-> in, required |-> req, style |-> style, explode |-> explode, schema |-> schema]

-----------------------------------------------------------------------------
(* Parameters: each kind in turn, in the order of the route.  A (name, in)     *)
(* pair is documented once, as it was first read.                              *)

AddParam(params, p) == IF \E q \in params : q.name = p.name /\ q.in = p.in THEN params ELSE params \cup {p}

PathParamStep(svc, nt, params, p) ==
  LET s == ParamSchema(nt, "uri", p)
      props == BoundProps(svc, nt, p.f, "uri")
  IN  IF ~s.bound THEN params
      ELSE IF p.bound THEN {IF q.name \in DOMAIN props THEN [q EXCEPT !.schema = props[q.name]] ELSE q : q \in params}
      ELSE AddParam(params, Parameter(p.name, "path", p.req, "", FALSE, s.schema))

HeaderParamStep(svc, nt, params, p) ==
  LET s == ParamSchema(nt, "header", p)
      props == BoundProps(svc, nt, p.f, "header")
      fresh == {n \in DOMAIN props : ~\E q \in params : q.name = n /\ q.in = "header"}
  IN  IF ~s.bound THEN params
      ELSE IF p.bound THEN params \cup {Parameter(n, "header", p.req, "", FALSE, props[n]) : n \in fresh}
      ELSE AddParam(params, Parameter(p.name, "header", p.req, "", FALSE, s.schema))

QueryParamStep(svc, nt, params, p) ==
  LET s == ParamSchema(nt, "form", p)
      props == BoundProps(svc, nt, p.f, "form")
      Mk(n, sc) == Parameter(n, "query", p.req, QueryStyle(sc).style, QueryStyle(sc).explode, sc)
      fresh == {n \in DOMAIN props : ~\E q \in params : q.name = n /\ q.in = "query"}
  IN  IF ~s.bound THEN params
      ELSE IF p.bound THEN params \cup {Mk(n, props[n]) : n \in fresh}
      ELSE AddParam(params, Mk(p.name, s.schema))

ParamsOf(svc, nt, r) ==
  LET p1 == FoldLeft(LAMBDA a, p : PathParamStep(svc, nt, a, p), {}, r.pp)
      p2 == FoldLeft(LAMBDA a, p : HeaderParamStep(svc, nt, a, p), p1, r.hdr)
  IN  FoldLeft(LAMBDA a, p : QueryParamStep(svc, nt, a, p), p2, r.query)

-----------------------------------------------------------------------------
(* Bodies: per content type, the (last) bound type and every named form field. *)

BodyOf(svc, nt, r) ==
  LET One(p) == LET b == BindingOfContentType(p.ct)
                IN  IF p.name = "" THEN FieldSchema(nt, b, p.f) ELSE ParamSchema(nt, b, [p EXCEPT !.bound = FALSE])
      used == SelectSeq(r.body, LAMBDA p : One(p).bound)
      cts == {p.ct : p \in ToSet(used)}
      OfCt(ct) == SelectSeq(used, LAMBDA p : p.ct = ct)
      BoundOf(ct) == SelectSeq(OfCt(ct), LAMBDA p : p.name = "")
      NamedOf(ct) == SelectSeq(OfCt(ct), LAMBDA p : p.name # "")
      Props(ct) == FoldLeft(LAMBDA a, p : (p.name :> One(p).schema) @@ a, <<>>, NamedOf(ct))
      Form(ct) == [EmptySchema EXCEPT !.type = "object", !.props = Props(ct)]
      BoundSchema(ct) == IF BoundOf(ct) = <<>> THEN EmptySchema ELSE One(LastOf(BoundOf(ct))).schema
  IN  [ct \in cts |-> IF NamedOf(ct) = <<>> THEN BoundSchema(ct)
                      ELSE IF BoundSchema(ct) = EmptySchema THEN Form(ct)
                      ELSE [EmptySchema EXCEPT !.allOf = <<BoundSchema(ct), Form(ct)>>]]

-----------------------------------------------------------------------------
(* Responses: per status code and content type, all response headers.          *)

ResponsesOf(svc, nt, r) ==
  LET hdrs == FoldLeft(LAMBDA a, p : (p.name :> [required |-> p.req, schema |-> ParamSchema(nt, "header", p).schema]) @@ a, <<>>,
                       SelectSeq(r.reshdr, LAMBDA p : ParamSchema(nt, "header", p).bound))
      codes == {t.code : t \in ToSet(r.ret)}
      SchemaOf(t) == LET s == FieldSchema(nt, BindingOfContentType(t.ct), t.f) IN IF s.bound THEN s.schema ELSE EmptySchema
      Content(code) == FoldLeft(LAMBDA a, t : IF SchemaOf(t) = EmptySchema THEN a ELSE (t.ct :> SchemaOf(t)) @@ a, <<>>,
                                SelectSeq(r.ret, LAMBDA t : t.code = code))
  IN  [k \in {ToString(c) : c \in codes} |->
         LET c == CHOOSE x \in codes : ToString(x) = k
         IN  [desc |-> "", headers |-> hdrs, content |-> Content(c)]]

OperationOf(svc, nt, r) ==
  LET body == BodyOf(svc, nt, r)
  IN  [desc |-> r.doc, opid |-> r.opid, params |-> ParamsOf(svc, nt, r),
       hasbody |-> DOMAIN body # {}, body |-> body, responses |-> ResponsesOf(svc, nt, r)]

-----------------------------------------------------------------------------
(* Metadata.                                                                   *)

ServerUrl(c) == (IF c.secure THEN "https" ELSE "http") \o "://" \o c.host \o ":" \o ToString(c.port) \o c.basePath

InfoOf(c) == [title |-> c.title, description |-> IF c.description = "" THEN "Generated by astra" ELSE c.description,
              version |-> c.version, contact |-> c.contact, license |-> c.license]

-----------------------------------------------------------------------------
(* The construction of a document as a sequence of steps.                      *)

EmptyDoc(svc) == [openapi |-> "3.0.0", info |-> InfoOf(svc.config), servers |-> << ServerUrl(svc.config) >>,
                  paths |-> <<>>, schemas |-> <<>>]

PutRoute(svc, nt, doc, r) ==
  LET t == Template(r.path)
      old == IF t \in DOMAIN doc.paths THEN doc.paths[t] ELSE <<>>
      new == IF r.method \in DocumentedMethods THEN (LowerAll(r.method) :> OperationOf(svc, nt, r)) @@ old ELSE old
  IN  [doc EXCEPT !.paths = (t :> new) @@ @]

\* A component has a schema for each of its bindings; bindings with the same name share the last one.
PutComponent(svc, nt, doc, c) ==
  LET One(a, b) ==
        LET s == ComponentSchema(svc, nt, c, b)
            n == NameFor(nt, b, c.name, c.pkg)
            d == IF c.doc = "" THEN s.schema ELSE [s.schema EXCEPT !.desc = c.doc]
        IN  IF s.bound /\ n # "" THEN (n :> d) @@ a ELSE a
  IN  [doc EXCEPT !.schemas = FoldLeft(One, @, BindingOrder)]

Document(svc) ==
  LET nt == NameTable(svc)
      d1 == FoldLeft(LAMBDA d, r : PutRoute(svc, nt, d, r), EmptyDoc(svc), svc.routes)
  IN  FoldLeft(LAMBDA d, c : PutComponent(svc, nt, d, c), d1, svc.comps)

-----------------------------------------------------------------------------
(* What is true of documents.                                                  *)

RECURSIVE SchemaRefs(_)
SchemaRefs(s) ==
  (IF s.ref = "" THEN {} ELSE {s.ref})
  \cup UNION {SchemaRefs(x) : x \in ToSet(s.items) \cup ToSet(s.addl) \cup ToSet(s.allOf) \cup {s.props[n] : n \in DOMAIN s.props}}

OperationSchemas(o) ==
  {p.schema : p \in o.params} \cup {o.body[ct] : ct \in DOMAIN o.body}
  \cup UNION {{o.responses[c].content[ct] : ct \in DOMAIN o.responses[c].content} : c \in DOMAIN o.responses}
  \cup UNION {{o.responses[c].headers[h].schema : h \in DOMAIN o.responses[c].headers} : c \in DOMAIN o.responses}

DocRefs(doc) ==
  UNION {UNION {UNION {SchemaRefs(s) : s \in OperationSchemas(doc.paths[p][m])} : m \in DOMAIN doc.paths[p]} : p \in DOMAIN doc.paths}
  \cup UNION {SchemaRefs(doc.schemas[n]) : n \in DOMAIN doc.schemas}

\* C10
RefsResolve(doc) == DocRefs(doc) \subseteq {"#/components/schemas/" \o n : n \in DOMAIN doc.schemas}

\* C11: a name stands for one type
NamesInjective(nt) == \A k1, k2 \in DOMAIN nt.names : nt.names[k1] = nt.names[k2] => (k1[1] = k2[1] /\ k1[2] = k2[2])

\* C11: every component has a schema under every binding that it can be used with
NamesDefined(nt, doc) == \A k \in DOMAIN nt.names : nt.names[k] \in DOMAIN doc.schemas

\* C12: a name that is shared by several bindings has the same schema for all of them
SharedNamesAgree(svc, nt) ==
  \A c \in ToSet(svc.comps) : \A b1, b2 \in Bindings :
     LET s1 == ComponentSchema(svc, nt, c, b1)
         s2 == ComponentSchema(svc, nt, c, b2)
         k1 == <<c.pkg, c.name, b1>>
         k2 == <<c.pkg, c.name, b2>>
     IN  (k1 \in DOMAIN nt.names /\ k2 \in DOMAIN nt.names /\ s1.bound /\ s2.bound /\ nt.names[k1] = nt.names[k2]) => s1.schema = s2.schema

\* C01/C02/C13/C14: per operation
OperationsMatch(svc, doc) ==
  \A i \in 1..Len(svc.routes) :
    LET r == svc.routes[i]
        last == \A j \in (i+1)..Len(svc.routes) : svc.routes[j].method # r.method \/ Template(svc.routes[j].path) # Template(r.path)
    IN  (last /\ r.method \in DocumentedMethods) =>
          /\ Template(r.path) \in DOMAIN doc.paths
          /\ LowerAll(r.method) \in DOMAIN doc.paths[Template(r.path)]
          /\ LET o == doc.paths[Template(r.path)][LowerAll(r.method)]
             IN  /\ DOMAIN o.responses = {ToString(t.code) : t \in ToSet(r.ret)}
                 /\ {p.name : p \in {q \in o.params : q.in = "path"}} = {p.name : p \in {q \in ToSet(r.pp) : ~q.bound}}
                 /\ \A p, q \in o.params : p.name = q.name /\ p.in = q.in => p = q
                 /\ \A p \in ToSet(r.query) : ~p.bound => \E q \in o.params : q.in = "query" /\ q.name = p.name
=============================================================================
