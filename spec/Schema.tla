------------------------------- MODULE Schema --------------------------------
(* Go types as astra knows them (fields and components), the names of their    *)
(* schemas, and the schemas themselves.                                        *)
(*                                                                             *)
(* A field is a record                                                         *)
(*   [pkg, type, name, enum, emb, slice, array, alen, mapk, mapkpkg, mapv,     *)
(*    epkg, fields (name -> field), forder (sorted names), tags (binding ->    *)
(*    [name, hide, opt]), vals, doc, req]                                      *)
(* a component is a field with a name.                                         *)
EXTENDS Strings, SequencesExt, FiniteSetsExt

BindingOrder == <<"header", "form", "uri", "json", "xml", "yaml">>
Bindings == ToSet(BindingOrder)

AcceptedTypes == {"nil", "string", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32",
                  "uint64", "float", "float32", "float64", "bool", "byte", "rune", "struct", "map", "slice", "any", "file"}

TF(t, f) == [type |-> t, format |-> f]
Predefined ==
  [string |-> TF("string", ""), int |-> TF("integer", "int32"), int8 |-> TF("integer", "int8"), int16 |-> TF("integer", "int16"),
   int32 |-> TF("integer", "int32"), int64 |-> TF("integer", "int64"), uint |-> TF("integer", "uint"), uint8 |-> TF("integer", "uint8"),
   uint16 |-> TF("integer", "uint16"), uint32 |-> TF("integer", "uint32"), uint64 |-> TF("integer", "uint64"),
   float32 |-> TF("number", "float32"), float64 |-> TF("number", "float64"), bool |-> TF("boolean", ""),
   byte |-> TF("string", "byte"), rune |-> TF("string", "rune"), struct |-> TF("object", ""), map |-> TF("object", ""),
   slice |-> TF("array", ""), any |-> TF("", ""), nil |-> TF("", ""), file |-> TF("string", "binary")]
PredefinedTypes == ("time.Time" :> TF("string", "date-time")) @@ ("github.com/google/uuid.UUID" :> TF("string", "uuid"))

EmptySchema == [type |-> "", format |-> "", ref |-> "", enum |-> <<>>, items |-> <<>>, addl |-> <<>>,
                props |-> <<>>, allOf |-> <<>>, maxItems |-> 0, desc |-> ""]

\* Schema of a type by its bare name.
BasicSchema(t) ==
  IF t \in DOMAIN Predefined
  THEN [EmptySchema EXCEPT !.type = Predefined[t].type, !.format = IF Predefined[t].type = "" THEN "" ELSE Predefined[t].format]
  ELSE EmptySchema

\* Mappings: svc.mapping is a sequence of [key, type, format]; the last one for a key wins over the predefined ones.
MappingOf(svc, name, pkg) ==
  LET key == IF name \in AcceptedTypes THEN name ELSE pkg \o "." \o name
      idx == {i \in 1..Len(svc.mapping) : svc.mapping[i].key = key}
  IN  IF idx # {} THEN LET m == svc.mapping[Max(idx)] IN [found |-> TRUE, type |-> m.type, format |-> m.format]
      ELSE IF key \in DOMAIN Predefined THEN [found |-> TRUE, type |-> Predefined[key].type, format |-> Predefined[key].format]
      ELSE IF key \in DOMAIN PredefinedTypes THEN [found |-> TRUE, type |-> PredefinedTypes[key].type, format |-> PredefinedTypes[key].format]
      ELSE [found |-> FALSE, type |-> "", format |-> ""]

MappedSchema(m) == IF m.type = "" THEN EmptySchema ELSE [EmptySchema EXCEPT !.type = m.type, !.format = m.format]

-----------------------------------------------------------------------------
(* Binding tags.                                                               *)

StructFields(c) == {c.fields[n] : n \in DOMAIN c.fields}

ElemPkg(f) == IF f.epkg # "" THEN f.epkg ELSE f.pkg

\* The component of a package and name (the last of several).
Lookup(comps, pkg, name) == LET i == {k \in 1..Len(comps) : comps[k].pkg = pkg /\ comps[k].name = name}
                            IN  IF i = {} THEN <<>> ELSE << comps[Max(i)] >>

\* The component of the elements of a named slice, array or map.
ElementOf(comps, c) ==
  LET t == IF c.slice \notin AcceptedTypes \cup {""} THEN c.slice
           ELSE IF c.array \notin AcceptedTypes \cup {""} THEN c.array
           ELSE IF c.mapv \notin AcceptedTypes \cup {""} THEN c.mapv ELSE ""
  IN  IF t = "" THEN <<>> ELSE Lookup(comps, ElemPkg(c), t)

\* The component that decides what a component is named for: its own, or that of its elements.
RECURSIVE Namer(_, _, _)
Namer(comps, c, seen) ==
  LET e == ElementOf(comps, c)
  IN  IF e = <<>> THEN c ELSE IF <<e[1].pkg, e[1].name>> \in seen \cup {<<c.pkg, c.name>>} THEN c
      ELSE Namer(comps, e[1], seen \cup {<<c.pkg, c.name>>})

\* The bindings that occur on the fields; every binding if there is none.
OwnTags(c) == LET ts == UNION {DOMAIN f.tags : f \in StructFields(c)} IN IF ts = {} THEN Bindings ELSE ts
TagsOf(comps, c) == OwnTags(Namer(comps, c, {}))

SchemaBindings(comps, c) == LET ts == TagsOf(comps, c) \ {"none"} IN IF ts = {} THEN Bindings ELSE ts

HasTag(c, b) == \E f \in StructFields(c) : b \in DOMAIN f.tags

\* The named types a field refers to by itself, and those of its inline fields.
RECURSIVE RefsOf(_)
RefsOf(f) == {<<ElemPkg(f), f.type>>, <<ElemPkg(f), f.slice>>, <<ElemPkg(f), f.array>>, <<ElemPkg(f), f.mapv>>}
             \cup UNION {RefsOf(g) : g \in StructFields(f)}

\* A type that is named for some of the bindings bs only.
PartlyNamed(comps, ref, bs) ==
  LET c == Lookup(comps, ref[1], ref[2])
      ts == TagsOf(comps, c[1])
  IN  c # <<>> /\ "none" \notin ts /\ bs \cap ts # {} /\ ~(bs \subseteq ts)

\* The names of the fields differ between the bindings bs, or a type it refers to is there for some of them only.
RECURSIVE OwnSpecific(_, _, _)
OwnSpecific(comps, c, bs) ==
  \/ \E f \in StructFields(c) :
       \/ /\ "none" \notin DOMAIN f.tags
          /\ \/ \E b \in bs : b \notin DOMAIN f.tags
             \/ \E b1, b2 \in bs \cap DOMAIN f.tags : f.tags[b1] # f.tags[b2]
       \/ OwnSpecific(comps, f, bs)
  \/ \E r \in RefsOf(c) : PartlyNamed(comps, r, bs)

Id(c) == <<c.pkg, c.name>>

\* Least fixpoint: a component is specific if its schemas differ between its bindings, or if it refers to a specific one.
RECURSIVE SpecificFix(_, _)
SpecificFix(comps, spec) ==
  LET more == {Id(c) : c \in {d \in ToSet(comps) : LET bs == SchemaBindings(comps, d)
                                                  IN  Cardinality(bs) > 1 /\ (OwnSpecific(comps, d, bs) \/ RefsOf(d) \cap spec # {})}}
  IN  IF more \subseteq spec THEN spec ELSE SpecificFix(comps, spec \cup more)

-----------------------------------------------------------------------------
(* Names.                                                                      *)

RECURSIVE CommonSuffix(_, _)
CommonSuffix(a, b) ==
  IF a = <<>> \/ b = <<>> THEN 0
  ELSE IF LastOf(a) # LastOf(b) THEN 0
  ELSE 1 + CommonSuffix(SubSeq(a, 1, Len(a) - 1), SubSeq(b, 1, Len(b) - 1))

\* Number of trailing elements shared with the most similar package of the same last element.
SameUntil(pkgs, segs, p) ==
  LET group == {q \in pkgs : LastOf(segs[q]) = LastOf(segs[p])}
      pairs == {<<x, y>> \in group \X group : x # y}
  IN  IF pairs = {} THEN 0 ELSE Max({CommonSuffix(segs[xy[1]], segs[xy[2]]) : xy \in pairs})

\* The part of the name that stands for the package.
PkgPart(pkgs, segs, p) ==
  LET su == SameUntil(pkgs, segs, p)
      s == segs[p]
      n == IF su > 0 THEN su + 1 ELSE 1
  IN  JoinSeq(SubSeq(s, Max({1, Len(s) - n + 1}), Len(s)), ".")

BindingsWithNone == <<"none">> \o BindingOrder

\* The table of names: <<pkg, name, binding>> -> name of the schema, in the order of the components.
RECURSIVE NumberFrom(_, _, _, _)
NumberFrom(base, owner, owners, i) ==
  LET cand == IF i = 1 THEN base ELSE base \o "-" \o ToString(i)
  IN  IF cand \in DOMAIN owners /\ owners[cand] # owner THEN NumberFrom(base, owner, owners, i + 1) ELSE cand

NameKeys(comps, c, specific) == IF Id(c) \in specific THEN SchemaBindings(comps, c) ELSE TagsOf(comps, c)

BaseName(c, b, specific, part) ==
  IF Id(c) \in specific THEN part \o "." \o b \o "." \o c.name ELSE part \o "." \o c.name

\* A component with a type mapping is the same for every binding, whatever it consists of.
Visible(svc) == [i \in DOMAIN svc.comps |-> LET c == svc.comps[i] IN
                   IF MappingOf(svc, c.name, c.pkg).found THEN [c EXCEPT !.type = "", !.slice = "", !.array = "", !.mapv = "", !.fields = <<>>, !.forder = <<>>] ELSE c]

NameTable(svc) ==
  LET comps == Visible(svc)
      cset == ToSet(comps)
      pkgs == {c.pkg : c \in cset}
      segs == [p \in pkgs |-> Split(p, "/")]
      parts == [p \in pkgs |-> PkgPart(pkgs, segs, p)]
      specific == SpecificFix(comps, {})
      Step(acc, c) ==
        LET bs == SelectSeq(BindingsWithNone, LAMBDA b : b \in NameKeys(comps, c, specific))
            OneB(a, b) ==
              LET nm == NumberFrom(BaseName(c, b, specific, parts[c.pkg]), Id(c), a.owners, 1)
              IN  [owners |-> (nm :> Id(c)) @@ a.owners, names |-> (<<c.pkg, c.name, b>> :> nm) @@ a.names]
        IN  FoldLeft(OneB, acc, bs)
      r == FoldLeft(Step, [owners |-> <<>>, names |-> <<>>], comps)
  IN  [names |-> r.names, specific |-> specific, owners |-> r.owners]

\* The name of the schema of a type for a binding ("" if it has none).
NameFor(nt, b, name, pkg) ==
  IF <<pkg, name, b>> \in DOMAIN nt.names THEN nt.names[<<pkg, name, b>>]
  ELSE IF <<pkg, name, "none">> \in DOMAIN nt.names THEN nt.names[<<pkg, name, "none">>]
  ELSE ""

RefSchema(nt, b, name, pkg) ==
  LET n == NameFor(nt, b, name, pkg)
  IN  IF n = "" THEN EmptySchema ELSE [EmptySchema EXCEPT !.ref = "#/components/schemas/" \o n]

\* The schema of an element (item, value, or plain type): a basic type, or a reference.
ElemSchema(nt, b, t, pkg) ==
  IF t \in AcceptedTypes THEN BasicSchema(t)
  ELSE IF t \in DOMAIN Predefined /\ Predefined[t].type # "" THEN BasicSchema(t)
  ELSE RefSchema(nt, b, t, pkg)

-----------------------------------------------------------------------------
(* Schemas.                                                                    *)

\* An embedded struct is composed in, unless it is hidden or has a name of its own in a body binding.
Promoted(goName, f, b) ==
  /\ f.emb
  /\ IF b \notin DOMAIN f.tags THEN TRUE
     ELSE IF f.tags[b].hide THEN FALSE
     ELSE IF b \in {"json", "xml", "yaml"} THEN f.tags[b].name = goName
     ELSE TRUE

Unbound == [bound |-> FALSE, schema |-> EmptySchema]
Bound(s) == [bound |-> TRUE, schema |-> s]

\* The tag a field has under a binding.
FieldTag(c, goName, f, b) ==
  IF b \in DOMAIN f.tags THEN [ok |-> TRUE, name |-> f.tags[b].name, hide |-> f.tags[b].hide]
  ELSE IF "none" \in DOMAIN f.tags THEN [ok |-> TRUE, name |-> f.tags["none"].name, hide |-> f.tags["none"].hide]
  ELSE IF HasTag(c, b) THEN [ok |-> TRUE, name |-> goName, hide |-> FALSE]
  ELSE [ok |-> FALSE, name |-> "", hide |-> FALSE]

RECURSIVE ComponentSchema(_, _, _, _)
ComponentSchema(svc, nt, c, b) ==
  LET m == MappingOf(svc, c.name, c.pkg)
  IN
  IF m.found THEN Bound(MappedSchema(m))
  ELSE IF c.type = "struct" THEN
    LET order == c.forder
        own == SelectSeq(order, LAMBDA n : ~Promoted(n, c.fields[n], b))
        emb == SelectSeq(order, LAMBDA n : Promoted(n, c.fields[n], b))
        tag == [n \in ToSet(own) |-> FieldTag(c, n, c.fields[n], b)]
        embRefs == SelectSeq([i \in 1..Len(emb) |-> RefSchema(nt, b, c.fields[emb[i]].type, c.fields[emb[i]].pkg)],
                             LAMBDA s : s # EmptySchema)
        sub == [n \in ToSet(own) |-> ComponentSchema(svc, nt, c.fields[n], b)]
        \* the last of several fields with the same serialized name wins
        shown == SelectSeq(own, LAMBDA n : ~tag[n].hide /\ sub[n].bound)
        pnames == {tag[n].name : n \in ToSet(shown)}
        props == [p \in pnames |-> sub[shown[Max({i \in 1..Len(shown) : tag[shown[i]].name = p})]].schema]
        plain == [EmptySchema EXCEPT !.type = "object"]
    IN  IF \E n \in ToSet(own) : ~tag[n].ok THEN Unbound
        ELSE IF embRefs = <<>> THEN Bound([plain EXCEPT !.props = props])
        ELSE IF pnames = {} THEN Bound([plain EXCEPT !.allOf = embRefs])
        ELSE Bound([plain EXCEPT !.allOf = embRefs \o << [EmptySchema EXCEPT !.props = props] >>])
  ELSE IF c.type = "slice" THEN
    Bound([EmptySchema EXCEPT !.type = "array", !.items = << ElemSchema(nt, b, c.slice, ElemPkg(c)) >>])
  ELSE IF c.type = "array" THEN
    Bound([EmptySchema EXCEPT !.type = "array", !.items = << ElemSchema(nt, b, c.array, ElemPkg(c)) >>, !.maxItems = c.alen])
  ELSE IF c.type = "map" THEN
    Bound([EmptySchema EXCEPT !.type = "object", !.addl = << ElemSchema(nt, b, c.mapv, ElemPkg(c)) >>])
  ELSE IF BasicSchema(c.type) = EmptySchema /\ c.type \notin AcceptedTypes THEN
    Bound(RefSchema(nt, b, c.type, ElemPkg(c)))
  ELSE Bound([BasicSchema(c.type) EXCEPT !.enum = c.enum])

\* The schema of the type of a response or of a bound body.
FieldSchema(nt, b, f) ==
  IF f.type = "array" THEN
    Bound([EmptySchema EXCEPT !.type = "array", !.items = << ElemSchema(nt, b, f.array, f.pkg) >>, !.maxItems = f.alen])
  ELSE IF f.type \notin AcceptedTypes THEN
    IF NameFor(nt, b, f.type, f.pkg) = "" THEN Unbound ELSE Bound(RefSchema(nt, b, f.type, f.pkg))
  ELSE IF f.type = "slice" THEN Bound([BasicSchema("slice") EXCEPT !.items = << ElemSchema(nt, b, f.slice, f.pkg) >>])
  ELSE IF f.type = "map" THEN Bound([BasicSchema("map") EXCEPT !.addl = << ElemSchema(nt, b, f.mapv, f.pkg) >>])
  ELSE Bound(BasicSchema(f.type))

\* The schema of a parameter or of a named form field.
ParamSchema(nt, b, p) ==
  IF p.bound THEN FieldSchema(nt, b, p.f)
  ELSE IF p.arr THEN Bound([EmptySchema EXCEPT !.type = "array", !.items = << ElemSchema(nt, b, p.f.type, p.f.pkg) >>])
  ELSE IF p.map THEN Bound([EmptySchema EXCEPT !.type = "object", !.addl = << ElemSchema(nt, b, p.f.type, p.f.pkg) >>])
  ELSE Bound(BasicSchema(p.f.type))

\* The properties of a bound type: its own, then those of its embedded types that it does not have itself.
CompsById(comps, pkg, name) == LET i == {k \in 1..Len(comps) : comps[k].pkg = pkg /\ comps[k].name = name}
                               IN  IF i = {} THEN <<>> ELSE << comps[Min(i)] >>

RECURSIVE BoundPropsAcc(_, _, _, _, _, _)
BoundPropsAcc(svc, nt, pkg, type, b, acc) ==   \* acc = [props, seen]
  LET found == CompsById(svc.comps, pkg, type)
  IN  IF found = <<>> \/ <<pkg, type>> \in acc.seen THEN acc
      ELSE LET c == found[1]
               cs == ComponentSchema(svc, nt, c, b)
               acc1 == [acc EXCEPT !.seen = @ \cup {<<pkg, type>>}]
               own == FoldLeft(LAMBDA a, s : a @@ s.props, <<>>, <<cs.schema>> \o cs.schema.allOf)
               emb == SelectSeq(c.forder, LAMBDA n : Promoted(n, c.fields[n], b))
           IN  IF ~cs.bound THEN acc1
               ELSE FoldLeft(LAMBDA a, n : BoundPropsAcc(svc, nt, c.fields[n].pkg, c.fields[n].type, b, a),
                             [acc1 EXCEPT !.props = @ @@ own], emb)

BoundProps(svc, nt, f, b) == BoundPropsAcc(svc, nt, f.pkg, f.type, b, [props |-> <<>>, seen |-> {}]).props
=============================================================================
