-------------------------------- MODULE Types --------------------------------
(* The types of a program, and what is documented of them.                     *)
(*                                                                             *)
(* A type expression is [k, n, pkg, len, a, f]: its kind, the name and package *)
(* of a basic or named type, the length of an array, its elements (a map has   *)
(* its key and its value), the fields of a struct.  A field is                 *)
(* [n, t, tags <<binding, value>>, emb, exp, vals].  A program declares types  *)
(* [pkg, name, doc, def] and constants [pkg, type, name, val].                 *)
EXTENDS Schema

Env(prog) == [defs |-> [id \in {<<t.pkg, t.name>> : t \in ToSet(prog.types)} |->
                          LET i == CHOOSE i \in 1..Len(prog.types) : prog.types[i].pkg = id[1] /\ prog.types[i].name = id[2] IN prog.types[i]],
              consts |-> prog.consts]

TId(t) == <<t.pkg, t.n>>
Def(env, t) == env.defs[TId(t)].def

\* Channels and functions cannot be serialized, nor what is made of them.
RECURSIVE Invalid(_, _, _)
Invalid(env, t, seen) ==
  CASE t.k \in {"chan", "func"} -> TRUE
    [] t.k \in {"ptr", "slice", "array"} -> Invalid(env, t.a[1], seen)
    [] t.k = "map" -> Invalid(env, t.a[1], seen) \/ Invalid(env, t.a[2], seen)
    [] t.k = "named" -> TId(t) \notin seen /\ Invalid(env, Def(env, t), seen \cup {TId(t)})
    [] OTHER -> FALSE

Bad(env, t) == Invalid(env, t, {})

\* The name that a type is known by where it is used.  Errors are serialized as strings.
RECURSIVE TypeName(_)
TypeName(t) ==
  CASE t.k \in {"basic", "named"} -> t.n
    [] t.k = "error" -> "string"
    [] t.k = "ptr" -> TypeName(t.a[1])
    [] t.k = "iface" -> "any"
    [] OTHER -> t.k

RECURSIVE PkgOf(_)
PkgOf(t) ==
  CASE t.k = "named" -> t.pkg
    [] t.k \in {"ptr", "slice", "array"} -> PkgOf(t.a[1])
    [] t.k = "map" -> PkgOf(t.a[2])
    [] OTHER -> ""

RECURSIVE Deref(_)
Deref(t) == IF t.k = "ptr" THEN Deref(t.a[1]) ELSE t

IsStruct(env, t) == LET u == IF t.k = "ptr" THEN t.a[1] ELSE t IN u.k = "struct" \/ (u.k = "named" /\ Def(env, u).k = "struct")

NoField == [pkg |-> "", type |-> "", name |-> "", enum |-> <<>>, emb |-> FALSE, slice |-> "", array |-> "", alen |-> 0, mapk |-> "", mapkpkg |-> "",
            mapv |-> "", epkg |-> "", fields |-> <<>>, forder |-> <<>>, tags |-> <<>>, vals |-> <<>>, doc |-> "", req |-> FALSE]

-----------------------------------------------------------------------------
(* Struct tags.                                                                *)

TagOf(goName, v) ==
  LET items == Split(v, ",")
  IN  [name |-> IF items[1] = "" THEN goName ELSE IF items[1] = "-" THEN "" ELSE items[1], hide |-> items[1] = "-",
       opt |-> Len(items) > 1 /\ items[2] = "omitempty"]

Tags(f) ==
  IF f.tags = <<>> THEN "none" :> [name |-> f.n, hide |-> FALSE, opt |-> FALSE]
  ELSE [b \in {f.tags[i][1] : i \in DOMAIN f.tags} |->
          LET i == CHOOSE i \in DOMAIN f.tags : f.tags[i][1] = b IN TagOf(f.n, f.tags[i][2])]

\* The fields of a struct that can be serialized: the exported ones, and the embedded structs, whose fields are promoted.
Serialized(env, t) == SelectSeq(t.f, LAMBDA f : (f.exp \/ (f.emb /\ IsStruct(env, f.t))) /\ ~Bad(env, f.t))

-----------------------------------------------------------------------------
(* What is known of a type where it is used: a named type by its name, any     *)
(* other one by what it is made of.                                            *)

PkgUnlessAccepted(t) == IF TypeName(t) \in AcceptedTypes THEN "" ELSE PkgOf(t)

RECURSIVE FieldOf(_, _)
FieldOf(env, t0) ==
  LET t == Deref(t0)
      F == [NoField EXCEPT !.type = TypeName(t)]
  IN  CASE t.k = "named" -> [F EXCEPT !.pkg = t.pkg]
        [] t.k = "slice" -> [F EXCEPT !.slice = TypeName(t.a[1]), !.pkg = PkgUnlessAccepted(t.a[1])]
        [] t.k = "array" -> [F EXCEPT !.array = TypeName(t.a[1]), !.alen = t.len, !.pkg = PkgUnlessAccepted(t.a[1])]
        [] t.k = "map" -> [F EXCEPT !.mapk = TypeName(t.a[1]), !.mapkpkg = PkgUnlessAccepted(t.a[1]), !.mapv = TypeName(t.a[2]), !.pkg = PkgUnlessAccepted(t.a[2])]
        [] t.k = "struct" ->
             LET fs == Serialized(env, t)
                 One(f) == [FieldOf(env, f.t) EXCEPT !.emb = f.emb /\ IsStruct(env, f.t), !.tags = Tags(f)]
             IN  [F EXCEPT !.forder = [i \in 1..Len(fs) |-> fs[i].n],
                           !.fields = [n \in {f.n : f \in ToSet(fs)} |-> One(fs[CHOOSE i \in 1..Len(fs) : fs[i].n = n])]]
        [] OTHER -> F

-----------------------------------------------------------------------------
(* Components: the named types that are reachable.                             *)

RECURSIVE ReachAcc(_, _, _)
ReachAcc(env, t, seen) ==
  IF t.k = "named" THEN (IF TId(t) \in seen \/ Bad(env, t) THEN seen ELSE ReachAcc(env, Def(env, t), seen \cup {TId(t)}))
  ELSE IF t.k \in {"ptr", "slice", "array"} THEN ReachAcc(env, t.a[1], seen)
  ELSE IF t.k = "map" THEN ReachAcc(env, t.a[2], ReachAcc(env, t.a[1], seen))
  ELSE IF t.k = "struct" THEN FoldLeft(LAMBDA acc, f : ReachAcc(env, f.t, acc), seen, Serialized(env, t))
  ELSE seen

Reach(env, t) == IF Bad(env, t) THEN {} ELSE ReachAcc(env, t, {})

\* Types that are documented as another one, whatever they are.
Substitutes == (<<"time", "Duration">> :> "int")

EnumOf(env, id) == LET cs == SelectSeq(env.consts, LAMBDA c : c.pkg = id[1] /\ c.type = id[2] /\ c.name # "_") IN [i \in 1..Len(cs) |-> cs[i].val]

ComponentOf(env, id) ==
  LET d == env.defs[id].def
      f == FieldOf(env, d)
  IN  IF id \in DOMAIN Substitutes THEN [NoField EXCEPT !.name = id[2], !.pkg = id[1], !.type = Substitutes[id], !.doc = env.defs[id].doc]
      ELSE [f EXCEPT !.name = id[2], !.pkg = id[1], !.doc = env.defs[id].doc,
                     !.enum = IF d.k = "basic" THEN EnumOf(env, id) ELSE <<>>,
                     !.epkg = IF f.pkg \in {"", id[1]} THEN "" ELSE f.pkg]
=============================================================================
