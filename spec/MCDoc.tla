-------------------------------- MODULE MCDoc --------------------------------
(* Exhaustive: every service of a small space is documented step by step, and  *)
(* the properties of documents (C01, C02, C10-C14) hold of the result.  The    *)
(* space is exported as well, and its services are run in the real code.       *)
EXTENDS Doc, Json, IOUtils

Full == IOEnv.VERIF_SPACE = "full"

F0 == [pkg |-> "", type |-> "", name |-> "", enum |-> <<>>, emb |-> FALSE, slice |-> "", array |-> "", alen |-> 0, mapk |-> "",
       mapkpkg |-> "", mapv |-> "", epkg |-> "", fields |-> <<>>, forder |-> <<>>, tags |-> <<>>, vals |-> <<>>, doc |-> "", req |-> FALSE]
Tag(n) == [name |-> n, hide |-> FALSE, opt |-> FALSE]

FieldTags == << "none" :> Tag("F"), "json" :> Tag("f"), ("json" :> Tag("f")) @@ ("form" :> Tag("f")), ("json" :> Tag("f")) @@ ("form" :> Tag("g")) >>
             \o (IF Full THEN << "json" :> [Tag("F") EXCEPT !.hide = TRUE], ("form" :> Tag("f")) @@ ("uri" :> Tag("u")) @@ ("header" :> Tag("X-H")) >> ELSE <<>>)

P1 == "ex.com/p/a"
PkgsOfU == <<"ex.com/p/a", "ex.com/q/a", "ex.com/b">> \o (IF Full THEN <<"ex.com/a/json", "main">> ELSE <<>>)
NamesOfU == <<"T", "U">>

\* A struct with one field of the given type, and an embedded type or none.
Struct(pkg, name, f, tags, embs) ==
  LET e == [n \in {x.name : x \in embs} |-> LET x == CHOOSE y \in embs : y.name = n
                                            IN  [F0 EXCEPT !.pkg = x.pkg, !.type = x.name, !.emb = TRUE, !.tags = "none" :> Tag(x.name)]]
  IN  [F0 EXCEPT !.pkg = pkg, !.name = name, !.type = "struct",
                 !.fields = ("F" :> [f EXCEPT !.tags = tags]) @@ e, !.forder = <<"F">> \o SetToSeq(DOMAIN e)]

RefTo(u) == [F0 EXCEPT !.pkg = u.pkg, !.type = u.name]
SliceOf(u) == [F0 EXCEPT !.pkg = u.pkg, !.type = "slice", !.slice = u.name]
MapOf(u) == [F0 EXCEPT !.pkg = u.pkg, !.type = "map", !.mapk = "string", !.mapv = u.name]
Str == [F0 EXCEPT !.type = "string"]

NU == Len(FieldTags) + 3
UShape(u, k) == IF k <= Len(FieldTags) THEN Struct(u.pkg, u.name, Str, FieldTags[k], {})
                ELSE IF k = Len(FieldTags) + 1 THEN [F0 EXCEPT !.pkg = u.pkg, !.name = u.name, !.type = "string", !.enum = <<"s:x", "s:y">>]
                ELSE IF k = Len(FieldTags) + 2 THEN [RefTo([pkg |-> u.pkg, name |-> "T"]) EXCEPT !.name = u.name, !.epkg = IF u.pkg = P1 THEN "" ELSE P1]
                ELSE [SliceOf([pkg |-> P1, name |-> "T"]) EXCEPT !.name = u.name, !.pkg = u.pkg, !.epkg = IF u.pkg = P1 THEN "" ELSE P1]

TShape(u, f, t, e) == Struct(P1, "T", <<Str, RefTo(u), SliceOf(u), MapOf(u)>>[f], FieldTags[t], IF e = 1 THEN {} ELSE {u})

P(name, f, bound, ct) == [name |-> name, f |-> f, req |-> FALSE, arr |-> FALSE, map |-> FALSE, bound |-> bound, ct |-> ct]
R0 == [handler |-> "ex.com/p.H", file |-> "h.go", line |-> 1, method |-> "POST", path |-> "/x/:id", pp |-> << P("id", Str, FALSE, "") >>,
       query |-> <<>>, hdr |-> <<>>, reshdr |-> <<>>, body |-> <<>>, ret |-> <<>>, doc |-> "", opid |-> "h"]
Ret(code, ct, f) == [code |-> code, ct |-> ct, f |-> f]
TRef == [F0 EXCEPT !.pkg = P1, !.type = "T"]

Uses == << [R0 EXCEPT !.body = << P("", TRef, TRUE, "application/json") >>, !.ret = << Ret(200, "application/json", TRef) >>],
          [R0 EXCEPT !.query = << P("q", Str, FALSE, ""), P("", TRef, TRUE, "") >>, !.ret = << Ret(200, "application/xml", SliceOf([pkg |-> P1, name |-> "T"])) >>],
          [R0 EXCEPT !.body = << P("f", Str, FALSE, "application/x-www-form-urlencoded"), P("", TRef, TRUE, "application/x-www-form-urlencoded") >>,
                     !.ret = << Ret(200, "application/json", TRef), Ret(200, "text/plain", Str), Ret(404, "application/json", MapOf([pkg |-> P1, name |-> "T"])) >>] >>
        \o (IF Full THEN << [R0 EXCEPT !.pp = @ \o << P("", TRef, TRUE, "") >>, !.hdr = << P("X-H", Str, FALSE, ""), P("", TRef, TRUE, "") >>,
                                        !.reshdr = << P("X-R", Str, FALSE, "") >>, !.ret = << Ret(204, "", [F0 EXCEPT !.type = "nil"]) >>] >> ELSE <<>>)

Config0 == [title |-> "API", description |-> "", version |-> "1", contact |-> [name |-> "", url |-> "", email |-> ""],
            license |-> [name |-> "", url |-> ""], secure |-> FALSE, host |-> "h", port |-> 80, basePath |-> "/"]

\* The space, by index.
Index == {x \in (1..Len(PkgsOfU)) \X (1..2) \X (1..4) \X (1..Len(FieldTags)) \X (1..2) \X (1..NU) \X (1..Len(Uses)) \X (IF Full THEN {1, 2} ELSE {1}) :
            ~(PkgsOfU[x[1]] = P1 /\ x[2] = 1)}

Build(x) ==
  LET u == [pkg |-> PkgsOfU[x[1]], name |-> NamesOfU[x[2]]]
      t == TShape(u, x[3], x[4], x[5])
      s == UShape(u, x[6])
  IN  [routes |-> << Uses[x[7]] >>, comps |-> IF x[8] = 1 THEN << t, s >> ELSE << s, t >>, mapping |-> <<>>, config |-> Config0]

VARIABLES idx, svc, step, nt, doc
vars == <<idx, svc, step, nt, doc>>

NoTable == [names |-> <<>>, specific |-> {}, owners |-> <<>>]
Init == idx \in Index /\ svc = Build(idx) /\ step = 0 /\ nt = NoTable /\ doc = <<>>
Names == step = 0 /\ step' = 1 /\ nt' = NameTable(svc) /\ doc' = EmptyDoc(svc) /\ UNCHANGED <<idx, svc>>
AddRoute == step = 1 /\ step' = 2 /\ doc' = PutRoute(svc, nt, doc, svc.routes[1]) /\ UNCHANGED <<idx, svc, nt>>
AddComp == step \in 2..3 /\ step' = step + 1 /\ doc' = PutComponent(svc, nt, doc, svc.comps[step - 1]) /\ UNCHANGED <<idx, svc, nt>>
Next == Names \/ AddRoute \/ AddComp

Finished == step = 4
InvRefs == Finished => RefsResolve(doc)
InvNames == Finished => NamesInjective(nt) /\ NamesDefined(nt, doc)
InvShared == Finished => SharedNamesAgree(svc, nt)
InvOps == Finished => OperationsMatch(svc, doc)

View == <<idx, step>>

\* The space as cases for the driver.
Cases == LET s == SetToSeq(Index) IN [i \in DOMAIN s |-> [id |-> i, svc |-> Build(s[i]), runs |-> 1]]
ASSUME IF IOEnv.VERIF_EXPORT = "" THEN TRUE ELSE ndJsonSerialize(IOEnv.VERIF_EXPORT, Cases)
=============================================================================
