------------------------------ MODULE Handlers -------------------------------
(* What a handler documents.  The body of a function is a sequence of items    *)
(* [k, m, code, name, nameok, val, fn, inner]:                                 *)
(*   call    a call of the method m of the context                             *)
(*   helper  a call of something that the context is passed to: the function   *)
(*           fn of the program, or (0) a value that has no known body          *)
(*   other   any other call                                                    *)
(*   block   statements that are nested in something                           *)
(* inner are the items of its arguments (or of the block).  A status code that *)
(* is not constant is -1, a name that is not constant has nameok = FALSE.      *)
(*                                                                             *)
(* The analysis of a route is a machine: a stack of sequences of items that    *)
(* remain, with the name of the context in each of them.                       *)
EXTENDS Types

Param(name, f) == [name |-> name, f |-> f, req |-> FALSE, arr |-> FALSE, map |-> FALSE, bound |-> FALSE, ct |-> ""]
StringField == [NoField EXCEPT !.type = "string"]
FileField == [NoField EXCEPT !.type = "file"]
NilField == [NoField EXCEPT !.type = "nil"]

\* Operation ids: the camel-cased name.
IsUpper(c) == \E k \in 1..26 : Upper[k] = c
IsLower(c) == \E k \in 1..26 : LowerC[k] = c
IsDigit(c) == c \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
ToUpperChar(c) == IF IsLower(c) THEN Upper[CHOOSE k \in 1..26 : LowerC[k] = c] ELSE c

RECURSIVE CamelFrom(_, _, _, _)
CamelFrom(s, i, capNext, prevCap) ==
  IF i > Len(s) THEN ""
  ELSE LET c == Ch(s, i)
           up == IsUpper(c)
           d == IF capNext THEN ToUpperChar(c) ELSE IF i = 1 \/ (prevCap /\ up) THEN ToLowerChar(c) ELSE c
       IN  IF up \/ IsLower(c) THEN d \o CamelFrom(s, i + 1, FALSE, up)
           ELSE IF IsDigit(c) THEN c \o CamelFrom(s, i + 1, TRUE, FALSE)
           ELSE CamelFrom(s, i + 1, c \in {"_", " ", "-", "."}, FALSE)
LowerCamel(s) == CamelFrom(s, 1, FALSE, FALSE)

-----------------------------------------------------------------------------
(* The methods of the context.                                                 *)

ResponseType(m) ==
  CASE m \in {"JSON", "AbortWithStatusJSON"} -> "application/json"
    [] m = "XML" -> "application/xml"
    [] m = "YAML" -> "application/yaml"
    [] m = "ProtoBuf" -> "application/protobuf"
    [] OTHER -> ""

Responses == {"JSON", "AbortWithStatusJSON", "XML", "YAML", "ProtoBuf"}
Statuses == {"Status", "AbortWithStatus", "AbortWithError"}
BodyTypes(m) ==
  CASE m \in {"ShouldBindJSON", "BindJSON"} -> <<"application/json">>
    [] m \in {"ShouldBindXML", "BindXML"} -> <<"application/xml">>
    [] m \in {"ShouldBindYAML", "BindYAML"} -> <<"application/yaml">>
    [] m \in {"ShouldBind", "Bind"} -> <<"application/x-www-form-urlencoded", "multipart/form-data", "application/json", "application/xml", "application/yaml">>
    [] OTHER -> <<>>

AddOnce(s, x) == IF x \in ToSet(s) THEN s ELSE Append(s, x)
AddReturn(r, code, ct, f) == [r EXCEPT !.ret = AddOnce(@, [code |-> code, ct |-> ct, f |-> f])]
AddQuery(r, p) == [r EXCEPT !.query = Append(@, p)]
AddHdr(r, p) == [r EXCEPT !.hdr = Append(@, p)]
AddBody(r, p) == [r EXCEPT !.body = Append(@, p)]

\* The value of a call can be analysed.
ValueOk(env, it) == Len(it.val) = 1 /\ ~Bad(env, it.val[1])
BoundParam(env, it) == [Param("", FieldOf(env, it.val[1])) EXCEPT !.bound = TRUE]

RouteEffect(env, r, it) ==
  LET str == Param(it.name, StringField)
      urlenc == [str EXCEPT !.ct = "application/x-www-form-urlencoded"]
      bodies(rr) == FoldLeft(LAMBDA a, ct : AddBody(a, [BoundParam(env, it) EXCEPT !.ct = ct]), rr, BodyTypes(it.m))
  IN
  CASE it.m \in Responses -> IF it.code >= 0 /\ ValueOk(env, it) THEN AddReturn(r, it.code, ResponseType(it.m), FieldOf(env, it.val[1])) ELSE r
    [] it.m = "Data" -> IF it.code >= 0 /\ it.nameok THEN AddReturn(r, it.code, it.name, FieldOf(env, it.val[1])) ELSE r
    [] it.m = "String" -> IF it.code >= 0 THEN AddReturn(r, it.code, "text/plain", StringField) ELSE r
    [] it.m \in Statuses -> IF it.code >= 0 THEN AddReturn(r, it.code, "", NilField) ELSE r
    [] it.m \in {"Query", "GetQuery"} -> IF it.nameok THEN AddQuery(r, str) ELSE r
    [] it.m \in {"QueryArray", "GetQueryArray"} -> IF it.nameok THEN AddQuery(r, [str EXCEPT !.arr = TRUE]) ELSE r
    [] it.m \in {"QueryMap", "GetQueryMap"} -> IF it.nameok THEN AddQuery(r, [str EXCEPT !.map = TRUE]) ELSE r
    [] it.m \in {"PostForm", "GetPostForm"} -> IF it.nameok THEN AddBody(r, urlenc) ELSE r
    [] it.m \in {"PostFormArray", "GetPostFormArray"} -> IF it.nameok THEN AddBody(r, [urlenc EXCEPT !.arr = TRUE]) ELSE r
    [] it.m \in {"PostFormMap", "GetPostFormMap"} -> IF it.nameok THEN AddBody(r, [urlenc EXCEPT !.map = TRUE]) ELSE r
    [] it.m = "FormFile" -> IF it.nameok THEN AddBody(r, [Param(it.name, FileField) EXCEPT !.ct = "multipart/form-data"]) ELSE r
    [] it.m = "GetHeader" -> IF it.nameok THEN AddHdr(r, str) ELSE r
    [] it.m = "Header" -> IF it.nameok THEN [r EXCEPT !.reshdr = Append(@, str)] ELSE r
    [] it.m \in {"ShouldBindQuery", "BindQuery"} -> IF ValueOk(env, it) THEN AddQuery(r, BoundParam(env, it)) ELSE r
    [] it.m \in {"ShouldBindHeader", "BindHeader"} -> IF ValueOk(env, it) THEN AddHdr(r, BoundParam(env, it)) ELSE r
    [] it.m \in {"ShouldBind", "Bind"} ->
         IF ~ValueOk(env, it) THEN r
         ELSE LET p == BoundParam(env, it) IN bodies([AddHdr(AddQuery(r, p), p) EXCEPT !.pp = Append(@, p)])
    [] BodyTypes(it.m) # <<>> -> IF ValueOk(env, it) THEN bodies(r) ELSE r
    [] OTHER -> r

\* The types that are documented by a call.
EffectReach(env, it) ==
  IF it.m \in Responses THEN (IF it.code >= 0 /\ ValueOk(env, it) THEN Reach(env, it.val[1]) ELSE {})
  ELSE IF it.m \in {"ShouldBindQuery", "BindQuery", "ShouldBindHeader", "BindHeader"} \/ BodyTypes(it.m) # <<>>
       THEN (IF ValueOk(env, it) THEN Reach(env, it.val[1]) ELSE {})
  ELSE {}

-----------------------------------------------------------------------------
(* Custom functions [mode, label]: "none" handles nothing, the others the      *)
(* calls with the label - "param" documents a query parameter, "ret" a         *)
(* response, "drop" nothing.                                                   *)

Handles(env, cf, it) ==
  /\ cf.mode # "none" /\ cf.label = it.m
  /\ cf.mode = "ret" => (it.k = "call" /\ it.m \in Responses /\ it.code >= 0 /\ ValueOk(env, it))

\* The custom function that handles a call (0: none does).
Handler(env, customs, it) ==
  LET h == {i \in 1..Len(customs) : Handles(env, customs[i], it)} IN IF h = {} THEN 0 ELSE Min(h)

OffersOf(env, customs, ctx, it) ==
  LET h == Handler(env, customs, it)
      n == IF h = 0 THEN Len(customs) ELSE h
  IN  [i \in 1..n |-> [i |-> i, ctx |-> ctx, m |-> it.m]]

CustomEffect(env, r, it, h, cf) ==
  CASE cf.mode = "param" -> AddQuery(r, Param("cf" \o ToString(h) \o "_" \o it.m, StringField))
    [] cf.mode = "ret" -> AddReturn(r, it.code, "application/x-cf" \o ToString(h), FieldOf(env, it.val[1]))
    [] OTHER -> r

-----------------------------------------------------------------------------
(* The machine: [route, stack, visited, reach, offers], one item per step.     *)

FreshRoute(prog, i) ==
  LET rt == prog.routes[i]
      fn == prog.funcs[rt.fn]
      pps == PathParamsOf(rt.path)
  IN  [method |-> rt.method, path |-> rt.path, pp |-> [j \in 1..Len(pps) |-> [Param(pps[j].name, StringField) EXCEPT !.req = pps[j].req]],
       query |-> <<>>, hdr |-> <<>>, reshdr |-> <<>>, body |-> <<>>, ret |-> <<>>, doc |-> fn.doc, opid |-> LowerCamel(fn.name)]

Frame(items, ctx) == [items |-> items, ctx |-> ctx]

StartRoute(prog, i) ==
  LET fn == prog.funcs[prog.routes[i].fn]
  IN  [route |-> FreshRoute(prog, i), stack |-> IF fn.ctx = "" THEN <<>> ELSE << Frame(fn.body, fn.ctx) >>, visited |-> {prog.routes[i].fn},
       reach |-> {}, offers |-> <<>>]

\* The top of the stack is the first element.
StepMachine(env, prog, m) ==
  LET top == m.stack[1]
      rest == Tail(m.stack)
      it == top.items[1]
      below == << [top EXCEPT !.items = Tail(@)] >> \o rest
      inner == IF it.inner = <<>> THEN below ELSE << Frame(it.inner, top.ctx) >> \o below
      h == Handler(env, prog.customs, it)
      offered == [m EXCEPT !.offers = @ \o OffersOf(env, prog.customs, top.ctx, it)]
  IN  IF top.items = <<>> THEN [m EXCEPT !.stack = rest]
      ELSE IF it.k = "block" THEN [m EXCEPT !.stack = inner]
      ELSE IF h # 0 THEN [offered EXCEPT !.stack = inner, !.route = CustomEffect(env, @, it, h, prog.customs[h]),
                                         !.reach = IF prog.customs[h].mode = "ret" THEN @ \cup Reach(env, it.val[1]) ELSE @]
      ELSE IF it.k = "call" THEN [offered EXCEPT !.stack = inner, !.route = RouteEffect(env, @, it), !.reach = @ \cup EffectReach(env, it)]
      ELSE IF it.k = "helper" /\ it.fn # 0 /\ it.fn \notin m.visited
           THEN LET fn == prog.funcs[it.fn]
                IN  [offered EXCEPT !.visited = @ \cup {it.fn}, !.stack = IF fn.ctx = "" THEN inner ELSE << Frame(fn.body, fn.ctx) >> \o inner]
      ELSE [offered EXCEPT !.stack = inner]

RECURSIVE RunMachine(_, _, _)
RunMachine(env, prog, m) == IF m.stack = <<>> THEN m ELSE RunMachine(env, prog, StepMachine(env, prog, m))
=============================================================================
