-------------------------------- MODULE Azure --------------------------------
(* The Azure Functions output: a directory with a directory per route.         *)
EXTENDS Strings, SequencesExt, FiniteSetsExt

Constraints == "string" :> "alpha" @@ "int" :> "long" @@ "int32" :> "int" @@ "int64" :> "long" @@ "uint" :> "long" @@ "uint32" :> "int" @@ "uint64" :> "long"
               @@ "float" :> "double" @@ "float32" :> "float" @@ "float64" :> "double" @@ "bool" :> "bool"

\* The template: a parameter has the constraint of its type, if there is one for it.
PieceText(r, p) ==
  IF p.k = "lit" THEN p.v
  ELSE LET req == p.k = "par"
           ps == SelectSeq(r.pp, LAMBDA q : ~q.bound /\ q.name = p.v /\ q.req = req /\ q.f.type \in DOMAIN Constraints)
           raw == (IF req THEN ":" ELSE "*") \o p.v
       IN  IF ps = <<>> THEN raw ELSE "{" \o p.v \o ":" \o Constraints[ps[1].f.type] \o (IF req THEN "" ELSE "?") \o "}"
RouteTemplate(r) == LET ps == PathPieces(r.path) IN FoldLeft(LAMBDA a, p : a \o PieceText(r, p), "", ps)

FunctionName(r) == LastOf(Split(r.handler, "."))

Trigger(r) == [type |-> "httpTrigger", direction |-> "in", name |-> "req", methods |-> {LowerAll(r.method), "options"}, route |-> RouteTemplate(r)]
Answer == [type |-> "http", direction |-> "out", name |-> "res", methods |-> {}, route |-> ""]
FunctionFile(r) == {Trigger(r), Answer}

-----------------------------------------------------------------------------
(* A run is a sequence of steps: the bindings are written beside the output,   *)
(* then the output is replaced.  [tree, tmp, err]: tree says what is at each   *)
(* path - [kind, bindings] - and tmp which functions are written so far.       *)

Dir == [kind |-> "dir", b |-> {}]
Old == [kind |-> "old", b |-> {}]
Fn(bindings) == [kind |-> "function", b |-> bindings]

WriteBinding(st, r) ==
  IF st.err # "" THEN st
  ELSE IF FunctionName(r) \in DOMAIN st.tmp THEN [st EXCEPT !.err = "two routes of the same name"]
  ELSE [st EXCEPT !.tmp = (FunctionName(r) :> FunctionFile(r)) @@ @]

Inside(p, dir) == dir = "" \/ p = dir \/ HasPrefix(p, dir \o "/")

\* The directory that the output replaces has to be somewhere, and may neither hold the working directory nor be where the bindings are written.
Replaceable(tree, work, dir) ==
  LET parent == JoinSeq(SubSeq(Split(dir, "/"), 1, Len(Split(dir, "/")) - 1), "/")
  IN  ~Inside(work \o "/.astra/azure", dir) /\ (parent = "" \/ (parent \in DOMAIN tree /\ tree[parent] = Dir))

Content(tmp, dir) == [p \in {dir} \cup {dir \o "/" \o n : n \in DOMAIN tmp} \cup {dir \o "/" \o n \o "/function.json" : n \in DOMAIN tmp} |->
                        IF HasSuffix(p, "/function.json") /\ p # dir THEN Fn(tmp[LET s == Split(p, "/") IN s[Len(s) - 1]]) ELSE Dir]

Replace(st, work, dir) ==
  IF st.err # "" THEN st
  ELSE IF ~Replaceable(st.tree, work, dir) THEN [st EXCEPT !.err = "directory"]
  ELSE LET kept == [p \in {p \in DOMAIN st.tree : ~Inside(p, dir)} |-> st.tree[p]]
       IN  [st EXCEPT !.tree = Content(st.tmp, dir) @@ kept]
=============================================================================
