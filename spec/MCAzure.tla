------------------------------- MODULE MCAzure -------------------------------
(* Exhaustive: sequences of runs of the Azure Functions output over a few      *)
(* directories and previous trees, and the templates of all short routes.      *)
EXTENDS Azure, Config, Json, IOUtils

Full == IOEnv.VERIF_SPACE = "full"
Work == "w"

F0 == [pkg |-> "", type |-> "", name |-> "", enum |-> <<>>, emb |-> FALSE, slice |-> "", array |-> "", alen |-> 0, mapk |-> "",
       mapkpkg |-> "", mapv |-> "", epkg |-> "", fields |-> <<>>, forder |-> <<>>, tags |-> <<>>, vals |-> <<>>, doc |-> "", req |-> FALSE]
Par(n, req, t) == [name |-> n, f |-> [F0 EXCEPT !.type = t], req |-> req, arr |-> FALSE, map |-> FALSE, bound |-> FALSE, ct |-> ""]
BoundPar(t) == [name |-> "", f |-> [F0 EXCEPT !.type = t], req |-> FALSE, arr |-> FALSE, map |-> FALSE, bound |-> TRUE, ct |-> ""]
Route(h, m, p, pp) == [handler |-> h, file |-> "a.go", line |-> 1, method |-> m, path |-> p, pp |-> pp, query |-> <<>>, hdr |-> <<>>, reshdr |-> <<>>, body |-> <<>>, ret |-> <<>>, doc |-> "", opid |-> ""]

\* The first space: up to three runs (the last one of which may be completed), over directories that exist, do not exist, or cannot be replaced.
Dirs == << "azure", "old", "out/azure", "missing/azure", ".", "file", ".astra/azure", ".." >>
Pre == << [path |-> "out", kind |-> "dir"], [path |-> "old", kind |-> "dir"], [path |-> "old/F", kind |-> "dir"], [path |-> "old/F/function.json", kind |-> "file"],
          [path |-> "old/keep.txt", kind |-> "file"], [path |-> "file", kind |-> "file"], [path |-> "keep.txt", kind |-> "file"] >>
RouteSets == << <<>>, << Route("m.F", "GET", "/f", <<>>) >>, << Route("m.F", "POST", "/f/:id", << Par("id", TRUE, "string") >>), Route("m.x.G", "DELETE", "/g/*p", << Par("p", FALSE, "int") >>) >>,
                << Route("m.F", "GET", "/f", <<>>), Route("n.F", "GET", "/g", <<>>) >> >>
Steps == {<<d, r>> : d \in 1..Len(Dirs), r \in 1..Len(RouteSets)}
Light == {<<d, r>> : d \in {1, 2, 4, 6}, r \in {1, 2, 3}}
Index1 == {<<x>> : x \in Steps} \cup (IF Full THEN {<<x, y>> : x \in Steps, y \in Steps} \cup {<<x, y, z>> : x \in Light, y \in Light, z \in Light}
                                      ELSE {<<x, y>> : x \in Light, y \in Steps})
StepOf(x, down) == [dir |-> Dirs[x[1]], routes |-> RouteSets[x[2]], down |-> down]
Case1(s, n) == [id |-> n, pre |-> Pre, steps |-> [k \in DOMAIN s |-> StepOf(s[k], k = Len(s))]]

\* The second space: all routes of up to two parameters whose names are parts of each other or of the constraints, with every type.
Names == << "a", "alpha", "id", "i" >>
Types == << "string", "int", "int32", "int64", "uint", "uint32", "uint64", "float32", "float64", "bool", "int8", "T" >>
Index2 == {<<a, b, w, x>> \in (1..Len(Names)) \X (0..Len(Names)) \X (0..2) \X (1..Len(Types)) : a # b /\ (Full \/ (a + b + w + x) % 3 = 0)}
RouteOf(x) == LET one == Par(Names[x[1]], TRUE, Types[x[4]])
                  wild == x[3] = 1
                  two == IF x[2] = 0 THEN <<>> ELSE << Par(Names[x[2]], ~wild, Types[(x[4] % Len(Types)) + 1]) >>
                  path == "/:" \o Names[x[1]] \o (IF x[2] = 0 THEN "" ELSE IF wild THEN "/*" \o Names[x[2]] ELSE "/x/:" \o Names[x[2]])
              IN  Route("m.F", "GET", path, << one >> \o two \o (IF x[3] = 2 THEN << BoundPar("int") >> ELSE <<>>))
Pack == 12
Case2(p, n) == [id |-> n, pre |-> <<>>, steps |-> << [dir |-> "azure", routes |-> [k \in DOMAIN p |-> [p[k] EXCEPT !.handler = "m.F" \o ToString(k)]], down |-> FALSE] >>]
Packs == LET s == SetToSeq({RouteOf(x) : x \in Index2}) n == Len(s)
         IN  [k \in 1..((n + Pack - 1) \div Pack) |-> SubSeq(s, (k - 1) * Pack + 1, IF k * Pack <= n THEN k * Pack ELSE n)]

\* The model: the runs of the first space, step by step.
Tree0 == [p \in {Work} \cup {Work \o "/" \o x.path : x \in ToSet(Pre)} |->
            IF p = Work THEN Dir ELSE LET x == CHOOSE x \in ToSet(Pre) : Work \o "/" \o x.path = p IN IF x.kind = "dir" THEN Dir ELSE Old]
VARIABLES idx, step, i, st, before
vars == <<idx, step, i, st, before>>
Init == idx \in Index1 /\ step = 1 /\ i = 1 /\ st = [tree |-> Tree0, tmp |-> <<>>, err |-> ""] /\ before = Tree0
RoutesNow == RouteSets[idx[step][2]]
DirNow == Resolve(Work \o "/" \o Dirs[idx[step][1]])
Write == step <= Len(idx) /\ i <= Len(RoutesNow) /\ st' = WriteBinding(st, RoutesNow[i]) /\ i' = i + 1 /\ UNCHANGED <<idx, step, before>>
Finish == step <= Len(idx) /\ i = Len(RoutesNow) + 1 /\ st' = Replace(st, Work, DirNow) /\ i' = i + 1 /\ UNCHANGED <<idx, step, before>>
Again == step <= Len(idx) /\ i = Len(RoutesNow) + 2 /\ st' = [st EXCEPT !.tmp = <<>>, !.err = ""] /\ before' = st.tree /\ i' = 1 /\ step' = step + 1 /\ UNCHANGED idx
Next == Write \/ Finish \/ Again
View == <<idx, step, i>>

Finished == step <= Len(idx) /\ i = Len(RoutesNow) + 2
\* A run that fails leaves everything as it was; so does a run that is not finished.
InvFailed == (~Finished \/ st.err # "") => st.tree = before
\* A run that succeeds has a function for each route and nothing else in the directory, and leaves everything outside it.
InvExact == Finished /\ st.err = "" =>
              /\ {p \in DOMAIN st.tree : st.tree[p].kind = "function" /\ Inside(p, DirNow)} = {DirNow \o "/" \o FunctionName(r) \o "/function.json" : r \in ToSet(RoutesNow)}
              /\ \A p \in DOMAIN st.tree : Inside(p, DirNow) => st.tree[p].kind \in {"dir", "function"}
InvOutside == Finished => \A p \in DOMAIN before : ~Inside(p, DirNow) => p \in DOMAIN st.tree /\ st.tree[p] = before[p]
InvWork == Work \in DOMAIN st.tree
\* The template of a route has as many segments as its path, and a parameter in braces is a whole segment.
InvTemplate == \A p \in {RouteOf(x) : x \in Index2} :
                 LET a == Split(RouteTemplate(p), "/") b == Split(p.path, "/")
                 IN  /\ Len(a) = Len(b)
                     /\ \A k \in DOMAIN b : b[k] = "" \/ (IF HasPrefix(b[k], ":") \/ HasPrefix(b[k], "*")
                                                          THEN a[k] = b[k] \/ HasPrefix(a[k], "{" \o SubSeq(b[k], 2, Len(b[k])) \o ":") ELSE a[k] = b[k])
ASSUME InvTemplate

Cases == LET s == SetToSeq(Index1) IN [n \in DOMAIN s |-> Case1(s[n], n)] \o [n \in DOMAIN Packs |-> Case2(Packs[n], Len(s) + n)]
ASSUME IF IOEnv.VERIF_EXPORT = "" THEN TRUE ELSE ndJsonSerialize(IOEnv.VERIF_EXPORT, Cases)
=============================================================================
