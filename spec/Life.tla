-------------------------------- MODULE Life ---------------------------------
(* The life of a service in its working directory: the steps of a run, in the  *)
(* order of their effects, what they leave in the file system, and what is     *)
(* left when a run fails or ends between any two of them.                      *)
EXTENDS Config, SequencesExt, FiniteSetsExt

NilSv == [ins |-> <<>>, outs |-> <<>>, routes |-> <<>>, comps |-> <<>>, title |-> ""]
Node(k) == [k |-> k, form |-> "", r |-> {}, c |-> {}, sv |-> NilSv]
DirNode == Node("dir")
AnyNode == Node("any")           \* it is not known what is there
CacheNode(sv) == [Node("cache") EXCEPT !.sv = sv]

DefaultCache == ".astra/cache.json"
CachePath(cfg) == IF cfg.cache = "default" THEN DefaultCache ELSE IF cfg.cache # "" THEN cfg.cache ELSE IF cfg.cli = "setup" THEN DefaultCache ELSE ""

\* A service and its directory.
\*   sv: what the service knows; cache, cli, v: its settings; memo: it has copied the main package
\*   tree: what is at each path, other than in .astra but for the cache; astra, ign, main, extra: the state of .astra, of its ignore file,
\*   of the copy of the main package, and of anything else in it; loose: directories in which something of a cache can be left over
\*   ev: the calls of the inputs and outputs; err: the error, if there is one; todo: the effects that are to come
NewService(st, cfg) ==
  [st EXCEPT !.sv = [NilSv EXCEPT !.ins = cfg.ins, !.outs = cfg.outs, !.title = cfg.title], !.cache = CachePath(cfg), !.cli = cfg.cli, !.v = cfg.v, !.memo = FALSE]
Empty == [sv |-> NilSv, cache |-> "", cli |-> "", v |-> 0, memo |-> FALSE, tree |-> <<>>, astra |-> "none", ign |-> "none", main |-> "no", extra |-> "no",
          loose |-> {}, ev |-> <<>>, err |-> "", todo |-> <<>>]

Act(a, k, o) == [a |-> a, k |-> k, o |-> o]
NoOut == [kind |-> "", path |-> ""]
A0(a) == Act(a, 0, NoOut)
CacheActs(st) == IF st.cache = "" THEN <<>> ELSE << A0("cache") >>
OfInputs(st, a) == [i \in DOMAIN st.sv.ins |-> Act(a, st.sv.ins[i], NoOut)]

RECURSIVE Plan(_, _)
Plan(m, st) ==
  CASE m = "Setup" -> << A0("astra"), A0("ignore") >> \o CacheActs(st)
    [] m = "CreateRoutes" -> OfInputs(st, "create") \o CacheActs(st)
    [] m = "ParseRoutes" -> << A0("reset") >> \o OfInputs(st, "parse") \o CacheActs(st)
    [] m = "Clean" -> << A0("clean") >> \o CacheActs(st)
    [] m = "Generate" -> [i \in DOMAIN st.sv.outs |-> Act("gen", 0, st.sv.outs[i])] \o CacheActs(st)
    [] m = "Teardown" -> << A0("down1"), A0("down2") >>
    [] m = "SetupParse" -> << A0("check") >> \o Plan("Setup", st) \o Plan("CreateRoutes", st)
    [] m = "CompleteParse" -> << A0("check") >> \o Plan("ParseRoutes", st) \o Plan("Clean", st) \o Plan("Generate", st) \o Plan("Teardown", st)
    [] m = "Parse" -> Plan("SetupParse", st) \o Plan("CompleteParse", st)
    [] m = "Cache" -> << A0("cache") >>
    [] m = "LoadCache" -> << A0("load") >>
    [] m = "ClearCache" -> << A0("clear") >>

Fail(s, e) == [s EXCEPT !.err = e, !.todo = <<>>]
Under(p, dir) == p = dir \/ HasPrefix(p, dir \o "/")
InAstra(p) == Under(p, ".astra")
HasDir(st, p) == IF p = ".astra" THEN st.astra \in {"dir", "any"} ELSE p = "" \/ (p \in DOMAIN st.tree /\ st.tree[p] = DirNode)
KindAt(st, p) == IF p \in DOMAIN st.tree THEN st.tree[p].k ELSE "none"

\* Services that do not cache can still load and write the cache of the directory.
CacheOf(st) == IF st.cache = "" THEN DefaultCache ELSE st.cache
CanCache(st) == HasDir(st, ParentOf(CacheOf(st))) /\ KindAt(st, CacheOf(st)) # "dir"
Loads(p) == HasExt(p, {".json", ".yaml", ".yml"})

\* What belongs to an input are the routes that it created, in this version or another one.
RouteId(k, v) == ToString(k) \o "_" \o ToString(v)
Owns(k, id) == HasPrefix(id, ToString(k) \o "_")
AddRoute(routes, r) == IF \E i \in DOMAIN routes : routes[i].id = r.id THEN [i \in DOMAIN routes |-> IF routes[i].id = r.id THEN r ELSE routes[i]] ELSE Append(routes, r)
RECURSIVE AddComps(_, _)
AddComps(comps, new) == IF new = <<>> THEN comps ELSE AddComps(IF \E i \in DOMAIN comps : comps[i] = new[1] THEN comps ELSE Append(comps, new[1]), Tail(new))
Parsed(sv, k) ==
  LET own == SelectSeq(sv.routes, LAMBDA r : Owns(k, r.id))
  IN  [sv EXCEPT !.routes = [i \in DOMAIN @ |-> IF Owns(k, @[i].id) THEN [@[i] EXCEPT !.pkg = "temp"] ELSE @[i]],
                 !.comps = AddComps(@, [i \in DOMAIN own |-> [id |-> own[i].id, pkg |-> "temp"]])]
Main(seq) == [i \in DOMAIN seq |-> IF seq[i].pkg = "temp" THEN [seq[i] EXCEPT !.pkg = "main"] ELSE seq[i]]
Cleaned(sv) == [sv EXCEPT !.routes = Main(@), !.comps = Main(@)]

Ids(seq) == {seq[i].id : i \in DOMAIN seq}
Content(o, sv) == [Node("out") EXCEPT !.form = o.kind, !.r = Ids(sv.routes), !.c = IF o.kind = "azure" THEN {} ELSE Ids(sv.comps)]
Target(o) == IF o.kind = "azure" THEN Resolve(o.path) ELSE Resolve(WithExtension(o.kind, o.path))
Writable(st, o) ==
  IF o.kind = "azure" THEN ~Under(".astra/azure", Target(o)) /\ Target(o) # "" /\ HasDir(st, ParentOf(Target(o)))
  ELSE HasDir(st, ParentOf(Target(o))) /\ KindAt(st, Target(o)) # "dir"
Put(tree, p, n) == (p :> n) @@ [q \in {q \in DOMAIN tree : ~Under(q, p)} |-> tree[q]]
Without(tree, p) == [q \in {q \in DOMAIN tree : ~Under(q, p)} |-> tree[q]]

EnterAstra(s) == [s EXCEPT !.astra = "dir", !.ign = IF @ = "none" THEN "new" ELSE @]
Ignored(s) == [s EXCEPT !.ign = IF @ = "new" THEN "ok" ELSE @]
NeedMain(s, a) == [s EXCEPT !.todo = (IF s.memo THEN <<>> ELSE << A0("main1"), A0("main2") >>) \o << a >> \o @]

Step(st, fail) ==
  LET a == Head(st.todo)
      s == [st EXCEPT !.todo = Tail(@)]
      Called(name) == [s EXCEPT !.ev = Append(@, name)]
  IN
  CASE a.a = "check" -> IF s.sv.ins = <<>> \/ s.sv.outs = <<>> THEN Fail(s, "not set") ELSE s
    [] a.a = "astra" -> IF s.astra = "file" THEN Fail(s, "astra") ELSE EnterAstra(s)
    [] a.a = "ignore" -> Ignored(s)
    [] a.a = "cache" -> IF ~CanCache(s) THEN [Fail(s, "cache") EXCEPT !.loose = @ \cup {ParentOf(CacheOf(s))}] ELSE [s EXCEPT !.tree = Put(@, CacheOf(s), CacheNode(s.sv))]
    [] a.a = "load" -> IF KindAt(s, CacheOf(s)) = "cache" /\ Loads(CacheOf(s)) THEN [s EXCEPT !.sv = s.tree[CacheOf(s)].sv] ELSE Fail(s, "load")
    [] a.a = "clear" -> IF KindAt(s, CacheOf(s)) = "none" THEN Fail(s, "clear") ELSE [s EXCEPT !.tree = Without(@, CacheOf(s))]
    [] a.a = "create" -> LET e == "create" \o ToString(a.k) c == Called(e) IN IF fail = e THEN Fail(c, "scripted") ELSE [c EXCEPT !.sv.routes = AddRoute(@, [id |-> RouteId(a.k, s.v), pkg |-> ""])]
    [] a.a = "reset" -> [s EXCEPT !.sv.comps = <<>>]
    [] a.a = "parse" -> LET e == "parse" \o ToString(a.k) c == Called(e) IN IF fail = e THEN Fail(c, "scripted") ELSE NeedMain(c, [a EXCEPT !.a = "parsed"])
    [] a.a = "parsed" -> [s EXCEPT !.sv = Parsed(@, a.k)]
    [] a.a = "main1" -> IF s.astra = "file" THEN Fail(s, "astra") ELSE [EnterAstra(s) EXCEPT !.main = "any"]
    [] a.a = "main2" -> [Ignored(s) EXCEPT !.main = "yes", !.memo = TRUE]
    [] a.a = "clean" -> NeedMain(s, A0("cleaned"))
    [] a.a = "cleaned" -> [s EXCEPT !.sv = Cleaned(@)]
    [] a.a = "gen" -> LET e == "gen:" \o a.o.path c == Called(e) IN IF fail = e THEN Fail(c, "scripted") ELSE [c EXCEPT !.todo = << [a EXCEPT !.a = "gen0"] >> \o @]
    [] a.a = "gen0" -> IF a.o.kind = "azure" /\ ~HasDir(s, ".astra") THEN Fail(s, "output")
                       ELSE IF ~Writable(s, a.o) THEN [Fail(s, "output") EXCEPT !.extra = IF a.o.kind = "azure" THEN "any" ELSE @]
                       ELSE [s EXCEPT !.extra = IF a.o.kind = "azure" THEN "any" ELSE @, !.todo = << [a EXCEPT !.a = "gen1"], [a EXCEPT !.a = "gen2", !.k = IF s.extra = "any" THEN 1 ELSE 0] >> \o @]
    [] a.a = "gen1" -> [s EXCEPT !.tree = Put(@, Target(a.o), AnyNode)]
    [] a.a = "gen2" -> [s EXCEPT !.tree = Put(@, Target(a.o), Content(a.o, s.sv)), !.extra = IF a.o.kind = "azure" /\ a.k = 0 THEN "no" ELSE @]
    [] a.a = "down1" -> IF s.cache = "" /\ s.cli = ""
                        THEN [s EXCEPT !.astra = "any", !.ign = "any", !.main = "any", !.extra = "any", !.tree = IF DefaultCache \in DOMAIN @ THEN Put(@, DefaultCache, AnyNode) ELSE @]
                        ELSE [s EXCEPT !.main = "any"]
    [] a.a = "down2" -> IF s.cache = "" /\ s.cli = ""
                        THEN [s EXCEPT !.astra = "none", !.ign = "none", !.main = "no", !.extra = "no", !.tree = Without(@, ".astra"), !.memo = FALSE]
                        ELSE [s EXCEPT !.main = "no", !.memo = FALSE]

Start(st, m) == [st EXCEPT !.ev = <<>>, !.err = "", !.todo = Plan(m, st)]
RECURSIVE Finish(_, _)
Finish(st, fail) == IF st.todo = <<>> THEN st ELSE Finish(Step(st, fail), fail)
Call(st, m, fail) == Finish(Start(st, m), fail)

\* What is left when a run ends in between.
RECURSIVE Stops(_, _)
Stops(st, fail) == {st} \cup (IF st.todo = <<>> THEN {} ELSE Stops(Step(st, fail), fail))
Left(s) == [s EXCEPT !.todo = <<>>, !.ign = IF @ = "new" THEN "any" ELSE @, !.loose = @ \cup (IF s.cache = "" THEN {} ELSE {ParentOf(s.cache)}) \cup {ParentOf(Target(s.sv.outs[i])) : i \in DOMAIN s.sv.outs}]
Interrupted(st, m, fail) == {Left(s) : s \in Stops(Start(st, m), fail)}

-----------------------------------------------------------------------------
(* What others do to the directory.                                            *)
Place(st, p, k) ==
  IF p = ".astra" THEN [st EXCEPT !.tree = Without(@, p), !.astra = IF k = "gone" THEN "none" ELSE IF k = "dir" THEN "dir" ELSE "file", !.ign = "none", !.main = "no", !.extra = "no"]
  ELSE [st EXCEPT !.tree = IF k = "gone" THEN Without(@, p) ELSE Put(@, p, Node(k))]
=============================================================================
