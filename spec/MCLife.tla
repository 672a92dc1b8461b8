------------------------------- MODULE MCLife --------------------------------
(* Exhaustive: runs in one directory, each of which can fail at any call of an *)
(* input or output, and end between any two of its effects.                    *)
EXTENDS Life, Json, IOUtils

Full == IOEnv.VERIF_SPACE = "full"
MaxRuns == IF Full THEN 4 ELSE 3

Out(k, p) == [kind |-> k, path |-> p]
Outs == << << Out("json", "d.json") >>, << Out("azure", "az"), Out("openapi", "sub/o") >>, << Out("openapi", "old.json"), Out("azure", "olddir") >> >>
Ins == << <<1>>, <<1, 2>> >>
Caches == << "", "default", "sub/c.yaml" >>
Clis == << "", "setup", "builder" >>
Cfg(i, o, c, x) == [cache |-> Caches[c], cli |-> Clis[x], cwd |-> FALSE, ins |-> Ins[i], outs |-> Outs[o], title |-> "t", v |-> 1]
Cfgs == {Cfg(i, o, c, x) : i \in 1..2, o \in 1..3, c \in 1..3, x \in 1..3}
Pre == << [path |-> "main.go", kind |-> "old"], [path |-> "go.mod", kind |-> "old"], [path |-> "keep.txt", kind |-> "old"], [path |-> "sub", kind |-> "dir"], [path |-> "sub/keep.json", kind |-> "old"],
          [path |-> "old.json", kind |-> "old"], [path |-> "olddir", kind |-> "dir"], [path |-> "olddir/f.txt", kind |-> "old"] >>
Tree0 == [p \in {x.path : x \in ToSet(Pre)} |-> Node((CHOOSE x \in ToSet(Pre) : x.path = p).kind)]
Dir0 == [Empty EXCEPT !.tree = Tree0]

VARIABLES cfg, st, run, fail, snaps, complete
vars == <<cfg, st, run, fail, snaps, complete>>

Events(c) == {"create" \o ToString(k) : k \in ToSet(c.ins)} \cup {"parse" \o ToString(k) : k \in ToSet(c.ins)} \cup {"gen:" \o o.path : o \in ToSet(c.outs)}
Begin(s, n) == Start(NewService(s, [cfg EXCEPT !.v = n]), "Parse")
\* The last run is neither made to fail nor interrupted.
Failures(n) == IF n = MaxRuns THEN {""} ELSE {""} \cup Events(cfg)

Init == /\ cfg \in Cfgs /\ run = 1 /\ fail \in Failures(1) /\ snaps = {} /\ complete = FALSE
        /\ st = Begin(Dir0, 1)
Effect == /\ st.todo # <<>>
          /\ st' = Step(st, fail)
          /\ snaps' = IF Head(st.todo).a = "cache" THEN snaps \cup {st.sv} ELSE snaps
          /\ UNCHANGED <<cfg, run, fail, complete>>
Crash == /\ run < MaxRuns /\ st.todo # <<>>
         /\ run' = run + 1 /\ fail' \in Failures(run')
         /\ st' = Begin(Left(st), run') /\ complete' = FALSE /\ UNCHANGED <<cfg, snaps>>
Again == /\ run < MaxRuns /\ st.todo = <<>>
         /\ run' = run + 1 /\ fail' \in Failures(run')
         /\ st' = Begin(st, run') /\ UNCHANGED <<cfg, snaps, complete>>
Next == Effect \/ Crash \/ Again
\* What happened before the last run only counts in what it left.
View == <<cfg, st, run, fail, complete>>

Ended == st.todo = <<>>
Targets == {Target(o) : o \in ToSet(cfg.outs)}
Mine(p) == InAstra(p) \/ p = st.cache \/ \E t \in Targets : Under(p, t)

\* C20
InvCacheWhole == st.cache # "" => KindAt(st, st.cache) \in {"none", "cache"} /\ (KindAt(st, st.cache) = "cache" => st.tree[st.cache].sv \in snaps)
Clean == Call(NewService(Dir0, [cfg EXCEPT !.v = run]), "Parse", fail)
InvNextRun == Ended => st.err = Clean.err /\ (st.err = "" => \A t \in Targets : st.tree[t] = Clean.tree[t])
\* C21
InvOthers == \A p \in DOMAIN st.tree \cup DOMAIN Tree0 : ~Mine(p) => p \in DOMAIN st.tree /\ p \in DOMAIN Tree0 /\ st.tree[p] = Tree0[p]
InvLeft == Ended /\ st.err = "" => /\ st.main = "no"
                                   /\ IF st.cache = "" /\ st.cli = "" THEN st.astra = "none" /\ \A p \in DOMAIN st.tree : ~InAstra(p)
                                      ELSE st.astra = "dir" /\ st.ign # "none" /\ (st.cache # "" => KindAt(st, st.cache) = "cache")
\* C22
AllEvents == [i \in DOMAIN cfg.ins |-> "create" \o ToString(cfg.ins[i])] \o [i \in DOMAIN cfg.ins |-> "parse" \o ToString(cfg.ins[i])] \o [i \in DOMAIN cfg.outs |-> "gen:" \o cfg.outs[i].path]
InvOrder == IsPrefix(st.ev, AllEvents) /\ (Ended => IF st.err = "" THEN st.ev = AllEvents ELSE LastOf(st.ev) = fail)
InvErr == st.err # "" => Ended
\* The cache after a run is that of the last step that was completed.
InvCached == Ended /\ st.cache # "" /\ st.ev # <<>> => st.tree[st.cache].sv.title = "t" /\
               LET done == {i \in DOMAIN st.ev : st.err = "" \/ i < Len(st.ev)}
                   created == \A k \in ToSet(cfg.ins) : \E i \in done : st.ev[i] = "create" \o ToString(k)
                   parsed == \A k \in ToSet(cfg.ins) : \E i \in done : st.ev[i] = "parse" \o ToString(k)
                   sv == st.tree[st.cache].sv
               IN  /\ Ids(sv.routes) = (IF created THEN {RouteId(k, run) : k \in ToSet(cfg.ins)} ELSE {})
                   /\ Ids(sv.comps) = (IF parsed THEN {RouteId(k, run) : k \in ToSet(cfg.ins)} ELSE {})

-----------------------------------------------------------------------------
(* The cases: a complete run, one that ends in between, and another complete   *)
(* one, for every configuration and place.                                     *)
NoCfg == [cache |-> "", cli |-> "", cwd |-> FALSE, ins |-> <<>>, outs |-> <<>>, title |-> "", v |-> 0]
Op0 == [k |-> "", cfg |-> NoCfg, m |-> "", fail |-> "", how |-> "", at |-> 0, path |-> "", kind |-> ""]
New(c, v) == [Op0 EXCEPT !.k = "new", !.cfg = [c EXCEPT !.v = v]]
CallOp(m, f) == [Op0 EXCEPT !.k = "call", !.m = m, !.fail = f]
DieOp(c, v, how, at) == [Op0 EXCEPT !.k = "die", !.m = "Parse", !.cfg = [c EXCEPT !.v = v], !.how = how, !.at = at]
Places == {<<"event", n>> : n \in 1..4} \cup {<<s, n>> : s \in {"sys:write", "sys:unlinkat"}, n \in 1..12} \cup {<<"sys:mkdirat", n>> : n \in 1..4} \cup {<<"sys:renameat", n>> : n \in 1..6} \cup {<<"sys:openat", n>> : n \in 4..30}
          \cup {<<"err:write", n>> : n \in 1..12} \cup {<<"err:renameat", n>> : n \in 1..6} \cup {<<"err:mkdirat", n>> : n \in 1..4} \cup {<<"full", n * 150>> : n \in 0..8}
Index == {<<c, p>> : c \in Cfgs, p \in Places}
Cases == LET s == SetToSeq(Index)
         IN  [n \in DOMAIN s |-> [id |-> n, pre |-> Pre, ops |-> (IF n % 3 = 0 THEN <<>> ELSE << New(s[n][1], 1), CallOp("Parse", "") >>)
                                  \o << DieOp(s[n][1], 2, s[n][2][1], s[n][2][2]), New(s[n][1], 3), CallOp("Parse", "") >>]]
ASSUME IF IOEnv.VERIF_EXPORT = "" THEN TRUE ELSE ndJsonSerialize(IOEnv.VERIF_EXPORT, Cases)
=============================================================================
