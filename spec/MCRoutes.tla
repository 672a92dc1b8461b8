------------------------------- MODULE MCRoutes ------------------------------
(* Exhaustive: small sets of registrations and rules, and all short paths; the *)
(* registrations are taken one after the other, and the properties C01 and C02 *)
(* hold of what is documented.  The space is exported for the real code.       *)
EXTENDS Routes, Doc, Json, IOUtils

Full == IOEnv.VERIF_SPACE = "full"

Reg(rt, kind, g, m, p, h) == [router |-> rt, kind |-> kind, group |-> g, method |-> m, path |-> p, h |-> h, mw |-> 0]
Rule(k, v, s, e, a) == [k |-> k, v |-> v, start |-> s, end |-> e, atoms |-> a]
Lit(v) == [k |-> "lit", v |-> v]
Seg == [k |-> "seg", v |-> ""]
AnyText == [k |-> "any", v |-> ""]

Groups == << "", "/g", "/:o/" >>
Paths == << "/", "/a", "/a/:id", "a/" >> \o (IF Full THEN << "/:id", "/a/b", "/c/*rest" >> ELSE <<>>)
Kinds == << <<"handle", "GET">>, <<"handle", "POST">>, <<"any", "">> >>
Rules == << Rule("exact", "/a", FALSE, FALSE, <<>>), Rule("exact", "/g/a/:id", FALSE, FALSE, <<>>), Rule("prefix", "/g", FALSE, FALSE, <<>>),
            Rule("regex", "", TRUE, TRUE, <<Lit("/"), Seg>>), Rule("regex", "", FALSE, TRUE, <<Lit("/a"), AnyText>>), Rule("suffix", "/", FALSE, FALSE, <<>>) >>

\* The first space: two registrations and two rules.
NReg == Len(Groups) * Len(Paths) * Len(Kinds)
RegOf(n, h) == LET g == (n % Len(Groups)) + 1
                   p == ((n \div Len(Groups)) % Len(Paths)) + 1
                   k == (n \div (Len(Groups) * Len(Paths))) + 1
               IN  Reg(h, Kinds[k][1], Groups[g], Kinds[k][2], Paths[p], h)
RulesOf(x, y) == << Rules[x] >> \o (IF y = 0 THEN <<>> ELSE << Rules[y] >>)

\* The registrations go to two routers, so that there are no conflicts; the same route in both is no case.
Distinct(a, b) == {<<x.method, x.path>> : x \in ToSet(Registered(RegOf(a, 1)))} \cap {<<x.method, x.path>> : x \in ToSet(Registered(RegOf(b, 2)))} = {}
Pairs == {x \in (0..(NReg - 1)) \X (0..(NReg - 1)) : Distinct(x[1], x[2]) /\ (Full \/ (x[1] + 7 * x[2]) % 5 = 0)}
RuleSets == {x \in (1..Len(Rules)) \X (0..Len(Rules)) : x[2] # x[1] /\ x[2] <= x[1]}
Chosen(x, y) == (x[1] * NReg + x[2]) % Cardinality(RuleSets) = (y[1] * 7 + y[2]) % Cardinality(RuleSets)
Index1 == IF Full THEN {<<"r", p[1], p[2], q[1], q[2]>> : p \in Pairs, q \in RuleSets}
          ELSE UNION {{<<"r", p[1], p[2], q[1], q[2]>> : q \in {q \in RuleSets : Chosen(p, q)}} : p \in Pairs}

\* The second space: a path of up to three segments, each in a router of its own.
Segs == <<"a", ":id", ":name", "z:id", "*rest", "">>
SegSeqs == UNION {{s \in [1..n -> 1..Len(Segs)] : \A i \in 1..(n - 1) : Segs[s[i]] \notin {"*rest", ""}} : n \in 1..(IF Full THEN 4 ELSE 3)}
PathOf(s) == LET RECURSIVE P(_)
                 P(i) == IF i > Len(s) THEN "" ELSE "/" \o Segs[s[i]] \o P(i + 1)
             IN  P(1)
Repeated(s) == \E i, j \in 1..Len(s) : i < j /\ Segs[s[i]] \in {":id", "z:id", ":name"} /\ Segs[s[j]] \in {":id", "z:id", ":name"} /\ (Segs[s[i]] = ":name") = (Segs[s[j]] = ":name")
AllPaths == {PathOf(s) : s \in {s \in SegSeqs : ~Repeated(s)}}
PathSeq == SetToSeq(AllPaths)
Pack == 16
NPacks == (Len(PathSeq) + Pack - 1) \div Pack
PackRegs(n) == [k \in 1..(IF n * Pack <= Len(PathSeq) THEN Pack ELSE Len(PathSeq) - (n - 1) * Pack) |-> Reg(k, "handle", "", "GET", PathSeq[(n - 1) * Pack + k], 1 + (k % 2))]
Index2 == {<<"p", n, 0, 0, 0>> : n \in 1..NPacks}

Index == Index1 \cup Index2
RegsOf(x) == IF x[1] = "r" THEN << RegOf(x[2], 1), RegOf(x[3], 2) >> ELSE PackRegs(x[2])
DeniesOf(x) == IF x[1] = "r" THEN RulesOf(x[4], x[5]) ELSE <<>>

VARIABLES idx, step, routes
vars == <<idx, step, routes>>
Init == idx \in Index /\ step = 1 /\ routes = <<>>
Next == /\ step <= Len(RegsOf(idx))
        /\ routes' = AddRegistration(routes, DeniesOf(idx), RegsOf(idx)[step])
        /\ step' = step + 1 /\ UNCHANGED idx
View == <<idx, step>>

\* What is documented is what is registered so far and that no rule denies.
SoFar == UNION {ToSet(Registered(RegsOf(idx)[k])) : k \in 1..(step - 1)}
InvExact == ToSet(routes) = {r \in SoFar : \A d \in ToSet(DeniesOf(idx)) : ~Denies(d, r.path)}
InvOnce == Cardinality({<<r.method, r.path>> : r \in ToSet(routes)}) = Len(routes)
\* A rule only takes routes away.
InvRules == \A k \in DOMAIN DeniesOf(idx) : ToSet(routes) \subseteq ToSet(ServiceRoutes(SubSeq(RegsOf(idx), 1, step - 1), << DeniesOf(idx)[k] >>))
\* The template of a path has its parameters in the path's order, and nothing else in braces.
RECURSIVE Braces(_, _)
Braces(s, i) == IF i > Len(s) THEN <<>>
                ELSE IF Ch(s, i) # "{" THEN Braces(s, i + 1)
                ELSE LET e == CHOOSE j \in i..Len(s) : Ch(s, j) = "}" /\ \A k \in i..(j - 1) : Ch(s, k) # "}"
                         name == SubSeq(s, i + 1, e - 1)
                     IN  << IF HasSuffix(name, "*") THEN [name |-> SubSeq(name, 1, Len(name) - 1), req |-> FALSE] ELSE [name |-> name, req |-> TRUE] >> \o Braces(s, e + 1)
InvTemplate == \A k \in DOMAIN routes : Braces(Template(routes[k].path), 1) = PathParamsOf(routes[k].path)
InvSlashes == \A k \in DOMAIN routes : Len(Split(Template(routes[k].path), "/")) = Len(Split(routes[k].path, "/"))

Cases == LET s == SetToSeq(Index) IN [i \in DOMAIN s |-> [id |-> i, routers |-> IF s[i][1] = "r" THEN 2 ELSE Pack, regs |-> RegsOf(s[i]), denies |-> DeniesOf(s[i]), late |-> FALSE]]
ASSUME IF IOEnv.VERIF_EXPORT = "" THEN TRUE ELSE ndJsonSerialize(IOEnv.VERIF_EXPORT, Cases)
=============================================================================
