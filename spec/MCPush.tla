------------------------------- MODULE MCPush --------------------------------
(* Exhaustive: every sequence of additions of a few responses and components   *)
(* that differ in one detail.                                                  *)
EXTENDS Push, Json, IOUtils

Full == IOEnv.VERIF_SPACE = "full"
N == IF Full THEN 5 ELSE 4

F0 == [pkg |-> "", type |-> "", name |-> "", enum |-> <<>>, emb |-> FALSE, slice |-> "", array |-> "", alen |-> 0, mapk |-> "",
       mapkpkg |-> "", mapv |-> "", epkg |-> "", fields |-> <<>>, forder |-> <<>>, tags |-> <<>>, vals |-> <<>>, doc |-> "", req |-> FALSE]
Ret(code, ct, f) == [code |-> code, ct |-> ct, f |-> f]
T == [F0 EXCEPT !.type = "T", !.pkg = "p"]
Rets == << Ret(200, "application/json", T), Ret(201, "application/json", T), Ret(200, "application/xml", T), Ret(200, "application/json", [T EXCEPT !.pkg = "q"]),
           Ret(200, "application/json", [F0 EXCEPT !.type = "slice", !.slice = "T", !.pkg = "p"]) >>
Comps == << [F0 EXCEPT !.name = "T", !.pkg = "p", !.type = "string"], [F0 EXCEPT !.name = "T", !.pkg = "p", !.type = "int"],
            [F0 EXCEPT !.name = "T", !.pkg = "q", !.type = "string"], [F0 EXCEPT !.name = "U", !.pkg = "p", !.type = "string"] >>

SeqsUpTo(k, n) == UNION {[1..m -> 1..k] : m \in 0..n}
\* Additions one by one, and all at once.
Index == {<<s, b>> : s \in SeqsUpTo(Len(Rets), N), b \in BOOLEAN}
Comp(k) == Comps[((k - 1) % Len(Comps)) + 1]

VARIABLES idx, i, rets, comps
Init == idx \in Index /\ i = 1 /\ rets = <<>> /\ comps = <<>>
Next == /\ i <= Len(idx[1])
        /\ rets' = AddResponse(rets, Rets[idx[1][i]]) /\ comps' = AddComponent(comps, Comp(idx[1][i]))
        /\ i' = i + 1 /\ UNCHANGED idx
View == <<idx, i>>

Added == {idx[1][k] : k \in 1..(i - 1)}
InvAll == ToSet(rets) = {Rets[k] : k \in Added} /\ {<<c.pkg, c.name>> : c \in ToSet(comps)} = {<<Comp(k).pkg, Comp(k).name>> : k \in Added}
InvOnce == Len(rets) = Cardinality(ToSet(rets)) /\ Len(comps) = Cardinality({<<c.pkg, c.name>> : c \in ToSet(comps)})
\* The known ones stay, in order.
Keeps == [][IsPrefix(rets, rets') /\ IsPrefix(comps, comps')]_<<rets, comps>>
\* Adding what is known changes nothing.
InvKnown == AddResponses(rets, rets) = rets /\ AddComponents(comps, comps) = comps

One(s, F(_)) == [k \in DOMAIN s |-> << F(s[k]) >>]
All(s, F(_)) == << [k \in DOMAIN s |-> F(s[k])] >>
RetOf(k) == Rets[k]
Cases == LET s == SetToSeq(Index)
         IN  [n \in DOMAIN s |-> [id |-> n, rets |-> IF s[n][2] THEN One(s[n][1], RetOf) ELSE All(s[n][1], RetOf),
                                  comps |-> IF s[n][2] THEN One(s[n][1], Comp) ELSE All(s[n][1], Comp)]]
ASSUME IF IOEnv.VERIF_EXPORT = "" THEN TRUE ELSE ndJsonSerialize(IOEnv.VERIF_EXPORT, Cases)
=============================================================================
