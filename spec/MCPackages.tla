------------------------------ MODULE MCPackages ------------------------------
(* The tree as it is built: nodes with parents, which every goroutine walks    *)
(* step by step while it holds the lock.  It refines the tree of Packages, in  *)
(* which every operation takes effect at once.                                 *)
EXTENDS Packages, Json, IOUtils

Full == IOEnv.VERIF_SPACE = "full"
Procs == IF Full THEN 1..3 ELSE 1..2
Budget(p) == IF ~Full THEN 3 ELSE IF p = 3 THEN 1 ELSE 2
Paths == {<<"a">>, <<"a", "b">>, <<"b", "a">>, <<"a", "b", "c">>}

VARIABLES nodes,   \* sequence of [name, parent]; the root is number 0
          lock,    \* the goroutine that holds the lock, or 0
          before,  \* the paths that were there when the lock was taken
          pr       \* per goroutine: [pc, k, path, at: node, n: elements that it has walked, left: operations]
vars == <<nodes, lock, before, pr>>

RECURSIVE PathOf(_)
PathOf(n) == IF n = 0 THEN <<>> ELSE PathOf(nodes[n].parent) \o << nodes[n].name >>
AllPaths == {PathOf(n) : n \in DOMAIN nodes}
Idle(p) == [pc |-> "idle", k |-> "", path |-> <<>>, at |-> 0, n |-> 0, left |-> Budget(p)]

Init == nodes = <<>> /\ lock = 0 /\ before = {} /\ pr = [p \in Procs |-> Idle(p)]

Call(p) == /\ pr[p].pc = "idle" /\ pr[p].left > 0
           /\ \E k \in {"find", "add", "findoradd"}, x \in Paths :
                pr' = [pr EXCEPT ![p] = [@ EXCEPT !.pc = "lock", !.k = k, !.path = x, !.left = @ - 1]]
           /\ UNCHANGED <<nodes, lock, before>>
Acquire(p) == /\ pr[p].pc = "lock" /\ lock = 0
              /\ lock' = p /\ before' = AllPaths /\ pr' = [pr EXCEPT ![p] = [@ EXCEPT !.pc = "walk", !.at = 0, !.n = 0]]
              /\ UNCHANGED nodes
Edge(n, name) == {m \in DOMAIN nodes : nodes[m].parent = n /\ nodes[m].name = name}
Release(p, pc) == lock' = 0 /\ before' = before /\ pr' = [pr EXCEPT ![p] = [@ EXCEPT !.pc = pc]]
Walk(p) ==
  LET me == pr[p]
      name == me.path[me.n + 1]
      to == Edge(me.at, name)
  IN  /\ me.pc = "walk"
      /\ IF me.n = Len(me.path) THEN Release(p, "found") /\ UNCHANGED nodes
         ELSE IF to # {} THEN pr' = [pr EXCEPT ![p] = [@ EXCEPT !.at = CHOOSE m \in to : TRUE, !.n = @ + 1]] /\ UNCHANGED <<nodes, lock, before>>
         ELSE IF me.k = "add" THEN /\ nodes' = Append(nodes, [name |-> name, parent |-> me.at])
                                   /\ pr' = [pr EXCEPT ![p] = [@ EXCEPT !.at = Len(nodes) + 1, !.n = @ + 1]] /\ UNCHANGED <<lock, before>>
         ELSE Release(p, "missing") /\ UNCHANGED nodes
\* A look-up that may add begins again with an addition.
Result(p) == /\ pr[p].pc \in {"found", "missing"}
             /\ pr' = [pr EXCEPT ![p] = IF @.pc = "missing" /\ @.k = "findoradd" THEN [@ EXCEPT !.pc = "lock", !.k = "add"] ELSE [@ EXCEPT !.pc = "idle"]]
             /\ UNCHANGED <<nodes, lock, before>>
Next == \E p \in Procs : Call(p) \/ Acquire(p) \/ Walk(p) \/ Result(p)
Spec == Init /\ [][Next]_vars

\* The tree of the specification, in which nothing of an operation can be seen before it is complete.
Visible == IF lock = 0 THEN AllPaths ELSE before
SeqPrefixes(x) == {SubSeq(x, 1, n) : n \in 1..Len(x)}
AbstractNext == \E x \in Paths : Visible' = Visible \cup SeqPrefixes(x)
Refines == [][AbstractNext]_Visible

InvOnce == \A m, n \in DOMAIN nodes : PathOf(m) = PathOf(n) => m = n
InvClosed == \A x \in AllPaths : SeqPrefixes(x) \subseteq AllPaths
InvNode == \A p \in Procs : pr[p].pc = "found" => PathOf(pr[p].at) = pr[p].path
\* When the lock is given back, a look-up has found what was there when it was taken.
InvFound == \A p \in Procs : lock = p /\ pr[p].k # "add" => (AllPaths = before /\ (pr[p].n = Len(pr[p].path) => pr[p].path \in before))
InvOnlyAdded == \A x \in Visible : \E y \in Paths : x \in SeqPrefixes(y)

-----------------------------------------------------------------------------
Op(k, p) == [k |-> k, p |-> << p >>]
Alphabet == SetToSeq({Op(k, p) : k \in {"find", "add", "findoradd"}, p \in {"a", "a/b", "b/a", "a/b/c"}})
Index == [1..4 -> DOMAIN Alphabet]
Cases == LET s == SetToSeq(Index)
         IN  [n \in DOMAIN s |-> [id |-> n, work |-> IF n % 2 = 0 THEN << << Alphabet[s[n][1]], Alphabet[s[n][2]] >>, << Alphabet[s[n][3]], Alphabet[s[n][4]] >> >>
                                                     ELSE << << Alphabet[s[n][1]], Alphabet[s[n][2]] >>, << Alphabet[s[n][3]] >>, << Alphabet[s[n][4]] >> >>]]
ASSUME IF IOEnv.VERIF_EXPORT = "" THEN TRUE ELSE ndJsonSerialize(IOEnv.VERIF_EXPORT, Cases)
=============================================================================
