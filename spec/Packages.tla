------------------------------- MODULE Packages -------------------------------
(* The tree of packages: what it contains are paths.  An addition adds a path  *)
(* and what leads to it; each element of an operation takes effect at once.    *)
EXTENDS TLC, Naturals, Sequences, FiniteSets, SequencesExt

PathPrefixes(p) == {SubSeq(p, 1, n) : n \in {n \in 1..Len(p) : n = Len(p) \/ SubSeq(p, n + 1, n + 1) = "/"}}
Adds(k) == k # "find"

\* The tree after an element of an operation, and whether a look-up finds its path.
After(tree, k, p) == IF Adds(k) THEN tree \cup PathPrefixes(p) ELSE tree
Found(tree, p) == p \in tree

\* What can have happened so far: the tree, and for each goroutine how many elements of its operation took effect, and what its look-up found.
Init0 == [tree |-> {}, done |-> <<>>, found |-> <<>>]
Invoke(c, g) == [c EXCEPT !.done = (g :> 0) @@ @, !.found = (g :> FALSE) @@ @]
Pending(c, g, op) == g \in DOMAIN c.done /\ c.done[g] < Len(op.p)
Effect(c, g, op) == LET p == op.p[c.done[g] + 1]
                    IN  [c EXCEPT !.tree = After(@, op.k, p), !.done[g] = @ + 1, !.found[g] = Found(c.tree, p)]
RECURSIVE Closure(_, _)
Closure(cs, cur) ==
  LET more == {Effect(c, g, cur[g]) : <<c, g>> \in {x \in cs \X DOMAIN cur : Pending(x[1], x[2], cur[x[2]])}}
  IN  IF more \subseteq cs THEN cs ELSE Closure(cs \cup more, cur)
\* Those in which an operation ended with a result.
Return(cs, g, op, found) == {[c EXCEPT !.done = [h \in DOMAIN @ \ {g} |-> @[h]], !.found = [h \in DOMAIN @ \ {g} |-> @[h]]] :
                             c \in {c \in cs : c.done[g] = Len(op.p) /\ (op.k = "find" => c.found[g] = found)}}
=============================================================================
