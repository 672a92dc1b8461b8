-------------------------------- MODULE Push ---------------------------------
(* Responses and components are added to those that are known.  A response is  *)
(* known if it is the same in every detail, a component if it is the same      *)
(* type: what is known of it stays what it was.                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

AddResponse(known, r) == IF r \in ToSet(known) THEN known ELSE Append(known, r)
AddComponent(known, c) == IF \E k \in ToSet(known) : k.pkg = c.pkg /\ k.name = c.name THEN known ELSE Append(known, c)

AddResponses(known, batch) == FoldLeft(AddResponse, known, batch)
AddComponents(known, batch) == FoldLeft(AddComponent, known, batch)
=============================================================================
