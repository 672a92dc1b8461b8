------------------------------- MODULE MCCache -------------------------------
(* Exhaustive: all short histories of two services, with a JSON and a YAML     *)
(* cache.                                                                      *)
EXTENDS Cache, Json, IOUtils, SequencesExt

Full == IOEnv.VERIF_SPACE = "full"
N == IF Full THEN 5 ELSE 4

Op(k, i, n, p, kind) == [k |-> k, i |-> i, n |-> n, path |-> p, kind |-> kind]
Start == << Op("new", 1, 0, "a.json", ""), Op("fill", 1, 1, "", ""), Op("new", 2, 0, "b.yaml", "") >>
Alphabet == << Op("save", 1, 0, "", ""), Op("save", 2, 0, "", ""), Op("load", 1, 0, "", ""), Op("load", 2, 0, "", ""), Op("loadp", 1, 0, "b.yaml", ""), Op("loadp", 2, 0, "a.json", ""),
               Op("fill", 1, 2, "", ""), Op("fill", 2, 2, "", ""), Op("clear", 1, 0, "", ""), Op("put", 1, 0, "a.json", "json1"), Op("put", 2, 0, "b.yaml", "yaml2"), Op("gen", 2, 0, "", "") >>
Index == [1..N -> 1..Len(Alphabet)]
Gens == << Op("gen", 1, 0, "", ""), Op("gen", 2, 0, "", "") >>
OpsOf(x) == Start \o [k \in 1..N |-> Alphabet[x[k]]] \o Gens

VARIABLES hist, st, before
vars == <<hist, st, before>>
Begin == Do(Do(Do(Init0, Start[1]), Start[2]), Start[3])
Init == hist = <<>> /\ st = Begin /\ before = Begin
Next == /\ Len(hist) < (IF Full THEN 7 ELSE 6)
        /\ \E k \in DOMAIN Alphabet : hist' = Append(hist, k) /\ st' = Do(st, Alphabet[k])
        /\ before' = st
View == <<Len(hist), st, IF hist = <<>> THEN 0 ELSE hist[Len(hist)], before>>

Latest == Alphabet[hist[Len(hist)]]
Content(s) == [i \in DOMAIN s.svcs |-> s.svcs[i].n]
\* A load that fails, and any other operation, leaves the services as they were; a save leaves all other files as they were.
InvFailed == hist # <<>> /\ st.err # "" => Content(st) = Content(before) /\ st.files = before.files
InvOthers == hist # <<>> => /\ \A i \in DOMAIN st.svcs : i # Latest.i => st.svcs[i] = before.svcs[i]
                            /\ (Latest.k \notin {"load", "loadp", "fill"} => Content(st) = Content(before))
                            /\ (Latest.k \in {"load", "loadp", "fill", "gen"} => st.files = before.files)
\* Saving and loading again gives the same service.
InvRound == \A i \in DOMAIN st.svcs : LET s == Save(st, i) IN s.err = "" => Load(s, i, FileOf(st.svcs[i].path)).svcs = st.svcs
InvCopy == Load(Save(st, 1), 2, "a.json").svcs[2].n = st.svcs[1].n

Cases == LET s == SetToSeq(Index) IN [n \in DOMAIN s |-> [id |-> n, ops |-> OpsOf(s[n])]]
ASSUME IF IOEnv.VERIF_EXPORT = "" THEN TRUE ELSE ndJsonSerialize(IOEnv.VERIF_EXPORT, Cases)
=============================================================================
