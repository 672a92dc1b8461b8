-------------------------------- MODULE Cache --------------------------------
(* Services that are saved to and loaded from files.  What a service knows is  *)
(* the number of an original one (0: nothing yet); a cache is a faithful copy, *)
(* so that a file holds such a number too.                                     *)
EXTENDS Config

\* Files that hold no cache: of no service.
None == -1
Junk == -2
Directory == -3

DefaultFile == "w/.astra/cache.json"
Known(ext) == HasExt(ext, {".json", ".yaml", ".yml"})
FileOf(path) == IF path = "" THEN DefaultFile ELSE path

\* svcs: number of what each of the services knows, and the path of its cache; files: what is in each of the files.
Init0 == [svcs |-> <<>>, files |-> <<>>, err |-> ""]
At(st, p) == IF p \in DOMAIN st.files THEN st.files[p] ELSE None
Ok(st) == [st EXCEPT !.err = ""]
Bad(st, e) == [st EXCEPT !.err = e]

Missing(p) == HasPrefix(p, "missing/")
Save(st, i) == LET p == FileOf(st.svcs[i].path)
               IN  IF Missing(p) \/ At(st, p) = Directory THEN Bad(st, "save") ELSE [Ok(st) EXCEPT !.files = (p :> st.svcs[i].n) @@ @]
\* A load either gives the service everything of the file, or leaves it as it was.
Load(st, i, p) == IF ~Known(p) \/ At(st, p) < 0 THEN Bad(st, "load") ELSE [Ok(st) EXCEPT !.svcs[i].n = st.files[p]]
Clear(st, i) == LET p == FileOf(st.svcs[i].path) IN IF At(st, p) = None THEN Bad(st, "clear") ELSE [Ok(st) EXCEPT !.files = (p :> None) @@ @]

Do(st, op) ==
  CASE op.k = "new" -> [Ok(st) EXCEPT !.svcs = (op.i :> [n |-> 0, path |-> op.path]) @@ @]
    [] op.k = "fill" -> [Ok(st) EXCEPT !.svcs[op.i].n = op.n]
    [] op.k = "save" -> Save(st, op.i)
    [] op.k = "load" -> Load(st, op.i, FileOf(st.svcs[op.i].path))
    [] op.k = "loadp" -> Load(st, op.i, op.path)
    [] op.k = "clear" -> Clear(st, op.i)
    [] op.k = "gen" -> IF st.svcs[op.i].n = 0 THEN Bad(st, "no configuration") ELSE Ok(st)
    [] op.k = "put" -> [Ok(st) EXCEPT !.files = (op.path :> IF op.kind = "gone" THEN None ELSE IF op.kind = "dir" THEN Directory ELSE Junk) @@ @]
=============================================================================
