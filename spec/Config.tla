------------------------------- MODULE Config --------------------------------
(* Configurations and their builder, and where outputs are written.            *)
EXTENDS Doc

NoConfig == [title |-> "", description |-> "", version |-> "", contact |-> [name |-> "", url |-> "", email |-> ""], license |-> [name |-> "", url |-> ""],
             secure |-> FALSE, host |-> "", port |-> 0, basePath |-> ""]

-----------------------------------------------------------------------------
(* The builder: [config, built], the configuration so far and what the calls   *)
(* of Build gave (none: an error, because there is no port).                   *)

NewBuilder == [config |-> NoConfig, built |-> <<>>]

Valid(c) == c.port # 0
Completed(c) == [c EXCEPT !.host = IF @ = "" THEN "localhost" ELSE @, !.basePath = IF @ = "" THEN "/" ELSE @]

ApplyCall(b, call) ==
  CASE call.f = "title" -> [b EXCEPT !.config.title = call.s]
    [] call.f = "description" -> [b EXCEPT !.config.description = call.s]
    [] call.f = "version" -> [b EXCEPT !.config.version = call.s]
    [] call.f = "contact" -> [b EXCEPT !.config.contact = call.c]
    [] call.f = "license" -> [b EXCEPT !.config.license = call.l]
    [] call.f = "secure" -> [b EXCEPT !.config.secure = call.b]
    [] call.f = "host" -> [b EXCEPT !.config.host = call.s]
    [] call.f = "basePath" -> [b EXCEPT !.config.basePath = call.s]
    [] call.f = "port" -> [b EXCEPT !.config.port = call.n]
    [] call.f = "build" -> [b EXCEPT !.built = Append(@, IF Valid(b.config) THEN << Completed(b.config) >> ELSE <<>>)]

\* The configuration of the last successful Build, if there is one.
LastBuilt(b) == LET ok == SelectSeq(b.built, LAMBDA x : x # <<>>) IN IF ok = <<>> THEN <<>> ELSE LastOf(ok)

-----------------------------------------------------------------------------
(* File names.  Paths are relative to the working directory, wherever they     *)
(* point to; "" is the working directory itself.                               *)

HasExt(p, exts) == \E e \in exts : HasSuffix(p, e)
WithExtension(kind, p) ==
  IF kind = "openapi" THEN (IF HasExt(p, {".json", ".yaml", ".yml"}) THEN p ELSE p \o ".json")
  ELSE (IF HasSuffix(p, ".json") THEN p ELSE p \o ".json")

RECURSIVE Fold(_, _)
Fold(segs, out) ==
  IF segs = <<>> THEN out
  ELSE IF segs[1] \in {"", "."} THEN Fold(Tail(segs), out)
  ELSE IF segs[1] = ".." /\ out # <<>> THEN Fold(Tail(segs), SubSeq(out, 1, Len(out) - 1))
  ELSE Fold(Tail(segs), Append(out, segs[1]))
Resolve(p) == JoinSeq(Fold(Split(p, "/"), <<>>), "/")

ParentOf(p) == LET s == Split(p, "/") IN JoinSeq(SubSeq(s, 1, Len(s) - 1), "/")

FormatOf(kind, name) == IF kind # "openapi" THEN "debug" ELSE IF HasExt(name, {".yaml", ".yml"}) THEN "yaml" ELSE "json"

-----------------------------------------------------------------------------
(* Writing outputs, one after the other: [tree, err], where tree says what is  *)
(* at each path.                                                               *)

IsDir(tree, p) == p = "" \/ (p \in DOMAIN tree /\ tree[p] = "dir")

WriteOutput(st, config, out) ==
  LET name == Resolve(WithExtension(out.kind, out.path))
  IN  IF st.err # "" THEN st
      ELSE IF out.kind = "openapi" /\ config = <<>> THEN [st EXCEPT !.err = "no config"]
      ELSE IF ~IsDir(st.tree, ParentOf(name)) \/ IsDir(st.tree, name) THEN [st EXCEPT !.err = "write"]
      ELSE [st EXCEPT !.tree = (name :> FormatOf(out.kind, name)) @@ @]
=============================================================================
