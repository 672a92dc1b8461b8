------------------------------- MODULE Routes --------------------------------
(* The routes of a service: what is registered in the routers, without what is *)
(* denied.  A registration is [router, kind, group, method, path, h, mw]: a    *)
(* handler for a method and path, for any method, or a directory of files; in  *)
(* a group of the router or not.  A rule is [k, v, start, end, atoms]: a path, *)
(* a predicate, or a regular expression (in the form of its atoms).            *)
EXTENDS Strings, SequencesExt, FiniteSetsExt

AnyMethods == <<"GET", "POST", "PUT", "PATCH", "HEAD", "OPTIONS", "DELETE", "CONNECT", "TRACE">>

-----------------------------------------------------------------------------
(* The path of a route in a group.                                             *)

CleanPath(s) == "/" \o JoinSeq(SelectSeq(Split(s, "/"), LAMBDA x : x # ""), "/")
JoinPaths(abs, rel) ==
  IF rel = "" THEN abs
  ELSE LET p == CleanPath(abs \o "/" \o rel) IN IF HasSuffix(rel, "/") /\ ~HasSuffix(p, "/") THEN p \o "/" ELSE p
FullPath(reg) == JoinPaths(JoinPaths("/", reg.group), reg.path)

\* What a registration adds to the routes.
Registered(reg) ==
  CASE reg.kind = "handle" -> << [method |-> reg.method, path |-> FullPath(reg), h |-> reg.h] >>
    [] reg.kind = "any" -> [i \in 1..Len(AnyMethods) |-> [method |-> AnyMethods[i], path |-> FullPath(reg), h |-> reg.h]]
    [] reg.kind = "static" -> LET p == JoinPaths(FullPath(reg), "/*filepath")
                              IN  << [method |-> "GET", path |-> p, h |-> 0], [method |-> "HEAD", path |-> p, h |-> 0] >>

-----------------------------------------------------------------------------
(* Rules.                                                                      *)

RECURSIVE MatchFrom(_, _, _, _)
MatchFrom(atoms, end, s, i) ==
  IF atoms = <<>> THEN (end => i = Len(s) + 1)
  ELSE LET a == atoms[1]
           rest == Tail(atoms)
       IN  CASE a.k = "lit" -> /\ i + Len(a.v) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(a.v) - 1) = a.v
                               /\ MatchFrom(rest, end, s, i + Len(a.v))
             [] a.k = "any" -> \E j \in i..(Len(s) + 1) : MatchFrom(rest, end, s, j)
             [] a.k = "seg" -> \E j \in (i + 1)..(Len(s) + 1) : (\A k \in i..(j - 1) : Ch(s, k) # "/") /\ MatchFrom(rest, end, s, j)

HasPart(s, v) == \E i \in 1..(Len(s) + 1) : i + Len(v) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(v) - 1) = v

Denies(d, path) ==
  CASE d.k = "exact" -> path = d.v
    [] d.k = "prefix" -> HasPrefix(path, d.v)
    [] d.k = "suffix" -> HasSuffix(path, d.v)
    [] d.k = "contains" -> HasPart(path, d.v)
    [] d.k = "regex" -> IF d.start THEN MatchFrom(d.atoms, d.end, path, 1) ELSE \E i \in 1..(Len(path) + 1) : MatchFrom(d.atoms, d.end, path, i)

Denied(denies, path) == \E i \in DOMAIN denies : Denies(denies[i], path)

-----------------------------------------------------------------------------
(* The routes of the service, one registration after the other.                *)

AddRegistration(routes, denies, reg) == routes \o SelectSeq(Registered(reg), LAMBDA r : ~Denied(denies, r.path))
ServiceRoutes(regs, denies) == FoldLeft(LAMBDA a, reg : AddRegistration(a, denies, reg), <<>>, regs)
=============================================================================
