------------------------------- MODULE Strings -------------------------------
(* Strings as sequences of characters: paths, package paths, prefixes.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Ch(s, i) == SubSeq(s, i, i)
From(s, i) == SubSeq(s, i, Len(s))

RECURSIVE SplitFrom(_, _, _, _)
SplitFrom(s, sep, i, start) ==
  IF i > Len(s) THEN << SubSeq(s, start, Len(s)) >>
  ELSE IF Ch(s, i) = sep THEN << SubSeq(s, start, i - 1) >> \o SplitFrom(s, sep, i + 1, i + 1)
  ELSE SplitFrom(s, sep, i + 1, start)

Split(s, sep) == SplitFrom(s, sep, 1, 1)

RECURSIVE JoinSeq(_, _)
JoinSeq(ss, sep) ==
  IF ss = <<>> THEN ""
  ELSE IF Len(ss) = 1 THEN ss[1]
  ELSE ss[1] \o sep \o JoinSeq(Tail(ss), sep)

LastOf(ss) == ss[Len(ss)]

HasSuffix(s, suf) == Len(s) >= Len(suf) /\ SubSeq(s, Len(s) - Len(suf) + 1, Len(s)) = suf
HasPrefix(s, pre) == Len(s) >= Len(pre) /\ SubSeq(s, 1, Len(pre)) = pre

\* Replace the first occurrence of a (non-empty) pattern.
RECURSIVE ReplaceFirstAt(_, _, _, _)
ReplaceFirstAt(s, pat, rep, i) ==
  IF i + Len(pat) - 1 > Len(s) THEN s
  ELSE IF SubSeq(s, i, i + Len(pat) - 1) = pat
       THEN SubSeq(s, 1, i - 1) \o rep \o SubSeq(s, i + Len(pat), Len(s))
       ELSE ReplaceFirstAt(s, pat, rep, i + 1)
ReplaceFirst(s, pat, rep) == ReplaceFirstAt(s, pat, rep, 1)

Upper == <<"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z">>
LowerC == <<"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z">>
ToLowerChar(c) == IF \E k \in 1..26 : Upper[k] = c THEN LowerC[CHOOSE k \in 1..26 : Upper[k] = c] ELSE c
LowerFirst(s) == IF s = "" THEN "" ELSE ToLowerChar(Ch(s, 1)) \o From(s, 2)
RECURSIVE LowerAll(_)
LowerAll(s) == IF s = "" THEN "" ELSE ToLowerChar(Ch(s, 1)) \o LowerAll(From(s, 2))

-----------------------------------------------------------------------------
(* Route paths.  A path is cut into literal pieces and parameters: a ':' or a  *)
(* '*' that is followed by at least one character other than '/' starts a      *)
(* parameter, that extends to the next '/'.                                    *)

RECURSIVE EndOfParam(_, _)
EndOfParam(s, i) == IF i > Len(s) THEN i ELSE IF Ch(s, i) = "/" THEN i ELSE EndOfParam(s, i + 1)

RECURSIVE Pieces(_, _, _)
Pieces(s, i, start) ==
  LET lit == IF start < i THEN << [k |-> "lit", v |-> SubSeq(s, start, i - 1)] >> ELSE <<>>
  IN  IF i > Len(s) THEN lit
      ELSE IF Ch(s, i) \in {":", "*"} /\ i < Len(s) /\ Ch(s, i + 1) # "/"
           THEN LET e == EndOfParam(s, i + 1)
                IN  lit \o << [k |-> IF Ch(s, i) = ":" THEN "par" ELSE "wild", v |-> SubSeq(s, i + 1, e - 1)] >>
                        \o Pieces(s, e, e)
           ELSE Pieces(s, i + 1, start)

PathPieces(s) == Pieces(s, 1, 1)

RECURSIVE TemplateOf(_)
TemplateOf(ps) ==
  IF ps = <<>> THEN ""
  ELSE (CASE ps[1].k = "lit" -> ps[1].v
          [] ps[1].k = "par" -> "{" \o ps[1].v \o "}"
          [] ps[1].k = "wild" -> "{" \o ps[1].v \o "*}") \o TemplateOf(Tail(ps))

\* The path of the document.
Template(path) == TemplateOf(PathPieces(path))

\* The parameters of a path: <<[name, req]>>
PathParamsOf(path) == LET ps == SelectSeq(PathPieces(path), LAMBDA p : p.k # "lit")
                      IN  [i \in 1..Len(ps) |-> [name |-> ps[i].v, req |-> ps[i].k = "par"]]
=============================================================================
