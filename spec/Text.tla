------------------------------- MODULE Text -------------------------------
(* Strings, paths and small sequence helpers. TLC treats strings as        *)
(* sequences for Len, SubSeq and \o.                                        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Range(s) == {s[i] : i \in 1..Len(s)}

At(s, i) == SubSeq(s, i, i)
HasPrefix(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
HasSuffix(s, p) == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
Drop(s, n) == SubSeq(s, n + 1, Len(s))

IsBlank(s) == \A i \in 1..Len(s) : At(s, i) \in {" ", "\t", "\r"}

\* Index of the last occurrence of character c, 0 if none
LastIndex(s, c) ==
  LET at == {i \in 1..Len(s) : At(s, i) = c}
  IN  IF at = {} THEN 0 ELSE CHOOSE i \in at : \A j \in at : j <= i

RECURSIVE SplitFrom(_, _, _, _)
SplitFrom(s, c, from, i) ==
  IF i > Len(s) THEN <<SubSeq(s, from, Len(s))>>
  ELSE IF At(s, i) = c THEN <<SubSeq(s, from, i - 1)>> \o SplitFrom(s, c, i + 1, i + 1)
  ELSE SplitFrom(s, c, from, i + 1)
Split(s, c) == SplitFrom(s, c, 1, 1)

RECURSIVE NormParts(_, _)
NormParts(done, todo) ==
  IF todo = <<>> THEN done
  ELSE LET h == Head(todo)
       IN  IF h = "" \/ h = "." THEN NormParts(done, Tail(todo))
           ELSE IF h = ".." /\ done # <<>> /\ done[Len(done)] # ".."
                THEN NormParts(SubSeq(done, 1, Len(done) - 1), Tail(todo))
           ELSE NormParts(Append(done, h), Tail(todo))

RECURSIVE JoinParts(_)
JoinParts(ps) ==
  IF ps = <<>> THEN "" ELSE IF Len(ps) = 1 THEN ps[1] ELSE ps[1] \o "/" \o JoinParts(Tail(ps))

\* The absolute name of the working directory in recorded paths
Cwd == "/W/"

\* The path with . and .. resolved, relative to the working directory
Normal(p) == JoinParts(NormParts(<<>>, Split(IF HasPrefix(p, Cwd) THEN Drop(p, Len(Cwd)) ELSE p, "/")))

BaseName(p) == Drop(p, LastIndex(p, "/"))
DirName(p) == LET i == LastIndex(p, "/") IN IF i = 0 THEN "" ELSE SubSeq(p, 1, i - 1)
Join(d, p) == IF d = "" THEN p ELSE d \o "/" \o p

\* Bags as functions from elements to positive counts
BagOf(s) == TLCEval([e \in Range(s) |-> Cardinality({i \in 1..Len(s) : s[i] = e})])
SubBag(a, b) == \A e \in DOMAIN a : e \in DOMAIN b /\ a[e] <= b[e]

RECURSIVE FlattenSeq2(_)
FlattenSeq2(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o FlattenSeq2(Tail(ss))
=============================================================================
