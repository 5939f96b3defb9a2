------------------------------- MODULE MCNames -------------------------------
(***************************************************************************)
(* Every pair of names over a few letters, written letter by letter.  TLC      *)
(* checks that Diagnostics!Distance counts the fewest edits that lead from one  *)
(* to the other, by making the edits one after the other, and that it is a       *)
(* metric; that other well-known distances are not it; and prints each name.      *)
(* The real compiler is asked for each name where others are declared.           *)
(***************************************************************************)
EXTENDS Diagnostics, Json
CONSTANTS Most, Alphabet, Variant
VARIABLES a, b
Init == a = "" /\ b = ""
Next == \E c \in Alphabet : \/ b = "" /\ Len(a) < Most /\ a' = a \o c /\ b' = b
                            \/ Len(b) < Most /\ b' = b \o c /\ a' = a
Spec == Init /\ [][Next]_<<a, b>>

\* What one edit makes of a name
Cut(s, i, j) == SubSeq(s, i, j)
Edits(s) ==
  {Cut(s, 1, i) \o c \o Cut(s, i + 1, Len(s)) : i \in 0..Len(s), c \in Alphabet}
  \cup {Cut(s, 1, i - 1) \o Cut(s, i + 1, Len(s)) : i \in 1..Len(s)}
  \cup {Cut(s, 1, i - 1) \o c \o Cut(s, i + 1, Len(s)) : i \in 1..Len(s), c \in Alphabet}
  \cup {Cut(s, 1, i - 1) \o At(s, i + 1) \o At(s, i) \o Cut(s, i + 2, Len(s)) : i \in 1..(Len(s) - 1)}
Edits2(s) == UNION {Edits(x) : x \in Edits(s)}

\* Exchanges count only where nothing else has happened
RECURSIVE Restricted(_, _)
Restricted(x, y) ==
  IF x = "" THEN Len(y) ELSE IF y = "" THEN Len(x)
  ELSE LET p == Drop(x, 1)
           q == Drop(y, 1)
       IN  MinOf({Restricted(p, y) + 1, Restricted(x, q) + 1, Restricted(p, q) + (IF At(x, 1) = At(y, 1) THEN 0 ELSE 1)}
                 \cup (IF Variant = "restricted" /\ Len(x) > 1 /\ Len(y) > 1 /\ At(x, 1) = At(y, 2) /\ At(x, 2) = At(y, 1)
                       THEN {Restricted(Drop(x, 2), Drop(y, 2)) + 1} ELSE {}))
Dist(x, y) == IF Variant = "right" THEN Distance(x, y) ELSE Restricted(x, y)
IsNear(x, y) == CASE Variant = "prefix" -> HasPrefix(x, SubSeq(y, 1, Len(y) - 1)) [] OTHER -> Dist(x, y) < 3

Fewest ==
  LET d == Dist(a, b) IN
  /\ (d = 0) <=> (a = b)
  /\ (d = 1) <=> (a # b /\ b \in Edits(a))
  /\ (d = 2) <=> (a # b /\ b \notin Edits(a) /\ b \in Edits2(a))
Metric ==
  /\ Dist(a, b) = Dist(b, a)
  /\ \A x \in {"", a} \cup Edits(a) : Dist(a, b) <= Dist(a, x) + Dist(x, b)
\* the quick exclusion by length excludes nothing that is near
Close == a # "" /\ b # "" => (b \in Near(a, {b})) = (Distance(a, b) < 3)
Cases == (b = "" /\ a # "") => PrintT("CASE " \o ToJson([n |-> a]))
=============================================================================
