-------------------------------- MODULE MCText --------------------------------
(***************************************************************************)
(* Every description of up to Most characters out of those that matter to a   *)
(* comment, written character by character ("n" stands for a new line).        *)
(* Comment is how the compiler puts one into a module.  TLC checks that the     *)
(* comment ends where it should and keeps the description's words, and that      *)
(* wrong ways to write it do not, and prints each description; the real          *)
(* compiler is given all of them, on fields, input fields and enums.             *)
(***************************************************************************)
EXTENDS Text, Json
CONSTANTS Most, Alphabet, Variant
VARIABLE text
Init == text = <<>>
Next == Len(text) < Most /\ \E c \in Alphabet : text' = Append(text, c)
Spec == Init /\ [][Next]_text

\* The text with every a, b in a row left out, from left to right
RECURSIVE Without(_, _, _)
Without(s, a, b) ==
  IF Len(s) < 2 THEN s
  ELSE IF s[1] = a /\ s[2] = b THEN Without(SubSeq(s, 3, Len(s)), a, b)
  ELSE <<s[1]>> \o Without(Tail(s), a, b)
Holds(s, a, b) == \E i \in 1..(Len(s) - 1) : s[i] = a /\ s[i + 1] = b
RECURSIVE WithoutAny(_, _, _)
WithoutAny(s, a, b) == IF Holds(s, a, b) THEN WithoutAny(Without(s, a, b), a, b) ELSE s
RECURSIVE Lines(_)
Lines(s) ==
  LET at == {i \in 1..Len(s) : s[i] = "n"} IN
  IF at = {} THEN <<s>> ELSE LET i == CHOOSE x \in at : \A y \in at : x <= y IN <<SubSeq(s, 1, i - 1)>> \o Lines(SubSeq(s, i + 1, Len(s)))
RECURSIVE Margin(_)
Margin(s) == IF s = <<>> THEN <<>> ELSE (IF Head(s) = "n" THEN <<"n", " ", "*", " ">> ELSE <<Head(s)>>) \o Margin(Tail(s))

Body(d) ==
  CASE Variant = "as-is" -> Margin(d)
    [] Variant = "once" -> Without(Without(Margin(d), "/", "*"), "*", "/")
    [] Variant = "opening-only" -> WithoutAny(Margin(d), "/", "*")
    [] Variant = "whole-lines" -> Margin(FlattenSeq2([i \in 1..Len(Lines(d)) |->
          (IF Holds(Lines(d)[i], "*", "/") THEN <<>> ELSE Lines(d)[i]) \o (IF i < Len(Lines(d)) THEN <<"n">> ELSE <<>>)]))
    [] OTHER -> WithoutAny(Without(Margin(d), "/", "*"), "*", "/")
Comment(d) ==
  CASE Variant = "tight" -> <<"/", "*", "*">> \o WithoutAny(d, "*", "/") \o <<"*", "/">>
    [] Variant = "bare-lines" -> <<"/", "*", "*", "n">> \o WithoutAny(d, "*", "/") \o <<"n", "*", "/">>
    [] OTHER -> <<"/", "*", "*", "n", " ", "*", " ">> \o Body(d) \o <<"n", " ", "*", "/">>

\* Where a scanner takes the comment to end
Ends(c) == LET at == {i \in 4..Len(c) : c[i - 1] = "*" /\ c[i] = "/"} IN IF at = {} THEN 0 ELSE CHOOSE x \in at : \A y \in at : x <= y
Word(s) == SelectSeq(s, LAMBDA x : x \notin {"*", "/", "n", " "})
Trim(s) == SelectSeq(s, LAMBDA x : x # " ")
\* The lines a reader of the comment sees
Seen(c) == [i \in 1..Len(Lines(c)) |-> LET l == Trim(Lines(c)[i]) IN IF l # <<>> /\ l[1] = "*" THEN Tail(l) ELSE l]

Closed == Ends(Comment(text)) = Len(Comment(text))
Kept == Word(Comment(text)) = Word(text)
Harmless == Range(text) \cap {"*", "/"} = {}
Verbatim ==
  Harmless => SelectSeq(SubSeq(Seen(Comment(text)), 2, Len(Seen(Comment(text))) - 1), LAMBDA l : l # <<>>)
              = SelectSeq([i \in 1..Len(Lines(text)) |-> Trim(Lines(text)[i])], LAMBDA l : l # <<>>)
Cases == PrintT("CASE " \o ToJson([t |-> text]))
=============================================================================
