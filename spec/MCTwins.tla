------------------------------- MODULE MCTwins -------------------------------
(***************************************************************************)
(* Under one response key, every member of a union selects one of Menu, which  *)
(* are fields of like and unlike types, __typename or nothing: so that every   *)
(* two ways to differ meet, and every two to be the same.  TLC checks that     *)
(*  - all of it is valid, since no object has two meanings for a key;          *)
(*  - the reference compiler's module is accepted;                             *)
(* and prints a document for each, with and without __typename beside it.      *)
(***************************************************************************)
EXTENDS Compiler, Json
CONSTANTS Menu, Variant
VARIABLES sel

Fld(x, n) == [w |-> x, n |-> n, d |-> FALSE, doc |-> <<>>, hostile |-> FALSE]
Ty(k, f, poss, vals) == [k |-> k, f |-> f, poss |-> poss, vals |-> vals, doc |-> <<>>, hostile |-> FALSE]
Empty == [x \in {} |-> 0]
Fields ==
  [ id |-> Fld(<<"N">>, "ID"), str |-> Fld(<<"N">>, "String"), int |-> Fld(<<"N">>, "Int"), float |-> Fld(<<"N">>, "Float"),
    bool |-> Fld(<<"N">>, "Boolean"), date |-> Fld(<<"N">>, "Date"), url |-> Fld(<<"N">>, "Url"),
    color |-> Fld(<<"N">>, "Color"), mood |-> Fld(<<"N">>, "Mood"), maybe |-> Fld(<<>>, "Color"),
    colors |-> Fld(<<"N", "L", "N">>, "Color"), gaps |-> Fld(<<"N", "L">>, "Color"), deep |-> Fld(<<"N", "L", "N", "L", "N">>, "Color"),
    box |-> Fld(<<"N">>, "Box"), bin |-> Fld(<<"N">>, "Bin"), any |-> Fld(<<"N">>, "Held"), mbox |-> Fld(<<>>, "Box"),
    boxes |-> Fld(<<"N", "L", "N">>, "Box") ]
Members == <<"Cat", "Dog", "Egg">>
Scalar == Ty("SCALAR", Empty, <<>>, <<>>)
S == [ Query |-> Ty("OBJECT", [pets |-> Fld(<<"N", "L", "N">>, "Pet"), size |-> Fld(<<>>, "Int")], <<>>, <<>>),
       Pet |-> Ty("UNION", Empty, <<"Dog", "Egg", "Cat">>, <<>>),
       Cat |-> Ty("OBJECT", Fields, <<>>, <<>>), Dog |-> Ty("OBJECT", Fields, <<>>, <<>>), Egg |-> Ty("OBJECT", Fields, <<>>, <<>>),
       Held |-> Ty("INTERFACE", [x |-> Fld(<<"N">>, "Int")], <<"Bin", "Box">>, <<>>),
       Box |-> Ty("OBJECT", [x |-> Fld(<<"N">>, "Int"), y |-> Fld(<<"N">>, "Int")], <<>>, <<>>),
       Bin |-> Ty("OBJECT", [x |-> Fld(<<"N">>, "Int"), y |-> Fld(<<"N">>, "String")], <<>>, <<>>),
       Color |-> Ty("ENUM", Empty, <<>>, <<"RED", "BLUE">>), Mood |-> Ty("ENUM", Empty, <<>>, <<"RED", "BLUE">>),
       Date |-> Scalar, Url |-> Scalar, Int |-> Scalar, String |-> Scalar, ID |-> Scalar, Boolean |-> Scalar, Float |-> Scalar ]
F == [x \in {} |-> 0]

P == <<1, 1>>
As(key, name, s) == [k |-> "f", key |-> key, name |-> name, args |-> "", sel |-> s, pos |-> P]
On(t, s) == [k |-> "i", on |-> t, sel |-> s, pos |-> P]
X == As("x", "x", <<>>)
\* what stands under the key k
Under(c) ==
  CASE c = "none"   -> <<>>
    [] c = "typename" -> <<As("k", "__typename", <<>>)>>
    [] c = "boxy"   -> <<As("k", "box", <<As("x", "y", <<>>)>>)>>
    [] c = "biny"   -> <<As("k", "bin", <<As("x", "y", <<>>)>>)>>
    [] c = "boxes"  -> <<As("k", "boxes", <<X>>)>>
    [] c = "anyof"  -> <<As("k", "any", <<On("Box", <<X>>)>>)>>
    [] c = "more"   -> <<As("k", "box", <<X>>), As("k2", "int", <<>>)>>
    [] c = "twice"  -> <<As("k", "box", <<X>>), As("k", "box", <<As("y", "y", <<>>)>>)>>
    [] c \in {"box", "bin", "any", "mbox"} -> <<As("k", c, <<X>>)>>
    [] OTHER -> <<As("k", c, <<>>)>>
All == DOMAIN Fields \cup {"none", "typename", "boxy", "biny", "anyof", "more", "twice"}
Some == {"id", "int", "str", "date", "url", "color", "mood", "gaps", "box", "biny", "typename", "none"}

Main(n) == On(Members[n], IF Under(sel[n]) = <<>> THEN <<As("__typename", "__typename", <<>>)>> ELSE Under(sel[n]))
Doc(typed) ==
  [op |-> "query", name |-> "Q", on |-> "", vars |-> <<>>, pos |-> P,
   sel |-> <<As("pets", "pets", (IF typed THEN <<As("__typename", "__typename", <<>>)>> ELSE <<>>) \o [n \in 1..Len(sel) |-> Main(n)])>>]
Cfg == [readonly |-> TRUE, scalars |-> TRUE, scalarPrefix |-> "", nodeModule |-> "node", globalsModule |-> "globals"]

Init == sel = <<>>
Next == \E c \in Menu : Len(sel) < Len(Members) /\ sel' = Append(sel, c)
Spec == Init /\ [][Next]_sel

Docs == IF sel = <<>> THEN {} ELSE {Doc(TRUE), Doc(FALSE)}
Valid == \A d \in Docs : Verdict(S, F, d).class = "ok"
Meetable == \A d \in Docs : Acceptable(S, F, Cfg, Emit(S, F, Cfg, d, Variant), d)
Cases == \A d \in Docs : PrintT("CASE " \o ToJson(d))
Given0 == PrintT("GIVEN " \o ToJson([S |-> S, F |-> F]))
ASSUME Given0
=============================================================================
