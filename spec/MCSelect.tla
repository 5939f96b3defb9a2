------------------------------ MODULE MCSelect ------------------------------
(***************************************************************************)
(* Every selection set of up to Most items out of a given menu, on an         *)
(* interface or on a union of a small schema, written item by item.  TLC      *)
(* checks on each that                                                        *)
(*  - a valid one has an outcome that Module accepts (the reference           *)
(*    compiler's), so nothing contradictory is demanded;                      *)
(*  - the order and the repetition of the items do not change what an object  *)
(*    of any type is given;                                                   *)
(* and prints it; the real compiler is run on all of them.                    *)
(***************************************************************************)
EXTENDS Compiler, Json
CONSTANTS Most, Variant, Clean   \* Clean: only items without mistakes
VARIABLES on, sel

Fld(w, n) == [w |-> w, n |-> n, d |-> FALSE, doc |-> <<>>, hostile |-> FALSE]
Ty(k, f, poss, vals) == [k |-> k, f |-> f, poss |-> poss, vals |-> vals, doc |-> <<>>, hostile |-> FALSE]
Empty == [x \in {} |-> 0]
S == [ Query  |-> Ty("OBJECT", [node |-> Fld(<<>>, "Node"), pets |-> Fld(<<"N", "L", "N">>, "Pet"), size |-> Fld(<<>>, "Int")], <<>>, <<>>),
       Node   |-> Ty("INTERFACE", [id |-> Fld(<<"N">>, "ID"), color |-> Fld(<<>>, "Color"), next |-> Fld(<<"N">>, "Node"), kin |-> Fld(<<"L">>, "Node")], <<"Cat", "Dog", "Egg">>, <<>>),
       Pet    |-> Ty("UNION", Empty, <<"Dog", "Cat">>, <<>>),
       Cat    |-> Ty("OBJECT", [id |-> Fld(<<"N">>, "ID"), color |-> Fld(<<"N">>, "Color"), next |-> Fld(<<"N">>, "Node"), kin |-> Fld(<<"N", "L", "N">>, "Cat"), name |-> Fld(<<>>, "String")], <<>>, <<>>),
       Dog    |-> Ty("OBJECT", [id |-> Fld(<<"N">>, "ID"), color |-> Fld(<<>>, "Color"), next |-> Fld(<<"N">>, "Dog"), kin |-> Fld(<<"L">>, "Node"), name |-> Fld(<<"N">>, "String")], <<>>, <<>>),
       Egg    |-> Ty("OBJECT", [id |-> Fld(<<"N">>, "ID"), color |-> Fld(<<>>, "Color"), next |-> Fld(<<"N">>, "Node"), kin |-> Fld(<<"L">>, "Node")], <<>>, <<>>),
       Color  |-> Ty("ENUM", Empty, <<>>, <<"RED", "BLUE">>),
       Int |-> Ty("SCALAR", Empty, <<>>, <<>>), String |-> Ty("SCALAR", Empty, <<>>, <<>>), ID |-> Ty("SCALAR", Empty, <<>>, <<>>),
       Boolean |-> Ty("SCALAR", Empty, <<>>, <<>>), Float |-> Ty("SCALAR", Empty, <<>>, <<>>) ]

P == <<1, 1>>
L(name) == [k |-> "f", key |-> name, name |-> name, args |-> "", sel |-> <<>>, pos |-> P]
As(key, name) == [L(name) EXCEPT !.key = key]
O(name, s) == [L(name) EXCEPT !.sel = s]
On(t, s) == [k |-> "i", on |-> t, sel |-> s, pos |-> P]
Sp(n) == [k |-> "s", frag |-> n, sel |-> <<>>, pos |-> P]
Frag(name, t, s) == [op |-> "fragment", name |-> name, on |-> t, vars |-> <<>>, sel |-> s, pos |-> P]

F == [ FN |-> Frag("FN", "Node", <<L("id"), O("next", <<L("color")>>)>>),
       FC |-> Frag("FC", "Cat", <<L("name"), Sp("FN")>>),
       FP |-> Frag("FP", "Pet", <<L("__typename"), On("Dog", <<L("name")>>)>>) ]

Menu == { L("__typename"), As("t", "__typename"), L("id"), L("color"), As("a", "id"), As("a", "color"), L("nope"), L("next"),
          O("id", <<L("nope")>>), O("next", <<L("id")>>), O("next", <<L("__typename"), On("Dog", <<L("name")>>)>>),
          O("next", <<On("Egg", <<L("id")>>), On("Cat", <<L("color")>>)>>), O("kin", <<L("id")>>), O("kin", <<O("next", <<L("id")>>)>>),
          On("Cat", <<L("name")>>), On("Dog", <<L("name")>>), On("Cat", <<L("id"), L("__typename")>>), On("Egg", <<L("id")>>),
          On("Dog", <<O("next", <<L("name")>>)>>), On("Node", <<L("id")>>), On("Node", <<On("Pet", <<On("Cat", <<L("name")>>)>>)>>),
          On("Pet", <<L("__typename")>>), On("Node", <<O("next", <<On("Cat", <<L("name")>>)>>)>>), On("Query", <<L("size")>>),
          Sp("FN"), Sp("FC"), Sp("FP"), Sp("FX") }

Doc(t, s) ==
  [op |-> "query", name |-> "Q", on |-> "", vars |-> <<>>, pos |-> P,
   sel |-> <<IF t = "Node" THEN O("node", s) ELSE O("pets", s)>>]
Cfg == [readonly |-> TRUE, scalars |-> FALSE, scalarPrefix |-> "", nodeModule |-> "node", globalsModule |-> "globals"]

Init == on \in {"Node", "Pet"} /\ sel = <<>>
Add(x) == Len(sel) < Most /\ sel' = Append(sel, x) /\ UNCHANGED on
Fine(x) == Verdict(S, F, Doc(on, <<x>>)).class = "ok"
Next == \E x \in Menu : (Clean => Fine(x)) /\ Add(x)
Spec == Init /\ [][Next]_<<on, sel>>

D == Doc(on, sel)
V == Verdict(S, F, D)
\* what is demanded of a valid document can be met
Meetable == (sel # <<>> /\ V.class = "ok") => Acceptable(S, F, Cfg, Emit(S, F, Cfg, D, Variant), D)
Reverse(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
GivenKeys(s, rt) == Keys(Collect(S, F, <<[lex |-> on, sel |-> s]>>, rt))
Unordered ==
  /\ \A rt \in Poss(S, on) : GivenKeys(sel, rt) = GivenKeys(Reverse(sel), rt) /\ GivenKeys(sel, rt) = GivenKeys(sel \o sel, rt)
  /\ V.class = Verdict(S, F, Doc(on, Reverse(sel))).class
  /\ V.class # "fail" => V.class = Verdict(S, F, Doc(on, sel \o sel)).class
\* a mistake stays a mistake whatever is added before it
Cases == sel # <<>> => PrintT("CASE " \o ToJson(D))
Given0 == PrintT("GIVEN " \o ToJson([S |-> S, F |-> F]))
ASSUME Given0
=============================================================================
