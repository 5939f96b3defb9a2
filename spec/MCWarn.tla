-------------------------------- MODULE MCWarn --------------------------------
(***************************************************************************)
(* Selections of deprecated fields and spreads that can match nothing, built   *)
(* inside out: an item is put under fields and type conditions and beside      *)
(* other items.  TLC checks that the warnings are those of the items by         *)
(* themselves with all conditions around them, whatever stands beside them,      *)
(* that deprecations add to the others and that none changes the verdict, and    *)
(* prints each document; the real compiler is run on all of them, with and         *)
(* without deprecation warnings.                                               *)
(***************************************************************************)
EXTENDS Compiler, Diagnostics, Json
CONSTANTS Most, Variant
VARIABLES on,       \* the type the items are selected on
          item, steps

Fld(w, n, d) == [w |-> w, n |-> n, d |-> d, doc |-> <<>>, hostile |-> FALSE]
Ty(k, f, poss, vals) == [k |-> k, f |-> f, poss |-> poss, vals |-> vals, doc |-> <<>>, hostile |-> FALSE]
Empty == [x \in {} |-> 0]
ID == Fld(<<"N">>, "ID", FALSE)
S == [ Query  |-> Ty("OBJECT", [node |-> Fld(<<>>, "Node", FALSE), pets |-> Fld(<<"N", "L", "N">>, "Pet", FALSE), was |-> Fld(<<>>, "Node", TRUE)], <<>>, <<>>),
       Node   |-> Ty("INTERFACE", [id |-> ID, old |-> Fld(<<>>, "Int", TRUE), next |-> Fld(<<"N">>, "Node", FALSE), prior |-> Fld(<<>>, "Node", TRUE)], <<"Cat", "Dog", "Egg">>, <<>>),
       Lone   |-> Ty("INTERFACE", [id |-> ID], <<"Egg">>, <<>>),
       Pet    |-> Ty("UNION", Empty, <<"Dog", "Cat">>, <<>>),
       \* an object need not agree with its interface on what is deprecated
       Cat    |-> Ty("OBJECT", [id |-> ID, old |-> Fld(<<>>, "Int", TRUE), next |-> Fld(<<"N">>, "Node", FALSE), prior |-> Fld(<<>>, "Node", FALSE), name |-> Fld(<<>>, "String", TRUE)], <<>>, <<>>),
       Dog    |-> Ty("OBJECT", [id |-> ID, old |-> Fld(<<>>, "Int", FALSE), next |-> Fld(<<"N">>, "Dog", TRUE), prior |-> Fld(<<>>, "Cat", TRUE), name |-> Fld(<<"N">>, "String", FALSE)], <<>>, <<>>),
       Egg    |-> Ty("OBJECT", [id |-> ID, old |-> Fld(<<>>, "Int", TRUE), next |-> Fld(<<"N">>, "Node", FALSE), prior |-> Fld(<<>>, "Node", TRUE)], <<>>, <<>>),
       Int |-> Ty("SCALAR", Empty, <<>>, <<>>), String |-> Ty("SCALAR", Empty, <<>>, <<>>), ID |-> Ty("SCALAR", Empty, <<>>, <<>>),
       Boolean |-> Ty("SCALAR", Empty, <<>>, <<>>), Float |-> Ty("SCALAR", Empty, <<>>, <<>>) ]
L(name) == [k |-> "f", key |-> name, name |-> name, args |-> "", sel |-> <<>>, pos |-> <<1, 1>>]
As(key, name) == [L(name) EXCEPT !.key = key]
O(name, s) == [L(name) EXCEPT !.sel = s]
On(t, s) == [k |-> "i", on |-> t, sel |-> s, pos |-> <<1, 1>>]
Sp(n) == [k |-> "s", frag |-> n, sel |-> <<>>, pos |-> <<1, 1>>]
Frag(name, t, s) == [op |-> "fragment", name |-> name, on |-> t, vars |-> <<>>, sel |-> s, pos |-> <<1, 1>>]
\* what is written in a fragment is warned about in its own file
F == [ FN |-> Frag("FN", "Node", <<L("id"), L("old")>>),
       FC |-> Frag("FC", "Cat", <<L("name"), On("Dog", <<L("id")>>), Sp("FE")>>),
       FE |-> Frag("FE", "Egg", <<O("prior", <<L("old")>>)>>) ]

Types == {"Node", "Lone", "Pet", "Cat", "Dog", "Egg"}
Leaves == {L("id"), L("old"), As("o", "old"), L("name"), Sp("FN"), Sp("FC"), Sp("FE")}
Beside == {L("id"), L("old"), Sp("FC"), On("Egg", <<L("old")>>)}
Init == /\ item \in {<<x>> : x \in Leaves} /\ on \in {"Node", "Pet"} /\ steps = 0
Wrap(s) == item' = <<s>>
Next ==
  /\ steps < Most /\ steps' = steps + 1 /\ UNCHANGED on
  /\ \/ \E t \in Types : Wrap(On(t, item))
     \/ \E f \in {"next", "prior"} : Wrap(O(f, item))
     \/ \E x \in Beside : item' = Append(item, x) \/ (Len(item) = 1 /\ item' = <<x>> \o item)
Spec == Init /\ [][Next]_<<on, item, steps>>

Doc(s) == [op |-> "query", name |-> "Q", on |-> "", vars |-> <<>>, pos |-> <<1, 1>>,
           sel |-> IF on = "Node" THEN <<O("node", s), O("was", <<L("__typename")>>)>> ELSE <<O("pets", s)>>]
\* the document with each item's place in it for a position
RECURSIVE Placed(_, _)
Placed(s, at) == [i \in 1..Len(s) |-> [s[i] EXCEPT !.pos = Append(at, i), !.sel = Placed(s[i].sel, Append(at, i))]]
D == [Doc(item) EXCEPT !.sel = Placed(Doc(item).sel, <<>>)]
V == Verdict(S, F, D)
Valid == V.class = "ok"

\* Every item of a selection with the types all conditions around it allow, and the type it is selected on
RECURSIVE Everything(_, _, _)
Everything(s, lex, conds) ==
  UNION {LET h == s[i] IN
         {[h |-> h, lex |-> lex, conds |-> conds]} \cup
         (CASE h.k = "f" -> IF h.sel = <<>> THEN {} ELSE Everything(h.sel, Decl(S, lex, h.name).n, <<Decl(S, lex, h.name).n>>)
            [] h.k = "i" -> Everything(h.sel, h.on, Append(conds, h.on))
            [] OTHER -> IF Variant = "foreign" THEN Everything(F[h.frag].sel, F[h.frag].on, Append(conds, F[h.frag].on)) ELSE {}) : i \in 1..Len(s)}
Allowed(conds) == IF Variant = "nearest" THEN Poss(S, conds[Len(conds)]) ELSE {t \in UNION {Poss(S, c) : c \in Range(conds)} : \A c \in Range(conds) : t \in Poss(S, c)}
Cond(h) == IF h.k = "i" THEN h.on ELSE F[h.frag].on
Deprecated(x) == x.h.k = "f" /\ (IF Variant = "interface" THEN \E t \in {x.lex} \cup Poss(S, x.lex) : HasField(S, t, x.h.name) /\ Decl(S, t, x.h.name).d
                                 ELSE Decl(S, x.lex, x.h.name).d)
Narrow(x) == x.h.k # "f" /\ Allowed(Append(x.conds, Cond(x.h))) \cap Allowed(x.conds) = {}
Due(depr) == {x.h.pos : x \in {y \in Everything(D.sel, "Query", <<"Query">>) : Narrow(y) \/ (depr /\ Deprecated(y))}}
W(d, depr) == WarningsOf(S, F, d.sel, "Query", Poss(S, "Query"), depr)
Exact == Valid => \A depr \in BOOLEAN : Range(W(D, depr)) = Due(depr) /\ Len(W(D, depr)) = Cardinality(Due(depr))
OnlyAdds == Valid => Range(W(D, FALSE)) \subseteq Range(W(D, TRUE)) /\ W(D, FALSE) = SelectSeq(W(D, TRUE), LAMBDA p : p \in Range(W(D, FALSE)))
\* the messages are about the same places
Named == Valid => \A depr \in BOOLEAN :
  LET m == Warned(S, F, D.sel, "Query", Poss(S, "Query"), depr) IN [i \in 1..Len(m) |-> m[i].pos] = W(D, depr)
Cases == PrintT("CASE " \o ToJson(Doc(item)))
Given0 == PrintT("GIVEN " \o ToJson([S |-> S, F |-> F]))
ASSUME Given0
=============================================================================
