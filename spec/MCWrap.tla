-------------------------------- MODULE MCWrap --------------------------------
(***************************************************************************)
(* Every nesting of lists and non-nulls of up to Deep lists, on every kind   *)
(* of type, of output fields, input fields and variables.  TLC checks that    *)
(*  - the wrappers can be read off the TypeScript type they lead to, and      *)
(*    those of no other type are accepted in their place;                     *)
(*  - variables are rejected exactly for a list of lists or for their type;   *)
(*  - the reference compiler's module is accepted;                            *)
(* and prints a document for each.                                           *)
(***************************************************************************)
EXTENDS Compiler, Json
CONSTANTS Deep, Variant
VARIABLES w, step

\* All wrapper sequences with at most n lists, non-nulls never twice in a row
RECURSIVE Wraps(_)
Wraps(n) ==
  IF n = 0 THEN {<<>>, <<"N">>}
  ELSE Wraps(0) \cup UNION {{<<"L">> \o x, <<"N", "L">> \o x} : x \in Wraps(n - 1)}
All == Wraps(Deep)

RECURSIVE Spell(_)
Spell(x) == IF x = <<>> THEN "" ELSE Head(x) \o Spell(Tail(x))

Fld(x, n) == [w |-> x, n |-> n, d |-> FALSE, doc |-> <<>>, hostile |-> FALSE]
Ty(k, f, poss, vals) == [k |-> k, f |-> f, poss |-> poss, vals |-> vals, doc |-> <<>>, hostile |-> FALSE]
Empty == [x \in {} |-> 0]
Outputs == {"Int", "ID", "Date", "Color", "Obj", "Pet"}
Inputs == {"Boolean", "Date", "Color", "Filter", "Filter2"}
Variables0 == {"Float", "String", "Date", "Color", "Filter"}
WrongVariables == {"Obj", "Pet", "Nope"}
Name(x, n) == "f" \o Spell(x) \o n
FieldsOf(kinds) ==
  LET ps == All \X kinds
      name(p) == Name(p[1], p[2])
  IN  [n \in {name(p) : p \in ps} |-> LET p == CHOOSE q \in ps : name(q) = n IN Fld(p[1], p[2])]
S == [ Query |-> Ty("OBJECT", FieldsOf(Outputs), <<>>, <<>>),
       Obj |-> Ty("OBJECT", [x |-> Fld(<<>>, "Int")], <<>>, <<>>),
       Egg |-> Ty("OBJECT", [x |-> Fld(<<>>, "Int")], <<>>, <<>>),
       Pet |-> Ty("UNION", Empty, <<"Obj", "Egg">>, <<>>),
       Filter |-> Ty("INPUT_OBJECT", FieldsOf(Inputs), <<>>, <<>>),
       Filter2 |-> Ty("INPUT_OBJECT", [x |-> Fld(<<>>, "Int")], <<>>, <<>>),
       Color |-> Ty("ENUM", Empty, <<>>, <<"RED", "BLUE">>),
       Date |-> Ty("SCALAR", Empty, <<>>, <<>>),
       Int |-> Ty("SCALAR", Empty, <<>>, <<>>), String |-> Ty("SCALAR", Empty, <<>>, <<>>), ID |-> Ty("SCALAR", Empty, <<>>, <<>>),
       Boolean |-> Ty("SCALAR", Empty, <<>>, <<>>), Float |-> Ty("SCALAR", Empty, <<>>, <<>>) ]
F == [x \in {} |-> 0]

P == <<1, 1>>
L(key, name, s) == [k |-> "f", key |-> key, name |-> name, args |-> "", sel |-> s, pos |-> P]
T0name == L("__typename", "__typename", <<>>)
Selected(x, n) == L(Name(x, n), Name(x, n), IF IsCompositeType(S, n) THEN <<T0name>> ELSE <<>>)
Query(vars, s) == [op |-> "query", name |-> "Q", on |-> "", vars |-> vars, pos |-> P, sel |-> s]
OutDoc(x, n) == Query(<<>>, <<Selected(x, n)>>)
VarDoc(x, n) == Query(<<[name |-> "v", w |-> x, n |-> n, pos |-> P]>>, <<T0name>>)
Docs(x) == {OutDoc(x, n) : n \in Outputs} \cup {VarDoc(x, n) : n \in Variables0 \cup WrongVariables}
Cfg == [readonly |-> TRUE, scalars |-> FALSE, scalarPrefix |-> "", nodeModule |-> "node", globalsModule |-> "globals"]

\* a wrapper sequence is written from the outside in
Init == w = <<>> /\ step = 0
Doubled(x) == x = "N" /\ (IF w = <<>> THEN FALSE ELSE w[Len(w)] = "N")
Grow(x) == ~Doubled(x) /\ Append(w, x) \in All /\ w' = Append(w, x) /\ step' = step + 1
Next == \E x \in {"N", "L"} : Grow(x)
Spec == Init /\ [][Next]_<<w, step>>

Reached == TLCGet("stats").distinct = Cardinality(All)
Told == \A x \in All : Peel(WrapType(Kw("any"), x), w).ok <=> x = w
Rejected ==
  /\ \A n \in Variables0 : (Verdict(S, F, VarDoc(w, n)).class = "fail") <=> ListDepth(w) > 1
  /\ \A n \in WrongVariables : Verdict(S, F, VarDoc(w, n)).class = "fail"
  /\ \A n \in Outputs : Verdict(S, F, OutDoc(w, n)).class = "ok"
Meetable == \A d \in Docs(w) : Verdict(S, F, d).class = "ok" => Acceptable(S, F, Cfg, Emit(S, F, Cfg, d, Variant), d)
GlobalsMeetable ==
  \A M \in {EmitGlobals(S, Cfg, {"Filter", "Filter2", "Color"}, Variant)} :
    GlobalsOk(S, Cfg, {"keys", "wrap", "scalar", "base", "doc"}, M) /\ GlobalsWellFormed(S, Cfg, M)
Cases == \A d \in Docs(w) : PrintT("CASE " \o ToJson(d))
Given0 == PrintT("GIVEN " \o ToJson([S |-> S, F |-> F]))
ASSUME Given0
=============================================================================
