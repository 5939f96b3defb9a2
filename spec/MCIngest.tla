------------------------------ MODULE MCIngest ------------------------------
(***************************************************************************)
(* Every change of one value (and of two, where both are named) inside an     *)
(* introspection result with types of every kind.  TLC checks that what       *)
(* changes nothing to a reader of GraphQL changes nothing here, that Meaning   *)
(* is defined for whatever is accepted, and prints each changed result with     *)
(* its verdict and meaning; the real program is run on all of them.           *)
(***************************************************************************)
EXTENDS Ingest, TLC, Json
CONSTANTS Variant, Most
VARIABLES edits, v

Str(s) == [j |-> "str", s |-> s]
Arr(a) == [j |-> "arr", a |-> a]
Obj(m) == [j |-> "obj", m |-> m]
No == [x \in {} |-> Null]
R(k, n) == Obj([kind |-> Str(k), name |-> Str(n), ofType |-> Null])
W(k, t) == Obj([kind |-> Str(k), name |-> Null, ofType |-> t])
Fd(n, t) == Obj([name |-> Str(n), description |-> Null, args |-> Arr(<<>>), type |-> t, isDeprecated |-> [j |-> "bool", b |-> FALSE]])
Ip(n, t) == Obj([name |-> Str(n), description |-> Str("given"), type |-> t, defaultValue |-> Null])
Nm(n) == Obj([name |-> Str(n)])
Ty(k, n, m) == Obj(m @@ [kind |-> Str(k), name |-> Str(n), description |-> Null])
Int == R("SCALAR", "Int")
Base ==
  Obj([data |-> Obj([__schema |-> Obj([queryType |-> Nm("Query"), directives |-> Arr(<<>>), types |-> Arr(<<
    Ty("OBJECT", "Query", [fields |-> Arr(<<Fd("a", W("NON_NULL", W("LIST", W("NON_NULL", Int)))), Fd("c", R("ENUM", "C")),
                                           Fd("i", W("LIST", R("INTERFACE", "I"))), Fd("u", R("UNION", "U"))>>),
                           interfaces |-> Arr(<<>>), inputFields |-> Null, enumValues |-> Null, possibleTypes |-> Null]),
    Ty("ENUM", "C", [enumValues |-> Arr(<<Nm("RED"), Nm("BLUE")>>)]),
    Ty("INTERFACE", "I", [fields |-> Arr(<<Fd("n", Int)>>), possibleTypes |-> Arr(<<Nm("O")>>)]),
    Ty("OBJECT", "O", [fields |-> Arr(<<Fd("n", W("NON_NULL", Int))>>), interfaces |-> Arr(<<R("INTERFACE", "I")>>)]),
    Ty("UNION", "U", [possibleTypes |-> Arr(<<Nm("O"), Nm("Query")>>)]),
    Ty("INPUT_OBJECT", "In", [inputFields |-> Arr(<<Ip("x", W("LIST", R("INPUT_OBJECT", "In"))), Ip("y", Int)>>)]),
    Ty("SCALAR", "Int", [specifiedByURL |-> Null]),
    Ty("SCALAR", "String", No), Ty("SCALAR", "Boolean", No), Ty("SCALAR", "D", [fields |-> Null]),
    Ty("OBJECT", "__Type", [fields |-> Arr(<<Fd("name", R("SCALAR", "String"))>>)]) >>)])])])

\* Keys that a reader has no use for are left alone
Unread == {"queryType", "directives", "interfaces", "args", "defaultValue", "specifiedByURL"}
\* A path is a sequence of <<key, 0>> and <<"", index>>
RECURSIVE Paths(_)
Paths(x) ==
  {<<>>} \cup
  (IF x.j = "obj" THEN UNION {{<<<<k, 0>>>> \o p : p \in Paths(x.m[k])} : k \in DOMAIN x.m \ Unread}
   ELSE IF x.j = "arr" THEN UNION {{<<<<"", i>>>> \o p : p \in Paths(x.a[i])} : i \in 1..Len(x.a)}
   ELSE {})
RECURSIVE Sub(_, _)
Sub(x, p) == IF p = <<>> THEN x ELSE IF x.j = "obj" THEN Sub(x.m[p[1][1]], Tail(p)) ELSE Sub(x.a[p[1][2]], Tail(p))

Changes == {"remove", "null", "num", "str", "arr", "obj", "true", "extra", "reverse"}
Change(x, c) ==
  CASE c = "null" -> Null [] c = "num" -> [j |-> "num"] [] c = "str" -> Str("WHAT") [] c = "arr" -> Arr(<<>>) [] c = "obj" -> Obj(No)
    [] c = "true" -> [j |-> "bool", b |-> TRUE]
    [] c = "extra" -> Obj(x.m @@ [extra |-> Arr(<<Null, Str("x")>>)])
    [] c = "reverse" -> Arr([i \in 1..Len(x.a) |-> x.a[Len(x.a) + 1 - i]])
    [] OTHER -> x
RECURSIVE Apply(_, _, _)
Apply(x, p, c) ==
  IF p = <<>> THEN Change(x, c)
  ELSE IF x.j = "arr" THEN Arr([x.a EXCEPT ![p[1][2]] = Apply(@, Tail(p), c)])
  ELSE LET k == p[1][1] IN
       IF c = "remove" /\ Len(p) = 1 THEN Obj([y \in DOMAIN x.m \ {k} |-> x.m[y]])
       ELSE Obj([x.m EXCEPT ![k] = Apply(@, Tail(p), c)])
Possible(x, p, c) ==
  CASE c = "remove" -> p # <<>> /\ p[Len(p)][1] # ""
    [] c = "extra" -> Sub(x, p).j = "obj"
    [] c = "reverse" -> Sub(x, p).j = "arr" /\ Len(Sub(x, p).a) > 1
    [] OTHER -> TRUE

Init == edits = <<>> /\ v = Base
Next ==
  /\ Len(edits) < Most
  \* further changes are made to what is still accepted
  /\ edits # <<>> => Accept(v)
  /\ \E p \in Paths(v), c \in Changes :
       /\ Possible(v, p, c)
       /\ edits' = Append(edits, [p |-> p, c |-> c])
       /\ v' = Apply(v, p, c)
Spec == Init /\ [][Next]_<<edits, v>>

Harmless == {"extra", "reverse"}
Judged == edits # <<>>
Last == edits[Len(edits)]
\* orders and additions change nothing
Stable ==
  (\A i \in 1..Len(edits) : edits[i].c \in Harmless)
    => /\ Accept(v)
       /\ DOMAIN Meaning(v) = DOMAIN Meaning(Base)
       /\ \A n \in DOMAIN Meaning(Base) :
            LET a == Meaning(v)[n] b == Meaning(Base)[n] IN a.k = b.k /\ a.f = b.f /\ Range(a.poss) = Range(b.poss) /\ Range(a.vals) = Range(b.vals)
\* something mandatory cannot be replaced by a number
Strict == (Judged /\ Last.c = "num") => ~Accept(v)
Right == AcceptBy(v, Variant) = Accept(v)
Case ==
  Judged => LET ok == Accept(v) IN
            (~ok \/ Coherent(v)) => PrintT("CASE " \o ToJson([edits |-> edits, ok |-> ok, S |-> IF ok THEN Meaning(v) ELSE [x \in {} |-> 0]]))
Given0 == PrintT("GIVEN " \o ToJson([base |-> Base]))
ASSUME Given0
ASSUME Accept(Base) /\ Coherent(Base)
=============================================================================
