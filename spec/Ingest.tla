------------------------------- MODULE Ingest -------------------------------
(***************************************************************************)
(* Which JSON values are introspection results, and the schema each means.   *)
(* A JSON value is one of                                                    *)
(*   [j |-> "null"]  [j |-> "num"]  [j |-> "bool", b]  [j |-> "str", s]       *)
(*   [j |-> "arr", a |-> sequence]  [j |-> "obj", m |-> key -> value]         *)
(* v: variant of the reader, "" for the right one.                           *)
(***************************************************************************)
EXTENDS Text

Null == [j |-> "null"]
\* a part that is absent is like null
Get(v, k) == IF v.j = "obj" /\ k \in DOMAIN v.m THEN v.m[k] ELSE Null
IsStr(v) == v.j = "str"
OptStr(v) == v.j \in {"null", "str"}
Each(v, P(_)) == v.j = "arr" /\ \A i \in 1..Len(v.a) : P(v.a[i])
OptEach(v, P(_)) == v.j = "null" \/ Each(v, P)

Kinds == {"SCALAR", "OBJECT", "INTERFACE", "UNION", "ENUM", "INPUT_OBJECT"}
Wrappers == {"LIST", "NON_NULL"}

(***************************************************************************)
(* Shape                                                                    *)
(***************************************************************************)
RECURSIVE RefShape(_)
RefShape(v) ==
  /\ v.j = "obj" /\ IsStr(Get(v, "kind")) /\ OptStr(Get(v, "name"))
  /\ (Get(v, "ofType").j = "null" \/ RefShape(Get(v, "ofType")))
FieldShape(v) ==
  /\ v.j = "obj" /\ IsStr(Get(v, "name")) /\ OptStr(Get(v, "description")) /\ RefShape(Get(v, "type"))
  /\ Get(v, "isDeprecated").j \in {"null", "bool"}
NamedShape(v) == v.j = "obj" /\ IsStr(Get(v, "name"))
TypeShape(v) ==
  /\ v.j = "obj" /\ IsStr(Get(v, "kind")) /\ IsStr(Get(v, "name")) /\ OptStr(Get(v, "description"))
  /\ OptEach(Get(v, "possibleTypes"), NamedShape) /\ OptEach(Get(v, "enumValues"), NamedShape)
  /\ OptEach(Get(v, "fields"), FieldShape) /\ OptEach(Get(v, "inputFields"), FieldShape)
Types(v) == Get(Get(Get(v, "data"), "__schema"), "types")

(***************************************************************************)
(* Mandatory parts                                                          *)
(***************************************************************************)
RECURSIVE RefWhole(_)
RefWhole(v) ==
  IF Get(v, "kind").s \in Wrappers THEN Get(v, "ofType").j # "null" /\ RefWhole(Get(v, "ofType"))
  ELSE Get(v, "kind").s \in Kinds /\ IsStr(Get(v, "name"))
FieldWhole(v) == RefWhole(Get(v, "type"))
TypeWhole(v, x) ==
  LET k == Get(v, "kind").s
      fields == Each(Get(v, "fields"), FieldWhole)
      poss == Get(v, "possibleTypes").j = "arr"
  IN  CASE k = "SCALAR" -> TRUE
        [] k = "OBJECT" -> fields
        [] k = "INTERFACE" -> (fields \/ (x = "bare-interfaces" /\ Get(v, "fields").j = "null")) /\ poss
        [] k = "UNION" -> poss
        [] k = "ENUM" -> Get(v, "enumValues").j = "arr" \/ x = "bare-enums"
        [] k = "INPUT_OBJECT" -> Each(Get(v, "inputFields"), FieldWhole) \/ (x = "unread-inputs" /\ Get(v, "inputFields").j = "arr")
        [] OTHER -> FALSE
AcceptBy(v, x) == Each(Types(v), TypeShape) /\ \A i \in 1..Len(Types(v).a) : TypeWhole(Types(v).a[i], x)
Accept(v) == AcceptBy(v, "")

(***************************************************************************)
(* Meaning                                                                  *)
(***************************************************************************)
RECURSIVE RefOf(_)
RefOf(v) ==
  LET k == Get(v, "kind").s IN
  IF k \in Wrappers
  THEN LET r == RefOf(Get(v, "ofType")) IN [r EXCEPT !.w = <<IF k = "LIST" THEN "L" ELSE "N">> \o @]
  ELSE [w |-> <<>>, n |-> Get(v, "name").s, k |-> k]
DocOf(v) == IF Get(v, "description").j = "null" THEN <<>> ELSE <<Get(v, "description").s>>
FieldsOf(v) ==
  [n \in {Get(v.a[i], "name").s : i \in 1..Len(v.a)} |->
     LET f == v.a[CHOOSE i \in 1..Len(v.a) : Get(v.a[i], "name").s = n]
         r == RefOf(Get(f, "type"))
         d == Get(f, "isDeprecated")
     IN  [w |-> r.w, n |-> r.n, d |-> IF d.j = "null" THEN FALSE ELSE d.b, doc |-> DocOf(f), hostile |-> FALSE]]
NamesOf(v) == IF v.j = "null" THEN <<>> ELSE [i \in 1..Len(v.a) |-> Get(v.a[i], "name").s]
TypeOf(v) ==
  LET k == Get(v, "kind").s IN
  [k |-> k, doc |-> DocOf(v), hostile |-> FALSE,
   f |-> CASE k \in {"OBJECT", "INTERFACE"} -> FieldsOf(Get(v, "fields"))
           [] k = "INPUT_OBJECT" -> FieldsOf(Get(v, "inputFields"))
           [] OTHER -> [x \in {} |-> 0],
   poss |-> IF k \in {"INTERFACE", "UNION"} THEN NamesOf(Get(v, "possibleTypes")) ELSE <<>>,
   vals |-> IF k = "ENUM" THEN NamesOf(Get(v, "enumValues")) ELSE <<>>]
TypeNames(v) == {Get(Types(v).a[i], "name").s : i \in 1..Len(Types(v).a)}
Meaning(v) ==
  LET ts == Types(v).a IN
  [n \in TypeNames(v) |-> TypeOf(ts[CHOOSE i \in 1..Len(ts) : Get(ts[i], "name").s = n])]

(***************************************************************************)
(* Everything it mentions is there, of the kind it is said to be, and once   *)
(***************************************************************************)
RECURSIVE RefKind(_)
RefKind(v) == IF Get(v, "kind").s \in Wrappers THEN RefKind(Get(v, "ofType")) ELSE <<Get(v, "name").s, Get(v, "kind").s>>
Once(v) == Cardinality({Get(v.a[i], "name").s : i \in 1..Len(v.a)}) = Len(v.a)
Coherent(v) ==
  LET S == Meaning(v)
      ts == Types(v).a
      sound(fs) == Once(fs) /\ \A i \in 1..Len(fs.a) :
                     LET r == RefKind(Get(fs.a[i], "type")) IN r[1] \in DOMAIN S /\ S[r[1]].k = r[2]
  IN  /\ Once(Types(v)) /\ "Query" \in DOMAIN S /\ S["Query"].k = "OBJECT"
      /\ \A i \in 1..Len(ts) :
           LET k == Get(ts[i], "kind").s IN
           /\ k \in {"OBJECT", "INTERFACE"} => sound(Get(ts[i], "fields"))
           /\ k = "INPUT_OBJECT" => sound(Get(ts[i], "inputFields"))
      /\ \A n \in DOMAIN S : \A i \in 1..Len(S[n].poss) : S[n].poss[i] \in DOMAIN S /\ S[S[n].poss[i]].k = "OBJECT"
      /\ \A n \in DOMAIN S : S[n].k \in {"INTERFACE", "UNION"} => S[n].poss # <<>>
      /\ \A n \in DOMAIN S : S[n].k = "INTERFACE" => \A i \in 1..Len(S[n].poss) : DOMAIN S[n].f \subseteq DOMAIN S[S[n].poss[i]].f
=============================================================================
