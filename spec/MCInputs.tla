------------------------------- MODULE MCInputs -------------------------------
(***************************************************************************)
(* Every graph of references among a few input objects and an enum, drawn     *)
(* edge by edge, with two documents that use some of them as variables.  TLC  *)
(* checks the closure that decides what the global-types module contains      *)
(* against paths in the graph, and that a module with it is accepted (with     *)
(* less or more it is not), and prints each case.                             *)
(***************************************************************************)
EXTENDS Qlc, Compiler, Json
CONSTANTS Types,       \* the input objects, as a sequence of names
          Two          \* whether there is a second document
VARIABLES edges, first, second
Pair == <<"A", "B">>
Triple == <<"A", "B", "C">>

Targets == Range(Types) \cup {"E"}
Slots == Range(Types) \X Targets
Fld(x, n) == [w |-> x, n |-> n, d |-> FALSE, doc |-> <<>>, hostile |-> FALSE]
Ty(k, f, vals) == [k |-> k, f |-> f, poss |-> <<>>, vals |-> vals, doc |-> <<>>, hostile |-> FALSE]
Wrap(a, b) == CASE a = b -> <<>> [] b = "E" -> <<"L", "N">> [] a = Types[1] -> <<"N">> [] OTHER -> <<"L">>
Graph(es) ==
  [n \in Targets \cup {"Query"} |->
     CASE n = "E" -> Ty("ENUM", [x \in {} |-> 0], <<"X">>)
       [] n = "Query" -> Ty("OBJECT", [x |-> Fld(<<>>, "Int")], <<>>)
       [] OTHER -> Ty("INPUT_OBJECT", [x \in {"z"} \cup {"to" \o b : b \in {c \in Targets : <<n, c>> \in es}} |->
                        IF x = "z" THEN Fld(<<>>, "Int")
                        ELSE LET b == CHOOSE c \in Targets : x = "to" \o c IN Fld(Wrap(n, b), b)], <<>>)]
  @@ ("Int" :> Ty("SCALAR", [x \in {} |-> 0], <<>>))
S == Graph(edges)

P == <<1, 1>>
Doc(name, uses) ==
  LET us == SelectSeq(Types, LAMBDA t : t \in uses)
  IN  [op |-> "query", name |-> name, on |-> "", pos |-> P,
       vars |-> [i \in 1..Len(us) |-> [name |-> "v" \o us[i], w |-> IF i = 1 THEN <<>> ELSE <<"N", "L">>, n |-> us[i], pos |-> P]],
       sel |-> <<[k |-> "f", key |-> "x", name |-> "x", args |-> "", sel |-> <<>>, pos |-> P]>>]

Cfg == [readonly |-> TRUE, scalars |-> FALSE, scalarPrefix |-> "", nodeModule |-> "node", globalsModule |-> "globals", threads |-> 1,
        depr |-> FALSE, schema |-> "schema.json", root |-> "", importPrefix |-> <<>>]
\* The run once both documents are compiled
Done(es, used) == [phase |-> "compile", cfg |-> Cfg, S |-> Graph(es), todo |-> {}, gmin |-> used, gmax |-> used]
InitM ==
  /\ edges = {}
  /\ first \in {u \in SUBSET Range(Types) : u # {}}
  /\ second \in IF Two THEN SUBSET Range(Types) ELSE {{}}
  /\ tree = ("schema.json" :> [kind |-> "file", st |-> "ok", cid |-> "c", sch |-> "s", spell |-> "s", plain |-> "s"])
  /\ out = <<>> /\ memo = <<>> /\ bad = {}
  /\ run = Done(edges, first \cup second)
Draw(e) ==
  /\ e \notin edges /\ edges' = edges \cup {e}
  /\ run' = Done(edges', first \cup second)
  /\ UNCHANGED <<first, second, tree, out, memo, bad>>
NextM == \E e \in Slots : Draw(e)
SpecM == InitM /\ [][NextM]_<<edges, first, second, qvars>>

Used == first \cup second
\* b can be reached from a in at most k steps
RECURSIVE Path(_, _, _)
Path(a, b, k) == \/ a = b
                 \/ k > 0 /\ \E c \in Targets : <<a, c>> \in edges /\ Path(c, b, k - 1)
Reachable == {b \in Targets : \E a \in Used : Path(a, b, Len(Types) + 1)}
ClosureRight == Closure(S, Used) = Reachable

\* A global-types module with these types is accepted
Judged(names) ==
  GlobalsClauses([f |-> "", wrote |-> TRUE, post |-> "p", bare |-> "b", has |-> TRUE, mod |-> EmitGlobals(S, Cfg, names, ""),
                  err |-> FALSE, nodir |-> FALSE]) = {}
Meetable == Judged(Reachable)
Excluded == /\ \A n \in Reachable : ~Judged(Reachable \ {n})
            /\ \A n \in Targets \ Reachable : ~Judged(Reachable \cup {n})
Cases == PrintT("CASE " \o ToJson([S |-> S, docs |-> IF second = {} THEN <<Doc("P", first)>> ELSE <<Doc("P", first), Doc("R", second)>>]))
=============================================================================
