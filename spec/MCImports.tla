------------------------------ MODULE MCImports ------------------------------
(***************************************************************************)
(* Every graph of imports and of spreads among a document and a few fragment  *)
(* files, drawn edge by edge; the last file may be missing, not parse, or     *)
(* hold an operation.  TLC checks scopes and verdicts against paths in the     *)
(* two graphs, and prints each case.                                          *)
(***************************************************************************)
EXTENDS Qlc, Compiler, Json
CONSTANTS Files,       \* names of the fragment files
          States       \* what the last of them can be
VARIABLES imports, spreads, last
mvars == <<imports, spreads, last>>
One == <<"A">>
Two == <<"A", "B">>
Three == <<"A", "B", "C">>

Names == Range(Files)
All == Names \cup {"q"}
Last == Files[Len(Files)]
State(n) == IF n = Last THEN last ELSE "ok"

Fld(n) == [w |-> <<>>, n |-> n, d |-> FALSE, doc |-> <<>>, hostile |-> FALSE]
Ty(k, f) == [k |-> k, f |-> f, poss |-> <<>>, vals |-> <<>>, doc |-> <<>>, hostile |-> FALSE]
S == [Query |-> Ty("OBJECT", [n \in {"f" \o x : x \in All} |-> Fld("Int")]), Int |-> Ty("SCALAR", [x \in {} |-> 0])]
P == <<1, 1>>
Leaf(n) == [k |-> "f", key |-> "f" \o n, name |-> "f" \o n, args |-> "", sel |-> <<>>, pos |-> P]
Spread(n) == [k |-> "s", frag |-> n, sel |-> <<>>, pos |-> P]
Def(n) ==
  LET s == SelectSeq(Files, LAMBDA m : <<n, m>> \in spreads)
      sel == <<Leaf(n)>> \o [i \in 1..Len(s) |-> Spread(s[i])]
  IN  IF n = "q" \/ State(n) = "operation" THEN [op |-> "query", name |-> n, on |-> "", vars |-> <<>>, pos |-> P, sel |-> sel]
      ELSE [op |-> "fragment", name |-> n, on |-> "Query", vars |-> <<>>, pos |-> P, sel |-> sel]
File(n) == n \o ".graphql"
Imported(n) == SelectSeq(Files, LAMBDA m : <<n, m>> \in imports)
Lines(n) == LET s == Imported(n) IN [i \in 1..Len(s) |-> "#import \"./" \o File(s[i]) \o "\""] \o <<"{">>
Src(n) == [kind |-> "file", st |-> IF State(n) = "bad" THEN "bad" ELSE "ok", cid |-> n, lines |-> Lines(n), def |-> Def(n)]
Tree == [f \in {File(n) : n \in {m \in All : State(m) # "missing"}} |-> Src(CHOOSE n \in All : f = File(n))]
Cfg == [readonly |-> TRUE, scalars |-> FALSE, scalarPrefix |-> "", nodeModule |-> "node", globalsModule |-> "globals", threads |-> 1,
        depr |-> FALSE, schema |-> "schema.json", root |-> "", importPrefix |-> <<>>]

InitM == imports = {} /\ spreads = {} /\ last \in States /\ Init
Import(e) == e \notin imports /\ imports' = imports \cup {e} /\ UNCHANGED <<spreads, last, qvars>>
Use(e) == e \notin spreads /\ spreads' = spreads \cup {e} /\ UNCHANGED <<imports, last, qvars>>
NextM == \E e \in All \X Names : Import(e) \/ Use(e)
SpecM == InitM /\ [][NextM]_<<mvars, qvars>>

\* There is a path of edges from a to b of at least one and at most k edges
RECURSIVE Path(_, _, _, _)
Path(es, a, b, k) == k > 0 /\ (<<a, b>> \in es \/ \E c \in Names : <<a, c>> \in es /\ Path(es, c, b, k - 1))
\* nothing can be imported through a file that is not there; its lines are read whatever else it holds
Links == {e \in imports : State(e[1]) # "missing"}
N == Cardinality(All)
ScopeOf(n) == {m \in Names : State(m) # "missing" /\ Path(Links, n, m, N)}
ScopeRight == \A n \in All : State(n) # "missing" => Scope(Tree, "", <<>>, File(n)) = {File(m) : m \in ScopeOf(n)}
Given1(n) == {m \in ScopeOf(n) : State(m) = "ok"}

\* What the document leads to, from paths alone
Spreads == {e \in spreads : e[1] = "q" \/ State(e[1]) = "ok"}
InSight(n) == {e \in Spreads : e[1] = n \/ e[1] \in Given1(n)}    \* spreads that can be expanded
Expanded(n) == {m \in Given1(n) : Path({e \in InSight(n) : e[2] \in Given1(n)}, n, m, N)}
Missed(n) == {e[2] : e \in {x \in InSight(n) : x[1] = n}} \ Given1(n)
MissedInside(n) == {e \in InSight(n) : e[1] \in Expanded(n) /\ e[2] \notin Given1(n) /\ e[2] # n}
Loops(n) == \E m \in Expanded(n) : Path({e \in InSight(n) : e[1] # "q"}, m, m, N)
VerdictRight ==
  LET v == Expect(S, Tree, Cfg, File("q")).class
  IN  v = (IF Missed("q") # {} \/ Loops("q") THEN "fail" ELSE IF MissedInside("q") # {} THEN "any" ELSE "ok")
Meetable ==
  LET e == Expect(S, Tree, Cfg, File("q"))
  IN  e.class = "ok" => Acceptable(S, e.F, Cfg, Emit(S, e.F, Cfg, Def("q"), ""), Def("q"))
Cases == PrintT("CASE " \o ToJson([files |-> [n \in All |-> [st |-> State(n), imports |-> Imported(n), def |-> Def(n)]]]))
Given0 == PrintT("GIVEN " \o ToJson([S |-> S]))
ASSUME Given0
=============================================================================
