------------------------------- MODULE MCTree -------------------------------
(***************************************************************************)
(* Walking a directory tree for documents: every combination of an entry at   *)
(* the top, a subdirectory's name, an entry in it and perhaps one below it,    *)
(* where entries are documents, things named like documents, links, and other  *)
(* files.  The walk lists one directory after the other, in any order.  TLC    *)
(* checks that it finds the documents of Qlc, each once, and prints each       *)
(* case.                                                                      *)
(***************************************************************************)
EXTENDS Qlc, Compiler, Json
CONSTANTS Kinds,      \* of the entries
          SubNames,   \* of the subdirectory
          Variant     \* "right", or a wrong walk
VARIABLES kase, todo, listed, found
mvars == <<kase, todo, listed, found>>

E(p, k) == [p |-> p, k |-> k, to |-> ""]
L(p, to) == [p |-> p, k |-> "link", to |-> to]
Outside == {E("out", "dir"), E("out/o.graphql", "file")}
\* What stands for an entry of a kind
Entries(d, k) ==
  LET x(n) == Join(d, n) IN
  CASE k = "none" -> {}
    [] k = "doc" -> {E(x("x.graphql"), "file")}
    [] k = "two" -> {E(x("x.graphql"), "file"), E(x("y.graphql"), "file")}
    [] k = "dotted" -> {E(x("x.y.graphql"), "file")}
    [] k = "spaced" -> {E(x("x y.graphql"), "file")}
    [] k = "hidden" -> {E(x(".x.graphql"), "file")}
    [] k = "bare" -> {E(x(".graphql"), "file")}
    [] k = "case" -> {E(x("x.GraphQL"), "file"), E(x("x.GRAPHQL"), "file")}
    [] k = "suffix" -> {E(x("xgraphql"), "file"), E(x("graphql"), "file")}
    [] k = "longer" -> {E(x("x.graphqls"), "file"), E(x("x.graphql.old"), "file"), E(x("x.gql"), "file")}
    [] k = "old" -> {E(x("x.graphql"), "file"), E(x("x.graphql.d.ts"), "file")}
    [] k = "nested" -> {E(x("x.graphql"), "file"), E(x("x.graphql.d.ts.graphql"), "file")}
    [] k = "dir" -> {E(x("x.graphql"), "dir"), E(x("x.graphql/in.graphql"), "file")}
    [] k = "link" -> {L(x("x.graphql"), "out/o.graphql")}
    [] k = "dirlink" -> {L(x("l"), "out")}
    [] k = "loop" -> {L(x("l"), d)}
    [] k = "dangling" -> {L(x("x.graphql"), "nowhere")}
    [] k = "fifo" -> {E(x("x.graphql"), "special")}
All(c) ==
  LET top == c.root
      sub == Join(top, c.name)
      deep == Join(sub, "e")
      dirs == {E(d, "dir") : d \in ({sub} \cup (IF c.deep = "none" THEN {} ELSE {deep}) \cup (IF top = "" THEN {} ELSE {top}))}
  IN  Outside \cup dirs \cup Entries(top, c.top) \cup Entries(sub, c.sub) \cup (IF c.deep = "none" THEN {} ELSE Entries(deep, c.deep))
Cases0 ==
  [root : {"", "root"}, top : Kinds, name : SubNames, sub : Kinds, deep : {"none"}]
  \cup [root : {"root"}, top : Kinds, name : {"d", ".d"}, sub : Kinds, deep : {"doc"}]
Tree == LET a == All(kase) IN [p \in {x.p : x \in a} |-> LET e == CHOOSE x \in a : x.p = p IN [kind |-> e.k, st |-> "ok", to |-> e.to]]

InitM == /\ Init /\ kase \in Cases0 /\ todo = {kase.root} /\ listed = <<>> /\ found = {}

\* The names in a directory, where links may stand for what they point at
Real(d) == IF d \in DOMAIN Tree /\ Tree[d].kind = "link" THEN Tree[d].to ELSE d
Below(d) == LET r == Real(d) IN {BaseName(p) : p \in {q \in DOMAIN Tree : DirName(q) = r}}
Kind(d, n) == Tree[Join(Real(d), n)].kind
Target1(d, n) == Tree[Join(Real(d), n)].to
Follows == Variant = "follows-links"
IsDir(d, n) ==
  \/ Kind(d, n) = "dir" /\ Variant # "flat" /\ ~(Variant = "skips-hidden" /\ HasPrefix(n, "."))
                        /\ ~(Variant = "suffix-means-file" /\ HasSuffix(n, ".graphql"))
  \/ Follows /\ Kind(d, n) = "link" /\ (Target1(d, n) = "" \/ (Target1(d, n) \in DOMAIN Tree /\ Tree[Target1(d, n)].kind = "dir")) /\ Len(d) < 12
Extension(n) ==
  CASE Variant = "first-dot" -> LET at == {i \in 1..Len(n) : At(n, i) = "."} IN IF at = {} THEN n ELSE Drop(n, (CHOOSE i \in at : \A j \in at : i <= j))
    [] OTHER -> IF LastIndex(n, ".") <= 1 THEN "" ELSE Drop(n, LastIndex(n, "."))
IsDoc(d, n) ==
  /\ IF Variant = "any-suffix" THEN HasSuffix(n, "graphql") ELSE Extension(n) = "graphql"
  /\ ~(Variant = "skips-hidden" /\ HasPrefix(n, "."))
  /\ \/ Kind(d, n) = "file"
     \/ Variant = "anything-named-so"
     \/ Follows /\ Kind(d, n) = "link" /\ Target1(d, n) \in DOMAIN Tree /\ Tree[Target1(d, n)].kind = "file"
Look(d) ==
  /\ todo' = (todo \ {d}) \cup {Join(d, n) : n \in {m \in Below(d) : IsDir(d, m)}}
  /\ found' = found \cup {Join(d, n) : n \in {m \in Below(d) : IsDoc(d, m)}}
  /\ listed' = Append(listed, d)
  /\ UNCHANGED <<kase, qvars>>
NextM == \E d \in todo : Look(d)
SpecM == InitM /\ [][NextM]_<<mvars, qvars>>

Docs == Documents(Tree, kase.root)
Sound == found \subseteq Docs
Complete == todo = {} => found = Docs
Once == Len(listed) = Cardinality(Range(listed)) /\ todo \cap Range(listed) = {}
\* what is written never is a document itself, lies below the root, and two documents never share an output
Apart ==
  /\ \A f \in Docs : Under(kase.root, Target(f)) /\ ~HasSuffix(Target(f), ".graphql")
  /\ Cardinality({Target(f) : f \in Docs}) = Cardinality(Docs)
\* links add nothing: without them the documents are the same
Links == LET t == Tree IN Documents([p \in {q \in DOMAIN t : t[q].kind \in {"dir", "file"}} |-> t[p]], kase.root) = Docs
Cases == listed = <<>> /\ kase.root # "" => PrintT("CASE " \o ToJson([name |-> kase.name, entries |-> SE!SetToSeq(All(kase) \ Outside)]))
=============================================================================
