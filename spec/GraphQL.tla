------------------------------ MODULE GraphQL ------------------------------
(* Meaning of documents: field collection per runtime type, mistakes,       *)
(* warnings, merge conflicts. S is a schema: name -> [k, f, poss, vals],    *)
(* F the fragments in scope: name -> definition.                            *)
(* A selection is a sequence of                                             *)
(*   [k |-> "f", key, name, args, sel, pos]   field                         *)
(*   [k |-> "i", on, sel, pos]                inline fragment ("" = no type) *)
(*   [k |-> "s", frag, pos]                   fragment spread               *)
EXTENDS Text, TLC

CompositeKinds == {"OBJECT", "INTERFACE", "UNION"}
InputKinds == {"SCALAR", "ENUM", "INPUT_OBJECT"}
BuiltinScalars == {"Boolean", "String", "Int", "Float", "ID"}

Poss(S, t) ==
  IF t \notin DOMAIN S THEN {}
  ELSE IF S[t].k = "OBJECT" THEN {t} ELSE Range(S[t].poss)

TypenameDecl == [w |-> <<"N">>, n |-> "__typename", d |-> FALSE, doc |-> <<>>, hostile |-> FALSE]
HasField(S, t, n) == \/ n = "__typename" /\ S[t].k \in CompositeKinds
                     \/ n \in DOMAIN S[t].f
Decl(S, t, n) == IF n = "__typename" THEN TypenameDecl ELSE S[t].f[n]
\* The declaration that governs a field selected on lexical type lex when the object is an rt
OwnDecl(S, rt, lex, n) == IF HasField(S, rt, n) THEN Decl(S, rt, n) ELSE Decl(S, lex, n)

IsCompositeType(S, n) == n \in DOMAIN S /\ S[n].k \in CompositeKinds
\* Field of the type must have a selection set
NeedsSelection(S, n) == n \in DOMAIN S /\ S[n].k \in CompositeKinds \cup {"INPUT_OBJECT"}

(***************************************************************************)
(* CollectFields: what execution collects for an object of type rt.         *)
(***************************************************************************)
RECURSIVE CollectSel(_, _, _, _, _)
CollectSel(S, F, sel, lex, rt) ==
  IF sel = <<>> THEN <<>>
  ELSE LET h == Head(sel)
           first ==
             CASE h.k = "f" -> <<[key |-> h.key, name |-> h.name, args |-> h.args, lex |-> lex, sel |-> h.sel]>>
               [] h.k = "i" -> IF rt \in Poss(S, h.on) THEN CollectSel(S, F, h.sel, h.on, rt) ELSE <<>>
               [] h.k = "s" -> IF h.frag \in DOMAIN F /\ rt \in Poss(S, F[h.frag].on)
                               THEN CollectSel(S, F, F[h.frag].sel, F[h.frag].on, rt)
                               ELSE <<>>
       IN  first \o CollectSel(S, F, Tail(sel), lex, rt)

\* A context is a sequence of [lex, sel]: the selection sets merged under one response key.
\* An object's own field may be declared with a narrower type than the interface it is selected
\* through; types that only the interface admits are given what was selected through it.
RECURSIVE Collect(_, _, _, _)
Collect(S, F, ctx, rt) ==
  IF ctx = <<>> THEN <<>>
  ELSE (IF rt \in Poss(S, Head(ctx).lex) THEN CollectSel(S, F, Head(ctx).sel, Head(ctx).lex, rt) ELSE <<>>)
       \o Collect(S, F, Tail(ctx), rt)

Keys(fs) == {fs[i].key : i \in 1..Len(fs)}
Group(fs, key) == SelectSeq(fs, LAMBDA x : x.key = key)
SubCtx(S, group) ==
  TLCEval([i \in 1..Len(group) |-> [lex |-> Decl(S, group[i].lex, group[i].name).n, sel |-> group[i].sel]])
LexDecls(S, group) == {Decl(S, group[i].lex, group[i].name) : i \in 1..Len(group)}

\* GraphQL's overlapping-fields rule, for objects of one runtime type
RECURSIVE ConflictFree(_, _, _, _)
ConflictFree(S, F, ctx, rts) ==
  \A rt \in rts :
    LET fs == Collect(S, F, ctx, rt)
    IN  \A key \in Keys(fs) :
          LET g == Group(fs, key)
          IN  /\ \A i \in 2..Len(g) : g[i].name = g[1].name /\ g[i].args = g[1].args
              /\ LET n == OwnDecl(S, rt, g[1].lex, g[1].name).n
                 IN  IsCompositeType(S, n) => ConflictFree(S, F, SubCtx(S, g), Poss(S, n))

(***************************************************************************)
(* Fragment cycles                                                          *)
(***************************************************************************)
RECURSIVE SpreadsIn(_)
SpreadsIn(sel) ==
  UNION {CASE sel[i].k = "s" -> {sel[i].frag} [] OTHER -> SpreadsIn(sel[i].sel) : i \in 1..Len(sel)}

\* Expanding fragment n, with the fragments in act being expanded, meets one of them again
RECURSIVE Recurs(_, _, _)
Recurs(F, n, act) ==
  \/ n \in act
  \/ n \in DOMAIN F /\ \E m \in SpreadsIn(F[n].sel) : Recurs(F, m, act \cup {n})

RECURSIVE ReachFrags(_, _, _)
ReachFrags(F, seen, todo) ==
  IF todo = {} THEN seen
  ELSE LET new == {m \in UNION {SpreadsIn(F[n].sel) : n \in todo} : m \in DOMAIN F /\ m \notin seen}
       IN  ReachFrags(F, seen \cup new, new)
\* Fragments a selection expands, directly or indirectly
UsedFrags(F, sel) ==
  LET first == {n \in SpreadsIn(sel) : n \in DOMAIN F} IN ReachFrags(F, first, first)

(***************************************************************************)
(* Mistakes in a document's own selections, in order:                       *)
(* [c |-> code, pos |-> <<line, column>> or <<>>, n |-> name, t |-> the type *)
(* an unknown field was looked for in]                                      *)
(***************************************************************************)
Mistake(c, pos, n) == <<[c |-> c, pos |-> pos, n |-> n, t |-> ""]>>

RECURSIVE Mistakes(_, _, _, _, _)
Mistakes(S, F, sel, lex, act) ==
  IF sel = <<>> THEN <<>>
  ELSE
  LET h == Head(sel)
      one ==
        CASE h.k = "f" ->
               IF ~HasField(S, lex, h.name) THEN <<[c |-> "unknown-field", pos |-> h.pos, n |-> h.name, t |-> lex]>>
               ELSE LET n == Decl(S, lex, h.name).n
                    IN  IF NeedsSelection(S, n)
                        THEN IF h.sel = <<>> THEN Mistake("missing-selection", h.pos, n)
                             ELSE Mistakes(S, F, h.sel, n, act)
                        ELSE IF h.sel # <<>> THEN Mistake("wrong-selection", h.pos, n) ELSE <<>>
          [] h.k = "i" ->
               IF h.on = "" THEN Mistake("no-condition", h.pos, "")
               ELSE IF h.on \notin DOMAIN S THEN Mistake("unknown-type", <<>>, h.on)
               ELSE IF S[h.on].k = "INPUT_OBJECT" THEN Mistake("unknown-type", <<>>, h.on)
               ELSE IF S[h.on].k \notin CompositeKinds THEN Mistake("wrong-selection", h.pos, h.on)
               ELSE Mistakes(S, F, h.sel, h.on, act)
          [] h.k = "s" ->
               IF Recurs(F, h.frag, act) THEN Mistake("recursive", h.pos, h.frag)
               ELSE IF h.frag \notin DOMAIN F THEN Mistake("unknown-fragment", h.pos, h.frag)
               ELSE <<>>
  IN  one \o Mistakes(S, F, Tail(sel), lex, act)

FragmentClean(S, F, d) ==
  /\ IsCompositeType(S, d.on)
  /\ Mistakes(S, F, d.sel, d.on, {d.name}) = <<>>

(***************************************************************************)
(* Warnings of a mistake-free document: positions, in order                 *)
(***************************************************************************)
RECURSIVE WarningsOf(_, _, _, _, _, _)
WarningsOf(S, F, sel, lex, eff, depr) ==
  IF sel = <<>> THEN <<>>
  ELSE
  LET h == Head(sel)
      one ==
        CASE h.k = "f" ->
               LET d == Decl(S, lex, h.name)
               IN  (IF depr /\ d.d THEN <<h.pos>> ELSE <<>>)
                   \o (IF h.sel = <<>> THEN <<>> ELSE WarningsOf(S, F, h.sel, d.n, Poss(S, d.n), depr))
          [] h.k = "i" ->
               LET e == Poss(S, h.on) \cap eff
               IN  (IF e = {} THEN <<h.pos>> ELSE <<>>) \o WarningsOf(S, F, h.sel, h.on, e, depr)
          [] h.k = "s" ->
               IF Poss(S, F[h.frag].on) \cap eff = {} THEN <<h.pos>> ELSE <<>>
  IN  one \o WarningsOf(S, F, Tail(sel), lex, eff, depr)

(***************************************************************************)
(* Operations                                                               *)
(***************************************************************************)
RootType(d) ==
  CASE d.op = "fragment" -> d.on
    [] d.op = "mutation" -> "Mutation"
    [] OTHER -> "Query"            \* subscriptions are typed on Query
DataName(d) ==
  IF d.name # "" THEN d.name
  ELSE CASE d.op = "mutation" -> "Mutation" [] d.op = "subscription" -> "Subscription" [] OTHER -> "Query"
NodeName(d) ==
  CASE d.op = "mutation" -> "MutationDocumentNode"
    [] d.op = "fragment" -> "FragmentDocumentNode"
    [] OTHER -> "QueryDocumentNode"
RootCtx(d) == <<[lex |-> RootType(d), sel |-> d.sel]>>
RootActive(d) == IF d.op = "fragment" THEN {d.name} ELSE {}

\* More than one list level, or a type that cannot be a variable's
ListDepth(w) == Cardinality({i \in 1..Len(w) : w[i] = "L"})
VarBad(S, v) == ListDepth(v.w) > 1 \/ v.n \notin DOMAIN S \/ S[v.n].k \notin InputKinds

(***************************************************************************)
(* Enums a document's data can contain, and named input types it declares   *)
(***************************************************************************)
\* Where a field is selected through declarations of different types, max counts every type
\* one of them allows, min those the object's own declaration allows.
RECURSIVE EnumsOf(_, _, _, _, _)
EnumsOf(S, F, ctx, rts, max) ==
  UNION {LET fs == Collect(S, F, ctx, rt)
         IN  UNION {LET g == Group(fs, key)
                        n == OwnDecl(S, rt, g[1].lex, g[1].name).n
                    IN  IF n \notin DOMAIN S THEN {}
                        ELSE IF S[n].k = "ENUM" THEN {n}
                        ELSE IF S[n].k \in CompositeKinds
                        THEN EnumsOf(S, F, SubCtx(S, g),
                                     IF max THEN UNION {Poss(S, d.n) : d \in LexDecls(S, g)} ELSE Poss(S, n), max)
                        ELSE {} : key \in Keys(fs)} : rt \in rts}
VarGlobals(S, d) ==
  {n \in {d.vars[i].n : i \in 1..Len(d.vars)} : n \in DOMAIN S /\ S[n].k \in {"ENUM", "INPUT_OBJECT"}}
GlobalsUsed(S, F, d, max) == EnumsOf(S, F, RootCtx(d), Poss(S, RootType(d)), max) \cup VarGlobals(S, d)

\* Closure of a set of enums and inputs over input object fields
RECURSIVE InputClosure(_, _, _)
InputClosure(S, seen, todo) ==
  IF todo = {} THEN seen
  ELSE LET new == {n \in UNION {{S[t].f[x].n : x \in DOMAIN S[t].f} :
                                   t \in {u \in todo : S[u].k = "INPUT_OBJECT"}} :
                     n \in DOMAIN S /\ S[n].k \in {"ENUM", "INPUT_OBJECT"} /\ n \notin seen}
       IN  InputClosure(S, seen \cup new, new)
Closure(S, names) == InputClosure(S, names, names)
=============================================================================
