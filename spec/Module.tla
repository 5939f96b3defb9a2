------------------------------- MODULE Module -------------------------------
(* What an emitted TypeScript module denotes, and when it agrees with the    *)
(* meaning of its document.                                                  *)
(* A projected module M is                                                   *)
(*  [parses, imports: <<[from, names, typ]>>, decls, node, refs, other]      *)
(*  decl:  [n, k |-> "obj", props] | [n, k |-> "union", alts] |              *)
(*         [n, k |-> "enum", vals] | [n, k |-> "other"]                      *)
(*  prop:  [n, opt, ro, t, doc, dep]                                         *)
(*  type:  [nul, k, ...]: "arr" e | "ref" n | "kw" n | "lits" vs | "other"    *)
(* where nul says that the level admits null.                                *)
(*                                                                           *)
(* A is the set of aspects that are compared; everything else is only used   *)
(* to find one's way:                                                        *)
(*  keys   response keys            wrap  nullability and lists              *)
(*  base   enum/object targets      scalar  scalar mapping                   *)
(*  lit    __typename literals      share coverage where types are shared    *)
(*  names  exported type names      doc   comments and @deprecated           *)
(*  ro     readonly modifier                                                 *)
EXTENDS GraphQL, TLC

Structural == {"keys", "wrap", "base", "scalar"}

DeclNames(M) == {M.decls[i].n : i \in 1..Len(M.decls)}
Decls(M) == TLCEval([n \in DeclNames(M) |-> M.decls[CHOOSE i \in 1..Len(M.decls) : M.decls[i].n = n]])

ScalarType(cfg, name) ==
  CASE name = "Boolean" -> [k |-> "kw", n |-> "boolean"]
    [] name \in {"String", "ID"} -> [k |-> "kw", n |-> "string"]
    [] name \in {"Int", "Float"} -> [k |-> "kw", n |-> "number"]
    [] OTHER -> IF ~cfg.scalars THEN [k |-> "kw", n |-> "any"]
                ELSE [k |-> "ref", n |-> cfg.scalarPrefix \o name]

\* Removes the wrappers of schema type wrappers w (outside in, N = non-null, L = list) from T
RECURSIVE Peel(_, _)
Peel(T, w) ==
  LET nonnull == w # <<>> /\ Head(w) = "N"
      w1 == IF nonnull THEN Tail(w) ELSE w
  IN  IF T.nul # ~nonnull THEN [ok |-> FALSE, t |-> T]
      ELSE IF w1 = <<>> THEN [ok |-> T.k # "arr", t |-> T]
      ELSE IF T.k # "arr" THEN [ok |-> FALSE, t |-> T]
      ELSE Peel(T.e, Tail(w1))
RECURSIVE Strip(_)
Strip(T) == IF T.k = "arr" THEN Strip(T.e) ELSE T

\* What is left of T once the wrappers of one of the declarations are removed
Cores(T, ds, A) ==
  IF "wrap" \in A
  THEN {c.t : c \in {x \in {Peel(T, d.w) : d \in ds} : x.ok}}
  ELSE {Strip(T)}

IsLits(p) == p.t.k = "lits"
LitKeys(d) == {i \in 1..Len(d.props) : IsLits(d.props[i])}
Prop(d, key) == d.props[CHOOSE i \in 1..Len(d.props) : d.props[i].n = key]
PropKeys(d) == {d.props[i].n : i \in 1..Len(d.props)}

LeafOk(S, cfg, A, core, n) ==
  IF n \in DOMAIN S /\ S[n].k = "ENUM"
  THEN "base" \in A => core.k = "ref" /\ core.n = n
  ELSE /\ "scalar" \in A => LET e == ScalarType(cfg, n) IN core.k = e.k /\ core.n = e.n
       /\ "base" \in A => core.k \in {"kw", "ref"}

RECURSIVE FieldOk(_, _, _, _, _, _, _, _, _)
RECURSIVE AltOk(_, _, _, _, _, _, _)
RECURSIVE CtxOk(_, _, _, _, _, _, _, _, _)

\* What an object of type rt is given: the collected fields and the declaration of each key
Given(S, F, ctx, rt) ==
  LET fs == Collect(S, F, ctx, rt)
  IN  [fs |-> fs,
       own |-> TLCEval([key \in Keys(fs) |-> LET h == Group(fs, key)[1] IN OwnDecl(S, rt, h.lex, h.name)])]

\* Property p of the object type named parent stands for the selections g of a field declared as own
FieldOk(S, F, D, cfg, A, parent, p, g, own) ==
  LET ds == LexDecls(S, g) \cup {own}
  IN  /\ "ro" \in A => p.ro = cfg.readonly
      /\ IF own.n = "__typename"
         THEN /\ "keys" \in A => IsLits(p)
              /\ ("wrap" \in A /\ IsLits(p)) => ~p.t.nul
         ELSE IF IsCompositeType(S, own.n)
         THEN \E core \in Cores(p.t, ds, A) :
                /\ core.k = "ref" /\ core.n \in DOMAIN D
                /\ "names" \in A => core.n = parent \o "_" \o p.n
                /\ CtxOk(S, F, D, cfg, A, core.n, SubCtx(S, g), Poss(S, own.n),
                         UNION {Poss(S, d.n) : d \in ds})
         ELSE \E core \in Cores(p.t, ds, A) : LeafOk(S, cfg, A, core, own.n)

\* Object type named alt stands for what gv gives
AltOk(S, F, D, cfg, A, alt, gv) ==
  LET d    == D[alt]
      keys == Keys(gv.fs)
      seen == PropKeys(d)
  IN  /\ "keys" \in A => /\ keys = seen
                         /\ Len(d.props) = Cardinality(seen)
                         /\ \A i \in 1..Len(d.props) : ~d.props[i].opt
      /\ \A key \in keys \cap seen :
           FieldOk(S, F, D, cfg, A, alt, Prop(d, key), Group(gv.fs, key), gv.own[key])

\* Type named N stands for the selections ctx, made on objects whose types are RT (JT when
\* the more general of the declarations they are selected through are counted as well)
CtxOk(S, F, D, cfg, A, N, ctx, RT, JT) ==
  LET d     == D[N]
      alts  == IF d.k = "obj" THEN {N} ELSE IF d.k = "union" THEN Range(d.alts) ELSE {}
      all   == RT \cup JT
      given == TLCEval([rt \in all |-> Given(S, F, ctx, rt)])
      kinds == TLCEval({given[rt] : rt \in all})
      Fit(B) == LET ok == TLCEval({x \in alts \X kinds : AltOk(S, F, D, cfg, B, x[1], x[2])})
                IN  TLCEval({x \in alts \X all : <<x[1], given[x[2]]>> \in ok})
      B     == IF "share" \in A /\ Cardinality(alts) < Cardinality(RT) THEN A \cup Structural ELSE A
      fit   == Fit(B)
      fitk  == IF "keys" \in B THEN fit ELSE Fit(A \cup {"keys"})
      lits  == TLCEval([alt \in alts |-> UNION {Range(D[alt].props[i].t.vs) : i \in LitKeys(D[alt])}])
      live  == {alt \in alts : \E rt \in RT : <<alt, rt>> \in fit}
      typed(rt) == \E i \in 1..Len(given[rt].fs) : given[rt].fs[i].name = "__typename"
  IN  /\ d.k \in {"obj", "union"}
      /\ \A alt \in alts : alt \in DOMAIN D /\ D[alt].k = "obj"
      /\ d.k = "union" => Len(d.alts) = Cardinality(alts)
      \* every runtime type is covered
      /\ \A rt \in RT : \E alt \in alts : <<alt, rt>> \in fit
      \* no alternative is idle, except for what only a more general declaration admits
      /\ ("share" \in A \/ "keys" \in A) => (RT = JT => alts = live)
      \* literals name exactly the types an alternative stands for
      /\ "lit" \in A =>
           /\ \A alt \in live :
                \A i \in LitKeys(D[alt]) :
                   LET vs == D[alt].props[i].t.vs
                   IN  /\ Range(vs) = lits[alt] /\ Len(vs) = Cardinality(Range(vs))
                       /\ Range(vs) \subseteq JT /\ vs # <<>>
                       /\ \A rt \in Range(vs) \cap RT : <<alt, rt>> \in fitk
           /\ \A rt \in RT : typed(rt) =>
                Cardinality({alt \in alts : rt \in lits[alt]}) = 1
      \* names of the alternatives
      /\ ("names" \in A /\ d.k = "union") =>
           \A alt \in alts : \/ alt = N \o "_$$other"
                             \/ \E t \in JT : alt = N \o "_" \o t /\ (alt \in live => <<alt, t>> \in fitk)

(***************************************************************************)
(* Comments. A type shared by several runtime types, or by the selections    *)
(* nested in them, has the comment of a declaration of one of them.          *)
(***************************************************************************)
\* The letters and digits of some lines. Delimiters of comments, and what else may not stand in one, may
\* be written in any way, but nothing else is lost.
Alphanumeric ==
  LET all == "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789" IN {At(all, i) : i \in 1..Len(all)}
Letters(line) == SelectSeq([i \in 1..Len(line) |-> At(line, i)], LAMBDA c : c \in Alphanumeric)
Words(lines) == FlattenSeq2([i \in 1..Len(lines) |-> Letters(lines[i])])
CommentOk(decl, doc) ==
  IF ~decl.hostile THEN doc = decl.doc
  ELSE Words(doc) = Words(SelectSeq(decl.doc, LAMBDA l : l # "@deprecated"))
DocOf(decl, p) == p.dep = decl.d /\ CommentOk(decl, p.doc)

RECURSIVE DocsOk(_, _, _, _, _, _)
\* uses: the [ctx, rts] that type named N stands for
DocsOk(S, F, D, cfg, N, uses) ==
  LET d     == D[N]
      alts  == IF d.k = "obj" THEN {N} ELSE IF d.k = "union" THEN Range(d.alts) ELSE {}
      given == TLCEval(UNION {{[gv |-> Given(S, F, u.ctx, rt), rt |-> rt] : rt \in u.rts} : u \in uses})
  IN  \A alt \in alts \cap DOMAIN D :
        LET fit == TLCEval({x \in given : AltOk(S, F, D, cfg, Structural, alt, x.gv)})
            at(key) == UNION {LexDecls(S, Group(x.gv.fs, key)) : x \in fit}
        IN  D[alt].k = "obj" /\ fit # {} =>
              \A key \in PropKeys(D[alt]) :
                LET p  == Prop(D[alt], key)
                    to == Strip(p.t)
                    owns == {x.gv.own[key] : x \in fit}
                IN  /\ \/ \E o \in owns : o.n = "__typename"
                       \/ \E decl \in at(key) : DocOf(decl, p)
                    /\ (to.k = "ref" /\ to.n \in DOMAIN D /\ \E o \in owns : IsCompositeType(S, o.n)) =>
                         DocsOk(S, F, D, cfg, to.n,
                                {[ctx |-> SubCtx(S, Group(x.gv.fs, key)), rts |-> Poss(S, x.gv.own[key].n)] : x \in fit})

(***************************************************************************)
(* Modules of documents                                                     *)
(***************************************************************************)
\* Root type of the data, found through the document constant when names are not compared
DataRoot(M, d, A) ==
  IF "names" \in A \/ Len(M.node.args) = 0 \/ M.node.args[1].k # "ref" THEN DataName(d)
  ELSE M.node.args[1].n

DataOk(S, F, cfg, M, d, A) ==
  LET D == Decls(M)
      N == DataRoot(M, d, A)
      RT == Poss(S, RootType(d))
  IN  /\ N \in DOMAIN D
      /\ CtxOk(S, F, D, cfg, A, N, RootCtx(d), RT, RT)
      /\ "doc" \in A => DocsOk(S, F, D, cfg, N, {[ctx |-> RootCtx(d), rts |-> RT]})
      /\ "names" \in A => \A i \in 1..Len(M.decls) : M.decls[i].exp

InputTypeOk(S, cfg, A, core, n) ==
  IF n \in DOMAIN S /\ S[n].k \in {"ENUM", "INPUT_OBJECT"}
  THEN "base" \in A => core.k = "ref" /\ core.n = n
  ELSE LeafOk(S, cfg, A, core, n)

VarProps(S, cfg, A, props, vars) ==
  /\ "keys" \in A => /\ Len(props) = Len(vars)
                     /\ {props[i].n : i \in 1..Len(props)} = {vars[i].name : i \in 1..Len(vars)}
  /\ "order" \in A => \A i \in 1..(Len(props) - 1) : props[i].rank < props[i + 1].rank
  /\ \A i \in 1..Len(props) : \A j \in 1..Len(vars) :
       props[i].n = vars[j].name =>
         /\ "wrap" \in A => props[i].opt = (vars[j].w = <<>> \/ Head(vars[j].w) # "N")
         /\ \E core \in Cores(props[i].t, {vars[j]}, A) : InputTypeOk(S, cfg, A, core, vars[j].n)

VarsOk(S, cfg, M, d, A) ==
  IF d.op = "fragment" \/ Len(d.vars) = 0
  THEN /\ "keys" \in A => (d.op = "fragment" \/ (Len(M.node.args) = 2 /\ M.node.args[2].k = "kw"
                                                 /\ M.node.args[2].n = "never"))
       /\ "names" \in A => DataName(d) \o "Variables" \notin DeclNames(M)
  ELSE LET D == Decls(M)
           N == IF "names" \in A \/ Len(M.node.args) < 2 \/ M.node.args[2].k # "ref"
                THEN DataName(d) \o "Variables" ELSE M.node.args[2].n
       IN  /\ N \in DOMAIN D /\ D[N].k = "obj"
           /\ VarProps(S, cfg, A, D[N].props, d.vars)

\* Every name is declared once and resolves; imports and document constant are right
WellFormed(S, cfg, M, d) ==
  LET names  == DeclNames(M)
      refs   == Range(M.refs)
      global == {n \in refs \ names : n \in DOMAIN S /\ S[n].k \in {"ENUM", "INPUT_OBJECT"}}
      scalar == {n \in refs : cfg.scalars /\ \E s \in DOMAIN S : S[s].k = "SCALAR"
                                 /\ s \notin BuiltinScalars /\ n = cfg.scalarPrefix \o s}
      from(m) == UNION {Range(M.imports[i].names) : i \in {j \in 1..Len(M.imports) : M.imports[j].from = m}}
      imported == UNION {Range(M.imports[i].names) : i \in 1..Len(M.imports)}
      vars == Len(d.vars) > 0 /\ d.op # "fragment"
  IN  [parses |-> M.parses,
       once   |-> /\ Len(M.decls) = Cardinality(names)
                  /\ names \cap imported = {}
                  /\ Len(FlattenSeq2([i \in 1..Len(M.imports) |-> M.imports[i].names])) = Cardinality(imported)
                  /\ \A i \in 1..Len(M.decls) :
                       M.decls[i].k = "obj" => Len(M.decls[i].props) = Cardinality(PropKeys(M.decls[i])),
       closed |-> refs \subseteq names \cup imported \cup scalar,
       shapes |-> M.other = <<>> /\ \A i \in 1..Len(M.decls) : M.decls[i].k \in {"obj", "union"},
       globals |-> /\ from(cfg.globalsModule) = global
                   /\ \A i \in 1..Len(M.imports) : M.imports[i].from \in {cfg.globalsModule, cfg.nodeModule},
       node   |-> /\ from(cfg.nodeModule) = {NodeName(d)}
                  /\ M.node.n = NodeName(d)
                  /\ M.node.default
                  /\ Len(M.node.args) = (IF d.op = "fragment" THEN 1 ELSE 2)
                  /\ M.node.args[1].k = "ref" /\ M.node.args[1].n \in names
                  /\ d.op # "fragment" =>
                       IF vars THEN M.node.args[2].k = "ref" /\ M.node.args[2].n \in names
                       ELSE M.node.args[2].k = "kw" /\ M.node.args[2].n = "never"]

(***************************************************************************)
(* The global-types module                                                  *)
(***************************************************************************)
GlobalDeclOk(S, cfg, A, d) ==
  LET t == S[d.n]
  IN  IF t.k = "ENUM"
      THEN /\ d.k = "enum"
           /\ "keys" \in A => /\ {d.vals[i].n : i \in 1..Len(d.vals)} = Range(t.vals)
                              /\ Len(d.vals) = Cardinality(Range(t.vals))
                              /\ \A i \in 1..Len(d.vals) : d.vals[i].v = d.vals[i].n
           /\ "doc" \in A => CommentOk(t, d.doc)
      ELSE /\ d.k = "obj"
           /\ "keys" \in A => /\ PropKeys(d) = DOMAIN t.f
                              /\ Len(d.props) = Cardinality(DOMAIN t.f)
           /\ \A i \in 1..Len(d.props) :
                LET p == d.props[i] IN
                p.n \in DOMAIN t.f =>
                  LET f == t.f[p.n]
                  IN  /\ "wrap" \in A => p.opt = (f.w = <<>> \/ Head(f.w) # "N")
                      /\ \E core \in Cores(p.t, {f}, A) : InputTypeOk(S, cfg, A, core, f.n)
                      /\ "doc" \in A => DocOf(f, p)

GlobalsOk(S, cfg, A, M) ==
  \A i \in 1..Len(M.decls) : M.decls[i].n \in DOMAIN S => GlobalDeclOk(S, cfg, A, M.decls[i])

GlobalsWellFormed(S, cfg, M) ==
  LET names == DeclNames(M) IN
  /\ M.parses /\ M.other = <<>> /\ M.imports = <<>>
  /\ Len(M.decls) = Cardinality(names)
  /\ Range(M.refs) \subseteq names \cup
       {n \in Range(M.refs) : cfg.scalars /\ \E s \in DOMAIN S : S[s].k = "SCALAR" /\ n = cfg.scalarPrefix \o s}
  /\ \A i \in 1..Len(M.decls) : M.decls[i].exp
(***************************************************************************)
(* What a document that parses should lead to                               *)
(***************************************************************************)
RECURSIVE FieldsIn(_)
FieldsIn(sel) ==
  UNION {LET h == sel[i] IN
         CASE h.k = "f" -> {<<h.key, h.name, h.args>>} \cup FieldsIn(h.sel)
           [] h.k = "i" -> FieldsIn(h.sel)
           [] OTHER -> {} : i \in 1..Len(sel)}
\* No response key stands for two different fields anywhere
SimpleKeys(F, d) ==
  LET all == FieldsIn(d.sel) \cup UNION {FieldsIn(F[n].sel) : n \in UsedFrags(F, d.sel)}
  IN  \A x, y \in all : x[1] = y[1] => x = y

RootMistakes(S, d) ==
  LET t == RootType(d) IN
  IF t \notin DOMAIN S \/ S[t].k = "INPUT_OBJECT" THEN Mistake("unknown-type", <<>>, t)
  ELSE IF S[t].k \notin CompositeKinds THEN Mistake("wrong-selection", d.pos, t)
  ELSE <<>>

\* How many selection sets lie inside of each other, spread fragments included
DepthLimit == 128
RECURSIVE Depth(_, _, _)
Depth(F, sel, active) ==
  LET of(h) == CASE h.k = "s" -> IF h.frag \in DOMAIN F /\ h.frag \notin active THEN Depth(F, F[h.frag].sel, active \cup {h.frag}) ELSE 0
                 [] h.sel = <<>> -> 0
                 [] OTHER -> Depth(F, h.sel, active)
      all == {of(sel[i]) : i \in 1..Len(sel)} \cup {0}
  IN  1 + CHOOSE m \in all : \A x \in all : x <= m

\* class: "fail" must be rejected, "ok" must be written, "any" is not determined
Open == [class |-> "any", F |-> <<>>, files |-> {}, mistakes |-> <<>>, exact |-> FALSE, badvars |-> {}, judge |-> FALSE]
Verdict(S, F, d) ==
  LET root == RootMistakes(S, d)
      mist == IF root # <<>> THEN root ELSE Mistakes(S, F, d.sel, RootType(d), RootActive(d))
      recursive == \E i \in 1..Len(mist) : mist[i].c = "recursive"
      used == UsedFrags(F, d.sel)
      fragile == \E n \in used : ~IsCompositeType(S, F[n].on)
      \* a fragment's own mistakes may hide the spread through which it reaches itself, if it is inside
      others(l) == \E i \in 1..Len(l) : l[i].c # "recursive"
      hides(l) == \E i \in 1..Len(l) : l[i].c \notin {"recursive", "unknown-fragment", "missing-selection"}
      hidden == recursive /\ \E n \in used : ~fragile /\ hides(Mistakes(S, F, F[n].sel, F[n].on, {n}))
      tainted == fragile \/ (~recursive /\ \E n \in used : ~FragmentClean(S, F, F[n]))
      smooth == \/ SimpleKeys(F, d)
                \/ ~recursive /\ mist = <<>> /\ ~tainted
                   /\ ConflictFree(S, F, RootCtx(d), Poss(S, RootType(d)))
      deep == Depth(F, d.sel, RootActive(d)) > DepthLimit
      vars == IF d.op = "fragment" THEN {} ELSE {i \in 1..Len(d.vars) : VarBad(S, d.vars[i])}
      whole == [Open EXCEPT !.F = F, !.mistakes = mist, !.badvars = {d.vars[i].pos : i \in vars}]
  IN
  IF hidden /\ ~others(mist) THEN whole
  ELSE IF deep THEN (IF tainted /\ mist = <<>> THEN whole ELSE [whole EXCEPT !.class = "fail"])
  ELSE IF mist # <<>> THEN [whole EXCEPT !.class = "fail", !.exact = smooth /\ ~fragile /\ ~hidden]
  ELSE IF ~smooth THEN whole
  ELSE IF vars # {} THEN [whole EXCEPT !.class = "fail", !.exact = TRUE]
  ELSE IF tainted THEN whole
  ELSE [whole EXCEPT !.class = "ok", !.exact = TRUE, !.judge = TRUE]
=============================================================================
