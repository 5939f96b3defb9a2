------------------------------ MODULE Compiler ------------------------------
(***************************************************************************)
(* A reference compiler: from a document to one module that Module accepts.  *)
(* It shows that what is demanded can be met (MCSelect), and its wrong        *)
(* variants show that the demands exclude what they should.                  *)
(***************************************************************************)
EXTENDS Module, Config

T0 == [nul |-> FALSE, k |-> "other", n |-> "", vs |-> <<>>]
Kw(n) == [T0 EXCEPT !.k = "kw", !.n = n]
Ref(n) == [T0 EXCEPT !.k = "ref", !.n = n]
Lits(vs) == [T0 EXCEPT !.k = "lits", !.vs = vs]

RECURSIVE WrapType(_, _)
WrapType(core, w) ==
  LET nonnull == w # <<>> /\ Head(w) = "N"
      w1 == IF nonnull THEN Tail(w) ELSE w
  IN  IF w1 = <<>> THEN [core EXCEPT !.nul = ~nonnull]
      ELSE [nul |-> ~nonnull, k |-> "arr", n |-> "", vs |-> <<>>, e |-> WrapType(core, Tail(w1))]

LeafType(S, cfg, n) ==
  IF n \in DOMAIN S /\ S[n].k \in {"ENUM", "INPUT_OBJECT"} THEN Ref(n)
  ELSE LET s == ScalarType(cfg, n) IN [T0 EXCEPT !.k = s.k, !.n = s.n]

SE == INSTANCE SequencesExt
SetToSeq0(s) == SE!SetToSeq(s)

\* v: variant of the compiler, "" for the right one
Collected(S, F, ctx, rt, v) ==
  LET fs == Collect(S, F, ctx, rt)
      first == SelectSeq(fs, LAMBDA x : TRUE)
  IN  IF v = "first-wins" /\ fs # <<>>
      \* later selections of a key are forgotten
      THEN LET keep == {i \in 1..Len(fs) : \A j \in 1..(i - 1) : fs[j].key # fs[i].key}
               Idx(n) == IF n \in keep THEN <<fs[n]>> ELSE <<>>
               R[n \in 0..Len(fs)] == IF n = 0 THEN <<>> ELSE R[n - 1] \o Idx(n)
           IN  R[Len(fs)]
      ELSE IF v = "no-spreads" THEN Collect(S, <<>>, ctx, rt)
      ELSE fs

Gives(S, F, ctx, rt, v) ==
  LET fs == Collected(S, F, ctx, rt, v)
  IN  [fs |-> fs, own |-> [key \in Keys(fs) |-> LET h == Group(fs, key)[1] IN
                            IF v = "interface-types" THEN Decl(S, h.lex, h.name) ELSE OwnDecl(S, rt, h.lex, h.name)]]

RECURSIVE TypeDecls(_, _, _, _, _, _, _)
RECURSIVE AltDecls(_, _, _, _, _, _, _, _)
\* Declarations for the type named N of the selections ctx on objects of the types RT
TypeDecls(S, F, cfg, N, ctx, RT, v) ==
  LET gv == [rt \in RT |-> Gives(S, F, ctx, rt, v)]
      same(a, b) == IF v = "share-by-keys" THEN Keys(gv[a].fs) = Keys(gv[b].fs) ELSE gv[a] = gv[b]
      classes == {{b \in RT : same(a, b)} : a \in RT}
      big == {c \in classes : Cardinality(c) > 1}
      shared == IF big = {} THEN {} ELSE CHOOSE c \in big : \A x \in big : Cardinality(x) <= Cardinality(c)
      separate == IF v = "drop-last" /\ Cardinality(RT) > 2
                  THEN (RT \ shared) \ {CHOOSE x \in RT : TRUE} ELSE RT \ shared
      parts == {<<{rt}, N \o "_" \o rt>> : rt \in separate}
               \cup (IF shared = {} THEN {} ELSE {<<shared, N \o "_$$other">>})
      ps == SetToSeq0(parts)
  IN  IF Cardinality(classes) = 1 /\ v # "drop-last" THEN AltDecls(S, F, cfg, N, ctx, RT, gv[CHOOSE rt \in RT : TRUE], v)
      ELSE FlattenSeq2([i \in 1..Len(ps) |-> AltDecls(S, F, cfg, ps[i][2], ctx, ps[i][1], gv[CHOOSE rt \in ps[i][1] : TRUE], v)])
           \o <<[n |-> N, exp |-> TRUE, k |-> "union", alts |-> [i \in 1..Len(ps) |-> ps[i][2]]]>>

AltDecls(S, F, cfg, alt, ctx, rts, gv, v) ==
  LET keys == SetToSeq0(Keys(gv.fs))
      prop(key) ==
        LET g == Group(gv.fs, key)
            own == gv.own[key]
            core == IF own.n = "__typename" THEN Lits(SetToSeq0(rts))
                    ELSE IF IsCompositeType(S, own.n) THEN Ref(alt \o "_" \o key)
                    ELSE LeafType(S, cfg, own.n)
            w == IF v = "lose-inner" /\ ListDepth(own.w) > 1 THEN Tail(own.w) ELSE own.w
        IN  [n |-> key, opt |-> FALSE, ro |-> cfg.readonly, t |-> WrapType(core, w), doc |-> own.doc, dep |-> own.d, rank |-> 0]
      sub(key) ==
        LET own == gv.own[key]
        IN  IF own.n # "__typename" /\ IsCompositeType(S, own.n)
            THEN TypeDecls(S, F, cfg, alt \o "_" \o key, SubCtx(S, Group(gv.fs, key)), Poss(S, own.n), v)
            ELSE <<>>
  IN  FlattenSeq2([i \in 1..Len(keys) |-> sub(keys[i])])
      \o <<[n |-> alt, exp |-> TRUE, k |-> "obj", props |-> [i \in 1..Len(keys) |-> prop(keys[i])]]>>

RECURSIVE RefsOf(_)
RefsOf(t) == IF t.k = "arr" THEN RefsOf(t.e) ELSE IF t.k = "ref" THEN {t.n} ELSE {}

Emit(S, F, cfg, d, v) ==
  LET N == DataName(d)
      data == TypeDecls(S, F, cfg, N, RootCtx(d), Poss(S, RootType(d)), v)
      hasvars == d.op # "fragment" /\ d.vars # <<>>
      vprop(i) == LET x == d.vars[i] IN
        [n |-> x.name, opt |-> x.w = <<>> \/ Head(x.w) # "N", ro |-> FALSE, t |-> WrapType(LeafType(S, cfg, x.n), x.w),
         doc |-> <<>>, dep |-> FALSE, rank |-> i]
      vdecl == IF hasvars THEN <<[n |-> N \o "Variables", exp |-> TRUE, k |-> "obj", props |-> [i \in 1..Len(d.vars) |-> vprop(i)]]>> ELSE <<>>
      decls == data \o vdecl
      obj == {i \in 1..Len(decls) : decls[i].k = "obj"}
      refs == UNION {UNION {RefsOf(decls[i].props[j].t) : j \in 1..Len(decls[i].props)} : i \in obj}
              \cup UNION {Range(decls[i].alts) : i \in (1..Len(decls)) \ obj} \cup {N, NodeName(d)}
      globals == {n \in refs : n \in DOMAIN S /\ S[n].k \in {"ENUM", "INPUT_OBJECT"}}
  IN  [parses |-> TRUE, decls |-> decls, other |-> <<>>, refs |-> SetToSeq0(refs),
       imports |-> <<[from |-> cfg.nodeModule, names |-> <<NodeName(d)>>, typ |-> FALSE]>>
                   \o (IF globals = {} THEN <<>> ELSE <<[from |-> cfg.globalsModule, names |-> SetToSeq0(globals), typ |-> FALSE]>>),
       node |-> [n |-> NodeName(d), default |-> TRUE,
                 args |-> <<Ref(N)>> \o (IF d.op = "fragment" THEN <<>>
                                         ELSE <<IF hasvars THEN Ref(N \o "Variables") ELSE Kw("never")>>)]]

\* The global-types module with the types of the given names
EmitGlobals(S, cfg, names, v) ==
  LET ns == SetToSeq0(names)
      prop(t, x, i) == LET f == S[t].f[x]
                           w == IF v = "lose-inner" /\ ListDepth(f.w) > 1 THEN Tail(f.w) ELSE f.w
                       IN [n |-> x, opt |-> f.w = <<>> \/ Head(f.w) # "N", ro |-> FALSE, t |-> WrapType(LeafType(S, cfg, f.n), w),
                           doc |-> f.doc, dep |-> f.d, rank |-> i]
      val(x) == [n |-> x, v |-> x]
      decl(t) == IF S[t].k = "ENUM"
                 THEN [n |-> t, exp |-> TRUE, k |-> "enum", vals |-> [i \in 1..Len(S[t].vals) |-> val(S[t].vals[i])], doc |-> S[t].doc]
                 ELSE LET fs == SetToSeq0(DOMAIN S[t].f)
                      IN [n |-> t, exp |-> TRUE, k |-> "obj", props |-> [i \in 1..Len(fs) |-> prop(t, fs[i], i)], doc |-> S[t].doc]
      decls == [i \in 1..Len(ns) |-> decl(ns[i])]
      obj == {i \in 1..Len(decls) : decls[i].k = "obj"}
      refs == UNION {UNION {RefsOf(decls[i].props[j].t) : j \in 1..Len(decls[i].props)} : i \in obj}
  IN  [parses |-> TRUE, decls |-> decls, other |-> <<>>, refs |-> SetToSeq0(refs), imports |-> <<>>]

\* Whether a module is an acceptable outcome for a document
Acceptable(S, F, cfg, M, d) ==
  /\ DataOk(S, F, cfg, M, d, {"keys", "wrap", "base", "scalar", "lit", "share", "names", "doc", "ro"})
  /\ VarsOk(S, cfg, M, d, {"keys", "order", "wrap", "base", "scalar", "names"})
  /\ LET w == WellFormed(S, cfg, M, d) IN \A c \in DOMAIN w : w[c]
=============================================================================
