-------------------------------- MODULE Qlc --------------------------------
(* The program as a state machine over histories of edits and runs.          *)
(*                                                                           *)
(*  tree   path -> what the user put there: documents, imported files,       *)
(*         schemas, config files, directories                                *)
(*  out    path -> identity of the bytes of a file, last written by a run    *)
(*         or by the user                                                    *)
(*  memo   sources of an output -> the bytes they led to, sources without    *)
(*         descriptions -> the types, tree and options -> the whole result   *)
(*  run    the run in progress, or NoRun                                     *)
(*  bad    clauses of the properties that were broken, as                    *)
(*         [p |-> property, c |-> clause, f |-> file]                        *)
(*                                                                           *)
(* Every action takes the observed result of its step; its clauses say what  *)
(* the result may be. MCQlc chooses results with a model of the compiler,    *)
(* QlcTrace takes them from recordings of the real program.                  *)
EXTENDS Module, Imports, Config, Diagnostics

VARIABLES tree, out, memo, run, bad
qvars == <<tree, out, memo, run, bad>>

NoRun == [phase |-> "none"]

No(p, c, f, cond) == IF cond THEN {} ELSE {[p |-> p, c |-> c, f |-> f]}

(***************************************************************************)
(* What a run works on                                                      *)
(***************************************************************************)
Under(root, f) == root = "" \/ HasPrefix(f, root \o "/")
Unlistable(t) ==
  {d \in DOMAIN t : t[d].kind = "dir" /\ t[d].st = "unlistable"}
Hidden(t, root, f) ==
  \E d \in Unlistable(t) : (d = root \/ Under(root, d)) /\ HasPrefix(f, d \o "/")
Documents(t, root) ==
  {f \in DOMAIN t : /\ t[f].kind = "file" /\ HasSuffix(f, ".graphql")
                    /\ BaseName(f) # ".graphql"
                    /\ Under(root, f) /\ ~Hidden(t, root, f)}
Target(f) == f \o ".d.ts"
Blocked(t, p) == p \in DOMAIN t /\ (t[p].kind # "file" \/ t[p].st = "readonly")

BadDirs(t, root) ==
  {d \in Unlistable(t) : d = root \/ (Under(root, d) /\ ~Hidden(t, root, d))}
  \cup (IF root # "" /\ (root \notin DOMAIN t \/ t[root].kind # "dir") THEN {root} ELSE {})

(***************************************************************************)
(* What a document should lead to                                           *)
(***************************************************************************)
Unspecified == {"fuzz"}
ReadFaults == {"unreadable", "nonutf"}
ParseFaults == {"bad", "multi", "empty"}

\* class: "fail" must be rejected, "ok" must be written, "any" is not determined
Expect(S, t, cfg, f) ==
  LET s == t[f]
      files == Scope(t, cfg.root, cfg.importPrefix, f)
      base == [Open EXCEPT !.files = files]
  IN
  IF s.st \in Unspecified \/ \E g \in files : t[g].st \in Unspecified THEN base
  ELSE IF s.st \in ReadFaults \cup ParseFaults \/ (s.st = "ok" /\ s.def.op = "anon")
  THEN [base EXCEPT !.class = "fail"]
  ELSE IF AmbiguousScope(t, files) THEN base
  ELSE
  [Verdict(S, Fragments(t, files), s.def) EXCEPT !.files = files]

\* Everything the bytes of an output may depend on
Sources(t, cfg, files, f) ==
  [f |-> f, text |-> t[f].cid, scope |-> {<<g, t[g].cid>> : g \in files},
   schema |-> t[cfg.schema].cid,
   cfg |-> [cfg EXCEPT !.threads = 0, !.depr = FALSE]]

\* the same but for descriptions
BareSources(t, cfg, files, f) ==
  [Sources(t, cfg, files, f) EXCEPT !.schema = "without descriptions: " \o t[cfg.schema].plain]

\* What is remembered of the first output from the same sources
Entry(cfg, post) ==
  [post |-> post, depr |-> cfg.depr, spell |-> tree[cfg.schema].spell, schema |-> tree[cfg.schema].cid]
Remember(new) == [k \in DOMAIN memo \cup DOMAIN new |-> IF k \in DOMAIN memo THEN memo[k] ELSE new[k]]

\* Another output from the same sources: which promise is broken depends on what else has changed
SameClauses(key, bkey, cfg, post, types, c, f) ==
  (IF key \notin DOMAIN memo \/ memo[key].post = post THEN {}
   ELSE No("C14", c, f, FALSE)
        \cup No("C17", c, f, memo[key].depr = cfg.depr)
        \cup No("C12", c, f, memo[key].spell = tree[cfg.schema].spell))
  \cup (IF bkey \notin DOMAIN memo \/ memo[bkey].schema = tree[cfg.schema].cid THEN {}
        ELSE No("C16", "types-depend-on-descriptions", f, memo[bkey].post = types))

Located(ds) == SelectSeq(ds, LAMBDA d : d[1] > 0)
LineCol(d) == <<d[1], d[2]>>
MistakePos(ms) == LET l == SelectSeq(ms, LAMBDA m : m.pos # <<>>) IN [i \in 1..Len(l) |-> <<l[i].pos[1], l[i].pos[2]>>]
LooseNames(ms) == LET l == SelectSeq(ms, LAMBDA m : m.pos = <<>>) IN [i \in 1..Len(l) |-> l[i].n]
BagPos(s) == BagOf([i \in 1..Len(s) |-> LineCol(s[i])])

RECURSIVE FieldPos(_)
FieldPos(sel) ==
  UNION {LET h == sel[i] IN
         CASE h.k = "f" -> {LineCol(h.pos)} \cup FieldPos(h.sel)
           [] h.k = "i" -> FieldPos(h.sel)
           [] OTHER -> {} : i \in 1..Len(sel)}
RECURSIVE SpreadPos(_)
SpreadPos(sel) ==
  UNION {CASE sel[i].k = "s" -> {LineCol(sel[i].pos)} [] OTHER -> SpreadPos(sel[i].sel) : i \in 1..Len(sel)}
VarPos(d) == IF d.op = "fragment" THEN {} ELSE {LineCol(d.vars[i].pos) : i \in 1..Len(d.vars)}

(***************************************************************************)
(* The emitted module of a document                                         *)
(***************************************************************************)
AllAspects == {"keys", "wrap", "base", "scalar", "lit", "share", "names", "doc", "ro"}
AspectProperty(a) ==
  CASE a \in {"keys", "base"} -> "C04" [] a = "wrap" -> "C05" [] a \in {"lit", "share"} -> "C06"
    [] a = "scalar" -> "C18" [] a = "names" -> "C19" [] a = "doc" -> "C16" [] a = "ro" -> "C13"

DataClauses(S, F, cfg, M, d, f) ==
  IF DataOk(S, F, cfg, M, d, AllAspects) THEN {}
  ELSE LET alone == {a \in AllAspects : ~DataOk(S, F, cfg, M, d, {a})}
           both == {a \in AllAspects : ~DataOk(S, F, cfg, M, d, {"keys", a})}
           all  == {a \in AllAspects : ~DataOk(S, F, cfg, M, d, Structural \cup {a})}
           blame == IF alone # {} THEN alone ELSE IF both # {} THEN both ELSE IF all # {} THEN all ELSE {"keys", "share"}
       IN  {[p |-> AspectProperty(a), c |-> "data-" \o a, f |-> f] : a \in blame}

VarAspects == {"keys", "order", "wrap", "base", "scalar", "names"}
VarAspectProperties(a) ==
  CASE a = "scalar" -> {"C07", "C18"} [] a = "names" -> {"C19"} [] OTHER -> {"C07"}
VarClauses(S, cfg, M, d, f) ==
  IF VarsOk(S, cfg, M, d, VarAspects) THEN {}
  ELSE LET alone == {a \in VarAspects : ~VarsOk(S, cfg, M, d, {a})}
           blame == IF alone # {} THEN alone ELSE {"keys"}
       IN  UNION {{[p |-> q, c |-> "vars-" \o a, f |-> f] : q \in VarAspectProperties(a)} : a \in blame}

\* With the fragments of other files of the tree the data would be right
OtherFragments(F, files) ==
  LET defs(n) == {tree[g].def : g \in {h \in DOMAIN tree : tree[h].kind = "file" /\ tree[h].st = "ok" /\ "def" \in DOMAIN tree[h]
                                          /\ tree[h].def.op = "fragment" /\ tree[h].def.name = n}}
  IN  {[F EXCEPT ![n] = d] : <<n, d>> \in UNION {{n} \X defs(n) : n \in DOMAIN F}}
ForeignFragment(S, e, cfg, M, d) ==
  \E G \in OtherFragments(e.F, e.files) \ {e.F} :
    /\ \A n \in DOMAIN G : FragmentClean(S, G, G[n])
    /\ DataOk(S, G, cfg, M, d, {"keys"})

FormClauses(S, cfg, M, d, f) ==
  IF ~M.parses THEN UNION {No(q, "parses", f, FALSE) : q \in {"C04", "C05", "C15", "C16", "C18"}
                                                        \cup (IF d.op # "fragment" /\ d.vars # <<>> THEN {"C07"} ELSE {})}
  ELSE LET w == WellFormed(S, cfg, M, d)
       IN  UNION {No("C15", c, f, w[c]) : c \in DOMAIN w}

NodeUsable(M) == M.parses /\ M.node.args # <<>>

ModuleClauses(S, cfg, M, d, e, f) ==
  FormClauses(S, cfg, M, d, f)
  \cup (IF ~e.judge THEN {}
        ELSE IF ~NodeUsable(M) THEN No("C04", "data-keys", f, FALSE)
        ELSE (IF DataOk(S, e.F, cfg, M, d, {"keys"}) THEN {} ELSE No("C09", "foreign-fragment", f, ~ForeignFragment(S, e, cfg, M, d)))
             \cup DataClauses(S, e.F, cfg, M, d, f) \cup VarClauses(S, cfg, M, d, f))

ModuleGlobals(S, M) ==
  IF ~M.parses THEN {} ELSE {n \in Range(M.refs) : n \in DOMAIN S /\ S[n].k \in {"ENUM", "INPUT_OBJECT"}}

(***************************************************************************)
(* Actions                                                                  *)
(***************************************************************************)
Init ==
  /\ tree = <<>> /\ out = <<>> /\ memo = <<>> /\ run = NoRun /\ bad = {}

Put(f, src) ==
  /\ run = NoRun
  /\ tree' = [g \in DOMAIN tree \cup {f} |-> IF g = f THEN src ELSE tree[g]]
  /\ out' = IF src.kind # "file" THEN out
            ELSE [g \in DOMAIN out \cup {f} |-> IF g = f THEN src.cid ELSE out[g]]
  /\ bad' = {}
  /\ UNCHANGED <<memo, run>>

Remove(f) ==
  /\ run = NoRun
  /\ tree' = [g \in DOMAIN tree \ {f} |-> tree[g]]
  /\ out' = [g \in DOMAIN out \ {f} |-> out[g]]
  /\ bad' = {}
  /\ UNCHANGED <<memo, run>>

\* schemas maps the name a schema file carries to its meaning
Start(cli, schemas) ==
  /\ run = NoRun
  /\ LET state == ConfigState(cli, tree)
         cfg == Effective(cli, FileOptions(cli, tree))
         sch == IF cfg.schema \in DOMAIN tree /\ tree[cfg.schema].kind = "file"
                   /\ tree[cfg.schema].st = "ok" THEN tree[cfg.schema].sch ELSE ""
         phase == CASE state = "usage" -> "usage"
                    [] state = "bad" -> "refuse-config"
                    [] OTHER -> IF sch = "" THEN "refuse-schema" ELSE "compile"
     IN  run' = [phase |-> phase, cfg |-> cfg,
                 S |-> IF phase = "compile" THEN schemas[sch] ELSE <<>>,
                 todo |-> IF phase = "compile" THEN Documents(tree, cfg.root) ELSE {},
                 gmin |-> {}, gmax |-> {}, wrote |-> {}, loose |-> <<>>, silent |-> 0, open |-> FALSE, any |-> FALSE, cli |-> cli,
                 imperrs |-> {}, impwant |-> {}, gerr |-> FALSE, tally |-> [ok |-> 0, fail |-> 0, any |-> 0]]
  /\ bad' = {}
  /\ UNCHANGED <<tree, out, memo>>

\* r: [wrote, post, has, mod, errs, warns, werr]
DocClauses(f, e, r, own, impl) ==
  LET S == run.S
      cfg == run.cfg
      s == tree[f]
      blocked == Blocked(tree, Target(f))
      ok == s.st = "ok"
      located == Located(own)
      wantpos == MistakePos(e.mistakes)
      got == BagPos(located)
      want == BagOf(wantpos)
      recur == {<<e.mistakes[i].pos[1], e.mistakes[i].pos[2]>> :
                  i \in {j \in 1..Len(e.mistakes) : e.mistakes[j].c = "recursive"}}
      badvars == {LineCol(p) : p \in e.badvars}
      nerrs == Len(own) + Cardinality(impl) + r.werr
      key == Sources(tree, cfg, e.files, f)
  IN
  CASE e.class = "fail" ->
         No("C11", "rejected-but-written", f, ~r.wrote)
         \cup No("C03", "failed-but-written", f, ~r.wrote)
         \cup No("C07", "rejected-but-written", f, e.badvars = {} \/ e.mistakes # <<>> \/ ~r.wrote)
         \cup No("C10", "recursion-accepted", f, recur = {} \/ ~r.wrote)
         \cup (IF ~ok \/ ~e.exact THEN {}
               ELSE IF e.mistakes # <<>>
               THEN LET known == IF \E i \in 1..Len(e.mistakes) : e.mistakes[i].pos # <<>>
                                 THEN got = want ELSE located = <<>>
                        beyond == {<<e.mistakes[i].pos[1], e.mistakes[i].pos[2]>> :
                                     i \in {j \in 1..Len(e.mistakes) : e.mistakes[j].c = "unknown-fragment"}}
                    IN No("C11", "mistakes", f, known)
                       \cup No("C09", "out-of-scope-accepted", f, beyond \subseteq DOMAIN got)
                       \cup No("C10", "recursion", f, recur \subseteq DOMAIN got)
               ELSE No("C07", "bad-variable", f, got # <<>> /\ DOMAIN got \subseteq badvars))
    [] e.class = "ok" ->
         (IF got = <<>> /\ own = <<>> THEN {}
          ELSE LET spread == DOMAIN got \cap SpreadPos(s.def.sel)
                   var == DOMAIN got \cap VarPos(s.def)
               IN  No("C09", "in-scope-rejected", f, spread = {})
                   \cup No("C07", "variable-rejected", f, var = {})
                   \cup No("C04", "valid-rejected", f, spread # {} \/ var # {})
                   \cup No("C11", "valid-rejected", f, FALSE))
         \cup (IF blocked
               THEN No("C03", "write-fault-silent", f, r.werr > 0)
                    \cup No("C03", "write-fault-written", f, ~r.wrote)
               ELSE No("C02", "not-compiled", f, r.wrote \/ nerrs > 0)
                    \cup No("C01", "not-compiled", f, r.wrote \/ nerrs > 0)
                    \cup No("C03", "false-error", f, r.wrote \/ own # <<>>))
    [] OTHER -> {}

WarnClauses(f, e, r) ==
  IF ~e.exact \/ r.werr > 0 THEN {}       \* nothing is said about documents that cannot be written
  ELSE LET d == tree[f].def
           got == BagPos(r.warns)
       IN  IF e.mistakes = <<>>
           THEN LET t == RootType(d)
                    w == WarningsOf(run.S, e.F, d.sel, t, Poss(run.S, t), run.cfg.depr)
                IN  No("C17", "warnings", f, got = BagPos(w))
           ELSE No("C17", "warnings-disabled", f, run.cfg.depr \/ \A p \in DOMAIN got : p \notin FieldPos(d.sel))

\* What the diagnostics with a position say, where that is recorded
SaidClauses(f, e, r, implines) ==
  IF "said" \notin DOMAIN r THEN {}
  ELSE
  LET S == run.S
      of(lvl) == SelectSeq(r.said, LAMBDA s : s.lvl = lvl /\ (lvl = "error" => s.line \notin implines))
      bare == \E i \in 1..Len(r.errs) : r.errs[i][1] = 0
      exact == e.exact /\ ~bare /\ f \in DOMAIN tree /\ tree[f].st = "ok"
  IN  No("C22", "quote", f, \A i \in 1..Len(r.said) : Quoted(r.said[i], r.text))
      \cup (IF ~exact THEN {}
            ELSE IF e.mistakes # <<>>
            THEN No("C22", "subject", f, MistakesNamed(S, e.F, e.mistakes, of("error")))
                 \cup No("C22", "suggestions", f, Suggested(S, e.F, e.mistakes, of("error")))
            ELSE IF r.werr > 0 THEN {}
            ELSE No("C22", "warned-about", f, WarningsNamed(S, e.F, tree[f].def, RootType(tree[f].def), run.cfg.depr, of("warning"))))

\* What the TypeScript compiler makes of the module with the helpers of the npm package, where that is
\* recorded: [errs, data, vars, both], the names of the exported types that DataOf and VariablesOf give,
\* and whether they also do for a type that may be one module or another
TypedClauses(f, e, r) ==
  IF "typed" \notin DOMAIN r \/ ~e.judge THEN {}
  ELSE LET d == tree[f].def
       IN  No("C23", "type-check", f, r.typed.errs = 0)
           \cup No("C23", "either", f, r.typed.both)
           \cup No("C23", "data-of", f, DataName(d) \in Range(r.typed.data))
           \cup No("C23", "variables-of", f,
                   IF d.op = "fragment" \/ d.vars = <<>> THEN r.typed.vars = <<"never">>
                   ELSE DataName(d) \o "Variables" \in Range(r.typed.vars))

\* kinds: what the helpers give for the kinds of documents with data D and variables v
HelperClauses(h) ==
  No("C23", "helpers-type-check", "", h.errs = 0)
  \cup UNION {LET x == h.kinds[i] IN
              No("C23", "kind-data", x.kind, x.data = <<"D">>)
              \cup No("C23", "kind-variables", x.kind, x.vars = <<IF x.kind = "Fragment" THEN "never" ELSE x.v>>)
              : i \in 1..Len(h.kinds)}

ImportTags(f) ==
  IF tree[f].kind = "file" /\ tree[f].st \in {"ok"} THEN ImportLines(tree[f].lines) ELSE {}

Compile(f, r) ==
  /\ run.phase = "compile"
  /\ f \in run.todo
  /\ LET cfg == run.cfg
         S == run.S
         e == Expect(S, tree, cfg, f)
         implines == ImportTags(f)
         own == SelectSeq(r.errs, LAMBDA d : d[1] \notin implines)
         impl == {<<f, r.errs[i][1]>> : i \in {j \in 1..Len(r.errs) : r.errs[j][1] \in implines}}
         M == r.mod
         ok == tree[f].st = "ok"
         key == Sources(tree, cfg, e.files, f)
         bkey == BareSources(tree, cfg, e.files, f)
         needs == e.class = "fail" /\ own = <<>>     \* its error must be one without a file name
         used == IF ~r.wrote \/ ~r.has THEN {} ELSE ModuleGlobals(S, M)
     IN
     /\ bad' = DocClauses(f, e, r, own, impl)
               \cup WarnClauses(f, e, r)
               \cup SaidClauses(f, e, r, implines)
               \cup TypedClauses(f, e, r)
               \cup (IF r.wrote /\ r.has /\ ok /\ e.class # "fail"
                     THEN ModuleClauses(S, cfg, M, tree[f].def, e, f) ELSE {})
               \cup (IF r.wrote THEN SameClauses(key, bkey, cfg, r.post, r.bare, "same-sources-other-bytes", f) ELSE {})
               \cup (IF e.class = "ok" /\ ~r.wrote /\ r.errs = <<>> /\ r.werr = 0 /\ Target(f) \in DOMAIN out
                     THEN No("C14", "output-kept-though-sources-changed", f, key \in DOMAIN memo /\ memo[key].post = out[Target(f)]) ELSE {})
               \cup LET kept == ~r.wrote => r.post = (IF Target(f) \in DOMAIN out THEN out[Target(f)] ELSE "")
                    IN  No("C14", "stale-output-changed", f, kept) \cup No("C03", "stale-output-changed", f, kept)
     /\ out' = IF r.wrote THEN [g \in DOMAIN out \cup {Target(f)} |-> IF g = Target(f) THEN r.post ELSE out[g]]
               ELSE out
     /\ memo' = IF r.wrote THEN Remember((key :> Entry(cfg, r.post)) @@ (bkey :> Entry(cfg, r.bare))) ELSE memo
     /\ run' = [run EXCEPT
          !.todo = @ \ {f},
          !.gmin = @ \cup (IF ~r.wrote THEN {} ELSE IF e.judge THEN GlobalsUsed(S, e.F, tree[f].def, FALSE) ELSE used),
          !.gmax = @ \cup (IF ~r.wrote THEN {} ELSE IF e.judge THEN GlobalsUsed(S, e.F, tree[f].def, TRUE) ELSE used),
          !.wrote = @ \cup (IF r.wrote THEN {Target(f)} ELSE {}),
          !.loose = @ \o (IF e.class = "fail" /\ e.exact THEN LooseNames(e.mistakes) ELSE <<>>),
          !.silent = @ + (IF needs /\ LooseNames(e.mistakes) = <<>> THEN 1 ELSE 0),
          !.open = @ \/ e.class = "any" \/ (e.class = "fail" /\ ~e.exact),
          !.imperrs = @ \cup impl,
          !.impwant = @ \cup (IF ok /\ e.class # "any" THEN ImportErrors(tree, cfg.root, cfg.importPrefix, f) ELSE {}),
          !.tally[e.class] = @ + 1,
          !.any = @ \/ e.class = "any"]
     /\ UNCHANGED tree

\* g: [f, wrote, post, has, mod], the file at the configured path
GlobalNamesOk(S, names) ==
  LET low == Closure(S, run.gmin)
      high == Closure(S, run.gmax)
  IN  low \subseteq names /\ names \subseteq high

\* which types it has to declare, where that is settled; what it declares, where not
GlobalsSettled == Closure(run.S, run.gmin) = Closure(run.S, run.gmax)
GlobalsKey(cfg, M) ==
  [globals |-> IF GlobalsSettled THEN Closure(run.S, run.gmin) ELSE IF M.parses THEN DeclNames(M) ELSE {}, schema |-> tree[cfg.schema].cid,
   cfg |-> [cfg EXCEPT !.threads = 0, !.depr = FALSE]]

BareGlobalsKey(cfg, M) == [GlobalsKey(cfg, M) EXCEPT !.schema = "without descriptions: " \o tree[cfg.schema].plain]

GlobalAspects == {"keys", "wrap", "scalar", "base", "doc"}
GlobalAspectProperties(a) ==
  CASE a = "wrap" -> {"C05"} [] a = "scalar" -> {"C18"} [] a = "doc" -> {"C16"} [] OTHER -> {"C08"}

GlobalsClauses(g) ==
  LET S == run.S
      p == GlobalsPath(run.cfg)
      M == g.mod
      must == run.gmin # {}
      may == run.gmax # {}
  IN
  IF ~g.wrote THEN No("C08", "globals-missing", p, ~must \/ Blocked(tree, p) \/ g.nodir)
                   \cup No("C03", "globals-fault-silent", p, ~must \/ g.err)
  ELSE No("C08", "globals-unexpected", p, may)
       \cup (IF ~g.has THEN {}
             ELSE IF ~M.parses THEN UNION {No(q, "globals-parses", p, FALSE) : q \in {"C05", "C08", "C15", "C16", "C18"}}
             ELSE No("C15", "globals-wellformed", p, GlobalsWellFormed(S, run.cfg, M))
                  \cup No("C08", "globals-names", p, GlobalNamesOk(S, DeclNames(M)))
                  \cup No("C08", "globals-once", p, Len(M.decls) = Cardinality(DeclNames(M)))
                  \cup UNION {IF GlobalsOk(S, run.cfg, {a}, M) THEN {}
                              ELSE {[p |-> q, c |-> "globals-" \o a, f |-> p] : q \in GlobalAspectProperties(a)}
                              : a \in GlobalAspects}
                  \cup (IF M.decls # <<>> /\ M.decls[1].n \in DOMAIN S THEN {} ELSE No("C08", "globals-empty", p, DeclNames(M) \subseteq DOMAIN S /\ M.decls # <<>>)))
       \cup (IF "typed" \notin DOMAIN g THEN {} ELSE No("C23", "globals-type-check", p, g.typed = 0))
       \cup (IF ~g.has \/ ~(M.parses \/ GlobalsSettled) THEN {}
             ELSE SameClauses(GlobalsKey(run.cfg, M), BareGlobalsKey(run.cfg, M), run.cfg, g.post, g.bare, "globals-same-sources", p))

Globals(g) ==
  /\ run.phase = "compile" /\ run.todo = {}
  /\ bad' = GlobalsClauses(g)
  /\ LET p == GlobalsPath(run.cfg)
         key == GlobalsKey(run.cfg, g.mod)
         bkey == BareGlobalsKey(run.cfg, g.mod)
     IN
     /\ out' = IF g.wrote THEN [x \in DOMAIN out \cup {p} |-> IF x = p THEN g.post ELSE out[x]] ELSE out
     /\ memo' = IF g.wrote /\ g.has /\ (g.mod.parses \/ GlobalsSettled)
                THEN Remember((key :> Entry(run.cfg, g.post)) @@ (bkey :> Entry(run.cfg, g.bare))) ELSE memo
     /\ run' = [run EXCEPT !.phase = "close", !.gerr = g.err,
                            !.wrote = @ \cup (IF g.wrote THEN {p} ELSE {})]
  /\ UNCHANGED tree

\* A file that is not a document of the run, or any file of a run that is refused
Bystander(f, r) ==
  /\ run.phase # "none" /\ f \notin (IF run.phase = "compile" THEN run.todo ELSE {})
  /\ bad' = LET p == CASE run.phase = "refuse-schema" -> "C12"
                        [] run.phase \in {"refuse-config", "usage"} -> "C13"
                        [] OTHER -> "C02"
            IN  No(p, "written-unasked", f, ~r.wrote)
                \cup No("C17", "warning-elsewhere", f, r.warns = <<>>)
                \cup (IF run.phase = "compile" THEN SaidClauses(f, Open, r, {}) ELSE {})
  \* it may be a fragment with mistakes in its imports
  /\ run' = IF run.phase = "compile"
            THEN [run EXCEPT !.imperrs = @ \cup {<<f, r.errs[i][1]>> : i \in 1..Len(r.errs)}] ELSE run
  /\ UNCHANGED <<tree, out, memo>>

(***************************************************************************)
(* The end of a run                                                         *)
(*  x: [code, crashed, hung, nerr, nwarn, sumerr, sumwarn, others, loose,    *)
(*      stray, straywarn, io, digest]                                                  *)
(***************************************************************************)
CountWord(loose, n) == Cardinality({i \in 1..Len(loose) : n \in Range(loose[i])})

TargetOf(g, line) ==
  Resolve(run.cfg.root, run.cfg.importPrefix, g, ImportPath(tree[g].lines[line]))

ImportClauses(x) ==
  LET reported == run.imperrs \cup {<<x.stray[i][1], x.stray[i][2]>> : i \in 1..Len(x.stray)}
      lost(e) == LET t == TargetOf(e[1], e[2]) IN
                 IF ~Readable(tree, t) THEN e \notin reported
                 ELSE ~\E r \in reported : r \in run.impwant /\ TargetOf(r[1], r[2]) = t
  IN  UNION {No("C09", "import-error-missing", e[1], FALSE) : e \in {w \in run.impwant : lost(w)}}
      \cup (IF run.any THEN {}
            ELSE UNION {No("C09", "import-error-unfounded", r[1], FALSE) : r \in reported \ run.impwant})

RunKey ==
  [tree |-> [f \in DOMAIN tree |-> <<tree[f].kind, tree[f].st, tree[f].cid>>],
   cfg |-> [run.cfg EXCEPT !.threads = 0], root |-> run.cli.root]

\* The same tree under the same effective configuration, however that is given
ConfKey ==
  [conf |-> TRUE,
   tree |-> [f \in {g \in DOMAIN tree : "conf" \notin DOMAIN tree[g] \/ ~HasSuffix(g, ".json")} |-> <<tree[f].kind, tree[f].st, tree[f].cid>>],
   cfg |-> [run.cfg EXCEPT !.threads = 0], root |-> run.cli.root]
\* The same tree under the same configuration given in the same way
WordKey == [words |-> TRUE, run |-> RunKey, cli |-> [run.cli EXCEPT !.threads = <<>>]]
\* The whole text, line by line in any order; colours are for terminals or on demand
WordClauses(x) ==
  IF "words" \notin DOMAIN x THEN {}
  ELSE No("C22", "same-run-other-words", "", WordKey \in DOMAIN memo => memo[WordKey] = x.words)
       \cup No("C01", "messages-depend-on-schedule", "", WordKey \in DOMAIN memo => memo[WordKey] = x.words)
       \cup No("C22", "colour", "", ~x.coloured \/ x.colours)

\* A run that does nothing but complain once, where documents had to be written
RefusedAll(x) ==
  /\ run.wrote = {} /\ run.tally.ok > 0 /\ x.nerr = 1 /\ Len(x.loose) = 1 /\ x.nwarn = 0
ConfigGiven == ConfigState(run.cli, tree) = "given"
OptionClauses(x) ==
  No("C13", "same-configuration-other-results", "",
     (ConfKey \in DOMAIN memo /\ memo[ConfKey].cli # run.cli) => memo[ConfKey].digest = x.digest)
  \cup No("C13", "options-refused", "", x.code # 2)
  \cup No("C13", "valid-config-refused", "", ~(RefusedAll(x) /\ ConfigGiven))
  \cup No("C12", "valid-schema-refused", "", ~RefusedAll(x))

FaultClauses(x) ==
  LET io == Range(x.io)
      baddirs == BadDirs(tree, run.cfg.root)
      wanted == Len(run.loose) + run.silent
  IN  UNION {No("C03", "list-fault-silent", d, d \in io) : d \in baddirs}
      \cup UNION {No("C03", "unfounded-fault", d, FALSE) : d \in {y \in io \ baddirs : ~run.gerr}}
      \cup No("C11", "nameless-mistakes", "", \A n \in Range(run.loose) :
              CountWord(x.loose, n) >= Cardinality({i \in 1..Len(run.loose) : run.loose[i] = n}))
      \cup No("C03", "failed-silently", "", Len(x.loose) >= wanted)
      \cup No("C11", "unfounded-error", "", run.open \/ Len(x.loose) <= wanted)

Exit(x) ==
  /\ run.phase \in {"close", "usage", "refuse-config", "refuse-schema"}
  /\ bad' = No("C10", "crash", "", ~x.crashed)
            \cup No("C10", "hang", "", ~x.hung)
            \cup No("C01", "no-end", "", ~x.crashed /\ ~x.hung)
            \cup (IF x.crashed \/ x.hung THEN {} ELSE
       IF run.phase = "usage"
       THEN No("C13", "usage-accepted", "", x.code = 2)
            \cup No("C13", "usage-wrote", "", x.others = <<>>)
       ELSE IF run.phase \in {"refuse-config", "refuse-schema"}
       THEN LET p == IF run.phase = "refuse-config" THEN "C13" ELSE "C12" IN
            No(p, "refused-status", "", x.code = 1)
            \cup No(p, "refused-diagnostics", "", x.nerr = 1 /\ x.nwarn = 0)
            \cup No(p, "refused-wrote", "", x.others = <<>>)
            \cup No("C03", "status", "", x.code = 1 /\ x.sumerr = x.nerr)
       ELSE No("C03", "status", "", x.code = (IF x.nerr > 0 THEN 1 ELSE 0))
            \cup No("C03", "summary", "", x.sumerr = x.nerr)
            \cup No("C17", "summary", "", x.sumwarn = x.nwarn)
            \cup No("C17", "warning-elsewhere", "", x.straywarn = <<>>)
            \cup UNION {No("C02", "touched", x.others[i], FALSE) : i \in 1..Len(x.others)}
            \cup ImportClauses(x) \cup FaultClauses(x) \cup OptionClauses(x)
            \cup No("C17", "status", "", ~(x.nerr = 0 /\ x.nwarn > 0 /\ x.code # 0))
            \cup WordClauses(x)
            \cup (IF "typed" \notin DOMAIN x THEN {} ELSE HelperClauses(x.typed))
            \cup No("C01", "depends-on-schedule", "",
                    RunKey \in DOMAIN memo => memo[RunKey] = x.digest))
  /\ memo' = IF run.phase = "close" /\ ~x.crashed /\ ~x.hung
             THEN Remember((RunKey :> x.digest) @@ (ConfKey :> [digest |-> x.digest, cli |-> run.cli])
                           @@ (IF "words" \in DOMAIN x THEN (WordKey :> x.words) ELSE <<>>)) ELSE memo
  /\ run' = NoRun
  /\ UNCHANGED <<tree, out>>

\* A run that crashed or hung, or whose results cannot be told apart, ends wherever it is
Abort(x) ==
  /\ run.phase # "none"
  /\ bad' = No("C10", "crash", "", ~x.crashed) \cup No("C10", "hang", "", ~x.hung)
            \cup No("C01", "no-end", "", ~x.crashed /\ ~x.hung)
  /\ run' = NoRun
  /\ UNCHANGED <<tree, out, memo>>
=============================================================================
