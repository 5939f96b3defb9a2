-------------------------------- MODULE MCQlc --------------------------------
(***************************************************************************)
(* Histories of one small project: a document q that may spread a fragment    *)
(* A, a schema, a config file; they are edited, removed and broken, outputs    *)
(* are overwritten and removed, and the program is run at any time.  Program   *)
(* names what is run: "right", or a wrong one.  TLC checks that the right      *)
(* program never breaks a clause of Qlc in any such history, and that each     *)
(* wrong one does; the edges of the right one's state graph are replayed on    *)
(* the real program.                                                          *)
(***************************************************************************)
EXTENDS Qlc, Compiler, IOUtils, Json, TLCExt
Program == IOEnv.QLC_PROGRAM
VARIABLES world,     \* what the user has put there
          said,      \* diagnostics of the run so far
          old        \* what a wrong program remembers of earlier runs

mvars == <<world, said, old>>

Fld(w, n) == [w |-> w, n |-> n, d |-> FALSE, doc |-> <<>>, hostile |-> FALSE]
Ty(k, f, vals) == [k |-> k, f |-> f, poss |-> <<>>, vals |-> vals, doc |-> <<>>, hostile |-> FALSE]
Empty == [x \in {} |-> 0]
Schema(w) ==
  [ Query |-> Ty("OBJECT", [x |-> Fld(w, "Int"), y |-> Fld(<<>>, "Int"), z |-> Fld(<<>>, "Color")], <<>>),
    Color |-> Ty("ENUM", Empty, IF w = <<>> THEN <<"RED">> ELSE <<"RED", "BLUE">>),
    Int |-> Ty("SCALAR", Empty, <<>>), String |-> Ty("SCALAR", Empty, <<>>) ]
Schemas == [s1 |-> Schema(<<>>), s2 |-> Schema(<<"N">>)]

P(l, c) == <<l, c>>
Leaf(n, p) == [k |-> "f", key |-> n, name |-> n, args |-> "", sel |-> <<>>, pos |-> p]
Query(sel) == [op |-> "query", name |-> "Q", on |-> "", vars |-> <<>>, pos |-> P(2, 1), sel |-> sel]
DocDef(v) ==
  CASE v = "uses" -> Query(<<Leaf("x", P(2, 10)), [k |-> "s", frag |-> "A", sel |-> <<>>, pos |-> P(2, 15)]>>)
    [] v = "plain" -> Query(<<Leaf("x", P(2, 10))>>)
    [] v = "wrong" -> Query(<<Leaf("x", P(2, 10)), Leaf("nope", P(2, 12))>>)
FragDef(v) ==
  [op |-> "fragment", name |-> "A", on |-> "Query", vars |-> <<>>, pos |-> P(1, 1),
   sel |-> <<Leaf(IF v = "one" THEN "y" ELSE "z", P(1, 23))>>]
Head1 == <<"#import \"./A.graphql\"", "query Q {">>
DocSrc(v) ==
  IF v = "cut" THEN [kind |-> "file", st |-> "bad", cid |-> "q cut", lines |-> Head1]
  ELSE [kind |-> "file", st |-> "ok", cid |-> "q " \o v, lines |-> IF v = "uses" THEN Head1 ELSE <<"", "query Q {">>, def |-> DocDef(v)]
FragSrc(v) == [kind |-> "file", st |-> "ok", cid |-> "A " \o v, lines |-> <<"fragment A on Query {">>, def |-> FragDef(v)]
SchemaSrc(v) ==
  IF v = "broken" THEN [kind |-> "file", st |-> "bad", cid |-> v, sch |-> "", spell |-> v, plain |-> v]
  ELSE [kind |-> "file", st |-> "ok", cid |-> v, sch |-> v, spell |-> v, plain |-> v]
ConfSrc(v) ==
  IF v = "broken" THEN [kind |-> "file", st |-> "bad", cid |-> v, conf |-> [st |-> "bad"]]
  ELSE [kind |-> "file", st |-> "ok", cid |-> v,
        conf |-> [st |-> "ok"] @@ [NoFile EXCEPT !.disableReadonly = <<TRUE>>]]
UserSrc == [kind |-> "file", st |-> "other", cid |-> "by hand"]

Cli == [root |-> <<>>, config |-> <<>>, schema |-> <<>>, scalarPrefix |-> <<>>, importPrefix |-> <<>>, globals |-> <<>>, node |-> <<>>,
        threads |-> <<>>, scalars |-> FALSE, disableReadonly |-> FALSE, depr |-> FALSE]
Doc == "q.graphql"
Out == Target(Doc)
Glob == "graphql-globals.ts"
Nothing == [n |-> 0, loose |-> <<>>]

InitM ==
  /\ Init /\ said = Nothing /\ old = <<>>
  /\ world = [doc |-> "none", frag |-> "none", schema |-> "none", conf |-> "none"]

Change(what, v, f, src) ==
  /\ run = NoRun /\ world[what] # v
  /\ world' = [world EXCEPT ![what] = v]
  /\ IF v = "none" THEN Remove(f) ELSE Put(f, src)
  /\ UNCHANGED <<said, old>>
EditDoc(v) == Change("doc", v, Doc, IF v = "none" THEN <<>> ELSE DocSrc(v))
EditFrag(v) == Change("frag", v, "A.graphql", IF v = "none" THEN <<>> ELSE FragSrc(v))
EditSchema(v) == Change("schema", v, "schema.json", IF v = "none" THEN <<>> ELSE SchemaSrc(v))
EditConf(v) == Change("conf", v, ".qlcrc.json", IF v = "none" THEN <<>> ELSE ConfSrc(v))
\* the user meddles with a file the program writes
Hand(f) == f \in DOMAIN tree
Overwrite(f) == /\ run = NoRun /\ f \in DOMAIN out /\ out[f] # "by hand"
                /\ out' = [out EXCEPT ![f] = "by hand"] /\ bad' = {} /\ UNCHANGED <<tree, memo, run, mvars>>
Drop1(f) == /\ run = NoRun /\ f \in DOMAIN out
            /\ out' = [g \in DOMAIN out \ {f} |-> out[g]] /\ bad' = {} /\ UNCHANGED <<tree, memo, run, mvars>>

(***************************************************************************)
(* What the program does                                                    *)
(***************************************************************************)
Identity(key, M) == ToString(<<key, M>>)
Module0(e, d) ==
  LET F == IF Program = "old-fragments" /\ old # <<>> THEN old[1] ELSE e.F
  IN  Emit(run.S, F, run.cfg, d, "")
Quiet == [wrote |-> FALSE, post |-> "", bare |-> "", has |-> FALSE, mod |-> [parses |-> FALSE], errs |-> <<>>, warns |-> <<>>, werr |-> 0]
Written(M, post) == [Quiet EXCEPT !.wrote = TRUE, !.has = TRUE, !.mod = M, !.post = post, !.bare = post]
Was(f) == IF f \in DOMAIN out THEN out[f] ELSE ""
Result(f) ==
  LET e == Expect(run.S, tree, run.cfg, f)
      errs == [i \in 1..Len(e.mistakes) |-> e.mistakes[i].pos]
      post == Identity(Sources(tree, run.cfg, e.files, f), "data")
      broken == tree[f].st # "ok"
  IN  IF tree[f].st = "ok" /\ tree[f].def.op = "fragment"
      THEN IF Program = "fragments-unwritten" THEN Quiet ELSE Written(Module0(e, tree[f].def), post)
      ELSE IF e.class = "fail" /\ Program = "accepts" /\ ~broken THEN Written(Emit(run.S, e.F, run.cfg, DocDef("plain"), ""), post)
      ELSE IF e.class = "fail" THEN [Quiet EXCEPT !.errs = IF Program = "silent" THEN <<>> ELSE errs,
                                                  !.post = IF Program = "removes-stale" THEN "" ELSE Was(f \o ".d.ts")]
      ELSE IF Program = "keeps-fresh" /\ Target(f) \in DOMAIN out /\ <<f, tree[f].cid>> \in Range(old)
      THEN [Quiet EXCEPT !.post = Was(Target(f))]
      ELSE IF Program = "keeps-existing" /\ Was(Target(f)) \notin {"", "by hand"} THEN [Quiet EXCEPT !.post = Was(Target(f))]
      ELSE IF Program = "appends" THEN Written(Module0(e, tree[f].def), post \o Was(Target(f)))
      ELSE Written(Module0(e, tree[f].def), post)

Run == /\ Start(Cli, Schemas) /\ said' = Nothing /\ UNCHANGED <<world, old>>
Program1(f) ==
  /\ run.phase = "compile" /\ f \in run.todo
  /\ \A g \in run.todo : f = g \/ f = Doc       \* the order does not matter, take one
  /\ LET r == Result(f) IN
     /\ Compile(f, r)
     /\ said' = [n |-> said.n + Len(r.errs) + (IF tree[f].st # "ok" THEN 1 ELSE 0),
                 loose |-> said.loose \o (IF tree[f].st # "ok" THEN <<(<<>>)>> ELSE <<>>)]
     /\ old' = IF ~r.wrote THEN old
               ELSE CASE Program = "old-fragments" -> IF old = <<>> /\ f = Doc /\ tree[f].cid = "q uses" THEN <<Expect(run.S, tree, run.cfg, f).F>> ELSE old
                      [] Program = "keeps-fresh" -> Append(SelectSeq(old, LAMBDA x : x[1] # f), <<f, tree[f].cid>>)
                      [] OTHER -> old
  /\ UNCHANGED world
\* the import of a missing file
Errors == Cardinality(run.imperrs)
Lost == {w \in run.impwant : w \notin run.imperrs}
DoGlobals ==
  /\ run.phase = "compile" /\ run.todo = {}
  /\ LET names == Closure(run.S, run.gmin)
         M == EmitGlobals(run.S, run.cfg, names, "")
         write == IF Program = "always-globals" THEN TRUE ELSE run.gmin # {} /\ ~(Program = "globals-once" /\ Glob \in DOMAIN out)
     IN  Globals([f |-> Glob, wrote |-> write, post |-> IF write THEN Identity(GlobalsKey(run.cfg, M), "globals") ELSE "",
                  bare |-> IF write THEN Identity(BareGlobalsKey(run.cfg, M), "globals") ELSE "",
                  has |-> write, mod |-> M, err |-> FALSE, nodir |-> FALSE])
  /\ UNCHANGED mvars
Finish ==
  /\ run.phase \in {"close", "refuse-config", "refuse-schema"}
  /\ LET refused == run.phase # "close"
         stray == Lost
         n == IF refused THEN 1 ELSE said.n + Cardinality(stray)
         x == [code |-> IF n > 0 /\ Program # "always-succeeds" THEN 1 ELSE 0, crashed |-> FALSE, hung |-> FALSE,
               nerr |-> n, nwarn |-> 0, sumerr |-> n, sumwarn |-> 0, others |-> <<>>,
               loose |-> IF refused THEN <<(<<>>)>> ELSE said.loose, stray |-> SE!SetToSeq({<<w[1], w[2], 1>> : w \in stray}),
               straywarn |-> <<>>, io |-> <<>>, digest |-> ToString(<<n, run.wrote>>)]
     IN Exit(x)
  /\ said' = Nothing /\ UNCHANGED <<world, old>>

\* The edits that are made: of all kinds, or of a few
Few == IOEnv.QLC_EDITS
NextM ==
  \/ \E v \in (CASE Few = "scope" -> {"uses", "plain", "none"} [] Few = "refusal" -> {"uses", "wrong"} [] OTHER -> {"uses", "plain", "wrong", "cut", "none"}) : EditDoc(v)
  \/ \E v \in (CASE Few = "refusal" -> {"one"} [] OTHER -> {"one", "two", "none"}) : EditFrag(v)
  \/ \E v \in (CASE Few = "scope" -> {"s1", "s2"} [] OTHER -> {"s1", "s2", "broken", "none"}) : EditSchema(v)
  \/ \E v \in (CASE Few = "scope" -> {} [] OTHER -> {"ro", "broken", "none"}) : EditConf(v)
  \/ \E f \in (CASE Few = "scope" -> {Out} [] OTHER -> {Out, Glob}) : Overwrite(f) \/ Drop1(f)
  \/ Run
  \/ \E f \in {Doc, "A.graphql"} : Program1(f)
  \/ DoGlobals \/ Finish
SpecM == InitM /\ [][NextM]_<<qvars, mvars>>

NoClauseBroken == bad = {}
\* what a history is remembered for does not decide what can happen next
View == <<world, out, run, said, old, bad>>

\* Every step, for the replays
Step ==
  LET w == {x \in DOMAIN world : world'[x] # world[x]}
      f == {x \in DOMAIN out : x \notin DOMAIN out' \/ out'[x] # out[x]}
  IN  IF run # NoRun \/ run' # NoRun THEN IF run = NoRun THEN <<"run">> ELSE <<"step">>
      ELSE IF w # {} THEN LET x == CHOOSE y \in w : TRUE IN <<x, world'[x]>>
      ELSE LET x == CHOOSE y \in f : TRUE IN <<IF x \in DOMAIN out' THEN "overwrite" ELSE "drop", x>>
Edges == PrintT("EDGE " \o ToJson(<<TLCFP(View), Step, TLCFP(View')>>))
Given0 == PrintT("GIVEN " \o ToJson([doc |-> [v \in {"uses", "plain", "wrong"} |-> DocDef(v)],
                                     frag |-> [v \in {"one", "two"} |-> FragDef(v)], schema |-> Schemas]))
ASSUME Given0
=============================================================================
