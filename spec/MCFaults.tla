------------------------------- MODULE MCFaults -------------------------------
(***************************************************************************)
(* One run on every combination of faults: two documents, each good,          *)
(* mistaken, unparsable, unreadable or unwritable in some way; a directory      *)
(* that can or cannot be listed; a global-types file that can or cannot be      *)
(* written; outputs of earlier runs.  Program names what is run: "right", or a  *)
(* wrong one.  TLC checks that the right program breaks no clause of Qlc in     *)
(* any combination and that each wrong one does, and prints each combination.   *)
(***************************************************************************)
EXTENDS Qlc, Compiler, Json
CONSTANTS States,       \* of a document
          Globs,        \* of the global-types file
          Program
VARIABLES kase, said
mvars == <<kase, said>>

Fld(n) == [w |-> <<>>, n |-> n, d |-> FALSE, doc |-> <<>>, hostile |-> FALSE]
Ty(k, f, vals) == [k |-> k, f |-> f, poss |-> <<>>, vals |-> vals, doc |-> <<>>, hostile |-> FALSE]
Nil == [x \in {} |-> 0]
S0 == [Query |-> Ty("OBJECT", [x |-> Fld("Int"), z |-> Fld("Color")], <<>>), Color |-> Ty("ENUM", Nil, <<"RED">>), Int |-> Ty("SCALAR", Nil, <<>>)]
Leaf(n, c) == [k |-> "f", key |-> n, name |-> n, args |-> "", sel |-> <<>>, pos |-> <<2, c>>]
\* the first document uses an enum, the second may
Def(n, st, enum) ==
  [op |-> "query", name |-> n, on |-> "", vars |-> <<>>, pos |-> <<2, 1>>,
   sel |-> <<Leaf(IF enum THEN "z" ELSE "x", 10)>> \o (IF st \in {"mistaken", "both"} THEN <<Leaf("nope", 12), Leaf("gone", 17)>> ELSE <<>>)]
File(st, cid) == [kind |-> "file", st |-> st, cid |-> cid]
DocSrc(n, st, enum) ==
  LET src(s) == File(s, n \o st) @@ [lines |-> <<IF st = "badimport" THEN "#import \"./missing.graphql\"" ELSE "", "query">>] IN
  CASE st \in {"unreadable", "nonutf"} -> src(st)
    [] st = "cut" -> src("bad")
    [] OTHER -> src("ok") @@ [def |-> Def(n, st, enum)]
Enum(n) == n = "a"
Name(n) == IF n = "a" THEN "a.graphql" ELSE "s/b.graphql"
Docs0 == {n \in {"a", "b"} : kase[n] # "gone"}
Dir(st) == [kind |-> "dir", st |-> st, cid |-> ""]
Outdir == {"outdir", "both"}
Glob == IF kase.g = "nodir" THEN "none/g.ts" ELSE "g.ts"
Earlier == {Target(Name(n)) : n \in {m \in Docs0 : kase[m] \notin Outdir}}
Tree0 ==
  LET outs == {n \in Docs0 : kase[n] \in Outdir \cup {"outlocked"}}
      docs == [f \in {Name(n) : n \in Docs0} |-> LET n == CHOOSE m \in Docs0 : Name(m) = f IN DocSrc(n, kase[n], Enum(n))]
      blocked == [f \in {Target(Name(n)) : n \in outs} |->
                    IF \E n \in outs : Target(Name(n)) = f /\ kase[n] = "outlocked" THEN File("readonly", "locked") ELSE Dir("ok")]
      g == IF kase.g = "blocked" THEN ("g.ts" :> Dir("ok")) ELSE IF kase.g = "locked" THEN ("g.ts" :> File("readonly", "locked")) ELSE <<>>
  IN  docs @@ blocked @@ g @@ ("s" :> Dir(kase.sub)) @@
      ("schema.json" :> (File("ok", "S") @@ [sch |-> "S", spell |-> "S", plain |-> "S"]))
Cli == [root |-> <<>>, config |-> <<>>, schema |-> <<>>, scalarPrefix |-> <<>>, importPrefix |-> <<>>, globals |-> <<Glob>>, node |-> <<>>,
        threads |-> <<>>, scalars |-> FALSE, disableReadonly |-> FALSE, depr |-> FALSE]

\* in a directory that cannot be listed, one state is as good as another
Cases0 == {k \in [a : States, b : States, sub : {"ok", "unlistable"}, g : Globs, earlier : BOOLEAN] :
             k.sub = "unlistable" => k.b \in {"good", "mistaken"}}
InitM ==
  /\ kase \in Cases0
  /\ said = [n |-> 0, loose |-> <<>>, done |-> FALSE]
  /\ tree = Tree0
  /\ out = [f \in {g \in DOMAIN tree : tree[g].kind = "file"} |-> tree[f].cid] @@ [f \in (IF kase.earlier THEN Earlier ELSE {}) |-> "earlier"]
  /\ memo = <<>> /\ run = NoRun /\ bad = {}

Was(f) == IF f \in DOMAIN out THEN out[f] ELSE ""
Result(f) ==
  LET e == Expect(run.S, tree, run.cfg, f)
      n == CHOOSE m \in {"a", "b"} : Name(m) = f
      st == kase[n]
      quiet == [wrote |-> FALSE, post |-> Was(Target(f)), bare |-> "", has |-> FALSE, mod |-> [parses |-> FALSE], errs |-> <<>>, warns |-> <<>>, werr |-> 0]
      gone == IF Program = "truncates" THEN [quiet EXCEPT !.post = ""] ELSE quiet
      written == [quiet EXCEPT !.wrote = TRUE, !.has = TRUE, !.mod = Emit(run.S, e.F, run.cfg, Def(n, "good", Enum(n)), ""), !.post = "new", !.bare = "new"]
  IN  IF Program = "stops" /\ said.n > 0 THEN quiet
      ELSE IF Program = "stops-on-unreadable" /\ said.loose # <<>> THEN quiet
      ELSE CASE st \in {"mistaken", "both"} ->
             IF Program = "writes-anyway" /\ st = "mistaken" THEN [written EXCEPT !.errs = <<<<2, 12>>, <<2, 17>>>>]
             ELSE IF Program = "first-mistake-only" THEN [gone EXCEPT !.errs = <<<<2, 12>>>>]
             ELSE [gone EXCEPT !.errs = <<<<2, 12>>, <<2, 17>>>>]
        [] st = "badimport" -> [written EXCEPT !.errs = <<<<1, 1>>>>]
        [] st \in {"outdir", "outlocked"} -> [quiet EXCEPT !.werr = IF Program = "silent-write" THEN 0 ELSE 1]
        [] st \in {"cut", "unreadable", "nonutf"} -> gone
        [] OTHER -> written
\* Diagnostics of an unreadable or unparsable document name no document
Speechless(f) == tree[f].st # "ok"

Run == /\ run = NoRun /\ ~said.done /\ Start(Cli, [S |-> S0]) /\ said' = said /\ UNCHANGED kase
Program1(f) ==
  /\ run.phase = "compile" /\ f \in run.todo
  /\ \A g \in run.todo : f = g \/ f = "a.graphql"
  /\ LET r == Result(f)
         mute == Speechless(f) /\ ~(Program = "silent-read" /\ tree[f].st = "unreadable") /\ ~(Program = "stops" /\ said.n > 0)
     IN /\ Compile(f, r)
        /\ said' = [said EXCEPT !.n = @ + Len(r.errs) + r.werr + (IF mute THEN 1 ELSE 0), !.loose = @ \o (IF mute THEN <<(<<>>)>> ELSE <<>>)]
  /\ UNCHANGED kase
DoGlobals ==
  /\ run.phase = "compile" /\ run.todo = {}
  /\ LET names == Closure(run.S, run.gmin)
         M == EmitGlobals(run.S, run.cfg, names, "")
         due == run.gmin # {} /\ ~(Program = "no-globals-on-failure" /\ said.n > 0)
         can == kase.g = "ok"
         err == due /\ ~can /\ Program # "silent-globals"
     IN  /\ Globals([f |-> Glob, wrote |-> due /\ can, post |-> IF due /\ can THEN "globals" ELSE "", bare |-> IF due /\ can THEN "globals" ELSE "",
                     has |-> due /\ can, mod |-> M, err |-> err, nodir |-> kase.g = "nodir"])
         /\ said' = [said EXCEPT !.n = @ + (IF err THEN 1 ELSE 0)]
  /\ UNCHANGED kase
Finish ==
  /\ run.phase = "close"
  /\ LET io == IF kase.sub = "unlistable" /\ Program # "silent-list" THEN <<"s">> ELSE <<>>
         n == said.n + Len(io)
     IN Exit([code |-> IF n > 0 /\ Program # "always-succeeds" /\ ~(Program = "forgives-write" /\ said.n = Len(said.loose)) THEN 1 ELSE 0, crashed |-> FALSE, hung |-> FALSE, nerr |-> n, nwarn |-> 0,
              sumerr |-> IF Program = "counts-documents" THEN Cardinality(Docs0) ELSE n, sumwarn |-> 0, others |-> <<>>,
              loose |-> said.loose, stray |-> <<>>, straywarn |-> <<>>, io |-> io, digest |-> ""])
  /\ said' = [said EXCEPT !.done = TRUE] /\ UNCHANGED kase
NextM == Run \/ (\E n \in {"a", "b"} : Program1(Name(n))) \/ DoGlobals \/ Finish
SpecM == InitM /\ [][NextM]_<<qvars, mvars>>

NoClauseBroken == bad = {}
\* what the user put there and what failed to compile is as it was
Intact ==
  said.done => /\ \A f \in DOMAIN out : tree = Tree0 /\ (f \in DOMAIN tree => out[f] = tree[f].cid)
               /\ \A n \in Docs0 : kase[n] \notin {"good", "badimport"} \cup Outdir =>
                    Was(Target(Name(n))) = (IF kase[n] = "outlocked" THEN "locked" ELSE IF kase.earlier THEN "earlier" ELSE "")
\* every good document is written whatever the others are
Others == said.done => \A n \in Docs0 : kase[n] = "good" /\ (n = "b" => kase.sub = "ok") => Was(Target(Name(n))) = "new"
Cases == run = NoRun /\ ~said.done => PrintT("CASE " \o ToJson(kase))
Given0 == PrintT("GIVEN " \o ToJson([S |-> S0, def |-> [st \in States |-> [n \in {"a", "b"} |-> Def(n, st, Enum(n))]]]))
ASSUME Given0
=============================================================================
