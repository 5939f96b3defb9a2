------------------------------ MODULE MCConfig ------------------------------
(***************************************************************************)
(* Every way to give each option: on the command line, in the config file,  *)
(* in both, in neither, with the values that touch one another.  TLC checks *)
(* that Effective respects the order of precedence and prints the cases,     *)
(* which the real program is then run on (harness/cases.py).                 *)
(***************************************************************************)
EXTENDS Config, TLC, Json
VARIABLES c, eff

NoCli == [root |-> <<>>, config |-> <<>>, schema |-> <<>>, scalarPrefix |-> <<>>, importPrefix |-> <<>>,
          globals |-> <<>>, node |-> <<>>, threads |-> <<>>, scalars |-> FALSE, disableReadonly |-> FALSE, depr |-> FALSE]
Opt(vs) == {<<>>} \cup {<<v>> : v \in vs}
\* at: where the config file lies ("" for none); st: what it is; lost: the schema that counts is not there
Case(g, cli, file, at) == [g |-> g, cli |-> cli, file |-> file, at |-> at, st |-> "ok", lost |-> FALSE]
Named(cli, at) == IF at \in {"", DefaultConfigPath} THEN cli ELSE [cli EXCEPT !.config = <<at>>]
Places == {DefaultConfigPath, "my.json", "conf/q.json"}

Scalars ==
  {Case("scalars", Named([NoCli EXCEPT !.scalars = s, !.scalarPrefix = p], at), [NoFile EXCEPT !.scalars = fs, !.scalarPrefix = fp], at) :
     s \in BOOLEAN, p \in Opt({"C", "Da"}), fs \in Opt(BOOLEAN), fp \in Opt({"P", "", "Da"}), at \in {DefaultConfigPath, "my.json"}}
Modules ==
  {Case("globals", Named([NoCli EXCEPT !.importPrefix = p, !.globals = g], "my.json"), [NoFile EXCEPT !.importPrefix = fp, !.globals = fg], "my.json") :
     p \in Opt({"@/"}), fp \in Opt({"~/"}), g \in Opt({"g", "@/g.x", "~/g"}), fg \in Opt({"h.d.ts", "@/h", "~/h.ts"})}
Schemas ==
  {[Case("schema", Named([NoCli EXCEPT !.schema = s, !.root = r], at), [NoFile EXCEPT !.schema = fs], at) EXCEPT !.lost = l] :
     s \in Opt({"s.json", "conf/t.json"}), fs \in Opt({"s.json", "../s.json", "./sub/s.json", Cwd \o "s.json"}),
     at \in Places, r \in {<<>>, <<"root">>}, l \in BOOLEAN}
Flags ==
  {Case("flags", Named([NoCli EXCEPT !.disableReadonly = x, !.depr = y], at), [NoFile EXCEPT !.disableReadonly = fx, !.depr = fy], at) :
     x \in BOOLEAN, y \in BOOLEAN, fx \in Opt(BOOLEAN), fy \in Opt(BOOLEAN), at \in {DefaultConfigPath}}
Others ==
  {Case("others", Named([NoCli EXCEPT !.node = n, !.threads = t], "my.json"), [NoFile EXCEPT !.node = fn, !.threads = ft], "my.json") :
     n \in Opt({"cli-node"}), fn \in Opt({"../file-node"}), t \in Opt({0, 1, 3}), ft \in Opt({0, 2})}
\* config files that are missing, unusable or beside the point
Files ==
  {[Case("file", [NoCli EXCEPT !.config = n], [NoFile EXCEPT !.globals = <<"from-file">>], at) EXCEPT !.st = st] :
     n \in {<<>>, <<DefaultConfigPath>>, <<"my.json">>, <<"./conf/../my.json">>}, at \in {DefaultConfigPath, "my.json"},
     st \in {"ok", "absent", "dir", "empty", "array", "null", "cut", "mistyped", "negative", "trailing", "unreadable", "nonutf"}}
Usage ==
  {Case("usage", [NoCli EXCEPT !.scalars = s, !.scalarPrefix = <<"C">>], [NoFile EXCEPT !.scalars = fs], DefaultConfigPath) :
     s \in BOOLEAN, fs \in Opt(BOOLEAN)}
All == Scalars \cup Modules \cup Schemas \cup Flags \cup Others \cup Files \cup Usage

Init == c \in All /\ eff = <<>>
Next == eff = <<>> /\ eff' = Effective(c.cli, IF c.st = "ok" /\ c.at = ConfigPath(c.cli) THEN c.file ELSE NoFile) /\ UNCHANGED c
Spec == Init /\ [][Next]_<<c, eff>>

Done == eff # <<>>
Used == IF c.st = "ok" /\ c.at = ConfigPath(c.cli) THEN c.file ELSE NoFile
Wins(cliopt, fileopt, default, value) == value = (IF cliopt # <<>> THEN cliopt[1] ELSE IF fileopt # <<>> THEN fileopt[1] ELSE default)
Precedence ==
  Done => /\ Wins(c.cli.globals, Used.globals, "graphql-globals", eff.globalsModule)
          /\ Wins(c.cli.node, Used.node, "@notarize/qlc-cli/typed-documentnode", eff.nodeModule)
          /\ eff.importPrefix = (IF c.cli.importPrefix # <<>> THEN c.cli.importPrefix ELSE Used.importPrefix)
          /\ (c.cli.schema # <<>> => eff.schema = Normal(c.cli.schema[1]))
          /\ (c.cli.schema = <<>> /\ Used.schema = <<>> => eff.schema = Normal(Join(eff.root, "schema.json")))
          /\ (eff.scalars <=> c.cli.scalars \/ Used.scalars = <<TRUE>>)
          /\ (eff.readonly <=> ~c.cli.disableReadonly /\ Used.disableReadonly # <<TRUE>>)
          /\ (eff.depr <=> c.cli.depr \/ Used.depr = <<TRUE>>)
          /\ eff.threads >= 1
Emit == Done => PrintT("CASE " \o ToJson(c @@ [eff |-> eff]))
=============================================================================
