------------------------------- MODULE Config -------------------------------
(* The effective configuration of a run: command line over config file over  *)
(* default. Options are sequences of length 0 (not given) or 1.              *)
(*  cli  [root, config, schema, scalarPrefix, importPrefix, globals, node,   *)
(*        threads: option; scalars, disableReadonly, depr: flag]             *)
(*  file [schema, scalars, scalarPrefix, importPrefix, globals, node,        *)
(*        threads, disableReadonly, depr: option]                            *)
EXTENDS Text

First(a, b) == IF a # <<>> THEN a ELSE b
Or(a, d) == IF a # <<>> THEN a[1] ELSE d
Flag(flag, opt) == flag \/ opt = <<TRUE>>

NoFile == [schema |-> <<>>, scalars |-> <<>>, scalarPrefix |-> <<>>, importPrefix |-> <<>>,
           globals |-> <<>>, node |-> <<>>, threads |-> <<>>, disableReadonly |-> <<>>, depr |-> <<>>]

DefaultConfigPath == ".qlcrc.json"
ConfigPath(cli) == Normal(Or(cli.config, DefaultConfigPath))

\* "usage", "default", "bad" or "given"; tree maps paths to what is there
ConfigState(cli, tree) ==
  LET p == ConfigPath(cli)
  IN  IF cli.scalarPrefix # <<>> /\ ~cli.scalars THEN "usage"
      ELSE IF p \notin DOMAIN tree THEN IF cli.config = <<>> THEN "default" ELSE "bad"
      ELSE IF tree[p].kind # "file" \/ tree[p].conf.st # "ok" THEN "bad"
      ELSE "given"

FileOptions(cli, tree) ==
  IF ConfigState(cli, tree) = "given" THEN tree[ConfigPath(cli)].conf ELSE NoFile

Effective(cli, file) ==
  LET root == Or(cli.root, ".")
      dir  == DirName(ConfigPath(cli))
      threads == Or(First(cli.threads, file.threads), 8)
  IN  [root    |-> Normal(root),
       schema  |-> IF cli.schema # <<>> THEN Normal(cli.schema[1])
                   ELSE IF file.schema # <<>>
                        THEN IF HasPrefix(file.schema[1], Cwd) THEN Normal(file.schema[1])
                             ELSE Normal(Join(dir, file.schema[1]))
                   ELSE Normal(Join(root, "schema.json")),
       scalars |-> Flag(cli.scalars, file.scalars),
       scalarPrefix |-> IF cli.scalarPrefix # <<>> THEN cli.scalarPrefix[1]
                        ELSE IF file.scalars # <<>> THEN Or(file.scalarPrefix, "") ELSE "",
       readonly |-> ~Flag(cli.disableReadonly, file.disableReadonly),
       depr     |-> Flag(cli.depr, file.depr),
       importPrefix  |-> First(cli.importPrefix, file.importPrefix),
       globalsModule |-> Or(First(cli.globals, file.globals), "graphql-globals"),
       nodeModule    |-> Or(First(cli.node, file.node), "@notarize/qlc-cli/typed-documentnode"),
       threads       |-> IF threads = 0 THEN 1 ELSE threads]

\* Extension of a file name, in the sense that "a" and ".a" have none
HasExtension(p) == LastIndex(BaseName(p), ".") > 1

GlobalsPath(cfg) ==
  LET m == IF cfg.importPrefix # <<>> /\ HasPrefix(cfg.globalsModule, cfg.importPrefix[1])
           THEN Drop(cfg.globalsModule, Len(cfg.importPrefix[1])) ELSE cfg.globalsModule
  IN  Normal(Join(cfg.root, IF HasExtension(m) THEN m ELSE m \o ".ts"))
=============================================================================
