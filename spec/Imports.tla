------------------------------ MODULE Imports ------------------------------
(* Which files the header of a document imports, and what that puts in      *)
(* scope. A file record has "lines", the lines of its text up to and        *)
(* including the first one that is neither blank nor a comment.             *)
EXTENDS Text, TLC

ImportStart == "#import \""

\* Line numbers of the import lines of a header
RECURSIVE ImportLinesFrom(_, _)
ImportLinesFrom(lines, i) ==
  IF i > Len(lines) THEN {}
  ELSE LET l == lines[i]
       IN  IF IsBlank(l) THEN ImportLinesFrom(lines, i + 1)
           ELSE IF HasPrefix(l, ImportStart) THEN {i} \cup ImportLinesFrom(lines, i + 1)
           ELSE IF HasPrefix(l, "#") THEN ImportLinesFrom(lines, i + 1)
           ELSE {}
ImportLines(lines) == ImportLinesFrom(lines, 1)

\* The quoted part of an import line
ImportPath(line) ==
  LET rest == Drop(line, Len(ImportStart))
      q    == LastIndex(rest, "\"")
  IN  IF q = 0 THEN rest ELSE SubSeq(rest, 1, q - 1)

Resolve(root, prefix, file, path) ==
  IF prefix # <<>> /\ HasPrefix(path, prefix[1]) THEN Normal(Join(root, Drop(path, Len(prefix[1]))))
  ELSE IF HasPrefix(path, ".") THEN Normal(Join(DirName(file), path))
  ELSE Normal(Join(root, path))

\* <<line, target>> of each import of a file
ImportsOf(src, root, prefix, f) ==
  {<<i, Resolve(root, prefix, f, ImportPath(src[f].lines[i]))>> : i \in ImportLines(src[f].lines)}

Readable(src, f) == f \in DOMAIN src /\ src[f].kind = "file" /\ src[f].st \notin {"unreadable", "nonutf"}

RECURSIVE Reach(_, _, _, _, _)
Reach(src, root, prefix, seen, todo) ==
  IF todo = {} THEN seen
  ELSE LET new == UNION {{t[2] : t \in ImportsOf(src, root, prefix, f)} : f \in todo}
           fresh == {g \in new : Readable(src, g) /\ g \notin seen}
       IN  Reach(src, root, prefix, seen \cup fresh, fresh)

\* Files whose contents are imported by f, directly or transitively
Scope(src, root, prefix, f) == Reach(src, root, prefix, {}, {f})

FragmentFiles(src, files) ==
  {g \in files : src[g].st = "ok" /\ src[g].def.op = "fragment"}

\* Import mistakes met while collecting the scope of f: <<file, line>>
ImportErrors(src, root, prefix, f) ==
  LET from == {f} \cup Scope(src, root, prefix, f)
      bad(t) == ~Readable(src, t) \/ (src[t].st = "ok" /\ src[t].def.op # "fragment")
  IN  UNION {{<<g, t[1]>> : t \in {u \in ImportsOf(src, root, prefix, g) : bad(u[2])}} : g \in from}

AmbiguousScope(src, files) ==
  \E a, b \in FragmentFiles(src, files) : a # b /\ src[a].def.name = src[b].def.name

\* Fragments in scope, by name
Fragments(src, files) ==
  LET fs == FragmentFiles(src, files)
  IN  TLCEval([n \in {src[g].def.name : g \in fs} |->
        src[CHOOSE g \in fs : src[g].def.name = n].def])
=============================================================================
