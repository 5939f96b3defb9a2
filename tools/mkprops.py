#!/usr/bin/env python3
"""Source of properties.jsonl (run by hand after editing)."""
import json
W="src/worker_pool.rs";G="src/graphql.rs";I="src/graphql/ir.rs";S="src/graphql/schema.rs";F="src/graphql/schema/field.rs"
J="src/graphql/schema/json.rs";V="src/graphql/variable.rs";T="src/typescript.rs";TF="src/typescript/field.rs";C="src/cli.rs";M="src/main.rs"
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=b) for a,b in mech],
        observe_at=list(observe),hook_needed=hook)))
p("C01","Every document is compiled exactly once under every thread schedule",
 "For every directory tree, every thread count and every interleaving of the worker threads, a run terminates after compiling each document below the root directory exactly once. The set of written files, their contents, the reported diagnostics (as a multiset) and the exit code do not depend on the schedule or the thread count.",
 ["schedules","configurations"],"all interleavings of the workers' channel, counter and sleep steps, all thread counts >= 1 (0 behaves as 1), all directory trees",
 "The suite runs two threads on trees of a handful of files and only ever sees the schedules the operating system happens to pick; a lost item needs a worker preempted at one exact point.",
 [W,M],[("shared queue plus waiting/quitting/pending counters",W),("every worker's aggregate is merged after join",W)],
 [("queue","items discovered and not yet taken",W),("num_waiting/num_quitting/num_pending","termination detection counters",W),("aggregate","diagnostics and global types found by one worker",W)],
 ["files written","stdout","exit code","work item start/end events"],"work-item span and synchronisation-primitive shim under cfg(qlc_verif)")
p("C02","Exactly the documents below the root are compiled; writes stay beside them",
 "A run compiles exactly the regular files with extension .graphql that lie in the root directory or, recursively, in any of its real subdirectories (symbolic links are not followed). It creates or modifies only the .graphql.d.ts sibling of each such document and the single global-types file, whose path is the configured module name below the root directory (import prefix stripped, .ts added when the name has no extension). Every other file stays byte-for-byte unchanged and nothing is deleted.",
 ["inputs","histories"],"all directory trees (any depth, width, file and directory names, symbolic links, pre-existing outputs)",
 "The tests use flat one- or two-file trees and look only at the files they expect, never for an extra, missing or clobbered one.",
 [W,G],[("directory entry classification",W),("output path derived from the source path",G),("global-types path",G)],(),["directory listing with content hashes before and after a run"])
p("C03","Exit status tells the truth and failures stay isolated",
 "The exit code is 0 exactly when no error diagnostic was printed and 1 otherwise, and the closing summary line counts the errors that were printed. A document that cannot be read, parsed, compiled or written yields at least one error and leaves any earlier output for it untouched; a directory that cannot be listed yields an error. Neither has any effect on what is written for other documents.",
 ["inputs","fault_sequences"],"all mixes of good and failing documents, all combinations of read, list and write faults",
 "The tests have at most one failing document per run and inject no I/O fault; none checks that good neighbours are still compiled.",
 [W,C,G],[("per-item results are collected, never short-circuited",W),("exit code from error count",C),("output written only after a full compile",G)],(),["exit code","stdout","output files"])
p("C04","Emitted data types have exactly the selected response keys",
 "For every schema and valid document without @skip/@include, and for every possible concrete runtime type of every selected object, interface or union, the emitted TypeScript data type offers an alternative whose properties are exactly the response keys (aliases included) that GraphQL execution collects for that runtime type through fields, inline fragments and imported fragment spreads. Each property leads to the selected field's scalar, enum or merged sub-selection, whatever the order, nesting or repetition of the selections.",
 ["inputs","programs"],"all schemas and valid documents: nesting, aliases, repeated fields, overlapping type conditions, fragments inside fragments",
 "Fixtures sample a couple of dozen shapes on one schema; merging depends on combinations of type conditions and repeated keys.",
 [I,T],[("per-concrete-type field maps merged across spreads",I),("type definitions printed per alternative",T)],[("concrete_objects","fields collected per possible runtime type",I)],["declarations in each .graphql.d.ts"])
p("C05","Nullability and list nesting survive exactly, at any depth",
 "For every nesting of list and non-null wrappers, the type emitted for an output field and for an input-object field has the same number of array levels as the schema type, and each level admits null exactly when the schema type at that level is nullable. An input-object field is marked optional exactly when its outermost type is nullable.",
 ["inputs"],"all wrapper sequences of any depth, in output and input position, on every kind of named type",
 "The fixtures contain four wrapper combinations, one of them nested; wrapper handling is an automaton with a state per combination.",
 [F,T],[("wrapper automaton",F),("wrapper printing for data types",T),("wrapper printing for input objects",T)],[("concrete/higher_order_modifiers","wrapper prefix read so far",F)],["property types in outputs and global-types file"])
p("C06","Alternatives discriminate the possible concrete types",
 "Where an interface or union is selected, the alternatives of the emitted type cover every possible concrete type, no alternative is unjustified by one, and concrete types share an alternative only when their selections have the same keys and types throughout. A selected __typename (under any alias) is the string literal union of exactly the concrete types its alternative stands for, so the literals of different alternatives are disjoint; a field of object type gets that single type's name.",
 ["inputs","programs"],"all unions and interfaces, all splits of selections over type conditions",
 "Fixtures merge alternatives only in a few symmetric cases and never where equal key sets have different sub-selections.",
 [T,I],[("grouping of possibilities into shared alternatives",T),("possible types per spread",I)],(),["declarations in each .graphql.d.ts"])
p("C07","Variable types mirror the declared variables",
 "The variables type of an operation has exactly one property per declared variable, in name order, optional exactly when the declared type is nullable, and with the declared type's list nesting and nullability; the variables argument is never when there are none. Built-in scalars, custom scalars, enums and input objects map to the same TypeScript types as elsewhere. Variables of unknown or output type or with list-of-list types are rejected with an error instead of being typed approximately.",
 ["inputs","programs"],"all variable lists and wrapper combinations over every kind of type, in queries, mutations and subscriptions",
 "Fixtures cover a few hand-picked variables; the wrapper cases are a nested match with separate arms for each combination.",
 [V,T],[("variable wrapper decoding",V),("variables type printing",T)],(),["<Operation>Variables declaration","document annotation"])
p("C08","The global-types file is the exact closure of used enums and inputs",
 "After a run, the global-types file declares exactly once each enum and input object that a successfully compiled document uses, directly or through any chain of input-object fields, and nothing else; it is written exactly when at least one such type is used. Each enum lists exactly the schema's values, each mapped to its own name, each input object exactly the schema's fields, and the file does not depend on which document or worker used a type first.",
 ["inputs","schedules"],"all input-type graphs (cyclic ones included), all distributions of uses over documents and workers",
 "Fixtures use one or two global types from one document; recursion through input objects and aggregation over workers are not exercised.",
 [T,W,G],[("transitive closure over input fields",T),("union of the workers' used names",W),("write when non-empty",G)],[("global_types","names used so far",W)],["global-types file"])
p("C09","Imports put exactly the transitively imported fragments in scope",
 "The fragments a document may spread are exactly those defined in the files its header imports, directly or through imports of imports, for every import graph including diamonds and cycles. An import line is an `#import \"path\"` line before the first line that is neither blank nor a comment; a path starting with the configured prefix resolves against the root directory, otherwise one starting with a dot against the importing file's directory, and any other against the root directory. An import that cannot be read, or that names a document which is not a fragment, is an error reported at its own line of the importing file.",
 ["inputs","programs"],"all import graphs, path spellings, prefixes, header layouts",
 "Fixtures have a three-file import tree without sharing or cycles and one prefix.",
 [G],[("recursive import collection",G),("path resolution",G)],[("imported_contents","files read so far",G)],["outputs and diagnostics"])
p("C10","No input makes the compiler crash or hang",
 "For every schema file, config file and tree of documents - truncated, malformed, cyclic imports, fragments that spread themselves directly or mutually, recursive input objects, unterminated import lines, non-UTF-8 bytes - the program terminates with exit code 0 or 1 (2 for command-line usage errors) and never with a panic, stack overflow or endless wait. A fragment spread that would recurse into itself is reported as an error, and so is a selection that fragments nest more than 128 levels deep.",
 ["inputs","programs"],"all byte contents of schema, config and documents; all import, spread and input-object graphs",
 "Tests feed one truncated document and two broken JSON files; none has a cycle.",
 [G,I,T,W,S],[("visited check during import collection",G),("cycle check during fragment expansion",I),("visited check during input closure",T)],(),["exit status","stderr","run time"])
p("C11","Invalid documents are rejected, every local mistake at its position",
 "A document that selects an unknown field, omits or adds a selection set against the field's type, spreads a fragment that is not in scope or an unknown type, omits a type condition, is an anonymous bare selection set, defines several definitions or does not parse is rejected: errors are printed and no output is written for it. All independent mistakes in a document's own selections are reported in one run, each once; unknown fields and fragments, wrong or missing selection sets and missing type conditions carry the file path and the line and column at which they stand, an unknown type condition its name.",
 ["inputs","programs"],"all documents with any number and placement of mistakes, inside and outside fragments",
 "The tests have one document with two unknown fields; other error kinds and combinations never run.",
 [I,G,C],[("error accumulation over selections",I),("position-carrying diagnostics",C)],(),["stdout","output files"])
p("C12","Schema ingestion is all-or-nothing",
 "A schema file that is missing, is not JSON, lacks the introspection shape, or contains a type of unknown kind or with missing mandatory parts (fields, values, possible types, inner or named types) is rejected with one error diagnostic, exit code 1, and no file written. Any other introspection result, including unknown extra keys, null optional parts, unused types and any order of types, is accepted and yields the same outputs as its canonical form.",
 ["inputs"],"all single and multiple omissions and perturbations of an introspection document",
 "The stable tests cover truncated JSON, a wrong top-level shape and a missing file only.",
 [S,J,F,M],[("conversion from introspection JSON with typed errors",S),("schema parsed before any worker starts",M)],(),["exit code","stdout","directory before/after"])
p("C13","Configuration precedence: command line over config file over default",
 "For every option, the command-line value wins over the config file's, which wins over the documented default; flags are on when set in either place; --config-file selects the config file, otherwise .qlcrc.json in the working directory is used if present. A relative schema path in a config file resolves against that file's directory, a missing explicit or a malformed config file is an error before anything is written, and a config file's custom scalar prefix counts only when that file also mentions useCustomScalars.",
 ["configurations"],"all combinations of command-line, config-file and default values of every option",
 "Tests set single options; precedence is tested for the schema path only.",
 [C,G],[("merging of CLI and file options",C)],(),["effect of each option on outputs, messages and paths"])
p("C14","Outputs are a deterministic function of the current sources",
 "Over any history of edits and runs, the bytes written for a document are determined by that document, its transitively imported files, the schema and the configuration alone: unrelated files, earlier outputs, earlier runs, process hash seeds and directory order never change them. Re-running without a change rewrites identical bytes, and outputs of documents that are now failing or gone keep the bytes of their last successful compile.",
 ["histories","schedules"],"all sequences of edit, delete, add and run steps; all repetitions of a run",
 "Every test is a single run in a fresh directory; hash seeds differ per process, so one run cannot show a dependence on them.",
 [G,I,T],[("sorting before printing",T),("sorting of fields and possibilities",I)],(),["hashes of outputs across runs"])
p("C15","Every emitted module is well-formed and self-consistent",
 "Each emitted module parses as TypeScript, declares no name twice, and every type name it uses is declared in it, imported by it, or is a custom scalar name when these are enabled. It imports from the global-types module exactly the enums and input objects it uses and from the typed-document module exactly its document node type, and default-exports a document constant whose type is that node applied to the data type and, for operations, the variables type or never: mutation documents use the mutation node, fragments the fragment node, queries and subscriptions the query node.",
 ["inputs","programs"],"all valid documents, configurations and schemas",
 "Fixture comparison covers the sampled documents only and never checks name resolution.",
 [T],[("import line assembly",T),("document annotation",T)],(),["each .graphql.d.ts"])
p("C16","Schema documentation can never corrupt the output",
 "Whatever text a schema's descriptions contain, including comment delimiters in any combination and several lines, each emitted module stays parseable and declares the same types as without descriptions. A field's or enum's comment carries its description's lines in order, and the @deprecated tag appears exactly on deprecated fields; where several possible types share an alternative, each property carries the comment of one of their declarations.",
 ["inputs"],"all description strings on fields, input fields and enums, with and without deprecation",
 "Fixture descriptions are plain one-line sentences.",
 [T,F],[("comment rendering and delimiter removal",T),("description normalisation",F)],(),["comments and declarations in outputs"])
p("C17","Warnings are exact and never change results",
 "With deprecation warnings enabled, each selection of a deprecated field written in a document (not in a fragment it imports) gives exactly one warning at its position; without it none is given. A fragment spread or inline fragment whose type shares no concrete type with what its parent type and the type conditions around it allow gives one warning at its position in the document that contains it. Warnings never change the exit code or any written byte.",
 ["inputs","configurations"],"all documents with any placement of deprecated fields and disjoint spreads, local and foreign",
 "Tests have one deprecated field and two disjoint spreads.",
 [I,C],[("locality of the selection is tracked through spreads",I)],(),["stdout","exit code","outputs with and without the option"])
p("C18","Scalars map consistently everywhere",
 "Boolean maps to boolean, String and ID to string, Int and Float to number, in data types, input objects and variables alike. A custom scalar maps to any by default, to its own name with custom scalars enabled, and to the prefix followed by its name when a prefix is configured, in all three positions.",
 ["inputs","configurations"],"all scalar names, in the three positions, under every scalar configuration",
 "Fixtures use one custom scalar, in data position only.",
 [T,TF,V],[("scalar printing for data, inputs and variables (three separate functions)",T)],(),["types in outputs and global-types file"])
p("C19","Exported type names follow the response path",
 "The data type of a document is exported under the operation's or fragment's name (an unnamed operation under its kind), its variables type under that name plus Variables, and the type of each nested selection under its parent's name, an underscore and the response key. Where an interface or union needs several alternatives, each separate one is named with the concrete type's name appended, the shared one with $$other appended, and the plain name is their union.",
 ["inputs","programs"],"all documents",
 "Names are compared only on the fixture documents; users import these names, so a rename is a breaking change.",
 [T],[("property path prefix threaded through printing",T)],(),["exported names in each module"])
p("C20","The npm installer never installs an unverified binary",
 "Whatever the download server does (status codes, redirects, truncated or aborted bodies, connection errors, wrong bytes), the post-install script unpacks an archive and marks the binary executable only if the complete archive's SHA-256 equals the checksum the package records for the running platform. If that does not happen it exits with a non-zero status, installs nothing and leaves no archive behind when the checksum was wrong; it exits 0 only after the verified binary is in place.",
 ["fault_sequences"],"all response sequences of the download server, all platforms, all archive contents",
 "The npm package has no tests.",
 ["pkg/npm/lib/postinstall.js"],[("checksum comparison before unpacking","pkg/npm/lib/postinstall.js")],(),["exit code","spawned unpack command","files left"])
p("C21","Schema download is complete or fails loudly",
 "The schema download command exits 0 only after the complete body of a 200 response has been written to the requested path (schema.json by default). On any other status, connection error or body cut short it exits non-zero and does not leave a partial schema at that path; without an endpoint it fails without touching any file. The query it sends asks for everything the compiler reads, so that the compiler accepts the schema of any server that answers it.",
 ["fault_sequences"],"all server behaviours: statuses, refused connections, bodies aborted at any byte",
 "The npm package has no tests.",
 ["pkg/npm/lib/download.js"],[("status check and cleanup","pkg/npm/lib/download.js")],(),["exit code","output path"])
p("C22","Diagnostics quote the line they name and suggest only real names",
 "Every diagnostic about a position in a document prints the path, line and column, then the text of that very line with a mark under that column, and its message names the field, fragment or type it is about. A suggestion list after an unknown field or fragment name holds exactly the fields of the selected type, or the fragments in scope, that are within two edits (insertion, deletion, change, exchange of neighbours) of the name. The warning about an extraneous spread lists exactly the concrete types its surroundings allow. Repeating a run prints the same text lines in some order, whatever the threads and hash seeds; without a terminal or with --no-color they carry no colour codes.",
 ["inputs","schedules","configurations"],"all documents with any mistakes and warnings, all names near them, all repetitions of a run",
 "The tests match two short fragments of the output; neither suggestions nor quoted lines nor the listed types are looked at, and hash seeds differ per process.",
 [C,I,G],[("edit distance and suggestion list",C),("position-carrying diagnostics with excerpt",C),("effective types listed by the warning",I)],(),["stdout"])
p("C23","Emitted modules type-check and yield their types through the helpers",
 "For every valid document, the emitted module, the global-types file it imports and the npm package's typed-document module together pass the TypeScript compiler's strict checks. DataOf applied to the type of a module's default export is that module's exported data type, and VariablesOf its exported variables type, or never when the operation declares no variables and for fragments; of a type that may be one of two documents they give either's type. The helpers do so for each kind of typed document: query, mutation, subscription and fragment.",
 ["inputs","programs","configurations"],"all valid documents of every kind, with and without variables, all schemas and configurations of scalars, readonly and module names",
 "No test runs a TypeScript compiler; the npm package has no tests at all.",
 [T,"pkg/npm/lib/typed-documentnode.d.ts"],[("document annotation",T),("type extraction helpers","pkg/npm/lib/typed-documentnode.d.ts")],(),["each .graphql.d.ts","global-types file","typed-documentnode.d.ts"])
p("C24","What is released installs: uploads and package agree for every platform",
 "For every version the binary can report (final, alpha, beta) and every platform of the release, the archive the release scripts upload holds exactly that platform's binary, under the tag and file name the package's post-install script asks for. The published package carries that version, records the checksum of each uploaded archive and holds every file it refers to; alpha and beta versions are uploaded as pre-releases and published under their own tag. When a binary or a checksum is missing, or the upload or publish tool fails, the script exits non-zero and neither uploads nor publishes anything incomplete. Installing the published package then succeeds on every platform of the release, whatever an earlier attempt left behind.",
 ["fault_sequences","configurations","histories"],"all kinds of version, all platforms, every single fault of the steps, all left-overs of earlier attempts",
 "Nothing runs the release scripts before a release; they agree with the binary's version line and the post-install script only by convention across five files.",
 [".circleci/bin/make-github-release.sh",".circleci/bin/make-npm-release.sh",".circleci/bin/get-version-from-binary.sh",".circleci/bin/get-release-platforms.sh","pkg/npm/package.json","pkg/npm/lib/postinstall.js",C],
 [("version taken from the binary's own output",".circleci/bin/get-version-from-binary.sh"),("archives and checksums",".circleci/bin/make-github-release.sh"),("checksums written into the package",".circleci/bin/make-npm-release.sh")],(),["arguments and files given to the upload and publish tools","exit codes","installed binary"])
for q in P:
    assert len(q["title"])<=80,(q["id"],len(q["title"]))
open("/verif/properties.jsonl","w").write("".join(json.dumps(q)+"\n" for q in P))
try:
    import jsonschema
    sc=json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for q in P: jsonschema.validate(q,sc)
    print("valid",len(P))
except ImportError: print("no jsonschema")
