// What the TypeScript compiler makes of emitted modules. Reads a job from stdin, prints one answer per module.
// job: {node, nodeFile, globals, globalsFile, scalars: [name], modules: [file]}
// answer: {modules: [{errs, data, vars, both}], globals: errs, helpers: errs, kinds: {kind: {data, vars}}};
// both: the helpers give both types for a module or the next one; kinds: what they give for each kind of document
// with data D and variables V. data and vars list the exported types that are
// identical to DataOf and VariablesOf of the default export, or "never" or "any" where they are that.
const ts = require(process.env.TYPESCRIPT || "/opt/veriftools/node/node_modules/typescript");
const fs = require("fs");
const path = require("path");

const job = JSON.parse(fs.readFileSync(0, "utf8"));
const LIB = "/lib";
const libDir = path.dirname(require.resolve(ts.sys ? (process.env.TYPESCRIPT || "/opt/veriftools/node/node_modules/typescript") : "typescript"));
const options = {
  strict: true, noEmit: true, target: ts.ScriptTarget.ES2020, module: ts.ModuleKind.ESNext, types: [],
  moduleResolution: ts.ModuleResolutionKind.Bundler, lib: ["lib.es2020.d.ts"], skipLibCheck: false,
};
const virtual = new Map();
const scalars = [...new Set(job.scalars)].filter((n) => /^[A-Za-z_$][\w$]*$/.test(n));
virtual.set("/v/scalars.d.ts", scalars.map((n) => `declare type ${n} = { readonly "scalar ${n}": true };`).join("\n"));
virtual.set("/v/graphql.d.ts", "export interface DocumentNode { readonly kind: 'Document'; readonly definitions: readonly object[] }");

const named = job.modules.map((f) => {
  const sf = ts.createSourceFile(f, fs.readFileSync(f, "utf8"), ts.ScriptTarget.ES2020, false);
  return sf.statements
    .filter((s) => s.kind === ts.SyntaxKind.TypeAliasDeclaration && (s.modifiers || []).some((m) => m.kind === ts.SyntaxKind.ExportKeyword))
    .map((s) => s.name.text);
});
job.modules.forEach((f, i) => {
  const probe = (helper) =>
    [`never: [${helper}<typeof doc>] extends [never] ? true : false`, `any: 0 extends (1 & ${helper}<typeof doc>) ? true : false`]
      .concat(named[i].map((n) => `"=${n}": Same<${helper}<typeof doc>, m.${n}>`)).join("; ");
  virtual.set(`/v/${i}.ts`, [
    `import type * as m from "module:${i}";`, `import type doc from "module:${i}";`,
    `import type { DataOf, VariablesOf } from "helpers:";`,
    `type Same<A, B> = (<T>() => T extends A ? 1 : 2) extends (<T>() => T extends B ? 1 : 2) ? true : false;`,
    `import type next from "module:${(i + 1) % job.modules.length}";`,
    ...["DataOf", "VariablesOf"].map((h) => `export type Both${h} = { yes: Same<${h}<typeof doc | typeof next>, ${h}<typeof doc> | ${h}<typeof next>> };`),
    `export type Data = { ${probe("DataOf")} };`, `export type Vars = { ${probe("VariablesOf")} };`].join("\n"));
});

const kinds = ["Query", "Mutation", "Subscription", "Fragment"].flatMap((k) => (k === "Fragment" ? ["V"] : ["V", "never"]).map((v) => [k, v]));
virtual.set("/v/kinds.ts", [
  `import type * as h from "helpers:";`,
  `type Same<A, B> = (<T>() => T extends A ? 1 : 2) extends (<T>() => T extends B ? 1 : 2) ? true : false;`,
  `type D = { readonly a: string | null }; type V = { readonly a?: number };`,
  ...kinds.flatMap(([k, v]) => ["DataOf", "VariablesOf"].map((helper) => {
    const t = `h.${helper}<h.${k}DocumentNode<D${k === "Fragment" ? "" : `, ${v}`}>>`;
    return `export type ${helper}${k}${v} = { never: [${t}] extends [never] ? true : false; any: 0 extends (1 & ${t}) ? true : false; "=D": Same<${t}, D>; "=V": Same<${t}, V> };`;
  })),
].join("\n"));

const sources = new Map();
const host = {
  getSourceFile(f, v) {
    if (!sources.has(f)) {
      const text = host.readFile(f);
      sources.set(f, text === undefined ? undefined : ts.createSourceFile(f, text, v, true, f.startsWith("/v/") || f.endsWith(".ts") ? undefined : ts.ScriptKind.TS));
    }
    return sources.get(f);
  },
  readFile: (f) => (f.startsWith(LIB + "/") ? ts.sys.readFile(path.join(libDir, path.basename(f))) : virtual.has(f) ? virtual.get(f) : ts.sys.readFile(f)),
  fileExists: (f) => host.readFile(f) !== undefined,
  getDefaultLibFileName: () => LIB + "/lib.es2020.d.ts",
  getDefaultLibLocation: () => LIB,
  getCurrentDirectory: () => "/v",
  getCanonicalFileName: (f) => f,
  useCaseSensitiveFileNames: () => true,
  getNewLine: () => "\n",
  writeFile() {},
  directoryExists: () => true,
  getDirectories: () => [],
  resolveModuleNameLiterals: (literals, from) =>
    literals.map(({ text }) => {
      const to = text.startsWith("module:") ? job.modules[+text.slice(7)]
        : text === "helpers:" || text === job.node && !from.startsWith("/v/") ? job.nodeFile
        : text === job.globals ? job.globalsFile
        : text === "graphql" ? "/v/graphql.d.ts" : undefined;
      return { resolvedModule: to && { resolvedFileName: to, extension: to.endsWith(".d.ts") ? ".d.ts" : ".ts", isExternalLibraryImport: false } };
    }),
};

const roots = [...virtual.keys(), ...job.modules, ...(job.globalsFile ? [job.globalsFile] : [])];
const program = ts.createProgram(roots, options, host);
const checker = program.getTypeChecker();

function wrong(f) {
  const sf = program.getSourceFile(f);
  if (!sf) return ["not part of the program"];
  return [...program.getSyntacticDiagnostics(sf), ...program.getSemanticDiagnostics(sf)].map((d) => ts.flattenDiagnosticMessageText(d.messageText, " "));
}

function holds(sf, name) {
  const alias = sf.statements.find((s) => s.kind === ts.SyntaxKind.TypeAliasDeclaration && s.name.text === name);
  const type = checker.getTypeFromTypeNode(alias.type);
  const yes = checker.getPropertiesOfType(type).filter((p) => checker.typeToString(checker.getTypeOfSymbol(p)) === "true").map((p) => p.name);
  return yes.includes("any") ? ["any"] : yes.includes("never") ? ["never"] : yes.map((n) => n.slice(1));
}

const answer = {
  modules: job.modules.map((f, i) => {
    const sf = program.getSourceFile(`/v/${i}.ts`);
    return { errs: wrong(f), data: holds(sf, "Data"), vars: holds(sf, "Vars"),
      both: ["DataOf", "VariablesOf"].every((h) => holds(sf, "Both" + h).length === 1) };
  }),
  globals: job.globalsFile ? wrong(job.globalsFile) : [],
  helpers: wrong(job.nodeFile),
  kinds: kinds.map(([k, v]) => {
    const sf = program.getSourceFile("/v/kinds.ts");
    return { kind: k, v, data: holds(sf, `DataOf${k}${v}`), vars: holds(sf, `VariablesOf${k}${v}`) };
  }),
};
process.stdout.write(JSON.stringify(answer));
