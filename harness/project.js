// Projects emitted TypeScript modules (one JSON {"p": path} or {"text": ...} per input line) to the
// records spec/Module.tla speaks about, one JSON line each.
"use strict";
const ts = require("/opt/veriftools/node/node_modules/typescript");
const fs = require("fs");
const K = ts.SyntaxKind;

function project(text) {
  const sf = ts.createSourceFile("m.ts", text, ts.ScriptTarget.Latest, true);
  const refs = new Set();
  const M = { parses: sf.parseDiagnostics.length === 0, imports: [], decls: [], node: { n: "", args: [], default: false }, refs: [], other: [] };

  const kw = { [K.AnyKeyword]: "any", [K.StringKeyword]: "string", [K.NumberKeyword]: "number", [K.BooleanKeyword]: "boolean", [K.NeverKeyword]: "never", [K.UnknownKeyword]: "unknown", [K.UndefinedKeyword]: "undefined", [K.ObjectKeyword]: "object", [K.BigIntKeyword]: "bigint", [K.VoidKeyword]: "void", [K.SymbolKeyword]: "symbol" };
  const mk = (k, o) => Object.assign({ nul: false, k, n: "", vs: [] }, o);
  const isNull = (t) => t.kind === K.LiteralType && t.literal.kind === K.NullKeyword;
  function members(t) {
    if (t.kind === K.ParenthesizedType) return members(t.type);
    if (t.kind === K.UnionType) return t.types.flatMap(members);
    return [t];
  }
  function conv(t) {
    const ms = members(t);
    const rest = ms.filter((m) => !isNull(m));
    const nul = rest.length < ms.length;
    let r;
    if (rest.length > 0 && rest.every((m) => m.kind === K.LiteralType && m.literal.kind === K.StringLiteral)) {
      r = mk("lits", { vs: rest.map((m) => m.literal.text) });
    } else if (rest.length !== 1) {
      rest.forEach(conv);
      r = mk("other", { n: "union" });
    } else {
      const m = rest[0];
      if (m.kind === K.ArrayType) r = mk("arr", { e: conv(m.elementType) });
      else if (m.kind === K.TypeReference && m.typeName.kind === K.Identifier) {
        refs.add(m.typeName.text);
        if (m.typeArguments) { m.typeArguments.forEach(conv); r = mk("other", { n: "generic" }); }
        else r = mk("ref", { n: m.typeName.text });
      } else if (kw[m.kind]) r = mk("kw", { n: kw[m.kind] });
      else r = mk("other", { n: K[m.kind] });
    }
    r.nul = nul;
    return r;
  }
  function docOf(node) {
    const ranges = ts.getLeadingCommentRanges(text, node.getFullStart()) || [];
    const lines = [];
    for (const r of ranges) {
      let c = text.slice(r.pos, r.end);
      if (!c.startsWith("/**")) continue;
      c = c.slice(3, c.endsWith("*/") ? -2 : undefined);
      for (let l of c.split("\n")) {
        l = l.trim();
        if (l.startsWith("*")) l = l.slice(1).trim();
        if (l) lines.push(l);
      }
    }
    const dep = lines.includes("@deprecated");
    return { doc: lines.filter((l) => l !== "@deprecated"), dep };
  }
  function props(members) {
    const out = [];
    for (const m of members) {
      if (m.kind !== K.PropertySignature || !m.type) { M.other.push(K[m.kind]); continue; }
      const mods = m.modifiers || [];
      const d = docOf(m);
      out.push({ n: m.name.text, opt: !!m.questionToken, ro: mods.some((x) => x.kind === K.ReadonlyKeyword), t: conv(m.type), doc: d.doc, dep: d.dep });
    }
    const names = [...new Set(out.map((p) => p.n))].sort();
    for (const p of out) p.rank = names.indexOf(p.n);
    return out;
  }
  const exported = (s) => (s.modifiers || []).some((x) => x.kind === K.ExportKeyword);
  let constName = "";
  for (const s of sf.statements) {
    switch (s.kind) {
      case K.ImportDeclaration: {
        const c = s.importClause;
        const names = c && c.namedBindings && c.namedBindings.kind === K.NamedImports ? c.namedBindings.elements.map((e) => (e.propertyName ? "?" : "") + e.name.text) : [];
        if (c && c.name) names.push("default " + c.name.text);
        M.imports.push({ from: s.moduleSpecifier.text, names, typ: !!(c && c.isTypeOnly) });
        break;
      }
      case K.TypeAliasDeclaration: {
        const d = { n: s.name.text, exp: exported(s), k: "other" };
        if (s.type.kind === K.TypeLiteral) { d.k = "obj"; d.props = props(s.type.members); }
        else {
          const ms = members(s.type);
          const plain = ms.every((m) => m.kind === K.TypeReference && m.typeName.kind === K.Identifier && !m.typeArguments);
          if (plain) { d.k = "union"; d.alts = ms.map((m) => m.typeName.text); d.alts.forEach((a) => refs.add(a)); }
          else conv(s.type);
        }
        M.decls.push(d);
        break;
      }
      case K.EnumDeclaration: {
        const d = docOf(s);
        M.decls.push({ n: s.name.text, exp: exported(s), k: "enum", doc: d.doc, dep: d.dep,
          vals: s.members.map((m) => ({ n: m.name.text, v: m.initializer && m.initializer.kind === K.StringLiteral ? m.initializer.text : "?" })) });
        break;
      }
      case K.VariableStatement: {
        const ds = s.declarationList.declarations;
        const t = ds.length === 1 && ds[0].type;
        const decl = (s.modifiers || []).some((x) => x.kind === K.DeclareKeyword);
        if (!constName && decl && t && t.kind === K.TypeReference && t.typeName.kind === K.Identifier) {
          constName = ds[0].name.text;
          M.node.n = t.typeName.text;
          refs.add(M.node.n);
          M.node.args = (t.typeArguments || []).map(conv);
        } else M.other.push("VariableStatement");
        break;
      }
      case K.ExportAssignment:
        if (!s.isExportEquals && s.expression.kind === K.Identifier && s.expression.text === constName) M.node.default = true;
        else M.other.push("ExportAssignment");
        break;
      default:
        M.other.push(K[s.kind]);
    }
  }
  M.refs = [...refs].sort();
  return M;
}

if (require.main === module) {
  let buf = "";
  process.stdin.setEncoding("utf8");
  process.stdin.on("data", (d) => {
    buf += d;
    let i;
    while ((i = buf.indexOf("\n")) >= 0) {
      const q = JSON.parse(buf.slice(0, i));
      buf = buf.slice(i + 1);
      const text = q.p ? fs.readFileSync(q.p, "utf8") : q.text;
      process.stdout.write(JSON.stringify(project(text)) + "\n");
    }
  });
}
module.exports = { project };
