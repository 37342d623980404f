// A small compiler for the part of Svelte (components in legacy mode) that the page uses, and a
// bundler that collects every module reachable from the page's entry and from its workers.
// Every component becomes a CommonJS module whose default export is function($$, $$s): $$ is the
// instance (runtime.mjs), $$s its reactive state; the script's top-level variables live in $$s.
import { createRequire } from "node:module";
import fs from "node:fs";
import path from "node:path";
const require = createRequire(import.meta.url);
const ts = require(process.env.SIM_TYPESCRIPT || "/opt/veriftools/node/node_modules/typescript");

const VOID = new Set("area base br col embed hr img input link meta param source track wbr".split(" "));

// ---------------------------------------------------------------- template parser
class Parser {
  constructor(src, file) { this.s = src; this.i = 0; this.file = file; }
  fail(m) { throw new Error(`${this.file}:${this.s.slice(0, this.i).split("\n").length}: ${m}`); }
  at(t) { return this.s.startsWith(t, this.i); }
  ws() { while (/\s/.test(this.s[this.i] || "")) this.i++; }
  // source of an expression up to its closing brace (or, at depth 0, one of the stop words)
  expr(stop) {
    const s = this.s; let d = 0; const start = this.i;
    while (this.i < s.length) {
      const c = s[this.i];
      if (c === "'" || c === '"') { this.str(c); continue; }
      if (c === "`") { this.tmpl(); continue; }
      if (s.startsWith("//", this.i)) { while (this.i < s.length && s[this.i] !== "\n") this.i++; continue; }
      if (s.startsWith("/*", this.i)) { this.i = s.indexOf("*/", this.i) + 2; continue; }
      if (c === "/" && /[=(,!&|?{}[:;]\s*$/.test(s.slice(start, this.i) || "=")) { this.regex(); continue; }
      if (d === 0 && stop) { const m = stop(s, this.i); if (m) return s.slice(start, this.i); }
      if (c === "(" || c === "[" || c === "{") d++;
      else if (c === ")" || c === "]" || c === "}") { if (d === 0) return s.slice(start, this.i); d--; }
      this.i++;
    }
    this.fail("unterminated expression");
  }
  str(q) { this.i++; while (this.s[this.i] !== q) { if (this.s[this.i] === "\\") this.i++; this.i++; if (this.i > this.s.length) this.fail("string"); } this.i++; }
  regex() { let cls = false; this.i++; while (cls || this.s[this.i] !== "/") { const c = this.s[this.i]; if (c === "\\") this.i++; else if (c === "[") cls = true; else if (c === "]") cls = false; this.i++; if (this.i > this.s.length) this.fail("regex"); } this.i++; }
  tmpl() {
    this.i++;
    while (this.s[this.i] !== "`") {
      if (this.s[this.i] === "\\") this.i += 2;
      else if (this.at("${")) { this.i += 2; this.expr(); this.i++; } else this.i++;
      if (this.i > this.s.length) this.fail("template string");
    }
    this.i++;
  }
  mustache() { const e = this.expr(); if (this.s[this.i] !== "}") this.fail("expected }"); this.i++; return e.trim(); }
  nodes(until) {
    const out = []; let text = "";
    const flush = () => { if (text) out.push({ t: "text", v: text }); text = ""; };
    for (;;) {
      if (this.i >= this.s.length) { if (until) this.fail("unexpected end, wanted " + until); flush(); return out; }
      if (until && until(this)) { flush(); return out; }
      if (this.at("<!--")) { this.i = this.s.indexOf("-->", this.i) + 3; continue; }
      if (this.at("<!DOCTYPE")) { this.i = this.s.indexOf(">", this.i) + 1; continue; }
      if (this.at("<") && /[a-zA-Z]/.test(this.s[this.i + 1] || "")) { flush(); out.push(this.element()); continue; }
      if (this.at("{")) {
        const n = this.s[this.i + 1];
        if (n === "#") { flush(); out.push(this.block()); continue; }
        if (n === "@") { flush(); const x = this.atTag(); if (x) out.push(x); continue; }
        flush(); this.i++;
        const e = this.mustache();
        if (e && !/^\/\*[^]*\*\/$/.test(e)) out.push({ t: "expr", e });
        continue;
      }
      text += this.s[this.i++];
    }
  }
  word() { let w = ""; while (/[a-z]/.test(this.s[this.i])) w += this.s[this.i++]; return w; }
  atTag() {
    this.i += 2; const w = this.word(); this.ws();
    if (w === "debug") { this.mustache(); return null; }
    const e = this.mustache();
    if (w === "html") return { t: "html", e };
    if (w === "const") return { t: "const", e };
    if (w === "render") return { t: "render", e };
    this.fail("unsupported {@" + w);
  }
  block() {
    this.i += 2; const w = this.word(); this.ws();
    const close = (p) => p.at("{/" + w) || p.at("{:");
    const end = () => { this.i = this.s.indexOf("}", this.i) + 1; };
    const cont = () => { this.i += 2; const x = this.word(); this.ws(); return x; };
    if (w === "if") {
      const branches = [{ e: this.mustache(), body: this.nodes(close) }];
      while (this.at("{:")) {
        cont(); let e = null;
        if (this.at("if")) { this.i += 2; this.ws(); e = this.mustache(); } else this.mustache();
        branches.push({ e, body: this.nodes(close) });
      }
      end(); return { t: "if", branches };
    }
    if (w === "key") { const e = this.mustache(); const body = this.nodes(close); end(); return { t: "key", e, body }; }
    if (w === "each") {
      const e = this.expr((s, i) => /^\sas\s/.test(s.slice(i, i + 4))).trim();
      let pat = "$$_", idx = null, key = null;
      if (this.s[this.i] !== "}") {
        this.i += 4; this.ws();
        pat = this.expr((s, i) => s[i] === "," || s[i] === "(").trim();
        if (this.s[this.i] === ",") { this.i++; idx = this.expr((s, i) => s[i] === "(").trim(); }
        if (this.s[this.i] === "(") { this.i++; key = this.expr().trim(); this.i++; this.ws(); }
      }
      if (this.s[this.i] !== "}") this.fail("each"); this.i++;
      const body = this.nodes(close); let els = null;
      if (this.at("{:")) { cont(); this.mustache(); els = this.nodes(close); }
      end(); return { t: "each", e, pat, idx, key, body, els };
    }
    if (w === "await") {
      const e = this.expr((s, i) => /^\s(then|catch)[\s}]/.test(s.slice(i, i + 7))).trim();
      const r = { t: "await", e, pending: [], then: null, thenPat: null, catch: null, catchPat: null };
      if (this.s[this.i] !== "}") {
        this.ws(); const k = this.word(); this.ws(); const pat = this.mustache();
        r[k + "Pat"] = pat || null; r[k] = this.nodes(close);
      } else { this.i++; r.pending = this.nodes(close); }
      while (this.at("{:")) { const k = cont(); r[k + "Pat"] = this.mustache() || null; r[k] = this.nodes(close); }
      end(); return r;
    }
    if (w === "snippet") {
      const sig = this.mustache(); const m = /^([\w$]+)\s*\(([^]*)\)$/.exec(sig); if (!m) this.fail("snippet");
      const body = this.nodes(close); end(); return { t: "snippet", name: m[1], params: m[2], body };
    }
    this.fail("unsupported {#" + w);
  }
  element() {
    this.i++; let name = "";
    while (/[^\s/>]/.test(this.s[this.i])) name += this.s[this.i++];
    const el = { t: "el", name, attrs: [], body: [] };
    for (;;) {
      this.ws();
      if (this.at("/>")) { this.i += 2; return el; }
      if (this.at(">")) { this.i++; break; }
      if (this.at("/*")) { this.i = this.s.indexOf("*/", this.i) + 2; continue; }
      el.attrs.push(this.attr());
    }
    if (VOID.has(name)) return el;
    if (name === "script" || name === "style" || name === "textarea" && !this.s.slice(this.i, this.s.indexOf("</textarea", this.i)).includes("{")) {
      const e = this.s.indexOf("</" + name, this.i); el.raw = this.s.slice(this.i, e); this.i = this.s.indexOf(">", e) + 1;
      if (name === "textarea" && el.raw) el.body = [{ t: "text", v: el.raw }];
      return el;
    }
    el.body = this.nodes((p) => p.at("</"));
    const m = /^<\/([^\s>]+)\s*>/.exec(this.s.slice(this.i)); if (!m || m[1] !== name) this.fail(`</${name}> expected`);
    this.i += m[0].length; return el;
  }
  attr() {
    if (this.at("{")) {
      this.i++; this.ws();
      if (this.at("...")) { this.i += 3; return { name: "...", e: this.mustache() }; }
      if (this.at("@")) this.fail("unsupported attribute tag");
      const e = this.mustache(); return { name: e, e };
    }
    let name = ""; while (/[^\s=/>"'{]/.test(this.s[this.i])) name += this.s[this.i++];
    if (!name) this.fail("attribute");
    this.ws();
    if (this.s[this.i] !== "=") return { name, bare: true };
    this.i++; this.ws();
    const q = this.s[this.i];
    if (q === '"' || q === "'") {
      this.i++; const parts = this.parts((c) => c === q); this.i++; return this.val(name, parts, true);
    }
    return this.val(name, this.parts((c) => /[\s>]/.test(c) || (c === "/" && this.s[this.i + 1] === ">")), false);
  }
  parts(stop) {
    const parts = []; let t = "";
    while (this.i < this.s.length && !stop(this.s[this.i])) {
      if (this.s[this.i] === "{") { if (t) parts.push({ v: t }); t = ""; this.i++; parts.push({ e: this.mustache() }); } else t += this.s[this.i++];
    }
    if (t) parts.push({ v: t });
    return parts;
  }
  val(name, parts) {
    if (parts.length === 0) return { name, e: '""' };
    if (parts.length === 1) return parts[0].e !== undefined ? { name, e: parts[0].e } : { name, e: JSON.stringify(entities(parts[0].v)), lit: true };
    return { name, e: "(" + parts.map((p) => (p.e !== undefined ? `$$.str(${p.e})` : JSON.stringify(entities(p.v)))).join("+") + ")" };
  }
}
const ENT = { lt: "<", gt: ">", amp: "&", quot: '"', apos: "'", nbsp: "\u00a0", copy: "©", mdash: "—", ndash: "–", hellip: "…", times: "×" };
export function entities(s) {
  return s.replace(/&(#x[0-9a-f]+|#\d+|\w+);/gi, (m, e) =>
    e[0] === "#" ? String.fromCodePoint(e[1] === "x" || e[1] === "X" ? parseInt(e.slice(2), 16) : parseInt(e.slice(1), 10)) : ENT[e] ?? m);
}

// ---------------------------------------------------------------- template code generation
class Gen {
  constructor() { this.n = 0; }
  list(nodes, comp) {
    // trim as Svelte does: whitespace at the edges goes, runs collapse
    let ns = nodes.filter((x) => !(x.t === "el" && ["script", "style", "svelte:options"].includes(x.name)));
    const pre = [], out = [];
    ns = ns.map((x) => (x.t === "text" && !comp?.pre ? { ...x, v: x.v.replace(/[ \t\r\n]+/g, " ") } : x));
    if (!comp?.pre) {
      while (ns.length && ns[0].t === "text" && !ns[0].v.trim()) ns = ns.slice(1);
      while (ns.length && ns.at(-1).t === "text" && !ns.at(-1).v.trim()) ns = ns.slice(0, -1);
      if (ns.length && ns[0].t === "text") ns[0] = { ...ns[0], v: ns[0].v.trimStart() };
      if (ns.length && ns.at(-1).t === "text") ns[ns.length - 1] = { ...ns.at(-1), v: ns.at(-1).v.trimEnd() };
    }
    for (const n of ns) {
      if (n.t === "const") pre.push(`const ${n.e};`);
      else if (n.t === "snippet") pre.push(`const ${n.name} = (${n.params}) => ${this.list(n.body)};`);
      else out.push(this.node(n));
    }
    const arr = `[${out.join(",\n")}]`;
    return pre.length ? `(() => { ${pre.join("\n")} return ${arr}; })()` : arr;
  }
  node(n) {
    const id = ++this.n;
    switch (n.t) {
      case "text": return `$$.T(${id}, ${JSON.stringify(entities(n.v))})`;
      case "expr": return `$$.T(${id}, ${n.e})`;
      case "html": return `$$.H(${id}, ${n.e})`;
      case "render": {
        const m = /^([^]*?)(\?\.)?\(([^]*)\)$/.exec(n.e); if (!m) throw new Error("{@render " + n.e);
        return `$$.F(${id}, "r", ${n.e})`;
      }
      case "if": {
        let s = "", i = 0;
        for (const b of n.branches) s += b.e !== null ? `(${b.e}) ? $$.F(${id}, "b${i++}", ${this.list(b.body)}) : ` : `$$.F(${id}, "b${i++}", ${this.list(b.body)})`;
        if (n.branches.at(-1).e !== null) s += "null";
        return `(${s})`;
      }
      case "key": return `$$.K(${id}, ${n.e}, () => ${this.list(n.body)})`;
      case "each": return `$$.each(${id}, ${n.e}, (${n.pat}${n.idx ? ", " + n.idx : ""}) => ${this.list(n.body)}, ${n.key ? `(${n.pat}${n.idx ? ", " + n.idx : ""}) => (${n.key})` : "null"}, ${n.els ? `() => ${this.list(n.els)}` : "null"})`;
      case "await": return `$$.A(${id}, ${n.e}, () => ${this.list(n.pending)}, ${n.then ? `(${n.thenPat || ""}) => ${this.list(n.then)}` : "null"}, ${n.catch ? `(${n.catchPat || ""}) => ${this.list(n.catch)}` : "null"})`;
      case "el": return this.el(n, id);
    }
    throw new Error("node " + n.t);
  }
  el(n, id) {
    if (n.name === "slot") {
      const nm = n.attrs.find((a) => a.name === "name"); let props = [];
      for (const a of n.attrs) if (a.name !== "name" && a.name !== "slot") props.push(a.name === "..." ? `...(${a.e})` : `${JSON.stringify(a.name)}: ${a.bare ? "true" : a.e}`);
      return `$$.slot(${id}, ${nm ? nm.e : '"default"'}, {${props.join(", ")}}, ${n.body.length ? `() => ${this.list(n.body)}` : "null"})`;
    }
    if (n.name === "svelte:fragment") return `$$.F(${id}, "f", ${this.list(n.body)})`;
    if (["svelte:window", "svelte:document", "svelte:body"].includes(n.name)) return `$$.W(${id}, ${JSON.stringify(n.name.slice(7))}, ${this.on(n.attrs)})`;
    if (n.name === "svelte:head") return "null";
    const thisAttr = n.attrs.find((a) => a.name === "this" && n.name.startsWith("svelte:"));
    if (n.name === "svelte:component") return `((c) => c ? $$.K(${id}, c, () => [${this.component({ ...n, name: "c", attrs: n.attrs.filter((a) => a !== thisAttr) }, ++this.n)}]) : null)(${thisAttr.e})`;
    if (n.name === "svelte:element") return this.plain({ ...n, attrs: n.attrs.filter((a) => a !== thisAttr) }, id, thisAttr.e);
    if (n.name === "svelte:self") return this.component({ ...n, name: "$$component" }, id);
    if (n.name.startsWith("svelte:")) throw new Error("unsupported <" + n.name + ">");
    if (/^[A-Z]/.test(n.name) || n.name.includes(".")) return this.component(n, id);
    return this.plain(n, id, JSON.stringify(n.name));
  }
  on(attrs) {
    const out = [];
    for (const a of attrs) {
      if (a.name.startsWith("on:")) {
        const [ev, ...mods] = a.name.slice(3).split("|");
        out.push(`[${JSON.stringify(ev)}, ${a.bare ? "null" : `() => (${a.e})`}, ${JSON.stringify(mods)}]`);
      }
    }
    return `[${out.join(", ")}]`;
  }
  bind(a) {
    const e = a.bare ? a.name.slice(a.name.indexOf(":") + 1) : a.e;
    return `() => (${e}), ($$v) => { ${e} = $$v; }`;
  }
  plain(n, id, tag) {
    const attrs = [], binds = [], on = [], uses = [];
    for (const a of n.attrs) {
      const p = a.name.split(":")[0], rest = a.name.slice(p.length + 1).split("|")[0];
      if (!a.name.includes(":") || ["xlink", "xml", "xmlns"].includes(p)) {
        if (a.name === "slot") continue;
        if (/^on[a-z]/.test(a.name) && !a.lit) on.push(`[${JSON.stringify(a.name.slice(2))}, () => (${a.e}), ["prop"]]`);
        else attrs.push(`[${JSON.stringify(a.name)}, ${a.bare ? "true" : a.e}]`);
      } else if (p === "on") on.push(this.on([a]).slice(1, -1));
      else if (p === "bind") {
        if (rest === "group") binds.push(`["group", ${this.bind(a)}, ${n.attrs.find((x) => x.name === "value")?.e ?? "undefined"}]`);
        else binds.push(`[${JSON.stringify(rest)}, ${this.bind(a)}]`);
      } else if (p === "class") attrs.push(`["class:", ${JSON.stringify(rest)}, ${a.bare ? rest : a.e}]`);
      else if (p === "style") attrs.push(`["style:", ${JSON.stringify(rest)}, ${a.bare ? rest : a.e}]`);
      else if (p === "use") uses.push(`[${rest}, ${a.bare ? "undefined" : `() => (${a.e})`}]`);
      else if (["transition", "in", "out", "animate", "let"].includes(p)) continue;
      else throw new Error("unsupported attribute " + a.name);
    }
    return `$$.E(${id}, ${tag}, [${attrs.join(", ")}], [${on.join(", ")}], [${binds.join(", ")}], ${this.list(n.body, { pre: ["pre", "textarea"].includes(n.name) })}, [${uses.join(", ")}])`;
  }
  component(n, id) {
    const props = [], slots = {}, lets = [], snippets = [];
    const bindThis = [];
    for (const a of n.attrs) {
      const p = a.name.split(":")[0], rest = a.name.slice(p.length + 1).split("|")[0];
      if (a.name === "slot") continue;
      if (a.name === "...") props.push(`["...", () => (${a.e})]`);
      else if (p === "bind" && rest === "this") bindThis.push(`($$v) => { ${a.e} = $$v; }`);
      else if (p === "bind") props.push(`[${JSON.stringify(rest)}, ${this.bind(a)}]`);
      else if (p === "let") lets.push(a.bare ? rest : `${rest}: ${a.e}`);
      else if (p === "on") continue;
      else if (!a.name.includes(":") || a.name.startsWith("--")) {
        if (a.name.startsWith("--")) continue;
        const e = a.bare ? "true" : a.e;
        props.push(`[${JSON.stringify(a.name)}, ${constant(e) ? `$$.once(${++this.n}, () => (${e}))` : `() => (${e})`}]`);
      } else throw new Error("unsupported attribute " + a.name);
    }
    const rest = [];
    for (const c of n.body) {
      const sl = c.t === "el" && c.attrs.find((a) => a.name === "slot");
      if (c.t === "snippet") snippets.push(c);
      else if (sl) (slots[JSON.parse(sl.e)] ||= []).push(c);
      else rest.push(c);
    }
    if (rest.some((c) => c.t !== "text" || c.v.trim())) slots.default = rest;
    const sl = Object.entries(slots).map(([k, v]) => {
      const inner = k !== "default" && v.length === 1 ? v[0].attrs.filter((a) => a.name.startsWith("let:")).map((a) => (a.bare ? a.name.slice(4) : `${a.name.slice(4)}: ${a.e}`)) : lets;
      return `${JSON.stringify(k)}: ({${inner.join(", ")}}: any) => ${this.list(v)}`;
    });
    for (const s of snippets) props.push(`[${JSON.stringify(s.name)}, () => ((${s.params}) => ${this.list(s.body)})]`);
    return `$$.C(${id}, ${n.name}, [${props.join(", ")}], ${this.on(n.attrs)}, {${sl.join(", ")}}, [${bindThis.join(", ")}])`;
  }
}
function constant(e) {
  const sf = ts.createSourceFile("e.ts", `(${e})`, ts.ScriptTarget.ES2022, true);
  let ok = true;
  const v = (n) => {
    if (ts.isIdentifier(n) && !(ts.isPropertyAssignment(n.parent) && n.parent.name === n) && !["undefined"].includes(n.text)) ok = false;
    if (ts.isCallExpression(n) || ts.isNewExpression(n) || ts.isFunctionLike(n)) ok = false;
    ts.forEachChild(n, v);
  };
  v(sf); return ok;
}

// ---------------------------------------------------------------- component compiler
export function compileSvelte(source, file) {
  const p = new Parser(source, file);
  const nodes = p.nodes(null);
  const isModule = (n) => n.attrs.some((a) => a.name === "module" || (a.name === "context" && a.e === '"module"'));
  const scripts = nodes.filter((n) => n.t === "el" && n.name === "script");
  const moduleSrc = scripts.filter(isModule).map((n) => n.raw).join("\n");
  const inst = scripts.filter((n) => !isModule(n)).map((n) => n.raw).join("\n");
  if (/\$(state|derived|effect|props|bindable)\b\s*[(.]/.test(inst)) throw new Error(`${file}: runes are not supported`);
  const sf = ts.createSourceFile("i.ts", inst, ts.ScriptTarget.ES2022, true);
  const imports = [], body = [], props = [], exported = [], declared = new Set(), implicit = new Set();
  const names = (n, set) => { if (ts.isIdentifier(n)) set.add(n.text); else n.elements.forEach((e) => !ts.isOmittedExpression(e) && names(e.name, set)); };
  for (const st of sf.statements) {
    if (ts.isVariableStatement(st)) st.declarationList.declarations.forEach((d) => names(d.name, declared));
    if ((ts.isFunctionDeclaration(st) || ts.isClassDeclaration(st)) && st.name) declared.add(st.name.text);
    if (ts.isImportDeclaration(st)) {
      const c = st.importClause; if (!c) continue;
      if (c.name) declared.add(c.name.text);
      if (c.namedBindings) ts.isNamespaceImport(c.namedBindings) ? declared.add(c.namedBindings.name.text) : c.namedBindings.elements.forEach((e) => declared.add(e.name.text));
    }
  }
  for (const st of sf.statements) {
    const t = st.getText(sf);
    if (ts.isImportDeclaration(st)) { imports.push(t); continue; }
    if (ts.isInterfaceDeclaration(st) || ts.isTypeAliasDeclaration(st)) { imports.push(t); continue; }
    if (ts.isExportDeclaration(st)) { if (st.exportClause && ts.isNamedExports(st.exportClause)) for (const e of st.exportClause.elements) props.push([(e.propertyName || e.name).text, e.name.text]); continue; }
    const exp = st.modifiers?.find((m) => m.kind === ts.SyntaxKind.ExportKeyword);
    if (exp) {
      if (ts.isVariableStatement(st) && st.declarationList.flags & ts.NodeFlags.Let) { const s = new Set(); st.declarationList.declarations.forEach((d) => names(d.name, s)); s.forEach((x) => props.push([x, x])); }
      else if (ts.isVariableStatement(st)) st.declarationList.declarations.forEach((d) => exported.push(d.name.getText(sf)));
      else if (st.name) exported.push(st.name.text);
      body.push(t.slice(exp.getEnd() - st.getStart(sf))); continue;
    }
    if (ts.isLabeledStatement(st) && st.label.text === "$") {
      const s = st.statement;
      if (ts.isExpressionStatement(s)) {
        let e = s.expression; while (ts.isParenthesizedExpression(e)) e = e.expression;
        if (ts.isBinaryExpression(e) && e.operatorToken.kind === ts.SyntaxKind.EqualsToken) {
          const lhs = (n) => {
            if (ts.isIdentifier(n)) { if (n.text[0] !== "$" && !declared.has(n.text)) implicit.add(n.text); }
            else if (ts.isArrayLiteralExpression(n)) n.elements.forEach(lhs);
            else if (ts.isObjectLiteralExpression(n)) n.properties.forEach((q) => lhs(ts.isShorthandPropertyAssignment(q) ? q.name : ts.isSpreadAssignment(q) ? q.expression : q.initializer));
            else if (ts.isBinaryExpression(n)) lhs(n.left); else if (ts.isSpreadElement(n)) lhs(n.expression);
          };
          lhs(e.left);
        }
      }
    }
    body.push(t);
  }
  const tpl = new Gen().list(nodes);
  const stores = new Set();
  const text = `${moduleSrc}\n${imports.join("\n")}
export default function $$component($$: any, $$s: any) {
const $$slots: any = $$.slots, $$props: any = $$.allProps, $$restProps: any = $$.restProps;
${[...implicit].map((x) => `let ${x}: any;`).join("\n")}
${body.join("\n")}
$$.exports = { ${exported.join(", ")} };
$$.render(() => ${tpl});
}
`;
  return { code: transform(text, file, props), file };
}

function transform(text, file, props) {
  const propOf = new Map(props);
  const opts = { target: ts.ScriptTarget.ES2022, module: ts.ModuleKind.ESNext, noLib: true, noResolve: true, types: [], allowJs: true };
  const sf = ts.createSourceFile("c.ts", text, ts.ScriptTarget.ES2022, true);
  if (sf.parseDiagnostics.length) { const d = sf.parseDiagnostics[0]; throw new Error(`${file}: ${ts.flattenDiagnosticMessageText(d.messageText, "\n")} near ${JSON.stringify(text.slice(Math.max(0, d.start - 60), d.start + 60))}`); }
  const host = { getSourceFile: (f) => (f === "c.ts" ? sf : undefined), writeFile() {}, getDefaultLibFileName: () => "lib.d.ts", useCaseSensitiveFileNames: () => true, getCanonicalFileName: (f) => f, getCurrentDirectory: () => "", getNewLine: () => "\n", fileExists: (f) => f === "c.ts", readFile: () => undefined };
  const checker = ts.createProgram(["c.ts"], opts, host).getTypeChecker();
  const F = ts.factory;
  const fn = sf.statements.find((s) => ts.isFunctionDeclaration(s) && s.name?.text === "$$component");
  const reactive = new Map(); // symbol -> name
  const top = new Map(); // every top-level symbol of the component
  const isDollar = (n) => n.startsWith("$$");
  for (const st of fn.body.statements) {
    if (ts.isVariableStatement(st)) {
      const isLet = !(st.declarationList.flags & ts.NodeFlags.Const);
      const add = (n) => { if (ts.isIdentifier(n)) { if (isDollar(n.text)) return; const sy = checker.getSymbolAtLocation(n); top.set(sy, n.text); if (isLet) reactive.set(sy, n.text); } else n.elements.forEach((e) => !ts.isOmittedExpression(e) && add(e.name)); };
      st.declarationList.declarations.forEach((d) => add(d.name));
    }
  }
  const symOf = (id) => (ts.isShorthandPropertyAssignment(id.parent) && id.parent.name === id ? checker.getShorthandAssignmentValueSymbol(id.parent) : checker.getSymbolAtLocation(id));
  const isRef = (id) => {
    const p = id.parent;
    if (ts.isPropertyAccessExpression(p) && p.name === id) return false;
    if ((ts.isPropertyAssignment(p) || ts.isMethodDeclaration(p) || ts.isPropertyDeclaration(p) || ts.isGetAccessor(p) || ts.isSetAccessor(p)) && p.name === id) return false;
    if (ts.isBindingElement(p) && (p.propertyName === id || p.name === id)) return false;
    if ((ts.isVariableDeclaration(p) || ts.isParameter(p) || ts.isFunctionLike(p) || ts.isClassLike(p)) && p.name === id) return false;
    if (ts.isLabeledStatement(p) || ts.isImportSpecifier(p) || ts.isImportClause(p) || ts.isBreakOrContinueStatement(p) || ts.isMetaProperty(p)) return false;
    return true;
  };
  const storeRef = (id) => /^\$[A-Za-z_]/.test(id.text) && isRef(id) && !symOf(id);
  const acc = (name) => F.createPropertyAccessExpression(F.createIdentifier("$$s"), name);
  const call = (m, args) => F.createCallExpression(F.createPropertyAccessExpression(F.createIdentifier("$$"), m), undefined, args);
  const str = (s) => F.createStringLiteral(s);
  const arrow = (b) => F.createArrowFunction(undefined, undefined, [], undefined, undefined, b);
  const base = (name) => F.createIdentifier(name);
  const rootSym = (e) => { while (ts.isPropertyAccessExpression(e) || ts.isElementAccessExpression(e) || ts.isNonNullExpression(e) || ts.isParenthesizedExpression(e) || ts.isAsExpression(e)) e = e.expression; return ts.isIdentifier(e) ? symOf(e) : undefined; };
  const storeName = (id) => {
    // the store behind $name: a top-level variable, or an import
    const n = id.text.slice(1);
    for (const [sy, nm] of reactive) if (nm === n) return acc(nm);
    return base(n);
  };
  const ctx = (c) => {
    const visit = (n) => {
      if (ts.isTypeNode(n)) return n;
      if (ts.isIdentifier(n)) {
        if (storeRef(n)) return call("sget", [storeName(n)]);
        if (isRef(n)) { const sy = symOf(n); if (sy && reactive.has(sy)) return acc(reactive.get(sy)); }
        return n;
      }
      if (ts.isShorthandPropertyAssignment(n)) {
        if (storeRef(n.name)) return F.createPropertyAssignment(n.name.text, call("sget", [storeName(n.name)]));
        const sy = checker.getShorthandAssignmentValueSymbol(n);
        if (sy && reactive.has(sy)) {
          const v = acc(reactive.get(sy));
          return F.createPropertyAssignment(n.name.text, n.objectAssignmentInitializer ? F.createBinaryExpression(v, ts.SyntaxKind.EqualsToken, ts.visitNode(n.objectAssignmentInitializer, visit)) : v);
        }
        return ts.visitEachChild(n, visit, c);
      }
      if (ts.isBinaryExpression(n) && n.operatorToken.kind >= ts.SyntaxKind.FirstAssignment && n.operatorToken.kind <= ts.SyntaxKind.LastAssignment) {
        if (ts.isIdentifier(n.left) && storeRef(n.left)) {
          if (n.operatorToken.kind !== ts.SyntaxKind.EqualsToken) throw new Error(`${file}: compound assignment to a store`);
          return call("sset", [storeName(n.left), ts.visitNode(n.right, visit)]);
        }
        if (!ts.isIdentifier(n.left) && (ts.isPropertyAccessExpression(n.left) || ts.isElementAccessExpression(n.left))) {
          const sy = rootSym(n.left);
          if (sy && top.has(sy)) return call("mut", [str(top.get(sy)), ts.visitEachChild(n, visit, c)]);
        }
      }
      if ((ts.isPrefixUnaryExpression(n) || ts.isPostfixUnaryExpression(n)) && [ts.SyntaxKind.PlusPlusToken, ts.SyntaxKind.MinusMinusToken].includes(n.operator) && !ts.isIdentifier(n.operand)) {
        const sy = rootSym(n.operand);
        if (sy && top.has(sy)) return call("mut", [str(top.get(sy)), ts.visitEachChild(n, visit, c)]);
      }
      return ts.visitEachChild(n, visit, c);
    };
    const deps = (st) => {
      const d = new Set(), a = new Set();
      const v = (n, assigned) => {
        if (ts.isTypeNode(n)) return;
        if (ts.isIdentifier(n)) {
          if (storeRef(n)) { d.add(n.text); return; }
          const sy = isRef(n) || (ts.isShorthandPropertyAssignment(n.parent) && n.parent.name === n) ? symOf(n) : undefined;
          if (sy && reactive.has(sy)) (assigned ? a : d).add(reactive.get(sy));
          else if (sy && top.has(sy) && !assigned) d.add(top.get(sy));
          else if (assigned && n.parent && !sy && isRef(n)) a.add(n.text);
          return;
        }
        if (ts.isBinaryExpression(n) && n.operatorToken.kind === ts.SyntaxKind.EqualsToken) {
          const lhs = (e) => {
            while (ts.isParenthesizedExpression(e)) e = e.expression;
            if (ts.isIdentifier(e)) v(e, true);
            else if (ts.isArrayLiteralExpression(e)) e.elements.forEach(lhs);
            else if (ts.isObjectLiteralExpression(e)) e.properties.forEach((q) => (ts.isShorthandPropertyAssignment(q) ? v(q.name, true) : lhs(ts.isSpreadAssignment(q) ? q.expression : q.initializer)));
            else if (ts.isPropertyAccessExpression(e) || ts.isElementAccessExpression(e)) { const sy = rootSym(e); if (sy && top.has(sy)) a.add(top.get(sy)); else v(e, false); }
            else v(e, false);
          };
          lhs(n.left); v(n.right, false); return;
        }
        ts.forEachChild(n, (x) => v(x, false));
      };
      v(st, false);
      return { d: [...d], a: [...a] };
    };
    const pat = (n) => { // binding pattern -> assignment pattern over $$s
      if (ts.isIdentifier(n)) return acc(n.text);
      const target = (e) => (e.initializer ? F.createBinaryExpression(pat(e.name), ts.SyntaxKind.EqualsToken, ts.visitNode(e.initializer, visit)) : pat(e.name));
      if (ts.isArrayBindingPattern(n)) return F.createArrayLiteralExpression(n.elements.map((e) => (ts.isOmittedExpression(e) ? F.createOmittedExpression() : e.dotDotDotToken ? F.createSpreadElement(pat(e.name)) : target(e))));
      return F.createObjectLiteralExpression(n.elements.map((e) => (e.dotDotDotToken ? F.createSpreadAssignment(pat(e.name)) : F.createPropertyAssignment(e.propertyName ? ts.visitNode(e.propertyName, visit) : e.name.text, target(e)))));
    };
    const allNames = (n, out) => { if (ts.isIdentifier(n)) out.push(n.text); else n.elements.forEach((e) => !ts.isOmittedExpression(e) && allNames(e.name, out)); return out; };
    return (file_) => {
      const stmts = [], reacts = [];
      let renderSt = null;
      for (const st of fn.body.statements) {
        if (ts.isLabeledStatement(st) && st.label.text === "$") {
          const { d, a } = deps(st.statement);
          const b = ts.isBlock(st.statement) ? ts.visitNode(st.statement, visit) : F.createBlock([ts.visitNode(st.statement, visit)], true);
          reacts.push({ d, a, st: F.createExpressionStatement(call("reactive", [F.createArrayLiteralExpression(d.map(str)), arrow(b), F.createArrayLiteralExpression(d.map((x) => arrow(x.startsWith("$") ? call("sget", [storeName({ text: x })]) : [...reactive.values()].includes(x) ? acc(x) : base(x))))])) });
          continue;
        }
        if (ts.isVariableStatement(st) && !(st.declarationList.flags & ts.NodeFlags.Const)) {
          for (const d of st.declarationList.declarations) {
            if (ts.isIdentifier(d.name)) {
              const nm = d.name.text, init = d.initializer ? arrow(F.createParenthesizedExpression(ts.visitNode(d.initializer, visit))) : F.createIdentifier("undefined");
              stmts.push(F.createExpressionStatement(propOf.has(nm) ? call("prop", [str(nm), str(propOf.get(nm)), init]) : call("let", [str(nm), init])));
            } else {
              for (const x of allNames(d.name, [])) stmts.push(F.createExpressionStatement(call("let", [str(x), F.createIdentifier("undefined")])));
              stmts.push(F.createExpressionStatement(F.createParenthesizedExpression(F.createBinaryExpression(pat(d.name), ts.SyntaxKind.EqualsToken, ts.visitNode(d.initializer, visit)))));
              for (const x of allNames(d.name, [])) if (propOf.has(x)) throw new Error(`${file}: destructured props`);
            }
          }
          continue;
        }
        if (st === fn.body.statements.at(-1)) { renderSt = ts.visitNode(st, visit); continue; }
        stmts.push(ts.visitNode(st, visit));
      }
      // topological order: a statement runs after those that assign what it reads
      const done = new Set(), order = [];
      const put = (r, seen) => { if (done.has(r)) return; if (seen.has(r)) return; seen.add(r); for (const q of reacts) if (q !== r && q.a.some((x) => r.d.includes(x) )) put(q, seen); done.add(r); order.push(r); };
      for (const r of reacts) put(r, new Set());
      const nf = F.updateFunctionDeclaration(fn, fn.modifiers, fn.asteriskToken, fn.name, fn.typeParameters, fn.parameters, fn.type, F.createBlock([...stmts, ...order.map((r) => r.st), renderSt], true));
      return F.updateSourceFile(file_, file_.statements.map((s) => (s === fn ? nf : s)));
    };
  };
  const res = ts.transform(sf, [ctx]);
  return ts.createPrinter().printFile(res.transformed[0]);
}

// ---------------------------------------------------------------- bundler
export function toCommonJs(code, id) {
  let out = ts.transpileModule(code, { compilerOptions: { target: ts.ScriptTarget.ES2022, module: ts.ModuleKind.CommonJS, esModuleInterop: true, allowJs: true }, fileName: id.replace(/\.svelte$/, ".ts") }).outputText;
  return out.replace(/\bimport\.meta\b/g, "__import_meta");
}
const STUBS = new Set(["svelte", "svelte/store", "svelte/internal", "shiki", "json_typegen_wasm", "svelte/legacy", "svelte/transition", "svelte/animate", "svelte/easing", "svelte/reactivity"]);
export function bundle(root) {
  const mods = {}, todo = [];
  const html = fs.readFileSync(path.join(root, "index.html"), "utf8");
  const m = /<script[^>]*type="module"[^>]*src="([^"]+)"/.exec(html);
  const entry = m ? m[1] : "/src/main.ts";
  const exists = (f) => fs.existsSync(f) && fs.statSync(f).isFile();
  const resolve = (spec, from) => {
    const bare = spec.split("?")[0];
    let p = bare.startsWith("/") ? bare : path.posix.join(path.posix.dirname(from), bare);
    for (const s of ["", ".ts", ".js", ".mjs", ".svelte", ".svelte.ts", "/index.ts", "/index.js", ".json"]) if (exists(root + p + s)) return p + s;
    if (p.endsWith(".js") && exists(root + p.slice(0, -3) + ".ts")) return p.slice(0, -3) + ".ts";
    return null;
  };
  const add = (id) => { if (!(id in mods)) { mods[id] = null; todo.push(id); } };
  add(entry);
  while (todo.length) {
    const id = todo.pop(), src = fs.readFileSync(root + id, "utf8"), deps = {};
    let code;
    if (id.endsWith(".json")) code = `module.exports = { __esModule: true, default: ${JSON.stringify(JSON.parse(src))} };`;
    else if (id.endsWith(".svelte")) code = toCommonJs(compileSvelte(src, id).code, id);
    else if (/\.(ts|js|mjs)$/.test(id)) code = toCommonJs(src, id);
    else { mods[id] = { code: `module.exports = { __esModule: true, default: ${JSON.stringify(id)} };`, deps: {} }; continue; }
    const sf = ts.createSourceFile("x.js", code, ts.ScriptTarget.ES2022, true);
    const visit = (n) => {
      if (ts.isCallExpression(n) && n.expression.getText(sf) === "require" && n.arguments[0] && ts.isStringLiteral(n.arguments[0])) {
        const spec = n.arguments[0].text;
        if (spec.startsWith(".") || spec.startsWith("/")) {
          const r = resolve(spec, id);
          if (!r) throw new Error(`${id}: cannot resolve ${spec}`);
          const q = spec.split("?")[1] || "";
          deps[spec] = /\.(css|svg|png)$/.test(r) || /\b(url|raw)\b/.test(q) ? { asset: r } : /\bworker\b/.test(q) ? { worker: r } : { mod: r };
          if (deps[spec].mod || deps[spec].worker) add(r);
        } else if (STUBS.has(spec)) deps[spec] = { stub: spec };
        else if (/\.(css)$/.test(spec)) deps[spec] = { asset: spec };
        else throw new Error(`${id}: no stand-in for module ${spec}`);
      } else if (ts.isStringLiteral(n) && /^\.{1,2}\/.*\.(ts|js|mjs)$/.test(n.text) && !(ts.isCallExpression(n.parent) && n.parent.expression.getText(sf) === "require")) {
        const r = resolve(n.text, id); if (r) add(r); // new URL("./worker.ts", import.meta.url)
      }
      ts.forEachChild(n, visit);
    };
    visit(sf);
    mods[id] = { code, deps };
  }
  return { entry, mods };
}
if (process.argv[1] === new URL(import.meta.url).pathname) {
  const b = bundle(process.argv[2]);
  if (process.argv[3]) console.log(b.mods[process.argv[3]].code); else for (const k of Object.keys(b.mods)) console.log(k, b.mods[k].code.length, JSON.stringify(b.mods[k].deps));
}
