// One run: a scenario (a list of user actions and faults) under one schedule, with the oracles.
import { Sim, platform, Rng, drain, canon, inputHash, poison, hash, SimFile, SAME } from "./sim.mjs";
import { El, Raw, Event_ } from "./dom.mjs";
import * as gen from "./gen.mjs";

export const MODES = ["rust", "typescript", "typescript/typealias", "kotlin/jackson", "kotlin/kotlinx", "python", "json_schema", "zod", "shape"];
const EXT = { rust: "rs", typescript: "ts", "typescript/typealias": "ts", "kotlin/jackson": "kt", "kotlin/kotlinx": "kt", python: "py", json_schema: "json", zod: "ts", shape: "json" };
const FIELDS = { typename: "Type name", input: "Input code", inputmode: "Input language", outputmode: "Output language", propertynameformat: "Property name format", importstyle: "Import style", collectadditional: "Collect additional properties", unwrappath: "Unwrap path", extraoptions: "Extra options", infermapthreshold: "Infer map threshold" };
const OPTION = { inputmode: "input_mode", outputmode: "output_mode", propertynameformat: "property_name_format", importstyle: "import_style", collectadditional: "collect_additional", unwrappath: "unwrap", infermapthreshold: "infer_map_threshold" };
const FORMATS = ["", "PascalCase", "camelCase", "snake_case", "SCREAMING_SNAKE_CASE", "kebab-case", "SCREAMING-KEBAB-CASE", "UPPERCASE"];
const IMPORTS = ["assume_existing", "add_imports", "qualified_paths"];
export class Violation extends Error { constructor(prop, msg) { super(msg); this.prop = prop; } }
const norm = (s) => s.trim();

// ------------------------------------------------------------------ scenarios
export function makeScenario(prop, rng) {
  const sc = { prop, actions: [], weights: {}, settle: rng.pick([0.02, 0.1, 0.3]) };
  sc.finalReload = prop === "C22" && rng.p(0.5);
  const W = [0.03, 0.2, 1, 1, 3, 15];
  for (const k of ["user", "toWorker", "toPage", "boot", "init", "read", "shiki", "clip", "timer"]) sc.weights[k] = rng.pick(W);
  const mix = {
    C19: { type: 6, input: 6, sel: 4, check: 2, file: 5, clear: 3, example: 3, format: 1, copy: 0.5, help: 0.5, extra: 2, cancel: 0.5, settle: 1 },
    C20: { type: 1, input: 1.5, sel: 1, file: 8, clear: 4, example: 1, cancel: 0.5, settle: 1.5, format: 0.3 },
    C21: { type: 3, input: 4, sel: 2, file: 5, clear: 2, example: 1, extra: 1, settle: 2, format: 0.5 },
    C22: { type: 5, input: 5, sel: 5, check: 3, file: 1.5, clear: 1, example: 2, extra: 3, reload: 4, storage: 2, settle: 1, format: 0.5 },
    C23: { type: 5, input: 2, sel: 8, check: 1, file: 2, clear: 1, example: 2, extra: 2, settle: 2 },
    C24: { type: 6, input: 6, sel: 4, check: 1, file: 4, clear: 2, example: 2, extra: 1, settle: 0.5 },
    C25: { type: 5, input: 6, sel: 7, check: 2, file: 2.5, clear: 1, example: 1.5, extra: 2, settle: 4, format: 0.7, reload: 0.7 },
    C26: { type: 5, input: 4, sel: 5, file: 2, clear: 1, example: 2, extra: 1, copy: 6, settle: 3, format: 0.5 },
    C27: { type: 5, input: 5, sel: 4, check: 1, file: 2.5, clear: 1.5, example: 2, extra: 1, settle: 3, copy: 0.5, reload: 3 },
    C28: { type: 5, input: 5, sel: 6, check: 1, file: 2, clear: 1, example: 2, extra: 1.5, settle: 4, copy: 1.5, format: 0.5, reload: 1.5 },
  }[prop];
  const faults = { C20: 0.3, C21: 0.45, C25: 0.15, C27: 0.2 }[prop] || 0;
  const throwing = prop === "C21" ? 0.25 : 0;
  const n = rng.pick([1, 2, 3, 4, 6, 8, 12, 20, rng.n(40) + 1]);
  // swarm: some kinds of action are left out of a run
  const kinds = Object.entries(mix).filter(() => !rng.p(0.2));
  if (!kinds.length) kinds.push(["type", 1]);
  const total = kinds.reduce((a, k) => a + k[1], 0);
  const kind = () => { let x = rng.u() * total; for (const [k, w] of kinds) { if ((x -= w) < 0) return k; } return kinds[0][0]; };
  if (prop === "C22" && rng.p(0.35)) sc.stored = corrupt(rng);
  if (prop === "C22" && rng.p(0.2)) sc.storage = rng.pick(["forbidden", "getThrows", "setThrows", "quota"]);
  if (prop === "C26" && rng.p(0.15)) sc.clipboard = "missing";
  if (rng.p(0.3)) sc.windows = true;
  if (prop === "C28") { sc.noHighlighter = rng.pick([[true], [true], [true, false, true], [false, true], [false]]); if (!sc.noHighlighter[0] || rng.p(0.2)) sc.highlighterFails = rng.pick([1, 2, 3, 3, 7]); }
  if (["C27", "C28"].includes(prop) && rng.p(0.5)) sc.noReason = rng.n(9);
  if (prop === "C27") sc.noGenerator = rng.pick([[true], [true], [true, true], [false, true], [true, false, true], [false]]).map((x) => (x && rng.p(0.3) ? "worker" : x));
  let files = 0, uniq = 0;
  const ident = () => rng.pick(["Root", "MyType", "A", "Point", "Ünï", "x_y", "T"]) + ++uniq;
  for (let i = 0; i < n; i++) {
    const k = kind();
    if (k === "type") {
      const f = rng.pick(["typename", "typename", "unwrappath", "infermapthreshold"]);
      const v = prop === "C25" && !rng.p(0.3) ? realText(rng, f) : f === "typename" ? (rng.p(throwing) ? "THROW" + ++uniq : rng.p(0.06) ? "" : rng.p(0.05) ? "a/b \"<c>&'" + ++uniq : rng.p(0.04) ? "O" + rng.pick(ODDITIES) + ++uniq : ident()) : f === "unwrappath" ? rng.pick(["", "/-", "/cards/-", "/a~1b", "/" + ident()]) : rng.pick(["", "0", "3", "12", "x", String(rng.n(50))]);
      sc.actions.push({ a: "type", id: f, v, keys: rng.p(0.2) });
    } else if (k === "input") {
      sc.actions.push({ a: "type", id: "input", v: prop === "C25" ? near(rng, sc.actions.filter((x) => x.id === "input").at(-1)?.v) ?? realInput(rng) : inputText(rng, throwing, prop) });
    } else if (k === "sel") {
      const f = rng.pick(["outputmode", "outputmode", "outputmode", "inputmode", "propertynameformat", "importstyle"]);
      sc.actions.push({ a: "sel", id: f, v: rng.pick({ outputmode: MODES, inputmode: ["json", "sql"], propertynameformat: FORMATS, importstyle: IMPORTS }[f]) });
    } else if (k === "check") sc.actions.push({ a: "check", id: "collectadditional" });
    else if (k === "extra" && prop === "C25") sc.actions.push({ a: "type", id: "extraoptions", v: realExtra(rng) });
    else if (k === "extra") sc.actions.push({ a: "type", id: "extraoptions", v: rng.pick(["", "{", "{}", " ", "null", "[1]", '"s"', '{"derives":"Debug"}', `{"output_mode":"${rng.pick(MODES)}"}`, '{"property_name_format":"kebab-case"}', '{"type_visibility":""}', `{"/a":{"use_type":"x${++uniq}"}}`, '{"input_mode":"json"}', '{"unwrap":"/extra"}', '{"output_mode":null}', '{"collect_additional":false}']) });
    else if (k === "file") {
      const big = rng.p(prop === "C22" ? 0.3 : 0.6), id = ++files;
      const fail = rng.p(faults);
      const contents = prop === "C25" ? realInput(rng) : rng.p(0.04) && !big ? "" : rng.p(throwing * 0.5) ? `{"fid": "f${id}", "x": "THROW"}` : rng.p(0.1) ? `{"fid": "f${id}", "x": "BAD"}` : rng.p(0.1) ? `not json "fid": "f${id}"` : `{"fid": "f${id}", "n": ${rng.n(1000)}}`;
      const [text, size] = sized(rng, contents, big);
      const old = rng.p(0.2) && sc.actions.filter((x) => x.a === "file").at(-1)?.f; // the same file again, changed meanwhile
      if (old) sc.actions.push({ a: "file", f: { name: old.name, size: old.size > 500_000 === big && Buffer.byteLength(text) <= old.size ? old.size : size, fid: `f${id}`, contents: text, fail } });
      else sc.actions.push({ a: "file", f: { fid: `f${id}`, name: `${rng.pick(["file", "data set", "björk", "a\"b"])}-f${id}.json`, size, contents: text, fail } });
    } else if (k === "clear") sc.actions.push({ a: "clear" });
    else if (k === "example") sc.actions.push({ a: "example", i: rng.n(5) });
    else if (k === "storage") sc.actions.push({ a: "storage", mode: rng.pick(["ok", "ok", "forbidden", "getThrows", "setThrows", "quota"]) });
    else sc.actions.push({ a: k });
  }
  return sc;
}
// What a file holds and its size in bytes. Most large files only claim to be large; some are.
function sized(rng, t, big) {
  if (!t.includes("THROW") && t.startsWith("{") && t.endsWith("}") && rng.p(0.4)) t = t.slice(0, -1) + `, "w": "${rng.pick(["é", "漢字", "🎈", "e\u0301", "ÿ\u0080", "\u00a0"]).repeat(rng.pick([1, 1, 3, 40]))}"}`;
  let n = Buffer.byteLength(t);
  if (!big && n > 500_000) big = true;
  const pad = (to) => { if (n < to) { const w = rng.pick([" ", "é", "漢"]), k = Buffer.byteLength(w); t = t.endsWith("}") && k > 1 ? t.slice(0, -1) + `,"p":"${w.repeat(Math.ceil((to - n) / k))}"}` : t + " ".repeat(to - n); n = Buffer.byteLength(t); } };
  if (rng.p(0.04)) pad(big ? rng.pick([500_001, 600_000]) : 499_000);
  if (!big && rng.p(0.05) && n <= 500_000) return [t, 500_000];
  return [t, big ? Math.max(n, rng.pick([500_001, 777_777, 1_234_567])) : n];
}
// for the repository's own generator: what it is written for, and what it is not
const KEYS = ["a", "b", "id", "name", "type", "a b", "é", "", "x-y", "FooBar", "self", "1", 'q"q', "back\\slash", "🎈", "it's", "a/b", "~", "T", "Root", "\t"];
function realKey(rng) { return rng.p(0.7) ? KEYS[rng.n(5)] : rng.pick(KEYS); }
function realValue(rng, depth) {
  const r = rng.n(depth > 3 ? 6 : 10);
  if (r < 2) return rng.pick([0, 1, -5, 2.5, 1e21, 9007199254740993]);
  if (r === 2) return rng.p(0.5);
  if (r === 3) return null;
  if (r < 6) return rng.pick(["", "text", "é", "2024-01-01", "\u0000", "</code>", 'q"'])
  if (r < 8) { const o = {}; for (let i = rng.n(4); i >= 0; i--) o[realKey(rng)] = realValue(rng, depth + 1); return o; }
  return Array.from({ length: rng.pick([0, 1, 2, 3, 14]) }, () => realValue(rng, depth + 1));
}
function realInput(rng) {
  const r = rng.u();
  if (r < 0.04) return "";
  if (r < 0.1) return rng.pick(["CREATE TABLE t (id INT PRIMARY KEY, name VARCHAR(20) NOT NULL, x FLOAT);", "create table a (x text); create table b (y int);", "CREATE TABLE", "SELECT 1;", "-- nothing\n", "CREATE TABLE `a b` (`c d` BIGINT, e BOOLEAN);"]);
  if (r < 0.14) return rng.pick(["http://localhost/x.json", "https://example.com", "/etc/hostname", "-", "json_typegen!(\"Root\", \"{}\")", "5", '"text"', "null", " ", "[", "{]", '{"a":1,}', '{"a":1}}', '{"a":"\\ud800"}', '{"a":"\\u00e9\\ud83c\\udf88"}', '{"a":tru}', '\ufeff{"a":1}', '[1,"\\x"]']);
  if (r < 0.17) { const n = rng.pick([100, 127, 128, 129, 3000]); return rng.p(0.5) ? "[".repeat(n) + "]".repeat(n) : '{"a":'.repeat(n) + "1" + "}".repeat(n); }
  if (r < 0.27) { const o = {}; for (let i = rng.pick([6, 12, 40, 200]); i > 0; i--) o[rng.pick(KEYS) + i] = realValue(rng, 3); return JSON.stringify(o); }
  const t = JSON.stringify(rng.p(0.85) ? realValue({ ...rng, n: (k) => (k === 10 ? 6 + rng.n(4) : rng.n(k)), p: (x) => rng.p(x), pick: (a) => rng.pick(a) }, 0) : realValue(rng, 0), null, rng.pick([0, 0, 2]));
  if (rng.p(0.08)) return t.slice(0, rng.n(t.length));
  return rng.p(0.1) ? " " + t + "\n" : t;
}
function realText(rng, f) {
  if (f === "typename") return rng.pick(["Root", "MyType", "pub(crate) Foo", "pub Bar", "pub(in a::b) X", "", " ", "type", "lower case", "Ünï", "a-b", "1st", "🎈", "String", "Any", 'Q"q', "back\\slash", "pub(", "A".repeat(300)]);
  if (f === "unwrappath") return "/" + Array.from({ length: rng.n(3) }, () => rng.pick(["-", "-", "0", "1", realKey(rng)])).join("/") + rng.pick(["", "", "", "", "/"]) + (rng.p(0.05) ? rng.pick(CONTROL) : "");
  return rng.pick(["", "0", "1", "2", "3", "13", " 2", "2 ", "-1", "x", "1e1", "1.5", "99999999999999999999999", "+2", "é", '"', "\\", "'"]);
}
const CONTROL = ["\u0001", "\b", "\f", "\u001f", "\u007f"];
// the text before with one character changed for one of its kind, so that only its content differs
function near(rng, t) {
  if (!t || !rng.p(0.3)) return null;
  const at = []; for (let i = 0; i < t.length; i++) if (/[a-z0-9]/.test(t[i])) at.push(i);
  if (!at.length) return null;
  const i = rng.p(0.5) ? at[rng.n(at.length)] : at[at.length >> 1], c = /\d/.test(t[i]) ? "123456789" : "abcdefghijklmnopqrstuvwxyz";
  return t.slice(0, i) + c[rng.n(c.length)] + t.slice(i + 1);
}
function realExtra(rng) {
  const o = {};
  if (rng.p(0.12)) return JSON.stringify({ [rng.pick(["derives", "unwrap", "no_such_option", "/a", "x".repeat(rng.n(9))])]: rng.pick([null, 1, {}, []]), "/pad": { use_type: "x".repeat(rng.n(4)) + rng.pick(["é", "漢", "🎈", "x"]).repeat(rng.pick([5, 20, 60, 300, 2000])) } });
  for (let i = rng.n(3); i >= 0; i--) Object.assign(o, rng.pick([
    () => ({ derives: rng.pick(["Debug", "Debug, Clone", "", "A<B>", 'q"', "a\\b"]) }), () => ({ ["/" + realKey(rng)]: { use_type: rng.pick(["map", "Foo<T>", "x::Y", 'q"q', ""]) } }),
    () => ({ ["/-/" + realKey(rng)]: { type_name: rng.pick(["Named", "lower", ""]) } }), () => ({ unwrap: "/" + realKey(rng) }), () => ({ output_mode: rng.pick(MODES) }), () => ({ property_name_format: rng.pick(FORMATS) }),
    () => ({ field_visibility: rng.pick(["pub", "pub(crate)", ""]) }), () => ({ deny_unknown_fields: rng.p(0.5) }), () => ({ use_default_for_missing_fields: true }), () => ({ allow_option_vec: true }), () => ({ collect_additional: rng.p(0.5) }),
    () => ({ infer_map_threshold: rng.pick(["1", "x", 1]) }), () => ({ no_such_option: 1 }), () => ({ derives: null }), () => ({ "": { use_type: "map" } }), () => ({ "/a": {} }),
  ])());
  const t = rng.p(0.1) ? rng.pick(["", "{", "null", "[1]", '"s"', "5", "{}", '{"derives":"D\\u00e9bug"}', '{"derives":"a\\fb"}', '{"/\\u0001":{"use_type":"X"}}']) : JSON.stringify(o);
  return t;
}
// halves of characters, separators of lines, marks and controls
const ODDITIES = ["\ud83d", "\udf88", "\ud83d\ud83d", "\u2028", "\u2029", "\ufeff", "\u0000", "\u0085", "\u200b", "\uffff", "%", "%u", "+", "e\u0301", "\u202e"];
function inputText(rng, throwing, prop) {
  const r = rng.u();
  if (rng.p(throwing)) return `{"THROW": ${rng.n(99)}}`;
  if (r < 0.08) return "";
  if (r < 0.13) return `{"BAD": ${rng.n(99)}`;
  if (r < 0.16 || (prop === "C23" && r < 0.4)) return `["SAME", ${rng.n(3)}]`;
  if (r < 0.2) return " \n\t ";
  if (r < 0.24) return "CREATE TABLE t (id INT);\n";
  if (prop === "C22" && r < 0.27) return `"${"x".repeat(rng.pick([999_997, 999_998, 999_999, 1_000_100]))}`;
  if (prop === "C22" && r < 0.29) return `"${rng.pick(["é", "漢", "🎈"]).repeat(rng.pick([350_000, 499_000]))}"`;
  if (r < 0.295) return `{"v": ${rng.n(99)}, "o": "${rng.pick(ODDITIES)}"}`;
  if (r < 0.3) return `{"a":"</code>&lt;<b>'\\""}`;
  return `{"v": ${rng.n(1e6)}, "list": [${rng.n(9)}, null]}` + (rng.p(0.2) ? "\n" : "");
}
function corrupt(rng) {
  const full = { typename: "Kept", input: '{"k": 1}', options: { input_mode: "json", output_mode: "python", property_name_format: "camelCase", unwrap: "", import_style: "add_imports", collect_additional: true, infer_map_threshold: "4" }, extraoptions: "" };
  const bad = () => rng.pick([5, 0, true, [], {}, null, [1, 2], { length: 3 }, -1.5]);
  const r = rng.n(9);
  if (r === 0) return rng.pick(["", "{", "null", "5", "true", "[]", '"text"', "undefined", "\u0000", "{}", "NaN", "[1,2", '{"typename":']);
  if (r === 1) return JSON.stringify(full).slice(0, rng.n(JSON.stringify(full).length));
  if (r === 2) return JSON.stringify({ ...full, options: rng.pick([null, 5, "x", [], undefined, true]) });
  if (r === 3) return JSON.stringify({ ...full, options: { ...full.options, [rng.pick(Object.keys(full.options))]: bad() } });
  if (r === 4) return JSON.stringify({ ...full, [rng.pick(["typename", "input", "extraoptions"])]: bad() });
  if (r === 5) { const o = { ...full, options: { ...full.options } }; delete o.options[rng.pick(Object.keys(o.options))]; delete o[rng.pick(["typename", "input", "extraoptions", "none"])]; return JSON.stringify(o); }
  if (r === 6) return JSON.stringify({ ...full, options: { ...full.options, [rng.pick(["output_mode", "input_mode", "import_style", "property_name_format"])]: "no_such_thing" } });
  if (r === 7) return JSON.stringify({ ...full, extraoptions: rng.pick(["{", "null", "[", '{"output_mode": "shape"}']) });
  return JSON.stringify(Object.fromEntries(Object.keys(full).map((k) => [k, bad()])));
}

// ------------------------------------------------------------------ one run
export async function run(bundle, sc, seed, tape) {
  const rng = new Rng(seed);
  const sim = new Sim(bundle, { rng: new Rng((BigInt(seed) ^ 0x5bf03635n) & 0xffffffffffffffffn) });
  const st = { sim, sc, bundle, taken: [], seen: {}, fileAct: null, files: [], form: {}, lastEdit: -1, tape: tape ? [...tape] : null, rng, n: 0, checks: 0 };
  let violation = null;
  if (sc.prop === "C25") { sim.onWorker = gen.restart; gen.restart(); sim.generate = (n, i, o) => realRun(st, n, i, o); }
  try {
    await simulate(st);
  } catch (e) {
    if (e instanceof Violation) violation = { prop: e.prop, what: e.message, action: st.n, step: sim.step };
    else throw e;
  } finally { sim.closePage(); }
  return { violation, stats: sim.stats, taken: st.taken, trace: hash(sim.trace.join("\n")), traceLines: sim.trace, steps: sim.step, simMs: sim.now - sim.t0, errors: sim.errors, log: sim.log, checks: st.checks };
}
const MAX_SETTLE = 4000;
async function simulate(st) {
  const { sim, sc } = st;
  if (sc.stored !== undefined) { sim.store.set("json_typegen_params", sc.stored); sim.count("fault_storage_corrupt"); }
  if (sc.storage) sim.storageMode = sc.storage;
  sim.clipboardMode = sc.clipboard;
  await openPage(st);
  let q = [...sc.actions], i = 0;
  while (i < q.length) {
    const ev = sim.enabled();
    const pick = choose(st, ev);
    if (pick === "user") {
      if (ev.length) { sim.count("user_action_while_busy"); }
      st.n = i; const a = q[i++];
      await act(st, a);
    } else { if (ev.some((x) => x.seq < pick.seq)) sim.count("event_overtook_older"); await sim.fire(pick); }
    invariants(st);
  }
  st.n = q.length;
  await settle(st);
  // afterwards: the page must still answer an edit
  if (sc.prop === "C25") return;
  if (sc.prop === "C21" || sc.prop === "C22" || sc.prop === "C19") {
    if (sc.finalReload) { await reload(st); await settle(st); }
    for (let k = 0; k < 3; k++) {
      const f = readForm(st);
      const ov = overlay(st);
      if (k === 0 || poison(f.typename)) await act(st, { a: "type", id: "typename", v: "Final" + k });
      if (!ov && (poison(f.input) || f.input.includes("THROW"))) await act(st, { a: "type", id: "input", v: '{"final": 1}' });
      if (ov && poison(ov.contents)) await act(st, { a: "clear" });
      if (poison(f.extraoptions)) await act(st, { a: "type", id: "extraoptions", v: "" });
      await settle(st);
      const g = readForm(st);
      if (!throwsFor(st, g)) break;
    }
  }
}
// an event by its label and its place among the pending ones of that label
const nameOf = (ev, e) => { const k = ev.filter((x) => x.label === e.label).indexOf(e); return k > 0 ? e.label + "@" + k : e.label; };
const byName = (ev, t) => { const m = /^(.*)@(\d+)$/.exec(t), l = m ? m[1] : t, same = ev.filter((x) => x.label === l); return same[m ? Math.min(+m[2], same.length - 1) : 0]; };
function choose(st, ev) {
  const { sim, sc, rng } = st;
  if (st.tape) {
    while (st.tape.length) {
      const t = st.tape.shift();
      if (t === "user") { st.taken.push("user"); return "user"; }
      const e = byName(ev, t);
      if (e) { st.taken.push(nameOf(ev, e)); return e; }
    }
    // after the tape: the user first, then events in order
    st.taken.push("user"); return "user";
  }
  let total = sc.weights.user;
  for (const e of ev) total += sc.weights[e.kind] ?? 1;
  let x = rng.u() * total;
  if ((x -= sc.weights.user) < 0) { st.taken.push("user"); return "user"; }
  for (const e of ev) if ((x -= sc.weights[e.kind] ?? 1) < 0) { st.taken.push(nameOf(ev, e)); return e; }
  st.taken.push("user"); return "user";
}
async function settle(st) {
  const { sim, sc, rng } = st;
  let k = 0;
  for (;;) {
    const ev = sim.enabled();
    if (!ev.length) break;
    if (++k > MAX_SETTLE) throw new Violation(sc.prop, `the page is still busy after ${MAX_SETTLE} events without any user action`);
    let e = null;
    if (st.tape) { while (st.tape.length && st.tape[0] !== "user" && !e) { const t = st.tape.shift(); e = byName(ev, t); } if (!e) e = ev.reduce((a, b) => (b.seq < a.seq ? b : a)); }
    else { let total = 0; for (const x of ev) total += sc.weights[x.kind] ?? 1; let x = rng.u() * total; e = ev.at(-1); for (const y of ev) if ((x -= sc.weights[y.kind] ?? 1) < 0) { e = y; break; } }
    st.taken.push(nameOf(ev, e));
    if (ev.some((x) => x.seq < e.seq)) sim.count("event_overtook_older");
    await sim.fire(e);
    invariants(st);
  }
  st.checks++;
  idle(st);
  if (["C26", "C28"].includes(sc.prop) && sim.clipboardMode !== "missing") {
    const b = buttons(st, /Copy/), code = shownCode(st);
    if (!b) throw new Violation(sc.prop, "there is no button to copy the code");
    sim.clip = undefined;
    sim.page.doc.click(b);
    await drain();
    if (sim.clip === undefined) throw new Violation(sc.prop, "the button to copy the code copies nothing");
    if (norm(sim.clip) !== norm(code)) throw new Violation(sc.prop, `${clip(sim.clip)} is copied, shown is ${clip(code)}`);
    sim.count("copies_compared");
  }
}
async function openPage(st) {
  const { sim } = st;
  sim.onRun = (r) => onRun(st, r);
  const k = st.opened = (st.opened ?? -1) + 1;
  sim.noGenerator = st.sc.noGenerator?.[k] ?? false; sim.noReason = st.sc.noReason; sim.noHighlighter = !!st.sc.noHighlighter?.[k]; sim.highlighterFails = st.sc.highlighterFails || 0; platform(!!st.sc.windows);
  sim.startPage();
  await drain();
  sim.watch();
  st.fileAct = null; st.sinceFile = true; st.postedAt = sim.requests.length; st.compAt = sim.completions; st.actReq = 0;
  if (!sim.page.startedOk) throw new Violation(st.sc.prop, "the page does not start: " + sim.page.startError);
  st.last = readForm(st);
}

// ------------------------------------------------------------------ reading the page
function field(st, id) {
  const d = st.sim.page.doc;
  let e = d.getElementById(id);
  if (!e || !["input", "textarea", "select"].includes(e.tag)) { const l = d.querySelectorAll("label").find((x) => x.textContent.trim() === FIELDS[id]); e = l && l.attrs.for ? d.getElementById(l.attrs.for) : null; }
  return e && ["input", "textarea", "select"].includes(e.tag) ? e : null;
}
function readForm(st) {
  const f = {};
  for (const id of Object.keys(FIELDS)) { const e = field(st, id); if (e) f[id] = e.type === "checkbox" ? e.checked : e.tag === "select" && e.selectedIndex < 0 ? undefined : e.value; }
  if (f.typename === undefined || f.input === undefined || !("outputmode" in f)) throw new Violation(st.sc.prop, "the form is gone from the page: " + Object.keys(f).join(" ") + "; errors: " + st.sim.errors.slice(-2).join(" | "));
  f.extraoptions ??= "";
  return f;
}
function overlay(st) {
  const d = st.sim.page.doc, o = d.getElementById("large-file-overlay");
  if (!o) return null;
  const t = o.textContent;
  for (let i = st.files.length - 1; i >= 0; i--) if (t.includes(st.files[i].name)) return st.files[i];
  return { name: null, contents: "", unknown: true };
}
const spinner = (st) => st.sim.page.doc.querySelector(".spinner");
function shownCode(st) {
  const d = st.sim.page.doc;
  const h = d.find((n) => n instanceof Raw && /<pre/.test(n.html)); if (h) return h.textContent;
  const p = d.querySelector("pre"); return p ? p.textContent : undefined;
}
function fileLabel(st) {
  const fi = fileInput(st); let l = fi; while (l && l.tag !== "label") l = l.parentNode;
  const t = l ? l.textContent : "";
  for (let i = st.files.length - 1; i >= 0; i--) if (t.includes(st.files[i].name)) return st.files[i];
  return null;
}
const fileInput = (st) => st.sim.page.doc.querySelectorAll("input").find((e) => e.type === "file");
const buttons = (st, re) => [...st.sim.page.doc.querySelectorAll("button"), ...st.sim.page.doc.querySelectorAll("a")].find((b) => re.test(b.textContent));
function extra(f) { try { const o = JSON.parse((f.extraoptions || "").trim() || "{}"); return o; } catch { return {}; } }
function expected(st, f) {
  const o = {}, unknown = new Set();
  for (const [id, k] of Object.entries(OPTION)) {
    if (f[id] === undefined) { unknown.add(k); continue; }
    o[k] = f[id];
  }
  const x = Object.assign({}, extra(f)); for (const k of Object.keys(x)) unknown.delete(k);
  Object.assign(o, x);
  const ov = overlay(st);
  const input = ov ? ov.contents : f.input || "{}";
  return { t: f.typename, h: inputHash(input), l: input.length, o: canon(o), unknown, input, mode: o.output_mode };
}
function throwsFor(st, f) { const e = expected(st, f); return poison(e.t) || poison(e.input) || poison(JSON.stringify(e.o)); }
function mark(code) { const m = /GEN (\{.*\}) END/s.exec(code || ""); return m ? JSON.parse(m[1]) : null; }
const clip = (x) => { const s = typeof x === "string" ? x : JSON.stringify(x); return s && s.length > 160 ? s.slice(0, 160) + "…" : s; };

// ------------------------------------------------------------------ user actions
function fireEv(e, t) { e.dispatchEvent(new Event_(t, { bubbles: true })); }
async function act(st, a) {
  const { sim } = st, d = sim.page.doc;
  sim.count("user_" + a.a); sim.note("user " + a.a + (a.id ? " " + a.id : a.f ? " " + a.f.name : ""));
  st.postedAt = sim.requests.length; st.compAt = sim.completions;
  if (a.a === "settle") { await settle(st); return; }
  if (a.a === "storage") { sim.storageMode = a.mode; return; }
  if (a.a === "reload") { await reload(st); return; }
  const e = a.id ? field(st, a.id) : null;
  if (a.a === "type") {
    if (!e) return;
    if (a.id === "input" && d.getElementById("large-file-overlay")) return; // covered by the overlay
    if (a.keys) for (let i = 1; i < a.v.length; i++) { e.value = a.v.slice(0, i); fireEv(e, "input"); fireEv(e, "keyup"); await drain(); invariants(st, true); st.postedAt = sim.requests.length; st.compAt = sim.completions; }
    e.value = a.v; fireEv(e, "input"); fireEv(e, "keyup"); fireEv(e, "change");
    if (a.id === "input") { st.sinceFile = true; st.typed = a.v; }
  } else if (a.a === "sel") {
    if (!e) return;
    if (!e.options.some((o) => o.value === a.v)) throw new Violation(st.sc.prop, `the page no longer offers ${a.v} in ${a.id}`);
    e.value = a.v; fireEv(e, "input"); fireEv(e, "change");
  } else if (a.a === "check") { if (!e) return; d.click(e); }
  else if (a.a === "file") {
    const fi = fileInput(st); if (!fi) return;
    const f = { ...a.f, done: false, at: sim.step };
    st.files.push(f);
    st.fileAct = { kind: "choose", f }; st.sinceFile = false;
    fi._files = [new SimFile(f)]; fireEv(fi, "input"); fireEv(fi, "change");
    sim.count(f.size > 500_000 ? "large_files" : "small_files");
  } else if (a.a === "cancel") { const fi = fileInput(st); if (!fi || !fi._files.length) return; fi._files = []; fireEv(fi, "input"); fireEv(fi, "change"); }
  else if (a.a === "clear") {
    const o = d.getElementById("large-file-overlay"), b = o && o.querySelector("button");
    if (!b) return;
    for (const f of st.files) f.cleared ??= sim.requests.length;
    st.fileAct = { kind: "clear" }; st.sinceFile = false;
    d.click(b);
  } else if (a.a === "example") {
    const l = d.querySelectorAll("a").filter((x) => /^#\?example=/.test(x.attrs.href || ""));
    if (!l.length) return;
    const x = l[a.i % l.length];
    d.click(x); st.sinceFile = true;
  } else if (a.a === "format") { const b = buttons(st, /Format/); if (b) { d.click(b); st.sinceFile = true; } }
  else if (a.a === "copy") {
    const b = buttons(st, /Copy/); sim.clip = undefined;
    if (b) d.click(b);
    await drain();
    // the highlighter may lag behind, so that only what is on its way to the screen counts here
    if (st.sc.prop === "C26" && sim.clip !== undefined && norm(sim.clip) !== "" && !sim.runs.some((x) => norm(x.out ?? "") === norm(sim.clip)) && !/^error/i.test(norm(sim.clip))) throw new Violation("C26", `${clip(sim.clip)} was copied, which the generator never returned`);
  }
  else if (a.a === "help") { const bs = d.querySelectorAll("button"); if (bs.length) d.click(bs.find((b) => !b.textContent.trim()) || bs[0]); }
  else throw new Error("action " + a.a);
  await drain();
  sim.watch();
  if (sim.page && st.sc.prop === "C25") { const f = readForm(st); for (const k of Object.keys(f)) if (f[k] !== undefined) st.seen[k] = f[k]; }
  if (sim.page && ["C22", "C27", "C28"].includes(st.sc.prop)) { const f = readForm(st); for (const k of Object.keys(f)) if (f[k] !== undefined) st.last[k] = f[k]; }
}
async function reload(st) {
  const { sim, sc } = st;
  const before = { ...st.last }; for (const [k, v] of Object.entries(readForm(st))) if (v !== undefined || k in FIELDS && field(st, k)) before[k] = v;
  const ov = sim.page.doc.getElementById("large-file-overlay");
  const trusted = sim.persisted && (sim.storageMode === "ok" || sim.storageMode === "setThrows" || sim.storageMode === "quota") && !st.storageBroken;
  sim.closePage();
  st.files = [];
  st.reloads = (st.reloads || 0) + 1;
  await openPage(st);
  if (!["C22", "C27", "C28"].includes(sc.prop) || !trusted) return;
  sim.count("reloads_compared");
  const after = readForm(st);
  for (const id of Object.keys(FIELDS)) {
    let want = before[id];
    if (id === "input" && before.input.length >= 1_000_000) want = after.input === "" ? "" : before.input;
    if (id === "input" && ov) continue;
    if (want === undefined || after[id] === undefined) continue;
    if (after[id] !== want) throw new Violation(sc.prop, `after a reload ${id} is ${clip(after[id])}; it was ${clip(want)} before`);
  }
  st.last = before;
}

// ------------------------------------------------------------------ the repository's own generator
const trapText = (x) => (x.status === 2 ? "it panicked: " + x.text : x.text);
function realRun(st, n, i, o) {
  if (typeof n !== "string" || typeof i !== "string" || typeof o !== "string") throw new TypeError("expected a string argument");
  const x = gen.inHistory([n, i, o]), y = gen.fresh(1, [n, i, o]);
  st.sim.count("real_generator_calls"); if (/^Error/.test(x.text)) st.sim.count("real_generator_errors");
  const what = () => `run(${clip(n)}, ${clip(i)}, ${clip(o)})`;
  if (x.status >= 2) { st.pendingViolation ??= new Violation("C25", `the generator trapped on ${what()}: ${clip(trapText(x))}`); const e = new Error("unreachable"); e.name = "RuntimeError"; throw e; }
  if (y.status !== 0 || x.text !== y.text) st.pendingViolation ??= new Violation("C25", `${what()} gave ${clip(x.text)} after ${st.sim.runs.length - 1} other calls, ${clip(y.text)} as the first call`);
  return x.text;
}
// what the library makes of the form, for each setting the form does not show
function* libraryAnswers(st, f) {
  const ov = overlay(st), input = ov ? ov.contents : f.input || "{}", x = extra(f);
  const plain = !x || typeof x !== "object" ? typeof x !== "string" || x === "" : Object.keys(x).length === 0;
  const shown = (id, def) => (f[id] !== undefined ? [f[id]] : [...new Set([st.seen[id] ?? def, def, ...({ propertynameformat: FORMATS, importstyle: IMPORTS, collectadditional: [false, true] }[id])])]);
  for (const pf of shown("propertynameformat", "")) for (const is of shown("importstyle", "assume_existing")) for (const ca of shown("collectadditional", false)) {
    if (plain) {
      const r = gen.fresh(2, [f.typename, input, f.outputmode, f.inputmode, pf, is, f.unwrappath, String(ca), f.infermapthreshold]);
      yield { ok: r.status === 0, texts: r.text.split("\0"), trap: r.status >= 2 && r.text };
    } else {
      const o = Object.assign({ output_mode: f.outputmode, input_mode: f.inputmode, property_name_format: pf, import_style: is, unwrap: f.unwrappath, collect_additional: ca, infer_map_threshold: f.infermapthreshold }, x);
      const r = gen.fresh(4, [f.typename, input, JSON.stringify(o)]);
      yield { ok: r.status === 0, texts: r.text.split("\0"), trap: r.status >= 2 && r.text };
    }
  }
}
function fitsLibrary(st, f, code) {
  if (code === undefined) return "no code is shown";
  let first = null;
  for (const a of libraryAnswers(st, f)) {
    if (a.trap) continue;
    if (a.ok ? norm(code) === norm(a.texts[0]) : /^error/i.test(norm(code)) && a.texts.every((t) => code.includes(norm(t)))) return null;
    first ??= a;
  }
  if (!first) return null; // the library itself fails; reported where it is called
  return first.ok ? `the code shown is ${clip(code)}, the library makes ${clip(first.texts[0])} of this form` : `what is shown is ${clip(code)}, the library fails on this form: ${clip(first.texts.join(": "))}`;
}

// ------------------------------------------------------------------ oracles
function onRun(st, r) {
  if (st.sc.prop !== "C20" || !r.msg) return;
  for (const f of st.files) {
    if (f.cleared !== undefined && r.msg.id >= f.cleared && f.contents && r.i === f.contents) st.pendingViolation ??= new Violation("C20", `the generator was run on the contents of ${f.name} for a request made after it was cleared`);
  }
}
function invariants(st) {
  const { sim, sc } = st, P = sc.prop;
  if (st.pendingViolation) throw st.pendingViolation;
  if (P === "C24") {
    const out = sim.requests.filter((r) => !r.answered && r.page === sim.page).length;
    if (out > 1 || sim.maxOut > 1) throw new Violation(P, `${Math.max(out, sim.maxOut)} generation requests are outstanding at once`);
    const delivered = sim.requests.filter((r) => r.delivered !== undefined).length;
    if (sim.runs.length > delivered) throw new Violation(P, `${sim.runs.length} generations for ${delivered} requests`);
    if (sim.orderErrors.length) throw new Violation(P, sim.orderErrors[0]);
    const posted = sim.requests.length - st.postedAt, comp = sim.completions - st.compAt;
    if (posted > 2 + comp + (st.reloaded ? 2 : 0)) throw new Violation(P, `${posted} generation requests after the last user action (${comp} file reads ended)`);
  }
  if (P === "C23" && sim.urlHigh > 1) throw new Violation(P, `${sim.urlHigh} object URLs are alive at once`);
  if (P === "C22" && sim.page && !sim.page.startedOk) throw new Violation(P, "the page does not start");
}
function idle(st) {
  const { sim, sc } = st, P = sc.prop;
  sim.count("idle_checks");
  const f = readForm(st), ov = overlay(st), code = shownCode(st), m = mark(code), e = expected(st, f);
  const throws = throwsFor(st, f);
  const match = () => {
    if (code === undefined) return "no code is shown";
    if (throws) return null;
    if (e.input.includes("SAME")) return norm(code) === SAME ? null : `what is shown is not the generator's answer to this input: ${clip(code)}`;
    if (!m) return `what is shown is not the generator's answer: ${clip(code)}`;
    if (m.t !== e.t) return `the code shown is for type name ${clip(m.t)}, the form says ${clip(e.t)}`;
    if (m.h !== e.h || m.l !== e.l) { const g = [...st.files].find((x) => inputHash(x.contents) === m.h); return `the code shown is for ${g ? "the file " + g.name : "another input (" + m.l + " characters)"}, not for ${ov ? "the loaded file " + ov.name : clip(e.input)}`; }
    for (const k of new Set([...Object.keys(m.o), ...Object.keys(e.o)])) {
      if (e.unknown.has(k)) continue;
      if (JSON.stringify(m.o[k]) !== JSON.stringify(e.o[k])) return `the code shown was generated with ${k}=${clip(m.o[k] ?? null)}, the form says ${clip(e.o[k] ?? null)}`;
    }
    const full = sim.runs.find((r) => r.out && norm(r.out) === norm(code));
    if (!full) return "the code shown is not what the generator returned";
    return null;
  };
  if (P === "C19" || P === "C21" || P === "C22") {
    const w = match();
    if (w) throw new Violation(P, `idle, but ${w}${sim.errors.length ? " (errors: " + clip(sim.errors.at(-1)) + ")" : ""}`);
    if (spinner(st)) throw new Violation(P, "idle, but the loading indicator is still shown");
  }
  if (P === "C20") {
    const last = st.fileAct;
    const w = match();
    if (ov) {
      if (ov.unknown) throw new Violation(P, "the overlay names no file that was chosen");
      if (ov.cleared !== undefined) throw new Violation(P, `the overlay still shows ${ov.name}, which was cleared`);
      if (ov.done && !ov.doneOk) throw new Violation(P, `the overlay shows ${ov.name}, which could not be read`);
      if (last?.kind === "choose" && last.f !== ov && last.f.doneOk) throw new Violation(P, `the overlay shows ${ov.name}, but ${last.f.name} was loaded after it`);
    }
    if (w) throw new Violation(P, `idle, but ${w}`);
    const used = ov ? ov.contents : f.input;
    for (const g of st.files) {
      const marker = new RegExp(`"fid":\\s*"${g.fid}"`);
      if (!marker.test(used)) continue;
      if (g.cleared !== undefined) throw new Violation(P, `the contents of ${g.name} are in use though it was cleared`);
      if (last?.kind === "choose" && last.f !== g && last.f.doneOk) throw new Violation(P, `the contents of ${g.name} are in use though ${last.f.name} was loaded after it`);
    }
    const label = fileLabel(st);
    if (label) {
      if (label.cleared !== undefined) throw new Violation(P, `the file button shows ${label.name}, which was cleared`);
      if (label.done && !label.doneOk) throw new Violation(P, `the file button shows ${label.name}, which could not be read`);
      if (last?.kind === "choose" && last.f !== label && last.f.doneOk) throw new Violation(P, `the file button shows ${label.name}, but ${last.f.name} was loaded after it`);
      if (!st.sinceFile && used !== label.contents) throw new Violation(P, `the file button shows ${label.name}, but its contents are not what is used`);
      if (ov && ov !== label) throw new Violation(P, `the file button shows ${label.name}, the overlay ${ov.name}`);
    } else if (ov) throw new Violation(P, `the overlay shows ${ov.name}, the file button no file`);
    if (last?.kind === "choose" && !last.f.fail && !st.sinceFile && used !== last.f.contents) throw new Violation(P, `${last.f.name} was chosen and can be read, but its contents are not in use`);
    if (last?.kind === "clear" && !st.sinceFile && (ov || f.input !== "")) throw new Violation(P, `after clearing, ${ov ? "an overlay is shown" : "the input is " + clip(f.input)}`);
  }
  if (P === "C23") {
    const links = sim.page.doc.querySelectorAll("a").filter((a) => "download" in a.attrs);
    if (links.length !== 1) throw new Violation(P, `${links.length} download links`);
    const [l] = links, blob = sim.page.urls.get(l.attrs.href);
    if (!blob) throw new Violation(P, `the download link points to ${clip(l.attrs.href)}, which is not alive`);
    if (norm(blob.$text) !== norm(code || "")) throw new Violation(P, `the download is ${clip(blob.$text)}, shown is ${clip(code || "")}`);
    const same = norm(code || "") === SAME && e.input.includes("SAME");
    const mode = m ? m.o.output_mode : e.mode;
    if ((m || same) && typeof mode === "string" && EXT[mode]) {
      const want = `${m ? m.t : e.t}.${EXT[mode]}`;
      if (l.attrs.download !== want) throw new Violation(P, `the download of ${mode} code is named ${clip(l.attrs.download)}, not ${clip(want)}`);
    }
    if (!throws && m && m.t !== f.typename) throw new Violation(P, `the code shown and offered is for type name ${clip(m.t)}, the form says ${clip(f.typename)}`);
  }
  if (P === "C28" && spinner(st)) throw new Violation(P, "idle, but the loading indicator is still shown");
  if (P === "C28" && (sim.noHighlighter || sim.highlighterFails)) sim.count("idle_without_highlighting");
  if (P === "C26" || P === "C28") {
    const w = match();
    if (w) throw new Violation(P, `idle, but ${w}`);
  }
  if (P === "C27") {
    if (spinner(st)) throw new Violation(P, "idle, but the loading indicator is still shown");
    if (sim.noGenerator) {
      if (!/^error/i.test(norm(code ?? ""))) throw new Violation(P, `the generator could not be loaded, but what is shown is ${clip(code ?? null)}`);
      sim.count("idle_without_generator");
    } else { const w = match(); if (w) throw new Violation(P, `idle, but ${w}`); }
  }
  if (P === "C25") {
    const w = fitsLibrary(st, f, code);
    if (w) throw new Violation(P, `idle, but ${w}${sim.errors.length ? " (errors: " + clip(sim.errors.at(-1)) + ")" : ""}`);
  }
  if (P === "C24") {
    const out = sim.requests.filter((r) => !r.answered && r.page === sim.page).length;
    if (out) throw new Violation(P, "idle, but a request was never answered");
  }
}
