// The simulated browser: one page at a time (reloads make a new one), its workers, and every
// source of asynchrony (message queues, worker start, wasm start, file reads, the highlighter,
// the clipboard, timers) as events a seeded scheduler fires one at a time.
import vm from "node:vm";
import { Document, El, Event_, CustomEvent_, Node_, Text } from "./dom.mjs";
import { makeSvelte } from "./runtime.mjs";

export class Rng {
  constructor(seed) { this.s = BigInt(seed) & 0xffffffffffffffffn; }
  next() { this.s = (this.s + 0x9e3779b97f4a7c15n) & 0xffffffffffffffffn; let z = this.s; z = ((z ^ (z >> 30n)) * 0xbf58476d1ce4e5b9n) & 0xffffffffffffffffn; z = ((z ^ (z >> 27n)) * 0x94d049bb133111ebn) & 0xffffffffffffffffn; return z ^ (z >> 31n); }
  u() { return Number(this.next() >> 11n) / 2 ** 53; }
  n(k) { return Math.floor(this.u() * k); }
  p(x) { return this.u() < x; }
  pick(a) { return a[this.n(a.length)]; }
}
export function hash(s) { let h = 0xcbf29ce484222325n; for (let i = 0; i < s.length; i++) { h ^= BigInt(s.charCodeAt(i)); h = (h * 0x100000001b3n) & 0xffffffffffffffffn; } return h.toString(16); }
function fnv32(s) { let a = 0x811c9dc5, b = 0x1234567; for (let i = 0; i < s.length; i++) { const c = s.charCodeAt(i); a = Math.imul(a ^ c, 0x01000193); b = Math.imul(b ^ c, 0x5bd1e995) ^ (b >>> 13); } return (a >>> 0).toString(16) + (b >>> 0).toString(16); }
export const inputHash = fnv32;
export const drain = () => new Promise((r) => setImmediate(r));

export function canon(o) {
  const out = {};
  for (const k of Object.keys(o).sort()) { const v = o[k]; if (v === undefined || v === null || v === "" || v === false) continue; out[k] = v; }
  return out;
}
// The stand-in for the wasm generator: injective in what it is given, deterministic, may throw.
export function generate(name, input, options) {
  if (typeof name !== "string" || typeof input !== "string" || typeof options !== "string") throw new TypeError("expected a string argument");
  if (name.includes("THROW") || input.includes("THROW") || options.includes("THROW")) throw new Error("unreachable");
  let o; try { o = JSON.parse(options); } catch (e) { return "Error: options: " + e.message; }
  const mark = `GEN ${JSON.stringify({ t: name, h: fnv32(input), l: input.length, o: canon(o) })} END`;
  if (input.includes("SAME")) return SAME; // says nothing about its request
  if (input.includes("BAD")) return `Error: cannot make <types> of this\n${mark}`;
  const h = parseInt(fnv32(name + "\u0000" + input + options).slice(0, 6), 16), more = [];
  for (let k = 0; k < h % 5; k++) more.push(LINES[(h >> (3 * k)) % LINES.length]);
  return `\n// ${mark}\nstruct Root<'a> { a: &'a str, "b": 1 }\n${more.join("\n")}\n\n`;
}
// what else code may hold: white space at line ends and by itself, entities, templates, ...
const LINES = ["", "", "    ", "\t", "    b: i64,   ", "\tc: \"x  y\",\t", "  d: '\u00a0',\u00a0", "// é\u2028ü", "// " + "long ".repeat(80), "&amp; &lt;b&gt; &#39;&quot;", "`${t}` $& $1 \\n \\", "/* \ud83d\ude00 e\u0301 */", "</code></pre>", "// \ufeff\u200b", "GEN", "}"];
export const SAME = "Error: nothing can be made of this";
export const poison = (s) => s.includes("THROW");

let CUR = null; // the realm whose code runs
// Blobs and files are bytes; those made of text keep the text and make the bytes when asked.
const utf8 = new TextEncoder();
let WINDOWS = false; // what "native" line endings are
export const platform = (w) => { WINDOWS = w; };
class SimBlob {
  constructor(parts = [], o = {}) {
    if (parts === null) return;
    const native = o && o.endings === "native" && ((t) => t.replace(/\r\n|\r|\n/g, WINDOWS ? "\r\n" : "\n"));
    const ps = [...parts].map((p) => (native && typeof p === "string" ? native(p) : p));
    const raw = (p) => p instanceof SimBlob || ArrayBuffer.isView(p) || Object.prototype.toString.call(p) === "[object ArrayBuffer]";
    if (!ps.some((p) => raw(p) && !(p instanceof SimBlob && p.$t !== undefined))) this.$t = ps.map((p) => (p instanceof SimBlob ? p.$t : String(p))).join("");
    else this.$b = Buffer.concat(ps.map((p) => (p instanceof SimBlob ? p.$bytes() : raw(p) ? (ArrayBuffer.isView(p) ? Buffer.from(p.buffer, p.byteOffset, p.byteLength) : Buffer.from(p)) : Buffer.from(String(p)))));
    this.type = String(o.type || ""); this.size = this.$b ? this.$b.length : Buffer.byteLength(this.$t);
  }
  $bytes() { return (this.$b ??= Buffer.from(this.$t, "utf8")); }
  get $text() { return this.$t ?? new TextDecoder().decode(this.$b); }
  slice(from = 0, to = this.size, type = "") {
    const n = this.size, at = (x) => (x < 0 ? Math.max(0, n + x) : Math.min(n, x)), r = new SimBlob(null), all = this.$bytes();
    const i = at(from), j = Math.max(i, at(to));
    r.$b = all.subarray(i, j); r.size = j - i; r.type = type; r.$of = this.$of ?? (this.$f ? this : undefined);
    r.$last = j >= (r.$of ? Math.min(r.$of.size, all.length) : n);
    return r;
  }
}
class SimFile extends SimBlob { constructor(f) { super(null); this.name = f.name; this.$t = f.contents; this.size = f.size; this.type = "application/json"; this.lastModified = 1; this.$f = f; } get webkitRelativePath() { return ""; } }
function clone(v, seen = new Map()) {
  if (typeof v === "function" || typeof v === "symbol") { const e = new Error("DataCloneError"); e.name = "DataCloneError"; throw e; }
  if (typeof v !== "object" || v === null) return v;
  if (v instanceof SimBlob) return v;
  if (seen.has(v)) return seen.get(v);
  if (Array.isArray(v)) { const a = []; seen.set(v, a); v.forEach((x, i) => { a[i] = clone(x, seen); }); return a; }
  const tag = Object.prototype.toString.call(v);
  if (tag === "[object Error]") return Object.assign(new Error(v.message), { name: v.name });
  if (tag === "[object Map]") return new Map([...v].map(([k, x]) => [clone(k, seen), clone(x, seen)]));
  if (tag === "[object Set]") return new Set([...v].map((x) => clone(x, seen)));
  const o = {}; seen.set(v, o);
  for (const k of Object.keys(v)) o[k] = clone(v[k], seen);
  return o;
}

const scripts = new Map();
function compiled(id, code) {
  let s = scripts.get(id);
  if (!s) scripts.set(id, (s = new vm.Script(`(function (module, exports, require, __import_meta) {"use strict";${code}\n})`, { filename: id })));
  return s;
}

export class Sim {
  constructor(bundle, opt) {
    this.bundle = bundle; this.rng = opt.rng; this.weights = opt.weights || {}; this.tape = opt.tape || null;
    this.now = 1_700_000_000_000; this.t0 = this.now; this.taken = []; this.ids = 0;
    this.store = new Map(); this.storageMode = "ok"; this.stats = {}; this.trace = [];
    this.events = []; // {label, kind, fire, realm, seq}
    this.page = null; this.errors = []; this.log = [];
    // observations for the oracles
    this.requests = []; // {id, data, posted, answered, runs}
    this.runs = []; this.replies = []; this.completions = 0; this.urlHigh = 0; this.orderErrors = []; this.maxOut = 0; this.fileEvents = [];
    this.step = 0;
    this.onRun = null;
  }
  // why a generator is not loaded: what fetch and WebAssembly reject with, and what else may be thrown
  reason() {
    const k = this.noReason ?? 0;
    this.count("reason_" + k);
    return [() => new TypeError("Failed to fetch"), () => Object.assign(new Error("Wasm code generation disallowed by embedder"), { name: "CompileError" }), () => undefined, () => null, () => "offline", () => new Error(""), () => Object.assign(new Error("The operation was aborted."), { name: "AbortError", retry() {} }), () => ({ status: 404, text() {} }), () => 503][k % 9]();
  }
  count(k, n = 1) { this.stats[k] = (this.stats[k] || 0) + n; }
  note(s) { this.trace.push(s); }
  add(kind, label, realm, fire) { const e = { kind, label, realm, fire, seq: ++this.ids }; this.events.push(e); return e; }
  drop(realm) { this.events = this.events.filter((e) => e.realm !== realm); }

  // ------------------------------------------------------------ events
  enabled() {
    const out = []; const chan = new Set(); let timer = null;
    for (const e of this.events) {
      if (e.chan) { if (chan.has(e.chan)) continue; chan.add(e.chan); if (e.ready && !e.ready()) continue; }
      if (e.kind === "timer") { if (!timer || e.due < timer.due) timer = e; continue; }
      out.push(e);
    }
    if (timer) out.push(timer);
    return out;
  }
  async fire(e) {
    this.events.splice(this.events.indexOf(e), 1);
    this.now += e.kind === "timer" ? Math.max(0, e.due - this.now) : 1 + this.rng.n(e.kind === "read" || e.kind === "init" ? 400 : 40);
    this.count("event_" + e.kind);
    this.step++;
    this.note(e.label);
    e.realm?.blobs();
    e.fire();
    await drain();
    this.watch();
  }
  watch() {
    const out = this.requests.filter((r) => !r.answered && r.page === this.page).length;
    if (out > this.maxOut) this.maxOut = out;
    if (this.page) { const live = this.page.urls.size; if (live > this.urlHigh) this.urlHigh = live; }
    this.observe?.();
  }
  guard(f) { try { return f(); } catch (e) { this.pageError(e); } }
  pageError(e) { this.errors.push(String((e && e.stack) || e).slice(0, 600)); this.count("page_errors"); }

  // ------------------------------------------------------------ realms
  realm(kind, extra) {
    const sim = this, R = { kind, dead: false, name: kind + ++this.ids };
    const timers = new Map();
    const setT = (f, ms = 0, ...a) => { const id = ++this.ids; const e = this.add("timer", "timer:" + R.name, R, () => { timers.delete(id); if (!R.dead) R.guard(() => f(...a)); }); e.due = this.now + Math.max(0, +ms || 0); timers.set(id, e); return id; };
    const clearT = (id) => { const e = timers.get(id); if (e) { timers.delete(id); const i = this.events.indexOf(e); if (i >= 0) this.events.splice(i, 1); } };
    class FileReader_ {
      constructor() { this.readyState = 0; this.result = null; this.error = null; this.onload = this.onerror = this.onloadend = this.onloadstart = this.onabort = this.onprogress = null; this.ls = []; }
      addEventListener(t, f) { this.ls.push([t, f]); }
      removeEventListener(t, f) { this.ls = this.ls.filter((l) => l[0] !== t || l[1] !== f); }
      $ev(t) { const ev = new Event_(t, { target: this }); ev.currentTarget = this; R.guard(() => this["on" + t]?.(ev)); for (const l of [...this.ls]) if (l[0] === t) R.guard(() => l[1].call(this, ev)); }
      abort() { if (this.readyState !== 1) return; this.readyState = 2; this.result = null; const i = sim.events.indexOf(this.$e); if (i >= 0) sim.events.splice(i, 1); this.$ev("abort"); this.$ev("loadend"); }
      $read(f, how, enc) {
        if (this.readyState === 1) { const e = new Error("InvalidStateError"); e.name = "InvalidStateError"; throw e; }
        if (!(f instanceof SimBlob)) throw new TypeError("parameter 1 is not of type 'Blob'");
        this.readyState = 1;
        this.$e = sim.read(R, f, (ok) => {
          this.readyState = 2;
          if (ok) { this.result = how === "text" ? text(f, enc) : how === "buffer" ? bytes(f) : how === "binary" ? f.$bytes().toString("latin1") : "data:;base64," + f.$bytes().toString("base64"); this.$ev("load"); }
          else { this.error = Object.assign(new Error("The file could not be read"), { name: "NotReadableError" }); this.$ev("error"); }
          this.$ev("loadend");
        });
      }
      readAsText(f, enc) { this.$read(f, "text", enc); } readAsBinaryString(f) { this.$read(f, "binary"); } readAsArrayBuffer(f) { this.$read(f, "buffer"); } readAsDataURL(f) { this.$read(f, "url"); }
    }
    const decoder = (enc) => { try { return new TextDecoder(enc || "utf-8"); } catch { return new TextDecoder(); } };
    const text = (f, enc) => (f.$t !== undefined && (!enc || /^utf-?8$/i.test(enc)) ? f.$t : decoder(enc).decode(f.$bytes()));
    const bytes = (f) => { const b = f.$bytes(), r = new R.ArrayBuffer(b.length); new R.Uint8Array(r).set(b); return r; };
    const unreadable = () => Object.assign(new Error("could not be read"), { name: "NotReadableError" });
    const viaPromise = (f, conv) => new Promise((res, rej) => sim.read(R, f, (ok) => (ok ? res(conv(f)) : rej(unreadable()))));
    // methods of blobs belong to the realm that runs now; only one does at a time
    R.blobs = () => {
      if (CUR === R) return;
      CUR = R;
      SimBlob.prototype.text = function () { return viaPromise(this, (f) => text(f)); };
      SimBlob.prototype.arrayBuffer = function () { return viaPromise(this, bytes); };
      SimBlob.prototype.bytes = function () { return viaPromise(this, (f) => new R.Uint8Array(bytes(f))); };
      SimBlob.prototype.stream = function () {
        const f = this, all = f.$bytes(); let at = 0;
        return new ReadableStream({
          pull: (c) => new Promise((res) => {
            const n = Math.min(all.length - at, 1 + sim.rng.n(sim.rng.n(4) ? 20 : 70_000)), part = f.slice(at, at + n);
            part.$last = at + n >= all.length; part.$of = f.$of ?? (f.$f ? f : undefined);
            if (at > 0 && at >= all.length) { c.close(); return res(); }
            sim.read(R, part, (ok) => { at += n; if (!ok) c.error(unreadable()); else { if (n) c.enqueue(new R.Uint8Array(part.$b)); if (at >= all.length) c.close(); } res(); });
          }),
        }, { highWaterMark: 0 });
      };
    };
    const urls = (R.urls = new Map());
    class URL_ extends URL {}
    URL_.createObjectURL = (b) => { const u = "blob:http://sim/" + ++this.ids; urls.set(u, b); this.count("object_urls"); return u; };
    URL_.revokeObjectURL = (u) => { urls.delete(u); };
    class Date_ extends Date { constructor(...a) { if (a.length) super(...a); else super(sim.now); } static now() { return sim.now; } }
    const say = (l) => (...a) => { if (sim.log.length < 400) sim.log.push(`${R.name} ${l} ${a.map((x) => (x instanceof Error ? x.message : typeof x === "string" ? x : "[obj]")).join(" ").slice(0, 200)}`); };
    const g = {
      console: { log: say("log"), warn: say("warn"), error: say("error"), info: say("info"), debug: say("debug"), trace: say("trace"), time() {}, timeEnd() {}, group() {}, groupEnd() {} },
      setTimeout: setT, clearTimeout: clearT, setInterval: (f, ms) => setT(f, ms), clearInterval: clearT,
      requestAnimationFrame: (f) => setT(() => f(sim.now), 16), cancelAnimationFrame: clearT, requestIdleCallback: (f) => setT(() => f({ timeRemaining: () => 10, didTimeout: false }), 1), cancelIdleCallback: clearT,
      queueMicrotask: (f) => queueMicrotask(() => { if (!R.dead) R.guard(f); }),
      URL: URL_, URLSearchParams, Blob: SimBlob, File: class extends SimFile { static [Symbol.hasInstance](x) { return x instanceof SimFile; } constructor(parts, name) { const b = new SimBlob(parts); super({ name, size: b.size, contents: b.$text }); } }, FileReader: FileReader_, Date: Date_,
      performance: { now: () => sim.now - sim.t0, mark() {}, measure() {} }, TextEncoder, TextDecoder, TextDecoderStream, ReadableStream, WritableStream, TransformStream, atob, btoa, structuredClone: (v) => clone(v), Event: Event_, CustomEvent: CustomEvent_, AbortController, AbortSignal,
      crypto: { randomUUID: () => `00000000-0000-4000-8000-${String(++sim.ids).padStart(12, "0")}`, getRandomValues: (a) => { for (let i = 0; i < a.length; i++) a[i] = sim.rng.n(256); return a; } },
      ...extra,
    };
    R.guard = (f) => { R.blobs(); try { return f(); } catch (e) { if (!R.dead) R.onerror(e); } };
    R.ctx = vm.createContext(g); R.global = g;
    g.self = g.globalThis = R.ctx; for (const k of ["ArrayBuffer", "Uint8Array"]) R[k] = vm.runInContext(k, R.ctx);
    vm.runInContext("Math.random = (() => { let s = 1; return () => ((s = (s * 48271) % 2147483647) / 2147483647); })();", R.ctx);
    const cache = {};
    R.load = (id) => {
      if (cache[id]) return cache[id].exports;
      const m = this.bundle.mods[id];
      if (!m) throw new Error("no module " + id);
      const module = (cache[id] = { exports: {} });
      const req = (spec) => {
        const d = m.deps[spec];
        if (!d) throw new Error(`no module ${spec} from ${id}`);
        if (d.asset !== undefined) return { __esModule: true, default: d.asset };
        if (d.worker) return { __esModule: true, default: class { constructor(o) { return new g.Worker("http://sim" + d.worker, o); } } };
        if (d.stub) return R.stub(d.stub);
        return R.load(d.mod);
      };
      compiled(id, m.code).runInContext(R.ctx)(module, module.exports, req, { url: "http://sim" + id, env: { DEV: false, PROD: true, MODE: "production", BASE_URL: "/" } });
      return module.exports;
    };
    return R;
  }
  read(R, f, done) {
    const whole = f.$f ? f : f.$of, file = whole ? whole.$f : null, last = f.$f || f.$last;
    this.count("file_reads");
    const e = this.add("read", `read:${file ? file.name : "blob"}:${R.kind}`, R, () => {
      if (R.dead) return;
      const fail = file && file.fail;
      this.count(fail ? "fault_read_failed" : "reads_ok");
      this.completions++;
      this.fileEvents.push({ step: this.step, name: file?.name, ok: !fail });
      if (file && (fail || last)) { file.done = true; file.doneOk = !fail; file.doneStep = this.step; }
      done(!fail);
    });
    return e;
  }
  // what asks for code, or answers: wherever in the message its fields are
  part(d, test, depth = 0) {
    if (!d || typeof d !== "object" || d instanceof SimBlob || depth > 2) return null;
    if (test(d)) return d;
    for (const k of Object.keys(d)) { const r = this.part(d[k], test, depth + 1); if (r) return r; }
    return null;
  }
  replyOf(d) { return this.part(d, (o) => typeof o.result === "string" || Object.values(o).some((v) => typeof v === "string" && (/GEN \{.*\} END/s.test(v) || v === SAME || (v && v === this.runs.at(-1)?.out)))); }
  requestOf(d) { return this.replyOf(d) ? null : this.part(d, (o) => (typeof o.typename === "string" || typeof o.typeName === "string") && ("options" in o || "input" in o)); }

  startPage() {
    const sim = this;
    const ls = {
      getItem: (k) => { sim.storageCheck("get"); return sim.store.has(String(k)) ? sim.store.get(String(k)) : null; },
      setItem: (k, v) => { sim.storageCheck("set"); sim.store.set(String(k), String(v)); sim.persisted = true; },
      removeItem: (k) => { sim.storageCheck("set"); sim.store.delete(String(k)); }, clear: () => { sim.storageCheck("set"); sim.store.clear(); },
      key: (i) => [...sim.store.keys()][i] ?? null, get length() { return sim.store.size; },
    };
    const R = this.realm("page", {});
    const doc = new Document((f) => R.guard(f));
    R.doc = doc; R.workers = []; R.onerror = (e) => this.pageError(e);
    const app = doc.createElement("div"); app.id = "app"; doc.body.appendChild(app);
    const win = Object.assign(R.global, {
      document: doc, location: { href: "http://sim/", hash: "", search: "", pathname: "/", host: "sim", origin: "http://sim", reload() {} }, history: { replaceState() {}, pushState() {} },
      navigator: { userAgent: "sim", onLine: true, language: "en", clipboard: sim.clipboardMode === "missing" ? undefined : { writeText: (t) => new Promise((res, rej) => { sim.clip = t; sim.add("clip", "clip", R, () => { if (sim.rng.p(0.3)) { sim.count("fault_clipboard_rejected"); rej(Object.assign(new Error("not allowed"), { name: "NotAllowedError" })); } else res(); }); }) } },
      addEventListener: (t, f) => doc.addEventListener("win:" + t, f), removeEventListener: (t, f) => doc.removeEventListener("win:" + t, f), dispatchEvent() { return true; },
      innerWidth: 1200, innerHeight: 800, scrollTo() {}, matchMedia: () => ({ matches: false, addEventListener() {}, removeEventListener() {} }), alert() {}, confirm: () => true, getComputedStyle: () => ({ getPropertyValue: () => "" }),
      HTMLElement: El, HTMLInputElement: El, HTMLTextAreaElement: El, HTMLSelectElement: El, HTMLAnchorElement: El, Element: El, Node: Node_, Text,
      Worker: class {
        constructor(u) { return sim.startWorker(R, String(u)); }
      },
    });
    win.window = R.ctx;
    Object.defineProperty(R.global, "localStorage", { configurable: true, get() { if (sim.storageMode === "forbidden") { sim.count("fault_storage_forbidden"); sim.persisted = false; throw Object.assign(new Error("The operation is insecure."), { name: "SecurityError" }); } return ls; } });
    const sv = makeSvelte({ document: doc, window: { addEventListener: (t, f) => doc.addEventListener("win:" + t, f), removeEventListener: (t, f) => doc.removeEventListener("win:" + t, f) }, microtask: (f) => queueMicrotask(() => { if (!R.dead) f(); }), error: (e) => this.pageError(e) });
    const esc = (s) => s.replace(/&/g, "&amp;").replace(/</g, "&lt;").replace(/>/g, "&gt;").replace(/"/g, "&quot;").replace(/'/g, "&#39;");
    const html = (langs, code, o) => {
      const lang = o && o.lang;
      if (typeof code !== "string") throw new TypeError("code is not a string");
      if (sim.highlighterFails && code !== "" && [...code].reduce((a, c) => (a * 31 + c.codePointAt(0)) % 65521, 7) % sim.highlighterFails === 0) { sim.count("fault_highlighter_failed"); throw Object.assign(new Error("table index is out of bounds"), { name: "RuntimeError" }); }
      if (!["plaintext", "text", "txt", "plain", "ansi"].includes(lang) && !langs.includes(lang)) throw new Error(`Language \`${lang}\` not found`);
      return `<pre class="shiki" style="background-color:#fff"><code>${esc(code).split("\n").map((l) => `<span class="line"><span>${l}</span></span>`).join("\n")}</code></pre>`;
    };
    const later = (kind, v) => new Promise((res, rej) => sim.add(kind, kind, R, () => { if (sim.noHighlighter) { sim.count("fault_highlighter_not_loaded"); return rej(sim.reason()); } try { res(v()); } catch (e) { rej(e); } }));
    const shiki = { __esModule: true, createHighlighter: (o) => later("shiki", () => ({ codeToHtml: (c, x) => html(o.langs || [], c, x), getLoadedLanguages: () => o.langs || [], dispose() {} })), codeToHtml: (c, o) => later("shiki", () => html([o.lang], c, o)) };
    R.stub = (n) => {
      if (n === "svelte") return sv.svelte;
      if (n === "svelte/store") return sv.store;
      if (n === "shiki") return shiki;
      if (n === "svelte/transition" || n === "svelte/animate" || n === "svelte/easing") return new Proxy({ __esModule: true }, { get: (t, k) => (k in t ? t[k] : () => ({})) });
      throw new Error("no stand-in for " + n);
    };
    this.page = R; R.startedOk = false; R.blobs();
    this.count("pages");
    try { R.load(this.bundle.entry); R.startedOk = true; } catch (e) { this.pageError(e); R.startError = String((e && e.stack) || e).slice(0, 400); }
    return R;
  }
  storageCheck(op) {
    const m = this.storageMode;
    if ((op === "get" && m === "getThrows") || (op === "set" && (m === "setThrows" || m === "quota"))) {
      this.count("fault_storage_" + m); if (op === "set") this.persisted = false;
      throw Object.assign(new Error(m === "quota" ? "The quota has been exceeded." : "storage failed"), { name: m === "quota" ? "QuotaExceededError" : "UnknownError" });
    }
  }
  closePage() {
    const p = this.page; if (!p) return;
    p.dead = true; this.drop(p); for (const w of p.workers) { w.dead = true; this.drop(w); }
    this.page = null;
  }
  startWorker(P, url) {
    const sim = this, id = new URL(url, "http://sim/").pathname;
    this.onWorker?.();
    const handle = { onmessage: null, onerror: null, onmessageerror: null, ls: [] };
    const emit = (t, ev) => { ev.target = ev.currentTarget = handle; P.guard(() => handle["on" + t]?.call(handle, ev)); for (const l of [...handle.ls]) if (l[0] === t) P.guard(() => l[1].call(handle, ev)); };
    let booted = false;
    const toPage = (data, after) => {
      const e = sim.add("toPage", "toPage:" + W.name, W, () => {
        if (P.dead) return;
        if (sim.replyOf(data)) sim.reply(P, sim.replyOf(data));
        else sim.settleThrown(P);
        emit("message", new Event_("message", { data }));
      });
      e.chan = "P" + W.name;
    };
    const W = this.realm("worker", {
      postMessage: (d) => { if (!W.dead) toPage(clone(d)); }, close: () => { W.dead = true; sim.drop(W); },
      addEventListener: (t, f) => W.ls.push([t, f]), removeEventListener: (t, f) => { W.ls = W.ls.filter((l) => l[0] !== t || l[1] !== f); }, onmessage: null, importScripts() {},
      navigator: { userAgent: "sim", hardwareConcurrency: 4 }, location: { href: url, origin: "http://sim" },
    });
    W.ls = [];
    P.workers.push(W);
    W.onerror = (e) => {
      sim.count("worker_uncaught");
      sim.errors.push("worker: " + String((e && e.stack) || e).slice(0, 300));
      const ev = sim.add("toPage", "error:" + W.name, W, () => { sim.settleThrown(P); if (!P.dead) emit("error", new Event_("error", { message: "Uncaught " + ((e && e.message) || e), error: null })); });
      ev.chan = "P" + W.name;
    };
    let ready = false;
    const wasm = {
      __esModule: true,
      default: () => new Promise((res, rej) => sim.add("init", "init:" + W.name, W, () => {
        if (sim.noGenerator) { sim.count("fault_generator_not_loaded"); rej(sim.reason()); } else { ready = true; res({}); }
      })),
      initSync: () => { ready = true; return {}; },
      run: (n, i, o) => {
        if (!ready) throw new TypeError("Cannot read properties of undefined (reading '__wbindgen_malloc')");
        const r = { n, i, o, msg: W.handling, step: sim.step };
        sim.runs.push(r); sim.count("generator_runs"); sim.onRun?.(r);
        try { return (r.out = sim.generate(n, i, o)); } catch (e) { sim.count("fault_generator_threw"); if (W.handling) W.handling.threw = true; throw e; }
      },
    };
    W.stub = (n) => { if (n === "json_typegen_wasm") return wasm; throw new Error("no stand-in for " + n); };
    this.add("boot", "boot:" + W.name, W, () => {
      // the script may be gone, or the network: the page gets an event that says nothing
      if (sim.noGenerator === "worker") { sim.count("fault_worker_not_loaded"); W.dead = true; sim.drop(W); if (!P.dead) emit("error", new Event_("error")); return; }
      booted = true; try { W.load(id); } catch (e) { W.onerror(e); } });
    const toWorker = (data) => {
      let req = null;
      const asked = sim.requestOf(data);
      if (asked) { req = { id: sim.requests.length, data: { typename: asked.typename ?? asked.typeName }, posted: sim.step, postedRun: sim.actionNo, answered: false, page: P }; sim.requests.push(req); sim.count("requests"); sim.watch(); }
      const e = sim.add("toWorker", "toWorker:" + W.name, W, () => {
        if (W.dead) return;
        if (req) req.delivered = sim.step;
        const ev = new Event_("message", { data }); W.handling = req; 
        W.guard(() => W.ctx.onmessage?.(ev));
        for (const l of [...W.ls]) if (l[0] === "message") W.guard(() => l[1](ev));
        W.handling = null;
      });
      e.chan = "W" + W.name; e.ready = () => booted;
    };
    Object.assign(handle, {
      postMessage: (d) => { if (!W.dead) toWorker(clone(d)); },
      terminate: () => { W.dead = true; sim.drop(W); sim.count("worker_terminated"); for (const r of sim.requests) if (r.page === P) r.answered = true; },
      addEventListener: (t, f) => handle.ls.push([t, f]), removeEventListener: (t, f) => { handle.ls = handle.ls.filter((l) => l[0] !== t || l[1] !== f); },
    });
    return handle;
  }
  generate(n, i, o) { return generate(n, i, o); }
  settleThrown(P) { const r = this.requests.find((x) => x.page === P && !x.answered); if (r && r.threw) r.answered = true; }
  reply(P, d) {
    const r = this.requests.find((x) => x.page === P && !x.answered);
    this.replies.push(d); this.count("replies");
    if (!r) { this.orderErrors.push("a reply without an outstanding request"); return; }
    r.answered = true;
    const m = /GEN (\{.*?\}) END/s.exec(Object.values(d).filter((v) => typeof v === "string").join("\n"));
    const t = m ? JSON.parse(m[1]).t : d.typename ?? d.typeName;
    if (t !== undefined && t !== r.data.typename) this.orderErrors.push(`the reply for ${JSON.stringify(t)} arrived for the request for ${JSON.stringify(r.data.typename)}`);
  }
}
export { SimFile };
