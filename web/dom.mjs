// A document just real enough for the page: elements with values, listeners, bubbling.
const BOOL = new Set("disabled checked readonly required multiple hidden selected autofocus open".split(" "));
export class Node_ {
  constructor(doc) { this.ownerDocument = doc; this.childNodes = []; this.parentNode = null; }
  get parentElement() { return this.parentNode instanceof El ? this.parentNode : null; }
  get children() { return this.childNodes.filter((x) => x instanceof El); }
  get firstChild() { return this.childNodes[0] ?? null; }
  get lastChild() { return this.childNodes.at(-1) ?? null; }
  get textContent() { return this.childNodes.map((x) => x.textContent).join(""); }
  set textContent(v) { this.childNodes = v === "" ? [] : [new Text(this.ownerDocument, String(v))]; }
  appendChild(n) { n.remove?.(); n.parentNode = this; this.childNodes.push(n); return n; }
  append(...ns) { ns.forEach((n) => this.appendChild(typeof n === "string" ? new Text(this.ownerDocument, n) : n)); }
  insertBefore(n, ref) { n.remove?.(); n.parentNode = this; const i = ref ? this.childNodes.indexOf(ref) : -1; if (i < 0) this.childNodes.push(n); else this.childNodes.splice(i, 0, n); return n; }
  removeChild(n) { const i = this.childNodes.indexOf(n); if (i >= 0) this.childNodes.splice(i, 1); n.parentNode = null; return n; }
  remove() { this.parentNode?.removeChild(this); }
  contains(n) { for (; n; n = n.parentNode) if (n === this) return true; return false; }
  find(f) { for (const c of this.childNodes) { if (f(c)) return c; if (c.childNodes.length) { const r = c.find(f); if (r) return r; } } return null; }
  querySelectorAll(sel) { const out = [], f = matcher(sel); this.find((n) => { if (n instanceof El && f(n)) out.push(n); return false; }); return out; }
  querySelector(sel) { const f = matcher(sel); return this.find((n) => n instanceof El && f(n)); }
  addEventListener(t, f, o) { (this.listeners ||= []).push([t, f, o && o.once]); }
  removeEventListener(t, f) { this.listeners = (this.listeners || []).filter((l) => !(l[0] === t && l[1] === f)); }
  dispatchEvent(ev) {
    ev.target ??= this;
    let n = this;
    while (n) {
      ev.currentTarget = n;
      for (const l of [...(n.listeners || [])]) if (l[0] === ev.type) { if (l[2]) n.removeEventListener(l[0], l[1]); ownerCall(n, () => (typeof l[1] === "function" ? l[1].call(n, ev) : l[1].handleEvent(ev))); }
      const p = n["on" + ev.type];
      if (typeof p === "function") ownerCall(n, () => p.call(n, ev));
      if (ev.stopped || !ev.bubbles) break;
      n = n.parentNode;
    }
    return !ev.defaultPrevented;
  }
}
function ownerCall(n, f) { const d = n.ownerDocument || n; if (d.guard) d.guard(f); else f(); }
export class Text extends Node_ {
  constructor(doc, v) { super(doc); this.data = v; }
  get textContent() { return this.data; } set textContent(v) { this.data = String(v); }
  get nodeValue() { return this.data; } set nodeValue(v) { this.data = String(v); }
}
export class Raw extends Node_ {
  constructor(doc, html) { super(doc); this.html = html; }
  get textContent() { return htmlText(this.html); }
}
export function htmlText(h) { return h.replace(/<[^>]*>/g, "").replace(/&lt;/g, "<").replace(/&gt;/g, ">").replace(/&quot;/g, '"').replace(/&#39;/g, "'").replace(/&amp;/g, "&"); }
export class Event_ {
  constructor(type, o = {}) { this.type = type; Object.assign(this, o); this.bubbles = o.bubbles ?? false; this.defaultPrevented = false; this.target = o.target; this.isTrusted = true; }
  preventDefault() { this.defaultPrevented = true; }
  stopPropagation() { this.stopped = true; }
  stopImmediatePropagation() { this.stopped = true; }
}
export class CustomEvent_ extends Event_ { constructor(t, o = {}) { super(t, o); this.detail = o.detail ?? null; } }
export class El extends Node_ {
  constructor(doc, tag) { super(doc); this.tag = tag.toLowerCase(); this.attrs = {}; this.style = makeStyle(); this._value = undefined; this._checked = false; this._files = []; this.scrollHeight = 100; this.dataset = {}; }
  get tagName() { return this.tag.toUpperCase(); }
  get nodeName() { return this.tagName; }
  get isConnected() { let n = this; while (n.parentNode) n = n.parentNode; return n === this.ownerDocument; }
  getAttribute(n) { return n in this.attrs ? this.attrs[n] : null; }
  hasAttribute(n) { return n in this.attrs; }
  setAttribute(n, v) { this.attrs[n] = String(v); }
  removeAttribute(n) { delete this.attrs[n]; }
  get id() { return this.attrs.id ?? ""; } set id(v) { this.attrs.id = String(v); }
  get className() { return this.attrs.class ?? ""; } set className(v) { this.attrs.class = v; }
  get classList() {
    const el = this, get = () => new Set(el.className.split(/\s+/).filter(Boolean)), put = (s) => { el.className = [...s].join(" "); };
    return { contains: (c) => get().has(c), add: (...c) => { const s = get(); c.forEach((x) => s.add(x)); put(s); }, remove: (...c) => { const s = get(); c.forEach((x) => s.delete(x)); put(s); }, toggle: (c, f) => { const s = get(); const on = f ?? !s.has(c); on ? s.add(c) : s.delete(c); put(s); return on; } };
  }
  get href() { return this.attrs.href ?? ""; } set href(v) { this.attrs.href = String(v); }
  get download() { return this.attrs.download ?? ""; } set download(v) { this.attrs.download = String(v); }
  get type() { return this.attrs.type ?? (this.tag === "input" ? "text" : ""); } set type(v) { this.attrs.type = String(v); }
  get name() { return this.attrs.name ?? ""; }
  get disabled() { return "disabled" in this.attrs; } set disabled(v) { if (v) this.attrs.disabled = ""; else delete this.attrs.disabled; }
  get innerHTML() { return this.childNodes.map((c) => (c instanceof Raw ? c.html : c.textContent)).join(""); }
  set innerHTML(v) { this.childNodes = v ? [new Raw(this.ownerDocument, String(v))] : []; }
  get innerText() { return this.textContent; } set innerText(v) { this.textContent = v; }
  get options() { return this.querySelectorAll("option"); }
  get value() {
    if (this.tag === "select") { const os = this.options; if (this._sel === undefined) return os[0]?.value ?? ""; return os.some((o) => o.value === this._sel) ? this._sel : ""; }
    if (this.tag === "option") return this.attrs.value !== undefined ? this.attrs.value : this.textContent;
    if (this.tag === "textarea") return this._value ?? this.textContent;
    if (this.type === "file") return this._files.length ? "C:\\fakepath\\" + this._files[0].name : "";
    if (this.type === "checkbox" || this.type === "radio") return this._value ?? this.attrs.value ?? "on";
    return this._value ?? this.attrs.value ?? "";
  }
  set value(v) {
    v = v === null || v === undefined ? "" : String(v);
    if (this.tag === "select") this._sel = v;
    else if (this.tag === "option") this.attrs.value = v;
    else if (this.type === "file") { if (v === "") this._files = []; else throw new Error("InvalidStateError: file input"); }
    else if (this.tag === "textarea") this._value = v.replace(/\r\n?/g, "\n");
    else this._value = v.replace(/[\r\n]/g, "");
  }
  get selectedIndex() { const os = this.options; return this._sel === undefined ? (os.length ? 0 : -1) : os.findIndex((o) => o.value === this._sel); }
  set selectedIndex(i) { this._sel = this.options[i]?.value ?? "\0none"; }
  get checked() { return this._checked; } set checked(v) { this._checked = !!v; }
  get files() { return this.type === "file" ? Object.assign([...this._files], { item: (i) => this._files[i] ?? null }) : null; }
  focus() {} blur() {} select() {} scrollIntoView() {} animate() { return {}; }
  getBoundingClientRect() { return { x: 0, y: 0, width: 100, height: 100, top: 0, left: 0, right: 100, bottom: 100 }; }
  click() { this.ownerDocument.click(this); }
  matches(sel) { return matcher(sel)(this); }
  closest(sel) { let n = this; while (n instanceof El) { if (n.matches(sel)) return n; n = n.parentNode; } return null; }
}
const matchers = new Map();
function matcher(sel) {
  if (matchers.has(sel)) return matchers.get(sel);
  const alts = sel.split(",").map((s) => {
    s = s.trim(); const m = /^([a-z0-9]+|\*)?((?:[#.][\w-]+|\[[^\]]+\])*)$/i.exec(s);
    if (!m) throw new Error("selector not supported: " + sel);
    const tests = [];
    if (m[1] && m[1] !== "*") tests.push((e) => e.tag === m[1]);
    for (const p of m[2].match(/[#.][\w-]+|\[[^\]]+\]/g) || []) {
      if (p[0] === "#") tests.push((e) => e.id === p.slice(1));
      if (p[0] === ".") tests.push((e) => e.classList.contains(p.slice(1)));
      if (p[0] === "[") { const a = /^\[([\w-]+)(?:=["']?([^"'\]]*)["']?)?\]$/.exec(p); if (!a) throw new Error("selector not supported: " + sel); tests.push((e) => a[1] in e.attrs && (a[2] === undefined || e.attrs[a[1]] === a[2])); }
    }
    return (e) => tests.every((t) => t(e));
  });
  const f = (e) => alts.some((t) => t(e));
  matchers.set(sel, f); return f;
}
function makeStyle() { return { setProperty(k, v) { this[k] = v; }, removeProperty(k) { delete this[k]; } }; }
export class Document extends Node_ {
  constructor(guard) {
    super(null); this.guard = guard; this.ownerDocument = null;
    this.documentElement = this.mk("html"); this.head = this.mk("head"); this.body = this.mk("body");
    this.appendChild(this.documentElement); this.documentElement.append(this.head, this.body);
    this.title = ""; this.visibilityState = "visible"; this.hidden = false; this.cookie = ""; this.readyState = "complete";
  }
  mk(t) { return new El(this, t); }
  createElement(t) { return new El(this, t); }
  createElementNS(_, t) { return new El(this, t); }
  createTextNode(v) { return new Text(this, v); }
  getElementById(id) { return this.find((n) => n instanceof El && n.attrs.id === id); }
  getElementsByTagName(t) { return this.querySelectorAll(t); }
  execCommand() { return false; }
  // the user's (or a script's) click: activation behaviour included
  click(el) {
    if (el.disabled) return;
    const ev = new Event_("click", { bubbles: true });
    if (el.tag === "input" && el.type === "checkbox") { const old = el.checked; el.checked = !old; if (!el.dispatchEvent(ev)) { el.checked = old; return; } el.dispatchEvent(new Event_("input", { bubbles: true })); el.dispatchEvent(new Event_("change", { bubbles: true })); return; }
    el.dispatchEvent(ev);
  }
}
export { BOOL };
