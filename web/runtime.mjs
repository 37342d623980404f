// The run-time half of compile.mjs: component instances, reactive state, rendering into the fake
// document, and the modules "svelte" and "svelte/store" as far as legacy-mode components use them.
import { El, Text, Raw, Event_, CustomEvent_, BOOL } from "./dom.mjs";

const notEqual = (a, b) => (a != a ? b == b : a !== b || (a !== null && typeof a === "object") || typeof a === "function");

export function makeSvelte(env) {
  // env: { document, window, microtask(fn), error(e) }
  let current = null; // instance being initialised
  let root = null, scheduled = false, flushing = false, dirty = false;
  let ticks = [];
  const after = [];
  const schedule = () => {
    dirty = true;
    if (scheduled || flushing) return;
    scheduled = true;
    env.microtask(() => { scheduled = false; flush(); });
  };
  function flush() {
    if (flushing) return;
    flushing = true;
    try {
      for (let i = 0; dirty || after.length; i++) {
        if (i > 1000) throw new Error("effect_update_depth_exceeded");
        if (dirty) { dirty = false; for (const r of roots) r.update(); }
        while (after.length) after.shift()();
      }
    } catch (e) { env.error(e); } finally { flushing = false; const t = ticks; ticks = []; t.forEach((f) => f()); }
    if (dirty) schedule();
  }
  const roots = [];

  class Instance {
    constructor(ctor, vn, parent) {
      this.parent = parent; this.vn = vn; this.cells = {}; this.props = {}; this.reacts = []; this.onces = {}; this.mounts = []; this.destroys = []; this.befores = []; this.afters = []; this.exports = {}; this.children = []; this.changed = new Set(); this.subs = new Map(); this.contexts = parent ? Object.create(parent.contexts) : {}; this.keys = {}; this.awaits = {};
      const me = this;
      this.state = {};
      this.slots = {}; for (const k of Object.keys(vn.slots)) this.slots[k] = true;
      const given = () => { const o = {}; for (const p of this.vn.props) { if (p[0] === "...") Object.assign(o, p[1]()); else o[p[0]] = p[1](); } return o; };
      this.allProps = new Proxy({}, { get: (_, k) => given()[k], has: (_, k) => k in given(), ownKeys: () => Object.keys(given()), getOwnPropertyDescriptor: (_, k) => (k in given() ? { value: given()[k], enumerable: true, configurable: true } : undefined) });
      this.restProps = new Proxy({}, { get: (_, k) => (k in this.props ? undefined : given()[k]), has: (_, k) => !(k in this.props) && k in given(), ownKeys: () => Object.keys(given()).filter((k) => !(k in this.props)), getOwnPropertyDescriptor: (_, k) => (!(k in this.props) && k in given() ? { value: given()[k], enumerable: true, configurable: true } : undefined) });
      const prev = current; current = this;
      try { ctor(this, this.state); } finally { current = prev; }
      this.ready = true;
      this.changed.clear();
    }
    let(name, init) {
      const cell = { v: undefined, init: false };
      this.cells[name] = cell;
      Object.defineProperty(this.state, name, {
        enumerable: true, configurable: true,
        get: () => { if (!cell.init && !cell.evaluating) throw new ReferenceError(`Cannot access '${name}' before initialization`); return cell.v; },
        set: (v) => { const ne = !cell.init || notEqual(cell.v, v); cell.v = v; cell.init = true; if (ne) this.invalidate(name); },
      });
      const v = init ? init() : undefined;
      cell.v = v; cell.init = true;
    }
    given(outer) {
      let r = null;
      for (const p of this.vn.props) {
        if (p[0] === "...") { const o = p[1](); if (o && outer in o) r = { get: () => p[1]()[outer] }; }
        else if (p[0] === outer) r = { get: p[1], set: p[2] };
      }
      return r;
    }
    prop(name, outer, fallback) {
      const cell = { local: undefined, last: undefined, fb: undefined, fbDone: false };
      this.cells[name] = cell; this.props[outer] = name;
      const fb = () => { if (!cell.fbDone) { cell.fbDone = true; cell.fb = fallback ? fallback() : undefined; } return cell.fb; };
      const g0 = this.given(outer);
      if (g0 && g0.set && g0.get() === undefined && fallback) g0.set(fb());
      const read = () => {
        const g = this.given(outer);
        if (g && g.set) { const v = g.get(); return v === undefined ? fb() : v; }
        const pv = g ? g.get() : undefined;
        if (!cell.inited || pv !== cell.last) { cell.inited = true; cell.last = pv; cell.local = pv; cell.set = false; }
        return cell.local === undefined && !cell.set ? fb() : cell.local;
      };
      Object.defineProperty(this.state, name, {
        enumerable: true, configurable: true, get: read,
        set: (v) => {
          const g = this.given(outer), old = read();
          if (g && g.set) { g.set(v); return; }
          cell.local = v; cell.set = true;
          if (notEqual(old, v)) this.invalidate(name);
        },
      });
      cell.seen = read();
    }
    invalidate(name) { this.changed.add(name); schedule(); }
    mut(name, v) { this.invalidate(name); return v; }
    reactive(deps, fn, getters) {
      const r = { deps, fn, getters, last: getters.map((g, i) => (deps[i] in this.cells || deps[i][0] === "$" ? safe(g) : undefined)) };
      this.reacts.push(r);
      fn();
      r.last = r.getters.map((g, i) => (r.deps[i] in this.cells || r.deps[i][0] === "$" ? safe(g) : undefined));
      // what this statement assigned itself does not run it again
      for (const d of deps) this.changed.delete(d);
    }
    runReactive() {
      for (const r of this.reacts) {
        let run = false;
        r.deps.forEach((d, i) => {
          if (this.changed.has(d)) run = true;
          else if (d in this.cells || d[0] === "$") { const v = safe(r.getters[i]); if (v !== r.last[i]) run = true; }
        });
        if (!run) continue;
        r.pendingRun = true;
      }
      // statements run in order; what an earlier one assigns is seen by the later ones
      const changed0 = this.changed; this.changed = new Set();
      for (const r of this.reacts) {
        if (!r.pendingRun) { if (r.deps.some((d) => this.changed.has(d))) r.pendingRun = true; }
        if (!r.pendingRun) continue;
        r.pendingRun = false;
        r.fn();
        r.last = r.getters.map((g, i) => (r.deps[i] in this.cells || r.deps[i][0] === "$" ? safe(g) : undefined));
      }
      this.changed.clear();
    }
    render(fn) { this.template = fn; }
    update() { // one pass: reactive statements, then the template, then the children
      this.befores.forEach((f) => f());
      if (this.ready) this.runReactive();
      const vnodes = flat(this.template());
      this.children = patch(this.children, vnodes, this.host);
      const kids = [];
      for (const c of this.children) collect(c, kids);
      this.nodes = kids;
      if (this.afters.length) after.push(() => this.afters.forEach((f) => f()));
      if (!this.mounted) {
        this.mounted = true;
        if (this.mounts.length) after.push(() => { for (const f of this.mounts) { const d = f(); if (typeof d === "function") this.destroys.push(d); } });
      }
    }
    destroy() { this.destroys.forEach((f) => f()); for (const un of this.subs.values()) un.un(); for (const c of this.children) unmountNode(c); }
    // ---- template helpers
    str(v) { return v === null || v === undefined ? "" : String(v); }
    once(id, fn) { return () => (id in this.onces ? this.onces[id] : (this.onces[id] = fn())); }
    T(id, v) { return { k: "t", id, v: v === null || v === undefined ? "" : String(v) }; }
    H(id, v) { return { k: "h", id, v: v === null || v === undefined ? "" : String(v) }; }
    F(id, key, body) { return { k: "f", id, key, body: flat(body || []) }; }
    K(id, value, body) {
      const e = (this.keys[id] ||= { n: 0, v: value });
      if (e.v !== value && !(e.v !== e.v && value !== value)) { e.v = value; e.n++; }
      return { k: "f", id, key: "k" + e.n, body: flat(body()) };
    }
    each(id, list, body, key, els) {
      const arr = list === null || list === undefined ? [] : Array.isArray(list) ? list : Array.from(list);
      if (!arr.length && els) return { k: "f", id, key: "else", body: flat(els()) };
      return { k: "f", id, key: "each", body: arr.map((x, i) => ({ k: "f", id: 0, key: key ? keyOf(key(x, i)) : i, body: flat(body(x, i)) })) };
    }
    A(id, p, pending, then, cat) {
      let e = this.awaits[id];
      if (!e || e.p !== p) {
        e = this.awaits[id] = { p, st: "pending" };
        if (p && typeof p.then === "function") {
          const me = e;
          p.then((v) => { me.st = "then"; me.v = v; schedule(); }, (v) => { me.st = "catch"; me.v = v; schedule(); });
        } else { e.st = "then"; e.v = p; }
      }
      const f = e.st === "pending" ? pending : e.st === "then" ? then : cat;
      return { k: "f", id, key: e.st, body: f ? flat(f(e.v)) : [] };
    }
    slot(id, name, props, fallback) {
      const s = this.vn.slots[name];
      if (s) return { k: "f", id, key: "s", body: flat(s(props)) };
      if (name === "default") { const c = this.given("children"); if (c) { const f = c.get(); if (f) return { k: "f", id, key: "s", body: flat(f()) }; } }
      return { k: "f", id, key: "fb", body: fallback ? flat(fallback()) : [] };
    }
    E(id, tag, attrs, on, binds, body, uses) { return { k: "e", id, tag, attrs, on, binds, body: flat(body), owner: this, uses }; }
    C(id, ctor, props, on, slots, bindThis) { return { k: "c", id, ctor, props, on, slots, owner: this, bindThis }; }
    W(id, which, on) { return { k: "w", id, which, on, owner: this }; }
    // handlers given to this component for event `name`
    forward(name, ev) {
      for (const [n, h] of this.vn.on) if (n === name) { if (h === null) this.vn.owner?.forward(name, ev); else { const f = h(); if (typeof f === "function") f(ev); } }
    }
    sget(store) {
      if (store === null || store === undefined) return undefined;
      let s = this.subs.get(store);
      if (!s) {
        s = { v: undefined }; this.subs.set(store, s);
        const un = store.subscribe((v) => { s.v = v; if (s.live) schedule(); });
        s.live = true; s.un = typeof un === "function" ? un : () => un?.unsubscribe?.();
      }
      return s.v;
    }
    sset(store, v) { store.set(v); return v; }
  }
  const safe = (g) => { try { return g(); } catch { return undefined; } };
  const keyOf = (k) => (typeof k === "object" && k !== null ? (keyIds.get(k) ?? (keyIds.set(k, "o" + ++keyN), keyIds.get(k))) : typeof k + String(k));
  const keyIds = new WeakMap(); let keyN = 0;
  function flat(a) { const out = []; for (const x of a) { if (x === null || x === undefined || x === false) continue; if (Array.isArray(x)) out.push(...flat(x)); else out.push(x); } return out; }

  const sig = (v) => v.k + v.id + "|" + (v.key ?? "") + (v.k === "e" ? v.tag : "");
  const same = (a, b) => a.k === b.k && a.id === b.id && a.key === b.key && (a.k !== "e" || a.tag === b.tag) && (a.k !== "c" || a.ctor === b.ctor);
  function patch(old, vnodes, host) {
    if (old.length === vnodes.length) {
      let i = 0; while (i < old.length && same(old[i].vn, vnodes[i])) i++;
      if (i === old.length) { for (i = 0; i < old.length; i++) { old[i].vn = vnodes[i]; } for (const o of old) refresh(o); return old; }
    }
    const byKey = new Map(); for (const o of old) { const s = sig(o.vn); if (!byKey.has(s)) byKey.set(s, []); byKey.get(s).push(o); }
    const out = [];
    for (const v of vnodes) {
      const q = byKey.get(sig(v)); let o = q && q.length ? q.shift() : null;
      if (o && v.k === "c" && o.vn.ctor !== v.ctor) { unmountNode(o); o = null; }
      if (!o) o = create(v); else { o.vn = v; }
      out.push(o);
    }
    for (const q of byKey.values()) for (const o of q) unmountNode(o);
    for (const o of out) refresh(o);
    return out;
  }
  function create(v) {
    const n = { vn: v, children: [] };
    if (v.k === "t") n.dom = new Text(env.document, v.v);
    else if (v.k === "h") n.dom = new Raw(env.document, v.v);
    else if (v.k === "e") {
      n.dom = env.document.createElement(v.tag); n.fresh = true;
      n.handlers = {};
    } else if (v.k === "c") {
      if (typeof v.ctor !== "function") throw new Error("not a component");
      n.inst = new Instance(v.ctor, v, v.owner);
      for (const f of v.bindThis) f(n.inst.exports);
    } else if (v.k === "w") n.handlers = {};
    return n;
  }
  function listen(n, target) {
    for (const [ev] of n.vn.on) if (!n.handlers[ev]) {
      n.handlers[ev] = (e) => {
        for (const [name, h, mods] of n.vn.on) {
          if (name !== ev) continue;
          if (mods.includes("self") && e.target !== e.currentTarget) continue;
          if (mods.includes("once")) { if (n["once" + ev]) continue; n["once" + ev] = true; }
          if (mods.includes("preventDefault")) e.preventDefault();
          if (mods.includes("stopPropagation")) e.stopPropagation();
          if (h === null) n.vn.owner.forward(ev, e); else { const f = h(); if (typeof f === "function") f.call(n.dom, e); else if (f && f.handleEvent) f.handleEvent(e); }
        }
      };
      target.addEventListener(ev, n.handlers[ev]);
    }
  }
  function refresh(n) {
    const v = n.vn;
    if (v.k === "t") { if (n.dom.data !== v.v) n.dom.data = v.v; return; }
    if (v.k === "h") { n.dom.html = v.v; return; }
    if (v.k === "f") { n.children = patch(n.children, v.body); return; }
    if (v.k === "c") { n.inst.vn = v; n.inst.update(); return; }
    if (v.k === "w") { listen(n, v.which === "window" ? env.window : v.which === "document" ? env.document : env.document.body); return; }
    const el = n.dom;
    listen(n, el);
    for (const a of v.attrs) setAttr(n, el, a);
    n.children = patch(n.children, v.body);
    const doms = []; for (const c of n.children) collect(c, doms);
    if (doms.length !== el.childNodes.length || doms.some((d, i) => d !== el.childNodes[i])) { for (const d of el.childNodes) if (!doms.includes(d)) d.parentNode = null; el.childNodes = doms; for (const d of doms) d.parentNode = el; }
    for (const b of v.binds) bind(n, el, b);
    if (n.fresh) {
      n.fresh = false;
      for (const [act, param] of v.uses || []) { const r = act(el, param ? param() : undefined); if (r) n.actions = [...(n.actions || []), [r, param]]; }
    } else for (const [r, param] of n.actions || []) r.update?.(param ? param() : undefined);
  }
  function setAttr(n, el, a) {
    const [name, val] = a;
    if (name === "...") { for (const [k, x] of Object.entries(val || {})) { if (/^on[a-z]/.test(k) && typeof x === "function") el["on" + k.slice(2)] = x; else setAttr(n, el, [k, x]); } return; }
    if (name === "class:") { const c = el.classList; a[2] ? c.add(val) : c.remove(val); return; }
    if (name === "style:") { el.style.setProperty(val, a[2]); return; }
    if (name === "value" && ["input", "textarea", "select", "option"].includes(el.tag)) { const c = (n.cache ||= {}); if (c.value !== val || !("value" in c)) { c.value = val; if (el.tag === "option") el.attrs.value = val === undefined || val === null ? "" : String(val); else el.value = val; } return; }
    if (name === "checked") { const c = (n.cache ||= {}); if (c.checked !== val) { c.checked = val; el.checked = val; } return; }
    if (name === "class" && (val === null || val === undefined)) { delete el.attrs.class; return; }
    if (val === null || val === undefined || (BOOL.has(name) && !val)) { delete el.attrs[name]; return; }
    el.attrs[name] = val === true && BOOL.has(name) ? "" : String(val);
  }
  function bind(n, el, [prop, get, set, groupValue]) {
    const b = (n.bound ||= {});
    if (prop === "this") { if (!b.this) { b.this = true; set(el); } return; }
    if (!b[prop]) {
      b[prop] = true;
      const read = () => {
        const [, g, s, gv] = n.vn.binds.find((x) => x[0] === prop);
        if (prop === "value") { s(el.type === "number" || el.type === "range" ? (el.value === "" ? null : +el.value) : el.value); return; }
        if (prop === "checked") { s(el.checked); return; }
        if (prop === "files") { s(el.files); return; }
        if (prop === "group") { if (el.type === "radio") { if (el.checked) s(gv); } else { const cur = (g() || []).filter((x) => x !== gv); s(el.checked ? [...cur, gv] : cur); } return; }
        s(el[prop]);
      };
      const ev = prop === "checked" || prop === "files" || prop === "group" || el.tag === "select" ? "change" : prop === "value" ? "input" : prop;
      el.addEventListener(ev, read);
      if (prop === "value" && get() === undefined) { if (el.tag === "select") { if (el.value !== "") set(el.value); } else if (el.value) set(el.value); }
    }
    const v = get();
    if (prop === "value") {
      if (el.tag === "select") { if (v !== undefined) el._sel = v === null ? "" : String(v); }
      else if (el.type === "number") { if ((el.value === "" ? null : +el.value) !== v) el.value = v; }
      else if (el.type !== "file" && el.value !== (v ?? "")) el.value = v;
    } else if (prop === "checked") el.checked = !!v;
    else if (prop === "group") el.checked = el.type === "radio" ? v === groupValue : (v || []).includes(groupValue);
  }
  function collect(n, out) {
    if (n.dom) out.push(n.dom);
    else if (n.inst) for (const c of n.inst.children) collect(c, out);
    else for (const c of n.children) collect(c, out);
  }
  function unmountNode(n) {
    if (n.inst) { for (const f of n.vn.bindThis) f(null); n.inst.destroy(); }
    if (n.vn.k === "e") { for (const b of n.vn.binds) if (b[0] === "this") b[2](null); for (const [r] of n.actions || []) r.destroy?.(); }
    if (n.vn.k === "w") for (const [ev, h] of Object.entries(n.handlers)) (n.vn.which === "window" ? env.window : n.vn.which === "document" ? env.document : env.document.body).removeEventListener(ev, h);
    for (const c of n.children) unmountNode(c);
  }
  const need = () => { if (!current) throw new Error("lifecycle_outside_component"); return current; };
  const svelte = {
    __esModule: true,
    mount(ctor, { target, props = {} }) {
      const vn = { k: "c", id: 0, ctor, props: Object.entries(props).map(([k, v]) => [k, () => v]), on: [], slots: {}, owner: null, bindThis: [] };
      const inst = new Instance(ctor, vn, null);
      const r = { update() { inst.update(); const doms = []; for (const c of inst.children) collect(c, doms); target.childNodes = doms; for (const d of doms) d.parentNode = target; } };
      flushing = true;
      try { dirty = false; r.update(); } finally { flushing = false; }
      roots.push(r);
      while (after.length) after.shift()();
      if (dirty) schedule();
      return inst.exports;
    },
    unmount() {},
    flushSync(f) { const v = f?.(); flush(); return v; },
    untrack: (f) => f(),
    onMount(f) { need().mounts.push(f); },
    onDestroy(f) { need().destroys.push(f); },
    beforeUpdate(f) { need().befores.push(f); },
    afterUpdate(f) { need().afters.push(f); },
    tick() { return new Promise((r) => { ticks.push(r); schedule(); }); },
    createEventDispatcher() { const me = need(); return (type, detail) => { const e = new CustomEvent_(type, { detail }); me.forward(type, e); return !e.defaultPrevented; }; },
    setContext(k, v) { need().contexts[k] = v; return v; },
    getContext(k) { return need().contexts[k]; },
    hasContext(k) { return k in need().contexts; },
  };
  return { svelte, store: makeStore() };
}
function makeStore() {
  function writable(v, start) {
    const subs = new Set(); let stop = null;
    const set = (x) => { if (notEqual(v, x)) { v = x; for (const s of [...subs]) s(v); } };
    const update = (f) => set(f(v));
    return { set, update, subscribe(f) { subs.add(f); if (subs.size === 1 && start) stop = start(set, update) || null; f(v); return () => { subs.delete(f); if (!subs.size && stop) { stop(); stop = null; } }; } };
  }
  const readable = (v, start) => ({ subscribe: writable(v, start).subscribe });
  const get = (s) => { let v; const un = s.subscribe((x) => (v = x)); un(); return v; };
  function derived(stores, fn, init) {
    const single = !Array.isArray(stores), list = single ? [stores] : stores;
    return readable(init, (set, update) => {
      const vals = []; let ready = false;
      const sync = () => { if (!ready) return; const a = single ? vals[0] : vals; if (fn.length < 2) set(fn(a)); else fn(a, set, update); };
      const uns = list.map((s, i) => s.subscribe((v) => { vals[i] = v; sync(); }));
      ready = true; sync();
      return () => uns.forEach((u) => u());
    });
  }
  return { __esModule: true, writable, readable, derived, get, readonly: (s) => ({ subscribe: s.subscribe }) };
}
