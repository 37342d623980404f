// Components that use what the page uses, and what a rewrite of it could, against what Svelte does.
import { compileSvelte, toCommonJs } from "./compile.mjs";
import { makeSvelte } from "./runtime.mjs";
import { Document, Event_ } from "./dom.mjs";
import vm from "node:vm";
const drain = () => new Promise((r) => setImmediate(r));

function world(files) {
  const doc = new Document((f) => f()), errors = [], logs = [];
  const target = doc.createElement("div"); doc.body.appendChild(target);
  const sv = makeSvelte({ document: doc, window: doc, microtask: queueMicrotask, error: (e) => errors.push(e) });
  const cache = {};
  const load = (id) => {
    if (cache[id]) return cache[id].exports;
    const m = (cache[id] = { exports: {} });
    const code = toCommonJs(id.endsWith(".svelte") ? compileSvelte(files[id], id).code : files[id], id);
    vm.runInThisContext(`(function(module, exports, require, log){"use strict";${code}\n})`)(m, m.exports, (s) => (s === "svelte" ? sv.svelte : s === "svelte/store" ? sv.store : load(s.slice(2))), (x) => logs.push(x));
    return m.exports;
  };
  const mount = (id, props) => sv.svelte.mount(load(id).default, { target, props });
  return { doc, target, mount, logs, errors, text: () => target.textContent.replace(/\s+/g, " ").trim(), q: (s) => target.querySelector(s), all: (s) => target.querySelectorAll(s), fire: (e, t) => e.dispatchEvent(new Event_(t, { bubbles: true })) };
}
export async function test() {
  const bad = [];
  const eq = (what, got, want) => { if (JSON.stringify(got) !== JSON.stringify(want)) bad.push(`${what}: got ${JSON.stringify(got)}, want ${JSON.stringify(want)}`); };
  const t = async (name, files, f) => { try { const w = world(files); await f(w); if (w.errors.length) bad.push(`${name}: ${w.errors[0].stack}`); } catch (e) { bad.push(`${name}: ${e.stack}`); } };

  await t("reactive", { "A.svelte": `<script lang="ts">
    let a = 1; let b: number = 2; const log_ = (x: any) => log(x);
    $: sum = a + b;
    $: double = sum * 2;
    $: { log_("block " + a); }
    $: if (a > 3) log_("big");
    function inc() { a += 1; }
    const both = () => { a++; b++; a = a; };
    const same = () => { a = a; };
  </script>
  <button on:click={inc}>inc</button><button on:click={both}>both</button><button on:click={same}>same</button>
  <p>{a} {b} {sum} {double}</p>{#if a > 2}<b>yes</b>{:else if a > 1}<i>some</i>{:else}no{/if}` }, async (w) => {
    w.mount("A.svelte"); eq("init", w.text(), "incbothsame 1 2 3 6no"); eq("log", w.logs, ["block 1"]);
    w.doc.click(w.all("button")[0]); eq("not yet", w.q("p").textContent, "1 2 3 6"); await drain(); eq("after", w.q("p").textContent, "2 2 4 8"); eq("else if", w.q("i").textContent, "some");
    w.doc.click(w.all("button")[1]); await drain(); eq("both", w.q("p").textContent, "3 3 6 12"); eq("if", w.q("b").textContent, "yes");
    w.doc.click(w.all("button")[2]); await drain(); w.doc.click(w.all("button")[0]); await drain();
    eq("logs", w.logs, ["block 1", "block 2", "block 3", "block 4", "big"]);
  });
  await t("props and binds", {
    "P.svelte": `<script>import C from "./C.svelte"; let v = "x"; let n = 1; let sel = "b"; let chk = false; let list = ["p","q"]; let extra;
      const add = () => { list = [...list, "r"]; }; const push = () => { list.push("z"); list = list; };</script>
      <C id="in" bind:value={v} title={"t" + n} on:change={() => n++} on:ping={(e) => log(e.detail)}>
        <span slot="icon">I{v}</span> body {v} {#each list as item, i (item)}<em>{i}{item}</em>{:else}none{/each}</C>
      <select bind:value={sel}>{#each ["a","b","c"] as o}<option value={o}>{o.toUpperCase()}</option>{/each}</select>
      <input id="chk" type="checkbox" bind:checked={chk}><p>{v}|{n}|{sel}|{chk}</p><button on:click={add}>a</button><button on:click={push}>b</button>`,
    "C.svelte": `<script lang="ts">import { createEventDispatcher, onMount } from "svelte"; export let id: string; export let value: string = "def"; export let title = "none"; export let other = "fallback";
      const dispatch = createEventDispatcher(); onMount(() => { log("mounted"); }); let seen: string[] = []; $: seen = [...seen, title];
      $: value && dispatch("ping", value);</script>
      <input {id} type="text" bind:value on:change /><u>{title}-{other}-{seen.join(",")}</u>{#if $$slots.icon}<slot name="icon" />{/if}{#if $$slots.none}never{/if}<slot>fb</slot>`,
  }, async (w) => {
    w.mount("P.svelte"); const i = w.q("#in");
    eq("bound", i.value, "x"); eq("title", w.q("u").textContent, "t1-fallback-t1"); eq("slot", w.q("span").textContent, "Ix"); eq("select", w.q("select").value, "b");
    i.value = "hello"; w.fire(i, "input"); await drain();
    eq("up", w.q("p").textContent, "hello|1|b|false"); eq("slot up", w.q("span").textContent, "Ihello");
    w.fire(i, "change"); await drain(); eq("forwarded", w.q("u").textContent, "t2-fallback-t1,t2");
    const s = w.q("select"); s.value = "c"; w.fire(s, "change"); await drain(); w.doc.click(w.q("#chk")); await drain(); eq("p", w.q("p").textContent, "hello|2|c|true");
    w.doc.click(w.all("button")[0]); await drain(); w.doc.click(w.all("button")[1]); await drain(); eq("each", w.all("em").map((e) => e.textContent), ["0p", "1q", "2r", "3z"]);
    eq("logs", w.logs, ["x", "mounted", "hello"]); eq("same element", w.q("#in") === i, true);
  });
  await t("shadowing and destructuring", { "S.svelte": `<script>
    let x = 1, { a, b: [c] } = { a: 5, b: [6] }; let o = { n: 1 }; const k = { n: 1 };
    const p = Promise.resolve({ x: 41 });
    let got = ""; $: { p.then((x) => { got = x.x + ":" + c; }); }
    const f = (x) => { x = 9; return x; }; const g = () => { ({ a, b: [c] } = { a: 7, b: [8] }); o.n++; k.n = 5; };
    const sh = () => ({ x, a });
  </script><button on:click={g}>g</button><p>{f(2)} {x} {a} {c} {o.n} {k.n} {JSON.stringify(sh())} {[1, 2].map((x) => x * 10).join()}</p><q>{got}</q>{#await p}wait{:then { x }}<b>{x}</b>{/await}{@html "<i>raw</i>"}` }, async (w) => {
    w.mount("S.svelte"); eq("p", w.q("p").textContent, '9 1 5 6 1 1 {"x":1,"a":5} 10,20'); eq("await", w.q("b"), null);
    await drain(); eq("then", w.q("b").textContent, "41"); eq("got", w.q("q").textContent, "41:6");
    w.doc.click(w.q("button")); await drain(); eq("p2", w.q("p").textContent, '9 1 7 8 2 5 {"x":1,"a":7} 10,20'); eq("deps", w.q("q").textContent, "41:8");
  });
  await t("stores, key, const, snippet, this, spread", {
    "T.svelte": `<script>import { count, twice } from "./store.ts"; import D from "./D.svelte"; let el; let c; let n = 0; const rest = { title: "T", disabled: true };
      const focus = () => { log(el.tagName + c.hello()); $count = $count + 1; n = n + 1; };</script>
      <div bind:this={el} {...rest} class="a" class:on={n > 0}>{$count}/{$twice}</div><D bind:this={c} {...{ y: n }} z="1" />
      {#key n}<input id="k">{/key}{#each [1, 2] as v}{@const w = v * n}<s>{w}</s>{/each}
      {#snippet row(t)}<h2>{t}-{n}</h2>{/snippet}{@render row("r")}<button on:click|once={focus}>f</button>`,
    "D.svelte": `<script>export let y = 3; export function hello() { return "hi" + y; }</script><h3>{y}{$$restProps.z}{Object.keys($$props).join()}</h3>`,
    "store.ts": `import { writable, derived } from "svelte/store"; export const count = writable(1); export const twice = derived(count, (c: number) => c * 2);`,
  }, async (w) => {
    w.mount("T.svelte"); eq("div", w.q("div").textContent, "1/2"); eq("class", w.q("div").attrs.class, "a"); eq("attr", w.q("div").attrs.title, "T");
    const k = w.q("#k"); w.doc.click(w.q("button")); w.doc.click(w.q("button")); await drain();
    eq("log", w.logs, ["DIVhi0"]); eq("div2", w.q("div").textContent, "2/4"); eq("class2", w.q("div").attrs.class, "a on"); eq("key", w.q("#k") === k, false);
    eq("const", w.all("s").map((e) => e.textContent), ["1", "2"]); eq("snippet", w.q("h2").textContent, "r-1"); eq("h3", w.q("h3").textContent, "11y,z");
  });
  await t("tick and order", { "O.svelte": `<script>import { tick } from "svelte"; let a = 0; $: c = b + 1; $: b = a * 10; const go = async () => { a = 1; await tick(); log(document_()); a = 2; a = 3; }; const document_ = () => "c=" + c; $: log("run " + a);</script><button on:click={go}>g</button><p>{c}</p>` }, async (w) => {
    w.mount("O.svelte"); eq("ordered", w.q("p").textContent, "1"); w.doc.click(w.q("button")); await drain(); await drain(); eq("p", w.q("p").textContent, "31"); eq("log", w.logs, ["run 0", "run 1", "c=11", "run 3"]);
  });
  return bad;
}
