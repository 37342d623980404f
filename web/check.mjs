// node check.mjs run --prop C19 --tier quick --seed 1 [--runs N] [--seconds S] [--jobs J]
// node check.mjs replay FILE
// node check.mjs selftest
import { fork } from "node:child_process";
import fs from "node:fs";
import os from "node:os";
import path from "node:path";
import { fileURLToPath } from "node:url";
import { bundle } from "./compile.mjs";
import { makeScenario, run } from "./drive.mjs";
import { Rng } from "./sim.mjs";

const here = path.dirname(fileURLToPath(import.meta.url)), verif = path.dirname(here);
const repo = process.env.SIM_REPO || "/repo", webRoot = path.join(repo, "json_typegen_web");
process.on("unhandledRejection", () => {});
const LIMIT_MS = 60_000;
const seedOf = (master, prop, i) => new Rng(BigInt(master) * 1_000_003n + BigInt(i) * 7919n + BigInt(parseInt(prop.slice(1), 10)) * 104_729n).next() & 0x7fffffffffffffffn;
const scenarioOf = (prop, seed) => makeScenario(prop, new Rng(seed));

// ------------------------------------------------------------ child
if (process.argv[2] === "child") {
  let b = null;
  process.on("message", async (m) => {
    if (m.bundle) { b = JSON.parse(fs.readFileSync(m.bundle, "utf8")); process.send({ ready: true }); return; }
    const seed = BigInt(m.seed), sc = m.sc || scenarioOf(m.prop, seed);
    try {
      const r = await run(b, sc, seed, m.tape);
      process.send({ i: m.i, seed: m.seed, r: { ...r, traceLines: m.full || r.violation ? r.traceLines : undefined, taken: m.full || r.violation ? r.taken : undefined }, sc: m.want || r.violation ? sc : undefined });
    } catch (e) { process.send({ i: m.i, seed: m.seed, trouble: String((e && e.stack) || e) }); }
  });
  process.on("disconnect", () => process.exit(0));
}

class Lane {
  constructor(bundleFile) { this.file = bundleFile; this.start(); }
  start() {
    this.p = fork(fileURLToPath(import.meta.url), ["child"], { stdio: ["ignore", "ignore", "inherit", "ipc"], execArgv: ["--max-old-space-size=2000"] });
    this.p.on("message", (m) => { const w = this.wait; this.wait = null; w && w(m); });
    this.p.on("exit", () => { const w = this.wait; this.wait = null; this.deadAlready = true; w && w({ died: true }); });
    this.deadAlready = false;
    this.ready = this.ask({ bundle: this.file });
  }
  ask(m) {
    if (this.deadAlready) return Promise.resolve({ died: true });
    return new Promise((res) => {
      const t = setTimeout(() => { this.hung = true; this.p.kill("SIGKILL"); }, LIMIT_MS);
      this.wait = (x) => { clearTimeout(t); res(x); };
      this.p.send(m);
    });
  }
  async job(m) {
    await this.ready;
    let x = await this.ask(m);
    if (x.died) {
      const hung = this.hung; this.hung = false;
      this.start(); await this.ready;
      if (!hung) return { i: m.i, seed: m.seed, trouble: "the worker process died" };
      const sc = m.sc || scenarioOf(m.prop, BigInt(m.seed));
      return { i: m.i, seed: m.seed, sc, r: { violation: { prop: sc.prop, what: `the page does not stop computing (${LIMIT_MS / 1000} s of real time)`, action: 0, step: 0 }, stats: {}, taken: m.tape || [], trace: "hang", traceLines: [], steps: 0, simMs: 0, errors: [], log: [], checks: 0 } };
    }
    return x;
  }
  stop() { this.p.removeAllListeners("exit"); this.p.kill("SIGKILL"); }
}

function args(a) { const o = {}; for (let i = 0; i < a.length; i++) if (a[i].startsWith("--")) o[a[i].slice(2)] = a[++i]; return o; }
function prepare() {
  let b;
  try { b = bundle(webRoot); } catch (e) { console.error("the page could not be compiled: " + ((e && e.stack) || e)); return null; }
  const dir = fs.mkdtempSync(path.join(os.tmpdir(), "simweb."));
  const f = path.join(dir, "bundle.json"); fs.writeFileSync(f, JSON.stringify(b));
  return { f, done: () => { fs.rmSync(f, { force: true }); fs.rmdirSync(dir); }, modules: Object.keys(b.mods) };
}
function knowns(prop) {
  const f = path.join(verif, "known-findings.jsonl"); if (!fs.existsSync(f)) return [];
  return fs.readFileSync(f, "utf8").split("\n").filter((l) => l.trim()).map((l) => JSON.parse(l)).filter((k) => k.status === "open" && k.property === prop && k.kind === "web");
}
async function main() {
  const cmd = process.argv[2];
  if (cmd === "selftest") return selftest();
  const pre = prepare(); if (!pre) return 2;
  const lanes = [];
  try {
    if (cmd === "replay") {
      const rp = JSON.parse(fs.readFileSync(process.argv[3], "utf8"));
      const l = new Lane(pre.f); lanes.push(l);
      const x = await l.job({ i: 0, seed: rp.seed, prop: rp.property, sc: rp.scenario, tape: rp.schedule, full: true });
      if (x.trouble) { console.error(x.trouble); return 2; }
      console.log(`user actions: ${rp.scenario.actions.length}, schedule: ${rp.schedule.length} choices`);
      for (const t of x.r.traceLines) console.log("  " + t);
      if (!x.r.violation) { console.log("no violation"); return 0; }
      console.log(`after action ${x.r.violation.action}, event ${x.r.violation.step}: ${x.r.violation.what}`);
      const same = x.r.violation.what === rp.what && x.r.trace === rp.trace;
      console.log(same ? "exactly as recorded" : "not exactly as recorded (the code differs, or the recording was edited)");
      console.log(`VIOLATION property=${x.r.violation.prop} replay=${process.argv[3]}`);
      return 1;
    }
    if (cmd !== "run") { console.error("usage: check.mjs run|replay|selftest"); return 2; }
    const o = args(process.argv.slice(3));
    const prop = o.prop, tier = o.tier || "quick", master = parseInt(o.seed || process.env.VERIF_SEED || "1", 10) || 1;
    const maxRuns = +(o.runs || (tier === "thorough" ? 2_000_000 : 12_000)), seconds = +(o.seconds || (tier === "thorough" ? 700 : 40));
    const jobs = +(o.jobs || Math.max(2, Math.min(8, os.cpus().length)));
    const t0 = Date.now();
    for (let j = 0; j < jobs; j++) lanes.push(new Lane(pre.f));
    let next = 0, stop = false;
    const tot = { runs: 0, events: 0, simMs: 0, checks: 0, stats: {}, runsWith: {}, traces: new Set(), nontrivial: new Set(), samples: [], firsts: [], trouble: [] };
    let found = null; const known = new Map(), kn = knowns(prop);
    await Promise.all(lanes.map(async (l) => {
      while (!stop && next < maxRuns && Date.now() - t0 < seconds * 1000) {
        const i = next++, seed = seedOf(master, prop, i);
        const x = await l.job({ i, seed: String(seed), prop, want: i < 3 });
        if (x.trouble) { tot.trouble.push(`seed ${seed}: ${x.trouble}`); if (tot.trouble.length > 20) stop = true; continue; }
        const r = x.r;
        tot.runs++; tot.events += r.steps; tot.simMs += r.simMs; tot.checks += r.checks;
        for (const [k, v] of Object.entries(r.stats)) { tot.stats[k] = (tot.stats[k] || 0) + v; tot.runsWith[k] = (tot.runsWith[k] || 0) + 1; }
        tot.traces.add(r.trace);
        if (Object.keys(r.stats).some((k) => k.startsWith("fault_") || k === "event_overtook_older" || k === "user_action_while_busy")) tot.nontrivial.add(r.trace);
        if (i < 3) tot.samples.push({ seed: String(seed), scenario: abridge(x.sc), trace: r.trace, simulated_ms: r.simMs });
        if (i < 16) tot.firsts.push([i, String(seed), r.trace]);
        if (r.violation) {
          const k = kn.find((y) => r.violation.what.includes(y.contains));
          if (k) { known.set(k.what, (known.get(k.what) || 0) + 1); continue; }
          if (!found || i < found.i) found = { i, seed: String(seed), sc: x.sc, r };
          stop = true;
        }
      }
    }));
    const searchS = (Date.now() - t0) / 1000;
    // the same seeds once more, in fresh processes
    let again = 0, differed = 0;
    if (!found) {
      const l = new Lane(pre.f); lanes.push(l);
      for (const [i, seed, trace] of tot.firsts) { const x = await l.job({ i, seed, prop }); again++; if (!x.r || x.r.trace !== trace) { differed++; console.error(`note: seed ${seed} did not repeat`); } }
    }
    for (const [w, n] of known) console.log(`KNOWN-FINDING: property=${prop} ${w} (${n} runs)`);
    let replay = null;
    if (found) {
      const l = new Lane(pre.f); lanes.push(l);
      // exactly repeatable from its recorded schedule?
      const exact = await l.job({ i: 0, seed: found.seed, prop, sc: found.sc, tape: found.r.taken, full: true });
      if (!exact.r || !exact.r.violation) { console.error(`harness trouble: seed ${found.seed} (${found.r.violation.what}) did not happen again`); return 2; }
      console.log(`run ${found.i} (seed ${found.seed}): ${found.r.violation.what}`);
      const min = await minimise(l, prop, found, exact);
      replay = path.join(verif, "replays", `${prop}-${found.seed}.json`);
      fs.mkdirSync(path.dirname(replay), { recursive: true });
      fs.writeFileSync(replay, JSON.stringify({ kind: "web", property: prop, tier, master_seed: master, run: found.i, seed: found.seed, what: min.r.violation.what, trace: min.r.trace, scenario: min.sc, schedule: min.tape, events: min.r.traceLines }, null, 1) + "\n");
      console.log(`minimised to ${min.sc.actions.length} user actions and ${min.tape.length} scheduling choices: ${min.r.violation.what}`);
    }
    const wall = (Date.now() - t0) / 1000;
    const pickStats = (f) => Object.fromEntries(Object.entries(tot.stats).filter(([k]) => f(k)).sort().map(([k, v]) => [k.replace(/^fault_/, ""), { times: v, runs: tot.runsWith[k] }]));
    const ev = {
      property: prop, tier, seed: master, level: "exploration",
      coverage: {
        evaluations: tot.runs, distinct_nontrivial: tot.nontrivial.size,
        rule: "a run is a generated list of user actions and faults on the page plus a schedule of every queued event; non-trivial if a fault fired, a user acted while events were pending, or an event overtook an older one; distinct by the hash of the sequence of user actions and events",
        samples: tot.samples, idle_states_checked: tot.checks, events: tot.events,
        runs_per_hour: Math.round((tot.runs / searchS) * 3600), seeds_per_hour: Math.round((tot.runs / searchS) * 3600), simulated_seconds: tot.simMs / 1000,
        faults_injected: pickStats((k) => k.startsWith("fault_")), probes: pickStats((k) => !k.startsWith("fault_")),
        distinct_traces: tot.traces.size, interleaving_measure: "distinct hashes of the whole sequence of user actions and delivered events",
        determinism: { seeds_run_twice_in_separate_processes: again, traces_that_differed: differed },
        real_components: `every module of json_typegen_web/src reachable from the page and its worker (${pre.modules.length} modules), Svelte components compiled by web/compile.mjs` + (prop === "C25" ? "; json_typegen_wasm and json_typegen_shared, built for this machine instead of wasm32" : ""),
        simulated_components: "Svelte's run time (web/runtime.mjs), the document, Worker queues, FileReader, localStorage, object URLs, clipboard, timers, the shiki highlighter" + (prop === "C25" ? "" : " and the wasm generator (an injective stand-in that can throw)"),
        runs_lost_to_harness_trouble: tot.trouble.length,
      },
      assumptions: ["the Svelte subset compiled here behaves as Svelte 5 does in legacy mode", "messages between page and worker are delivered in order and not lost, as the platform promises", "a clean batch is evidence from sampled schedules and faults, not proof"],
      wall_s: wall, violations: found ? 1 : 0,
    };
    fs.mkdirSync(path.join(verif, "evidence"), { recursive: true });
    fs.writeFileSync(path.join(verif, "evidence", `${prop}.json`), JSON.stringify(ev, null, 1) + "\n");
    console.log(`${prop}: ${tot.runs} runs, ${tot.events} events, ${tot.checks} idle states checked, ${tot.traces.size} distinct traces, ${(tot.simMs / 1000).toFixed(0)} simulated s, ${wall.toFixed(1)} s wall`);
    if (replay) { console.log(`VIOLATION property=${prop} replay=${replay}`); return 1; }
    if (tot.trouble.length) { console.error("harness trouble: " + tot.trouble.slice(0, 3).join("\n")); if (tot.trouble.length * 50 > tot.runs) return 2; }
    if (!tot.runs) { console.error("nothing was run"); return 2; }
    return 0;
  } finally { lanes.forEach((l) => l.stop()); pre.done(); }
}
function abridge(sc) { return JSON.parse(JSON.stringify(sc, (k, v) => (typeof v === "string" && v.length > 300 ? v.slice(0, 300) + `... (${v.length} characters)` : v))); }

async function minimise(l, prop, found, exact) {
  let best = { sc: found.sc, tape: found.r.taken, r: exact.r };
  const t0 = Date.now(); let n = 0;
  const attempt = async (sc, tape) => {
    if (Date.now() - t0 > 45_000 || n > 600) return false;
    n++;
    const x = await l.job({ i: 0, seed: found.seed, prop, sc, tape, full: true });
    if (x.r && x.r.violation && x.r.trace !== "hang") { best = { sc, tape, r: x.r }; return true; }
    return false;
  };
  if (exact.r.trace === "hang") return best;
  await attempt({ ...best.sc, actions: best.sc.actions.slice(0, best.r.violation.action + 1) }, best.tape);
  for (let round = 0; round < 3; round++) {
    const before = best.sc.actions.length + best.tape.length;
    for (let size = Math.max(1, best.sc.actions.length >> 1); size >= 1; size >>= 1)
      for (let i = best.sc.actions.length - size; i >= 0; i -= size) {
        const actions = [...best.sc.actions]; actions.splice(i, size);
        let k = -1, u = 0; const tape = best.tape.filter((t) => t !== "user" || (u++, u - 1 < i || u - 1 >= i + size));
        (await attempt({ ...best.sc, actions }, tape)) || (await attempt({ ...best.sc, actions }, best.tape));
      }
    await attempt(best.sc, []);
    for (let size = Math.max(1, best.tape.length >> 1); size >= 1; size >>= 1)
      for (let i = best.tape.length - size; i >= 0; i -= size) { const tape = [...best.tape]; tape.splice(i, size); await attempt(best.sc, tape); }
    for (let i = 0; i < best.sc.actions.length; i++) {
      const a = best.sc.actions[i], put = (b) => { const actions = [...best.sc.actions]; actions[i] = b; return attempt({ ...best.sc, actions }, best.tape); };
      if (a.a === "type" && a.keys) await put({ ...a, keys: false });
      if (a.a === "file" && a.f.fail) await put({ ...a, f: { ...a.f, fail: false } });
      if (a.a === "type" && a.id === "input" && a.v.length > 8) await put({ ...a, v: '{"v":1}' });
    }
    for (const k of ["stored", "storage", "finalReload"]) if (best.sc[k]) { const sc = { ...best.sc }; delete sc[k]; await attempt(sc, best.tape); }
    if (best.sc.actions.length + best.tape.length === before) break;
  }
  return best;
}

async function selftest() {
  // 1. the compiler and run time on components that use what the page does, and more
  const { test } = await import("./selftest.mjs");
  const bad = await test();
  for (const b of bad) console.error("selftest: " + b);
  if (bad.length) return 2;
  // 2. the same seed twice gives the same trace
  const b = bundle(webRoot);
  for (const prop of ["C19", "C20", "C21", "C22", "C23", "C24", "C26", "C27", "C28", ...(fs.existsSync(path.join(verif, "build", "webgen")) ? ["C25"] : [])]) for (let i = 0; i < 5; i++) {
    const seed = seedOf(1, prop, i), sc = scenarioOf(prop, seed), x = await run(b, sc, seed), y = await run(b, sc, seed), z = await run(b, sc, seed, x.taken);
    if (x.trace !== y.trace || x.trace !== z.trace) { console.error(`selftest: ${prop} run ${i} does not repeat`); return 2; }
  }
  console.log("selftest passed");
  return 0;
}

if (process.argv[2] !== "child") main().then((c) => process.exit(c), (e) => { console.error(e); process.exit(2); });
