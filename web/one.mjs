import { bundle } from "./compile.mjs"; import { makeScenario, run } from "./drive.mjs"; import { Rng } from "./sim.mjs";
process.on("unhandledRejection", () => {});
const [prop, from, n] = [process.argv[2], +process.argv[3] || 0, +process.argv[4] || 1];
const b = bundle(process.env.REPO_WEB || "/repo/json_typegen_web"); const t = Date.now(); const stats = {}; let bad = {}, nb = 0;
for (let i = from; i < from + n; i++) {
  const sc = makeScenario(prop, new Rng(i * 7919 + 13)); const r = await run(b, sc, i * 31 + 7);
  for (const [k, v] of Object.entries(r.stats)) stats[k] = (stats[k] || 0) + v;
  if (r.violation) { nb++; const k = r.violation.what.replace(/[\d"]+/g, "#").slice(0, 90); (bad[k] ||= []).push(i); if (n === 1) { console.log(r.violation, r.errors, r.log); console.log(JSON.stringify(sc.actions.slice(0, r.violation.action + 1), null, 0)); console.log(r.traceLines.join("\n")); } }
}
for (const [k, v] of Object.entries(bad)) console.log(v.length, k, v.slice(0, 4).join(","));
console.log(nb, "of", n, "violate;", Date.now() - t, "ms"); if (process.env.STATS) console.log(stats);
