// The repository's own wasm entry point, built for this machine (bin/build-gen), as processes
// that are asked synchronously, so that a run stays one repeatable execution.
import { spawn, execFileSync } from "node:child_process";
import fs from "node:fs";
import os from "node:os";
import path from "node:path";

const BIN = process.env.SIM_WEBGEN || path.join(path.dirname(path.dirname(new URL(import.meta.url).pathname)), "build", "webgen");
class Proc {
  constructor() { this.start(); }
  start() {
    const dir = fs.mkdtempSync(path.join(os.tmpdir(), "simgen.")), a = path.join(dir, "in"), b = path.join(dir, "out");
    execFileSync("mkfifo", [a, b]);
    this.p = spawn(BIN, [a, b], { stdio: ["ignore", "ignore", "inherit"], env: {}, detached: false });
    this.p.on("error", () => {});
    this.p.unref();
    this.w = fs.openSync(a, "w"); this.r = fs.openSync(b, "r");
    fs.rmSync(a); fs.rmSync(b); fs.rmdirSync(dir);
  }
  close() { for (const f of [this.w, this.r]) try { fs.closeSync(f); } catch {} }
  read(n) {
    const b = Buffer.alloc(n); let k = 0;
    while (k < n) { const m = fs.readSync(this.r, b, k, n - k, null); if (m === 0) return null; k += m; }
    return b;
  }
  tell(op) { try { fs.writeSync(this.w, Buffer.from([op, 0])); } catch (e) { if (e.code !== "EPIPE") throw e; } }
  ask(op, fields) {
    const parts = [Buffer.from([op, fields.length])];
    for (const f of fields) { const b = Buffer.from(f, "utf8"), n = Buffer.alloc(4); n.writeUInt32LE(b.length); parts.push(n, b); }
    const msg = Buffer.concat(parts);
    let h = null;
    try { for (let k = 0; k < msg.length; ) k += fs.writeSync(this.w, msg, k); h = this.read(5); } catch (e) { if (e.code !== "EPIPE") throw e; }
    const body = h && this.read(h.readUInt32LE(1));
    if (!body) { this.close(); this.start(); return { status: 3, text: "the generator's process ended" }; }
    return { status: h[0], text: body.toString("utf8") };
  }
}
// one for the page's calls, which follow each other as in a worker; one that forks for each call
let A = null, B = null;
const memo = new Map();
export const fresh = (op, fields) => {
  const k = JSON.stringify([op, fields]);
  if (!memo.has(k)) { if (memo.size > 5000) memo.clear(); memo.set(k, (B ??= new Proc()).ask(op, fields)); }
  return memo.get(k);
};
// a new worker loads a new instance of the module
export const restart = () => { if (A && A.session) { A.session = false; A.tell(3); } };
export const inHistory = (fields) => { A ??= new Proc(); const x = A.ask(0, fields); A.session = x.status !== 3; return x; };
