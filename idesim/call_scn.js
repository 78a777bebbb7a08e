"use strict";
// C07: every analyser invocation yields exactly its result or a typed failure, however the process
// behaves and however its output is split, delayed and interleaved. Calls the extension's own entry
// point to the analyser when it is reachable, otherwise goes through the editor surface only.
const zlib = require("zlib"), util = require("util");
const { ROOT } = require("./sim");
const { BaseRun } = require("./base");
const { keyed } = require("./rng");

const genValue = (r, d = 0) => {
  switch (r.int(d > 3 ? 4 : 6)) {
    case 0: return r.int(1e9) - 5e8;
    case 1: return ["", "ünïcödé ≥ 漢字 🦀", "a\"b\\c\n\t", "x".repeat(r.int(300))][r.int(4)];
    case 2: return r.bool(); case 3: return null;
    case 4: return Array.from({ length: r.int(r.bool(0.1) ? 400 : 5) }, () => genValue(r, d + 1));
    default: { const o = {}; for (let i = r.int(5); i > 0; i--) o[["Err", "Ok", "type", "spans", "value", "k" + r.int(9)][r.int(6)]] = genValue(r, d + 1); return o; }
  }
};
const decode = (buf) => { try { const j = JSON.parse(zlib.gunzipSync(Buffer.from(buf.toString("utf8"), "base64")).toString("utf8")); return j && typeof j === "object" && ("Ok" in j || "Err" in j) ? { j } : null; } catch (e) { return null; } };

class CallRun extends BaseRun {
  async start() {
    const S = this.S, r = keyed(this.plan.seed, "callworld");
    for (const f of ["main.rs", "a.rs"]) { S.disk.set(ROOT + "/src/" + f, `fn f0() {\n  x0 = y0; // ${f} ${r.int(1e6)}\n}\n`); S.crate.add(ROOT + "/src/" + f); S.mkDoc(ROOT + "/src/" + f, S.disk.get(ROOT + "/src/" + f), "rust"); }
    S.disk.set(ROOT + "/Cargo.toml", "[package]\n");
    S.active = S.mkEditor(S.docs.get(ROOT + "/src/main.rs"), 1); S.visible = [S.active];
    await this.activateClean();
    this.calls = []; this.buildErrors = [];
    const eff = S.effect.bind(S);
    S.effect = (c) => {
      const call = this.calls.find((k) => k.marker && (c.rest || c.args || []).includes(k.marker));
      if (!call) return eff(c);
      S.fault("payload_" + call.payload.kind);
      return { code: 0, out: call.bytes, err: "" };
    };
    S.onSpawn.push((rec) => {
      const call = this.calls.find((k) => k.marker && rec.args.includes(k.marker));
      if (!call) return;
      call.recs.push(rec);
      if (call.recs.length > 1) this.failLater("C07", "spawned-twice", `one invocation started ${call.recs.length} processes`);
      if (call.editedSince || S.enabled((t) => t.kind === "s" && t.meta.doc === call.doc).length) return;
      if (call.doc && call.doc.isDirty) this.failLater("C07", "analyser-before-save", `the analyser was started on ${call.doc.fileName} while it had unsaved changes`);
      else if (call.doc && S.disk.get(call.doc.fileName) !== call.doc._text) this.failLater("C07", "analyser-before-save", "the analyser was started before the document reached the disk");
    });
  }
  static genPlan(seed, prop, tier) {
    const r = keyed(seed, "callplan");
    return { scn: "call", seed, cfg: { ncalls: r.range(1, tier === "thorough" ? 10 : 6), conc: r.bool(0.6), lifo: r.f(), startP: 0.1 + 0.4 * r.f() }, procs: {}, saves: {}, dialogs: {}, steps: [] };
  }
  get entry() { const g = this.S.ext && this.S.ext.globals; return g && typeof g.call_flowistry === "function" ? g.call_flowistry : null; }
  newCall(k, o) {
    const S = this.S, r = keyed(this.plan.seed, "call", k);
    const ed = S.active;
    if (ed && o.dirty) { for (const c of this.calls) if (c.doc === ed.document && !c.recs.length) c.editedSince = true; S.setText(ed.document, "// edit " + k + "\n" + ed.document._text, { dirty: true }); }
    const payload = o.payload;
    let v, bytes;
    const enc = (x) => zlib.gzipSync(Buffer.from(JSON.stringify(x)), { level: 6 }).toString("base64");
    switch (payload.kind) {
      case "ok": v = { Ok: genValue(r) }; bytes = enc(v); break;
      case "err": v = { Err: payload.err }; bytes = enc(v); break;
      case "newline": v = { Ok: genValue(r) }; bytes = enc(v) + "\n"; break;
      case "noise": bytes = "   Compiling x v0.1.0 (/ws)\n" + enc({ Ok: 1 }); break;
      case "jsonlit": bytes = enc(payload.lit); break;
    }
    const doc = ed && ed.document;
    const call = { k, marker: "arg-" + k + "-" + this.plan.seed, recs: [], payload, bytes, doc, noOut: !!o.noOut, settled: 0, startStep: S.stepNo };
    this.calls.push(call);
    const args = o.noOut ? ["preload", call.marker] : ["focus", ROOT + "/src/main.rs", call.marker];
    let p; try { p = this.entry(args, call.noOut); } catch (e) { this.fail("C07", "throws", "the invocation threw: " + e); return; }
    Promise.resolve(p).then((x) => { call.settled++; call.result = x; call.step = S.stepNo; }, (e) => { call.settled++; call.rejected = String(e && e.stack || e); });
  }
  judge(call) {
    const S = this.S, rec = call.recs[0];
    if (call.judged) return; call.judged = true;
    if (call.rejected !== undefined) return this.fail("C07", "rejected", `the invocation ended with an exception instead of a result: ${call.rejected} (${rec && rec.kind}, payload ${call.payload.kind})`);
    const x = call.result, d = () => JSON.stringify(x).slice(0, 300);
    if (!x || typeof x !== "object") return this.fail("C07", "no-result", "result is " + d());
    const isErr = x.type === "BuildError" || x.type === "AnalysisError" || x.type === "FileNotFound";
    if (!rec) { // could not be started: a failed save
      if (!call.saveFailed) return this.fail("C07", "not-started", "no process was started, yet the invocation ended with " + d());
      if (x.type !== "BuildError") this.fail("C07", "save-failure-lost", "the file could not be saved, the invocation ended with " + d());
      this.buildErrors.push(String(x.error)); this.probe("save-failure"); return;
    }
    if (!rec.done) return this.fail("C07", "early", `the invocation ended with ${d()} before its process did`);
    if (rec.kind === "spawnerr") { if (x.type !== "BuildError" || !String(x.error).includes("ENOENT")) this.fail("C07", "spawn-error", "process could not start; result " + d()); this.buildErrors.push(String(x.error)); this.probe("spawn-error"); return; }
    const o = rec.out;
    if (o.code !== 0) {
      if (x.type !== "BuildError") return this.fail("C07", "failure-hidden", `process ended with ${o.code === null ? o.signal : "status " + o.code}; result ${d()}`);
      if (String(x.error).trim() !== String(o.err).trim()) return this.fail("C07", "diagnostics", `build error is ${JSON.stringify(x.error)}, the process wrote ${JSON.stringify(o.err)}`);
      this.buildErrors.push(String(x.error)); this.probe(o.code === null ? "killed" : "nonzero"); return;
    }
    if (call.noOut) { if (isErr) this.fail("C07", "no-output-call", "successful call without output ended with " + d()); this.probe("no-output"); return; }
    const m = decode(Buffer.from(o.out));
    if (!m) { if (x.type !== "AnalysisError" || !x.error) this.fail("C07", "incomplete-accepted", `process exited with status 0 and ${JSON.stringify(o.out.slice(0, 60))} (${o.out.length} bytes, ${rec.kind}/${call.payload.kind}), no complete message; result ${d()}`); this.probe("incomplete"); return; }
    if ("Err" in m.j) { if (!util.isDeepStrictEqual(x, m.j.Err)) this.fail("C07", "typed-error", `the analyser sent ${JSON.stringify(m.j.Err)}; result ${d()}`); this.probe("typed-" + m.j.Err.type); return; }
    if (isErr || !util.isDeepStrictEqual(x.value, m.j.Ok)) this.fail("C07", "value", `the analyser sent ${JSON.stringify(m.j.Ok).slice(0, 200)}; result ${d()}`);
    this.probe("value");
    void S;
  }
  checkSettled() { for (const c of this.calls) if (c.settled) this.judge(c); }
  async apply(st) {
    const S = this.S;
    if (st.call) await S.step(() => this.newCall(st.k, st.call));
    else if (st.e) { if (!S.tasks.has(st.e)) return; const t = S.tasks.get(st.e), isFail = t.kind === "s" && t.actions[t.i][0] === "fail"; if (isFail) for (const c of this.calls) if (c.doc === t.meta.doc && !c.recs.length && !c.settled) c.saveFailed = true; await S.step(() => S.runTask(st.e)); }
    else if (st.end) {
      let n = 0;
      for (;;) { const e = S.enabled(); if (!e.length) break; if (++n > 3000) this.fail("C07", "livelock", "does not come to rest"); await this.apply({ e: e[0].id }); this.checkSettled(); }
      for (const c of this.calls) if (c.settled !== 1) this.fail("C07", "never-finishes", `nothing is pending, and the invocation has ended ${c.settled} times (process: ${c.recs.map((r) => r.kind)})`);
      if (this.buildErrors.length && S.commands.has("flowistry.last_error")) {
        await S.step(() => S.exec("last_error")); await S.drain();
        const pane = S.paneText();
        if (pane === null || !this.buildErrors.some((b) => pane.includes(b.trim()))) this.fail("C07", "last-error", `"last error" shows ${JSON.stringify(pane)}; build errors so far: ${JSON.stringify(this.buildErrors)}`);
        this.probe("last-error-checked");
      }
    }
    this.checkSettled();
    this.states.add([this.calls.length, this.calls.filter((c) => c.settled).length, [...S.tasks.values()].map((t) => t.kind + t.i).sort().join("")].join("/"));
  }
  async generate() {
    const S = this.S, P = this.plan, r = keyed(P.seed, "callsteps"), cfg = P.cfg;
    const go = async (st) => { P.steps.push(st); await this.apply(st); };
    if (!this.entry) { this.probe("entry-not-reachable"); return; }
    const seen = new Set();
    const fates = () => {
      for (let k = S.nextId.p; k < S.nextId.p + 12; k++) if (!seen.has(k)) {
        seen.add(k); const q = keyed(P.seed, "cpf", k), pl = {};
        if (q.bool(0.6)) pl.chunks = q.range(2, 12); if (q.bool(0.35)) { pl.warn = "warning: ünüsed 漢字\n"; pl.echunks = q.range(1, 9); } if (q.bool(0.3)) pl.exitEarly = true;
        if (q.bool(0.55)) { pl.kind = q.weighted({ exit: 4, signal: 2, spawnerr: 1.5, trunc: 3, garbage: 1, empty: 1.5, badgzip: 0.7, badjson: 0.7 }); pl.frac = q.f(); pl.partialOut = q.bool(0.4); if (pl.kind === "spawnerr") pl.closeAfterError = q.bool(0.7); if (pl.kind === "exit" || pl.kind === "signal") { pl.code = q.pick([1, 2, 101, 127, 255]); pl.err = q.pick(["", "error: ünïcödé ≥ 漢字 🦀 " + k, "error[E0308]: mismatched\n  --> src/main.rs:" + k + "\n"]); pl.echunks = q.range(1, 12); } }
        P.procs[k] = pl;
      }
      for (let k = S.nextId.s; k < S.nextId.s + 12; k++) if (!seen.has("s" + k)) { seen.add("s" + k); const q = keyed(P.seed, "csf", k); if (q.bool(0.15)) P.saves[k] = "format"; else if (q.bool(0.2)) P.saves[k] = q.bool(0.7) ? "fail" : "reject"; }
    };
    fates();
    let n = 0;
    for (let guard = 0; guard < 600; guard++) {
      const pend = S.enabled();
      if (n < cfg.ncalls && (!pend.length || (cfg.conc && r.bool(cfg.startP)))) {
        const kind = r.weighted({ ok: 6, err: 2, newline: 1, noise: 0.7, jsonlit: 0.5 });
        const payload = { kind };
        if (kind === "err") payload.err = r.pick([{ type: "FileNotFound" }, { type: "AnalysisError", error: "ünïcödé" }, { type: "BuildError" , error: "built badly" }]);
        if (kind === "jsonlit") payload.lit = r.pick(["Ok", [], {}, 5, null]);
        await go({ call: { payload, dirty: r.bool(0.4), noOut: r.bool(0.1) }, k: n++ }); fates(); continue;
      }
      if (!pend.length) break;
      await go({ e: (r.bool(cfg.lifo) ? pend[pend.length - 1] : r.pick(pend)).id });
    }
    await go({ end: 1 });
  }
  async replay() { if (!this.entry) return; for (const st of this.plan.steps.slice()) await this.apply(st); if (!this.plan.steps.some((s) => s.end)) await this.apply({ end: 1 }); }
}
module.exports = { CallRun };
