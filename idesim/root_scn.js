"use strict";
// C09: which directory the analyser runs in, for any directory layout and any order, latency and
// failure of the file-system lookups, and with the user switching editors while they are pending.
const { BaseRun } = require("./base");
const { keyed } = require("./rng");
const nodepath = require("path");

class RootRun extends BaseRun {
  static genPlan(seed, prop, tier) {
    const r = keyed(seed, "rootplan");
    const folder = r.pick(["/w", "/home/u/proj", "/a b/ü"]);
    const names = ["crates", "x", "src", "Cargo", "ui", "src-tauri", "deep"];
    const path = (d) => Array.from({ length: d }, () => r.pick(names));
    const files = []; const nf = r.range(1, 3);
    const base = path(r.range(0, 4));
    for (let i = 0; i < nf; i++) files.push(nodepath.join(folder, ...(r.bool(0.6) ? base.slice(0, r.int(base.length + 1)) : []), ...path(r.int(4)), r.pick(["main.rs", "lib.rs", "Cargo.toml", "n.txt"])));
    const dirs = new Set([folder]);
    for (const f of files) { let d = nodepath.dirname(f); while (d.startsWith(folder)) { dirs.add(d); d = nodepath.dirname(d); } }
    const p = r.pick([0.1, 0.3, 0.6]);
    const manifests = [...dirs].filter((d) => d !== folder && r.bool(p));
    if (r.bool(0.25)) manifests.push(folder);
    // decoys: manifests that are not on the path
    if (r.bool(0.3)) manifests.push(nodepath.dirname(folder)); if (r.bool(0.3)) manifests.push(folder + "-other"); if (r.bool(0.3)) manifests.push(folder + "/zz/decoy");
    const faults = {}; for (const d of dirs) if (!manifests.includes(d) && r.bool(0.15)) faults[d + "/Cargo.toml"] = r.pick(["stat_eio", "stat_eacces"]);
    return { scn: "root", seed, folder, files, manifests, faults, folders: r.weighted({ one: 10, two: 2, none: 1, empty: 1 }), active: r.bool(0.93) ? 0 : -1, cfg: { lifo: r.f(), switchP: r.bool(0.3) ? 0.2 : 0 }, procs: {}, saves: {}, dialogs: {}, steps: [] };
  }
  expectedFor(file) {
    const P = this.plan, has = (d) => P.manifests.includes(d);
    if (has(P.folder)) return P.folder;
    if (!file) return null;
    const comps = nodepath.relative(P.folder, file).split("/");
    for (let i = 1; i < comps.length; i++) { const d = nodepath.join(P.folder, ...comps.slice(0, i)); if (has(d)) return d; }
    return null;
  }
  async start() {
    const S = this.S, P = this.plan;
    const { Uri } = require("./sim");
    for (const m of P.manifests) S.disk.set(m + "/Cargo.toml", "[package]\n");
    for (const f of P.files) { if (!S.disk.has(f)) { if (f.endsWith("/Cargo.toml")) { if (!P.manifests.includes(nodepath.dirname(f))) P.manifests.push(nodepath.dirname(f)); S.disk.set(f, "[package]\n"); } else S.disk.set(f, "fn f0() {\n  x0 = y0;\n}\n"); } S.mkDoc(f, S.disk.get(f), f.endsWith(".rs") ? "rust" : "plaintext"); delete P.faults[f]; }
    for (const m of P.manifests) delete P.faults[m + "/Cargo.toml"];
    const mk = (p) => ({ uri: Uri.file(p), name: "w", index: 0 });
    S.folders = P.folders === "one" ? [mk(P.folder)] : P.folders === "two" ? [mk(P.folder), mk("/second")] : P.folders === "empty" ? [] : null;
    if (P.folders === "none") S.folders = null;
    if (P.folders === "two" ) S.disk.set("/second/Cargo.toml", "[package]\n");
    this.layout = JSON.stringify([P.folder, P.folders, P.files, P.manifests, P.faults]);
    S.statFault = (p) => P.faults[p];
    this.actives = new Set();
    if (P.active >= 0) { S.active = S.mkEditor(S.docs.get(P.files[0]), 1); S.visible = [S.active]; }
    this.seen();
    S.invariants.push(() => this.seen());
    S.load(); this.done = false;
    Promise.resolve(S.ext.activate(S.context)).then(() => { this.done = true; }, (e) => { this.done = true; this.err = String(e && e.stack || e); });
    await S.drainMicro();
  }
  seen() { this.actives.add(this.S.active ? this.S.active.document.fileName : ""); this.states.add([this.S.active ? 1 : 0, [...this.S.tasks.values()].filter((t) => t.kind === "f").length, this.S.spawnLog.length].join("/") + "/" + this.plan.manifests.length + "/" + this.plan.files[0].split("/").length); }
  judge() {
    const S = this.S, P = this.plan, folders = P.folders === "one" || P.folders === "two";
    const allowed = new Set(!folders ? [null] : [...this.actives].map((f) => this.expectedFor(f || null)));
    if (this.err) this.fail("C09", "activation-throws", this.err);
    if (!this.done) this.fail("C09", "hangs", "nothing is pending and activation has not finished");
    const runs = S.spawnLog.filter((r) => r.cmd && /cargo/.test(r.cmd) && r.c.what !== "cargo-install");
    const lay = () => `folder ${P.folder}, active file ${[...this.actives]}, manifests in ${P.manifests.join(" ")}`;
    const dirs = new Set(runs.map((r) => r.cwd));
    if (!runs.length) {
      if (!allowed.has(null)) this.fail("C09", "not-found", `no analyser was run; expected it in ${[...allowed]}; ${lay()}`);
      if (S.messages.length || S.commands.size || S.spawnLog.length) this.fail("C09", "not-quiet", `there is no Cargo project, yet: ${JSON.stringify(S.messages)} ${[...S.commands.keys()]} ${S.spawnLog.map((r) => r.what)}; ${lay()}`);
      this.probe("declined"); return;
    }
    if (dirs.size > 1) this.fail("C09", "several-dirs", `the analyser ran in ${[...dirs]}; ${lay()}`);
    for (const d of dirs) if (!allowed.has(d)) this.fail("C09", "wrong-dir", `the analyser ran in ${d}; expected ${[...allowed]}; ${lay()}`);
    for (const x of runs) if (x.what !== "version" && x.what !== "preload") this.probe(x.what);
    this.probe([...dirs][0] === P.folder ? "ran-in-folder" : "ran-in-subdirectory");
  }
  async apply(st) {
    const S = this.S;
    if (st.e) { if (S.tasks.has(st.e)) await S.step(() => S.runTask(st.e)); return; }
    if (st.sw !== undefined) { const f = this.plan.files[st.sw % this.plan.files.length]; S.fault("editor_switched_during_lookup"); await S.step(() => S.showInColumn(S.docs.get(f), 1)); return; }
    if (st.end) {
      await S.drain();
      // one use of the analyser, to see where it runs
      if (S.commands.has("flowistry.focus") && S.active && S.active.document.languageId === "rust") { await S.step(() => S.exec("focus")); await S.drain(); }
      this.judge();
    }
  }
  async generate() {
    const S = this.S, P = this.plan, r = keyed(P.seed, "rsteps");
    const go = async (st) => { P.steps.push(st); await this.apply(st); };
    for (let i = 0; i < 200; i++) {
      const pend = S.enabled(); if (!pend.length) break;
      if (r.bool(P.cfg.switchP) && P.files.length > 1 && S.enabled((t) => t.kind === "f").length) { await go({ sw: r.int(3) }); continue; }
      await go({ e: (r.bool(P.cfg.lifo) ? pend[pend.length - 1] : r.pick(pend)).id });
    }
    await go({ end: 1 });
  }
  async replay() { for (const st of this.plan.steps.slice()) await this.apply(st); if (!this.plan.steps.some((s) => s.end)) await this.apply({ end: 1 }); }
}
module.exports = { RootRun };
