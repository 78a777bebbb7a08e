"use strict";
// C08: activation on machines in any state, with any step failing, user answers, and VS Code being
// killed at any event and started again on what is left on the machine.
const { ROOT } = require("./sim");
const { BaseRun } = require("./base");
const { Sim } = require("./sim");
const { keyed } = require("./rng");

class InstallRun extends BaseRun {
  static genPlan(seed, prop, tier) {
    const r = keyed(seed, "installplan");
    const st = r.weighted({ ok: 2, none: 3, notc: 1.5, old: 3, near: 1.5, torn: 1 });
    const faultRate = r.bool(0.25) ? 0 : [0.05, 0.15, 0.35][r.int(3)];
    const P = { scn: "install", seed, init: { st, variant: r.int(6), tc: r.bool(0.7), rustc: r.bool(0.93) }, cfg: { lifo: r.f(), faultRate }, procs: {}, net: {}, chmods: {}, dialogs: {}, saves: {}, steps: [] };
    for (let k = 0; k < 14; k++) {
      const q = keyed(seed, "ip", k), pl = {};
      if (q.bool(0.3)) pl.chunks = q.range(2, 4); if (q.bool(0.3)) { pl.warn = "info: syncing\n"; pl.echunks = q.range(1, 3); } if (q.bool(0.2)) pl.exitEarly = true;
      if (q.bool(faultRate)) { pl.kind = q.weighted({ exit: 4, signal: 1.5, spawnerr: 1.5 }); if (pl.kind === "spawnerr") pl.closeAfterError = q.bool(0.6); }
      if (Object.keys(pl).length) P.procs[k] = pl;
      if (k < 3 && q.bool(faultRate * 1.5)) P.net[k] = { kind: q.pick(["reset", "404", "short"]) };
      if (k < 6 && q.bool(faultRate * 0.6)) P.chmods[k] = 1;
      P.dialogs[k] = q.pick(["Show fix", "Show fix", "Dismiss", "Continue", "Report bug", null]);
      if (q.bool(0.5)) P.dialogs[k] = q.pick(["Continue", "Show fix"]);
    }
    if (r.bool(faultRate)) P.zip = r.pick(["fail0", "fail1"]);
    P.zipOrder = 0; // the release script puts cargo-flowistry first
    if (r.bool(0.35)) P.crashAt = r.range(1, 45);
    if (r.bool(0.1)) P.curlFails = true;
    return P;
  }
  near(v, k) { return [v + "0", v.slice(0, -1), "v" + v, v + "-beta", "0." + v, v.replace(/\d+$/, (x) => +x + 1)][k % 6]; }
  initTool() {
    const V = this.bundle.version, i = this.plan.init, T = this.S.tool;
    Object.assign(T, { toolchain: true, comps: new Set(this.bundle.components), bin: V, driver: V, exec: true, driverExec: true, rustc: i.rustc });
    switch (i.st) {
      case "none": T.bin = T.driver = null; T.exec = T.driverExec = false; T.toolchain = i.tc; break;
      case "notc": T.toolchain = false; break;
      case "old": T.bin = T.driver = "0.0." + i.variant; break;
      case "near": T.bin = T.driver = this.near(V, i.variant); break;
      case "torn": T.exec = false; T.driverExec = false; break;
    }
    if (!T.toolchain) T.comps = new Set();
  }
  install(S) {
    const eff = Object.getPrototypeOf(S).effect.bind(S), B = this.bundle;
    S.effect = (c) => {
      if (c.what === "rustup-toolchain") {
        if (!c.args.includes(B.channel)) { S.tool.otherToolchain = true; return { code: 0, out: "", err: "" }; }
        S.tool.toolchain = true; S.tool.comps = S.tool.comps || new Set(); c.args.forEach((a, i) => { if (a === "-c" || a === "--component") a = c.args[i + 1]; else if (a.startsWith("--component=")) a = a.slice(12); else return; for (const x of a.split(",")) S.tool.comps.add(x); });
        return { code: 0, out: "", err: "" };
      }
      if (c.what === "version" && S.tool.bin && S.tool.exec && S.tool.toolchain) return { code: 0, out: "" + S.tool.bin + "\n", err: "" };
      return eff(c);
    };
    S.disk.set(ROOT + "/Cargo.toml", "[package]\n"); S.disk.set(ROOT + "/src/main.rs", "fn f0() {\n  x0 = y0;\n}\n"); S.crate.add(ROOT + "/src/main.rs");
    const doc = S.mkDoc(ROOT + "/src/main.rs", S.disk.get(ROOT + "/src/main.rs"), "rust"); S.active = S.mkEditor(doc, 1); S.visible = [S.active];
  }
  async start() { this.initTool(); this.install(this.S); this.healthy = this.plan.init.st === "ok"; this.begin(this.S); await this.S.drainMicro(); }
  begin(S) {
    S.load(); const a = { done: false, t0: S.spawnLog.length }; this.a = a;
    a.startTool = { ...S.tool };
    let p; try { p = S.ext.activate(S.context); } catch (e) { a.done = true; a.err = String(e); return; }
    Promise.resolve(p).then(() => { a.done = true; }, (e) => { a.done = true; a.err = String(e && e.stack || e); });
  }
  judge(S, faultFree) {
    const a = this.a, B = this.bundle, T = S.tool;
    if (a.err) this.fail("C08", "activation-throws", "activation ended with an exception: " + a.err);
    if (!a.done) this.fail("C08", "activation-hangs", `nothing is pending and activation has not finished; last process: ${JSON.stringify((S.spawnLog.slice(-1)[0] || {}).what)}`);
    const names = [...S.commands.keys()].filter((c) => c.startsWith("flowistry.")), want = B.commands.slice().sort();
    const reg = names.length > 0;
    const w = S.spawnLog.map((r) => r.what), inst = w.includes("cargo-install"), tc = w.includes("rustup-toolchain"), dl = (S.netLog || []).length;
    if (reg) {
      const once = want.every((c) => S.regCount.get(c) === 1);
      if (!once || names.some((n) => S.regCount.get(n) !== 1)) this.fail("C08", "commands", `registered ${names.map((n) => n + "x" + S.regCount.get(n))}, the extension declares ${want}`);
      const good = T.toolchain && T.bin === B.version && T.driver === B.version && T.exec && T.driverExec;
      if (!good) this.fail("C08", "mismatched-in-use", `activated with cargo-flowistry ${T.bin}${T.exec ? "" : " (not executable)"}, flowistry-driver ${T.driver}${T.driverExec ? "" : " (not executable)"}, extension ${B.version}`);
      if (tc && !B.components.every((c) => T.comps.has(c))) this.fail("C08", "components", `installed toolchain components ${[...T.comps]}, needs ${B.components}`);
      this.probe("activated");
    } else {
      const told = S.messages.some((m) => m.sev === "error" || m.sev === "warn");
      if (!told) this.fail("C08", "silent-failure", `activation registered nothing and told the user nothing; processes: ${w}`);
      this.probe("not-activated");
      if (faultFree) this.fail("C08", "clean-install-fails", "no step failed, yet activation did not finish: " + JSON.stringify(S.messages));
    }
    if (S.bar() === "loading") this.fail("C08", "bar-loading", "activation is over and nothing is pending, the status bar still says loading");
    const st = a.startTool, matched = st.toolchain && st.bin === B.version && st.exec;
    const vrec = S.spawnLog.find((r) => r.what === "version");
    if (matched && vrec && vrec.ok && (inst || tc || dl || S.extracts)) this.fail("C08", "needless-install", `the installed version matches, yet it ran ${w} and ${dl} downloads`);
    if (inst || dl) {
      const i0 = w.indexOf("rustup-toolchain");
      if (i0 < 0 || (w.indexOf("cargo-install") >= 0 && w.indexOf("cargo-install") < i0)) this.fail("C08", "order", `installed without installing the toolchain first: ${w}`);
      for (const n of S.netLog || []) if (!n.url.includes("/v" + B.version + "/")) this.fail("C08", "download-version", "downloaded " + n.url);
      const ci = S.spawnLog.find((r) => r.what === "cargo-install");
      if (ci && T.bin && ci.ok && T.bin !== B.version) this.fail("C08", "source-version", `built from source: ${ci.args.join(" ")}`);
      if (ci && this.downloaded(S) && !this.zipFault(S)) this.fail("C08", "needless-build", "the prebuilt binaries were installed, yet it built from source");
      const declined = S.dialogs.find((d) => d.items.includes("Show fix") && d.answered !== "Show fix");
      if (declined) this.fail("C08", "declined-install", `the user declined (${declined.answered}), it installed all the same`);
      if (!ci && !reg && !(S.netLog || []).some((n) => n.ok !== false) && !this.downloaded(S)) this.fail("C08", "no-fallback", `the download failed and it did not build from source: ${w}`);
      if (ci) this.probe("built-from-source"); if (this.downloaded(S)) this.probe("downloaded");
    }
    // a mismatch must lead to an attempt to install, unless the user declined
    if (!matched && !inst && !dl && !tc) this.fail("C08", "no-install", `the installed version ${st.bin} does not match ${B.version}, yet nothing was installed: ${w}`);
    if (S.escaped.length || S.listenerErrors.length) this.fail("C08", "escaped", "exception escaped: " + [...S.escaped, ...S.listenerErrors][0]);
    void reg;
  }
  downloaded(S) { const T = S.tool; return (S.extracts || 0) > 0 && T.bin === this.bundle.version && T.driver === this.bundle.version && T.exec && T.driverExec && !this.zipFault(S); }
  zipFault(S) { return S.faults.extract_enospc || S.faults.extract_torn || S.faults.chmod_fails; }
  async apply(st) {
    const S = this.S;
    if (st.e) { if (S.tasks.has(st.e) && !this.crashed) { this.n = (this.n || 0) + 1; await S.step(() => S.runTask(st.e)); this.note(); } return; }
    if (st.crash) { if (!this.crashed) { this.crashed = true; S.fault("vscode_killed"); } return; }
    if (st.end) {
      if (!this.crashed) { await S.drain(); this.note(); this.judge(S, !Object.keys(S.faults).some((f) => !/split|exit_before|^net_|^extract_|^chmod_/.test(f))); /* building from source makes up for a failed download */ }
      // afterwards: VS Code starts again on what is left, with no more faults
      const S2 = new Sim(this.bundle, { seed: this.plan.seed }); S2.run = this; S2.tool = S.tool; S2.plan = { seed: this.plan.seed, zipOrder: this.plan.zipOrder, dialogs: {} };
      S2.tool.rustc = true;
      this.install(S2); this.S2 = S2; this.begin(S2); await S2.drainMicro(); await S2.drain();
      this.judge(S2, true); this.probe(this.crashed ? "restarted-after-kill" : "restarted");
      for (const k of ["events", "spawns"]) S.stats[k] += S2.stats[k];
      // a third start must find everything in place
      const S3 = new Sim(this.bundle, { seed: this.plan.seed }); S3.run = this; S3.tool = S2.tool; this.install(S3); this.begin(S3); await S3.drainMicro(); await S3.drain(); this.judge(S3, true);
    }
  }
  note() { const S = this.S, T = S.tool; this.states.add([T.toolchain, T.bin, T.exec, T.driver, T.driverExec, S.commands.size, S.dialogs.length, [...S.tasks.values()].map((t) => (t.meta.rec ? t.meta.rec.what : t.kind)).join()].join("/")); }
  async generate() {
    const S = this.S, P = this.plan, r = keyed(P.seed, "isteps");
    const go = async (st) => { P.steps.push(st); await this.apply(st); };
    for (let i = 0; i < 400; i++) {
      if (P.crashAt && i >= P.crashAt) { await go({ crash: 1 }); break; }
      const pend = S.enabled(); if (!pend.length) break;
      await go({ e: (r.bool(P.cfg.lifo) ? pend[pend.length - 1] : r.pick(pend)).id });
    }
    await go({ end: 1 });
  }
  async replay() { for (const st of this.plan.steps.slice()) await this.apply(st); if (!this.plan.steps.some((s) => s.end)) await this.apply({ end: 1 }); }
}
module.exports = { InstallRun };
