"use strict";
// What every scenario shares: attribution of violations, probes, replay of a recorded plan.
const { Sim, Violation } = require("./sim");

class BaseRun {
  constructor(bundle, plan, target) {
    this.plan = plan; this.target = target; this.bundle = bundle;
    this.S = new Sim(bundle, plan); this.S.run = this;
    this.probes = {}; this.others = {}; this.states = new Set();
  }
  probe(k) { this.probes[k] = (this.probes[k] || 0) + 1; }
  // `props`: every listed property that this observation contradicts. A run is stopped by a
  // violation of the property under check only; anything else is counted and the run goes on.
  fail(props, rule, detail) {
    const ps = [].concat(props);
    if (this.target === "all" || ps.includes(this.target)) throw new Violation(this.target === "all" ? ps[0] : this.target, rule, detail);
    const k = ps[0] + "/" + rule; this.others[k] = (this.others[k] || 0) + 1;
  }
  // From inside a callback of the extension, whose handlers would swallow an exception.
  failLater(...a) { if (!this.late) { this.late = []; this.S.invariants.push(() => { const l = this.late; this.late = []; for (const x of l) this.fail(...x); }); } this.late.push(a); }
  // Activation on a healthy machine, before the run proper and with no fault.
  async activateClean() {
    const S = this.S;
    S.plan = { seed: this.plan.seed };
    S.load();
    let done = false;
    Promise.resolve(S.ext.activate(S.context)).then(() => { done = true; }, (e) => { S.escaped.push("activate: " + e); done = true; });
    await S.drainMicro();
    for (let i = 0; i < 300 && !done; i++) { const e = S.enabled(); if (!e.length) break; S.runTask(e[0].id); await S.drainMicro(); }
    if (!done || !S.commands.has("flowistry.focus")) throw new Violation(this.target === "all" ? "C08" : this.target, "clean-activation", "activation on a healthy system did not register the focus command, so nothing works: " + JSON.stringify(S.dialogs.map((d) => d.msg)) + S.escaped.join());
    S.nextId.p = 0; S.nextId.s = 0; S.nextId.d = 0; S.trace.length = 0; S.spawnLog.length = 0; S.clock = 0; S.stats = { events: 0, userOps: 0, spawns: 0 };
    S.plan = this.plan;
  }
}
module.exports = { BaseRun };
