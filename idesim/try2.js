const { load } = require("./bundle"); const { Violation } = require("./sim");
(async () => {
  const b = load(); const [mod, cls, prop] = process.argv[2].split(":"); const K = require("./" + mod)[cls]; const n = +(process.argv[3] || 300), s0 = +(process.argv[4] || 1);
  const counts = {}, first = {}, probes = {}, faults = {}; let t0 = Date.now(), ev = 0;
  for (let s = s0; s < s0 + n; s++) {
    const plan = K.genPlan(s, prop, "quick"); const run = new K(b, plan, "all");
    try { await run.start(); await run.generate(); } catch (e) { if (!(e instanceof Violation)) { console.log("HARNESS", s, e.stack); process.exit(2); } const k = e.prop + " " + e.rule; counts[k] = (counts[k] || 0) + 1; if (!first[k]) first[k] = [s, e.detail, plan.steps.length, run.S.trace.slice(-40).join(" ")]; }
    for (const k in run.probes) probes[k] = (probes[k] || 0) + run.probes[k]; ev += run.S.stats.events; for (const k in run.S.faults) faults[k] = (faults[k] || 0) + run.S.faults[k];
  }
  console.log(counts, probes, faults, ev, "ms/run", (Date.now() - t0) / n); for (const k in first) console.log(k, first[k]);
})();
