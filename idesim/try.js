const { load } = require("./bundle"); const { FocusRun } = require("./focus_scn"); const { Violation } = require("./sim");
(async () => {
  const b = load(); const prop = process.argv[2] || "C01", n = +(process.argv[3] || 300), s0 = +(process.argv[4] || 1);
  const counts = {}, first = {}, probes = {}; let t0 = Date.now(), ev = 0;
  for (let s = s0; s < s0 + n; s++) {
    const plan = FocusRun.genPlan(s, prop, "quick"); const run = new FocusRun(b, plan, process.env.TARGET || "all");
    try { await run.start(); await run.generate(); } catch (e) { if (!(e instanceof Violation)) { console.log("HARNESS", s, e.stack); process.exit(2); } const k = e.prop + " " + e.rule; counts[k] = (counts[k] || 0) + 1; if (!first[k]) first[k] = [s, e.detail, plan.steps.length]; }
    for (const k in run.probes) probes[k] = (probes[k] || 0) + run.probes[k]; ev += run.S.stats.events;
  }
  console.log(counts, probes, ev, "ms/run", (Date.now() - t0) / n); for (const k in first) console.log(k, first[k]);
})();
