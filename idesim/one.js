// node one.js PROP SEED: run one seed and print the tail of its trace (debugging aid)
const { load } = require("./bundle"); const { FocusRun } = require("./focus_scn");
(async () => { const b = load(); const plan = FocusRun.genPlan(+process.argv[3], process.argv[2], "quick"); const run = new FocusRun(b, plan, process.env.TARGET || "all");
  let e = null; try { await run.start(); await run.generate(); } catch (x) { e = x; }
  const n = +(process.argv[4] || 40);
  console.log(run.S.trace.slice(-n).join(" ")); console.log(JSON.stringify(plan.steps.slice(-8))); console.log(run.S.spawnLog.slice(-6).map((r) => JSON.stringify({ ord: r.ord, step: r.step, what: r.what, kind: r.kind, ok: r.ok, done: r.done, args: r.args && r.args.slice(2) })).join("\n")); console.log(JSON.stringify(plan.procs)); console.log(JSON.stringify(run.S.messages.slice(-3))); console.log("pane", run.S.paneText(), run.S.bar(), run.on); console.log(run.S.escaped.slice(-2), run.S.listenerErrors.slice(-2)); console.log(e && (e.rule ? e.message : e.stack)); })();
