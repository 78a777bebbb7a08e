"use strict";
// node run.js --property C01 [--tier quick|thorough] [--seed N] [--runs N] [--seconds N] [--workers N]
// node run.js --replay FILE [--trace]
const fs = require("fs"), path = require("path"), cp = require("child_process"), os = require("os");
const { load, REPO } = require("./bundle");
const { Violation } = require("./sim");
const { hash } = require("./rng");
const { FocusRun } = require("./focus_scn"), { CallRun } = require("./call_scn"), { InstallRun } = require("./install_scn"), { RootRun } = require("./root_scn");
const VERIF = path.resolve(__dirname, "..");
const SCN = { focus: FocusRun, call: CallRun, install: InstallRun, root: RootRun };
const PROPS = { C01: ["focus"], C02: ["focus"], C03: ["focus"], C04: ["focus"], C05: ["focus"], C06: ["focus"], C10: ["focus"], C07: ["call", "call", "call", "focus"], C08: ["install"], C09: ["root"] };
const QUICK = { focus: 36000, call: 48000, install: 48000, root: 90000 };

const makePlan = (prop, i, base, tier) => { const l = PROPS[prop], scn = l[i % l.length]; const p = SCN[scn].genPlan(base + i, prop, tier); p.scn = scn; return p; };
// Runs a plan; returns {run, violation|null}. Anything but a violation propagates.
const exec = async (bundle, plan, prop, mode) => {
  const run = new SCN[plan.scn](bundle, plan, prop);
  try { await run.start(); await run[mode](); return { run, v: null }; } catch (e) { if (!(e instanceof Violation)) throw e; return { run, v: { prop: e.prop, rule: e.rule, detail: e.detail } }; }
};
const fingerprint = (run, v) => hash(run.S.trace.join(" ") + "|" + run.S.paints + "|" + JSON.stringify(run.S.messages) + "|" + (v ? v.rule + v.detail : ""));
const addTo = (o, x) => { for (const k in x) o[k] = (o[k] || 0) + x[k]; };

const batch = async (bundle, prop, tier, base, from, n) => {
  const R = { from, n, faults: {}, faultRuns: {}, probes: {}, others: {}, events: 0, userOps: 0, spawns: 0, simMs: 0, nontrivial: 0, fps: [], states: [], inter: [], v: [], samples: [] };
  const states = new Set();
  for (let i = from; i < from + n; i++) {
    const plan = makePlan(prop, i, base, tier);
    const { run, v } = await exec(bundle, plan, prop, "generate");
    const S = run.S;
    addTo(R.faults, S.faults); for (const k in S.faults) R.faultRuns[k] = (R.faultRuns[k] || 0) + 1;
    addTo(R.probes, run.probes); addTo(R.others, run.others);
    R.events += S.stats.events; R.userOps += S.stats.userOps; R.spawns += S.stats.spawns; R.simMs += S.clock;
    if (S.stats.events >= 5 && Object.keys(run.probes).length) { R.nontrivial++; R.inter.push(hash((run.layout || "") + S.trace.join(" "))); }
    for (const s of run.states) states.add(hash(s));
    R.fps.push(fingerprint(run, v));
    if (v) R.v.push({ i, v, plan });
    if (R.samples.length < 1 && S.stats.events >= 5) R.samples.push({ run: i, seed: plan.seed, scenario: plan.scn, trace: S.trace.slice(0, 30).join(" ") + (S.trace.length > 30 ? ` ... (${S.trace.length} events)` : ""), faults: S.faults });
  }
  R.states = [...states];
  return R;
};

const minimise = async (bundle, prop, plan, v, budgetMs) => {
  const t0 = Date.now(); let cur = JSON.parse(JSON.stringify(plan)), best = v, tried = 0;
  const test = async (p) => { if (Date.now() - t0 > budgetMs) return false; tried++; try { const r = await exec(bundle, JSON.parse(JSON.stringify(p)), prop, "replay"); if (r.v && r.v.rule === v.rule) { best = r.v; return true; } } catch (e) { /* not a candidate */ } return false; };
  if (!(await test(cur))) return { plan: cur, v, tried, reproduced: false };
  for (let round = 0; round < 4; round++) {
    let changed = false;
    for (let size = Math.max(1, cur.steps.length >> 1); size >= 1; size >>= 1) {
      for (let i = cur.steps.length - size; i >= 0; i -= size) { const p = { ...cur, steps: cur.steps.slice(0, i).concat(cur.steps.slice(i + size)) }; if (await test(p)) { cur = p; changed = true; } }
    }
    for (const m of ["procs", "saves", "dialogs", "net", "chmods", "faults"]) for (const k of Object.keys(cur[m] || {})) { const q = { ...cur[m] }; delete q[k]; const p = { ...cur, [m]: q }; if (await test(p)) { cur = p; changed = true; } }
    for (const k of Object.keys(cur.procs || {})) for (const f of Object.keys(cur.procs[k])) if (f !== "kind") { const q = { ...cur.procs[k] }; delete q[f]; const p = { ...cur, procs: { ...cur.procs, [k]: q } }; if (await test(p)) { cur = p; changed = true; } }
    for (const f of ["zip", "crashAt", "curlFails"]) if (f in cur) { const p = { ...cur }; delete p[f]; if (await test(p)) { cur = p; changed = true; } }
    if (!changed) break;
  }
  return { plan: cur, v: best, tried, reproduced: true };
};

const replayFile = async (file, trace) => {
  const d = JSON.parse(fs.readFileSync(file, "utf8"));
  const r = await exec(load(), d.plan, d.property, "replay");
  if (trace || !r.v) console.log(r.run.S.trace.join("\n"));
  if (r.v) { console.log(`${r.v.prop} ${r.v.rule}: ${r.v.detail}`); console.log("fingerprint " + fingerprint(r.run, r.v)); return r.v.rule === d.rule ? 1 : 3; }
  console.log("no violation"); return 0;
};

const main = async () => {
  const A = {}; const av = process.argv.slice(2); for (let i = 0; i < av.length; i++) if (av[i].startsWith("--")) A[av[i].slice(2)] = av[i + 1] && !av[i + 1].startsWith("--") ? av[++i] : true;
  if (A.replay) { process.exitCode = await replayFile(A.replay, A.trace); return; }
  const prop = A.property, tier = A.tier || process.env.VERIF_TIER || "quick", seed = +(A.seed || process.env.VERIF_SEED || 1);
  if (!PROPS[prop]) throw new Error("unknown property " + prop);
  const t0 = Date.now(), base = (seed % 2000) * 1000000;
  const q = Math.max(...PROPS[prop].map((s) => QUICK[s]));
  const total = +(A.runs || (tier === "thorough" ? q * 40 : q)), limit = +(A.seconds || (tier === "thorough" ? 3000 : 300)) * 1000;
  const W = +(A.workers || Math.max(1, Math.min(8, os.cpus().length)));
  console.log(`${prop}: seed ${seed}, tier ${tier}, up to ${total} runs, ${W} processes, code under test ${REPO}/ide`);
  const bundle = load();
  const agg = { faults: {}, faultRuns: {}, probes: {}, others: {}, events: 0, userOps: 0, spawns: 0, simMs: 0, nontrivial: 0, runs: 0 };
  const states = new Set(), inter = new Set(), fps = new Map(), viols = [], samples = []; const bsz = 50;
  let next = 0, harness = null;
  await new Promise((done) => {
    let live = 0;
    for (let w = 0; w < W; w++) {
      const ch = cp.fork(__filename, ["--worker"], { stdio: ["ignore", "inherit", "inherit", "ipc"] }); live++;
      const give = () => { if (next >= total || Date.now() - t0 > limit || viols.length || harness) ch.send({ stop: 1 }); else { const from = next; next += bsz; ch.send({ prop, tier, base, from, n: Math.min(bsz, total - from) }); } };
      ch.on("message", (R) => {
        if (R.error) { harness = R.error; give(); return; }
        if (R.ready) { give(); return; }
        for (const k of ["faults", "faultRuns", "probes", "others"]) addTo(agg[k], R[k]);
        for (const k of ["events", "userOps", "spawns", "simMs", "nontrivial"]) agg[k] += R[k];
        agg.runs += R.n; for (const s of R.states) states.add(s); for (const s of R.inter) inter.add(s);
        R.fps.forEach((f, j) => fps.set(R.from + j, f)); viols.push(...R.v); if (samples.length < 3) samples.push(...R.samples);
        give();
      });
      ch.on("exit", (c) => { if (c && !harness) harness = "worker ended with status " + c; if (!--live) done(); });
    }
  });
  if (harness && !viols.length) { console.error("HARNESS ERROR: " + harness); process.exitCode = 2; return; }
  // determinism: the same runs again, in this process
  let checked = 0, diverged = 0;
  const ids = [...fps.keys()].sort((a, b) => a - b).filter((_, j, l) => j % Math.max(1, Math.floor(l.length / 40)) === 0);
  for (const i of ids) { const r = await exec(bundle, makePlan(prop, i, base, tier), prop, "generate"); checked++; if (fingerprint(r.run, r.v) !== fps.get(i)) diverged++; }
  if (diverged) console.log(`note: ${diverged} of ${checked} repeated runs differed from their first execution`);
  const wall = (Date.now() - t0) / 1000;
  let out = null;
  if (viols.length) {
    viols.sort((a, b) => a.i - b.i);
    let m = null, pick = null;
    for (const cand of viols.slice(0, 5)) { pick = cand; m = await minimise(bundle, prop, cand.plan, cand.v, 60000); if (m.reproduced) break; }
    fs.mkdirSync(path.join(VERIF, "replays"), { recursive: true });
    const file = path.join(VERIF, "replays", `${prop}-${seed}-${pick.i}.json`);
    fs.writeFileSync(file, JSON.stringify({ property: prop, rule: m.v.rule, detail: m.v.detail, seed, run: pick.i, found: pick.v, steps_before: pick.plan.steps.length, steps_after: m.plan.steps.length, replay: `node idesim/run.js --replay ${path.relative(VERIF, file)}`, plan: m.plan }, null, 1));
    const again = cp.spawnSync(process.execPath, [__filename, "--replay", file], { encoding: "utf8" });
    const twice = cp.spawnSync(process.execPath, [__filename, "--replay", file], { encoding: "utf8" });
    console.log(`run ${pick.i} (seed ${pick.plan.seed}): ${m.v.rule}: ${m.v.detail}`);
    console.log(`minimised from ${pick.plan.steps.length} to ${m.plan.steps.length} steps in ${m.tried} executions; replayed in two fresh processes: ${again.status === 1 ? "reproduced" : "NOT reproduced"}, ${again.stdout === twice.stdout ? "identical" : "DIFFERENT"}`);
    if (again.status !== 1) { console.error("HARNESS ERROR: the violation does not replay\n" + again.stdout.slice(-2000) + again.stderr); process.exitCode = 2; return; }
    out = file;
  }
  const ev = {
    property: prop, tier, seed, level: "exploration",
    coverage: {
      evaluations: agg.runs, distinct_nontrivial: inter.size,
      rule: "one evaluation is one simulated run of the extension decided by one integer; non-trivial: at least 5 scheduled events and at least one oracle check reached; distinct: by hash of the whole event schedule",
      samples, runs_per_hour: Math.round(agg.runs / wall * 3600), seeds_per_hour: Math.round(agg.runs / wall * 3600), nontrivial_runs: agg.nontrivial,
      scheduled_events: agg.events, user_operations: agg.userOps, simulated_processes: agg.spawns, simulated_time_s: Math.round(agg.simMs / 1000),
      faults_injected: agg.faults, runs_with_fault: agg.faultRuns, oracle_checks_and_rare_conditions: agg.probes,
      distinct_interleavings: inter.size, distinct_states: states.size, state_measure: "tuple of status bar, mode, document state, visible editors, pending tasks by kind, painted or not (per scenario)",
      observations_contradicting_other_properties: agg.others,
      determinism: { runs_repeated_in_another_process: checked, diverged },
      real_code: ["ide/src/**/*.ts, bundled unchanged from the working tree"],
      stubs: ["vscode API", "child processes (cargo, rustup, rustc, the analyser)", "file system", "network (got)", "adm-zip", "timers and clock", "lodash and interval-tree (faithful stand-ins, the packages are not installed here)"],
      worker_processes: W,
    },
    assumptions: ["the simulated vscode API follows the documented ordering of editor, document and decoration events", "the simulated analyser is a deterministic function of the saved text and the position"],
    wall_s: Math.round(wall * 10) / 10, violations: viols.length,
  };
  fs.mkdirSync(path.join(VERIF, "evidence"), { recursive: true });
  fs.writeFileSync(path.join(VERIF, "evidence", prop + ".json"), JSON.stringify(ev, null, 1));
  console.log(`${agg.runs} runs in ${ev.wall_s} s (${ev.coverage.runs_per_hour}/h), ${inter.size} distinct schedules, ${states.size} states, faults ${JSON.stringify(agg.faults)}`);
  if (out) { console.log(`VIOLATION property=${prop} replay=${out}`); process.exitCode = 1; } else console.log(`${prop} held on everything explored`);
};
const worker = () => {
  const bundle = load();
  process.on("message", async (m) => { if (m.stop) { process.disconnect(); return; } try { process.send(await batch(bundle, m.prop, m.tier, m.base, m.from, m.n)); } catch (e) { process.send({ error: String(e && e.stack || e) }); } });
  process.send({ ready: 1 });
};
if (process.argv.includes("--worker")) worker(); else main().catch((e) => { console.error("HARNESS ERROR: " + (e && e.stack || e)); process.exitCode = 2; });
