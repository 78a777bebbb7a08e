#!/usr/bin/env python3
"""Seeded search with the Rust simulator.

run.py --property C12 [--tier quick|thorough] [--seed N] [--total N] [--seconds N] [--workers N]
run.py --replay FILE
"""
import argparse, hashlib, json, os, queue, subprocess, sys, threading, time
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
BIN = os.path.join(VERIF, "build/flowsim/release/flowsim")
FLOW = ("C11", "C12", "C13", "C20", "C22")
HIST = ("C14", "C15", "C16")
# evaluations (crates or histories) of a quick run
QUICK = dict(C11=640, C12=2400, C13=2400, C14=2000, C15=2000, C16=1000, C19=3000, C20=2400, C22=1200)
# what was counted under these keys of the statistics is an injected fault
FAULT = {"C15": ["analyses aborted"], "C16": ["analyses aborted", "switches between sessions"]}
EVAL = {"C11": ["solver runs", "solver runs of random analyses"], "C12": ["faults injected"], "C13": ["faults injected"],
        "C20": ["faults injected"], "C14": ["analyses compared", "answers compared"], "C15": ["analyses compared", "answers compared"],
        "C16": ["analyses compared", "answers compared"], "C19": ["faults injected"], "C22": ["faults injected", "requests", "requests in closures", "requests for functions"]}
RULE = {
    "C11": "one evaluation is one run of the solver to its fixpoint under a seeded processing order (first-in-first-out, last-in-first-out, bursts, random) on one function, for the information-flow analysis in one of 8 modes or for a random monotone analysis; the state at every instruction is compared across orders, with a reference, and with re-application of every instruction; distinct: program, function, mode and the order actually taken",
    "C12": "one evaluation is one simulated execution with one injected corruption (of an argument, assigned value, branch decision, call result, or memory a call can mutate; at top level or inside a callee); non-trivial: the corruption changed an observed value, whose backward slice then has to contain the corrupted statement; distinct: program, execution, moment of the fault, observed place and point",
    "C13": "one evaluation is one simulated execution with one injected corruption of an argument, assigned value or call result; non-trivial: it changed what a later statement wrote or how a branch went, which the forward slice then has to contain; distinct: program, execution, moment of the fault, affected statement",
    "C14": "one evaluation is one result or answer within a seeded history of analyses, questions and mode changes, compared with that of a fresh process; distinct: by history",
    "C15": "one evaluation is one result or answer after analyses aborted at seeded steps (by unwinding), compared with that of a fresh process; distinct: by history",
    "C16": "one evaluation is one result or answer of a session that runs interleaved with others under a seeded scheduler, compared with that of a fresh process; distinct: by history",
    "C20": "as C12, with the analyser looking into the bodies of called functions (direct and mutual recursion included)",
    "C22": "one evaluation is one request to the whole plugin, whose message is decoded, or one simulated execution with one injected corruption, compared with the ranges of the source text in the message; non-trivial: the corruption changed an observed value or a later statement, so that the message has to highlight it; distinct: program, execution, moment of the fault, occurrence",
    "C19": "one evaluation is one simulated execution with secure data corrupted; non-trivial: insecure data changed, so that the checker has to report a flow",
}
STUBS = {
    "flow": ["execution of the analysed program: a simulated machine that interprets its MIR (the analyser never sees it); calls outside the crate by models of the core functions used", "file system of the compiler session (in-memory source)"],
    "ide": ["execution of the analysed program: a simulated machine that interprets its MIR (the plugin never sees it); calls outside the crate by models of the core functions used", "cargo and the driver's command line: the plugin is called with the arguments it would parse"],
    "fix": ["the choice of the next pending instruction (seeded, behind cfg flowistry_sim)", "file system of the compiler session (in-memory source)"],
    "hist": ["the thread scheduler for sessions of one process: token passing at analysis steps and questions (seeded, behind cfg flowistry_sim)", "file system of the compiler session (in-memory source)"],
}

def env():
    e = dict(os.environ)
    if "FLOWSIM_SYSROOT" not in e:
        s = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; rustc --print sysroot"], capture_output=True, text=True).stdout.strip()
        e["FLOWSIM_SYSROOT"] = s
        e["LD_LIBRARY_PATH"] = s + "/lib"
    for k in list(e):
        if k.startswith(("RUSTFLAGS", "CARGO_", "RUST_", "RUSTUP_TOOLCHAIN", "RUSTC")): e.pop(k)
    return e

def prefix():
    return ["setarch", "-R"] if subprocess.run(["setarch", "-R", "true"], capture_output=True).returncode == 0 else []

def harness_error(msg):
    print("HARNESS ERROR: " + msg, file=sys.stderr); sys.exit(2)

def build():
    r = subprocess.run(["bash", os.path.join(HERE, "build.sh")], capture_output=True, text=True)
    if r.returncode: harness_error("the simulator does not build\n" + r.stderr[-6000:])

def known(prop):
    out = {}
    for l in open(os.path.join(VERIF, "known_findings.txt")):
        if l.startswith(f"finding: property={prop} "):
            key, what = l.split(" ", 2)[2].rstrip("\n").split(" ", 1)
            out[key] = what
    return out

def replay(path, E, PRE):
    return subprocess.run(PRE + [BIN, "replay", path], env=E, capture_output=True, text=True, timeout=800)

def add(a, b):
    for k, n in b.items(): a[k] = a.get(k, 0) + n

def witnesses(prop, E, PRE):
    """Known findings are shown again on their own programs; they suppress nothing else."""
    listed = known(prop); shown = []
    wd = os.path.join(HERE, "witness")
    for key, what in listed.items():
        f, fn = key.split(":")
        d = dict(property=prop, program=open(os.path.join(wd, f + ".rs")).read(), fn=fn, seed=1, execs=60, key="missing forward dependency" if prop == "C13" else "missing dependency")
        p = os.path.join(VERIF, "build", f"witness-{prop}-{f}-{fn}-{os.getpid()}.json")
        json.dump(d, open(p, "w")); r = replay(p, E, PRE); os.remove(p)
        if r.returncode == 1: print(f"KNOWN-FINDING: property={prop} {key} {what}"); shown.append(key)
        else: print(f"note: the known finding {key} does not show (status {r.returncode})")
    return shown

def search(A, prop, tier, seed, E, PRE):
    base = (seed % 4000) * 1_000_000
    total = A.total or QUICK[prop] * (40 if tier == "thorough" else 1)
    limit = A.seconds or (3000 if tier == "thorough" else 240)
    W = A.workers or max(1, min(8, os.cpu_count() or 1))
    print(f"{prop}: seed {seed}, tier {tier}, up to {total} {'histories' if prop in HIST else 'crates'}, {W} processes, code under test /repo", flush=True)
    q = queue.Queue(); procs = []
    def reader(p):
        for line in p.stdout:
            if line.startswith("{"): q.put(line)
        q.put(None)
    for w in range(W):
        p = subprocess.Popen(PRE + [BIN, "worker", prop, str(base), str(w), str(W), str(total), str(limit)], env=E, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, bufsize=1)
        procs.append(p); threading.Thread(target=reader, args=(p,), daemon=True).start()
        threading.Thread(target=lambda p=p: p.stderr.read(), daemon=True).start()
    R = dict(stats={}, n=0, cases=0, inputs=set(), scheds=set(), samples=[], viols=[], lines={})
    live = W; stop_at = None
    while live:
        try: line = q.get(timeout=1)
        except queue.Empty: line = ""
        if line is None: live -= 1
        elif line:
            r = json.loads(line)
            add(R["stats"], r["stats"]); R["n"] += 1
            if r["case"] not in R["inputs"]: R["inputs"].add(r["case"]); R["cases"] += r["cases"]
            if r.get("schedule"): R["scheds"].add(r["schedule"])
            if r.get("sample") and len(R["samples"]) < 3: R["samples"].append({"run_seed": r["seed"], **r["sample"]})
            if r["i"] % 97 == 0 and not r["violations"]: R["lines"][r["i"]] = {k: r[k] for k in ("stats", "cases", "case")}
            for v in r["violations"]: R["viols"].append((r["i"], r["seed"], v))
            if r["violations"] and stop_at is None: stop_at = time.time() + (3 if prop in FLOW else 1)
        if stop_at and time.time() > stop_at: break
    for p in procs:
        if p.poll() is None: p.kill()
    codes = [p.wait() for p in procs]
    if not R["viols"] and any(codes): harness_error(f"workers ended with {codes}")
    if not R["viols"] and R["n"] < min(total, W): harness_error("nothing was evaluated")
    # the same evaluations again, in one other process each
    same = diff = 0
    for i in sorted(R["lines"])[:8]:
        r = subprocess.run(PRE + [BIN, "worker", prop, str(base), str(i), "1", str(i + 1), "60"], env=E, capture_output=True, text=True)
        try: l = json.loads(r.stdout.splitlines()[0])
        except Exception: continue
        if all(l[k] == v for k, v in R["lines"][i].items()): same += 1
        else: diff += 1
    if diff: print(f"note: {diff} of {same + diff} evaluations differed when repeated")
    R["determinism"] = dict(evaluations_repeated_in_another_process=same + diff, differed=diff)
    R["workers"] = W; R["total"] = total
    return R

def report(prop, seed, R, E, PRE, t0):
    """Minimises and confirms one violation; returns the replay file."""
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    R["viols"].sort(key=lambda x: (x[2]["key"] == "no answer", x[0]))
    tried = 0
    for i, s, v in R["viols"][:6]:
        tried += 1
        d = dict(property=prop, seed=s, run=i, execs=3, found=v["what"], **v)
        path = os.path.join(VERIF, "replays", f"{prop}-{seed}-{i}.json")
        d["replay"] = f"python3 flowsim/run.py --replay {os.path.relpath(path, VERIF)}"
        json.dump(d, open(path, "w"), indent=1)
        full = dict(d)
        try: subprocess.run(PRE + [BIN, "reduce", path, "100"], env=E, capture_output=True, timeout=260)
        except subprocess.TimeoutExpired: json.dump(full, open(path, "w"), indent=1)
        a = replay(path, E, PRE)
        if a.returncode != 1:
            json.dump(full, open(path, "w"), indent=1); a = replay(path, E, PRE)
        if a.returncode == 3:  # the same case violates the property in another way when it runs alone
            full["key"] = a.stdout[len(prop) + 1:].split(": ", 1)[0]; json.dump(full, open(path, "w"), indent=1); a = replay(path, E, PRE)
        b = replay(path, E, PRE)
        if a.returncode != 1: continue
        m = json.load(open(path))
        print(a.stdout.strip())
        n0 = v.get("program", json.dumps(v.get("plan"))); n1 = m.get("program", json.dumps(m.get("plan")))
        print(f"minimised from {len(n0)} to {len(n1)} characters; replayed in two fresh processes: reproduced, {'identical' if a.stdout == b.stdout else 'DIFFERENT'}")
        if m.get("program"): print(m["program"])
        return path
    harness_error(f"none of {tried} violations replays: {R['viols'][0][2]['what']}")

def main():
    P = argparse.ArgumentParser(); P.add_argument("--property"); P.add_argument("--tier"); P.add_argument("--seed", type=int)
    P.add_argument("--total", type=int); P.add_argument("--seconds", type=int); P.add_argument("--workers", type=int); P.add_argument("--replay"); P.add_argument("--no-build", action="store_true")
    A = P.parse_args()
    os.chdir(VERIF)
    if not A.no_build: build()
    E = env(); PRE = prefix()
    if A.replay:
        r = replay(A.replay, E, PRE); sys.stdout.write(r.stdout); sys.stderr.write(r.stderr[-2000:]); sys.exit(r.returncode)
    prop = A.property; tier = A.tier or os.environ.get("VERIF_TIER") or "quick"; seed = A.seed if A.seed is not None else int(os.environ.get("VERIF_SEED") or 1)
    t0 = time.time()
    shown = witnesses(prop, E, PRE)
    R = search(A, prop, tier, seed, E, PRE)
    wall = time.time() - t0
    st = R["stats"]
    path = report(prop, seed, R, E, PRE, t0) if R["viols"] else None
    faults = {k: n for k, n in st.items() if k.startswith("fault ") or k in FAULT.get(prop, [])}
    ev = sum(st.get(k, 0) for k in EVAL[prop])
    kind = "ide" if prop == "C22" else "hist" if prop in HIST else "fix" if prop == "C11" else "flow"
    cov = dict(evaluations=ev, distinct_nontrivial=st.get("distinct schedules", 0) if prop == "C11" else R["cases"] if prop not in HIST else len(R["inputs"]),
        rule=RULE[prop], samples=R["samples"], runs_per_hour=round(ev / wall * 3600), seeds_per_hour=round(R["n"] / wall * 3600),
        seeds=R["n"], distinct_inputs=len(R["inputs"]), counts=st,
        simulated_time={"unit": "instructions of the simulated machine" if kind in ("flow", "ide") else "steps of the solver", "total": st.get("simulated instructions", st.get("instructions processed", st.get("analysis steps", 0)))},
        faults_injected=faults, distinct_interleavings=len(R["scheds"]) if prop == "C16" else st.get("distinct schedules", 0),
        state_measure="processing orders actually taken (C11), sequences of scheduling decisions (C16), otherwise distinct_nontrivial",
        determinism=R["determinism"], real_code=["crates/flowistry (and rustc, which computes MIR and borrow-checker facts for it)"] + (["crates/flowistry_ifc"] if prop == "C19" else ["crates/flowistry_ide"] if prop == "C22" else []),
        stubs=STUBS[kind], known_findings_shown=shown, worker_processes=R["workers"])
    e = dict(property=prop, tier=tier, seed=seed, level="exploration", coverage=cov,
        assumptions=["the simulated machine executes MIR as the compiler means it", "generated programs terminate, are safe and have neither Drop implementations nor interior mutability"] if kind in ("flow", "ide") else ["the generated programs and histories are representative"],
        wall_s=round(time.time() - t0, 1), violations=len(R["viols"]))
    os.makedirs("evidence", exist_ok=True); json.dump(e, open(f"evidence/{prop}.json", "w"), indent=1)
    print(f"{R['n']} seeds, {ev} evaluations, {cov['distinct_nontrivial']} distinct non-trivial in {wall:.1f} s; faults {json.dumps(faults)}")
    if path: print(f"VIOLATION property={prop} replay={path}"); sys.exit(1)
    print(f"{prop} held on everything explored")

try: main()
except SystemExit: raise
except BaseException as e:
    import traceback; traceback.print_exc(); harness_error(repr(e))
