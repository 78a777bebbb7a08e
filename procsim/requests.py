#!/usr/bin/env python3
"""Histories of requests to cargo-flowistry in one workspace (C21).

requests.py --property C21 [--tier quick|thorough] [--seed N] [--total N] [--seconds N] [--workers N]
requests.py --replay FILE

cargo-flowistry, cargo and flowistry-driver are real; edits, crashes, faults in
the driver and which of two overlapping requests waits follow from the seed.
"""
import hashlib, json, os, re, shutil, signal, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
G = {"__name__": "procsim", "__file__": os.path.join(HERE, "run.py")}
exec(compile(open(os.path.join(HERE, "run.py")).read().split("\ntry: main()")[0], "run.py", "exec"), G)
Rng, VERIF, B, IDE, SHIM, meaning, describe, harness_error = (G[k] for k in ("Rng", "VERIF", "B", "IDE", "SHIM", "meaning", "describe", "harness_error"))
import argparse, concurrent.futures as cf, threading
PROP = "C21"; QUICK = 160

FILES = ["src/lib.rs", "src/main.rs", "examples/ex.rs", "dep-x/src/lib.rs"]
def manifest():
    return {"Cargo.toml": '[package]\nname = "w"\nversion = "0.1.0"\nedition = "2021"\n[dependencies]\ndep-x = { path = "dep-x" }\n[workspace]\nmembers = ["dep-x"]\n',
            "dep-x/Cargo.toml": '[package]\nname = "dep-x"\nversion = "0.1.0"\nedition = "2021"\n'}

def text(f, k):
    """Version k of file f; versions 3, 7, .. do not compile."""
    bad = "  let z: i32 = true;\n" if k % 4 == 3 else ""
    mid = "".join(f"  y += {j};\n" if j % 2 else f"  if y > {j} {{ y -= x; }}\n" for j in range(k % 5))
    pre = "// \u00e9\n" * (k % 3)
    if f == "dep-x/src/lib.rs": return f"{pre}pub fn d(x: i32) -> i32 {{\n  let mut y = x;\n{mid}{bad}  y\n}}\npub fn e(p: &mut i32, x: i32) {{\n  *p = x;\n}}\n"
    if f == "src/lib.rs": return f"{pre}pub fn g(x: i32) -> i32 {{\n  let mut y = dep_x::d(x);\n  dep_x::e(&mut y, {k});\n{mid}{bad}  y\n}}\npub fn h(x: &mut i32) -> i32 {{\n  *x += 1;\n  *x\n}}\n"
    return f"{pre}pub fn m(x: i32) -> i32 {{\n  let mut y = w::g(x);\n{mid}{bad}  w::h(&mut y)\n}}\nfn main() {{\n  let a = m({k});\n  println!(\"{{a}}\");\n}}\n"

def new_plan(seed):
    r = Rng(seed); ops = []; ver = {f: 0 for f in FILES}
    files = FILES if r.below(3) else [r.pick(FILES), r.pick(FILES)]
    def req():
        f = r.pick(files); k = r.below(6); n = ver[f] % 3
        pos = (n + 1, 2) if k < 4 else (n, 0)  # inside the first function, or where it starts
        q = dict(file=f, command=["spans", f] if k == 4 else ["focus", f, str(pos[0]), str(pos[1])])
        if r.chance(4): q["mode"] = r.pick([["--context-mode", "Recurse"], ["--mutability-mode", "IgnoreMut"], ["--pointer-mode", "Conservative"]])
        return q
    last = None
    for _ in range(4 + r.below(5)):
        k = r.below(12)
        if k < 2 and ops:
            f = r.pick(files); ver[f] = r.below(12); ops.append(dict(op="edit", file=f, version=ver[f]))
        elif k == 2: ops.append(dict(op="preload"))
        elif k <= 4: ops.append(dict(op="crash", fault=[r.pick(["open_src", "read_src", "open_lib", "map_file", "write_out", "write_file", "rename", "stat"]), r.below(r.pick([1, 4, 30])), 1, "k", r.below(2)], **req()))
        elif k == 5: ops.append(dict(op="fault", fault=[*r.pick([["write_out", 0, 1, "f", 28], ["write_out", 0, 1, "s", 300], ["open_src", 0, 1, "f", 5], ["write_file", r.below(3), 1, "f", 28], ["rename", 0, 1, "f", 5], ["write_out", 0, 10 ** 9, "f", 32]])], **req()))
        elif k == 6: ops.append(dict(op="overlap", at=r.pick(["open_src", "map_file", "write_out", "stat"]), n=r.below(3), a=req(), b=req()))
        else:
            q = last if last and r.chance(2) else req()  # often the same once more
            if q is last and q["file"] not in FILES: q = req()
            ops.append(dict(op="request", **q)); last = q
    return dict(ops=ops)

def install():
    """Once, before there are threads: cargo-flowistry and a driver under whose compilations the simulated libc is put."""
    global BIN
    BIN = os.path.join(B, "procsim", f"bin-{os.getpid()}"); shutil.rmtree(BIN, ignore_errors=True); os.makedirs(BIN)
    shutil.copy(os.path.join(IDE, "cargo-flowistry"), BIN)
    w = os.path.join(BIN, "flowistry-driver")
    open(w, "w").write(f'#!/bin/sh\ncase "$*" in *--print=*) ;; *--crate-name*) [ -n "$SIM" ] && export LD_PRELOAD={SHIM};; esac\nexec {IDE}/flowistry-driver "$@"\n')
    os.chmod(w, 0o755)
    import atexit; atexit.register(lambda: shutil.rmtree(BIN, ignore_errors=True))

class Workspace:
    def __init__(self, d):
        self.d = d; self.bin = BIN; self.ws = os.path.join(d, "ws"); os.makedirs(self.ws)
        self.put(manifest()); self.put({f: text(f, 0) for f in FILES})
    def put(self, fs):
        for f, t in fs.items():
            p = os.path.join(self.ws, f); os.makedirs(os.path.dirname(p), exist_ok=True); open(p, "w").write(t)
    def env(self, sim=None):
        e = {"PATH": f"{self.bin}:/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin", "HOME": "/root", "RUSTUP_TOOLCHAIN": TC, "LD_LIBRARY_PATH": G["SR"] + "/lib", "CARGO_NET_OFFLINE": "true",
             "CARGO_TERM_COLOR": "never", "RUST_BACKTRACE": "0", "CARGO_BUILD_JOBS": "2"}
        if sim: e["SIM"] = sim
        return e
    def start(self, args, sim=None):
        return subprocess.Popen([os.path.join(self.bin, "cargo-flowistry"), "flowistry", *args], cwd=self.ws, env=self.env(sim), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
    def finish(self, p):
        try: out, err = p.communicate(timeout=120)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL); p.communicate(); return "timeout", b"", b""
        try: os.killpg(p.pid, signal.SIGKILL)  # nothing of a request outlives it
        except ProcessLookupError: pass
        return p.returncode, out, err

# A request for a library removes its metadata (so that cargo runs the driver on it) before it waits for cargo's lock;
# a request for a crate that depends on the library, already running, then makes it anew, or misses it.
DEPENDS = {"dep-x/src/lib.rs": {"src/lib.rs", "src/main.rs", "examples/ex.rs"}, "src/lib.rs": {"src/main.rs", "examples/ex.rs"}}
def known_overlap(o, v, listed):
    return "overlap-library-of-dependent" in listed and o["a"]["file"] in DEPENDS.get(o["b"]["file"], ()) and (
        ("waiting request" in v["what"] and "status 0, not a message: 0 bytes;" in v["what"]) or ("held request" in v["what"] and re.search("can't find crate|extern location for .* does not exist|error: couldn't open|No such file", v["stderr"])))
WITNESS = {"overlap-library-of-dependent": dict(ops=[dict(op="overlap", at="open_src", n=0, a=dict(file="examples/ex.rs", command=["focus", "examples/ex.rs", "1", "2"]), b=dict(file="dep-x/src/lib.rs", command=["spans", "dep-x/src/lib.rs"]))])}
LISTED = {}

def args_of(q): return q.get("mode", []) + q["command"]

class Reference:
    """The same request in a workspace where nothing has happened yet."""
    def __init__(self): self.memo = {}; self.lock = threading.Lock()
    def get(self, contents, q, d):
        key = json.dumps([contents, args_of(q)], sort_keys=True)
        with self.lock:
            if key in self.memo: return self.memo[key]
        w = Workspace(d)
        try:
            w.put(contents); r = w.finish(w.start(args_of(q)))
            a = (r[0], meaning({"request": q["command"][0]}, r[1], r[2]) if r[0] == 0 else None)
        finally: shutil.rmtree(d, ignore_errors=True)
        with self.lock: self.memo[key] = a
        return a
REF = Reference()

def run_plan(plan, tag):
    """Runs a history; returns (statistics, violation or None)."""
    d = os.path.join(B, "procsim", f"rq{tag}"); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    st = {}; n = lambda k: st.__setitem__(k, st.get(k, 0) + 1); trace = []
    try:
        w = Workspace(os.path.join(d, "h")); contents = {f: text(f, 0) for f in FILES}; nref = [0]
        def check(i, q, r, disturbed, what):
            nref[0] += 1; ref = REF.get(contents, q, os.path.join(d, f"r{nref[0]}"))
            if r[0] == "timeout": return dict(key="does not end", what=f"operation {i} ({what}) has not ended after two minutes")
            m = meaning({"request": q["command"][0]}, r[1], r[2]) if r[0] == 0 else None
            trace.append((r[0], hashlib.md5(repr(m).encode()).hexdigest()[:8])); n("answers compared")
            if ref[0] == 0: n("answers with content")
            if (r[0], m) == ref: return None
            if disturbed:
                if r[0] != 0: n("disturbed requests that failed"); return None
                if m[0] == "failure" and ref[0] == 0: return None
            a = f"status {r[0]}" + (f", {describe(None, m)}" if m else ""); b = f"status {ref[0]}" + (f", {describe(None, ref[1])}" if ref[1] else "")
            if ref[0] == 0 and r[0] != 0: a += ": " + r[2].decode("utf8", "replace")[-300:].strip()
            return dict(key="answer depends on the history" if not disturbed else "success without the answer", stderr=r[2].decode("utf8", "replace"), what=f"operation {i} ({what} {' '.join(args_of(q))}): {a}; in a fresh workspace: {b}")
        for i, o in enumerate(plan["ops"]):
            n("operation: " + o["op"])
            if o["op"] == "edit": contents[o["file"]] = text(o["file"], o["version"]); w.put({o["file"]: contents[o["file"]]}); continue
            if o["op"] == "preload": trace.append(w.finish(w.start(["preload"]))[0]); continue
            src = w.ws
            if o["op"] == "overlap":
                gate = os.path.join(d, f"gate{i}")
                a = w.start(args_of(o["a"]), f"seed=0;alloc=0;src={src};wait={gate};faults={o['at']}:{o['n']}:1:w:0")
                for _ in range(3000):
                    if os.path.exists(gate + ".at") or a.poll() is not None: break
                    time.sleep(0.002)
                held = os.path.exists(gate + ".at") and a.poll() is None
                b = w.start(args_of(o["b"])); time.sleep(0.12)
                open(gate, "w").close(); n("requests held while another arrived" if held else "requests that could not be held")
                ra = w.finish(a); rb = w.finish(b)
                v = None
                for q, r, what in ((o["a"], ra, "held request"), (o["b"], rb, "waiting request")):
                    x = check(i, q, r, False, what)
                    if x and known_overlap(o, x, LISTED): n("known finding met"); x = None
                    v = v or x
            else:
                sim = None
                if "fault" in o: sim = f"seed=0;alloc=0;src={src};faults=" + ":".join(map(str, o["fault"])); n("fault " + o["fault"][0] + " " + G["NAME"][o["fault"][3]])
                r = w.finish(w.start(args_of(o), sim))
                v = check(i, o, r, "fault" in o, o["op"])
            if v: return st, v, trace
        return st, None, trace
    finally: shutil.rmtree(d, ignore_errors=True)

def minimise(plan, key, tag):
    ops = list(plan["ops"]); i = len(ops) - 1
    def fails(o):
        v = run_plan(dict(ops=o), tag)[1]; return bool(v) and v["key"] == key
    while i >= 0:
        c = ops[:i] + ops[i + 1:]
        if c and fails(c): ops = c
        i -= 1
    for i, o in enumerate(ops):
        if o["op"] in ("crash", "fault"):
            c = {k: x for k, x in o.items() if k != "fault"}; c["op"] = "request"; c = ops[:i] + [c] + ops[i + 1:]
            if fails(c): ops = c
    return dict(ops=ops)

def main():
    global TC
    P = argparse.ArgumentParser(); P.add_argument("--property", default=PROP); P.add_argument("--tier"); P.add_argument("--seed", type=int)
    P.add_argument("--total", type=int); P.add_argument("--seconds", type=int); P.add_argument("--workers", type=int); P.add_argument("--replay"); P.add_argument("--no-build", action="store_true")
    A = P.parse_args(); os.chdir(VERIF)
    if not A.no_build: G["sh"](os.path.join(HERE, "build.sh"))
    G["SR"] = G["sysroot"](); TC = os.path.basename(G["SR"])
    install()
    if A.replay:
        d = json.load(open(A.replay)); v = run_plan(d["plan"], f"-{os.getpid()}")[1]
        if v and v["key"] == d["key"]: print(f"{v['key']}: {v['what']}"); sys.exit(1)
        print("no violation" if not v else f"another violation: {v['what']}"); sys.exit(3 if v else 0)
    known = {}
    for l in open(os.path.join(VERIF, "known_findings.txt")):
        if l.startswith(f"finding: property={PROP} "): k, what = l.split(" ", 2)[2].rstrip("\n").split(" ", 1); known[k] = what
    for k, what in known.items():
        v = run_plan(WITNESS[k], f"{os.getpid()}-w")[1]
        print(f"KNOWN-FINDING: property={PROP} {k} {what}" if v else f"note: the known finding {k} does not show")
    LISTED.update(known)
    tier = A.tier or os.environ.get("VERIF_TIER") or "quick"; seed = A.seed if A.seed is not None else int(os.environ.get("VERIF_SEED") or 1)
    total = A.total or QUICK * (40 if tier == "thorough" else 1); limit = A.seconds or (3000 if tier == "thorough" else 300)
    W = A.workers or max(1, min(8, os.cpu_count() or 1)); t0 = time.time(); base = (seed % 4000) * 1_000_000
    print(f"{PROP}: seed {seed}, tier {tier}, up to {total} histories, code under test /repo", flush=True)
    R = []; viols = []
    def go(i):
        if viols or time.time() - t0 > limit: return
        plan = new_plan(base + i); s, v, tr = run_plan(plan, f"{os.getpid()}-{i}"); R.append((i, plan, s, tr))
        if v: viols.append((i, plan, v))
    with cf.ThreadPoolExecutor(W) as ex: list(ex.map(go, range(total)))
    if not R: harness_error("nothing was evaluated")
    st = {}
    for _, _, s, _ in R:
        for k, x in s.items(): st[k] = st.get(k, 0) + x
    if not viols and not st.get("answers with content"): harness_error("no request is ever answered")
    same = diff = 0
    if not viols:
        for i, plan, s, tr in sorted(R, key=lambda x: x[0])[:4]:
            if run_plan(plan, f"{os.getpid()}-again{i}")[2] == tr: same += 1
            else: diff += 1
    path = None; wall = time.time() - t0
    if viols:
        os.makedirs("replays", exist_ok=True)
        for i, plan, v in sorted(viols, key=lambda x: len(x[1]["ops"]))[:3]:
            m = minimise(plan, v["key"], f"{os.getpid()}-m"); w = run_plan(m, f"{os.getpid()}-m")[1]; w2 = run_plan(m, f"{os.getpid()}-m")[1]
            if not w or w["key"] != v["key"]: continue
            path = f"replays/{PROP}-{seed}-{i}.json"
            json.dump(dict(property=PROP, seed=base + i, key=w["key"], what=w["what"], found=v["what"], plan=m, stderr=w['stderr'][-3000:] if 'stderr' in w else '', replay=f"python3 procsim/requests.py --replay {path}"), open(path, "w"), indent=1)
            print(f"{w['key']}: {w['what']}\nreplayed twice: {'reproduced' if w2 and w2['key'] == w['key'] else 'DIFFERENT'}; minimised from {len(plan['ops'])} to {len(m['ops'])} operations: {json.dumps(m['ops'])}"); break
        else: harness_error(f"no violation replays: {viols[0][2]['what']}")
    hs = {hashlib.md5(json.dumps(p).encode()).hexdigest() for _, p, s, _ in R if s.get("answers with content")}
    cov = dict(evaluations=st.get("answers compared", 0), distinct_nontrivial=len(hs), rule="one evaluation is one answer within a history of requests, edits, preloads, crashes and faults of the driver and overlapping requests in one workspace, compared with the answer in a fresh workspace; distinct and non-trivial: histories in which some compared request has an answer",
        samples=[dict(run_seed=base + i, operations=p["ops"]) for i, p, _, _ in R[:2]], counts=st, seeds=len(R), runs_per_hour=round(st.get("answers compared", 0) / wall * 3600), seeds_per_hour=round(len(R) / wall * 3600),
        simulated_time={"unit": "operations on the workspace", "total": sum(len(p["ops"]) for _, p, _, _ in R)}, faults_injected={k: x for k, x in st.items() if k.startswith("fault ")} | {"requests held while another arrived": st.get("requests held while another arrived", 0)},
        distinct_interleavings=len({json.dumps([o.get("op") + str(o.get("at", "")) + str(o.get("fault", "")) for o in p["ops"]]) for _, p, _, _ in R}), state_measure="sequences of operations with the place of each fault",
        determinism=dict(histories_repeated=same + diff, differed=diff), real_code=["cargo-flowistry, flowistry-driver (from /repo), cargo, rustc, file system"], stubs=["outcome of the driver's system calls (interposed)", "user editing files"], worker_processes=W)
    os.makedirs("evidence", exist_ok=True)
    json.dump(dict(property=PROP, tier=tier, seed=seed, level="exploration", coverage=cov, assumptions=["one edit does not happen while a request runs"], wall_s=round(time.time() - t0, 1), violations=len(viols)), open(f"evidence/{PROP}.json", "w"), indent=1)
    print(f"{len(R)} histories in {wall:.1f} s; {json.dumps(st)}; repeated {same + diff}, differed {diff}")
    if path: print(f"VIOLATION property={PROP} replay={path}"); sys.exit(1)
    print(f"{PROP} held on everything explored")

try: main()
except SystemExit: raise
except BaseException as e:
    import traceback; traceback.print_exc(); harness_error(repr(e))
