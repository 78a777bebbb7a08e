#!/usr/bin/env python3
"""Simulated executions of the real driver processes.

run.py --property C17|C18 [--tier quick|thorough] [--seed N] [--total N] [--seconds N] [--workers N]
run.py --replay FILE

The process runs on a libc of ours (shim.c): addresses, entropy, clock and the
outcome of system calls follow from a seed and a list of faults.
"""
import argparse, base64, concurrent.futures as cf, gzip, hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
B = os.path.join(VERIF, "build")
IDE = os.path.join(B, "ide/release")
SHIM = os.path.join(B, "procsim/shim.so")
FLOWSIM = os.path.join(B, "flowsim/release/flowsim")
QUICK = dict(C17=560, C18=320)
VARIANTS = dict(C17=8, C18=14)
INF = 10 ** 9

class Rng:
    def __init__(self, s): self.s = s & (2 ** 64 - 1)
    def next(self):
        self.s = (self.s + 0x9e3779b97f4a7c15) & (2 ** 64 - 1); z = self.s
        z = ((z ^ (z >> 30)) * 0xbf58476d1ce4e5b9) & (2 ** 64 - 1); z = ((z ^ (z >> 27)) * 0x94d049bb133111eb) & (2 ** 64 - 1)
        return z ^ (z >> 31)
    def below(self, n): return self.next() % n
    def pick(self, l): return l[self.below(len(l))]
    def chance(self, n): return self.below(n) == 0

def harness_error(msg):
    print("HARNESS ERROR: " + msg, file=sys.stderr); sys.exit(2)

def sh(script):
    r = subprocess.run(["bash", script], capture_output=True, text=True)
    if r.returncode: harness_error(f"{script} fails\n" + r.stderr[-6000:])

def sysroot():
    return subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; rustc --print sysroot"], capture_output=True, text=True).stdout.strip()
SR = None
PRE = []

# ---- one simulated process
def sim_of(v, d):
    s = f"seed={v.get('seed', 0)};alloc={v.get('alloc', 0)};src={d};log={d}/.log"
    if v.get("faults"): s += ";faults=" + ",".join(":".join(str(x) for x in f) for f in v["faults"])
    return s

def execute(case, v, d):
    """Runs the driver in directory d; returns (status, stdout, stderr, log)."""
    if case["request"] in ("preload", "version"): return execute_command(case, v, d)
    ifc = case["request"] == "ifc"
    e = {"LD_LIBRARY_PATH": SR + "/lib", "SYSROOT": SR, "CARGO_PRIMARY_PACKAGE": "1", "LD_PRELOAD": SHIM, "SIM": sim_of(v, d), "HOME": d, "RUST_BACKTRACE": "0", "PATH": "/usr/bin:/bin",
         "PLUGIN_ARGS": "null" if ifc else json.dumps(case["args"])}
    if v.get("pad"): e["PADDING"] = "x" * v["pad"]  # moves the stack
    cmd = PRE + ["/usr/bin/env", "-i"] + [f"{k}={x}" for k, x in e.items()]
    cmd += [os.path.join(IDE, "ifc-driver" if ifc else "flowistry-driver"), "rustc", "--crate-type", "lib", "--edition=2021", "--crate-name", "t", "--emit=metadata", case["root"], "-A", "warnings"]
    if ifc: cmd += ["--extern", f"flowistry_ifc_traits={B}/ide/ifc/libflowistry_ifc_traits.rlib"]
    log = os.path.join(d, ".log")
    if os.path.exists(log): os.remove(log)
    try: r = subprocess.run(cmd, cwd=d, stdin=subprocess.DEVNULL, capture_output=True, timeout=60)
    except subprocess.TimeoutExpired: return "timeout", b"", b"", {}
    L = {}
    if os.path.exists(log):
        for l in open(log):
            k, a, b = l.split(); L[k] = (a, int(b)) if k == "hash" else (int(a), int(b))
    return r.returncode, r.stdout, r.stderr, L

# ---- commands of cargo-flowistry that end before the driver runs
PACKAGE = {"Cargo.toml": '[package]\nname = "t"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n', "src/lib.rs": "pub fn f() {}\n"}
OUTCOMES = [dict(exit=1), dict(exit=101), dict(exit=2), dict(exit=255), dict(signal=9), dict(signal=15), dict(signal=11), dict(signal=6), dict(missing=1), dict(exit=0)]

def cargo_program(o):
    """A cargo with that outcome; made before there are threads."""
    return os.path.join(B, "procsim", f"cargo-{os.getpid()}", "-".join(f"{k}{v}" for k, v in o.items()))

def make_cargos():
    for o in OUTCOMES:
        p = cargo_program(o); os.makedirs(os.path.dirname(p), exist_ok=True)
        if "missing" in o: continue
        open(p, "w").write("#!/bin/sh\n" + (f"exit {o['exit']}\n" if "exit" in o else f"kill -{o['signal']} $$\n")); os.chmod(p, 0o755)
    import atexit; atexit.register(lambda: shutil.rmtree(os.path.join(B, "procsim", f"cargo-{os.getpid()}"), ignore_errors=True))

def execute_command(case, v, d):
    e = {"LD_LIBRARY_PATH": SR + "/lib", "HOME": "/root", "RUST_BACKTRACE": "0", "PATH": f"{SR}/bin:/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin", "CARGO_NET_OFFLINE": "true", "RUSTUP_TOOLCHAIN": os.path.basename(SR),
         "CARGO_PATH": cargo_program(v.get("cargo", dict(exit=0)))}
    out = subprocess.PIPE; close = []
    if v.get("stdout") == "full": out = open("/dev/full", "w"); close = [out]
    if v.get("stdout") == "broken":
        a, b = os.pipe(); os.close(a); out = os.fdopen(b, "w"); close = [out]
    try: r = subprocess.run([os.path.join(IDE, "cargo-flowistry"), "flowistry", {"preload": "preload", "version": "rustc-version"}[case["request"]]], cwd=d, env=e, stdin=subprocess.DEVNULL, stdout=out, stderr=subprocess.PIPE, timeout=60)
    except subprocess.TimeoutExpired: return "timeout", b"", b"", {}
    finally:
        for f in close: f.close()
    return r.returncode, r.stdout or b"", r.stderr, {"command": (1, 1 if v.get("cargo", {}).get("exit", 1) or v.get("stdout") else 0)}

def judge_command(case, v, got):
    st, out, err, log = got
    if st == "timeout": return ("does not end", "the process had not ended after a minute")
    bad = v["cargo"] != dict(exit=0) if case["request"] == "preload" else bool(v.get("stdout"))
    what = f"cargo's outcome is {v['cargo']}" if case["request"] == "preload" else f"the output is {v.get('stdout') or 'fine'}"
    if bad and st == 0: return ("success without the answer", f"{case['request']} exits successfully though {what}")
    if not bad and st: return ("fails without a fault", f"{case['request']} exits with status {st} though {what}: {err[-200:].decode('utf8', 'replace')}")
    if not bad and case["request"] == "version" and not re.match(rb"\d+\.\d+\.\d+", out): return ("success without the answer", f"the version is {out!r}")
    return None

def strip(x):
    if isinstance(x, dict): return {k: strip(v) for k, v in x.items() if k != "filename"}
    if isinstance(x, list): return [strip(v) for v in x]
    return x

def meaning(case, out, err):
    """The answer as sets, or a description of what is wrong with it."""
    if case["request"] in ("preload", "version"): return ("nothing",) if case["request"] == "preload" else ("version", out.decode("utf8", "replace"))
    if case["request"] == "ifc":
        t = err.decode("utf8", "replace")
        return ("report", tuple(sorted(t.split("\n\n"))))
    try: m = json.loads(gzip.decompress(base64.b64decode(out.strip(), validate=True)))
    except Exception as e: return ("not a message", f"{len(out)} bytes")
    if "Err" in m: return ("failure", json.dumps(m["Err"], sort_keys=True))
    m = strip(m["Ok"]); key = lambda v: json.dumps(v, sort_keys=True); s = lambda l: tuple(sorted(set(map(key, l))))
    if "place_info" in m:
        return ("focus", tuple(sorted((key(p["range"]), s(p["ranges"]), s(p["slice"]), s(p["direct_influence"])) for p in m["place_info"])), s(m["containers"]))
    return ("other", tuple((k, s(v)) for k, v in sorted(m.items())))

def describe(case, m):
    if m[0] == "focus": return f"an answer about {len(m[1])} places with {sum(len(p[2]) for p in m[1])} slice ranges"
    if m[0] == "report": return "a report of %d lines" % sum(t.count("\n") + 1 for t in m[1])
    return f"{m[0]}: {str(m[1])[:160]}"

def write_case(case, d):
    for n, t in case["files"].items():
        os.makedirs(os.path.dirname(os.path.join(d, n)) or d, exist_ok=True)
        open(os.path.join(d, n), "w").write(t)

def fixed_dir(case):
    # the path is part of the input of the process: the same case always runs at a path of the same shape
    n = hashlib.md5(json.dumps(case, sort_keys=True).encode()).hexdigest()[:10]
    for k in range(1000):
        d = os.path.join(B, "procsim", f"ps{n}{k:03}")
        try: os.mkdir(d); return d
        except FileExistsError: pass
    return tempfile.mkdtemp(prefix="ps", dir=os.path.join(B, "procsim"))

# ---- cases
def new_case(seed, prog, prop):
    r = Rng(seed)
    if prop == "C18" and Rng(seed ^ 0x5bd1).chance(20): return dict(request=Rng(seed ^ 0x77).pick(["preload", "preload", "version"]), files=dict(PACKAGE))
    src = prog["program"]
    if prog["ifc"] and r.below(2): return dict(request="ifc", root="lib.rs", files={"lib.rs": src})
    if prog["ifc"]: src = re.sub(r"(?m)^(use|impl) .*flowistry_ifc_traits.*$|^impl .*(Secure|Insecure).*$|^.*flowistry_ifc_traits.*$", "", src)
    name = "lib.rs"; files = {"lib.rs": src}
    if r.chance(3): name = "m.rs"; files = {"lib.rs": "pub mod m;\n", "m.rs": src}
    elif r.chance(4): name = "a/mod.rs"; files = {"lib.rs": "pub mod a;\npub mod b;\n", "a/mod.rs": src, "b.rs": "pub const N: usize = include_str!(\"c.txt\").len();\n", "c.txt": "some text\n"}
    lines = src.split("\n")
    heads = [i for i, l in enumerate(lines) if l.startswith("pub fn ")]
    a = {"bench": None, "context_mode": r.pick([None, None, "SigOnly", "Recurse"]), "mutability_mode": r.pick([None, None, "DistinguishMut", "IgnoreMut"]), "pointer_mode": r.pick([None, None, "Precise", "Conservative"])}
    k = r.below(8)
    i = r.pick(heads or [0])
    if k == 0: req = "spans"; a["command"] = {"Spans": {"file": name}}
    else:
        own = [h for h in heads if re.match(r"pub fn [th]\d", lines[h])]
        if own and not r.chance(5): i = r.pick(own)
        if r.chance(2) and not r.chance(3):
            j = i
            while j + 1 < len(lines) and not lines[j + 1].startswith("}") and not r.chance(4): j += 1
            i = j
        col = lines[i].find("{") + 1 if i in heads and "{" in lines[i] else len(lines[i]) - len(lines[i].lstrip()) + r.below(3)
        col = min(col, len(lines[i]))
        if k == 1: req = "playground"; a["command"] = {"Playground": {"file": name, "start_line": i, "start_column": col, "end_line": i, "end_column": col}}
        else: req = "focus"; a["command"] = {"Focus": {"file": name, "pos_line": i, "pos_column": col}}
    return dict(request=req, root="lib.rs", files=files, args=a)

FAILS = {"open_src": [5, 4, 24, 2, 13, 12], "open_lib": [5, 4, 24, 2, 13, 12], "read_src": [5, 4, 21], "read_other": [5, 4], "write_out": [28, 32, 5, 4, 11], "write_err": [28, 32, 5, 4, 11],
         "map_file": [12, 13], "stat": [5, 2, 13, 12], "link": [5, 2, 13, 40], "cwd": [2, 13, 34], "thread": [11], "random": [4], "alloc": [12], "dirent": [5]}
TRANSIENT = {"s", "j"}  # with EINTR on reads and writes: nothing has failed
NAME = {"f": "error", "s": "short transfer", "z": "nothing transferred", "k": "process killed", "j": "clock jump"}

def new_fault(r, log, classes):
    c = r.pick(classes); n = log[c][0]
    first = r.below(n) if n else 0
    if c in ("alloc", "open_lib", "stat", "link") and n and r.below(2): first = n - 1 - r.below(max(1, n // 8))  # late: while the answer is made
    if r.chance(9): return [c, first, 1, "k", 0]
    if c == "clock": return [c, first, r.pick([1, 1, 3]), "j", r.pick([-10 ** 6, 10 ** 6, 3600000, -1, 10 ** 8])]
    if c.startswith(("read", "write")) and r.chance(3): return [c, first, r.pick([1, 2, 5, 400]), "s", r.pick([1, 7, 64, 500, 1000])]
    if c.startswith("write") and r.chance(6): return [c, first, 1, "z", 0]
    e = r.pick(FAILS[c]); many = 1 if e == 4 else r.pick([1, 1, 2, INF])
    return [c, first, many, "f", e]

def new_variant(prop, r, ref_log, case):
    v = dict(seed=r.below(10 ** 9), alloc=r.below(4) > 0 if prop == "C17" else r.below(2), pad=r.pick([0, 0, 1, 40, 3000, 60000]))
    v["alloc"] = int(v["alloc"])
    if case["request"] == "preload": return dict(cargo=r.pick(OUTCOMES))
    if case["request"] == "version": return dict(stdout=r.pick([None, "full", "broken"]))
    if prop == "C17":
        v["faults"] = [["clock", r.below(9), 1, "j", r.pick([-1000, 3600000, 10 ** 8])]] if r.chance(3) else []
        return v
    answer = "write_err" if case["request"] == "ifc" else "write_out"
    classes = [c for c in FAILS if ref_log[c][0]] + ["clock"]
    if r.below(2): classes = [answer, answer, "read_src", "open_src"]
    v["faults"] = []
    for _ in range(r.pick([1, 1, 1, 2, 3])):
        f = new_fault(r, ref_log, classes)
        # a short transfer is followed by further ones: leave room for faults on those
        if v["faults"] and f[0] == v["faults"][-1][0] and f[1] == v["faults"][-1][1]: f[1] += v["faults"][-1][2] % 1000
        v["faults"].append(f)
    if answer == "write_out" and r.chance(6): v["faults"] = [["write_out", 0, 1, "s", r.pick([1, 64, 900])], ["write_out", 1, INF, "f", r.pick([28, 32, 5])]]
    return v

def transient(v):
    return all(f[3] in TRANSIENT or (f[3] == "f" and f[4] == 4 and f[0].startswith(("read", "write"))) for f in v.get("faults", []))

def judge(prop, case, ref, v, got):
    """None, or (key, what is wrong)."""
    if case["request"] in ("preload", "version"): return judge_command(case, v, got)
    st, out, err, log = got; rst, rout, rerr, rlog = ref
    if st == "timeout": return ("does not end", "the process had not ended after a minute")
    fired = {c: log[c][1] for c in log if c != "hash" and log[c][1]}
    same = st == rst and (st != 0 or meaning(case, out, err) == meaning(case, rout, rerr))
    if prop == "C17":
        if same: return None
        return ("different answer", f"seed {v['seed']}: " + (f"status {st} instead of {rst}" if st != rst else f"{describe(case, meaning(case, out, err))} instead of {describe(case, meaning(case, rout, rerr))}: {difference(meaning(case, rout, rerr), meaning(case, out, err))}"))
    if same: return None
    if st == 0:
        m = meaning(case, out, err)
        if rst == 0 and m[0] == "failure" and fired: return None
        return ("success without the answer", f"the process exits successfully having delivered {describe(case, m)}; without faults it delivers {describe(case, meaning(case, rout, rerr)) if rst == 0 else 'a failure status'}")
    if not fired and log: return ("fails without a fault", f"status {st} though no fault fired")
    if log and transient(v): return ("fails on a transient condition", f"status {st} though every transfer could be completed")
    return None

def difference(a, b):
    if a[0] != "focus" or b[0] != "focus": return "?"
    x, y = {p[0]: p for p in a[1]}, {p[0]: p for p in b[1]}
    for k in x:
        if k not in y: return f"nothing about {k}"
        for f, n in ((2, "slice"), (3, "direct influence")):
            d = set(x[k][f]) ^ set(y[k][f])
            if d: return f"the {n} of {k} differs in {sorted(d)[:3]}"
    return f"also about {sorted(set(y) - set(x))[:2]}"

def one(prop, seed, prog, only=None):
    """All variants of one case."""
    case = new_case(seed, prog, prop); r = Rng(seed * 31 + 7)
    return run_case(prop, case, r, VARIANTS[prop])

def run_case(prop, case, r, n, variants=None):
    d = fixed_dir(case)
    try:
        write_case(case, d)
        ref = execute(case, dict(seed=0, alloc=0), d)
        res = dict(case=case, ref=ref[0], runs=[], viols=[], request=case["request"], answer="failure status" if ref[0] else meaning(case, ref[1], ref[2])[0])
        if not ref[3] or ref[0] == "timeout": res["bad"] = f"the fault-free run ended with {ref[0]}: {ref[2][-300:]}"; return res
        for k in range(len(variants) if variants else n):
            v = variants[k] if variants else new_variant(prop, r, ref[3], case)
            got = execute(case, v, d)
            fired = []
            if got[3].get("command", (0, 0))[1]: fired = [f"cargo: {' '.join(v['cargo'])}" if "cargo" in v else "write_out: error"]
            if not got[3]: fired = [NAME["k"]] if any(f[3] == "k" for f in v.get("faults", [])) else ["abort"]
            for f in v.get("faults", []):
                if got[3] and got[3][f[0]][1]: fired.append(f"{f[0]}: {NAME[f[3]]}" + (f" {f[4]}" if f[3] == "f" else ""))
            res["runs"].append((hashlib.md5(json.dumps([case, v], sort_keys=True).encode()).hexdigest()[:12], v, got[0], fired, got[3].get("hash", ("", 0))[0], hashlib.md5(got[1]).hexdigest()[:8], sum(x[0] for c, x in got[3].items() if c not in ("hash", "alloc")), got[3].get("alloc", (0, 0))[0]))
            j = judge(prop, case, ref, v, got)
            if j: res["viols"].append(dict(key=j[0], what=j[1], case=case, variant=v))
        return res
    finally: shutil.rmtree(d, ignore_errors=True)

def holds(prop, case, v):
    r = run_case(prop, case, None, 1, [v])
    return r["viols"][0] if r["viols"] else None

# ---- minimisation
def minimise(prop, viol, budget=200):
    case, v, key = viol["case"], viol["variant"], viol["key"]
    n = [0]
    def fails(c, w):
        n[0] += 1
        if n[0] > budget: return False
        x = holds(prop, c, w); return bool(x) and x["key"] == key
    fs = v.get("faults", [])
    i = 0
    while i < len(fs):
        w = dict(v, faults=fs[:i] + fs[i + 1:])
        if fails(case, w): fs = w["faults"]; v = w
        else: i += 1
    for i in range(len(fs)):
        if fs[i][2] > 1:
            w = dict(v, faults=fs[:i] + [fs[i][:2] + [1] + fs[i][3:]] + fs[i + 1:])
            if fails(case, w): v = w; fs = w["faults"]
    for k, x in (("pad", 0), ("alloc", 0), ("seed", 0)):
        if v.get(k) and fails(case, dict(v, **{k: x})): v = dict(v, **{k: x})
    for k in ("context_mode", "mutability_mode", "pointer_mode"):
        if case.get("args", {}).get(k):
            c = dict(case, args=dict(case["args"], **{k: None}))
            if fails(c, v): case = c
    # drop items, then lines, keeping line numbers
    name = max(case["files"], key=lambda k: len(case["files"][k]))
    def blank(a, b):
        ls = case["files"][name].split("\n"); new = ls[:a] + [""] * (b - a) + ls[b:]
        return dict(case, files=dict(case["files"], **{name: "\n".join(new)}))
    ls = case["files"][name].split("\n"); a = 0; items = []
    for i, l in enumerate(ls):
        if l.startswith("}") or (l and not l.startswith((" ", "}")) and (l.endswith("}") or l.endswith(";"))): items.append((a, i + 1)); a = i + 1
    for a, b in reversed(items):
        c = blank(a, b)
        if fails(c, v): case = c
    for i in range(len(ls) - 1, -1, -1):
        if case["files"][name].split("\n")[i].strip():
            c = blank(i, i + 1)
            if fails(c, v): case = c
    return dict(viol, case=case, variant=v)

# ---- search
def programs(base, total, W):
    out = []
    def part(w):
        a = base + w * total // W; b = base + (w + 1) * total // W
        e = {"LD_LIBRARY_PATH": SR + "/lib", "FLOWSIM_SYSROOT": SR, "PATH": "/usr/bin:/bin"}
        r = subprocess.run(PRE + [FLOWSIM, "progs", str(a), str(b - a)], env=e, capture_output=True, text=True)
        return [json.loads(l) for l in r.stdout.splitlines()]
    with cf.ThreadPoolExecutor(W) as ex:
        for l in ex.map(part, range(W)): out += l
    return out

def main():
    global SR, PRE
    P = argparse.ArgumentParser(); P.add_argument("--property"); P.add_argument("--tier"); P.add_argument("--seed", type=int)
    P.add_argument("--total", type=int); P.add_argument("--seconds", type=int); P.add_argument("--workers", type=int); P.add_argument("--replay"); P.add_argument("--no-build", action="store_true")
    A = P.parse_args(); os.chdir(VERIF)
    if not A.no_build: sh(os.path.join(HERE, "build.sh")); sh(os.path.join(VERIF, "flowsim/build.sh"))
    SR = sysroot(); make_cargos()
    PRE = ["/usr/bin/setarch", "-R"] if subprocess.run(["setarch", "-R", "true"], capture_output=True).returncode == 0 else []
    if A.replay:
        d = json.load(open(A.replay)); x = holds(d["property"], d["case"], d["variant"])
        if x and x["key"] == d["key"]: print(f"{x['key']}: {x['what']}"); sys.exit(1)
        print("no violation" if not x else f"another violation: {x['what']}"); sys.exit(3 if x else 0)
    prop = A.property; tier = A.tier or os.environ.get("VERIF_TIER") or "quick"; seed = A.seed if A.seed is not None else int(os.environ.get("VERIF_SEED") or 1)
    total = A.total or QUICK[prop] * (40 if tier == "thorough" else 1); limit = A.seconds or (3000 if tier == "thorough" else 240)
    W = A.workers or max(1, min(8, os.cpu_count() or 1)); t0 = time.time()
    print(f"{prop}: seed {seed}, tier {tier}, up to {total} programs x {VARIANTS[prop]} simulated processes, code under test /repo", flush=True)
    base = (seed % 4000) * 1_000_000 + 500_000
    R = []; viols = []
    chunk = 1600
    for a in range(0, total, chunk):
        if time.time() - t0 > limit or viols: break
        progs = programs(base + a, min(chunk, total - a), W)
        with cf.ThreadPoolExecutor(W) as ex:
            def go(p):
                if time.time() - t0 > limit or viols: return None
                return p["seed"], one(prop, p["seed"], p)
            for x in ex.map(go, progs):
                if not x: continue
                R.append(x)
                for v in x[1]["viols"]: viols.append((x[0], v))
    if not R: harness_error("nothing was evaluated")
    bad = [x for x in R if x[1].get("bad")]
    if bad and not viols: harness_error(f"{len(bad)} fault-free runs without a log: {bad[0][1]['bad']}")
    if not viols and all(x[1]["ref"] for x in R): harness_error("no fault-free run succeeds")
    # the same runs again
    same = diff = 0
    for s, x in R[:: max(1, len(R) // 8)][:8]:
        y = run_case(prop, x["case"], None, 0, [q[1] for q in x["runs"]])
        for p, q in zip(x["runs"], y["runs"]):
            if p[2:6] == q[2:6]: same += 1
            else: diff += 1; os.environ.get("PS_DEBUG") and print(x["request"], p, q)
    if diff: print(f"note: {diff} of {same + diff} runs differed when repeated")
    wall = time.time() - t0
    runs = [q for _, x in R for q in x["runs"]]
    fired = {}
    for q in runs:
        for f in q[3]: fired[f] = fired.get(f, 0) + 1
    answers = {}
    for _, x in R: k = f"{x['request']}: {x['answer']}"; answers[k] = answers.get(k, 0) + 1
    statuses = {}
    for q in runs: statuses[str(q[2])] = statuses.get(str(q[2]), 0) + 1
    nontrivial = {q[0] for q in runs if q[3]} if prop == "C18" else {q[0] for _, x in R if not x["ref"] for q in x["runs"]}
    path = None
    if viols:
        os.makedirs("replays", exist_ok=True)
        for s, v in sorted(viols, key=lambda t: len(json.dumps(t[1]["case"])))[:5]:
            path = f"replays/{prop}-{seed}-{s}.json"
            m = minimise(prop, v)
            a, b = holds(prop, m["case"], m["variant"]), holds(prop, m["case"], m["variant"])
            if not a or a["key"] != v["key"]: path = None; continue
            json.dump(dict(property=prop, seed=s, found=v["what"], replay=f"python3 procsim/run.py --replay {path}", **dict(m, what=a["what"])), open(path, "w"), indent=1)
            print(f"{a['key']}: {a['what']}\nreplayed twice: {'identical' if b and a['what'] == b['what'] else 'DIFFERENT'}\nrequest {json.dumps(m['case'].get('args', 'ifc'))}\nprocess {json.dumps(m['variant'])}")
            for n, t in m["case"]["files"].items(): print(f"--- {n}\n" + "\n".join(l for l in t.split("\n") if l.strip()))
            break
        else: harness_error(f"no violation replays: {viols[0][1]['what']}")
    cov = dict(evaluations=len(runs), distinct_nontrivial=len(nontrivial),
        rule={"C17": "one evaluation is one execution of the real driver under one seeded allocator layout (order and distance of addresses, their reuse), hash seed, stack position and clock, compared with the execution under layout 0 as sets of places, slice ranges and influence ranges; non-trivial: the reference execution has an answer; distinct: program, request and seeds",
              "C18": "one evaluation is one execution of the real driver with up to three injected faults; non-trivial: at least one fault fired (or killed the process); distinct: program, request, seeds and faults"}[prop],
        samples=[{"run_seed": s, "request": x["case"].get("args", "ifc"), "files": {n: len(t) for n, t in x["case"]["files"].items()}, "process": x["runs"][0][1], "status": x["runs"][0][2]} for s, x in R[:3] if x["runs"]],
        runs_per_hour=round(len(runs) / wall * 3600), seeds_per_hour=round(len(R) / wall * 3600), seeds=len(R), requests=answers, exit_statuses=statuses, faults_injected=fired,
        simulated_time={"unit": "interposed calls other than allocations (each question for the time is a simulated millisecond)", "total": sum(q[6] for q in runs)}, allocations=sum(q[7] for q in runs),
        distinct_interleavings=len({q[4] for q in runs}), state_measure="distinct hashes of the sequence of interposed calls and their outcome",
        determinism=dict(runs_repeated=same + diff, differed=diff),
        real_code=["flowistry-driver and ifc-driver as built from /repo, and rustc"], stubs=["libc's allocator, entropy, clock", "outcome of system calls on files, output, threads (interposed, otherwise real)", "cargo (the driver is started as cargo starts it)"], worker_processes=W)
    json_e = dict(property=prop, tier=tier, seed=seed, level="exploration", coverage=cov, assumptions=["faults reach the process through the interposed functions of libc"], wall_s=round(time.time() - t0, 1), violations=len(viols))
    os.makedirs("evidence", exist_ok=True); json.dump(json_e, open(f"evidence/{prop}.json", "w"), indent=1)
    print(f"{len(R)} seeds, {len(runs)} processes, {len(nontrivial)} distinct non-trivial in {wall:.1f} s; requests {json.dumps(answers)}; statuses {json.dumps(statuses)}; faults fired {json.dumps(fired)}")
    if path: print(f"VIOLATION property={prop} replay={path}"); sys.exit(1)
    print(f"{prop} held on everything explored")

try: main()
except SystemExit: raise
except BaseException as e:
    import traceback; traceback.print_exc(); harness_error(repr(e))
