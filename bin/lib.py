"""Shared orchestration: build the harness, run TLC, validate traces, write evidence."""
import hashlib, json, os, re, resource, shutil, signal, subprocess, sys, time, glob, random
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = 8
HANG = 400      # seconds


class ToolError(Exception):
    """the machinery itself failed: no verdict"""


class Violation(Exception):
    def __init__(self, what, replay=None):
        super().__init__(what)
        self.what, self.replay = what, replay


# ------------------------------------------------------------------ build
def tree_hash():
    h = hashlib.sha256()
    for base in (os.path.join(REPO, "src"), os.path.join(HARNESS, "src")):
        for d, _, fs in sorted(os.walk(base)):
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode()); h.update(open(p, "rb").read())
    for p in (os.path.join(REPO, "Cargo.toml"), os.path.join(HARNESS, "Cargo.toml"), os.path.join(HARNESS, "Cargo.lock")):
        h.update(open(p, "rb").read())
    return h.hexdigest()[:16]


def build(bins, rustflags="", tag="", features=None):
    """Builds the harness binaries against /repo's current tree; returns their directory."""
    base = os.path.join(HARNESS, "target")
    os.makedirs(base, exist_ok=True)
    tgt = os.path.join(base, tree_hash() + tag)
    if not os.path.isdir(tgt):
        old = sorted((p for p in glob.glob(base + "/*") if os.path.isdir(p)), key=os.path.getmtime)
        for p in old[:-6]:
            shutil.rmtree(p, ignore_errors=True)
    env = dict(os.environ, RUSTUP_TOOLCHAIN="nightly-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
               CARGO_TARGET_DIR=tgt, RUSTFLAGS=("-Awarnings " + rustflags).strip())
    env.pop("CARGO_BUILD_TARGET", None)
    target = "x86_64-unknown-linux-gnu" if "sanitizer" in rustflags else None    # proc macros must not be instrumented
    cmd = ["cargo", "build", "--offline", "--locked", "--quiet"] + (["--target", target] if target else []) + (["--features", features] if features else []) + sum((["--bin", b] for b in bins), [])
    r = subprocess.run(cmd, cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=1500)
    if r.returncode:
        raise ToolError("harness does not build against /repo:\n" + r.stdout[-4000:])
    os.utime(tgt)
    return os.path.join(tgt, target or "", "debug")


def build_opt(bins, level=2):
    """The same binaries without debug assertions and overflow checks, with the instructions the library has special code for."""
    flags = "-Copt-level=%d -Cdebug-assertions=off -Coverflow-checks=off" % level
    if " bmi2 " in open("/proc/cpuinfo").read():
        flags += " -Ctarget-feature=+bmi1,+bmi2"
    return build(bins, rustflags=flags, tag="-opt%d" % level)


def build_asan(bins):
    """The same binaries, every access to memory watched. None if this machine cannot run them."""
    os.environ["ASAN_OPTIONS"] = "detect_leaks=0:detect_stack_use_after_return=0:allocator_may_return_null=1:hard_rss_limit_mb=3000"
    try:
        d = build(bins, rustflags="-Zsanitizer=address", tag="-asan")
        r = subprocess.run([d + "/" + bins[0]], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=60)
    except (ToolError, subprocess.TimeoutExpired):
        return None
    return None if "Sanitizer" in r.stdout else d


# -------------------------------------------------------------------- TLC
class Tlc:
    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        m = re.findall(r"^(\d+) states generated, (\d+) distinct states found", out, re.M)
        self.transitions, self.states = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        self.ok = "Model checking completed. No error has been found." in out

    def last_state(self):
        s = re.findall(r"^State \d+:.*?\n(.*?)(?=^\n|^State |^\d+ states|\Z)", self.out, re.M | re.S)
        if not s:
            return {}
        return dict(re.findall(r"/\\ (\w+) = (.*)", s[-1]))


def tlc(module, cfg, work, env=None, workers=NPROC, heap="10g", timeout=840, capture=None, extra=()):
    """capture: file that receives the PrintT lines starting with @ (JSON)."""
    md = os.path.join(work, "md-" + os.path.basename(cfg) + "-" + str(random.random())[2:8])
    cmd = ["java", "-Xss256m", "-Xmx" + heap, "-XX:+UseParallelGC", "-XX:ParallelGCThreads=4", "-cp", TLA_CP, "tlc2.TLC",
           "-noGenerateSpecTE", "-workers", str(workers), "-metadir", md, "-config", cfg, *extra, module + ".tla"]
    e = dict(os.environ, **(env or {}))
    e.pop("JAVA_TOOL_OPTIONS", None)
    try:
        p = subprocess.Popen(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        rest = []
        cap = open(capture, "w") if capture else None
        t0 = time.time()
        for line in p.stdout:
            if line.startswith('"@'):
                if cap:
                    cap.write(json.loads(line)[1:] + "\n")
            else:
                rest.append(line)
            if time.time() - t0 > timeout:
                p.kill()
                raise ToolError("TLC timed out on " + module)
        p.wait()
        if cap:
            cap.close()
    finally:
        shutil.rmtree(md, ignore_errors=True)
    return Tlc("".join(rest), p.returncode)


def model_check(module, cfg, work, **kw):
    """The specification itself must be right: anything else is an error of the machinery."""
    r = tlc(module, os.path.join(SPEC, "mc", cfg), work, **kw)
    if not r.ok:
        raise ToolError("model checking %s with %s failed:\n%s" % (module, cfg, r.out[-3000:]))
    return r


JVM_TROUBLE = ("OutOfMemoryError", "StackOverflowError", "Parsing or semantic analysis failed", "java.io", "insufficient memory")


def explain(lines, r):
    st = r.last_state()
    try:
        h, i = int(st["h"]), int(st["i"])
    except (KeyError, ValueError):
        return None, "TLC rejected the trace:\n" + r.out[-1500:]
    line = lines[h - 1]
    j = json.loads(line)
    ev = j["ev"]
    e = json.dumps(ev[i]) if i < len(ev) else "(end)"
    return h - 1, "history %d (%s), event %d is not a step of the specification: %s" % (h, j.get("cfg"), i + 1, e[:600])


def validate(module, files, work, prop, replay_dir, chunk_mb=24, workers=NPROC):
    """Trace validation. files: ndjson files. Returns dict of measured counts; raises Violation."""
    tot = dict(states=0, transitions=0, traces=0, events=0, kinds={})
    sample = None
    all_lines = [l for f in files for l in open(f) if l.strip()]
    total = sum(map(len, all_lines))
    n = max(1, min(4, total >> 21), -(-total // (chunk_mb << 20)))
    # longest first, each to the smallest chunk: chunks of even size
    order = sorted(range(len(all_lines)), key=lambda x: -len(all_lines[x]))
    chunks = [[0, []] for _ in range(n)]
    for x in order:
        c = min(chunks, key=lambda c: c[0])
        c[0] += len(all_lines[x]); c[1].append(x)
    chunks = [[all_lines[x] for x in sorted(c[1])] for c in chunks if c[1]]
    par = min(4, len(chunks))

    def one(n):
        lines = chunks[n]
        path = os.path.join(work, "%s.chunk%d.ndjson" % (module, n))
        with open(path, "w") as fo:
            fo.writelines(lines)
        r = tlc(module, os.path.join(SPEC, "mc", "trace.cfg"), work, env={"TRACE": path}, workers=max(2, workers // par), heap="%dg" % (20 // par))
        os.remove(path)
        return r

    with ThreadPoolExecutor(par) as ex:
        results = list(ex.map(one, range(len(chunks))))
    for lines, r in zip(chunks, results):
        if not r.ok:
            if any(x in r.out for x in JVM_TROUBLE) or "Error:" not in r.out:
                raise ToolError("TLC failed on a trace:\n" + r.out[-3000:])
            hi, what = explain(lines, r)
            os.makedirs(replay_dir, exist_ok=True)
            rp = os.path.join(replay_dir, "%s-trace.ndjson" % prop)
            with open(rp, "w") as fo:
                fo.writelines(lines if hi is None else [lines[hi]])
            with open(rp + ".txt", "w") as fo:
                fo.write(what + "\nre-check: cd %s && TRACE=%s tlc -config mc/trace.cfg %s.tla\n\n%s" % (SPEC, rp, module, r.out[-6000:]))
            raise Violation(what, rp)
        tot["states"] += r.states; tot["transitions"] += r.transitions
        for l in lines:
            j = json.loads(l)
            tot["traces"] += 1; tot["events"] += len(j["ev"])
            for e in j["ev"]:
                k = e["o"]; tot["kinds"][k] = tot["kinds"].get(k, 0) + 1
            if sample is None and 400 < len(l) < 6000:
                sample = j
    if chunks:
        sabotage(module, [l for c in chunks for l in c], work)
    tot["sample"] = sample
    return tot


def sabotage(module, lines, work):
    """The binding must bind: a history with one impossible event must be rejected."""
    rng = random.Random(SEED)
    short = [l for l in lines if len(l) < 20000] or [min(lines, key=len)]
    l = json.loads(rng.choice(short))
    l["ev"] = l["ev"] + [{"o": "die", "why": "sabotage"}]
    path = os.path.join(work, module + ".sabotage.ndjson")
    open(path, "w").write(json.dumps(l) + "\n")
    r = tlc(module, os.path.join(SPEC, "mc", "trace.cfg"), work, env={"TRACE": path}, workers=1, heap="2g")
    if r.ok:
        raise ToolError("a corrupted history was accepted by " + module)


def lazy_cfg(work, name, **k):
    """A configuration of MCLazy."""
    d = dict(D=2, W=2, MaxKeys=9, Loose="FALSE", Family="X", Srcs=2, Emitting="TRUE", Thin=1, Sample=1, Salt=SEED, Bug="none")
    d.update(k)
    p = os.path.join(work, name + ".cfg")
    with open(p, "w") as f:
        f.write("SPECIFICATION MCSpec\nCONSTANTS\n P <- MCP\n" + "".join(" %s = %s\n" % (n, '"%s"' % v if n in ("Family", "Bug") else v) for n, v in d.items()))
        f.write("VIEW MCView\nINVARIANTS KeepsContract IterPrefix IterComplete Direct Exactness Materializes\nPROPERTY Answers\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n")
    return p


def tours(capture, out):
    """Transitions of cursors, one per line -> one line per tree: walks that take every transition of its cursor."""
    groups = {}
    for line in open(capture):
        j = json.loads(line)
        g = groups.setdefault(json.dumps([j["s"], j["x"]]), dict(j=j, edges={}, first=None))
        g["edges"].setdefault(j["a"], {})[json.dumps(j["o"])] = j["b"]
        if j["a"].endswith(", <<>>, 0>>"):
            g["first"] = j["a"]
    n = 0
    with open(out, "w") as f:
        for g in groups.values():
            left = {a: dict(e) for a, e in g["edges"].items()}
            walks, cur, walk = [], g["first"], []
            while True:
                e = left.get(cur)
                if e:
                    o = next((o for o, b in e.items() if b == cur), None) or next(iter(e))
                    walk.append(o); cur = e.pop(o); n += 1
                    continue
                # nearest state with a transition not yet taken
                seen, todo, hit = {cur: []}, [cur], None
                while todo and hit is None:
                    a = todo.pop(0)
                    for o, b in g["edges"].get(a, {}).items():
                        if b not in seen:
                            seen[b] = seen[a] + [o]; todo.append(b)
                            if left.get(b):
                                hit = b; break
                if hit is not None:
                    walk += seen[hit]; cur = hit
                    continue
                walks.append(walk)
                if not any(left.values()) or (cur == g["first"] and not walk):
                    break
                cur, walk = g["first"], []
                if not walks[-1]:
                    break
            f.write(json.dumps(dict(s=g["j"]["s"], x=g["j"]["x"], w=[[json.loads(o) for o in w] for w in walks if w])) + "\n")
    return len(groups), n


# ---------------------------------------------------------------- harness
def _limits():
    """A behaviour that never ends must not take the machine with it: it ends with a failed allocation."""
    resource.setrlimit(resource.RLIMIT_FSIZE, (4 << 30, 4 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_CPU, (HANG // 2, HANG // 2 + 20))    # ends with SIGXCPU


def _limits_mem():
    _limits()
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))


def run_parts(cmd_of, nparts, work, prop, replay_dir, timeout=None, outs=None):
    """Runs the harness in nparts processes. A crash or hang of the code under test is a violation."""
    timeout = timeout or HANG
    ps = []
    for j in range(nparts):
        o = open(os.path.join(work, "part%d.log" % j), "w+")
        ps.append((j, o, subprocess.Popen(cmd_of(j), stdout=o, stderr=subprocess.STDOUT, cwd=work,
                                          preexec_fn=_limits if "-asan" in str(cmd_of(j)[0]) else _limits_mem)))
    t0 = time.time()
    logs, bad = [], None
    for j, o, p in ps:
        try:
            rc = p.wait(timeout=max(1, timeout - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            p.kill(); p.wait(); rc = "hang"
        if rc == -signal.SIGXCPU:
            rc = "hang"
        if rc != 0 and bad is None:         # one is enough
            for _, _, q in ps:
                if q is not p and q.poll() is None:
                    q.kill(); q.wait()
        o.seek(0); log = o.read(); logs.append(log)
        if rc != 0 and bad is None:
            bad = (j, rc, log)
    if bad:
        j, rc, log = bad
        at = ""
        cand = [outs(j) + ".at"] if outs else []
        for c in cand:
            if os.path.exists(c):
                at = open(c).read()
        os.makedirs(replay_dir, exist_ok=True)
        rp = os.path.join(replay_dir, "%s-crash.txt" % prop)
        open(rp, "w").write("command: %s\nended with: %s\nwhile running: %s\noutput:\n%s\n" % (" ".join(map(str, cmd_of(j))), rc, at, log[-4000:]))
        if isinstance(rc, int) and rc == -9:
            raise ToolError("harness process was killed (memory?)")
        raise Violation("the process running the code under test ended with %s while running %s" % (rc, at), rp)
    return logs


def thin(path, k):
    """Keeps one line in k."""
    lines = open(path).read().splitlines(True)
    with open(path, "w") as f:
        f.writelines(lines[SEED % k::k])


def replay_scripts(hist, prop, md, mw, script_file, work, replay_dir, nparts=NPROC, mode="replay", prop_checked=None):
    """prop_checked: only crashes count, and they count for that property."""
    first = ["replay", prop, str(md), str(mw)] if mode == "replay" else [mode, str(md), str(mw)]
    prop = prop_checked or prop
    logs = run_parts(lambda j: [hist] + first + [script_file, str(j), str(nparts)], nparts, work, prop, replay_dir,
                     outs=lambda j: script_file)
    n = 0
    for log in logs:
        for line in log.splitlines():
            if line.startswith("MISMATCH") and not prop_checked:
                _, c, ei, si, msg = line.split(" ", 4)
                s = open(script_file).read().splitlines()[int(si)]
                os.makedirs(replay_dir, exist_ok=True)
                rp = os.path.join(replay_dir, "%s-script.ndjson" % prop)
                open(rp, "w").write(s + "\n")
                open(rp + ".txt", "w").write("%s\nre-run: %s one %s %s %s %s %s %s 0\n" % (line, hist, prop, md, mw, rp, c, ei))
                raise Violation("script of the specification on %s (embedding %s): %s" % (c, ei, msg), rp)
            if line.startswith("REPLAYED"):
                n += int(line.split()[1])
    return n


# --------------------------------------------------------------- evidence
def run_check(prop, tier, fn):
    global HANG
    HANG = 400 if tier == "quick" else 3000
    t0 = time.time()
    work = os.path.join(VERIF, "work", "%s-%d" % (prop, os.getpid()))
    replay_dir = os.path.join(VERIF, "replay")
    os.makedirs(work, exist_ok=True)
    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
    rc, viol = 0, 0
    try:
        fn(dict(prop=prop, tier=tier, seed=SEED, work=work, replay=replay_dir, cov=cov, thorough=tier == "thorough"))
        print("%s held on everything explored: %s" % (prop, json.dumps({k: v for k, v in cov.items() if k != "samples"})))
    except Violation as v:
        rc, viol = 1, 1
        print("what: " + v.what)
        print("VIOLATION property=%s replay=%s" % (prop, v.replay))
        cov["samples"].append({"violation": v.what})
    except (ToolError, subprocess.TimeoutExpired) as e:
        rc = 2
        print("TOOL ERROR (no verdict): %s" % e)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    if not cov["samples"]:
        cov["samples"] = ["none"]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(dict(property=prop, tier=tier, seed=SEED, level="model_checking", coverage=cov,
                       assumptions=ASSUME, wall_s=round(time.time() - t0, 2), violations=viol), f, indent=1)
    sys.stdout.flush()
    return rc


ASSUME = ["rustc/LLVM, TLC and the JVM are correct", "the harness records calls and results faithfully (public API only)",
          "structural models are exhaustive only within their constants; code behaviour is decided on the recorded traces and replayed scripts"]


def add_model(cov, r, name):
    cov["states"] += r.states; cov["transitions"] += r.transitions
    cov.setdefault("models", {})[name] = dict(states=r.states, transitions=r.transitions)


def add_traces(cov, t, name="traces"):
    cov["states"] += t["states"]; cov["transitions"] += t["transitions"]
    cov["traces_validated_against_impl"] += t["traces"]
    cov.setdefault(name, {}).update(histories=t["traces"], events=t["events"], by_kind=t["kinds"])
    if t["sample"]:
        cov["samples"].append(t["sample"])
