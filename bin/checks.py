"""One function per property."""
import os, json
from lib import *
from concurrent.futures import ThreadPoolExecutor


def models(c, jobs):
    """jobs: (module, cfg, capture file or None). Runs them side by side."""
    with ThreadPoolExecutor(4) as ex:
        fs = [(m, cf, ex.submit(model_check, m, cf, c["work"], workers=2 if len(jobs) > 1 else NPROC, heap="6g", capture=cap)) for m, cf, cap in jobs]
        for m, cf, f in fs:
            add_model(c["cov"], f.result(), "%s/%s" % (m, cf[:-4]))


def structural(c):
    """Structural models: exhaustive within small constants; one script per transition, replayed on every configuration."""
    hist = c["bin"] + "/hist"
    sets = [("MCDense", "dense_1", 1, 4), ("MCDense", "dense_2", 2, 3), ("MCDense", "dense_3", 3, 3),
            ("MCSparse", "sparse_1", 1, 4), ("MCSparse", "sparse_2", 2, 3), ("MCSparse", "sparse_3q", 3, 3)]
    if c["thorough"]:
        sets += [("MCDense", "dense_2b", 2, 3), ("MCDense", "dense_3b", 3, 3), ("MCSparse", "sparse_2b", 2, 3), ("MCSparse", "sparse_3", 3, 3), ("MCSparse", "sparse_3b", 3, 3)]
    models(c, [(m, cf + ".cfg", os.path.join(c["work"], cf + ".scripts")) for m, cf, _, _ in sets] +
           ([("MCDense", "dense_vals5.cfg", None), ("MCSparse", "sparse_vals5.cfg", None)] if c["thorough"] else []))
    n = 0
    for m, cf, md, mw in sets:
        n += replay_scripts(hist, c["prop"], md, mw, os.path.join(c["work"], cf + ".scripts"), c["work"], c["replay"])
    c["cov"]["scripts_replayed_on_impl"] = n
    c["cov"]["traces_validated_against_impl"] += n


def histories(c):
    hist, w = c["bin"] + "/hist", c["work"]
    out = lambda j: os.path.join(w, "hist%d.ndjson" % j)
    run_parts(lambda j: [hist, "gen", c["prop"], c["tier"], str(c["seed"]), str(j), str(NPROC), out(j)], NPROC, w, c["prop"], c["replay"], outs=out)
    add_traces(c["cov"], validate("TraceMap", [out(j) for j in range(NPROC)], w, c["prop"], c["replay"]))


def contents(c):
    c["bin"] = build(["hist"])
    structural(c)
    histories(c)


def container(c):
    contents(c)
    optimised(c, "hist", "TraceMap", level=0)


def nodes(c):
    """C12: the nodes materialization builds, as they lie in memory, under every later history of their children (exhaustive); scripts on real trees; histories."""
    c["bin"] = build(["hist"])
    sets = [("node_5r", 5), ("node_5i", 5), ("node_6r", 6), ("node_6i", 6)] + [("node_7r", 7), ("node_7i", 7)] * c["thorough"]
    cap = lambda n: os.path.join(c["work"], n + ".scripts")
    models(c, [("MCNode", n + ".cfg", cap(n)) for n, _ in sets])
    k = sum(replay_scripts(c["bin"] + "/hist", c["prop"], c["tier"], w, cap(n), c["work"], c["replay"], mode="nodes") for n, w in sets)
    c["cov"]["scripts_replayed_on_impl"] = k
    c["cov"]["traces_validated_against_impl"] += k
    histories(c)
    optimised(c, "hist", "TraceMap", level=0)


def only_histories(c):
    c["bin"] = build(["hist"])
    histories(c)
    optimised(c, "hist", "TraceMap")


def map_semantics(c):
    contents(c)
    optimised(c, "hist", "TraceMap")


def optimised(c, binary, module, level=2, **env):
    """The same on a build without debug assertions, with other histories."""
    recorded(dict(c, seed=c["seed"] + 1_000 * level + 10), binary, module, exe=build_opt([binary], level) + "/" + binary,
             name="traces_optimised" if level else "traces_unasserted", **env)


def recorded(c, binary, module, timeout=None, exe=None, name=None, **env):
    """Records histories of the real code in 8 processes, then has TLC validate them."""
    exe, w = exe or build([binary]) + "/" + binary, c["work"]
    for k, v in env.items():
        os.environ[k] = str(v)
    out = lambda j: os.path.join(w, "%s%d.ndjson" % (binary, j))
    run_parts(lambda j: [exe, "gen", c["prop"], c["tier"], str(c["seed"]), str(j), str(NPROC), out(j)], NPROC, w, c["prop"], c["replay"], outs=out, timeout=timeout)
    add_traces(c["cov"], validate(module, [out(j) for j in range(NPROC)], w, c["prop"], c["replay"]), name or ("traces" if "traces" not in c["cov"] else "traces_" + binary))


def small_trees(c, *families, loose=False):
    """LazyCursor refines LazyTree (exhaustive); every transition of its cursors is taken by real cursors over real trees."""
    exe, w, q = build(["ops"]) + "/ops", c["work"], not c["thorough"]
    sets = []
    for f in families:
        if f == "3":
            sets.append((2, dict(D=2, MaxKeys=2, Family=f, Srcs=3, Thin=61 if q else 3, Sample=1 if q else 4)))
            continue
        sets += [(2, dict(D=1, Family=f)), (2, dict(D=2, Family=f, Thin=3 if q else 1, Sample=1)),
                 (2, dict(D=3, MaxKeys=2, Family=f, Thin=97 if q else 11, Sample=1 if q else 2))]
        if not q:
            sets += [(3, dict(D=1, W=3, Family=f)), (3, dict(D=2, W=3, MaxKeys=2, Family=f, Thin=7, Sample=3))]
        if loose or not q:
            sets += [(2, dict(D=2, MaxKeys=2, Loose="TRUE", Family=f, Thin=23 if q else 3, Sample=1 if q else 3))]
    names = ["%s%d%s%d" % (k["Family"], k["D"], "l" if "Loose" in k else "", wide) for wide, k in sets]
    with ThreadPoolExecutor(4) as ex:
        fs = [ex.submit(model_check, "MCLazy", lazy_cfg(w, n, **k), w, workers=2, heap="4g", capture=os.path.join(w, n + ".edges")) for n, (_, k) in zip(names, sets)]
        for n, f in zip(names, fs):
            add_model(c["cov"], f.result(), "MCLazy/" + n)
    files = []
    for n, (wide, _) in zip(names, sets):
        jobs = os.path.join(w, n + ".jobs")
        trees, edges = tours(os.path.join(w, n + ".edges"), jobs)
        c["cov"]["cursor_transitions_taken_by_impl"] = c["cov"].get("cursor_transitions_taken_by_impl", 0) + edges
        out = lambda j, n=n: os.path.join(w, "run-%s-%d.ndjson" % (n, j))
        run_parts(lambda j: [exe, "run", c["prop"], c["tier"], str(c["seed"]), str(j), "4", out(j), jobs, str(wide)], 4, w, c["prop"], c["replay"], outs=out)
        files += [out(j) for j in range(4)]
    add_traces(c["cov"], validate("TraceLazy", files, w, c["prop"], c["replay"]), "traces_of_model")


def lazy(n, *families, loose=False, opt=0):
    def f(c):
        small_trees(c, *families, loose=loose)
        if opt and c["thorough"]:       # minutes to compile
            optimised(c, "ops", "TraceLazy", OPS_N=opt)
        optimised(c, "ops", "TraceLazy", level=0, OPS_N=n // 4)
        recorded(c, "ops", "TraceLazy", OPS_N=n)
    return f


def materialized(c):
    """C11: also large results, observed in every way a container can be."""
    lazy(700, "F", "X", loose=True)(c)
    recorded(c, "hist", "TraceMap")


def bits(c):
    """C20: the array queue's structural model refines the set queue (exhaustive); its scripts on every real queue type; recorded histories."""
    exe = build(["bits"]) + "/bits"
    sets = [(1, 4), (2, 2), (2, 3), (3, 2)] + [(4, 2), (2, 4), (3, 3)] * c["thorough"]
    cap = lambda n, wb: os.path.join(c["work"], "bits_%d_%d.scripts" % (n, wb))
    models(c, [("MCBits", "bits_%d_%d.cfg" % (n, wb), cap(n, wb)) for n, wb in sets])
    k = sum(replay_scripts(exe, c["prop"], n, wb, cap(n, wb), c["work"], c["replay"]) for n, wb in sets)
    c["cov"]["scripts_replayed_on_impl"] = k
    c["cov"]["traces_validated_against_impl"] += k
    recorded(c, "bits", "TraceBits")
    optimised(c, "bits", "TraceBits", level=0)


def memory(c):
    """C19: every heap block of recorded histories; then behaviours of the other specifications with every access watched."""
    recorded(c, "mem", "TraceMem")
    optimised(c, "mem", "TraceMem", level=0)
    d, w = build_asan(["hist", "own", "ops"]), c["work"]
    if d is None:
        c["cov"]["note"] = "AddressSanitizer builds cannot run here: accesses outside of blocks were only looked for by guard bytes"
        return
    sets = [("MCDense", "dense_2", 2, 3), ("MCDense", "dense_3", 3, 3), ("MCSparse", "sparse_2", 2, 3)]
    nsets = [("node_5r", 5), ("node_5i", 5)]
    cap = lambda n: os.path.join(w, n + ".scripts")
    models(c, [(m, n + ".cfg", cap(n)) for m, n, _, _ in sets] + [("MCNode", n + ".cfg", cap(n)) for n, _ in nsets])
    for n in [n for _, n, _, _ in sets] + [n for n, _ in nsets]:
        thin(cap(n), 3 if c["thorough"] else 29)
    k = sum(replay_scripts(d + "/hist", "C01", md, mw, cap(n), w, c["replay"], prop_checked=c["prop"]) for _, n, md, mw in sets)
    k += sum(replay_scripts(d + "/hist", c["tier"], c["tier"], wide, cap(n), w, c["replay"], mode="nodes", prop_checked=c["prop"]) for n, wide in nsets)
    n = 0
    os.environ["OPS_N"] = "40"
    for exe, like in [("hist", p) for p in ("C01", "C03", "C12", "C16")] + [("own", "C13"), ("own", "C14")] + [("ops", p) for p in ("C10", "C11", "C17", "C18")]:
        out = lambda j: os.path.join(w, "asan%d.ndjson" % j)
        run_parts(lambda j: [d + "/" + exe, "gen", like, c["tier"], str(c["seed"]), str(j), str(NPROC), out(j)], NPROC, w, c["prop"], c["replay"], outs=out)
        n += sum(1 for j in range(NPROC) for _ in open(out(j)))
    c["cov"]["behaviours_with_every_access_watched"] = k + n


def ownership(c):
    """C13, C14: every call of user code inside every operation, and a panic at each (exhaustive); its scripts on real containers; recorded histories."""
    exe, w = build(["own"]) + "/own", c["work"]
    sets = ["own_3", "own_4", "own_3p", "own_4p"]
    cap = lambda n: os.path.join(w, n + ".scripts")
    models(c, [("MCOwn", n + ".cfg", cap(n)) for n in sets] +
           ([("MCDense", "dense_faulty.cfg", None), ("MCSparse", "sparse_faulty.cfg", None)] if c["prop"] == "C14" else []))
    files = []
    for n in sets:
        if "4" in n and not c["thorough"]:
            thin(cap(n), 4)
        out = lambda j, n=n: os.path.join(w, "%s-%d.ndjson" % (n, j))
        run_parts(lambda j: [exe, "run", c["prop"], c["tier"], str(c["seed"]), str(j), str(NPROC), out(j), cap(n)], NPROC, w, c["prop"], c["replay"], outs=out)
        files += [out(j) for j in range(NPROC)]
    add_traces(c["cov"], validate("TraceOwn", files, w, c["prop"], c["replay"]), "traces_of_model")
    recorded(c, "own", "TraceOwn")
    optimised(c, "own", "TraceOwn", level=0)
    if c["prop"] == "C13":      # the other Drop of the containers (feature may_dangle)
        recorded(dict(c, seed=c["seed"] + 2_000), "own", "TraceOwn", exe=build(["own"], tag="-dangle", features="dangle") + "/own", name="traces_may_dangle")


def consts(c):
    """C22: the two ways the library runs its loops, modelled, denote the same visits; every loop and integer of the real code."""
    models(c, [("MCConst", "const.cfg", None)])
    recorded(c, "consts", "TraceConst")
    optimised(c, "consts", "TraceConst", level=0)
    try:
        build(["cloop"])
    except ToolError as e:
        # a crate-private macro read from its file: nothing a user can rely on if it has moved
        c["cov"]["note"] = "const_loop! could not be built on its own: " + str(e)[-300:]
        return
    recorded(c, "cloop", "TraceConst")


CHECKS = {
    "C01": map_semantics, "C02": container, "C03": container, "C04": container, "C16": container,
    "C12": nodes, "C15": only_histories,
    "C05": lazy(360, "I"), "C06": lazy(360, "U"), "C07": lazy(110, "MI", "3"), "C08": lazy(110, "MU", "3"), "C09": lazy(300, "F"), "C10": lazy(360, "X", opt=200),
    "C11": materialized,
    "C13": ownership, "C14": ownership,
    "C19": memory,
    "C20": bits, "C22": consts,
    "C17": lazy(300, "X", "MI", "MU"), "C18": lazy(110, "X", "MU", "I", loose=True), "C21": lazy(240, "F", "X"),
}

BINS = ["hist", "ops", "own", "mem", "bits", "consts"]
_STRUCT = ("Exhaustive within W=3..4, D=1..3, 4-5 keys for the structural models; every transition's script is replayed on all container "
           "configurations; recorded random and systematic histories of all configurations are validated by TLC. Trusts TLC, rustc and the recording harness.")
_LAZY = ("The cursor model (LazyCursor) is exhaustive over all cursors, walks, iterations and materializations of the listed expression shapes over all small "
         "contents of two or three sources; each of its transitions is taken by real cursors over real trees. Larger trees, the other widths and depths, "
         "typed and 32-fold expressions are sampled; every recorded event is decided by TLC.")
_T1 = "TLA+ structural models (TLC exhaustive) + replay of every transition's script on real containers + TLC trace validation"
NOTES = {
    **{p: (_T1, _STRUCT) for p in ("C01", "C02", "C03", "C04", "C16")},
    "C12": ("TLA+ model of a node in memory (TLC exhaustive) + replay of every transition on real filled/materialized trees + TLC trace validation",
            "The node model is exhaustive over every way a node of up to 5-7 digits can be born and every later history of its children; "
            "scripts are replayed at every level of real trees; later lives of materialized containers are sampled, exact oracle."),
    **{p: ("TLA+ cursor model checked against the denotational model (TLC exhaustive) + its transition tours on real cursors + TLC trace validation", _LAZY)
       for p in ("C05", "C06", "C07", "C08", "C09", "C10", "C11", "C17", "C18", "C21")},
    "C15": ("TLC trace validation of boundary, out-of-range and full-occupancy histories, on debug and optimised builds",
            "Systematic: every boundary index of every configuration, full nodes and trees, all W children at each level; sampled otherwise. Exact oracle (MapSpec)."),
    "C13": ("TLA+ model of every call of user code inside every operation (TLC exhaustive) + replay on real containers + TLC trace validation",
            "The model is exhaustive for 3-4 keys; element lives of larger histories, lazy views and materializations are sampled."),
    "C14": ("TLA+ model with a panic at every call of user code (TLC exhaustive) + replay on real containers + TLC trace validation",
            "The model is exhaustive for 3-4 keys and every panic point; panics inside larger histories are sampled."),
    "C19": ("TLC trace validation of every heap block of recorded histories (Memory.tla) + the behaviours of the other specifications executed with every access watched",
            "Block life is exact for the recorded histories; accesses outside of blocks are observed by guard bytes and by an AddressSanitizer build while it "
            "executes scripts and histories of the other specifications."),
    "C20": ("TLA+ structural model of the array queue (TLC exhaustive) + script replay + TLC trace validation",
            "Model exhaustive for up to 4 words and 9 positions, replayed on every queue type under many embeddings; all byte values with all trim points; sampled histories of every block, queue and primitive."),
    "C22": ("TLA+ model of the loops (TLC exhaustive) + TLC trace validation of every loop and integer",
            "Exhaustive: all bounds 0..9, all stop positions, both directions, every integer; const_loop! is compiled from its source file."),
}
