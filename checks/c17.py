"""C17 command lines: every option with every value of its alphabet, all pairs of options, input from file, and the batch
command line; each accepted command line is compared with the simulation that it documents."""
import csv
import glob
import io
import itertools
import json
import os
import re
import runpy
import shutil
import sys
import multiprocessing

from checks import c13
from mc import crash, env, explore
from mc.report import Report, short_tb

N_METRICS = max(c13.NAMES)
DEFAULTS = dict(n=1000, k=100, a0=0.3, reward_scheme=0, agent_profile_distr=[1, 0, 0], cost_min=1e-5, cost_max=1e-4,
                extra_pool_cost_fraction=0.4, agent_activation_order="random", absolute_utility_threshold=1e-9,
                relative_utility_threshold=0, stake_distr_source="pareto", pareto_param=2, inactive_stake_fraction=0,
                inactive_stake_fraction_known=False, iterations_after_convergence=10, max_iterations=2000,
                generate_graphs=True, seed=None)
BASE = dict(n="4", k="2", cost_min="1e-3", cost_max="2e-3", max_iterations="12", iterations_after_convergence="2", seed="5",
            generate_graphs="no")

F_OK = [("0", 0.0), ("0.5", 0.5), ("1", 1.0), ("1e-3", 1e-3)]
F_BAD = ["-0.1", "nan", "inf", "-inf", "abc", ""]
I_BAD = ["-1", "1.5", "abc", "nan", "", "1e2"]
VALID = {  # option -> texts (list: several values) and the values they stand for
    "n": [("1", 1), ("2", 2), ("3", 3), ("7", 7), ("25", 25)],
    "k": [("1", [1]), ("3", [3]), ("9", [9]), (["2", "4"], [2, 4]), (["4", "1", "2"], [4, 1, 2])],
    "a0": [("0", [0.0]), ("0.3", [0.3]), ("1", [1.0]), ("2.5", [2.5]), (["0.1", "0.4"], [0.1, 0.4]), ("1e-3", [1e-3])],
    "reward_scheme": [(str(i), i) for i in range(5)],
    "agent_profile_distr": [(["1", "0", "0"], [1, 0, 0]), (["0", "1", "0"], [0, 1, 0]), (["0", "0", "1"], [0, 0, 1]), (["4", "2", "1"], [4, 2, 1]),
                            (["0.5", "0.25", "3"], [0.5, 0.25, 3]), (["0", "2.5", "1e-2"], [0, 2.5, 0.01])],
    "cost_min": [("0", 0.0), ("1e-6", 1e-6), ("1.5e-3", 1.5e-3)],
    "cost_max": [("3e-3", 3e-3), ("0.5", 0.5), ("2", 2.0)],
    "extra_pool_cost_fraction": F_OK + [("1.5", 1.5)],
    "agent_activation_order": [(t, t.lower()) for t in ("Random", "random", "Sequential", "SEQUENTIAL", "Semisimultaneous", "simultaneous")],
    "absolute_utility_threshold": F_OK + [("1e-9", 1e-9)],
    "relative_utility_threshold": F_OK + [("2", 2.0)],
    "stake_distr_source": [(t, t.lower()) for t in ("Pareto", "pareto", "Flat", "flat", "Disparity", "File")],
    "pareto_param": [("0.5", 0.5), ("1", 1.0), ("2", 2.0), ("10", 10.0)],
    "inactive_stake_fraction": [("0", 0.0), ("0.25", 0.25), ("0.9", 0.9), ("1e-3", 1e-3)],
    "inactive_stake_fraction_known": [("yes", True), ("no", False)],
    "iterations_after_convergence": [("1", 1), ("3", 3), ("20", 20)],
    "max_iterations": [("1", 1), ("2", 2), ("30", 30)],
    "metrics": [(str(i), [i]) for i in range(1, N_METRICS + 1)] + [(["3", "1", "26"], [3, 1, 26]), (["30", "2", "9"], [30, 2, 9])],
    "generate_graphs": [("yes", True), ("no", False)],
    "seed": [("0", 0), ("5", 5), ("123456789012", 123456789012)],
    "execution_id": [("abc", "abc"), ("my run-2", "my run-2"), ("x", "x")],
    "profile_code": [("yes", None), ("no", None)],
    "input_from_file": [("no", None)],
}
INVALID = {
    "n": ["0"] + I_BAD, "k": ["0"] + I_BAD + [["2", "0"], ["3", "x"], ["1", "-2"]],
    "a0": F_BAD + [["0.3", "-1"], ["x", "0.3"]],
    "reward_scheme": ["-1", "5", "1.0", "abc", "17"],
    "agent_profile_distr": [["1", "0"], ["1"], ["1", "0", "0", "0"], ["-1", "1", "1"], ["nan", "0", "1"], ["inf", "1", "1"], ["a", "b", "c"], ["0", "0", "0"]],
    "cost_min": F_BAD + ["0.5"], "cost_max": F_BAD + ["1e-4", "0"],
    "extra_pool_cost_fraction": F_BAD, "agent_activation_order": ["foo", "", "sequentially"],
    "absolute_utility_threshold": F_BAD, "relative_utility_threshold": F_BAD,
    "stake_distr_source": ["uniform", "", "paretoo"], "pareto_param": ["0", "-1", "nan", "inf", "x", ""],
    "inactive_stake_fraction": ["-0.1", "1.01", "nan", "inf", "x", "1", ""],
    "iterations_after_convergence": ["0"] + I_BAD, "max_iterations": ["0"] + I_BAD,
    "metrics": ["0", str(N_METRICS + 1), "x", "1.5", "-1", ["1", "99"]],
    "seed": ["-1", "1.5", "x", "1e3", ""],
}
LATE = {("inactive_stake_fraction", "1"), ("agent_profile_distr", "0 0 0"), ("cost_min", "0.5"), ("cost_max", "1e-4"), ("cost_max", "0")}


def tokens(opts, style=0):
    """The command line for {option: text}."""
    out = []
    for o, t in opts.items():
        if t == "yes" and isinstance(VALID[o][0][0], str) and VALID[o][0][1] in (True, None):
            out.append("--" + o)
        elif t == "no":
            out.append("--no-" + o)
        elif isinstance(t, list):
            out += ["--" + o] + t
        elif style or t.startswith("-") or t == "":
            out.append("--%s=%s" % (o, t))
        else:
            out += ["--" + o, t]
    return out


def value_of(o, t):
    for text, v in VALID[o]:
        if text == t:
            return v
    return {"n": int, "max_iterations": int, "iterations_after_convergence": int, "seed": int, "k": lambda x: [int(x)],
            "generate_graphs": lambda x: x == "yes"}.get(o, float)(t)


def expected(opts):
    """The arguments of the simulation that this command line documents."""
    out = dict(DEFAULTS)
    for o, t in opts.items():
        v = value_of(o, t)
        if o not in ("profile_code", "input_from_file"):
            out[o] = v
    return out


def plain(v):
    """[3] and 3 are the same for parameters that may have several values."""
    if isinstance(v, list) and len(v) == 1:
        return plain(v[0])
    if isinstance(v, bool) or v is None:
        return v
    if isinstance(v, (int, float)):
        return float(v)
    if isinstance(v, list):
        return [plain(x) for x in v]
    return v


def same(o, a, b):
    if o in ("agent_activation_order", "stake_distr_source") and isinstance(a, str):
        return a.lower() == b.lower()
    return plain(a) == plain(b) and isinstance(a, bool) == isinstance(b, bool)


class Seen(Exception):
    pass


def picture(m):
    """What this simulation works with."""
    rs = m.reward_scheme
    ags = list(m.schedule.agents)
    return dict(
        n=len(ags), k=rs.k, a0=rs.a0, scheme=type(rs).__name__, order=type(m.schedule).__name__,
        relative_utility_threshold=m.relative_utility_threshold, absolute_utility_threshold=m.absolute_utility_threshold,
        max_iterations=m.max_iterations, iterations_after_convergence=m.iterations_after_convergence,
        extra_pool_cost_fraction=m.extra_pool_cost_fraction, generate_graphs=bool(m.generate_graphs), phases=m.total_phases,
        stakes=[float(a.stake) for a in ags], costs=[float(a.cost) for a in ags], kinds=[type(a).__name__ for a in ags],
        total=float(m.total_stake), metrics=sorted(m.datacollector.model_vars))


def start(entry, files=()):
    """entry() in a forked process in an empty directory with these files. What happened."""
    where = env.new_dir("m")
    for name, text in files:
        with open(os.path.join(where, name), "w") as f:
            f.write(text)

    def go():
        os.chdir(where)
        import logic.sim as sim
        made = []
        real = sim.Simulation.__init__

        def init(self, *a, **kw):
            real(self, *a, **kw)
            made.append(picture(self))
        sim.Simulation.__init__ = init
        err = io.StringIO()
        sys.stderr = err
        try:
            entry()
            end = "ok"
        except SystemExit as e:
            end = "ok" if e.code in (0, None) else "refused"
        except Exception:
            end = "raised: " + short_tb()
        return dict(end=end, made=made, err=err.getvalue()[-300:])
    r = crash.forked(go)
    if "error" in r:
        r = dict(end="raised: " + r["error"], made=[], err="")
    out = {}
    for dp, dn, fn in os.walk(where):
        for f in fn:
            p = os.path.join(dp, f)
            rel = os.path.relpath(p, where)
            if rel not in dict(files):
                out[rel] = open(p, "rb").read() if not rel.endswith((".png", ".pkl")) else b""
    r["files"] = out
    shutil.rmtree(where, ignore_errors=True)
    return r


def cli(toks, run):
    def entry():
        import main as script
        import logic.sim as sim
        if not run:
            sim.Simulation.run_model = lambda self: None
        sys.argv = ["main.py"] + toks
        script.main()
    return entry


def api(kwargs, run):
    def entry():
        import logic.sim as sim
        m = sim.Simulation(**kwargs)
        if run:
            m.run_model()
    return entry


def files_for(opts):
    n = int(opts.get("n", 1000))
    return [("synthetic-stake-distribution-%d-agents.csv" % n, ",".join(str(1 + 2 * i) for i in range(n)) + "\n")] \
        if str(opts.get("stake_distr_source", "")).lower() == "file" else []


def exported(r):
    got = [p for p in r["files"] if os.path.basename(p) == "args.json"]
    return json.loads(r["files"][got[0]]) if len(got) == 1 else None


def normal(r):
    """The output files without what differs from run to run (arguments are judged apart, names contain the execution id)."""
    out = {}
    for p, data in r["files"].items():
        base = os.path.basename(p)
        if not p.startswith("output/") or base in ("args.json", "experiment-tracker.csv"):
            continue
        m = re.match("final-state-(pools|stakeholders)", base)
        name = m.group(0) if m else base.rsplit("-", 1)[-1] if base.endswith(".png") else base
        k = (p.count("/"), name)
        while k in out:
            k += ("again",)
        out[k] = data
    return out


def judge(opts, r, run, files=()):
    want = expected(opts)
    if r["end"] != "ok":
        return ["refused or failed: %s %s" % (r["end"][-800:], r["err"])]
    out = []
    args = exported(r)
    if args is None:
        return ["no exported arguments: %r" % sorted(r["files"])]
    for o, v in want.items():
        if o == "seed" and v is None:
            continue
        if o not in args or not same(o, args[o], v):
            out.append("option %s is %r, the exported arguments have %r" % (o, v, args.get(o, "missing")))
    if len(r["made"]) != 1:
        return out + ["%d simulations were made" % len(r["made"])]
    # the simulation itself, directly
    p = r["made"][0]
    first = lambda v: v[0] if isinstance(v, list) else v
    f = want["inactive_stake_fraction"] if want["inactive_stake_fraction_known"] else 0
    direct = dict(n=want["n"], a0=first(want["a0"]), relative_utility_threshold=want["relative_utility_threshold"],
                  absolute_utility_threshold=want["absolute_utility_threshold"], max_iterations=want["max_iterations"],
                  iterations_after_convergence=want["iterations_after_convergence"], extra_pool_cost_fraction=want["extra_pool_cost_fraction"],
                  generate_graphs=want["generate_graphs"])
    if not f:
        direct["k"] = first(want["k"])
    for o, v in direct.items():
        if p[o] != v:
            out.append("option %s is %r, the simulation has %r" % (o, v, p[o]))
    if "metrics" in want and p["metrics"] != sorted({c13.NAMES[i] for i in want["metrics"]}):
        out.append("metrics %r, the simulation records %r" % (want["metrics"], p["metrics"]))
    if abs(sum(p["stakes"]) - (1 - want["inactive_stake_fraction"])) > 1e-9:
        out.append("inactive fraction %r, the agents have %r" % (want["inactive_stake_fraction"], sum(p["stakes"])))
    if any(not want["cost_min"] <= c <= want["cost_max"] for c in p["costs"]):
        out.append("costs %r, bounds %r %r" % (p["costs"][:9], want["cost_min"], want["cost_max"]))
    if "execution_id" in want and not any(x.split("/")[1].endswith("-" + want["execution_id"]) for x in r["files"] if x.startswith("output/") and x.count("/") > 1):
        out.append("execution id %r, files %r" % (want["execution_id"], sorted(r["files"])[:5]))
    # and all of it, against the same simulation made without the command line
    if want["seed"] is not None:
        other = start(api(want, run), files)
        if other["end"] != "ok":
            return out + ["the simulation %r fails: %s" % (want, other["end"])]
        q = other["made"][0]
        if p != q:
            out += ["%s is %r, without the command line %r" % (o, p[o], q[o]) for o in p if p[o] != q[o]]
        a, b = normal(r), normal(other)
        out += ["file %s differs from that of the simulation made without the command line" % (x,)
                for x in sorted(set(a) | set(b)) if a.get(x) != b.get(x)]
    return out


def judge_refused(opts, o, t, r):
    out = []
    if r["end"] == "ok":
        out.append("accepted, the exported arguments have %s=%r" % (o, (exported(r) or {}).get(o)))
    done = [p for p in r["files"] if os.path.basename(p) in ("metrics.csv", "experiment-tracker.csv")]
    if done:
        out.append("a simulation was run: %r" % done)
    text = " ".join(t) if isinstance(t, list) else t
    if (o, text) not in LATE and r["files"]:
        out.append("refused only after files were written: %r" % sorted(r["files"]))
    return out


# ---- jobs --------------------------------------------------------------------------------------------------------------

def base_for(opts):
    b = dict(BASE)
    for o, t in opts.items():
        if o in ("n", "seed") and t == "":
            pass
        b[o] = t
    return b


def valid_jobs():
    for o, vals in VALID.items():
        for t, _ in vals:
            for style in (0, 1) if not isinstance(t, list) and t not in ("yes", "no") else (0,):
                yield ("valid", {o: t}, style, True)
    yield ("valid", dict(generate_graphs="yes", metrics=["3", "1", "26"]), 0, True)


def pair_values(o, deep):
    vals = [t for t, _ in VALID[o]]
    if o == "metrics":
        vals = ["2", ["3", "1", "26"]]
    if o == "stake_distr_source":
        vals = ["Flat", "Disparity", "File"]
    if o in ("profile_code", "input_from_file"):
        vals = ["no"]
    return vals if deep else vals[:1] + vals[-1:] if len(vals) > 1 else vals


def pair_jobs():
    deep = env.THOROUGH
    for a, b in itertools.combinations(sorted(VALID), 2):
        for s, t in itertools.product(pair_values(a, deep), pair_values(b, deep)):
            yield ("pair", {b: t, a: s}, 0, False)


def invalid_jobs():
    for o, vals in INVALID.items():
        for t in vals:
            yield ("invalid", o, t, {})
            if not isinstance(t, list):
                yield ("invalid", o, t, dict(n="3", a0="0.5", seed="1"))


def full_jobs():
    yield ("defaults", {}, 0, False)
    alln = {o: pair_values(o, False)[-1] for o in VALID}
    yield ("pair", alln, 0, False)
    yield ("pair", {o: pair_values(o, False)[0] for o in VALID}, 0, False)
    yield ("pair", dict(reversed(list(alln.items()))), 0, False)
    for leave in VALID:
        yield ("pair", {o: t for o, t in alln.items() if o != leave}, 0, False)


FILES = [
    dict(n=3, k=2, a0=0.5, stake_distr_source="flat", agent_profile_distr=[0, 1, 0], seed=4, cost_min=0.001, cost_max=0.004, metrics=[1, 5]),
    dict(n=5, k=[2, 3], a0=[0.1, 0.2], stake_distr_source="pareto", agent_profile_distr=[2, 1, 1], inactive_stake_fraction=0.25,
         inactive_stake_fraction_known=True, relative_utility_threshold=[0, 0.1], absolute_utility_threshold=1e-5, seed=9, pareto_param=3.0,
         agent_activation_order="semisimultaneous", reward_scheme=2, extra_pool_cost_fraction=0.7, execution_id="from-file"),
    dict(n=2, k=4, a0=0, reward_scheme=4, agent_activation_order="simultaneous", iterations_after_convergence=4, max_iterations=6, metrics=None, seed=0),
    dict(n=1, k=1, a0=1.5, reward_scheme=1, agent_activation_order="sequential", agent_profile_distr=None, seed=3, execution_id="x"),
]


def file_args(f):
    full = dict(DEFAULTS, metrics=[1, 2], execution_id="", seq_id=-1, parent_dir="", max_iterations=10, iterations_after_convergence=2,
                generate_graphs=False)
    full.update(f)
    return full


def file_jobs():
    for i in range(len(FILES)):
        yield ("file", i, {}, 0)
        for j, opts in enumerate((dict(n="7", k="5", seed="77"), dict(agent_profile_distr=["0", "0", "1"], metrics="3", a0=["0.7", "0.8"], execution_id="other"),
                     dict(generate_graphs="yes", inactive_stake_fraction="0.5", reward_scheme="3", stake_distr_source="Disparity", max_iterations="3"))):
            yield ("file", i, opts, j % 2)


def file_job(i, opts, style):
    f = file_args(FILES[i])
    text = json.dumps(f)
    r = start(cli((["--input_from_file"] if style else []) + tokens(opts) + ([] if style else ["--input_from_file"]), True), [("args.json", text)])
    if r["end"] != "ok" or len(r["made"]) != 1:
        return ["input from file: %s %s" % (r["end"], r["err"])]
    out = []
    args = exported(r)
    for o, v in f.items():
        if v is None:
            continue
        if args is None or o not in args or not same(o, args[o], v):
            out.append("the file has %s=%r, the exported arguments %r" % (o, v, (args or {}).get(o, "missing")))
    other = start(api(f, True))
    if other["made"] != r["made"] or normal(other) != normal(r):
        a, b = normal(r), normal(other)
        out.append("the run differs from that of the file's arguments: %r %r" % (
            sorted(x for x in set(a) | set(b) if a.get(x) != b.get(x)), [k for k in r["made"][0] if r["made"][0][k] != other["made"][0][k]]))
    return out


# ---- the batch command line ----------------------------------------------------------------------------------------------

BVALID = {
    "n": [("3", [3]), (["2", "5"], [2, 5])], "k": [("2", [2]), (["1", "3"], [1, 3])], "a0": [("0.5", [0.5]), (["0", "0.2"], [0.0, 0.2])],
    "inactive_stake_fraction": [("0.25", [0.25]), (["0", "0.5"], [0.0, 0.5])], "inactive_stake_fraction_known": [("yes", [True]), ("no", [False])],
    "pareto_param": [("3", [3.0]), (["1.5", "4"], [1.5, 4.0])], "cost_min": [("1e-4", [1e-4]), (["0", "5e-4"], [0.0, 5e-4])],
    "cost_max": [("5e-3", [5e-3]), (["3e-3", "4e-3"], [3e-3, 4e-3])], "extra_pool_cost_fraction": [("0.9", [0.9]), (["0", "1"], [0.0, 1.0])],
    "stake_distr_source": [("Flat", ["flat"]), ("pareto", ["pareto"])], "reward_scheme": [(str(i), [i]) for i in range(5)],
    "relative_utility_threshold": [("0.1", [0.1]), (["0", "0.5"], [0.0, 0.5])], "absolute_utility_threshold": [("1e-3", [1e-3]), (["0", "1e-2"], [0.0, 1e-2])],
    "iterations_after_convergence": [("3", [3])], "max_iterations": [("5", [5])], "seed": [("0", [0]), ("8", [8])],
    "agent_profile_distr": [(["0", "1", "0"], [[0, 1, 0]]), (["0", "0", "1"], [[0, 0, 1]]), (["1", "1", "1"], [[1, 1, 1]])],
    "execution_id": [("abc", None), ("x y", None)],
}
BBASE = dict(n="4", k="2", cost_min="1e-3", cost_max="2e-3", max_iterations="12", iterations_after_convergence="2", seed="5")
BBASE_VALUES = dict(n=[4], k=[2], cost_min=[1e-3], cost_max=[2e-3], max_iterations=[12], iterations_after_convergence=[2], seed=[5])


def batch_jobs():
    for o, vals in BVALID.items():
        for t, v in vals:
            if isinstance(t, list) and o != "agent_profile_distr" and not env.THOROUGH and o not in ("n", "k", "a0", "cost_min"):
                continue  # one aggregate graph per metric takes its time
            yield ("batch", {o: t})
    names = sorted(BVALID)
    single = {o: [t for t, _ in BVALID[o] if not isinstance(t, list) or o == "agent_profile_distr"] for o in names}
    yield ("batch", {o: single[o][0] for o in names})
    yield ("batch", {o: single[o][-1] for o in names})
    for a, b in itertools.combinations(names, 2):
        yield ("batch", {a: single[a][-1], b: single[b][-1]})


def batch_job(opts):
    line = dict(BBASE, **opts)
    toks = []
    for o, t in line.items():
        toks += ["--" + o] if t == "yes" else ["--no-" + o] if t == "no" else ["--" + o] + (t if isinstance(t, list) else [t])

    def entry():
        import custom_batchrunner as cb
        multiprocessing.current_process()._config["daemon"] = False
        real = cb.custom_batch_run

        def one(*a, **kw):  # the same without worker processes
            kw["number_processes"] = 1
            return real(*a, **kw)
        cb.custom_batch_run = one
        import matplotlib.figure
        matplotlib.figure.Figure.savefig = lambda self, path, *a, **kw: open(path, "wb").close()  # drawing takes most of the time
        sys.argv = ["batch-run.py"] + toks
        runpy.run_path(os.path.join(env.REPO, "batch-run.py"), run_name="__main__")
    r = start(entry)
    if r["end"] != "ok":
        return ["refused or failed: %s %s" % (r["end"], r["err"])]
    want = {o: ([dict((str(x), y) for x, y in BVALID[o])[str(t)]][0] if o in opts else BBASE_VALUES[o]) for o, t in line.items()}
    name = line.get("execution_id", None)
    want.pop("execution_id", None)
    combos = [dict(zip(want, c)) for c in itertools.product(*want.values())]
    runs = [json.loads(d) for p, d in r["files"].items() if os.path.basename(p) == "args.json"]
    out = []
    if len(runs) != len(combos):
        out.append("%d simulations for %d combinations" % (len(runs), len(combos)))
    left = list(combos)
    for a in runs:
        hit = [c for c in left if all(o in a and same(o, a[o], v) for o, v in c.items())]
        if hit:
            left.remove(hit[0])
        else:
            out.append("a simulation with arguments %r was run, the command line asks for %r" % (a, combos[:2]))
    if name and not all(p.split("/")[1] == "1-" + name for p in r["files"] if p.startswith("output/") and p.count("/") > 1):
        out.append("execution id %r, files %r" % (name, sorted(r["files"])[:3]))
    for p in r["made"]:
        if "agent_profile_distr" in opts:
            zero = [k for k, w in zip(("NonMyopic", "Myopic", "Abstain"), want["agent_profile_distr"][0]) if not w]
            if any(k.startswith(z) for k in p["kinds"] for z in zero):
                out.append("profiles %r with weights %r" % (p["kinds"], want["agent_profile_distr"][0]))
    return out


# ---- ---------------------------------------------------------------------------------------------------------------------

def job(args):
    try:
        kind = args[0]
        if kind == "invalid":
            _, o, t, ctx = args
            opts = dict({k: v for k, v in BASE.items() if k != o}, **{k: v for k, v in ctx.items() if k != o})
            opts[o] = t
            probs = judge_refused(opts, o, t, start(cli(tokens(opts), True)))
            return args, 1, probs
        if kind == "file":
            return args, 2, file_job(*args[1:])
        if kind == "batch":
            return args, 1, batch_job(args[1])
        _, opts, style, run = args
        line = dict(opts) if kind == "defaults" else base_for(opts)
        files = files_for(line)
        r = start(cli(tokens(line, style), run), files)
        return args, 2, judge(line, r, run, files)
    except Exception:
        return args, 0, ["unreadable output: " + short_tb()]


def all_jobs():
    return list(valid_jobs()) + list(invalid_jobs()) + list(full_jobs()) + list(file_jobs()) + list(batch_jobs()) + list(pair_jobs())


def main():
    rep = Report("C17", "model_checking", [
        "the default list of metrics and the defaults of batch runs are not judged (their documentation disagrees with itself)",
        "options that take several values: one value and a list of this one value are the same",
        "batch command lines: values reach the simulations; their domains are not documented and not judged",
        "options are not given without a value"])
    explore.preload()
    try:
        import main as script  # noqa: F401
        import custom_batchrunner  # noqa: F401
        import matplotlib.pyplot  # noqa: F401
    except Exception:
        pass
    for args, n, probs in explore.parallel(job, all_jobs()):
        rep.add(**{"command_lines_" + args[0]: 1})
        rep.add(states=1, transitions=n)
        if probs:
            rep.violation("%s\ncommand line: %r" % ("; ".join(probs[:4])[:3000], args[1:]), dict(job=args))
        if len(rep.violations) > 5:
            break
    rep.sample(dict(command_line=tokens(dict(BASE, k=["4", "1", "2"]))))
    return rep.finish()


def replay(d):
    explore.preload()
    j = d["job"]
    probs = job(tuple(j))[2]
    print("\n".join(probs) or "not reproduced")
    return 1 if probs else 0
