"""C24 charts: the figures that real runs and batches draw are taken apart and compared with what was recorded."""
import contextlib
import itertools
import json
import os
import runpy
import shutil
import sys

from checks import c13
from mc import crash, env, explore
from mc.report import Report, short_tb
from mc.state import build

BASE = dict(n=4, k=3, a0=0.3, stake_distr_source="flat", cost_min=1e-3, cost_max=5e-3, max_iterations=30, seed=4, iterations_after_convergence=3,
            reward_scheme=0, execution_id="c", generate_graphs=True, agent_activation_order="random")
LISTS = ("Stake per agent",)
TABLES = ("Stake per agent id", "StakePairs")


def near(a, b, tol=1e-9):
    return abs(a - b) <= tol * max(1, abs(a), abs(b))


# ---- figures -----------------------------------------------------------------------------------------------------------

def describe(fig):
    """What can be read from a figure, in the coordinates of its data."""
    import numpy as np
    from matplotlib.collections import LineCollection, PathCollection, PolyCollection, QuadMesh
    axes = []
    for ax in fig.axes:
        d = dict(title=ax.get_title(), x=ax.get_xlabel(), y=ax.get_ylabel(), curves=[], points=[], verticals=[], areas=[], cells=None)
        for ln in ax.lines:
            xs, ys = [float(v) for v in ln.get_xdata(orig=False)], [float(v) for v in ln.get_ydata(orig=False)]
            if not ln.get_visible():
                continue
            if ln.get_transform() == ax.get_xaxis_transform(which="grid") or (len(xs) == 2 and xs[0] == xs[1]):
                d["verticals"].append(xs[0])
            elif ln.get_linestyle() in ("None", "", " ", None):
                d["points"] += list(zip(xs, ys))
            else:
                d["curves"].append(list(zip(xs, ys)))
        for c in ax.collections:
            if isinstance(c, QuadMesh):
                d["cells"] = d["cells"] or grid_of(ax, np.ma.filled(np.ma.asarray(c.get_array(), dtype=float), np.nan))
            elif isinstance(c, PathCollection):
                d["points"] += [tuple(float(v) for v in p) for p in np.ma.filled(c.get_offsets(), np.nan)]
            elif isinstance(c, LineCollection):
                d["verticals"] += [float(seg[0][0]) for seg in c.get_segments() if len(seg) == 2 and seg[0][0] == seg[1][0]]
            elif isinstance(c, PolyCollection):
                span = {}
                for path in c.get_paths():
                    for x, y in path.vertices:
                        lo, hi = span.get(float(x), (y, y))
                        span[float(x)] = (min(lo, y), max(hi, y))
                d["areas"].append({x: hi - lo for x, (lo, hi) in span.items()})
        axes.append(d)
    return axes


def grid_of(ax, values):
    """(column label, row label) -> value, by the places of the labels."""
    if not len(ax.get_xticks()) or not len(ax.get_yticks()):
        return None  # a colour scale
    rows = max(int(round(v + 0.5)) for v in ax.get_yticks())
    cols = max(int(round(v + 0.5)) for v in ax.get_xticks())
    values = values.reshape(rows, cols)
    name = lambda ticks, labels: {int(round(t - 0.5)): l.get_text() for t, l in zip(ticks, labels)}
    xl, yl = name(ax.get_xticks(), ax.get_xticklabels()), name(ax.get_yticks(), ax.get_yticklabels())
    return [(xl[c], yl[r], float(values[r][c])) for r in range(rows) for c in range(cols)]


@contextlib.contextmanager
def captured(figures, real=False):
    from matplotlib.figure import Figure
    old = Figure.savefig

    def save(self, fname, *a, **k):
        figures.append((str(fname), describe(self)))
        if real:
            return old(self, fname, *a, **k)
        open(fname, "wb").close()
    Figure.savefig = save
    try:
        yield
    finally:
        Figure.savefig = old


def main_axes(fig):
    """The axes that carry data (a heat map has a second pair for its colour scale)."""
    full = [a for a in fig if a["curves"] or a["points"] or any(a["areas"]) or a["cells"]]
    return full[0] if full else (fig[0] if fig else dict(title="", x="", y="", curves=[], points=[], verticals=[], areas=[], cells=None))


def chart_of(figures, name):
    hits = [(f, main_axes(a)) for f, a in figures if name in (main_axes(a)["y"], main_axes(a)["title"])]
    return hits


def compare_run(m, figures):
    out = []
    rec = m.datacollector.model_vars
    numbers = [k for k, v in rec.items() if v and not isinstance(v[0], (list, dict))]
    lists = [k for k, v in rec.items() if v and isinstance(v[0], list)]
    for name in numbers:
        hits = chart_of(figures, name)
        if len(hits) != 1:
            out.append("%d charts of %r" % (len(hits), name))
            continue
        f, ax = hits[0]
        vals = [float(v) for v in rec[name]]
        want = list(enumerate(vals))
        shown = [c for c in ax["curves"] if len(c) == len(want)]
        if len(ax["curves"]) != 1 or not shown or any(not near(a, c) or not near(b, d) for (a, b), (c, d) in zip(shown[0], want)):
            out.append("the chart of %r shows %r, recorded %r" % (name, ax["curves"], want))
        if sorted(set(ax["verticals"])) != sorted(set(float(s) for s in m.equilibrium_steps)):
            out.append("the chart of %r marks equilibria at %r, they were at %r" % (name, ax["verticals"], m.equilibrium_steps))
        if sorted(ax["points"]) != sorted((float(s), vals[s]) for s in m.pivot_steps):
            out.append("the chart of %r marks parameter changes at %r, they were at %r" % (name, ax["points"], m.pivot_steps))
    stacked = [(f, main_axes(a)) for f, a in figures if any(main_axes(a)["areas"])]
    if len([1 for k in lists if len(rec[k]) > 1]) != len(stacked):
        out.append("%d stacked charts for %r" % (len(stacked), lists))
    for name, (f, ax) in zip(lists, stacked):
        rounds = [[float(x) for x in v] for v in rec[name]]
        if len(ax["areas"]) != len(rounds[0]):
            out.append("the stacked chart has %d layers for %d agents" % (len(ax["areas"]), len(rounds[0])))
            continue
        for i, area in enumerate(ax["areas"]):
            bad = [(t, area.get(float(t)), rounds[t][i]) for t in range(1, len(rounds)) if not near(area.get(float(t), -9), rounds[t][i], 1e-7)]
            if bad or set(area) - {float(t) for t in range(len(rounds))}:
                out.append("layer %d of the stacked chart: (round, shown, recorded) %r of rounds %r" % (i, bad[:3], sorted(area)))
    extra = len(figures) - len(numbers) - len(lists)
    if extra > 0:
        out.append("%d figures for metrics %r: %r" % (len(figures), list(rec), [f for f, _ in figures]))
    here = os.path.join(str(m.directory), "")
    for f, _ in figures:
        if not os.path.abspath(f).startswith(os.path.abspath(here)):
            out.append("figure outside the run's folder: %s" % f)
    if len({os.path.abspath(f) for f, _ in figures}) != len(figures):
        out.append("two figures in one file: %r" % sorted(f for f, _ in figures))
    return out


# ---- single runs -------------------------------------------------------------------------------------------------------

def run_grid():
    cheap = list(c13.CHEAP)
    sets = [[i] for i in cheap] + [None, cheap, [26, 1], [27, 21], [1, 26, 9, 30]]
    worlds = [dict(), dict(k=[2, 4]), dict(k=[3, 1, 2], a0=[0.3, 0]), dict(max_iterations=1), dict(max_iterations=2), dict(cost_min=2.0, cost_max=3.0),
              dict(agent_profile_distr=[0, 0, 1]), dict(k=[2, 4], max_iterations=6), dict(n=1), dict(extra_pool_cost_fraction=[0.4, 1.0, 0.1], iterations_after_convergence=1),
              dict(k=[2, 2, 5], iterations_after_convergence=1, cost_max=0.02), dict(generate_graphs=False)]
    if env.THOROUGH:
        worlds += [dict(w, agent_activation_order=o, seed=s) for w in worlds[:9] for o in ("sequential", "simultaneous", "semisimultaneous") for s in (1, 2)]
        sets += [list(x) for x in itertools.combinations(cheap, 2)][::7]
    out = [dict(BASE, metrics=s, **{}) | w for w in worlds for s in sets]
    return out


def run_job(part):
    res = []
    for c in part:
        import logic.sim as sim
        figures = []
        try:
            with env.quiet(), captured(figures, real=c["metrics"] is None):
                m = sim.Simulation(**c)
                m.run_model()
            probs = compare_run(m, figures) if c["generate_graphs"] else ["%d figures although none were wanted" % len(figures)] * bool(figures)
            if c["metrics"] is None:
                for f, _ in figures:
                    if open(f, "rb").read(8) != b"\x89PNG\r\n\x1a\n":
                        probs.append("no image in %s" % f)
            info = dict(figures=len(figures), rounds=m.schedule.steps, marks=len(m.equilibrium_steps) + len(m.pivot_steps))
            shutil.rmtree(m.directory, ignore_errors=True)
        except Exception:
            probs, info = ["exception in the code under test:\n" + short_tb()], dict(figures=0, rounds=0, marks=0)
        res.append((c, probs, info))
        if sum(1 for r in res if r[1]) > 2:
            break
    return res


# ---- all short histories -------------------------------------------------------------------------------------------------

def histories():
    values = (0, 0.5, -1, 3) if env.THOROUGH else (0, 0.5, -1)
    out = []
    for length in range(1, 5 if env.THOROUGH else 4):
        for h in itertools.product(values, repeat=length):
            out.append(h)
    return out


def history_job(part):
    res = []
    m = build(dict(_stakes=[0.6, 0.4], _costs=[0.01, 0.02], _profiles=[0, 0], k=2, a0=0.3, metrics=[1, 26], generate_graphs=True))
    for h in part:
        marks = [[]] + [[i] for i in range(len(h))] + [list(range(len(h)))]
        for eq, pivot in itertools.product(marks, marks):
            figures, case = [], (h, eq, pivot)
            try:
                m.datacollector.model_vars = {"Pool count": list(h), "Stake per agent": [[abs(v), (i + 1) / 8] for i, v in enumerate(h)]}
                m.equilibrium_steps, m.pivot_steps = list(eq), list(pivot)
                with env.quiet(), captured(figures):
                    m.export_graphs()
                probs = compare_run(m, figures)
            except Exception:
                probs = ["exception in the code under test:\n" + short_tb()]
            res.append((case, probs))
            if sum(1 for r in res if r[1]) > 2:
                return res
    return res


# ---- batches -------------------------------------------------------------------------------------------------------------

COMMON = ["--n", "3", "--k", "2", "--a0", "0.3", "--max_iterations", "12", "--iterations_after_convergence", "2", "--stake_distr_source", "Pareto",
          "--seed", "3", "--cost_min", "1e-3", "--cost_max", "5e-3", "--execution_id", "b"]


def batches():
    v = dict(k=["1", "2", "3"], a0=["0", "0.3"], n=["2", "5"], cost_max=["2e-3", "7e-3"], cost_min=["1e-5", "3e-5", "2e-3"], pareto_param=["1.5", "3"],
             inactive_stake_fraction=["0", "0.25"], extra_pool_cost_fraction=["0.1", "0.4", "0.9"], relative_utility_threshold=["0", "0.5"])
    out = [{}] + [{a: v[a]} for a in v]
    pairs = list(itertools.permutations(("k", "a0", "n", "cost_min", "inactive_stake_fraction"), 2))
    pairs = pairs if env.THOROUGH else [("k", "a0"), ("a0", "k"), ("n", "cost_min"), ("cost_min", "k"), ("inactive_stake_fraction", "k")]
    out += [{a: v[a], b: v[b]} for a, b in pairs]
    out += [dict(k=["1", "2"], a0=["0", "0.3"], n=["2", "3"]), dict(k=["3", "1"]), dict(k=["1", "2"], cost_min=["2"], cost_max=["3"]),
            dict(cost_max=["3", "5"], cost_min=["2"], a0=["0", "0.3"]), dict(a0=["0.3", "0.1"], k=["2", "1", "3"])]
    return out


def batch_job(swept):
    def go():
        import multiprocessing
        import pandas as pd
        multiprocessing.current_process()._config["daemon"] = False
        os.cpu_count = lambda: 2
        where = env.new_dir("r")
        os.chdir(where)
        figures = []
        argv = ["batch-run.py"] + COMMON + [x for k, vals in swept.items() for x in ["--" + k] + vals]
        old = sys.argv
        sys.argv = argv
        try:
            with env.quiet(), open(os.devnull, "w") as null, contextlib.redirect_stderr(null), captured(figures):
                runpy.run_path(os.path.join(env.REPO, "batch-run.py"), run_name="__main__")
        finally:
            sys.argv = old
        tables = [os.path.join(d, f) for d, _, fs in os.walk("output") for f in fs if f.startswith("aggregate-results")]
        if len(tables) != 1:
            return dict(probs=["%d aggregate files" % len(tables)], figures=0)
        df = pd.read_csv(tables[0])
        return dict(probs=compare_batch(df, swept, figures), figures=len(figures), rows=len(df))
    r = crash.forked(go)
    if "error" in r:
        return swept, dict(probs=["the batch fails: " + r["error"][-1500:]], figures=0, rows=0)
    return swept, r


def compare_batch(df, swept, figures):
    import logic.model_reporters as reporters
    out = []
    metrics = [c for c in df.columns if c in reporters.ALL_MODEL_REPORTEERS]
    if not metrics:
        return ["no metrics in the aggregate file: %r" % list(df.columns)]
    points = [(f, main_axes(a)) for f, a in figures if not main_axes(a)["cells"]]
    maps = [(f, a) for f, a in figures if main_axes(a)["cells"]]
    vary = [k for k in swept if len(swept[k]) > 1]
    for p, name in itertools.product(vary, metrics):
        hits = [ax for f, ax in points if ax["x"] == p and ax["y"] == name]
        if len(hits) != 1:
            out.append("%d charts of %r over %s" % (len(hits), name, p))
            continue
        want = sorted((float(a), float(b)) for a, b in zip(df[p], df[name]) if b >= 0)
        if len(want) != len(hits[0]["points"]) or any(not near(a, c) or not near(b, d) for (a, b), (c, d) in zip(sorted(hits[0]["points"]), want)):
            out.append("the chart of %r over %s shows %r, the runs gave %r" % (name, p, sorted(hits[0]["points"]), want))
    if len(points) > len(vary) * len(metrics):
        out.append("%d charts for %d parameters and %d metrics" % (len(points), len(vary), len(metrics)))
    if len(maps) != (len(metrics) if len(vary) == 2 else 0):
        out.append("%d heat maps for %d metrics and %d parameters" % (len(maps), len(metrics), len(vary)))
    seen = set()
    for f, a in maps:
        ax = main_axes(a)
        names = [n for n in metrics if any(n in (b["title"], b["y"], b["x"]) for b in a if not b["cells"])] or [n for n in metrics if n in os.path.basename(f)]
        if len(names) != 1 or {ax["x"], ax["y"]} != set(vary):
            out.append("heat map of %r over %r, %r" % (names, ax["x"], ax["y"]))
            continue
        seen.add(names[0])
        want = sorted((float(r[ax["x"]]), float(r[ax["y"]]), float(r[names[0]])) for _, r in df.iterrows())
        got = sorted((float(x), float(y), v) for x, y, v in ax["cells"])
        if len(got) != len(want) or any(not near(a, b, 1e-6) for g, w in zip(got, want) for a, b in zip(g, w)):
            out.append("the heat map of %r over %s and %s shows %r, the runs gave %r" % (names[0], ax["x"], ax["y"], got, want))
    if maps and len(seen) != len(metrics) and not out:
        out.append("heat maps of %r only" % sorted(seen))
    if len({os.path.abspath(f) for f, _ in figures}) != len(figures):
        out.append("two figures in one file: %r" % sorted(f for f, _ in figures))
    return out


# ---- driver --------------------------------------------------------------------------------------------------------------

def chunks(items, size):
    return [items[i:i + size] for i in range(0, len(items), size)]


def main():
    rep = Report("C24", "model_checking", [
        "figures are read as matplotlib objects at the moment they are saved; how they look as pixels is not judged",
        "histories of up to 3 rounds (thorough: 4) with up to three values and every place of one equilibrium and one parameter change; real runs of up to 30 rounds"])
    explore.preload()
    import matplotlib.pyplot  # noqa: F401
    env.scratch_root()
    for res in explore.parallel(history_job, chunks(histories(), 5)):
        for case, probs in res:
            rep.add(histories=1)
            if probs:
                rep.violation("%s\nhistory=%r" % ("; ".join(probs[:2])[:1500], case), dict(kind="history", case=case))
        if len(rep.violations) > 3:
            break
    for swept, r in explore.parallel(batch_job, batches()):
        rep.add(batches=1, batch_figures=r["figures"], batch_runs=r.get("rows", 0))
        if r["probs"]:
            rep.violation("%s\nbatch=%s" % ("; ".join(r["probs"][:2])[:1500], json.dumps(swept)), dict(kind="batch", swept=swept))
        if len(rep.violations) > 5:
            break
    for res in explore.parallel(run_job, chunks(run_grid(), 6)):
        for c, probs, info in res:
            rep.add(runs=1, **info)
            if probs:
                rep.violation("%s\nrun=%s" % ("; ".join(probs[:2])[:1500], json.dumps(c)), dict(kind="run", config=c))
        if len(rep.violations) > 7:
            break
    rep.add(states=rep.coverage.get("histories", 0) + rep.coverage.get("rounds", 0), transitions=rep.coverage.get("rounds", 0),
            traces_validated_against_impl=rep.coverage.get("runs", 0) + rep.coverage.get("batches", 0))
    rep.sample(dict(run=run_grid()[40]))
    rep.sample(dict(batch=batches()[-1]))
    return rep.finish()


def replay(d):
    explore.preload()
    if d["kind"] == "run":
        probs = run_job([d["config"]])[0][1]
    elif d["kind"] == "batch":
        probs = batch_job(d["swept"])[1]["probs"]
    else:
        h, eq, pivot = d["case"]
        probs = [p for case, ps in history_job([tuple(h)]) if list(case[1]) == eq and list(case[2]) == pivot for p in ps]
    print("\n".join(probs) or "not reproduced")
    return 1 if probs else 0
