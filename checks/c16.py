"""C16 batch runs: all interleavings of the worker processes of small batches up to a preemption bound (the process pool
is replaced by one whose processes are scheduled by the explorer), and a grid of real batches, each compared with the
folders of its simulations and with the same simulations run alone."""
import contextlib
import csv
import glob
import itertools
import json
import multiprocessing
import os
import pickle
import re
import shutil

from mc import crash, env, explore, sched
from mc.report import Report, short_tb

BASE = dict(n=4, k=2, a0=0.3, stake_distr_source="flat", cost_min=1e-3, cost_max=2e-3, max_iterations=12,
            iterations_after_convergence=2, generate_graphs=False, agent_activation_order="random")
PERIOD = -1


def traced():
    return (os.path.join(env.REPO, ""),)


def shared(path):
    parts = path.split("/")
    return parts[0] == "output" and len(parts) in (2, 3) and "." in parts[-1] and not re.match(r"\d+-", parts[-1])


# ---- a pool whose processes run under the explorer -----------------------------------------------------------------

class Controlled:
    """Stands in for multiprocessing.Pool: every task is a process of its own, interleaved as `choices` says."""
    choices, log, used = (), None, 0

    def __init__(self, processes=None, *a, **kw):
        self.limit = processes or env.NPROC

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass
    join = terminate = close

    def _run(self, fn, items):
        Controlled.used += 1
        decisions, results, points, ended = sched.run_procs(
            Controlled.choices, [(fn, it) for it in items], os.getcwd(), shared, traced(), limit=self.limit)
        Controlled.log = (decisions, points)
        for r in results:
            if "error" in r:
                raise RuntimeError("a process of the batch fails: " + str(r["error"])[-1500:])
        return [r["value"] for r in results], ended

    def imap_unordered(self, fn, items, chunksize=1):
        res, order = self._run(fn, [(i,) for i in items])
        return iter([res[i] for i in order])

    def map(self, fn, items, chunksize=None):
        return self._run(fn, [(i,) for i in items])[0]

    def imap(self, fn, items, chunksize=1):
        return iter(self.map(fn, items))

    def starmap(self, fn, items, chunksize=None):
        return self._run(fn, [tuple(i) for i in items])[0]


@contextlib.contextmanager
def controlled(choices):
    import custom_batchrunner as cb
    import multiprocessing.pool
    Controlled.choices, Controlled.log, Controlled.used = choices, None, 0
    spots = [(multiprocessing, "Pool"), (multiprocessing.pool, "Pool")]
    if hasattr(cb, "Pool"):
        spots.append((cb, "Pool"))
    old = [(m, k, getattr(m, k)) for m, k in spots]
    try:
        for m, k in spots:
            setattr(m, k, Controlled)
        yield
    finally:
        for m, k, v in old:
            setattr(m, k, v)


# ---- a small model without files of its own -------------------------------------------------------------------------

def light_class():
    from mesa import Model
    from mesa.datacollection import DataCollector
    from mesa.time import BaseScheduler

    class Light(Model):
        def __init__(self, a=1, b=2, rounds=2, seed=None, seq_id=-1, execution_id="", parent_dir="", **kw):
            super().__init__(seed=seed)
            self.args = dict(a=a, b=b, rounds=rounds, seed=seed, seq_id=seq_id, execution_id=execution_id)
            self.schedule = BaseScheduler(self)
            self.running = True
            self.datacollector = DataCollector(model_reporters={
                "product": lambda m: m.args["a"] * m.args["b"] * 1000 + m.schedule.steps, "seeded": lambda m: m.args["seed"] * 7 + m.args["a"]})

        def step(self):
            self.datacollector.collect(self)
            self.schedule.step()
            if self.schedule.steps >= self.args["rounds"]:
                self.running = False
    return Light


# ---- batches ---------------------------------------------------------------------------------------------------------

def combos(params, iterations, initial_seed):
    """Documented meaning: every combination of the listed values, `iterations` times with consecutive seeds."""
    lists = {k: (list(v) if isinstance(v, (list, tuple, range)) else [v]) for k, v in params.items()}
    out = []
    for vals in itertools.product(*lists.values()):
        for i in range(iterations):
            out.append(dict(zip(lists, vals), seed=initial_seed + i))
    return out


def do_batch(cls, params, name, processes, iterations, seed, max_steps, period=None):
    import custom_batchrunner as cb
    kw = {} if period is None else dict(data_collection_period=period)
    results, path = cb.custom_batch_run(cls, dict(params), name, number_processes=processes, iterations=iterations, max_steps=max_steps,
                                        display_progress=False, initial_seed=seed, **kw)
    return results, str(path)


def same(x, y):
    """x: text or value, y: value or text"""
    if str(x) == str(y):
        return True
    try:
        return float(x) == float(y) or abs(float(x) - float(y)) <= 1e-12 * max(1, abs(float(y)))
    except (TypeError, ValueError):
        return False


def read(path):
    with open(path, newline="") as f:
        return list(csv.reader(f))


def judge_table(path, n, varying):
    """The aggregate file: one header, n rows as long as the header; the rows as dicts."""
    files = [p for p in glob.glob(os.path.join(glob.escape(path), "*.csv")) if os.path.isfile(p)]
    if len(files) != 1:
        return ["aggregate files %r" % files], []
    t = read(files[0])
    out = []
    if not t:
        return ["the aggregate file is empty"], []
    head = t[0]
    if sum(r == head for r in t) != 1:
        out.append("%d headers in the aggregate file" % sum(r == head for r in t))
    if len(t) != n + 1 or any(len(r) != len(head) for r in t):
        out.append("aggregate file for %d simulations: %r" % (n, t))
    if len(set(head)) != len(head) or any(v not in head for v in varying):
        out.append("header %r of the aggregate file, varying parameters %r" % (head, varying))
    return out, [dict(zip(head, r)) for r in t[1:] if r != head]


def match(rows, wants, what):
    """Each wanted {column: value} (columns the row has) for exactly one row."""
    out, left = [], list(wants)
    for r in rows:
        hit = [w for w in left if all(same(r[c], w[c]) for c in r if c in w)]
        if not hit:
            out.append("%s: %r agrees with none of the simulations (left)" % (what, r))
        else:
            left.remove(hit[0])
    for w in left:
        out.append("%s: none for the simulation %r" % (what, {k: w[k] for k in list(w)[:12]}))
    return out


def steps_of(s, period):
    if period is None or period < 0:
        return [s]
    return sorted(set(range(0, s + 1, period)) | {s})


def judge_real(results, path, params, iterations, seed, period, solo):
    """A batch of real simulations against its folders and the same simulations alone."""
    want = combos(params, iterations, seed)
    varying = [k for k, v in params.items() if isinstance(v, (list, tuple, range))]
    out, rows = judge_table(path, len(want), varying)
    folders = sorted(d for d in os.listdir(path) if os.path.isdir(os.path.join(path, d)))
    if len(folders) != len(want):
        out.append("%d folders for %d simulations: %r" % (len(folders), len(want), folders))
    runs, serials = [], []
    for d in folders:
        args = json.load(open(os.path.join(path, d, "args.json")))
        m = read(os.path.join(path, d, "metrics.csv"))
        num = re.match(r"(\d+)-", d)
        if not num or int(num.group(1)) != args["seq_id"]:
            out.append("folder %s of the simulation with serial number %r" % (d, args["seq_id"]))
        serials.append(args["seq_id"])
        runs.append((args, m))
    if len(set(serials)) != len(serials) or any(not isinstance(s, int) or s < 1 for s in serials):
        out.append("serial numbers %r" % serials)
    out += match([{k: a.get(k) for k in want[0]} for a, _ in runs], want, "executed simulations")
    if out:
        return out
    rowwants, reswants = [], []
    for args, m in runs:
        alone = solo({k: args[k] for k in want[0]})
        if isinstance(alone, str):
            return ["a simulation alone fails: " + alone]
        if [r for r in alone] != m:
            out.append("simulation %r has metrics %r, alone %r" % (args["execution_id"], m[-1], alone[-1]))
        mine = [r for r in rows if same(r.get("seq_id", args["seq_id"]), args["seq_id"])]
        last = len(m) - 2
        if "Step" in (rows[0] if rows else {}):
            st = [int(r["Step"]) for r in mine]
            if not all(last - 1 <= s <= last for s in st):
                out.append("row for round %r of a run whose last round is %d" % (st, last))
                continue
            s = st[0] if st else last
        else:
            s = last
        named = dict(args)
        rowwants.append(dict(named, Step=s, **dict(zip(m[0][1:], m[s + 1][1:]))))
        for t in steps_of(s, period):
            reswants.append(dict(named, Step=t, **dict(zip(m[0][1:], m[t + 1][1:]))))
    out += match(rows, rowwants, "aggregate row")
    if rows and any(name not in rows[0] for name in runs[0][1][0][1:]):
        out.append("metrics %r, aggregate columns %r" % (runs[0][1][0][1:], list(rows[0])))
    res = [{k: v for k, v in r.items() if k not in ("RunId", "iteration", "parent_dir")} for r in results]
    out += match(res, reswants, "returned result")
    if any(c not in r for r in res for c in list(want[0]) + runs[0][1][0][1:]):
        out.append("returned results lack columns: %r" % sorted(res[0]))
    ids = {}
    for r in results:
        if "RunId" in r:
            ids.setdefault(r["RunId"], set()).add(r.get("seq_id"))
    if ids and (len(ids) != len(want) or any(len(v) != 1 for v in ids.values())):
        out.append("run ids of the results %r" % ids)
    return out


_solo = {}


def solo(params):
    """The metrics table of this simulation run alone."""
    import logic.sim as sim
    key = json.dumps(params, sort_keys=True)
    if key not in _solo:
        def go():
            os.chdir(env.new_dir("o"))
            m = sim.Simulation(**params)
            m.run_model()
            return read(os.path.join(str(m.directory), "metrics.csv"))
        r = crash.forked(go)
        _solo[key] = r if isinstance(r, list) else r["error"]
    return _solo[key]


# ---- the grid ----------------------------------------------------------------------------------------------------------

def grid():
    deep = env.THOROUGH
    swept = [dict(k=[1, 2]), dict(k=[2]), dict(a0=[0.1, 0.3, 0.5]), dict(k=[1, 3], a0=[0, 0.3]), dict(a0=[0.3, 0.1], k=[1, 3]),
             dict(n=[1, 2, 5]), dict(k=[1, 1]), dict(stake_distr_source=["Flat", "Pareto"], k=[1, 2]),
             dict(agent_activation_order=["random", "sequential", "simultaneous", "semisimultaneous"]), dict(),
             dict(inactive_stake_fraction=[0, 0.25], inactive_stake_fraction_known=True), dict(max_iterations=[1, 2, 12]),
             dict(relative_utility_threshold=[0, 0.5], absolute_utility_threshold=[0, 1e-2]), dict(reward_scheme=[0, 1, 2, 4]),
             dict(k=(1, 2)), dict(k=range(1, 4)), dict(cost_min=[1e-3, 5e-1], cost_max=6e-1), dict(pareto_param=[1.5, 3.0], stake_distr_source="Pareto")]
    out = []
    for sw in swept:
        for its, seed in (((1, 0), (3, 7)) if not deep else ((1, 0), (2, 5), (3, 7), (4, 1))):
            for procs in (1, 2, None) if deep or its == 3 else (1, 3):
                for period in (None, 1, 3) if deep else (None,) if procs != 1 else (None, 2):
                    out.append((sw, its, seed, procs, period))
    return out


def real_job(job):
    sw, its, seed, procs, period = job
    params = dict(BASE, **sw)
    twice = its == 3 and procs == 1

    def go():
        import logic.sim as sim
        multiprocessing.current_process()._config["daemon"] = False
        where = env.new_dir("r")
        os.chdir(where)
        probs = []
        for i in range(2 if twice else 1):  # a second batch in the same process
            results, path = do_batch(sim.Simulation, params, "b", procs, its, seed, 12, period)
            probs += judge_real(results, path, params, its, seed, period, solo)
        tr = os.path.join("output", "experiment-tracker.csv")
        n = len(combos(params, its, seed)) * (2 if twice else 1)
        rows = read(tr) if os.path.exists(tr) else []
        if len(rows) != n + 1:
            probs.append("%d lines in the experiment tracker for %d simulations" % (len(rows), n))
        os.chdir("/")
        shutil.rmtree(where, ignore_errors=True)
        return dict(probs=probs, n=n)
    r = crash.forked(go)
    if "error" in r:
        return job, 0, ["the batch fails: " + r["error"][-1500:]]
    return job, r["n"], r["probs"]


# ---- interleavings -----------------------------------------------------------------------------------------------------

def worlds():
    """name -> (light?, parameters, iterations, processes, bound)"""
    deep = env.THOROUGH
    return {
        "light-2": (True, dict(a=[1, 2], b=3), 1, 2, 4 if deep else 2),
        "light-3": (True, dict(a=[1, 2, 3], b=[4]), 1, 3, 3 if deep else 1),
        "light-3-of-2": (True, dict(a=[1, 2, 3], rounds=3), 1, 2, 3 if deep else 1),
        "light-rep": (True, dict(a=[1], b=[5, 6]), 2, 4, 1 if deep else 0),
        "sim-2": (False, dict(BASE, n=2, k=[1, 2], max_iterations=3), 1, 2, 3 if deep else 2),
        "sim-rep": (False, dict(BASE, n=2, k=[1], max_iterations=3), 3, 3, 2 if deep else 1),
    }


def judge_light(results, path, params, its, seed):
    want = combos(dict(dict(a=1, b=2, rounds=2), **params), its, seed)
    for w in want:
        s = w["rounds"] - 1
        w.update(Step=s, product=w["a"] * w["b"] * 1000 + s, seeded=w["seed"] * 7 + w["a"])
    varying = [k for k, v in params.items() if isinstance(v, list)]
    out, rows = judge_table(path, len(want), varying)
    out += match(rows, want, "aggregate row") + match(results, want, "returned result")
    if rows and any(c not in rows[0] for c in ("product", "seeded")):
        out.append("aggregate columns %r" % list(rows[0]))
    return out


def execute(name, choices):
    """One batch with this interleaving: (decisions, points, problems, outcome)."""
    light, params, its, procs, _ = worlds()[name]
    where = env.new_dir("s")

    def go():
        import logic.sim as sim
        os.chdir(where)
        with controlled(choices):
            results, path = do_batch(light_class() if light else sim.Simulation, params, "b", procs, its, 7, 3)
            used, log = Controlled.used, Controlled.log
        if light:
            probs = judge_light(results, path, params, its, 7)
        else:
            probs = judge_real(results, path, params, its, 7, None, solo)
            rows = read(os.path.join("output", "experiment-tracker.csv"))
            if len(rows) != len(combos(params, its, 7)) + 1 or any(len(r) != len(rows[0]) for r in rows) or sum(r[0] == "id" for r in rows) != 1:
                probs.append("experiment tracker %r" % rows)
        agg = glob.glob(os.path.join(glob.escape(path), "*.csv"))
        order = [r[0] + "/" + ",".join(r[1:4]) for r in read(agg[0])[1:]] if agg else []
        return dict(log=log or [[], []], used=used, probs=probs, order="; ".join(order))
    r = crash.forked(go)
    shutil.rmtree(where, ignore_errors=True)
    if "error" in r:
        m = re.search("schedule_log=(.*)", r["error"])
        return [], [], ["the batch fails: " + r["error"][-1500:]], "failed"
    return r["log"][0], r["log"][1], r["probs"], name + ": " + r["order"]


def tree_job(args):
    name, prefix, start = args
    bound = worlds()[name][4]
    if not worlds()[name][0]:
        for c in combos(worlds()[name][1], worlds()[name][2], 7):
            solo(c)
    return name, sched.tree(lambda p: execute(name, p), prefix, start, bound, limit=20000 if env.THOROUGH else 3000)


def main():
    rep = Report("C16", "model_checking", [
        "the processes of a pool are interleaved at their operations on files that they share, with a bounded number of preemptions; computation in between is not preempted",
        "the round of an aggregate row may be the last recorded one or the one before",
        "lists of values per parameter are swept, so list-valued parameters are not part of a batch"])
    explore.preload()
    import custom_batchrunner  # noqa: F401
    env.scratch_root()
    for job, n, probs in explore.parallel(real_job, sorted(grid(), key=str)):
        rep.add(real_batches=1, simulations=n)
        if probs:
            rep.violation("%s\nbatch=%r" % ("; ".join(probs[:3])[:3000], job), dict(kind="real", job=job))
        if len(rep.violations) > 3:
            break
    jobs = []
    for name, w in worlds().items():
        d, points, probs, outcome = execute(name, [])
        rep.add(schedules=1, schedule_points=len(d))
        rep.coverage.setdefault("points_per_schedule", {})[name] = len(d)
        if probs:
            rep.violation("%s\nworld=%s" % ("; ".join(probs[:3])[:3000], name), dict(kind="schedule", name=name, choices=[x[2] for x in d]))
        jobs += [(name, p, len(p)) for p in sched.successors(d, 0, w[4])]
    if not rep.violations:
        outcomes = {}
        for name, r in explore.parallel(tree_job, sorted(jobs, key=lambda j: j[2])):
            rep.add(schedules=r["schedules"], schedule_points=r["points"], capped_schedule_trees=r["capped"])
            per = rep.coverage.setdefault("schedules_per_world", {})
            per[name] = per.get(name, 0) + r["schedules"]
            for o in r["outcomes"]:
                outcomes.setdefault(name, set()).add(o)
            for probs, choices, points in r["problems"]:
                rep.violation("%s\nworld=%s schedule=%r" % ("; ".join(probs[:3])[:3000], name, points), dict(kind="schedule", name=name, choices=choices))
            if len(rep.violations) > 3:
                break
        rep.coverage["distinct_row_orders"] = {k: len(v) for k, v in outcomes.items()}
    rep.add(transitions=rep.coverage.get("schedule_points", 0), states=rep.coverage.get("schedules", 0))
    rep.sample(dict(world="light-2", parameters=worlds()["light-2"][1], preemption_bound=worlds()["light-2"][4]))
    return rep.finish()


def replay(d):
    explore.preload()
    import custom_batchrunner  # noqa: F401
    if d["kind"] == "real":
        probs = real_job(d["job"])[2]
    else:
        probs = execute(d["name"], d["choices"])[2]
    print("\n".join(probs) or "not reproduced")
    return 1 if probs else 0
