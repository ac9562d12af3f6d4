"""C21 every accepted configuration runs to its end: option grids run for real, and states of odd systems stopped anywhere."""
import itertools
import json
import os
import random
import shutil
import signal

from mc import configs, env, explore
from mc.report import Report, short_tb
from mc.state import build, describe, snapshot

ALL = list(range(1, 27))
OPTIONS = dict(
    n=[1, 2, 3, 5],
    k=[1, 2, 3, 7, [2, 6], [7, 1], [3, 3, 1]],
    a0=[0.3, 0, 0.0, 10, [0.3, 0], [0, 0, 4.0]],
    reward_scheme=[0, 1, 2, 3, 4],
    stake_distr_source=["Pareto", "Flat", "disparity", "file", "file-zeros", "file-one"],
    pareto_param=[2.0, 0.3, 50, 0.001],
    agent_profile_distr=[None, [0, 1, 0], [0, 0, 1], [1, 1, 0], [2, 1, 1], [0.5, 0, 0.5]],
    inactive=[(0, False), (0, True), (0.3, False), (0.3, True), (0.9, False), (0.9, True)],
    cost=[(1e-5, 1e-4), (0, 0), (0.001, 0.03), (0.05, 0.4), (3, 90), (0, 0.5)],
    extra_pool_cost_fraction=[0.4, 0, 1, 3.0, [0.4, 0]],
    agent_activation_order=["sequential", "random", "semisimultaneous", "simultaneous"],
    absolute_utility_threshold=[1e-9, 0, 0.01, 2],
    relative_utility_threshold=[0, 0.1, 5, [0.1, 0]],
    stop=[(25, 3), (25, 1), (0, 1), (1, 5), (3, 2), (25, 10)],
    metrics=[ALL, None, [1], [26], []],
    seed=[1, 0, 42, None],
    generate_graphs=[False] * 9 + [True],
)
LIMIT_S = 60  # per run
REQUIRED = ["args.json", "initial-state-descriptors.json", "final-state-descriptors.json", "metrics.csv", "simulation-object.pkl"]
PREFIXES = ["final-state-pools-", "final-state-stakeholders-"]


def realise(point):
    """Constructor arguments of one point of the grid, and the stake file it wants."""
    a = {o: v for o, v in point.items() if o not in ("inactive", "cost", "stop")}
    a["inactive_stake_fraction"], a["inactive_stake_fraction_known"] = point["inactive"]
    a["cost_min"], a["cost_max"] = point["cost"]
    a["max_iterations"], a["iterations_after_convergence"] = point["stop"]
    ks = a["k"] if isinstance(a["k"], list) else [a["k"]]
    k = max(ks) / (1 - point["inactive"][0] if point["inactive"][1] else 1)
    if a["metrics"] and 11 in a["metrics"] and a["n"] * k > 9:
        a["metrics"] = [i for i in a["metrics"] if i != 11] or [10]  # can take minutes per round with dozens of pools
    stakes = None
    n = a["n"]
    src = a["stake_distr_source"]
    if src.startswith("file"):
        a["stake_distr_source"] = "file"
        stakes = {"file": [5.0, 1.0, 3.0, 2.0, 2.5][:n], "file-zeros": [0, 4.0, 0, 1.0, 0][:n] if n > 1 else [1.0],
                  "file-one": [0] * (n - 1) + [7]}[src]
    return a, stakes


class Endless(BaseException):
    pass


def _ring(*a):
    raise Endless()


def attempt(point, keep=False):
    """Problems of one complete run."""
    import logic.sim as sim
    d = env.new_dir("run")
    info = dict(rounds=0, pools=0, end=None, graphs=0)
    out = []
    signal.signal(signal.SIGALRM, _ring)
    signal.alarm(LIMIT_S)
    try:
        with env.in_dir(d), env.quiet():
            args, stakes = realise(point)
            if stakes is not None:
                with open("synthetic-stake-distribution-%d-agents.csv" % args["n"], "w") as f:
                    f.write(",".join(map(str, stakes)))
            m = sim.Simulation(**args)
            m.run_model()
            if m.running:
                out.append("run_model returns while the run still goes on (round %d of %d)" % (m.schedule.steps, args["max_iterations"]))
            if m.schedule.steps > args["max_iterations"]:
                out.append("%d rounds, the limit is %d" % (m.schedule.steps, args["max_iterations"]))
            out += missing(m.directory, os.path.join(d, "output", "experiment-tracker.csv"), args)
            info.update(rounds=m.schedule.steps, pools=len(m.pools), end="equilibrium" if m.has_converged() else "limit",
                        graphs=int(bool(args["generate_graphs"])), phases=m.current_phase + 1)
    except Exception:
        out.append("exception in the code under test:\n" + short_tb())
    except Endless:
        out.append("no end after %d s (a run of this size takes less than one second):\n%s" % (LIMIT_S, short_tb()))
    finally:
        signal.alarm(0)
        shutil.rmtree(d, ignore_errors=True)
    return info, out


def missing(directory, tracker, args, required=REQUIRED):
    names = os.listdir(directory)
    out = ["no %s" % f for f in required if f not in names]
    out += ["no %s*" % p for p in PREFIXES if not any(x.startswith(p) for x in names)]
    if not os.path.exists(tracker):
        out.append("no line in the experiment tracker")
    if args["generate_graphs"]:
        figs = os.listdir(os.path.join(directory, "figures")) if "figures" in names else None
        if figs is None or (args["metrics"] is None or len(args["metrics"]) > 1) and not figs:
            out.append("no graphs")
    elif "figures" in names:
        out.append("graphs that nobody asked for")
    return out


def covering(strength, seed, limit=None):
    """Points of the grid such that every combination of values of any `strength` options occurs in one of them."""
    names = [o for o in OPTIONS if o != "generate_graphs"]
    vals = {o: range(len(OPTIONS[o])) for o in names}
    idx = {o: i for i, o in enumerate(names)}
    todo = {}
    for combo in itertools.combinations(names, strength):
        todo[combo] = set(itertools.product(*[vals[o] for o in combo]))
    total = sum(map(len, todo.values()))
    rng = random.Random(seed)
    rows = []
    combos = list(todo)
    by_name = {o: [c for c in combos if o in c] for o in names}
    while True:
        open_combos = [c for c in combos if todo[c]]
        if not open_combos or limit and len(rows) >= limit:
            break
        c0 = max(open_combos, key=lambda c: len(todo[c]))
        row = dict(zip(c0, min(todo[c0])))
        rest = [o for o in names if o not in row]
        rng.shuffle(rest)
        for o in rest:
            best = None
            known = set(row)
            rel = [c for c in by_name[o] if all(x == o or x in known for x in c) and todo[c]]
            for v in vals[o]:
                row[o] = v
                s = sum(tuple(row[x] for x in c) in todo[c] for c in rel)
                s = (s, rng.random())
                if best is None or s > best[0]:
                    best = (s, v)
            row[o] = best[1]
        for c in combos:
            todo[c].discard(tuple(row[x] for x in c))
        rows.append(row)
    covered = total - sum(map(len, todo.values()))
    out = []
    for i, row in enumerate(rows):
        p = {o: OPTIONS[o][row[o]] for o in names}
        p["generate_graphs"] = OPTIONS["generate_graphs"][i % len(OPTIONS["generate_graphs"])]
        out.append(p)
    return out, covered, total


def product():
    """Complete sub-grids of the options that interact most."""
    base = {o: v[0] for o, v in OPTIONS.items()}
    base["stop"] = (12, 2)
    subs = [dict(n=[1, 2, 4], k=[1, 3, 6], reward_scheme=range(5), a0=[0, 0.3], stake_distr_source=["Flat", "file-zeros"],
                 agent_activation_order=OPTIONS["agent_activation_order"], agent_profile_distr=[None, [1, 1, 0]]),
            dict(n=[1, 3], inactive=OPTIONS["inactive"], k=[1, 4, [2, 5], [5, 2]], reward_scheme=range(5),
                 cost=[(0, 0), (0.001, 0.03), (3, 90)]),
            ]
    if env.THOROUGH:
        subs = [dict(n=[1, 2, 3, 5], k=OPTIONS["k"], reward_scheme=range(5), a0=OPTIONS["a0"], cost=[(0, 0), (0.001, 0.03), (0.05, 0.4)],
                     stake_distr_source=["Flat", "file-zeros", "Pareto"], agent_activation_order=OPTIONS["agent_activation_order"],
                     agent_profile_distr=[None, [1, 1, 0]]),
                dict(n=[1, 3, 4], inactive=OPTIONS["inactive"], k=OPTIONS["k"], reward_scheme=range(5), cost=OPTIONS["cost"],
                     extra_pool_cost_fraction=OPTIONS["extra_pool_cost_fraction"], agent_activation_order=["random", "semisimultaneous"]),
                ]
    for s in subs:
        keys = list(s)
        for i, vs in enumerate(itertools.product(*s.values())):
            p = dict(base)
            p.update(zip(keys, vs))
            p["metrics"] = ALL if i % 4 == 0 else [1]
            yield p


def graphs():
    """Every metric's graph, alone and together, for runs of every kind of end."""
    base = {o: v[0] for o, v in OPTIONS.items()}
    base.update(generate_graphs=True, cost=(0.001, 0.03))
    sets = [[i] for i in ALL] + [ALL, None, []]
    stops = [(0, 1), (6, 2)] if not env.THOROUGH else [(0, 1), (1, 1), (6, 2), (25, 3)]
    for i, (ms, stop) in enumerate(itertools.product(sets, stops)):
        p = dict(base, metrics=ms, stop=stop, n=[1, 3, 5][i % 3], k=[2, [2, 4]][i % 2])
        yield p


def run_chunk(points):
    return [(p,) + attempt(p) for p in points]


# ---- every schedule of odd systems, stopped in every state --------------------------------------------------------

def odd(deep):
    from mc.configs import cfg
    out = []
    for order in ("random", "sequential", "semisimultaneous", "simultaneous"):
        for mode in ("rational", "scripted"):
            if mode == "scripted" and order == "sequential":
                continue
            kw = dict(agent_activation_order=order, _mode=mode, _group=2, metrics=ALL)
            out += [
                cfg([1.0], [0.01], [0], k=3, a0=0.3, **kw),
                cfg([1.0], [0.0], [1], k=1, a0=0.0, **kw),
                cfg([0.0, 1.0, 0.0], [0.01, 0.02, 0.0], [0, 0, 0], k=2, a0=0.3, **kw),
                cfg([0.0, 0.7, 0.3], [0.0, 0.0, 0.0], [1, 0, 1], k=4, a0=0.0, **kw),
                cfg([0.5, 0.5, 0.0], [0.01, 0.0, 0.02], [0, 1, 0], k=3, a0=0.0, reward_scheme=4, **kw),
                cfg([0.4, 0.3, 0.3], [0.01, 0.002, 0.02], [0, 1, 0], k=2, a0=1.5, reward_scheme=4, extra_pool_cost_fraction=0, **kw),
                cfg([0.04, 0.05, 0.01], [0.01, 0.002, 0.02], [0, 1, 0], k=3, a0=0.3, inactive_stake_fraction=0.9, **kw),
                cfg([0.04, 0.05, 0.01], [0.01, 0.002, 0.0], [0, 0, 0], k=1, a0=0.3, inactive_stake_fraction=0.9,
                    inactive_stake_fraction_known=True, reward_scheme=3, _tmax=3, **kw),
                cfg([0.4, 0.35, 0.25], [5.0, 9.0, 0.0], [0, 0, 1], k=2, a0=0.3, reward_scheme=2, **kw),
                cfg([0.4, 0.35, 0.25], [0.01, 0.02, 0.03], [2, 2, 2], k=2, a0=0.3, **kw),
                cfg([0.4, 0.35, 0.25], [0.01, 0.02, 0.03], [2, 0, 1], k=8, a0=20.0, reward_scheme=1, _tmax=3,
                    extra_pool_cost_fraction=3.0, **kw),
            ]
            kw.update(max_iterations=10 ** 6, iterations_after_convergence=1)
            out += [
                cfg([0.5, 0.5, 0.0], [0.01, 0.0, 0.02], [0, 1, 0], k=[1, 5, 2], a0=[0.3, 0, 7.0], **kw),
                cfg([0.6, 0.3, 0.1], [0.01, 0.0, 0.02], [0, 1, 0], k=[5, 1], a0=[3.0, 0.0], reward_scheme=4, **kw),
            ]
    for c in out:
        if len(c["_stakes"]) * max(c["k"] if isinstance(c["k"], list) else [c["k"]]) > 9:
            c["metrics"] = [i for i in ALL if i != 11]
        if len(c["_stakes"]) == 1:
            c["_group"] = 1
    return out


def stop_here(model, cfg, res):
    """The run reaches its limit in this state: metrics, exports, saved object."""
    m = snapshot(model)
    d = env.new_dir("stop")
    x = res.setdefault("extra", {})
    try:
        m.directory = type(m.directory)(d)
        with env.in_dir(d):
            os.mkdir("output")
            m.max_iterations = m.schedule.steps
            m.step()
            x["states_in_which_the_run_was_stopped"] = x.get("states_in_which_the_run_was_stopped", 0) + 1
            if m.running:
                return ["the run goes on after its limit"]
            return missing(d, os.path.join(d, "output", "experiment-tracker.csv"), dict(generate_graphs=False, metrics=ALL), REQUIRED[2:])
    finally:
        shutil.rmtree(d, ignore_errors=True)


def explore_one(args):
    c, kw = args
    depth = 99 if c["_mode"] == "rational" else kw["depth"]
    return explore.explore(c, lambda s: [], max_states=kw["states"], max_depth=depth, time_limit=kw["time"], validate=6, probe=stop_here)


def main():
    strength = 3
    rep = Report("C21", "model_checking", [
        "runs of up to 5 agents and 25 rounds; every combination of values of any %d of %d options occurs in some run, two sub-grids are complete" % (
            strength, len(OPTIONS)),
        "metric 11 (a branch and bound search) is left out of runs in which there may be more than 9 pools",
        "states of 1 to 3 agents in 13 unusual systems, under every schedule"])
    points, covered, total = covering(strength, 1)
    rep.add(option_combinations_covered=covered, option_combinations=total)
    full = list(product())
    gr = list(graphs())
    jobs = []
    for kind, ps, size in (("covering", points, 12), ("product", full, 25), ("graphs", gr, 4)):
        jobs += [("runs", kind, ps[i:i + size]) for i in range(0, len(ps), size)]
    kw = dict(states=400, depth=3, time=9) if not env.THOROUGH else dict(states=20000, depth=6, time=300)
    jobs += [("explore", None, (c, kw)) for c in odd(env.THOROUGH)]
    for kind, sub, res in explore.parallel(work, jobs):
        if kind == "explore":
            explore.fold(rep, res, "explore")
            rep.add(**res.get("extra", {}))
            continue
        for point, info, probs in res:
            rep.add(runs=1, rounds_of_runs=info["rounds"], runs_by_kind={sub: 1}, runs_by_end={str(info["end"]): 1},
                    runs_with_graphs=info["graphs"])
            if info["rounds"] > 4 and info["pools"] > 2:
                rep.sample(dict(point=point, rounds=info["rounds"], pools=info["pools"], end=info["end"]))
            if probs:
                rep.violation("%s\nrun of %s" % ("; ".join(probs[:3]), json.dumps(point)), {"point": point})
        if len(rep.violations) > 6:
            break
    return rep.finish()


def work(job):
    kind, sub, arg = job
    return (kind, sub, explore_one(arg) if kind == "explore" else run_chunk(arg))


def replay(data):
    if "point" in data:
        probs = attempt(data["point"])[1]
        print("\n".join(probs) or "not reproduced")
        return 1 if probs else 0
    from mc import agentcheck
    return agentcheck.replay(data, lambda s: [], stop_here)
