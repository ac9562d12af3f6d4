"""C08 reproducibility: all short histories of runs and all ways to supply a seed, comparing complete trajectories."""
import hashlib
import io
import itertools
import json
import os
import random
import shutil
import subprocess
import sys

from mc import env, explore
from mc.report import Report, short_tb

KINDS = {
    "random": dict(n=7, k=3, a0=0.3, agent_activation_order="random", agent_profile_distr=[3, 1, 1], cost_min=1e-3, cost_max=2e-2),
    "semi": dict(n=8, k=4, a0=0.1, agent_activation_order="semisimultaneous", cost_min=1e-3, cost_max=1e-2, agent_profile_distr=[2, 1, 0]),
    "seq": dict(n=6, k=5, a0=0.5, agent_activation_order="sequential", cost_min=1e-4, cost_max=3e-2, extra_pool_cost_fraction=0.8),
    "simul": dict(n=5, k=2, a0=0.2, agent_activation_order="simultaneous", cost_min=1e-3, cost_max=1e-2, reward_scheme=3),
    "phases": dict(n=6, k=[3, 2, 4], a0=[0.3, 0.0], agent_activation_order="random", cost_min=1e-3, cost_max=1e-2,
                   relative_utility_threshold=0.01, inactive_stake_fraction=0.2, inactive_stake_fraction_known=True),
    "cip50": dict(n=6, k=3, a0=6.0, reward_scheme=4, agent_activation_order="random", stake_distr_source="disparity",
                  cost_min=1e-3, cost_max=1e-2),
    "flat": dict(n=6, k=10, a0=0.3, reward_scheme=2, agent_activation_order="random", stake_distr_source="flat",
                 cost_min=0.0, cost_max=5e-2, agent_profile_distr=[1, 1, 1]),
    "file": dict(n=5, k=3, a0=0.3, reward_scheme=1, agent_activation_order="random", stake_distr_source="file",
                 cost_min=1e-3, cost_max=5e-2),
}
COMMON = dict(stake_distr_source="pareto", max_iterations=15, iterations_after_convergence=2, metrics=[1, 2, 3, 6, 17],
              generate_graphs=False, absolute_utility_threshold=1e-9, execution_id="x")
SEEDS = [0, 1, 42]


def cfg(kind, seed):
    c = dict(COMMON)
    c.update(KINDS[kind])
    c["seed"] = seed
    return c


def stake_file():
    with open("synthetic-stake-distribution-10000-agents.csv", "w") as f:
        f.write("".join("%r\n" % ((i * 37 % 11) + 0.5) for i in range(12)))


def digest(m):
    df = m.datacollector.get_model_vars_dataframe()
    desc = json.load(open(m.directory / "initial-state-descriptors.json"))
    desc.pop("Randomness seed")
    agents = [(a.unique_id, type(a).__name__, float(a.stake), float(a.cost), None if a.strategy is None else
               (sorted((p, float(x)) for p, x in a.strategy.stake_allocations.items()), sorted(a.strategy.owned_pools)))
              for a in m.schedule.agents]
    pools = sorted((p.id, p.owner, float(p.pledge), float(p.stake), float(p.cost), float(p.margin), bool(p.is_private),
                    sorted((d, float(x)) for d, x in p.delegators.items())) for p in m.pools.values())
    parts = dict(agents=repr(agents), metrics=repr([[repr(v) for v in df[c]] for c in df.columns]), pools=repr(pools),
                 descriptors=json.dumps(desc), ends=repr((list(m.equilibrium_steps), list(m.pivot_steps), m.schedule.steps)))
    return {k: hashlib.sha256(v.encode()).hexdigest()[:12] for k, v in parts.items()}


def reported_seed(m):
    return json.load(open(m.directory / "initial-state-descriptors.json"))["Randomness seed"]


def start(c, how="kw"):
    import inspect
    import logic.sim as sim
    if how == "kw":
        return sim.Simulation(**c)
    if how == "positional":
        sig = inspect.signature(sim.Simulation.__init__)
        args = []
        for name, p in list(sig.parameters.items())[1:]:
            args.append(c.get(name, p.default))
        return sim.Simulation(*args)
    if how == "file":
        with open("args.json", "w") as f:
            json.dump(dict(exported(c), seed=c["seed"]), f)
        return sim.Simulation(input_from_file=True)
    if how == "file+other":  # whatever else is given is disregarded
        with open("args.json", "w") as f:
            json.dump(dict(exported(c), seed=c["seed"]), f)
        return sim.Simulation(n=4, k=2, seed=12345, max_iterations=3, input_from_file=True)
    raise ValueError(how)


def exported(c):
    """The arguments file written by a run with this configuration."""
    import logic.sim as sim
    m = sim.Simulation(**c)
    return json.load(open(m.directory / "args.json"))


def finish(m):
    m.run_model()
    return digest(m)


def fresh(fn, *args):
    """fn in a forked process that has run no simulation before."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.chdir(env.new_dir("f"))
            stake_file()
            with env.quiet():
                out = fn(*args)
        except BaseException:
            out = {"exception": short_tb()}
        try:
            with os.fdopen(w, "w") as f:
                json.dump(out, f)
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r) as f:
        data = f.read()
    os.waitpid(pid, 0)
    return json.loads(data) if data else {"exception": "process died"}


# ---- the experiments, each executed in a fresh process -----------------------------------------------------------

def ex_history(history, target, noise):
    """Runs of `history` first, then the target."""
    for c in history:
        finish(start(c))
    if noise is not None:
        import numpy as np
        random.seed(noise)
        np.random.seed(noise)
    return finish(start(target))


def ex_interleaved(a, b, rounds):
    """Two simulations alive at the same time: a is built, b is built, a plays some rounds, b everything, a the rest."""
    ma = start(a)
    mb = start(b)
    for _ in range(rounds):
        if ma.running:
            ma.step()
    db = finish(mb)
    while ma.running:
        ma.step()
    return {"a": digest(ma), "b": db}


def ex_supply(c, how):
    return finish(start(c, how))


def ex_auto(c, noise, how):
    """An automatically chosen seed, then the same configuration with the reported seed, in several ways."""
    random.seed(noise)
    m = start(dict(c, seed=None))
    s = reported_seed(m)
    d1 = finish(m)
    d2 = finish(start(dict(c, seed=s), how))
    return {"seed": s, "first": d1, "again": d2}


def ex_auto_file(c, noise):
    """args.json of the run itself, with the seed set to the reported one."""
    import logic.sim as sim
    random.seed(noise)
    m = start(dict(c, seed=None))
    s = reported_seed(m)
    d1 = finish(m)
    args = json.load(open(m.directory / "args.json"))
    args["seed"] = s
    json.dump(args, open("args.json", "w"))
    m2 = sim.Simulation(input_from_file=True)
    return {"seed": s, "first": d1, "again": finish(m2)}


def cli_args(c):
    out = []
    for k, v in c.items():
        if k in ("inactive_stake_fraction_known", "generate_graphs"):
            out.append("--" + k if v else "--no-" + k)
        elif v is not None:
            out += ["--" + k] + [str(x) for x in (v if isinstance(v, list) else [v])]
    return out


def ex_main(c, explicit):
    """The same run from the command line."""
    import logic.sim as sim
    import main
    made = []
    orig = sim.Simulation.run_model

    def run_model(self):
        made.append(self)
        orig(self)
    sim.Simulation.run_model = run_model
    old = sys.argv
    sys.argv = ["main.py"] + cli_args(c)
    try:
        main.main()
    finally:
        sys.argv = old
        sim.Simulation.run_model = orig
    m = made[0]
    return {"seed": reported_seed(m), "digest": digest(m)}


def ex_main_auto(c, noise):
    random.seed(noise)
    r = ex_main({k: v for k, v in c.items() if k != "seed"}, False)
    d2 = finish(start(dict(c, seed=r["seed"])))
    return {"seed": r["seed"], "first": r["digest"], "again": d2}


EX = {f.__name__: f for f in (ex_history, ex_interleaved, ex_supply, ex_auto, ex_auto_file, ex_main, ex_main_auto)}


def job(a):
    name, args, want = a
    return a, fresh(EX[name], *args)


def judge(name, args, want, got):
    if "exception" in got:
        return ["exception in the code under test:\n" + got["exception"]]
    out = []

    def same(x, y, what):
        bad = [k for k in x if x[k] != y.get(k)]
        if bad:
            out.append("%s: different %s" % (what, ", ".join(bad)))
    if name in ("ex_history", "ex_supply"):
        same(want, got, "compared to the run in a fresh process")
    elif name == "ex_interleaved":
        same(want[0], got["a"], "first of two interleaved runs")
        if want[1] is not None:
            same(want[1], got["b"], "second of two interleaved runs")
    elif name in ("ex_auto", "ex_auto_file", "ex_main_auto"):
        same(got["first"], got["again"], "repeated with the reported seed %r" % got["seed"])
    elif name == "ex_main":
        same(want, got["digest"], "started from the command line")
        if got["seed"] != args[0]["seed"]:
            out.append("reports seed %r, was given %r" % (got["seed"], args[0]["seed"]))
    return out


def siblings(c):
    """Configurations that differ from `c` in one parameter."""
    for k, vals in dict(a0=(0.0, 0.7), k=(2, 7), reward_scheme=(0, 1, 2, 3, 4), extra_pool_cost_fraction=(0.1, 1.0),
                        absolute_utility_threshold=(1e-3,), relative_utility_threshold=(0.3,), max_iterations=(3,),
                        agent_profile_distr=([0, 1, 0], [1, 1, 1]), iterations_after_convergence=(1,), metrics=([26, 17],),
                        agent_activation_order=("sequential", "simultaneous"), stake_distr_source=("flat", "pareto"),
                        cost_max=(0.1,), inactive_stake_fraction=(0.3,)).items():
        for v in vals:
            if c.get(k) != v:
                yield dict(c, **{k: v})


def build_jobs(base):
    kinds = list(KINDS)
    jobs = []
    hist = list(itertools.product(kinds, repeat=1)) + list(itertools.product(kinds if env.THOROUGH else kinds[:5], repeat=2))
    if env.THOROUGH:
        hist += list(itertools.product(kinds[:5], repeat=3))
    for h in hist:
        for t in kinds if len(h) == 1 else (kinds if env.THOROUGH and len(h) == 2 else kinds[:3]):
            jobs.append(("ex_history", ([cfg(x, SEEDS[i % 3]) for i, x in enumerate(h)], cfg(t, 1), None), base[(t, 1)]))
    for t in kinds:
        for sib in siblings(cfg(t, 1)):  # the same population under other parameters
            jobs.append(("ex_history", ([sib], cfg(t, 1), None), base[(t, 1)]))
            for r in (0, 2):
                jobs.append(("ex_interleaved", (cfg(t, 1), sib, r), (base[(t, 1)], None)))
        for s in SEEDS:
            for noise in (1, 2):
                jobs.append(("ex_history", ([], cfg(t, s), noise), base[(t, s)]))
            for how in ("kw", "positional", "file", "file+other"):
                jobs.append(("ex_supply", (cfg(t, s), how), base[(t, s)]))
            jobs.append(("ex_main", (cfg(t, s), True), base[(t, s)]))
        for noise in range(4 if not env.THOROUGH else 20):
            for how in ("kw", "positional", "file"):
                jobs.append(("ex_auto", (cfg(t, 0), noise, how), None))
            jobs.append(("ex_auto_file", (cfg(t, 0), noise), None))
            jobs.append(("ex_main_auto", (cfg(t, 0), noise), None))
    for a, b in itertools.product(kinds, repeat=2):
        for r in range(0, 8 if env.THOROUGH else 3):
            jobs.append(("ex_interleaved", (cfg(a, 1), cfg(b, 0), r), (base[(a, 1)], base[(b, 0)])))
    return jobs


def other_process(hashseed):
    """The base digests from a new interpreter with another hash seed."""
    e = dict(os.environ, PYTHONHASHSEED=str(hashseed), VERIF_REPO=env.REPO)
    code = ("import sys,json; sys.path.insert(0,%r); from mc import env; env.setup(); from checks import c08; "
            "print(json.dumps(c08.base_list()))" % env.VERIF)
    p = subprocess.run([sys.executable, "-W", "ignore", "-c", code], env=e, capture_output=True, text=True)
    return hashseed, (json.loads(p.stdout.strip().splitlines()[-1]) if p.returncode == 0 else {"exception": p.stderr[-3000:]})


def base_list():
    stake_file()
    out = []
    for t in KINDS:
        for s in SEEDS:
            with env.quiet():
                out.append([t, s, finish(start(cfg(t, s)))])
    return out


def base_job(a):
    return a, fresh(ex_history, [], cfg(*a), None)


def main():
    rep = Report("C08", "model_checking", [
        "runs of 5 to 8 agents and at most 15 rounds; trajectories are compared exactly (agents, every metric of every round, final pools)"])
    base = {}
    for a, d in explore.parallel(base_job, list(itertools.product(KINDS, SEEDS))):
        base[a] = d
        if "exception" in d:
            rep.violation("exception in the code under test:\n%s\nconfig=%s" % (d["exception"], json.dumps(cfg(*a))),
                          {"ex": "ex_history", "args": [[], cfg(*a), None], "want": None})
            return rep.finish()
    distinct = {json.dumps(v, sort_keys=True) for v in base.values()}
    rep.add(distinct_trajectories=len(distinct))
    n = runs = 0
    for (name, args, want), got in explore.parallel(job, build_jobs(base)):
        n += 1
        runs += {"ex_history": 1 + (len(args[0]) if name == "ex_history" else 0), "ex_interleaved": 2, "ex_supply": 1, "ex_main": 1}.get(name, 2)
        probs = judge(name, args, want, got)
        rep.sample({"experiment": name, "arguments": args})
        if probs:
            rep.violation("%s\nexperiment %s %s" % ("; ".join(probs), name, json.dumps(args)),
                          {"ex": name, "args": args, "want": want})
            if len(rep.violations) > 6:
                break
    procs = 0
    for hs, got in explore.parallel(other_process, [1, 4711, 99999]):
        procs += 1
        if isinstance(got, dict):
            rep.violation("new interpreter, hash seed %d: %s" % (hs, got["exception"]), {"hashseed": hs})
            continue
        for t, s, d in got:
            if d != base[(t, s)]:
                rep.violation("another interpreter (hash seed %d) gets another trajectory: %s" % (
                    hs, [k for k in d if d[k] != base[(t, s)][k]]), {"hashseed": hs, "config": cfg(t, s)})
    rep.add(states=n, transitions=runs, traces_validated_against_impl=n + procs * len(base), interpreters=procs + 1)
    return rep.finish()


def replay(data):
    if "hashseed" in data:
        hs, got = other_process(data["hashseed"])
        bad = isinstance(got, dict) or any(d != fresh(ex_history, [], cfg(t, s), None) for t, s, d in got)
        print("differs" if bad else "not reproduced")
        return int(bad)
    explore.preload()
    got = fresh(EX[data["ex"]], *data["args"])
    probs = judge(data["ex"], data["args"], data["want"] or got, got)
    print("\n".join(probs) or "not reproduced")
    return 1 if probs else 0
