"""C14 output files: every kind of run is driven to its end and all its files are compared with the run itself."""
import csv
import glob
import itertools
import json
import os
import pickle
import subprocess
import sys

from checks import c13
from mc import configs, env, explore, ref
from mc.report import Report, short_tb
from mc.state import build, canon

CTOR_DEFAULTS = dict(  # documented defaults of a simulation that are not given
    inactive_stake_fraction=0, inactive_stake_fraction_known=False, relative_utility_threshold=0, pareto_param=2.0,
    extra_pool_cost_fraction=0.4, agent_profile_distr=[1, 0, 0])


def read_csv(path):
    with open(path, newline="") as f:
        return list(csv.reader(f))


def num(x):
    return float(x)


def eq(a, b, tol=2e-15):
    a, b = float(a), float(b)
    return a == b or abs(a - b) <= tol * max(1, abs(b))


def initial_picture(m):
    return dict(stakes={a.unique_id: float(a.stake) for a in m.schedule.agents}, costs={a.unique_id: float(a.cost) for a in m.schedule.agents})


def col(table, name):
    return [r[table[0].index(name)] for r in table[1:]]


def audit(m, given, init, ended=True, figures=False):
    """All problems of the folder of a finished run `m`; `given`: its arguments; `init`: initial_picture after construction."""
    out = []
    args = {}
    d = str(m.directory)
    names = sorted(os.listdir(d))

    def one(pattern):
        got = glob.glob(os.path.join(glob.escape(d), pattern))
        if len(got) != 1:
            out.append("files matching %s: %r of %r" % (pattern, got, names))
            return None
        return got[0]
    # arguments
    p = one("args.json")
    if p:
        args = json.load(open(p))
        want = dict(CTOR_DEFAULTS, **given)
        for k, v in want.items():
            if k in ("seed", "metrics") and v is None:
                continue
            if k == "parent_dir":
                v = str(v)
            if k not in args or args[k] != v and not (isinstance(v, tuple) and args[k] == list(v)):
                out.append("args.json: %s is %r, the run used %r" % (k, args.get(k, "missing"), v))
    # initial state
    p = one("initial-state-descriptors.json")
    if p:
        ini = json.load(open(p))
        st, n = list(init["stakes"].values()), len(init["stakes"])
        mean = sum(st) / n
        want = {"Active stake": sum(st), "Max stake": max(st), "Min stake": min(st), "Mean stake": mean, "Median stake": c13.median(st),
                "Standard deviation of stake": (sum((x - mean) ** 2 for x in st) / n) ** 0.5}
        for k, v in want.items():
            if k not in ini or abs(float(ini[k]) - v) > 1e-9:
                out.append("initial descriptors: %s is %r, should be %r" % (k, ini.get(k, "missing"), v))
        if given.get("seed") is not None and ini.get("Randomness seed") != given["seed"]:
            out.append("initial descriptors: seed %r, the run used %r" % (ini.get("Randomness seed"), given["seed"]))
        if int(ini["Nakamoto coefficient prior"]) not in c13.nakamoto(st):
            out.append("initial descriptors: Nakamoto coefficient %r, should be %r" % (ini["Nakamoto coefficient prior"], c13.nakamoto(st)))
        ks = given["k"] if isinstance(given["k"], list) else [given["k"]]
        a0 = given["a0"][0] if isinstance(given["a0"], list) else given["a0"]
        f = given.get("inactive_stake_fraction", 0) if given.get("inactive_stake_fraction_known") else 0
        sc = ref.Scheme(given.get("reward_scheme", 0), (1 - f) / ks[0], a0)
        prof = [ref.pp(sc, s, c) for s, c in zip(st, init["costs"].values())]
        if not sum(x > 1e-15 for x in prof) <= ini["Cost efficient agents"] <= sum(x > -1e-15 for x in prof):
            out.append("initial descriptors: %r cost efficient agents, should be %d" % (ini["Cost efficient agents"], sum(x > 0 for x in prof)))
    if not ended:
        return out
    pools = {q.id: q for q in m.pools.values()}
    # pools
    p = one("final-state-pools*.csv")
    if p:
        t = read_csv(p)
        ids = [int(x) for x in col(t, "Pool id")]
        if sorted(ids) != sorted(pools) or len(set(ids)) != len(ids):
            out.append("pools file lists %r, active pools are %r" % (ids, sorted(pools)))
        else:
            for row in t[1:]:
                r = dict(zip(t[0], row))
                q = pools[int(r["Pool id"])]
                sc = ref.scheme_of(m, given.get("reward_scheme", 0))
                want = {"Owner id": q.owner, "Owner stake": init["stakes"][q.owner], "Pool Pledge": q.pledge, "Pool stake": q.stake,
                        "Owner cost": init["costs"][q.owner], "Pool cost": q.cost, "Pool margin": q.margin,
                        "Pool PP": ref.pp(sc, q.pledge, q.cost), "Pool desirability": ref.des(q.margin, ref.pp(sc, q.pledge, q.cost))}
                for k, v in want.items():
                    if not eq(r[k], v, 1e-12):
                        out.append("pools file: pool %d has %s %r, should be %r" % (q.id, k, r[k], v))
    # agents
    p = one("final-state-stakeholders*.csv")
    if p:
        t = read_csv(p)
        ids = [int(x) for x in col(t, "Agent id")]
        if ids != sorted(init["stakes"]):
            out.append("stakeholders file lists %r" % ids)
        else:
            ags = {a.unique_id: a for a in m.schedule.agents}
            sc = ref.scheme_of(m, given.get("reward_scheme", 0))
            for row in t[1:]:
                r = dict(zip(t[0], row))
                i = int(r["Agent id"])
                mine = [q for q in pools.values() if q.owner == i]
                role = "Abstainer" if ref.is_abstainer(ags[i]) else "Operator" if mine else "Delegator"
                if r["Status"] != role:
                    out.append("stakeholders file: agent %d is %r, should be %r" % (i, r["Status"], role))
                want = {"Initial stake": init["stakes"][i], "Cost": init["costs"][i], "Pools owned": len(mine),
                        "Total pool stake": sum(q.stake for q in mine), "Potential Profit": ref.pp(sc, init["stakes"][i], init["costs"][i])}
                for k, v in want.items():
                    if not eq(r[k], v, 1e-12):
                        out.append("stakeholders file: agent %d has %s %r, should be %r" % (i, k, r[k], v))
                if (r["Profitable pool splitter"] == "YES") != (float(r["Pool splitting profit"]) > 0):
                    out.append("stakeholders file: agent %d: splitting profit %s, %s" % (i, r["Pool splitting profit"], r["Profitable pool splitter"]))
    # metrics
    p = one("metrics.csv")
    if p:
        t = read_csv(p)
        vals = m.datacollector.model_vars
        names_ = [c13.NAMES[i] for i in (given.get("metrics") or args.get("metrics"))]
        rounds = len(next(iter(vals.values())))
        if t[0][1:] != names_:
            out.append("metrics.csv has columns %r, should be %r" % (t[0][1:], names_))
        elif [r[0] for r in t[1:]] != [str(i) for i in range(rounds)]:
            out.append("metrics.csv has rounds %r, should be 0..%d" % ([r[0] for r in t[1:]], rounds - 1))
        else:
            for j, name in enumerate(names_):
                for i in range(rounds):
                    x, v = t[i + 1][j + 1], vals[name][i]
                    good = x == str(v) if isinstance(v, (list, dict)) else eq(x, v, 1e-12)
                    if not good:
                        out.append("metrics.csv: %s in round %d is %r, recorded was %r" % (name, i, x, v))
                        break
    # final descriptors
    p = one("final-state-descriptors.json")
    if p:
        fin = json.load(open(p))
        ctrl = {i: sum(q.stake for q in pools.values() if q.owner == i) for i in init["stakes"]}
        nak = {0} if not pools else c13.nakamoto(ctrl.values())
        if fin["Pool count"] != len(pools) or fin["Operator count"] != len({q.owner for q in pools.values()}):
            out.append("final descriptors: %r pools, %r operators, should be %d, %d"
                       % (fin["Pool count"], fin["Operator count"], len(pools), len({q.owner for q in pools.values()})))
        if nak is not None and int(fin["Nakamoto coefficient"]) not in nak:
            out.append("final descriptors: Nakamoto coefficient %r, should be %r" % (fin["Nakamoto coefficient"], nak))
        if abs(fin["Total pledge fraction"] - sum(q.pledge for q in pools.values())) > 6e-5:
            out.append("final descriptors: pledge fraction %r, should be %r" % (fin["Total pledge fraction"], sum(q.pledge for q in pools.values())))
        last = given.get("max_iterations", 1000)
        if m.schedule.steps < last and fin["Equilibrium reached"] != "Yes":
            out.append("final descriptors: equilibrium %r for a run that ended before its round limit" % fin["Equilibrium reached"])
    # figures
    figs = os.listdir(os.path.join(d, "figures")) if os.path.isdir(os.path.join(d, "figures")) else []
    if not figures and figs:
        out.append("figures %r were not asked for" % figs)
    if figures:
        plain = [i for i in given["metrics"] if i not in (21, 27)]  # mappings have no graph
        missing = [c13.NAMES[i] for i in plain if i != 26 and not any(f.endswith("-%s.png" % c13.NAMES[i]) for f in figs)]
        if missing or len(figs) != len(plain):
            out.append("figures %r for metrics %r" % (figs, given["metrics"]))
    # the saved object
    p = one("simulation-object.pkl")
    if p:
        out += saved_object(m, p)
    extra = [n for n in names if not (n in ("args.json", "initial-state-descriptors.json", "final-state-descriptors.json", "metrics.csv",
                                            "simulation-object.pkl", "figures") or n.startswith("final-state-"))]
    if extra:
        out.append("unexpected files %r" % extra)
    return out


def facts(m):
    return dict(pools=canon(m), ids=sorted(m.pools), rankings=[[None if p is None else p.id for p in r] for r in (m.pool_rankings, m.pool_rankings_myopic)],
                metrics=repr({k: [str(x) for x in v] for k, v in m.datacollector.model_vars.items()}), steps=m.schedule.steps,
                eq=list(m.equilibrium_steps), pivot=list(m.pivot_steps), phase=m.current_phase, running=m.running,
                id=m.execution_id, seq=m.seq_id, stakes=[repr(float(a.stake)) for a in m.schedule.agents],
                k=m.reward_scheme.k, a0=m.reward_scheme.a0, kind=type(m.reward_scheme).__name__,
                delegators=sorted((p.id, sorted((d, repr(float(x))) for d, x in p.delegators.items())) for p in m.pools.values()))


def saved_object(m, path):
    with open(path, "rb") as f:
        x = pickle.load(f)
    a, b = facts(m), facts(x)
    out = ["saved object: %s is %r, of the run %r" % (k, b[k], a[k]) for k in a if a[k] != b[k]]
    # pools and agents of the loaded object are connected with each other and its rankings can be used
    for p in list(x.pools.values()):
        if x.schedule.agents[p.owner].strategy.owned_pools.get(p.id) is not p:
            out.append("saved object: pool %d is not the pool of its owner" % p.id)
        for r in (x.pool_rankings, x.pool_rankings_myopic):
            r.remove(p)
            r.add(p)
    if not out and facts(x)["rankings"] != a["rankings"]:
        out.append("saved object: rankings change when pools are taken out and put in again")
    return out[:3]


# ---- runs ----------------------------------------------------------------------------------------------------------

def start(given):
    import logic.sim as sim
    with env.quiet():
        return sim.Simulation(**given)


def tracker_row(m):
    t = read_csv("output/experiment-tracker.csv")
    rows = [dict(zip(t[0], r)) for r in t[1:] if r[0] == str(m.seq_id)]
    if len(rows) != 1:
        return ["experiment tracker has %d rows of run %d" % (len(rows), m.seq_id)]
    r = rows[0]
    want = {"n": m.n, "k": m.reward_scheme.k, "a0": m.reward_scheme.a0, "phi": m.extra_pool_cost_fraction, "activation order": m.agent_activation_order,
            "reward function": type(m.reward_scheme).__name__, "#pools": len(m.pools), "#operators": len({p.owner for p in m.pools.values()})}
    return ["experiment tracker: %s is %r, should be %r" % (k, r[k], v) for k, v in want.items()
            if r[k] != str(v) and not (isinstance(v, (int, float)) and eq(r[k], v, 1e-12))]


def run_one(given, how="run", figures=False, tracker=True):
    """One real run from the constructor to its last file."""
    info = dict(pools=0, rounds=0, files=0)
    try:
        m = start(given)
        init = initial_picture(m)
        probs = audit(m, given, init, ended=False)
        with env.quiet():
            if how == "run":
                m.run_model()
            else:
                while m.running:
                    m.step()
        probs += audit(m, given, init, figures=figures)
        if tracker:
            probs += tracker_row(m)
        name = os.path.basename(str(m.directory))
        auto = given["execution_id"] in ("", "temp")  # a name is made up by the simulation
        if name != "%d-%s" % (m.seq_id, given["execution_id"]) and not (auto and name.startswith("%d-" % m.seq_id)):
            probs.append("the folder is called %s" % m.directory)
        info = dict(pools=len(m.pools), rounds=m.schedule.steps, files=len(os.listdir(m.directory)),
                    kind="pools=%d phases=%d eq=%d" % (min(len(m.pools), 3), m.current_phase, len(m.equilibrium_steps)))
    except Exception:
        probs = ["exception in the code under test:\n" + short_tb()]
    return probs, info


def grid():
    out = []
    base = dict(n=5, k=3, a0=0.3, stake_distr_source="flat", cost_min=1e-3, cost_max=5e-3, max_iterations=30, seed=4,
                iterations_after_convergence=3, metrics=[1, 2, 4, 9, 21, 26, 27, 12], generate_graphs=False, execution_id="run")
    worlds = [
        dict(), dict(cost_min=2.0, cost_max=3.0), dict(agent_profile_distr=[0, 0, 1]), dict(agent_profile_distr=[0, 1, 0]),
        dict(agent_profile_distr=[1, 1, 1], n=8, seed=9), dict(max_iterations=1), dict(max_iterations=2), dict(iterations_after_convergence=1),
        dict(k=[2, 4], a0=[0.3, 0.0, 1.0]), dict(k=[5, 1]), dict(k=[1, 2, 3, 4], max_iterations=3),
        dict(n=1), dict(n=2, k=10, stake_distr_source="disparity"), dict(stake_distr_source="pareto", n=9, pareto_param=0.8),
        dict(inactive_stake_fraction=0.3), dict(inactive_stake_fraction=0.5, inactive_stake_fraction_known=True, k=[2, 3]),
        dict(extra_pool_cost_fraction=0.0, cost_min=0, cost_max=0), dict(extra_pool_cost_fraction=[0.4, 1.0]),
        dict(relative_utility_threshold=[0.5, 0.0], absolute_utility_threshold=1e-6), dict(metrics=None, max_iterations=8),
        dict(metrics=c13.CHEAP), dict(metrics=[30, 1]), dict(seed=None, stake_distr_source="pareto"), dict(execution_id=""),
        dict(execution_id="temp", k=[2, 3]), dict(execution_id="with spaces, and commas"), dict(execution_id="dash-ed-id"), dict(a0=0), dict(a0=1000.0),
        dict(inactive_stake_fraction=0.2, inactive_stake_fraction_known=True), dict(a0=[0.3], k=[2]), dict(k=[1, 2] * 60, execution_id="", max_iterations=5),
    ]
    for w, order, scheme in itertools.product(worlds, ("sequential", "random", "simultaneous", "semisimultaneous"), range(5)):
        c = dict(base, agent_activation_order=order, reward_scheme=scheme)
        if scheme == 4 and "a0" not in w:
            c["a0"] = 4.0
        c.update(w)
        if scheme == 4 and isinstance(c["a0"], list):
            c["a0"] = [3.0, 0, 5.0]
        if scheme not in (0, 4) and len(w) == 1 and not env.THOROUGH and order != "random":
            continue
        out.append(c)
    return out


def grid_job(part):
    res = []
    for c in part:
        for how in ("run", "step"):
            probs, info = run_one(c, how, tracker=True)
            res.append((c, how, probs, info))
    return res


def orders_job(cfg):
    """Every order of activation in the first rounds of a run (all interleavings of the agents' actions)."""
    cfg = dict(cfg, metrics=c13.CHEAP)
    n = len(cfg["_stakes"])
    depth = 2 if n == 3 else 1
    if env.THOROUGH:
        depth += 1 if n == 3 else 0
    rounds = list(itertools.permutations(range(n)))
    res, seen = [], set()
    for script in itertools.product(rounds, repeat=depth):
        try:
            m = build(cfg)
            given = dict(json.load(open(m.directory / "args.json")))
            init = initial_picture(m)
            if cfg["agent_activation_order"] == "random":
                m.random.force([list(r) for r in script])
            else:
                m.random.force([list(r[i:i + 2]) for r in script for i in range(0, n, 2)])
            with env.quiet():
                m.run_model()
            probs = [p for p in audit(m, given, init) if not p.startswith("initial")]  # stakes are set after construction
            seen.add(canon(m))
            info = dict(pools=len(m.pools), rounds=m.schedule.steps, files=len(os.listdir(m.directory)))
        except Exception:
            probs, info = ["exception in the code under test:\n" + short_tb()], None
        if info:
            c13_clean(m)
        res.append((cfg, script, probs, info))
        if len([r for r in res if r[2]]) > 2:
            break
    return res, len(seen)


def c13_clean(m):
    import shutil
    shutil.rmtree(m.directory, ignore_errors=True)


def figures_job(c):
    probs, info = run_one(c, "run", figures=True)
    return c, probs, info


def figure_cfgs():
    base = dict(n=4, k=2, a0=0.3, stake_distr_source="flat", cost_min=1e-3, cost_max=5e-3, max_iterations=12, seed=4,
                iterations_after_convergence=2, generate_graphs=True, execution_id="fig", agent_activation_order="random")
    out = [dict(base, metrics=c13.CHEAP, k=[2, 3]), dict(base, metrics=[1, 26, 27, 21, 9]), dict(base, metrics=[26, 8], max_iterations=1),
           dict(base, metrics=[8, 12, 26], reward_scheme=4, a0=[3, 0]), dict(base, metrics=[1, 22, 26], cost_min=2, cost_max=3),
           dict(base, metrics=[10, 11, 13], agent_profile_distr=[0, 0, 1], iterations_after_convergence=1)]
    return out


LOADER = """
import sys, json, pickle
sys.path[:0] = [%r, %r]
out = []
for p in json.load(sys.stdin):
    with open(p, "rb") as f:
        x = pickle.load(f)
    from checks import c14
    out.append(repr(sorted(c14.facts(x).items())))
json.dump(out, sys.stdout)
"""


def fresh_load():
    """Objects saved by this process are loaded by another one that has imported nothing of the simulation."""
    made, want = [], []
    for c in [x for x in grid() if x["execution_id"] == "run"][::23]:
        m = start(c)
        with env.quiet():
            m.run_model()
        made.append(str(m.directory / "simulation-object.pkl"))
        want.append(repr(sorted(facts(m).items())))
    r = subprocess.run([sys.executable, "-c", LOADER % (env.REPO, env.VERIF)], input=json.dumps(made), capture_output=True, text=True)
    if r.returncode:
        return len(made), ["loading saved objects in a new process failed:\n" + r.stderr[-1500:]]
    got = json.loads(r.stdout)
    return len(made), ["%s loaded in a new process shows another state" % p for p, a, b in zip(made, want, got) if a != b][:3]


def main():
    rep = Report("C14", "model_checking", [
        "the arguments, the state right after construction and the state after the last round are taken from the simulation object itself",
        "numbers in files are compared up to 1e-12",
        "whether an equilibrium was reached is checked for runs that ended before the round limit here, in general in C06"])
    g = grid()
    for part in explore.parallel(grid_job, [g[i::48] for i in range(48)]):
        for c, how, probs, info in part:
            rep.add(runs_audited=1, files_read=info["files"], rounds=info["rounds"], outcome_classes={info.get("kind", "failed"): 1})
            if probs:
                rep.violation("%s\n%s of config=%s" % ("; ".join(probs[:4]), how, json.dumps(c)), dict(kind="grid", cfg=c, how=how))
        if len(rep.violations) > 5:
            break
    cfgs = [c for c in configs.rational(env.THOROUGH) if c["agent_activation_order"] in ("random", "semisimultaneous") and len(c["_stakes"]) < 5]
    cfgs = [dict(c, max_iterations=14, iterations_after_convergence=2) for c in cfgs]
    for r, distinct in explore.parallel(orders_job, cfgs):
        rep.add(schedules=len(r), states=distinct)
        for c, script, probs, info in r:
            rep.add(runs_audited=1, files_read=info["files"] if info else 0, rounds=info["rounds"] if info else 0)
            if probs:
                rep.violation("%s\norders=%r config=%s" % ("; ".join(probs[:4]), script, json.dumps(c)), dict(kind="orders", cfg=c, script=script))
        if len(rep.violations) > 5:
            break
    for c, probs, info in explore.parallel(figures_job, figure_cfgs()):
        rep.add(runs_with_figures=1)
        if probs:
            rep.violation("%s\nwith figures, config=%s" % ("; ".join(probs[:4]), json.dumps(c)), dict(kind="fig", cfg=c))
    try:
        n, probs = fresh_load()
    except Exception:
        n, probs = 0, ["exception in the code under test:\n" + short_tb()]
    rep.add(objects_loaded_in_new_process=n)
    for p in probs:
        rep.violation(p, dict(kind="fresh"))
    rep.sample(dict(config=g[7]))
    return rep.finish()


def replay(d):
    if d["kind"] == "grid":
        probs = run_one(d["cfg"], d["how"])[0]
    elif d["kind"] == "fig":
        probs = figures_job(d["cfg"])[1]
    elif d["kind"] == "fresh":
        probs = fresh_load()[1]
    else:
        probs = [p for x in orders_job(d["cfg"])[0] for p in x[2]]
    print("\n".join(probs) or "not reproduced")
    return 1 if probs else 0
