"""C12 initial population: all combinations of the listed options, and every way a stake file can relate to n."""
import collections
import itertools
import json
import math
import os

from mc import env, explore, ref
from mc.report import Report, short_tb

TOL = 1e-9


def source_ok(source, c, stakes, share):
    """Problems with the proportions of the stakes."""
    import logic.helper as hlp
    n = len(stakes)
    if source == "flat":
        want = [1.0] * n
    elif source == "disparity":
        # 30% of the active stake is held by the first three agents, the rest by the others, in equal parts
        high = min(3, n - 1)
        want = [0.3 / max(high, 1)] * high + [0.7 / (n - high)] * (n - high)
    elif source == "pareto":
        want = [float(x) for x in hlp.generate_stake_distr_pareto(num_agents=n, pareto_param=c["pareto_param"], seed=c["seed"])]
        if min(want) < 1 or len(want) != n:
            return ["Pareto sample %r" % want]
    tot = sum(want)
    bad = [(i, s, w / tot * share) for i, (s, w) in enumerate(zip(stakes, want)) if abs(s - w / tot * share) > TOL]
    return ["stakes not proportional to the source %s: %r" % (source, bad[:3])] if bad else []


def population(c):
    """Everything that C12 says about a constructed simulation (except the proportions)."""
    import logic.sim as sim
    import logic.stakeholder_profiles as prof
    out = []
    with env.quiet():
        m = sim.Simulation(**c)
    f = c.get("inactive_stake_fraction", 0)
    ags = list(m.schedule.agents)
    n = c["n"]
    if [a.unique_id for a in ags] != list(range(n)):
        out.append("agents %r, should be numbered 0..%d" % ([a.unique_id for a in ags], n - 1))
    st = [float(a.stake) for a in ags]
    if abs(sum(st) - (1 - f)) > TOL:
        out.append("agents hold %r of the stake, the active share is %r" % (sum(st), 1 - f))
    if min(st) < 0:
        out.append("negative stake %r" % min(st))
    if abs(m.total_stake - 1) > TOL:
        out.append("the total stake is %r" % m.total_stake)
    for a in ags:
        if not c["cost_min"] <= a.cost <= c["cost_max"]:
            out.append("agent %d costs %r, bounds %r, %r" % (a.unique_id, a.cost, c["cost_min"], c["cost_max"]))
    if n >= 3 and c["cost_max"] > c["cost_min"] and len({a.cost for a in ags}) == 1:
        out.append("all agents have the same cost")
    ok = {prof.PROFILE_MAPPING[i] for i, w in enumerate(c.get("agent_profile_distr") or [1, 0, 0]) if w > 0}
    kinds = collections.Counter(type(a).__name__ for a in ags)
    if not all(type(a) in ok for a in ags):
        out.append("profiles %r, weights %r" % (dict(kinds), c.get("agent_profile_distr")))
    ks = c["k"] if isinstance(c["k"], list) else [c["k"]]
    k = ks[0] / (1 - f) if c.get("inactive_stake_fraction_known") else ks[0]
    if m.reward_scheme.k != int(k + 1e-9) or abs(m.reward_scheme.global_saturation_threshold - 1 / k) > 1e-12:
        out.append("target number of pools %r (saturation %r), should be %r" % (m.reward_scheme.k, m.reward_scheme.global_saturation_threshold, k))
    if m.pools or any(a.strategy is not None and (a.strategy.owned_pools or a.strategy.stake_allocations) for a in ags):
        out.append("there are pools or delegations at the start")
    for a in ags:
        if ref.is_abstainer(a) != (a.strategy is None):
            out.append("agent %d: profile and strategy disagree" % a.unique_id)
    return m, st, dict(kinds), out


def grid_job(args):
    n, source = args
    res = dict(n=0, out=[], kinds=collections.Counter(), distinct=set())
    prefs = [[1, 0, 0], [0, 1, 0], [0, 0, 1], [1, 1, 0], [0.5, 0, 2.5], [0, 3, 0.1], [1, 1, 1]]
    costs = [(0, 0), (1e-5, 1e-4), (0.01, 0.01), (0.1, 3.0)]
    fracs = [(0, False), (0.1, True), (0.25, False), (0.7, True), (0.9, True), (0.99, False)]
    paretos = (0.3, 2.0, 7) if source == "pareto" else (2.0,)
    seeds = (0, 5) if not env.THOROUGH else range(12)
    ks = (1, 3, [7, 2]) if not env.THOROUGH else (1, 2, 3, 7, 100, [7, 2], [1, 1, 4])
    for w, (lo, hi), (f, known), par, seed, k in itertools.product(prefs, costs, fracs, paretos, seeds, ks):
        c = dict(n=n, stake_distr_source=source, agent_profile_distr=w, cost_min=lo, cost_max=hi, inactive_stake_fraction=f,
                 inactive_stake_fraction_known=known, pareto_param=par, seed=seed, k=k, metrics=[1], generate_graphs=False, execution_id="x")
        try:
            m, st, kinds, probs = population(c)
            probs += source_ok(source, c, st, 1 - f)
        except Exception:
            probs = ["exception in the code under test:\n" + short_tb()]
            kinds, st = {}, []
        res["n"] += 1
        res["kinds"].update(kinds)
        res["distinct"].add(tuple(round(x, 9) for x in st))
        if probs:
            res["out"].append((probs, c))
            if len(res["out"]) > 2:
                break
        if res["n"] % 200 == 0:
            clean()
    res["distinct"] = len(res["distinct"])
    return res


def shape_job(shape):
    """The requested shape is the one of the stakes: its estimate from 80 agents is off by more than a factor 2 with a
    probability below 1e-7, and the samples are fixed."""
    out = []
    for seed in (0, 1, 42) if not env.THOROUGH else range(20):
        c = dict(n=80, stake_distr_source="pareto", pareto_param=shape, seed=seed, k=3, cost_min=1e-4, cost_max=1e-3, metrics=[1],
                 generate_graphs=False, execution_id="x")
        try:
            _, st, _, out = population(c)
            got = len(st) / sum(math.log(s / min(st)) for s in st)
            if not shape / 2 < got < shape * 2:
                out.append("the stakes of 80 agents have a Pareto shape of about %r, requested is %r" % (got, shape))
        except Exception:
            out = ["exception in the code under test:\n" + short_tb()]
        if out:
            return out, c
    clean()
    return [], {}


def clean():
    import shutil
    shutil.rmtree(os.path.join(os.getcwd(), "output"), ignore_errors=True)


def write_file(name, values, layout):
    with open(name, "w", newline="") as f:
        if layout == "lines":
            f.write("".join("%r\n" % v for v in values))
        elif layout == "crlf":
            f.write("".join("%r\r\n" % v for v in values))
        elif layout == "commas":
            f.write(",".join("%r" % v for v in values) + "\n")
        elif layout == "no-newline":
            f.write("\n".join("%r" % v for v in values))
        elif layout == "rows":
            f.write("".join(",".join("%r" % v for v in values[i:i + 2]) + "\n" for i in range(0, len(values), 2)))


def matches(stakes, values, mode):
    """Can the stakes be these file values up to one common factor? (mode: equal, fewer, more)"""
    cnt = collections.Counter(values)
    first = next((s for s in stakes if s > 1e-14), None)  # the other stakes are rounding errors
    for v in set(values):
        if first is None or v <= 0:
            continue
        scale = first / v
        got = []
        for s in stakes:
            near = min(values, key=lambda x: abs(x - s / scale))
            if abs(near * scale - s) > 1e-9 * near * scale + 2e-16 * len(stakes):
                break
            got.append(near)
        else:
            if mode == "equal" and got == list(values):
                return True
            if mode == "sample" and not collections.Counter(got) - cnt:
                return True
            if mode == "repeat":
                return True
    return False


def file_job(args):
    """A stake file with `rows` values for n agents."""
    n, rows, layout, own_name, f, shape = args
    d = env.new_dir("sf")
    out = []
    values = {"primes": [2.0, 3.0, 5.0, 7.0, 11.0, 13.0, 17.0, 19.0, 23.0, 29.0], "unit": [0.5, 0.25, 0.125, 0.0625, 0.0625],
              "same": [1.0, 4.0, 1.0, 4.0, 1.0, 9.0, 9.0, 1.0], "tiny": [1e-9, 2e-9, 7e-9, 3e-9, 5e-9, 1.1e-8],
              "wide": [1e9, 2e-3, 1.0, 3.0, 5e4, 7e-4, 1e-3, 1e6], "near": [0.5005, 0.25, 0.125, 0.0625, 0.0625],
              "under": [0.4997, 0.25, 0.125, 0.0625, 0.0625]}[shape][:rows]
    rows = len(values)
    with env.in_dir(d):
        try:
            write_file("synthetic-stake-distribution-%s-agents.csv" % (n if own_name else 10000), values, layout)
            c = dict(n=n, stake_distr_source="file", inactive_stake_fraction=f, k=2, seed=3, cost_min=1e-4, cost_max=1e-3,
                     metrics=[1], generate_graphs=False, execution_id="x")
            m, st, _, out = population(c)
            mode = "equal" if rows == n else "sample" if rows > n else "repeat"
            if not matches(st, values, mode):
                out.append("stakes %r do not come from the file values %r (%s)" % (st, values, mode))
        except Exception:
            out.append("exception in the code under test:\n" + short_tb())
    return args, out


def file_jobs():
    for n in range(1, 7 if not env.THOROUGH else 10):
        for rows in range(1, 9):
            for layout in ("lines", "crlf", "commas", "no-newline", "rows"):
                for own in (True, False):
                    for f in (0, 0.2, 0.5):
                        for shape in ("primes", "unit", "same", "tiny", "wide", "near", "under"):
                            if rows <= (5 if shape in ("unit", "near", "under") else 8):
                                yield n, rows, layout, own, f, shape


def refusals():
    """Impossible inputs."""
    import logic.sim as sim
    out = []
    base = dict(n=4, k=2, seed=1, metrics=[1], generate_graphs=False, execution_id="x")
    bad = [("reversed cost bounds", dict(cost_min=0.2, cost_max=0.1)), ("reversed cost bounds", dict(cost_min=1e-4, cost_max=0)),
           ("reversed cost bounds", dict(cost_min=1e-4, cost_max=9e-5, stake_distr_source="flat", inactive_stake_fraction=0.5)),
           ("missing stake file", dict(stake_distr_source="file")), ("missing stake file", dict(stake_distr_source="File", n=7)),
           ("no active stake", dict(inactive_stake_fraction=1)),
           ("no active stake", dict(inactive_stake_fraction=1, inactive_stake_fraction_known=True)),
           ("missing arguments file", dict(input_from_file=True))]
    for what, kw in bad:
        d = env.new_dir("rf")
        with env.in_dir(d):
            try:
                with env.quiet():
                    sim.Simulation(**dict(base, **kw))
                out.append("%s accepted: %r" % (what, kw))
            except Exception:
                if what == "no active stake" and os.path.exists("output"):
                    out.append("%s refused only after the output folder had been created: %r" % (what, kw))
    return len(bad), out


def main():
    rep = Report("C12", "model_checking", [
        "populations of at most 20 agents; the Pareto source is compared to the documented generator for the same seed; nothing is said "
        "about distributions beyond that (C22)"])
    explore.preload()
    ns = (1, 2, 3, 4, 5, 8) if not env.THOROUGH else (1, 2, 3, 4, 5, 6, 7, 8, 12, 20)
    kinds = collections.Counter()
    for r in explore.parallel(grid_job, [(n, s) for n in reversed(ns) for s in ("pareto", "flat", "disparity")]):
        rep.add(states=r["n"], traces_validated_against_impl=r["n"], distinct_stake_vectors=r["distinct"])
        kinds.update(r["kinds"])
        for probs, c in r["out"][:2]:
            rep.violation("%s\nconfig=%s" % ("; ".join(probs[:3]), json.dumps(c)), {"config": c})
    rep.add(profiles_drawn=dict(kinds))
    for probs, c in explore.parallel(shape_job, [0.4, 1.0, 2.0, 3.5, 7.0]):
        rep.add(pareto_shapes=1)
        if probs:
            rep.violation("%s\nconfig=%s" % ("; ".join(probs[:3]), json.dumps(c)), {"shape": c["pareto_param"]})
    nf = 0
    for args, probs in explore.parallel(file_job, list(file_jobs())):
        nf += 1
        rep.sample({"stake file (n, rows, layout, own name, inactive fraction, values)": list(args)})
        if probs and len(rep.violations) < 8:
            rep.violation("%s\nstake file %r" % ("; ".join(probs[:3]), args), {"file": list(args)})
    n, probs = refusals()
    for p in probs:
        rep.violation(p, {"refusals": True})
    rep.add(stake_files=nf, refused_inputs=n, transitions=nf + n)
    return rep.finish()


def replay(data):
    explore.preload()
    if "config" in data:
        c = data["config"]
        _, st, _, probs = population(c)
        probs += source_ok(c["stake_distr_source"], c, st, 1 - c["inactive_stake_fraction"])
    elif "shape" in data:
        probs = shape_job(data["shape"])[0]
    elif "file" in data:
        probs = file_job(tuple(data["file"]))[1]
    else:
        probs = refusals()[1]
    print("\n".join(probs) or "not reproduced")
    return 1 if probs else 0
