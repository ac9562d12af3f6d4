"""C13 metrics: every recorded value is compared with an independent computation of the documented quantity, for all
small sets of pools placed into a real simulation, for all states explored with real agents and for real runs."""
import collections
import itertools
import json
import random
from fractions import Fraction as F
from math import fsum

from mc import configs, env, explore, ref
from mc.report import Report, short_tb
from mc.state import build, canon, describe, snapshot

# ids and names of docs/metrics.md
NAMES = {1: "Pool count", 2: "Total pledge", 3: "Mean pledge", 4: "Median pledge", 5: "Average pools per operator",
         6: "Max pools per operator", 7: "Median pools per operator", 8: "Average saturation rate", 9: "Nakamoto coefficient",
         10: "Statistical distance", 11: "Min-aggregate pledge", 12: "Pledge rate", 13: "Pool homogeneity factor",
         14: "Iterations", 15: "Mean stake rank", 16: "Mean cost rank", 17: "Median stake rank", 18: "Median cost rank",
         19: "Number of pool splitters", 20: "Cost efficient stakeholders", 21: "StakePairs", 22: "Gini-id",
         23: "Gini-id stake", 24: "Mean margin", 25: "Median margin", 26: "Stake per agent", 27: "Stake per agent id",
         28: "Total delegated stake", 29: "Total agent stake", 30: "Operator count"}
ALL = sorted(NAMES)
CHEAP = [i for i in ALL if i != 11]  # 11 starts a solver process (30 ms)


# ---- references --------------------------------------------------------------------------------------------------

def mean(v):
    return fsum(v) / len(v) if v else 0


def median(v):
    v = sorted(v)
    h = len(v) // 2
    return 0 if not v else v[h] if len(v) % 2 else (v[h - 1] + v[h]) / 2


def gini(v):
    tot = fsum(v)
    if tot == 0:
        return -1
    return fsum(abs(a - b) for a in v for b in v) / (2 * len(v) * tot)


def ranks(values):
    """Highest value first; the lowest id first among equals."""
    order = sorted(values, key=lambda i: (-values[i], i))
    return {i: r + 1 for r, i in enumerate(order)}


def rounded(x):
    lo = int(x // 1)
    fr = x - lo
    return {lo, lo + 1} if abs(fr - 0.5) < 1e-9 else {lo if fr < 0.5 else lo + 1}


def nakamoto(stakes):
    v = sorted((F(s) for s in stakes), reverse=True)
    half = sum(v) / 2
    if half == 0:
        return None
    cum, out = F(0), set()
    for i, s in enumerate(v):
        cum += s
        if cum > half:
            out.add(i + 1)
            if cum - half > F(1, 10 ** 12):
                return out
        elif cum != half and half - cum < F(1, 10 ** 12):
            out.add(i + 1)
    return out


def min_aggregate(pools, strict):
    half = sum(F(p.stake) for p in pools) / 2
    best = None
    for r in range(len(pools) + 1):
        for c in itertools.combinations(pools, r):
            s = sum(F(p.stake) for p in c)
            near = abs(s - half) < F(1, 10 ** 9)
            if s > half and not near or near and not strict:
                v = fsum(p.pledge for p in c)
                best = v if best is None else min(best, v)
    return best


def reference(m, kind, rounds):
    """metric id -> expected value, or a set of acceptable ones, or None (no prediction)."""
    pools = list(m.pools.values())
    ags = {a.unique_id: a for a in m.schedule.agents}
    sc = ref.scheme_of(m, kind)
    per = collections.Counter(p.owner for p in pools)
    ctrl = {i: fsum(p.stake for p in pools if p.owner == i) for i in ags}
    pledges, margins, stakes = [p.pledge for p in pools], [p.margin for p in pools], [p.stake for p in pools]
    tot = fsum(stakes)
    srank, crank = ranks({i: a.stake for i, a in ags.items()}), ranks({i: -a.cost for i, a in ags.items()})
    s_r, c_r = [srank[p.owner] for p in pools], [crank[p.owner] for p in pools]

    def sat_rate(p):
        t = sc.sat(p.pledge)
        return p.stake / t if t > 0 else float("inf") if p.stake > 0 else 0
    prof = [ref.pp(sc, a.stake, a.cost) for a in ags.values()]
    sure, maybe = sum(x > 1e-15 for x in prof), sum(x > -1e-15 for x in prof)
    return {
        1: len(pools), 2: fsum(pledges), 3: mean(pledges), 4: median(pledges),
        5: len(pools) / len(per) if per else 0, 6: max(per.values(), default=0), 7: median(list(per.values())),
        8: mean([sat_rate(p) for p in pools]) if all(sat_rate(p) < float("inf") for p in pools) else float("inf"),
        9: nakamoto(ctrl.values()) if pools else 0,
        10: fsum(abs(ctrl[i] - ags[i].stake) for i in ags) / 2 if pools else 0,
        12: fsum(pledges) / tot if tot > 0 else None if pools else 0,
        13: mean(stakes) / max(stakes) if pools and max(stakes) > 0 else None if pools else 0,
        14: rounds,
        15: rounded(mean(s_r)), 16: rounded(mean(c_r)), 17: rounded(median(s_r)), 18: rounded(median(c_r)),
        19: sum(v > 1 for v in per.values()), 20: set(range(sure, maybe + 1)),
        21: sorted((p.id, p.owner, ags[p.owner].stake, p.stake, p.margin) for p in pools),
        22: gini(list(per.values())), 23: gini([ctrl[i] for i in per]),
        24: mean(margins), 25: median(margins),
        26: [ctrl[i] for i in sorted(ags)], 27: dict(ctrl), 28: tot, 29: fsum(a.stake for a in ags.values()), 30: len(per),
    }


def close(a, b):
    return a == b or abs(a - b) <= 1e-9 * max(1, abs(b))


def same(i, got, want):
    if want is None:
        return got == got  # any number
    if isinstance(want, set):
        return got in want
    if i == 21:
        got = sorted(zip(got["pool_id"], got["owner_id"], got["x"], got["y"], got["r"]))
        return len(got) == len(want) and all(a[:2] == b[:2] and all(map(close, a[2:], b[2:])) for a, b in zip(got, want))
    if i == 26:
        return len(got) == len(want) and all(map(close, got, want))
    if i == 27:
        return set(got) == set(want) and all(close(got[x], want[x]) for x in want)
    return close(float(got), float(want))


def compare(m, ids, recorded, kind, rounds):
    want = reference(m, kind, rounds)
    out = []
    for i in ids:
        if i in want and not same(i, recorded[i], want[i]):
            out.append("metric %d (%s) is %r, should be %r" % (i, NAMES[i], recorded[i], want[i]))
    return out


def record(m, ids):
    """Values recorded by the simulation's own collector now, and whether anything else changed."""
    dc = m.datacollector
    for v in dc.model_vars.values():
        v.clear()
    before = (canon(m), m.random.getstate(), random.getstate(), untouched(m))
    dc.collect(m)
    cols = list(dc.model_vars)
    if len(cols) != len(ids):
        return {}, ["%d columns for %d metrics" % (len(cols), len(ids))]
    probs = ["metric %d is recorded as %r" % (i, c) for i, c in zip(ids, cols) if c != NAMES[i]]
    bad = [c for c in cols if len(dc.model_vars[c]) != 1]
    if bad:
        return {}, probs + ["%r recorded %d times" % (bad[0], len(dc.model_vars[bad[0]]))]
    after = (canon(m), m.random.getstate(), random.getstate(), untouched(m))
    for x, y, what in zip(before, after, ("the pools, agents or rankings", "the random generator", "the global random generator",
                                          "the run's variables")):
        if x != y:
            probs.append("computing metrics changed " + what)
    return {i: dc.model_vars[c][0] for i, c in zip(ids, cols)}, probs


def untouched(m):
    return (m.schedule.steps, m.running, m.id_seq, m.consecutive_idle_steps, m.current_step_idle, m.total_stake,
            [list(p.delegators.items()) for p in m.pools.values()], [p.stake for p in m.pools.values()],
            [a.unique_id for a in m.schedule.agents], list(m.pools))


# ---- all small sets of pools -------------------------------------------------------------------------------------

STAKES = [[0.4, 0.3, 0.2, 0.1], [0.25] * 4, [0.1, 0.2, 0.3, 0.4], [0.55, 0.25, 0.2, 0.0]]
COSTS = [[0.01, 0.02, 0.03, 0.04], [0.04, 0.01, 0.04, 0.2], [0.0] * 4, [0.2, 0.2, 0.1, 0.3]]
# (stake, pledge, margin) of pools
ATTRS = [(0.25, 0.1, 0.0), (0.25, 0.25, 1.0), (0.125, 0.05, 0.3), (0.5, 0.01, 0.02), (0.0, 0.0, 0.0), (0.05, 0.04, 0.5)]


def place(m, owners, attrs):
    from logic.pool import Pool
    m.pools.clear()
    for a in m.schedule.agents:
        if a.strategy is not None:
            a.strategy.owned_pools.clear()
    for j, (o, (s, p, mg)) in enumerate(zip(owners, attrs)):
        pid = 3 * j + 2
        q = Pool(pool_id=pid, cost=0.01, pledge=p, owner=o, reward_scheme=m.reward_scheme, margin=mg)
        if s - p > 1e-12:
            q.update_delegation(s - p, (o + 1) % 4)
        m.pools[pid] = q


def attr_rows(m):
    if m == 0:
        return [()]
    if m <= 2 or env.THOROUGH and m == 3:
        return list(itertools.product(ATTRS, repeat=m))
    rows = [tuple(ATTRS[(j * step + shift) % 6] for j in range(m)) for step in (1, 5, 0) for shift in range(6)]
    return rows if env.THOROUGH else rows[:12] if m == 3 else rows[1:12:2]


def place_job(job):
    kind, w, counts, order = job
    # pools are placed by hand, so the scheme's parameters matter for thresholds and cost efficiency only
    a0 = 4.0 if kind == 4 else 0.3
    ids = CHEAP if order == 0 else CHEAP[::-1] if order == 1 else CHEAP[7:] + CHEAP[:7]
    m = build(dict(_stakes=STAKES[w], _costs=COSTS[w], k=3 if w % 2 else 5, a0=a0, reward_scheme=kind, metrics=ids))
    res = dict(states=0, values=0, problems=[], seen=set(), distinct=set())
    for cnt in counts:
        for owners in itertools.product(range(4), repeat=cnt):
            for attrs in attr_rows(cnt):
                place(m, owners, attrs)
                m.schedule.steps = cnt
                try:
                    rec, probs = record(m, ids)
                    probs += padded_ginis(m)
                    if rec:
                        probs += compare(m, ids, rec, kind, cnt)
                        res["distinct"].add(tuple(repr(rec[i]) for i in (1, 5, 7, 8, 9, 10, 13, 17, 18, 22, 23)))
                except Exception:
                    probs = ["exception in the code under test:\n" + short_tb()]
                res["states"] += 1
                res["values"] += len(ids)
                if probs:
                    res["problems"].append(("; ".join(probs[:3]), dict(kind="place", job=job, owners=owners, attrs=attrs)))
                    if len(res["problems"]) > 2:
                        res["distinct"] = len(res["distinct"])
                        return res
    res["distinct"] = len(res["distinct"])
    return res


def padded_ginis(m):
    """The two "(k)" variants (not selectable by id): operators, padded with zeros up to k."""
    from logic import model_reporters as mr
    pools, k, out = list(m.pools.values()), m.reward_scheme.k, []
    per = collections.Counter(p.owner for p in pools)
    ctrl = [fsum(p.stake for p in pools if p.owner == o) for o in per]
    for name, vals in (("Gini-id (k)", list(per.values())), ("Gini-id stake (k)", ctrl)):
        f = mr.ALL_MODEL_REPORTEERS.get(name)
        if f is not None:
            got, want = f(m), gini(vals + [0] * (k - len(vals)))
            if not close(float(got), float(want)):
                out.append("%s is %r, should be %r" % (name, got, want))
    return out


BIG = [51, 60, 97, 128]


def special_job(job):
    """("big", ...): many pools; ("even", ...): every combination of agents just above and just below break-even."""
    what, kind, w = job
    a0 = 4.0 if kind == 4 else 0.3
    res = dict(big=0, even=0, problems=[])
    m = build(dict(_stakes=STAKES[w], _costs=COSTS[w], k=3 if w % 2 else 5, a0=a0, reward_scheme=kind, metrics=CHEAP))
    if what == "big":
        cases = [(cnt, step, own) for cnt in BIG for step in (1, 5, 0) for own in (4, 3, 1)]
    else:
        sc = ref.scheme_of(m, kind)
        gross = [ref.pp(sc, a.stake, 0) for a in m.schedule.agents]
        cases = list(itertools.product((1 - 1e-6, 1 + 1e-6, 0.5, 2), repeat=4))
    for case in cases:
        try:
            if what == "big":
                cnt, step, own = case
                place(m, [j % own for j in range(cnt)], [ATTRS[(j * step + j // 50) % 6] for j in range(cnt)])
            else:
                place(m, [], [])
                for a, g, f in zip(m.schedule.agents, gross, case):
                    a.cost = g * f if g > 0 else 1e-3
            rec, probs = record(m, CHEAP)
            if rec:
                probs += compare(m, CHEAP, rec, kind, m.schedule.steps)
        except Exception:
            probs = ["exception in the code under test:\n" + short_tb()]
        res[what] += 1
        if probs:
            res["problems"].append(("; ".join(probs[:3]) + "\n%r" % (case,), dict(kind="special", job=job)))
            break
    return res


# ---- metric 11 ---------------------------------------------------------------------------------------------------

P11 = [(0.2, 0.1), (0.2, 0.01), (0.5, 0.03), (0.07, 0.06), (0.13, 0.02)]


def min_job(job):
    m = build(dict(_stakes=STAKES[0], _costs=COSTS[0], k=3, a0=0.3, metrics=[11]))
    res = dict(n=0, problems=[])
    for row in job:
        place(m, [j % 4 for j in range(len(row))], [(s, p, 0) for s, p in row])
        probs, key = [], None
        try:
            rec, probs = record(m, [11])
            got = rec[11]
            strict, loose = min_aggregate(m.pools.values(), True) or 0, min_aggregate(m.pools.values(), False) or 0
            if abs(got - strict) > 2e-5:
                probs.append("metric 11 (Min-aggregate pledge) is %r, should be %r" % (got, strict))
                if len(probs) == 1 and abs(got - loose) <= 2e-5:
                    key = "min-aggregate-exact-half"
                elif len(probs) == 1 and list(row) == SUBOPTIMAL:
                    key = "min-aggregate-suboptimal"
        except Exception:
            probs = ["exception in the code under test:\n" + short_tb()]
        res["n"] += 1
        if probs:
            res["problems"].append(("; ".join(probs), dict(kind="min", row=row), key))
    return res


SUBOPTIMAL = [(0.1, 0.07), (0.05, 0.035), (0.15, 0.01), (0.05, 0.03), (0.15, 0.1)]


def min_rows():
    rows = [()]
    for cnt in (1, 2, 3):
        rows += list(itertools.product(P11, repeat=cnt))
    rows.append(tuple(SUBOPTIMAL))
    if env.THOROUGH:
        rows += [r for r in itertools.product(P11, repeat=3)][::-1]
    return rows


# ---- states of real agents ---------------------------------------------------------------------------------------

def probe(m, cfg, res):
    c = snapshot(m)
    rec, probs = record(c, CHEAP)
    if rec:
        probs += compare(c, CHEAP, rec, cfg.get("reward_scheme", 0), c.schedule.steps)
    e = res.setdefault("extra", {})
    e["metric_values"] = e.get("metric_values", 0) + len(CHEAP)
    return probs


def agent_job(cfg):
    scripted = cfg.get("_mode") == "scripted"
    lim = dict(max_states=400, time_limit=8) if not env.THOROUGH else dict(max_states=6000, time_limit=120)
    return explore.explore(dict(cfg, metrics=CHEAP), lambda s: None, probe=probe, max_depth=4 if scripted else 99, validate=4, **lim)


# ---- what real runs record ---------------------------------------------------------------------------------------

def run_job(cfg):
    """Real rounds: the row recorded for a round is the state at the beginning of that round."""
    probs, rounds = [], 0
    ids = cfg["metrics"]
    try:
        m = build(cfg)
        kind = cfg.get("reward_scheme", 0)
        while m.running and m.schedule.steps <= cfg["max_iterations"] and not probs:
            before, r = snapshot(m), m.schedule.steps
            with env.quiet():
                m.step()
            cols = list(m.datacollector.model_vars.values())
            if any(len(c) != rounds + 1 for c in cols) or len(cols) != len(ids):
                probs.append("round %d: %r values recorded for %d metrics" % (r, [len(c) for c in cols], len(ids)))
                break
            rec = {i: c[-1] for i, c in zip(ids, cols)}
            probs += ["round %d: %s" % (r, p) for p in compare(before, ids, rec, kind, r)]
            if 11 in ids and len(before.pools) <= 10:
                ps = list(before.pools.values())
                strict, loose = min_aggregate(ps, True) or 0, min_aggregate(ps, False) or 0
                if min(abs(rec[11] - strict), abs(rec[11] - loose)) > 2e-5 and not (len(ps) > 3 and loose < rec[11] < sum(p.pledge for p in ps) + 2e-5):
                    probs.append("round %d: metric 11 is %r, should be %r" % (r, rec[11], strict))
            rounds += 1
    except Exception:
        probs.append("exception in the code under test:\n" + short_tb())
    return cfg, rounds, probs


def run_cfgs():
    out = []
    orders = ("sequential", "random", "simultaneous", "semisimultaneous")
    for i, c in enumerate(configs.rational()):
        out.append(dict(c, metrics=ALL if i % 12 in (0, 4) else CHEAP[i % 29:] + CHEAP[:i % 29], max_iterations=25, iterations_after_convergence=3))
    for n, order in itertools.product((1, 2, 6, 12), orders):
        for a0, scheme, k in (([3, 0], 4, [3, 5]), ([0.3, 1.0], 0, [2, 4]), (0.1, 3, [5, 2])):
            out.append(dict(n=n, k=k, a0=a0, reward_scheme=scheme, stake_distr_source="disparity", cost_min=1e-4, cost_max=2e-3,
                            agent_activation_order=order, metrics=CHEAP, max_iterations=40, iterations_after_convergence=3, seed=5,
                            absolute_utility_threshold=1e-9, agent_profile_distr=[2, 1, 1], inactive_stake_fraction=0.2))
    for i in ALL:  # one metric only
        out.append(dict(configs.rational()[i % 12], metrics=[i], max_iterations=6, iterations_after_convergence=3))
    return out


def main():
    rep = Report("C13", "model_checking", [
        "pools are placed by hand into a real simulation in the first part; the other parts use states reached by real agents",
        "values of metrics are compared up to 1e-9; rounded averages that lie exactly between two integers may be either",
        "metric 11 (an external solver) is compared for up to 3 pools, up to 2e-5",
        "with pools but no stake at all in them, any number is accepted for the metrics that are quotients of stakes"])
    jobs = []
    for kind, w in itertools.product(range(5), range(4)):
        top = 6 if env.THOROUGH and kind == 0 else 5 if (kind, w) in ((0, 0), (0, 3)) or env.THOROUGH else 4 if kind == 0 else 3 if w < 2 else 2
        jobs += [(kind, w, (cnt,), w % 3) for cnt in range(top, 2, -1)] + [(kind, w, (0, 1, 2), w % 3)]
    jobs.sort(key=lambda j: -j[2][-1])
    for r in explore.parallel(place_job, jobs):
        rep.add(placed_pool_sets=r["states"], metric_values=r["values"], distinct_metric_vectors=r["distinct"])
        for text, rp in r["problems"]:
            rep.violation("%s\n%s" % (text, json.dumps(rp)), rp)
    for r in explore.parallel(special_job, list(itertools.product(("big", "even"), range(5), range(4)))):
        rep.add(sets_of_many_pools=r["big"], break_even_worlds=r["even"])
        for text, rp in r["problems"]:
            rep.violation("%s\n%s" % (text, json.dumps(rp)), rp)
    rows = min_rows()
    for r in explore.parallel(min_job, [rows[i::16] for i in range(16)]):
        rep.add(min_aggregate_instances=r["n"])
        for text, rp, key in r["problems"]:
            rep.violation("%s\npools (stake, pledge): %s" % (text, json.dumps(rp["row"])), rp, key)
    for r in explore.parallel(agent_job, configs.rational()[::2] + configs.crowded() + configs.phased(env.THOROUGH)):
        explore.fold(rep, r)
        rep.add(**r.get("extra", {}))
        if len(rep.violations) >= 6:
            break
    for cfg, rounds, probs in explore.parallel(run_job, run_cfgs()):
        rep.add(runs=1, recorded_rounds_checked=rounds)
        for p in probs[:3]:
            rep.violation("%s\nconfig=%s" % (p, json.dumps(cfg)), dict(kind="run", cfg=cfg))
    return rep.finish()


def replay(d):
    if d.get("kind") == "place":
        job = d["job"]
        kind, w, _, order = job
        ids = CHEAP if order == 0 else CHEAP[::-1] if order == 1 else CHEAP[7:] + CHEAP[:7]
        m = build(dict(_stakes=STAKES[w], _costs=COSTS[w], k=3 if w % 2 else 5, a0=4.0 if kind == 4 else 0.3, reward_scheme=kind, metrics=ids))
        place(m, d["owners"], [tuple(a) for a in d["attrs"]])
        m.schedule.steps = len(d["owners"])
        rec, probs = record(m, ids)
        probs += compare(m, ids, rec, kind, len(d["owners"]))
    elif d.get("kind") == "special":
        probs = [p[0] for p in special_job(tuple(d["job"]))["problems"]]
    elif d.get("kind") == "min":
        probs = [p[0] for p in min_job([[tuple(x) for x in d["row"]]])["problems"]]
    elif d.get("kind") == "run":
        probs = run_job(d["cfg"])[2]
    else:
        m = explore.run_trace(dict(d["config"], metrics=CHEAP), d["trace"])
        probs = probe(m, d["config"], {})
    print("\n".join(probs) or "not reproduced")
    return 1 if probs else 0
