"""C10 profit split: a lattice of pools and delegations, and every agent's utility in every explored state."""
import itertools
import json

from mc import agentcheck, configs, env, explore, ref
from mc.report import Report, short_tb

QUICK = dict(max_states=1500, time_limit=8, scripted_depth=4)
DEEP = dict(max_states=60000, time_limit=240, scripted_depth=8)


def split_states(model, sc):
    """Problems with the agents' current utilities in this state."""
    out = []
    total = 0.0
    agents = {a.unique_id: a for a in model.schedule.agents}
    for a in agents.values():
        if a.strategy is None:
            continue
        got = a.calculate_current_utility()
        want = ref.current_utility(model, a, sc)
        total += got
        if abs(got - want) > 1e-11:
            out.append("agent %d: current utility %r, its pools and delegations give %r" % (a.unique_id, got, want))
    profits = sum(sc.reward(p.pledge, p.stake) - p.cost for p in model.pools.values())
    if abs(total - profits) > 1e-10:
        out.append("utilities of all agents add up to %r, profits of all pools to %r" % (total, profits))
    return out


def monitor(step):
    return split_states(step.post, step.sc)


def lattice(args):
    """Pools with up to three delegators."""
    import logic.helper as hlp
    import logic.reward_schemes as rss
    kind, k = args
    out, n, profitable, distinct = [], 0, 0, set()
    z = 1 / k
    cuts = [(), (0.25,), (0.5,), (0.1, 0.4), (0.2, 0.2, 0.6), (1.0, 0.7), (1e-9, 0.3)]
    try:
        for a0 in ((0.0, 0.3, 2.0) if not env.THOROUGH else (0.0, 0.1, 0.3, 1.0, 2.0, 8.0)):
            rs = rss.RSS_MAPPING[kind](k, a0)
            for pledge in (0.0, z / 20, z / 3, z * 0.9, z):
                for cut in cuts:
                    alloc = [c * z for c in cut]
                    stake = pledge + sum(alloc)
                    if stake <= 0:
                        continue
                    r = rs.calculate_pool_reward(pledge, stake)
                    for margin in (0, 0.03, 0.5, 1):
                        for cost in (0.0, 1e-6, 0.4 * abs(r), r, r * (1 + 1e-9), 1.5 * abs(r), r + 0.2):
                            if cost < 0:
                                continue
                            u = hlp.calculate_operator_utility_from_pool(stake, pledge, margin, cost, rs)
                            ds = [hlp.calculate_delegator_utility_from_pool(x, stake, pledge, margin, cost, rs) for x in alloc]
                            n += 1
                            distinct.add((round(u, 12), tuple(round(x, 12) for x in ds)))
                            profit = r - cost
                            where = "scheme %d k=%r a0=%r pledge=%r delegations=%r margin=%r cost=%r reward=%r" % (
                                kind, k, a0, pledge, alloc, margin, cost, r)
                            if profit > 0:
                                profitable += 1
                                if abs(u + sum(ds) - profit) > 1e-12:
                                    out.append("%s: operator %r and delegators %r do not add up to %r" % (where, u, ds, profit))
                                w = profit * (margin + (1 - margin) * pledge / stake)
                                if abs(u - w) > 1e-12:
                                    out.append("%s: operator gets %r, should get %r" % (where, u, w))
                                for x, d in zip(alloc, ds):
                                    w = profit * (1 - margin) * x / stake
                                    if abs(d - w) > 1e-12:
                                        out.append("%s: delegator of %r gets %r, should get %r" % (where, x, d, w))
                            else:
                                if any(d != 0 for d in ds):
                                    out.append("%s: no profit, but delegators get %r" % (where, ds))
                                if abs(u - profit) > 1e-12:
                                    out.append("%s: operator gets %r, should bear %r" % (where, u, profit))
                            if len(out) > 2:
                                return args, n, profitable, len(distinct), out
    except Exception:
        out.append("exception in the code under test:\n" + short_tb())
    return args, n, profitable, len(distinct), out


def main():
    rep = Report("C10", "model_checking", [
        "lattice of pools with up to three delegators; states of 3 to 5 agents; amounts compared to 1e-11"])
    for args, n, prof, distinct, probs in explore.parallel(lattice, [(kind, k) for kind in range(5) for k in (1, 2, 5, 100, 2.5)]):
        rep.add(lattice_points=n, profitable_points=prof, distinct_splits=distinct)
        for p in probs[:2]:
            rep.violation(p, {"lattice": args})
    cfgs = configs.crowded(env.THOROUGH) + configs.scripted(env.THOROUGH) + configs.phased(env.THOROUGH)
    cfgs += [c for c in configs.rational(env.THOROUGH) if c["agent_activation_order"] in ("random", "simultaneous")]
    agentcheck.into(rep, cfgs, monitor, QUICK, DEEP)
    return rep.finish()


def replay(data):
    if "lattice" in data:
        probs = lattice(tuple(data["lattice"]))[4]
        print("\n".join(probs) or "not reproduced")
        return 1 if probs else 0
    return agentcheck.replay(data, monitor)
