"""Reference formulas and reference decisions, written from the documentation, independent of /repo's helpers.

They read only the observable state: model.pools, the rankings, agents' stake / cost / strategy, the parameters
in force (model.reward_scheme.k / a0, thresholds)."""
from math import fsum

MIN_UNIT = 2.2e-17
BOOST = 1e-6
TOL = 1e-9


class Scheme:
    """Published reward functions; z = saturation level 1/k (k before truncation to an integer)."""

    def __init__(self, kind, z, a0):
        self.kind, self.z, self.a0 = kind, z, a0

    def sat(self, pledge):
        return min(self.a0 * pledge, self.z) if self.kind == 4 else self.z

    def reward(self, pledge, stake):
        z, a0 = self.z, self.a0
        if self.kind == 4:
            return min(stake, self.sat(pledge))
        s = min(stake, z)
        if self.kind == 3:
            x = z / 8
            p = min(pledge ** (1 / 3) * x ** (2 / 3), z)
        else:
            p = min(pledge, z)
        if self.kind in (0, 3):
            return (s + p * a0 * (s - p * (z - s) / z) / z) / (1 + a0)
        if self.kind == 1:
            return (s + a0 * s * p / z) / (1 + a0)
        if self.kind == 2:
            return (s + a0 * p) / (1 + a0)
        raise ValueError(self.kind)


KINDS = {"CardanoRSS": 0, "SimplifiedRSS": 1, "FlatPledgeBenefitRSS": 2, "CurvePledgeBenefitRSS": 3, "CIP50RSS": 4}


def scheme_of(model, kind=None):
    rs = model.reward_scheme
    if kind is None:
        kind = KINDS[type(rs).__name__]
    return Scheme(kind, rs.global_saturation_threshold, rs.a0)


def pp(sc, pledge, cost):
    return sc.reward(pledge, sc.sat(pledge)) - cost


def des(margin, profit):
    return max((1 - margin) * profit, 0)


def current_des(sc, p):
    return des(p.margin, sc.reward(p.pledge, p.stake) - p.cost)


def op_utility(sc, stake, pledge, margin, cost):
    profit = sc.reward(pledge, stake) - cost
    if profit <= 0:
        return profit
    share = pledge / stake if stake > 0 else 0
    return profit * (margin + (1 - margin) * share)


def del_utility(sc, alloc, stake, pledge, margin, cost):
    profit = sc.reward(pledge, stake) - cost
    if profit <= 0 or stake <= 0:
        return 0
    return profit * (1 - margin) * alloc / stake


def is_myopic(agent):
    import logic.stakeholder_profiles as prof
    return isinstance(agent, prof.PROFILE_MAPPING[1])


def is_abstainer(agent):
    import logic.stakeholder_profiles as prof
    return isinstance(agent, prof.PROFILE_MAPPING[2])


def own_ranking(model, agent):
    return list(model.pool_rankings_myopic if is_myopic(agent) else model.pool_rankings)


def long_key(p):
    return (-p.desirability, -p.potential_profit, p.id)


class Ambiguous(Exception):
    """A floating-point near tie decides: the reference makes no prediction."""


def near(a, b, eps=1e-12):
    return abs(a - b) <= eps


def can_hold(sc, pools, total):
    s = fsum(sc.sat(p.pledge) for p in pools if p is not None)
    if s < total and near(s, total, 1e-13):
        # within rounding of each other: not decidable from the outside
        raise Ambiguous("saturation sum %r vs total %r" % (s, total))
    return s >= total


def long_term_stake(sc, pool, ranking, total):
    """ranking: list with unfilled places; `pool` in it (by identity, else by id)."""
    idx = next((i for i, p in enumerate(ranking) if p is pool), None)
    if idx is None:
        idx = next(i for i, p in enumerate(ranking) if p is not None and p.id == pool.id)
    if can_hold(sc, ranking[:idx], total):
        return pool.pledge
    return max(sc.sat(pool.pledge), pool.stake)


# ---- utilities of strategies -------------------------------------------------------------------------------------

def current_utility(model, agent, sc):
    u = 0
    for p in agent.strategy.owned_pools.values():
        u += op_utility(sc, p.stake, p.pledge, p.margin, p.cost)
    for pid, a in agent.strategy.stake_allocations.items():
        p = model.pools[pid]
        u += del_utility(sc, a, p.stake, p.pledge, p.margin, p.cost)
    return u


def expected_utility(model, agent, strategy, sc, prev=None):
    """Utility the agent expects of `strategy`; `prev`: its present delegations."""
    if prev is None:
        prev = agent.strategy.stake_allocations
    u = 0
    my = is_myopic(agent)
    owned = list(strategy.owned_pools.values())
    if owned:
        if my:
            for p in owned:
                u += op_utility(sc, p.stake, p.pledge, p.margin, p.cost)
        else:
            rest = [p for p in model.pools.values() if p.owner != agent.unique_id]
            ranking = sorted(rest + owned, key=long_key)
            _no_near_ties(ranking)
            for p in owned:
                s = long_term_stake(sc, p, ranking, model.total_stake)
                u += op_utility(sc, s, p.pledge, p.margin, p.cost)
    ranking = list(model.pool_rankings)
    for pid, a in strategy.stake_allocations.items():
        if pid not in model.pools:
            continue
        p = model.pools[pid]
        s = p.stake - prev.get(pid, 0) + a
        if not my:
            s = max(long_term_stake(sc, p, ranking, model.total_stake), s)
        u += del_utility(sc, a, s, p.pledge, p.margin, p.cost)
    return u


def _no_near_ties(ranking):
    for a, b in zip(ranking, ranking[1:]):
        for x, y in ((a.desirability, b.desirability), (a.potential_profit, b.potential_profit)):
            if x != y:
                if near(x, y):
                    raise Ambiguous("near tie")
                break


# ---- decisions ---------------------------------------------------------------------------------------------------

def split(stake, z, t):
    return min(stake / t, z)


def cost_each(cost, phi, t):
    return (cost + (t - 1) * phi * cost) / t


def estimate(model, agent, t, sc):
    """(margins, utility) the agent estimates for running t pools."""
    k = model.reward_scheme.k
    pledge, cost = split(agent.stake, sc.z, t), cost_each(agent.cost, model.extra_pool_cost_fraction, t)
    sat = sc.sat(pledge)
    others = [p for p in own_ranking(model, agent) if p is None or p.owner != agent.unique_id]
    margins, u = [], 0
    my = is_myopic(agent)
    if my:
        owned = agent.strategy.owned_pools.values()
        expect = max(sum(p.stake for p in owned), agent.stake) / t
        profit = sc.reward(pledge, expect) - cost
    else:
        profit = pp(sc, pledge, cost)
    for j in range(1, t + 1):
        rival = others[k - j]
        if my:
            goal = (0 if rival is None else current_des(sc, rival)) + BOOST
            m = max(1 - goal / profit, 0) if profit > 0 else 0
            u += op_utility(sc, sat, pledge, m, cost)
        else:
            goal = (0 if rival is None else rival.desirability) + BOOST
            if near(profit, goal, 1e-13) and profit != goal:
                raise Ambiguous("profit at target")
            if profit < goal:
                m = 0
                u += op_utility(sc, pledge, pledge, 0, cost)
            else:
                goal = max(goal, 0 if rival is None else rival.potential_profit)
                m = max(1 - goal / profit, 0) if profit > 0 else 0
                u += op_utility(sc, sat, pledge, m, cost)
        margins.append(m)
    return margins, u


def delegation(model, agent, amount, sc):
    """Reference delegation of `amount`: (allocations, candidates for the overflow, overflow amount)."""
    mine = agent.strategy.stake_allocations
    allocs, over_to = {}, []
    left = amount
    certain = False
    for p in own_ranking(model, agent):
        if p is None or p.owner == agent.unique_id or p.is_private:
            continue
        room = sc.sat(p.pledge) - (p.stake - mine.get(p.id, 0))
        if room <= 1e-12:
            # saturated (or within rounding of it: then another saturated pool further down may be the one)
            if not certain:
                over_to.append(p.id)
            if room <= -1e-12 or room == 0:
                certain = True
            continue
        if left > 1e-12:
            a = min(left, room)
            allocs[p.id] = a
            left -= a
    return allocs, over_to, certain, (left if left > 1e-12 else 0)


def check_delegation(model, agent, amount, got, sc):
    """Problems with the delegations `got` ({pool id: amount}) decided by `agent` in the state `model`."""
    got = {p: a for p, a in got.items() if abs(a) > 1e-12}
    if amount < 1e-12:
        return ["agent %d delegates %r although nothing is left to delegate" % (agent.unique_id, got)] if got else []
    want, over_to, certain, left = delegation(model, agent, amount, sc)
    out = []
    for pid, a in got.items():
        if pid not in model.pools:
            out.append("delegates to pool %s which is not active" % pid)
        elif model.pools[pid].owner == agent.unique_id:
            out.append("delegates to its own pool %s" % pid)
        elif model.pools[pid].is_private:
            out.append("delegates to private pool %s" % pid)
        elif a < 0:
            out.append("negative delegation to pool %s" % pid)
    if out:
        return ["agent %d: %s" % (agent.unique_id, "; ".join(out))]
    rest = {p: got.get(p, 0) - want.get(p, 0) for p in set(got) | set(want)}
    rest = {p: d for p, d in rest.items() if abs(d) > TOL}
    if not rest and (left <= TOL or not over_to or not certain):
        return []
    if left > TOL and len(rest) == 1:
        (pid, d), = rest.items()
        if pid in over_to and abs(d - left) <= TOL:
            return []
    return ["agent %d delegates %r; filling its ranking up to saturation gives %r, overflow %r to one of %r"
            % (agent.unique_id, got, want, left, over_to)]
