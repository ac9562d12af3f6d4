"""Predicates on states and on transitions of the real simulation."""
from mc import ref
from mc.state import canon

TOL = 1e-9


def conservation(model):
    """C01"""
    out = []
    agents = {a.unique_id: a for a in model.schedule.agents}
    owned_by = {i: set() for i in agents}
    for pid, p in model.pools.items():
        if p.id != pid:
            out.append("pool %s is filed under id %s" % (p.id, pid))
        if p.owner not in agents:
            out.append("pool %s has no owner" % pid)
            continue
        owned_by[p.owner].add(pid)
        if abs(p.stake - (p.pledge + sum(p.delegators.values()))) > TOL:
            out.append("pool %s: stake %r != pledge %r + delegations %r" % (pid, p.stake, p.pledge, p.delegators))
        if p.pledge < 0:
            out.append("pool %s: negative pledge" % pid)
        for d, amt in p.delegators.items():
            s = agents[d].strategy
            have = 0 if s is None else s.stake_allocations.get(pid, 0)
            if abs(have - amt) > TOL:
                out.append("pool %s records %r from agent %s, who holds %r" % (pid, amt, d, have))
            if amt < 0:
                out.append("pool %s: negative delegation of agent %s" % (pid, d))
    total = 0
    for i, a in agents.items():
        total += a.stake
        s = a.strategy
        if s is None:
            if owned_by[i]:
                out.append("abstainer %s owns pools %s" % (i, owned_by[i]))
            continue
        if set(s.owned_pools) != owned_by[i]:
            out.append("agent %s holds pools %s, active pools it owns are %s" % (i, sorted(s.owned_pools), sorted(owned_by[i])))
        com = 0
        for pid, q in s.owned_pools.items():
            com += q.pledge
            if pid in model.pools:
                p = model.pools[pid]
                if p is not q and (abs(p.stake - q.stake) > TOL or abs(p.pledge - q.pledge) > TOL or
                                   abs(p.margin - q.margin) > TOL or p.delegators != q.delegators):
                    out.append("agent %s's view of its pool %s differs from the active pool" % (i, pid))
        for pid, amt in s.stake_allocations.items():
            com += amt
            if amt < -TOL:
                out.append("agent %s: negative delegation to %s" % (i, pid))
            if amt > TOL:
                if pid not in model.pools:
                    out.append("agent %s delegates %r to inactive pool %s" % (i, amt, pid))
                elif abs(model.pools[pid].delegators.get(i, 0) - amt) > TOL:
                    out.append("agent %s delegates %r to pool %s, which records %r"
                               % (i, amt, pid, model.pools[pid].delegators.get(i, 0)))
        if com > a.stake + TOL:
            out.append("agent %s commits %r but holds %r" % (i, com, a.stake))
    if sum(p.stake for p in model.pools.values()) > total + TOL:
        out.append("pools hold %r, agents hold %r" % (sum(p.stake for p in model.pools.values()), total))
    return out


def rankings(model, sc=None):
    """C02"""
    out = []
    sc = sc or ref.scheme_of(model)
    ids = set(model.pools)
    vals = {}
    for pid, p in model.pools.items():
        want_pp = ref.pp(sc, p.pledge, p.cost)
        want_des = ref.des(p.margin, want_pp)
        if abs(p.potential_profit - want_pp) > TOL:
            out.append("pool %s: potential profit %r, parameters imply %r" % (pid, p.potential_profit, want_pp))
        if abs(p.desirability - want_des) > TOL:
            out.append("pool %s: desirability %r, parameters imply %r" % (pid, p.desirability, want_des))
        vals[pid] = (p.desirability, p.potential_profit)
    for name, keys in (("long-term", None), ("short-term", "my")):
        rk = [p for p in (model.pool_rankings if keys is None else model.pool_rankings_myopic) if p is not None]
        if sorted(p.id for p in rk) != sorted(ids):
            out.append("%s ranking holds pools %s, active are %s" % (name, [p.id for p in rk], sorted(ids)))
            continue
        for p in rk:
            q = model.pools[p.id]
            if p is not q and canon_attrs(p) != canon_attrs(q):
                out.append("%s ranking holds an outdated version of pool %s" % (name, p.id))
        for p, q in zip(rk, rk[1:]):
            if keys is None:
                a = [p.desirability, p.potential_profit]
                b = [q.desirability, q.potential_profit]
            else:
                a, b = [ref.current_des(sc, p)], [ref.current_des(sc, q)]
            bad = None
            for x, y in zip(a, b):
                if x - y > 1e-12:
                    bad = False
                    break
                if y - x > 1e-12:
                    bad = True
                    break
                if x != y:
                    bad = False  # near tie: no verdict
                    break
            if bad is None:
                bad = p.id > q.id if keys is None or same_exactly(p, q) or both_at_loss(sc, p, q) else False
            if bad:
                out.append("%s ranking puts pool %s %r before pool %s %r" % (name, p.id, a, q.id, b))
    return out


def canon_attrs(p):
    return (p.owner, round(p.pledge, 10), round(p.stake, 10), round(p.cost, 10), round(p.margin, 10),
            round(p.potential_profit, 10), round(p.desirability, 10))


def same_exactly(p, q):
    return (p.pledge, p.stake, p.cost, p.margin) == (q.pledge, q.stake, q.cost, q.margin)


def both_at_loss(sc, p, q):
    """pools that presently make a loss are all equally undesirable: nothing, whatever the loss"""
    return all(sc.reward(x.pledge, x.stake) - x.cost < -1e-9 and x.margin < 1 for x in (p, q))


def operators(model, sc=None):
    """C03 (single-phase runs)"""
    out = []
    sc = sc or ref.scheme_of(model)
    k = model.reward_scheme.k
    phi = model.extra_pool_cost_fraction
    for a in model.schedule.agents:
        mine = [p for p in model.pools.values() if p.owner == a.unique_id]
        t = len(mine)
        if t > k:
            out.append("agent %s runs %d pools, k=%s" % (a.unique_id, t, k))
        for p in mine:
            want = ref.split(a.stake, sc.z, t)
            if abs(p.pledge - want) > TOL:
                out.append("pool %s: pledge %r, expected %r (stake %r, %d pools)" % (p.id, p.pledge, want, a.stake, t))
            want = ref.cost_each(a.cost, phi, t)
            if abs(p.cost - want) > TOL:
                out.append("pool %s: cost %r, expected %r" % (p.id, p.cost, want))
            if not 0 <= p.margin <= 1:
                out.append("pool %s: margin %r" % (p.id, p.margin))
            sat = sc.sat(p.pledge)
            if p.pledge == sat or abs(p.pledge - sat) > 1e-12:
                if bool(p.is_private) != (p.pledge >= sat):
                    out.append("pool %s: private=%s with pledge %r, saturation %r" % (p.id, p.is_private, p.pledge, sat))
    return out


def private_empty(model):
    out = []
    for p in model.pools.values():
        if p.is_private and any(a > 1e-12 for a in p.delegators.values()):
            out.append("private pool %s holds delegations %r" % (p.id, p.delegators))
    return out


def decided_delegation(pre, aid, strategy, sc):
    """C04 for a strategy just decided by agent `aid` in the state `pre`."""
    ag = next(a for a in pre.schedule.agents if a.unique_id == aid)
    used = sum(p.pledge for p in strategy.owned_pools.values())
    return ref.check_delegation(pre, ag, ag.stake - used, strategy.stake_allocations, sc)


def decided_pools(pre, aid, strategy, sc, max_id_before=None):
    """C11 for an operator strategy decided by agent `aid` in the state `pre`."""
    out = []
    ag = next(a for a in pre.schedule.agents if a.unique_id == aid)
    old = ag.strategy.owned_pools
    t = len(strategy.owned_pools)
    k = pre.reward_scheme.k
    if not 1 <= t <= k:
        return ["agent %s decides to run %d pools, k=%s" % (aid, t, k)]
    try:
        margins, u = ref.estimate(pre, ag, t, sc)
        for tt in (t - 1, t + 1):
            if 1 <= tt <= k:
                u2 = ref.estimate(pre, ag, tt, sc)[1]
                if u2 > u + 1e-11:
                    out.append("agent %s decides to run %d pools (estimate %r) although %d promise %r" % (aid, t, u, tt, u2))
        got = sorted(p.margin for p in strategy.owned_pools.values())
        if any(abs(x - y) > TOL for x, y in zip(got, sorted(margins))):
            out.append("agent %s sets margins %r, outranking its rivals needs %r" % (aid, got, sorted(margins)))
    except ref.Ambiguous:
        pass
    key = {pid: (p.desirability, p.potential_profit, p.stake, -pid) for pid, p in old.items()}
    kept = set(strategy.owned_pools) & set(old)
    if len(kept) != min(t, len(old)):
        out.append("agent %s keeps %d of its %d pools for a strategy with %d" % (aid, len(kept), len(old), t))
    elif t < len(old):
        for a in kept:
            for b in set(old) - kept:
                if worse(key[a], key[b]):
                    out.append("agent %s keeps pool %s %r and closes %s %r" % (aid, a, key[a], b, key[b]))
    return out


def worse(x, y):
    for a, b in zip(x, y):
        if b - a > 1e-12:
            return True
        if a != b:
            return False
    return False


def choice(pre, aid, taken, sc, op_candidate):
    """C05: `taken` is the strategy agent `aid` moved to (None: no move); op_candidate: best pool strategy or None."""
    ag = next(a for a in pre.schedule.agents if a.unique_id == aid)
    out = []
    try:
        cur = ref.current_utility(pre, ag, sc)
        exp = ref.expected_utility(pre, ag, ag.strategy, sc)
        rel, ab = pre.relative_utility_threshold, pre.absolute_utility_threshold
        bar = max((1 + rel) * cur, cur + ab, (1 + rel) * exp, exp + ab)
        cands = []
        allocs, over_to, certain, left = ref.delegation(pre, ag, ag.stake, sc)
        if left and over_to and (not certain or len(over_to) > 1):
            raise ref.Ambiguous("overflow")
        if left and over_to:
            allocs = dict(allocs)
            allocs[over_to[-1]] = allocs.get(over_to[-1], 0) + left

        class S:
            pass
        s = S()
        s.owned_pools, s.stake_allocations = {}, allocs
        cands.append(("delegation", ref.expected_utility(pre, ag, s, sc)))
        if op_candidate is not None:
            cands.append(("operation", ref.expected_utility(pre, ag, op_candidate, sc)))
        best = max(u for _, u in cands)
        if taken is not None:
            u = ref.expected_utility(pre, ag, taken, sc)
            if u < bar - 1e-12:
                out.append("agent %s moves to a strategy worth %r; needs more than %r (now %r, expected %r)"
                           % (aid, u, bar, cur, exp))
            if u < best - 1e-11:
                out.append("agent %s takes a move worth %r, candidates %r" % (aid, u, cands))
        elif best > bar + 1e-11:
            out.append("agent %s stays although %r exceed %r (now %r, expected %r)" % (aid, cands, bar, cur, exp))
    except ref.Ambiguous:
        return []
    return out
