"""C09 rewards: a parameter lattice against exact reference formulas, and all short histories of parameter changes."""
import itertools
import json
from decimal import Decimal, getcontext
from fractions import Fraction as F

from mc import env, explore
from mc.report import Report, short_tb

getcontext().prec = 40
KS = [1, 2, 3, 5, 7, 10, 100, 150, 500, 2.5, 125.0, 10 / 3]
A0S = [0, 0.05, 0.3, 1, 2.5, 10]
THOROUGH_KS = KS + [4, 6, 8, 9, 20, 50, 333, 1000, 1.25, 100 / 0.7]
THOROUGH_A0S = A0S + [0.001, 0.1, 0.5, 0.9, 3, 100]


def cbrt(x):
    if x == 0:
        return Decimal(0)
    y = Decimal(float(x) ** (1 / 3))
    x = Decimal(x.numerator) / Decimal(x.denominator)
    for _ in range(6):
        y = (2 * y + x / (y * y)) / 3
    return y


def published(kind, k, a0, pledge, stake):
    """Reward as a fraction of the total rewards: exact (scheme 3: 40 digits)."""
    z = F(1) / F(k)
    a0, p, s = F(a0), F(pledge), F(stake)
    if kind == 4:
        return min(s, saturation(kind, k, a0, pledge))
    s = min(s, z)
    if kind == 3:  # CIP-7: the pledge enters as its third root, crossing the line at 1/8 of the saturation level
        curve = cbrt(p) * cbrt(z / 8) ** 2
        p = min(F(curve), z)
    else:
        p = min(p, z)
    if kind in (0, 3):
        return (s + p * a0 * (s - p * (z - s) / z) / z) / (1 + a0)
    if kind == 1:
        return (s + a0 * s * p / z) / (1 + a0)
    if kind == 2:
        return (s + a0 * p) / (1 + a0)
    raise ValueError(kind)


def saturation(kind, k, a0, pledge):
    z = F(1) / F(k)
    return min(F(a0) * F(pledge), z) if kind == 4 else z


def close(x, y):
    return abs(float(x) - float(y)) <= 1e-12 * max(1e-3, abs(float(y)))


def pledges(k):
    z = 1 / k
    return [0.0, 1e-9, z / 100, z / 8, z / 3, z / 2, z * (1 - 1e-9), z, z * 1.2, 0.3, 1.0]


def stakes(k, a0, pledge):
    z = 1 / k
    sat = min(a0 * pledge, z)
    vals = {pledge, z / 50, z / 4, z / 2, z * 0.99, z, z * 1.0001, z * 2, 0.5, 1.0, sat, sat * 0.9, sat * 1.1, pledge * 1.5, 0.0}
    return sorted(vals)


def query(rs, pledge, stake):
    import logic.helper as hlp
    a = rs.calculate_pool_reward(pool_pledge=pledge, pool_stake=stake)
    b = hlp.calculate_pool_reward(reward_scheme=rs, pool_stake=stake, pool_pledge=pledge)
    c = hlp.calculate_current_profit(stake, pledge, 0.125, rs) + 0.125
    return a, b, c


def check_point(kind, rs, k, a0, pledge, out, counts):
    import logic.helper as hlp
    sat = saturation(kind, k, a0, pledge)
    got = rs.get_pool_saturation_threshold(pledge)
    if not close(got, sat):
        out.append("scheme %d k=%r a0=%r pledge=%r: saturation threshold %r, should be %r" % (kind, k, a0, pledge, got, float(sat)))
    prev = None
    top = None
    for stake in stakes(k, a0, pledge):
        want = published(kind, k, a0, pledge, stake)
        counts[0] += 1
        for r in query(rs, pledge, stake):
            if abs(r - float(want)) > 1e-12:
                out.append("scheme %d k=%r a0=%r pledge=%r stake=%r: reward %r, published %r" % (kind, k, a0, pledge, stake, r, float(want)))
        r = query(rs, pledge, stake)[0]
        if prev is not None and r < prev - 1e-15:
            out.append("scheme %d k=%r a0=%r pledge=%r: reward falls to %r at stake %r" % (kind, k, a0, pledge, r, stake))
        if r > 1 / k + 1e-14:
            out.append("scheme %d k=%r a0=%r pledge=%r stake=%r: reward %r exceeds 1/k" % (kind, k, a0, pledge, stake, r))
        if stake >= got:
            if top is not None and abs(r - top) > 1e-15:
                out.append("scheme %d k=%r a0=%r pledge=%r: reward changes beyond saturation" % (kind, k, a0, pledge))
            top = r
        prev = r
    want = float(published(kind, k, a0, pledge, sat)) - 0.25
    pp = hlp.calculate_potential_profit(reward_scheme=rs, pledge=pledge, cost=0.25)
    if abs(pp - want) > 1e-12:
        out.append("scheme %d k=%r a0=%r pledge=%r: potential profit %r, should be %r" % (kind, k, a0, pledge, pp, want))


def lattice(kind):
    import logic.reward_schemes as rss
    out, counts = [], [0, 0]
    try:
        for k in (THOROUGH_KS if env.THOROUGH else KS):
            for a0 in (THOROUGH_A0S if env.THOROUGH else A0S):
                for make in (0, 1):
                    if make:
                        rs = rss.RSS_MAPPING[kind](k, a0)
                    else:  # as the simulation does it
                        rs = rss.RSS_MAPPING[kind](-1, -1)
                        rs.k = k
                        rs.a0 = a0
                    counts[1] += 1
                    if rs.k != int(k):
                        out.append("k is %r after setting %r" % (rs.k, k))
                    if not close(rs.global_saturation_threshold, F(1) / F(k)):
                        out.append("saturation level %r for k=%r" % (rs.global_saturation_threshold, k))
                    for p in pledges(k):
                        check_point(kind, rs, k, a0, p, out, counts)
                    if len(out) > 3:
                        return kind, counts, out
    except Exception:
        out.append("exception in the code under test:\n" + short_tb())
    return kind, counts, out


OPS = [("k", 2), ("k", 5), ("k", 2.5), ("a0", 0.0), ("a0", 0.7), ("query", None)]


def histories(kind_depth):
    """All sequences of parameter changes on two live schemes; after each change every query follows the formula."""
    import logic.reward_schemes as rss
    kind, depth = kind_depth
    out, n = [], 0
    other = (kind + 1) % 5
    pts = [(0.1, 0.3), (0.25, 0.25), (0.3, 0.6), (0.0, 0.2)]
    moves = [(i, op) for i in (0, 1) for op in OPS if not (i == 1 and op[0] == "query")]
    try:
        for h in itertools.product(moves, repeat=depth):
            kinds = (kind, kind if depth % 2 else other)
            rs = [rss.RSS_MAPPING[x](3, 0.3) for x in kinds]
            par = [dict(k=3, a0=0.3), dict(k=3, a0=0.3)]
            for i, (name, v) in h:
                if name != "query":
                    setattr(rs[i], name, v)
                    par[i][name] = v
                else:
                    for p, s in pts:
                        query(rs[0], p, s)
                n += 1
            for i in (0, 1):
                for p, s in pts:
                    want = float(published(kinds[i], par[i]["k"], par[i]["a0"], p, s))
                    for r in query(rs[i], p, s):
                        if abs(r - want) > 1e-12:
                            out.append("scheme %d after %r: reward of pledge %r stake %r is %r, should be %r" % (kinds[i], h, p, s, r, want))
                    w = float(saturation(kinds[i], par[i]["k"], par[i]["a0"], p))
                    g = rs[i].get_pool_saturation_threshold(p)
                    if abs(g - w) > 1e-12:
                        out.append("scheme %d after %r: saturation threshold of pledge %r is %r, should be %r" % (kinds[i], h, p, g, w))
            if len(out) > 3:
                break
    except Exception:
        out.append("exception in the code under test:\n" + short_tb())
    return kind, n, out


def selected(args):
    """The scheme that a simulation with this option uses."""
    import logic.sim as sim
    kind, k, a0 = args
    out = []
    try:
        with env.quiet():
            m = sim.Simulation(n=3, k=k, a0=a0, reward_scheme=kind, seed=1, stake_distr_source="flat", metrics=[1], generate_graphs=False,
                               execution_id="x")
        kk = k[0] if isinstance(k, list) else k
        aa = a0[0] if isinstance(a0, list) else a0
        for p in pledges(kk):
            check_point(kind, m.reward_scheme, kk, aa, p, out, [0])
    except Exception:
        out.append("exception in the code under test:\n" + short_tb())
    return args, out


def main():
    rep = Report("C09", "model_checking", [
        "lattices of k, a0, pledge and stake; rewards compared to 1e-12 of the total rewards; between lattice points the formulas are "
        "piecewise polynomial (scheme 3: a cube root)"])
    n = 0
    for kind, counts, probs in explore.parallel(lattice, range(5)):
        rep.add(states=counts[1], reward_points=counts[0])
        rep.sample({"scheme": kind, "parameter_settings": counts[1], "points": counts[0]})
        for p in probs[:3]:
            rep.violation(p, {"what": "lattice", "kind": kind})
    depths = range(1, 6 if env.THOROUGH else 5)
    for kind, n, probs in explore.parallel(histories, [(k, d) for d in reversed(depths) for k in range(5)]):
        rep.add(transitions=n, states=0)
        for p in probs[:2]:
            rep.violation(p, {"what": "histories", "kind": kind})
    sel = [(kind, k, a0) for kind in range(5) for k in (1, 2, 7, 100, [3, 5]) for a0 in (0, 0.3, 2.0, [0.5, 0.1])]
    for args, probs in explore.parallel(selected, sel):
        rep.add(traces_validated_against_impl=1)
        for p in probs[:2]:
            rep.violation(p, {"what": "selected", "args": args})
    return rep.finish()


def replay(data):
    if data["what"] == "lattice":
        probs = lattice(data["kind"])[2]
    elif data["what"] == "histories":
        probs = sum((histories((data["kind"], d))[2] for d in range(1, 5)), [])
    else:
        probs = selected(data["args"])[1]
    print("\n".join(probs[:5]) or "not reproduced")
    return 1 if probs else 0
