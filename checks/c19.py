"""C19 forecasts and ranks: all rankings over an alphabet of pools (with unfilled places), all k up to a bound, and all small
lists of items with tie-breaking criteria, against a reference."""
import itertools
from math import fsum

from mc import env, explore, ref
from mc.report import Report, short_tb

EQ = 1e-10  # stake sums closer than this to the total count as equal to it (floating point)


class Given:
    """What is needed of a pool."""
    def __init__(self, pid, pledge, stake, cost, margin, sc):
        self.id, self.pledge, self.stake, self.cost, self.margin, self.owner, self.is_private = pid, pledge, stake, cost, margin, pid % 2, False
        self.potential_profit = ref.pp(sc, pledge, cost)
        self.desirability = ref.des(margin, self.potential_profit)


def make(pid, kind, rs, sc):
    from logic.pool import Pool
    pledge, extra, cost, margin = kind
    p = Pool(pool_id=pid, cost=cost, pledge=pledge, owner=pid % 2, reward_scheme=rs, margin=margin)
    if extra == "over":
        p.stake = max(1.25 * sc.sat(pledge), pledge)
    else:
        p.stake = pledge + extra
    return p


def expected(better, pool, sc, total):
    """better: pledges of the better pools"""
    filled = fsum(sc.sat(x) for x in better)
    if total - filled > EQ:
        return max(sc.sat(pool.pledge), pool.stake)
    return pool.pledge


def order(pools):
    """Documented order: desirability, potential profit, age."""
    return sorted(pools, key=lambda p: (-p.desirability, -p.potential_profit, p.id))


def forecasts(pools, ranked, rs, sc, total):
    import logic.helper as hlp
    out = []
    best = order(pools)
    for i, p in enumerate(best):
        got = hlp.calculate_non_myopic_pool_stake(pool=p, pool_rankings=ranked, reward_scheme=rs, total_stake=total)
        want = expected([q.pledge for q in best[:i]], p, sc, total)
        if abs(got - want) > 1e-12:
            out.append("place %d of %d: forecast %r, should be %r (pledge %r, stake %r, threshold %r, better pools hold %r of %r)" % (
                i + 1, len(best), got, want, p.pledge, p.stake, sc.sat(p.pledge), fsum(sc.sat(q.pledge) for q in best[:i]), total))
    return out, len(best)


def kinds(deep):
    out = []
    for pledge in (0.0, 0.04, 0.3) + ((0.15, 0.7) if deep else ()):
        for extra in (0.0, 0.1, "over"):
            for cost, margin in ((1e-4, 0.0), (1e-4, 1.0), (5.0, 0.0)) + (((1e-4, 0.5), (0.0, 0.0)) if deep else ()):
                out.append((pledge, extra, cost, margin))
    return out


def lattice_job(args):
    import logic.reward_schemes as rss
    from sortedcontainers import SortedList
    import logic.helper as hlp
    scheme, k, a0, first = args
    rs = rss.RSS_MAPPING[scheme](k, a0)
    sc = ref.Scheme(scheme, 1 / k, a0)
    deep = env.THOROUGH
    ks = kinds(deep)
    res = dict(rankings=0, unfilled=0, forecasts=0, problems=[])
    for m in range(0, 3 if not deep else 4):
        for rest in itertools.combinations_with_replacement(range(len(ks)), m):
            for fills in (0, 1, int(k) + 1):
                combo = (first,) + rest
                # the two creation orders differ in age
                for ids in (range(1, m + 2), range(m + 1, 0, -1)):
                    pools = [make(i, ks[c], rs, sc) for i, c in zip(ids, combo)]
                    ranked = SortedList(pools + [None] * fills, key=hlp.pool_comparison_key)
                    try:
                        out, n = forecasts(pools, ranked, rs, sc, 1.0)
                    except Exception:
                        out, n = ["the forecast fails: " + short_tb()], 0
                    res["rankings"] += 1
                    res["unfilled"] += fills > 0
                    res["forecasts"] += n
                    if out:
                        res["problems"].append((out, dict(kind="lattice", scheme=scheme, k=k, a0=a0, pools=[ks[c] for c in combo], ids=list(ids), fills=fills)))
                        if len(res["problems"]) > 2:
                            return res
    return res


def row_job(k):
    """k + 2 equal pools: exactly the best k are forecast to fill up."""
    import logic.reward_schemes as rss
    from sortedcontainers import SortedList
    import logic.helper as hlp
    res = dict(rankings=0, forecasts=0, problems=[])
    for scheme, div in ((0, 1), (0, 0.75), (4, 1)):
        kk = k / div
        rs = rss.RSS_MAPPING[scheme](kk, 0.3 if scheme == 0 else 1e6)  # CIP-50: thresholds capped at 1/k
        sc = ref.Scheme(scheme, 1 / kk, 0.3 if scheme == 0 else 1e6)
        top = int(round(kk + 0.4999999)) if div != 1 else k
        m = top + 2
        pools = [make(i, (1e-5, 0.0, 0.0, 0.0), rs, sc) for i in range(1, m + 1)]
        for fills in (0, 2):
            ranked = SortedList(pools + [None] * fills, key=hlp.pool_comparison_key)
            for total in (1.0, 1 - 2 ** -53, 1 + 2 ** -52):
                for i in sorted({0, top - 2, top - 1, top, top + 1} & set(range(m))):
                    want = expected([1e-5] * i, pools[i], sc, total)
                    try:
                        got = hlp.calculate_non_myopic_pool_stake(pool=pools[i], pool_rankings=ranked, reward_scheme=rs, total_stake=total)
                    except Exception:
                        got = short_tb()
                    res["forecasts"] += 1
                    if got != want and not (isinstance(got, float) and abs(got - want) < 1e-12):
                        res["problems"].append((["k=%r scheme %d: equal pool number %d is forecast to hold %s, should be %r" % (kk, scheme, i + 1, got, want)],
                                                dict(kind="row", k=k)))
                        return res
            res["rankings"] += 1
    return res


# ---- ranks -------------------------------------------------------------------------------------------------------------

def rank_problem(values, ties, rank_ids):
    import logic.helper as hlp
    try:
        got = hlp.calculate_ranks(values, *ties, rank_ids=rank_ids)
    except Exception:
        return "ranking fails: " + short_tb()
    key = lambda i: (values[i],) + tuple(t[i] for t in ties) + ((-i,) if rank_ids else ())
    ids = list(values)
    if sorted(got) != sorted(ids) or sorted(got.values()) != list(range(1, len(ids) + 1)):
        return "ranks %r of %r are not 1..%d" % (got, values, len(ids))
    for a in ids:
        for b in ids:
            if key(a) > key(b) and got[a] > got[b]:
                return "ranks %r of %r, criteria %r: %r should be before %r" % (got, values, ties, a, b)
    return None


IDS = {0: [], 1: [7], 2: [3, 12], 3: [9, 2, 10], 4: [4, 11, 0, 100], 5: [8, 1, 30, 2, 5]}


def rank_job(args):
    n, vals = args
    res = dict(rankings=0, problems=[])
    ids = IDS[n]
    tvals = (0, 1)
    for two in (0, 1, 2):
        if two == 2 and n > 3 and not env.THOROUGH:
            continue
        for tie in itertools.product(itertools.product(tvals, repeat=n), repeat=two):
            for order_ in (ids, ids[::-1], sorted(ids)):
                d = dict(zip(ids, vals))
                values = {i: d[i] for i in order_}
                ties = [dict(zip(ids, t)) for t in tie]
                for rank_ids in (True, False):
                    p = rank_problem(values, ties, rank_ids)
                    res["rankings"] += 1
                    if p:
                        res["problems"].append(([p], dict(kind="ranks", values=list(values.items()), ties=[list(t.items()) for t in ties], rank_ids=rank_ids)))
                        return res
    return res


def main():
    rep = Report("C19", "model_checking", [
        "sums of thresholds within 1e-10 of the system's stake count as equal to it",
        "forecasts are asked of the function that the existing tests use, with the system's own sorted lists; how agents use them is decided by C05 and C11"])
    explore.preload()
    deep = env.THOROUGH
    combos = [(0, 2, 0.3), (0, 3, 0.0), (0, 1, 0.5), (4, 2, 0.5), (4, 5, 2.0), (3, 2.5, 0.3)]
    if deep:
        combos += [(1, 3, 0.3), (2, 2, 1.0), (4, 3, 0.0), (0, 5, 0.3)]
    jobs = [c + (i,) for c in combos for i in range(len(kinds(deep)))]
    for r in explore.parallel(lattice_job, jobs):
        rep.add(states=r["rankings"], transitions=r["forecasts"], rankings_with_unfilled_places=r["unfilled"])
        for probs, rp in r["problems"]:
            rep.violation("%s\nranking=%r" % ("; ".join(probs[:2]), rp), rp)
        if len(rep.violations) > 3:
            break
    for r in explore.parallel(row_job, list(range(1, 1501 if deep else 301))):
        rep.add(states=r["rankings"], transitions=r["forecasts"])
        for probs, rp in r["problems"]:
            rep.violation(probs[0], rp)
        if len(rep.violations) > 6:
            break
    rep.coverage["largest_k"] = 1500 if deep else 300
    rj = [(n, v) for n in range(0, 5) for v in itertools.product((-1, 0, 2), repeat=n)]
    if deep:
        rj += [(5, v) for v in itertools.product((-1, 0, 2), repeat=5)]
    for r in explore.parallel(rank_job, rj):
        rep.add(rank_lists=r["rankings"])
        for probs, rp in r["problems"][:1]:
            rep.violation(probs[0], rp)
        if len(rep.violations) > 6:
            break
    rep.sample(dict(scheme=0, k=2, pools=kinds(False)[:3], unfilled=3))
    return rep.finish()


def replay(d):
    explore.preload()
    import logic.reward_schemes as rss
    from sortedcontainers import SortedList
    import logic.helper as hlp
    if d["kind"] == "ranks":
        out = [rank_problem(dict(map(tuple, d["values"])), [dict(map(tuple, t)) for t in d["ties"]], d["rank_ids"])]
        out = [x for x in out if x]
    elif d["kind"] == "row":
        out = [x for p, _ in row_job(d["k"])["problems"] for x in p]
    else:
        rs = rss.RSS_MAPPING[d["scheme"]](d["k"], d["a0"])
        sc = ref.Scheme(d["scheme"], 1 / d["k"], d["a0"])
        pools = [make(i, c, rs, sc) for i, c in zip(d["ids"], d["pools"])]
        try:
            out, _ = forecasts(pools, SortedList(pools + [None] * d["fills"], key=hlp.pool_comparison_key), rs, sc, 1.0)
        except Exception:
            out = [short_tb()]
    print("\n".join(out) or "not reproduced")
    return 1 if out else 0
