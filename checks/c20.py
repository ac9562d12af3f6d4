"""C20 activation: the complete tree of the scheduler's random choices, on the real scheduler and the real agents."""
import itertools
import json
import math
import random

from mc import configs, env, explore
from mc.report import Report, short_tb
from mc.state import agent, build, canon, snapshot

ORDERS = ("sequential", "random", "simultaneous", "semisimultaneous")


class Chooser(random.Random):
    """Every random choice is a branch: the choices of `script` first, then always the first alternative."""

    def start(self, script):
        self.script, self.taken, self.arity = list(script), [], []

    def _pick(self, n):
        i = len(self.taken)
        c = self.script[i] if i < len(self.script) else 0
        self.taken.append(c)
        self.arity.append(n)
        return (c + i) % n  # differs from one choice to the next, so that draws that are repeated until they differ end

    def _randbelow(self, n):
        return self._pick(n) if n > 1 else 0

    def random(self):
        return (self._pick(self.width) + 0.5) / self.width

    def getrandbits(self, k):
        return self._pick(1 << min(k, 4))

    def __deepcopy__(self, memo):
        return self


def successors(taken, arity, prefix, bound):
    """Unexplored branches right of this path; `bound`: how many choices may differ from the first alternative."""
    for i in range(len(prefix), len(taken)):
        base = taken[:i]
        if bound is not None and sum(1 for c in base if c) >= bound:
            return
        for c in range(1, arity[i]):
            yield base + [c]


def owners(m):
    return frozenset(p.owner for p in m.pools.values())


def attach(m, movers, log, real):
    """Every agent reports its decisions. Scripted movers open their pool, or close it again."""
    from logic.strategy import Strategy
    for a in m.schedule.agents:
        decide = type(a).update_strategy

        def update_strategy(a=a, decide=decide):
            log.append((a.unique_id, canon(m, staged=False) if real else owners(m)))
            if real:
                decide(a)
            elif a.unique_id in movers:
                a.new_strategy = Strategy() if a.strategy.owned_pools else a.find_operator_move(1, {}, [0.1])
            else:
                a.new_strategy = None
        a.update_strategy = update_strategy


def detach(m):
    for a in m.schedule.agents:
        a.__dict__.pop("update_strategy", None)


def one_round(m, movers, real=False):
    log = []
    attach(m, movers, log, real)
    try:
        with env.quiet():
            m.step()
    finally:
        detach(m)
    return log


def groups_of(order, n, g, log):
    ids = [x[0] for x in log]
    if order == "simultaneous":
        return [ids]
    if order == "semisimultaneous":
        return [ids[i:i + g] for i in range(0, n, g)]
    return [[i] for i in ids]


def turns(order, n, g, log, movers, before, after):
    """Problems with one scripted round."""
    ids = [x[0] for x in log]
    if sorted(ids) != list(range(n)):
        return ["turns of one round: %r, should be one for each of %d agents" % (ids, n)]
    if order in ("sequential", "simultaneous") and ids != list(range(n)) and order == "sequential":
        return ["sequential round in the order %r" % ids]
    done = frozenset()
    pos = 0
    for grp in groups_of(order, n, g, log):
        for i in grp:
            seen = log[pos][1] ^ before
            if seen != done:
                return ["agents decide in the order %r (groups of %s): when agent %d decides, the moves of %r have been "
                        "carried out, should be those of %r" % (ids, g if order == "semisimultaneous" else order, i,
                                                                sorted(seen), sorted(done))]
            pos += 1
        done |= movers & frozenset(grp)
    if after ^ before != movers:
        return ["moves of %r carried out in a round in which %r wanted to move" % (sorted(after ^ before), sorted(movers))]
    return []


def fresh(cfg):
    m = build(cfg)
    r = Chooser(1)
    r.width = max(2, len(m.schedule.agents))
    m.random = r
    return m


def explore_tree(args):
    """All outcomes of `rounds` scripted rounds."""
    order, n, g, movers_by_round, bound = args
    res = dict(paths=0, rounds=0, turns=0, orders=set(), problems=[], args=list(args), choices=0)
    rounds = len(movers_by_round)
    cfg = dict(_stakes=[1 / n] * n, _costs=[0.001] * n, _profiles=None, k=2, a0=0.3, agent_activation_order=order,
               metrics=[1], max_iterations=10 ** 6, iterations_after_convergence=10 ** 6)
    if n <= 3:
        cfg["_profiles"] = [0, 1, 0][:n]
    else:
        cfg.pop("_profiles")
    if g is not None:
        cfg["_group"] = g
    try:
        root = fresh(cfg)
        stack = [[]]
        while stack and len(res["problems"]) < 2:
            prefix = stack.pop()
            m = snapshot(root)
            m.random.start(prefix)
            trace = []
            for movers in movers_by_round:
                movers = frozenset(movers)
                before = owners(m)
                log = one_round(m, movers)
                res["rounds"] += 1
                res["turns"] += len(log)
                probs = turns(order, n, g or 5, log, movers, before, owners(m))
                trace.append(tuple(tuple(x) if order == "random" else tuple(sorted(x))
                                   for x in groups_of(order, n, g or 5, log)))
                if probs:
                    res["problems"].append(("round %d: %s" % (len(trace), probs[0]), prefix))
                    break
            res["paths"] += 1
            res["choices"] = max(res["choices"], len(m.random.taken))
            res["orders"].add(tuple(trace))
            stack.extend(successors(m.random.taken, m.random.arity, prefix, bound))
        if bound is None and not res["problems"]:
            want = expected(order, n, g or 5) ** rounds
            if len(res["orders"]) != want:
                res["problems"].append(("only %d of the %d possible activation orders of %d rounds can occur" % (
                    len(res["orders"]), want, rounds), []))
    except Exception:
        res["problems"].append(("exception in the code under test:\n" + short_tb(), []))
    res["distinct"] = len(res["orders"])
    del res["orders"]
    return res


def expected(order, n, g):
    """Number of different activation orders of one round (order within a group does not count)."""
    if order == "random":
        return math.factorial(n)
    if order != "semisimultaneous":
        return 1
    out, left = 1, n
    while left:
        k = min(g, left)
        out *= math.comb(left, k)
        left -= k
    return out


# ---- rational agents ---------------------------------------------------------------------------------------------

def by_hand(m, order, n, g, log):
    """Problems: the same round made by hand, group by group; decisions must have been taken in the same states."""
    ids = [x[0] for x in log]
    if sorted(ids) != list(range(n)):
        return None, ["turns of one round: %r" % ids]
    front = [m]
    pos = 0
    with env.quiet():
        for grp in groups_of(order, n, g, log):
            states = [log[pos + j][1] for j in range(len(grp))]
            if any(s != states[0] for s in states):
                return None, ["agents %r of one group decide in different states" % grp]
            front = [x for x in front if canon(x, staged=False) == states[0]]
            if not front:
                return None, ["agents %r decide in a state other than the one the turns %r before them lead to" % (
                    grp, ids[:pos])]
            base = front[0]
            for i in grp:
                agent(base, i).update_strategy()
            front = []
            for perm in (itertools.permutations(grp) if len(grp) > 1 else [grp]):  # the order within a group is free
                x = snapshot(base)
                for i in perm:
                    agent(x, i).advance()
                front.append(x)
            pos += len(grp)
    return front, []


def rational_tree(args):
    cfg, rounds = args
    order, n = cfg["agent_activation_order"], len(cfg["_stakes"])
    g = cfg.get("_group", 5)
    res = dict(paths=0, rounds=0, turns=0, problems=[], args=list(args), states=set())
    try:
        root = fresh(cfg)
        stack = [[]]
        while stack and len(res["problems"]) < 2:
            prefix = stack.pop()
            m = snapshot(root)
            m.random.start(prefix)
            for r in range(rounds):
                before = snapshot(m)
                log = one_round(m, (), real=True)
                res["rounds"] += 1
                res["turns"] += len(log)
                front, probs = by_hand(before, order, n, g, log)
                if not probs and not any(canon(x) == canon(m) for x in front):
                    probs = ["the round %r ends in a state other than its turns lead to" % [x[0] for x in log]]
                if probs:
                    res["problems"].append(("round %d: %s" % (r + 1, probs[0]), prefix))
                    break
                res["states"].add(canon(m))
            res["paths"] += 1
            stack.extend(successors(m.random.taken, m.random.arity, prefix, None))
    except Exception:
        res["problems"].append(("exception in the code under test:\n" + short_tb(), []))
    res["states"] = len(res["states"])
    return res


def scripted_items():
    out = []
    top = 8 if env.THOROUGH else 7
    for n in range(1, top + 1):
        every = tuple(range(n))
        subsets = [every] if n > 4 else [s for r in range(n + 1) for s in itertools.combinations(every, r)]
        for order in ORDERS:
            gs = [None]
            if order == "semisimultaneous":
                gs = [None] + [g for g in range(1, n + 2)]
            for g in gs:
                for s in subsets:
                    out.append((order, n, g, (s,), None))
    for order in ORDERS:  # the choices of one round leave those of the next ones free
        for n in (2, 3) + ((4,) if env.THOROUGH else ()):
            every = tuple(range(n))
            hists = [(every,) * 2, (every,) * 3, (every, (), every), (every[:1], every[1:], every)]
            if n == 4:
                hists = [(every, every), (every[:2], every)]
            for g in ([None, 1, 2] if order == "semisimultaneous" else [None]):
                for h in hists:
                    out.append((order, n, g, h, None))
    out.append(("random", 4, None, ((0, 1, 2, 3),) * 2, None))
    out.append(("semisimultaneous", 4, 2, ((0, 1, 2, 3),) * 2, None))
    for n in (8, 11, 13, 16, 25) + ((40,) if env.THOROUGH else ()):  # larger systems: few deviations from the first alternatives
        every = tuple(range(n))
        for order in ORDERS:
            for g in ([None, 3, 7] if order == "semisimultaneous" else [None]):
                out.append((order, n, g, (every, every[::2]), 2 if n <= (13 if env.THOROUGH else 8) else 1))
    return out


def rational_items():
    cs = [c for c in configs.rational(False) if len(c["_stakes"]) <= (4 if env.THOROUGH else 3)]
    out = [(c, 2 if len(c["_stakes"]) <= 3 else 1) for c in cs]
    if env.THOROUGH:
        out += [(c, 3) for c in cs if len(c["_stakes"]) <= 3]
    return out


def main():
    rep = Report("C20", "model_checking", [
        "complete trees of random choices up to %d agents (one round), up to 3 agents (three rounds); for 8 to %d agents "
        "all paths with at most two (from 9 agents on: one) choices off the first alternative" % ((8, 40) if env.THOROUGH else (7, 25)),
        "the order in which the moves of one group are carried out is free"])
    items = sorted(scripted_items(), key=lambda a: -(a[1] ** (len(a[3]))) if a[0] in ("random", "semisimultaneous") else 0)
    chunks = [("tree", a) for a in items] + [("rational", a) for a in rational_items()]
    by = {o: dict(paths=0, orders=0) for o in ORDERS}
    for kind, res in explore.parallel(work, chunks):
        cov = dict(schedules=res["paths"], rounds=res["rounds"], turns=res["turns"], trees=1,
                   traces_validated_against_impl=res["rounds"])
        if kind == "rational":
            cov["states"] = res["states"]
            cov["rational_schedules"] = res["paths"]
        else:
            cov["distinct_orders"] = res["distinct"]
            by[res["args"][0]]["paths"] += res["paths"]
            by[res["args"][0]]["orders"] += res["distinct"]
            if res["paths"] > 500:
                rep.sample(dict(order=res["args"][0], agents=res["args"][1], group=res["args"][2], rounds=len(res["args"][3]),
                                schedules=res["paths"], distinct_orders=res["distinct"]))
        rep.add(**cov)
        for text, path in res["problems"]:
            rep.violation("%s\n%s %s" % (text, kind, json.dumps(res["args"])), {"kind": kind, "args": res["args"], "choices": path})
        if len(rep.violations) > 6:
            break
    rep.add(by_order=by)
    return rep.finish()


def work(item):
    kind, args = item
    return kind, (explore_tree if kind == "tree" else rational_tree)(args)


def replay(data):
    args = data["args"]
    res = work((data["kind"], (args[0], args[1], args[2], [tuple(x) for x in args[3]], args[4]) if data["kind"] == "tree"
                else tuple(args)))[1]
    for text, path in res["problems"]:
        print(text)
    print("reproduced" if res["problems"] else "not reproduced")
    return 1 if res["problems"] else 0
