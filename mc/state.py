"""Building, copying and canonicalising real Simulation objects."""
import copy
import random

from sortedcontainers import SortedKeyList

from mc import env

DEC = 11  # decimals kept in canonical states


ATOMS = (int, float, str, bool, type(None), bytes)
_MISSING = object()


def _copy_sorted(x, memo):
    # exact structural copy: never re-sorts, so that a stale order in the original is preserved in the copy
    new = object.__new__(type(x))
    memo[id(x)] = new
    d = new.__dict__
    for k, v in x.__dict__.items():
        if type(v) in ATOMS:
            d[k] = v
        elif k == "_keys":  # keys are tuples of numbers
            d[k] = [list(row) for row in v]
        elif k == "_maxes" or k == "_index":
            d[k] = list(v)
        else:
            d[k] = copy.deepcopy(v, memo)
    return new


def _copy_plain(x, memo):
    new = object.__new__(type(x))
    memo[id(x)] = new
    if hasattr(x, "__dict__"):
        d = new.__dict__
        for k, v in x.__dict__.items():
            d[k] = v if type(v) in ATOMS else copy.deepcopy(v, memo)
    for c in type(x).__mro__:
        for k in c.__dict__.get("__slots__", ()):
            v = getattr(x, k, _MISSING)
            if v is not _MISSING:
                setattr(new, k, copy.deepcopy(v, memo))
    return new


def _copy_dict(x, memo):
    new = {}
    memo[id(x)] = new
    for k, v in x.items():
        new[k if type(k) in ATOMS else copy.deepcopy(k, memo)] = v if type(v) in ATOMS else copy.deepcopy(v, memo)
    return new


_dispatch_ready = False


def _register():
    """Fast structural copies for the simulation's own classes (same result as copy.deepcopy's default)."""
    global _dispatch_ready
    if _dispatch_ready:
        return
    _dispatch_ready = True
    import pathlib
    import sys
    d = copy._deepcopy_dispatch
    d[SortedKeyList] = _copy_sorted
    for name in ("logic.pool", "logic.strategy", "logic.stakeholder", "logic.stakeholder_profiles", "logic.reward_schemes",
                 "logic.activations", "mesa.time"):
        for cls in vars(sys.modules[name]).values():
            if isinstance(cls, type) and cls.__module__ == name and not any(
                    hook in c.__dict__ for c in cls.__mro__[:-1] for hook in
                    ("__deepcopy__", "__reduce__", "__reduce_ex__", "__getstate__", "__setstate__")):
                d[cls] = _copy_plain
    d[pathlib.PosixPath] = lambda x, memo: x


def snapshot(model):
    _register()
    memo = {id(model.random): model.random}
    new = object.__new__(type(model))
    memo[id(model)] = new
    d = new.__dict__
    for k, v in model.__dict__.items():
        d[k] = v if type(v) in ATOMS else _copy_dict(v, memo) if type(v) is dict and id(v) not in memo else copy.deepcopy(v, memo)
    return new


class ForcedRandom(random.Random):
    """Replaces model.random: shuffle / sample outcomes are decided by `script`, a list of orders of agent ids."""
    script = None

    def force(self, orders):
        self.script = list(orders)

    def shuffle(self, x, *a):
        if not self.script:
            return super().shuffle(x)
        order = self.script.pop(0)
        pos = {v: i for i, v in enumerate(order)}
        x.sort(key=lambda v: pos[v])

    def sample(self, population, k, **kw):
        if not self.script:
            return super().sample(population, k, **kw)
        group = self.script.pop(0)
        if len(group) != k or not set(group) <= set(population):
            raise AssertionError("forced sample %r does not fit population %r, k=%r" % (group, population, k))
        return list(group)

    def __deepcopy__(self, memo):
        return self


DEFAULTS = dict(n=3, k=2, a0=0.3, stake_distr_source="flat", seed=7, cost_min=1e-3, cost_max=1e-3,
                max_iterations=60, iterations_after_convergence=3, agent_activation_order="sequential",
                metrics=[1], generate_graphs=False, execution_id="x")

_seq = 0
_profile_seed = {}


def _with_profiles(sim, prof, args, profs):
    """The first seed whose own draw of profiles is the wanted one."""
    global _seq
    weights = [1 if i in profs else 0 for i in sorted(prof.PROFILE_MAPPING)]
    args["agent_profile_distr"] = weights
    want = [prof.PROFILE_MAPPING[i] for i in profs]
    key = (args["n"], profs)
    for seed in ([_profile_seed[key]] if key in _profile_seed else range(5000)):
        args["seed"] = seed
        _seq += 1
        args["seq_id"] = _seq
        model = sim.Simulation(**args)
        if [type(a) for a in model.schedule.agents] == want:
            _profile_seed[key] = seed
            return model
    raise RuntimeError("no seed gives profiles %r" % (profs,))


def _group(model, size):
    """The same agents under a semi-simultaneous scheduler of the wanted group size."""
    from logic.activations import SemiSimultaneousActivation
    if isinstance(model.schedule, SemiSimultaneousActivation):
        old = model.schedule
        model.schedule = type(old)(model, simultaneous_moves=size)
        for a in old.agents:
            model.schedule.add(a)


def build(cfg):
    """A fresh Simulation. cfg: constructor arguments, plus `_stakes`, `_costs`, `_profiles` (per agent), `_group`."""
    global _seq
    import logic.sim as sim
    import logic.stakeholder_profiles as prof
    _seq += 1
    args = dict(DEFAULTS)
    args.update({k: v for k, v in cfg.items() if not k.startswith("_")})
    if "_stakes" in cfg:
        args["n"] = len(cfg["_stakes"])
    args["seq_id"] = _seq
    profs = cfg.get("_profiles")
    with env.quiet():
        if profs is None:
            model = sim.Simulation(**args)
        else:
            model = _with_profiles(sim, prof, args, tuple(profs))
    if "_stakes" in cfg:
        for a, s in zip(model.schedule.agents, cfg["_stakes"]):
            a.stake = s
    if "_costs" in cfg:
        for a, c in zip(model.schedule.agents, cfg["_costs"]):
            a.cost = c
    if "_group" in cfg:
        _group(model, cfg["_group"])
    r = ForcedRandom(1)
    model.random = r
    return model


def agents_of(model):
    return list(model.schedule.agents)


def agent(model, i):
    for a in model.schedule.agents:
        if a.unique_id == i:
            return a
    raise KeyError(i)


def rd(x):
    x = round(float(x), DEC)
    return 0.0 if x == 0 else x


def canon_pool(p, idx):
    return (p.owner, rd(p.pledge), rd(p.stake), rd(p.cost), rd(p.margin), bool(p.is_private), rd(p.potential_profit),
            rd(p.desirability), tuple(sorted((d, rd(a)) for d, a in p.delegators.items())))


def canon_strategy(s, idx, fresh=None):
    if s is None:
        return None
    if fresh is not None:
        idx = dict(idx)
        for pid in sorted(s.owned_pools):
            if pid not in idx:
                idx[pid] = ("new", len(fresh))
                fresh.append(pid)
    return (tuple(sorted((str(idx.get(p, "gone")), rd(a)) for p, a in s.stake_allocations.items())),
            tuple((str(idx.get(p, "gone")), canon_pool(q, idx)) for p, q in s.owned_pools.items()))


def canon(model, staged=True):
    """Pool ids are replaced by their rank of age: only their order matters to the code (ties, 'older first')."""
    ids = sorted(model.pools)
    idx = {pid: i for i, pid in enumerate(ids)}
    pools = tuple((i, canon_pool(model.pools[pid], idx)) for pid, i in idx.items())
    ranks = []
    for name in ("pool_rankings", "pool_rankings_myopic"):
        ranks.append(tuple(-1 if p is None else idx.get(p.id, "gone") for p in getattr(model, name)))
    ags = []
    fresh = []
    for a in model.schedule.agents:
        ags.append((a.unique_id, rd(a.stake), rd(a.cost), canon_strategy(a.strategy, idx),
                    canon_strategy(a.new_strategy, idx, fresh) if staged else None))
    rs = model.reward_scheme
    par = (model.current_phase, rd(rs.k), rd(rs.a0), rd(rs.global_saturation_threshold))
    return pools, tuple(ranks), tuple(ags), par


def describe(model):
    """JSON-able picture of a state, for replays and samples."""
    return {
        "pools": [dict(id=p.id, owner=p.owner, pledge=p.pledge, stake=p.stake, cost=p.cost, margin=p.margin,
                       private=p.is_private, pp=p.potential_profit, des=p.desirability,
                       delegators={str(k): v for k, v in p.delegators.items()}) for p in model.pools.values()],
        "rankings": [None if p is None else p.id for p in model.pool_rankings],
        "rankings_myopic": [None if p is None else p.id for p in model.pool_rankings_myopic],
        "agents": [dict(id=a.unique_id, stake=a.stake, cost=a.cost, kind=type(a).__name__,
                        allocs=None if a.strategy is None else {str(k): v for k, v in a.strategy.stake_allocations.items()},
                        owned=None if a.strategy is None else list(a.strategy.owned_pools)) for a in model.schedule.agents],
    }
