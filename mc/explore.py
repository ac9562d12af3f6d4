"""Explicit-state search whose transitions are the real code's agent actions.

A state is a real Simulation (plus the agents that still have to act in the current round); a transition runs the
real step()/advance() of one agent, or of one (semi-)simultaneous group, on a copy. States are deduplicated by
state.canon. Traces of explored states are replayed from a fresh Simulation afterwards, through the real scheduler
where the trace consists of whole rounds."""
import collections
import itertools
import json
import os
import time

from mc import env, preds, procs, ref
from mc.report import short_tb
from mc.state import agent, build, canon, describe, snapshot


class Step:
    """What a monitor sees of one agent activation or execution."""
    __slots__ = ("kind", "aid", "pre", "post", "moved", "strategy", "cfg", "sc", "rational", "reused", "move")

    def __init__(self, **kw):
        self.reused, self.move = (), None
        for k, v in kw.items():
            setattr(self, k, v)


# ---- scripted moves ----------------------------------------------------------------------------------------------

def rational_steps(model, cfg, monitor):
    """Every agent's own decision in this state, each on a copy (used to start rational moves from scripted states)."""
    order = cfg.get("agent_activation_order", "sequential")
    for a in model.schedule.agents:
        m = snapshot(model)
        if "simultaneous" in order:
            b = agent(m, a.unique_id)
            b.step()
            monitor(Step(kind="decide", aid=a.unique_id, moved=b.new_strategy is not None, strategy=b.new_strategy,
                         rational=True, pre=model, post=m, cfg=cfg, sc=ref.scheme_of(model, cfg.get("reward_scheme", 0))))
        else:
            apply(m, ["act", a.unique_id], cfg, monitor, model)


def menu(model, aid, cfg):
    """Finite menu of strategies that an agent could adopt in this state (simplest first)."""
    a = agent(model, aid)
    if ref.is_abstainer(a) or a.strategy is None:
        return [["idle"]]
    group = "simultaneous" in cfg.get("agent_activation_order", "")
    out = [["idle"], ["del"]]
    mine = set(a.strategy.owned_pools)
    if mine or a.strategy.stake_allocations:
        out.append(["quit"])
    for pid in sorted(model.pools):
        p = model.pools[pid]
        if p.owner != aid and not p.is_private and a.stake > 0:
            out.append(["half", pid])
            if group:
                break
    tmax = min(model.reward_scheme.k, cfg.get("_tmax", 2))
    for t in range(1, tmax + 1):
        for mg in cfg.get("_margins", ["own"] if group else ["own", "half"]):
            out.append(["ops", t, mg])
    return out


def make_strategy(model, aid, move):
    from logic.strategy import Strategy
    a = agent(model, aid)
    if move[0] == "idle":
        return None
    if move[0] == "quit":
        return Strategy()
    if move[0] == "del":
        return a.find_delegation_move()
    if move[0] == "half":
        return Strategy(stake_allocations={move[1]: a.stake / 2})
    if move[0] == "ops":
        t = move[1]
        if move[2] == "own":
            margins = a.calculate_margins_and_utility(t)[0]
        else:
            margins = [{"zero": 0, "half": 0.5}[move[2]]] * t
        return a.find_operator_move(t, a.determine_pools_to_keep(t), margins)
    raise ValueError(move)


# ---- applying one action -----------------------------------------------------------------------------------------

def op_candidate(pre, aid):
    """The best pool operation move of the agent, from the real code on a copy of the state."""
    m = snapshot(pre)
    a = agent(m, aid)
    return a.choose_pool_strategy()[1]


class IdWatch:
    """Pool ids that were active at some time (kept in the model under a private name, copied with snapshots)."""

    def __init__(self, model):
        self.model, self.before = model, set(model.pools)
        self.ever = getattr(model, "_mc_ids", frozenset()) | self.before

    def done(self):
        new = set(self.model.pools) - self.before
        self.model._mc_ids = self.ever | new
        return sorted(new & self.ever)


def apply(model, action, cfg, monitor, pre=None):
    """Runs `action` on `model` (in place); calls monitor(Step) after every micro step; `pre`: copy of the state before."""
    sc = ref.scheme_of(model, cfg.get("reward_scheme", 0))
    kind = action[0]
    common = dict(pre=pre, post=model, cfg=cfg, sc=sc)
    if kind in ("act", "do"):  # immediate: rational, scripted
        aid = action[1]
        a = agent(model, aid)
        ids = IdWatch(model)
        model.current_step_idle = True
        if kind == "act":
            a.step()
        else:
            a.new_strategy = make_strategy(model, aid, action[2])
            a.advance()
        moved = not model.current_step_idle
        monitor(Step(kind="act", aid=aid, moved=moved, strategy=a.strategy if moved else None, rational=kind == "act",
                     move=action[2] if kind == "do" else None, reused=ids.done(), **common))
    elif kind == "group":  # [aid, move or None][], staged in order, carried out in order
        for aid, move in action[1]:
            a = agent(model, aid)
            if move is None:
                a.step()
            else:
                a.new_strategy = make_strategy(model, aid, move)
            monitor(Step(kind="decide", aid=aid, moved=a.new_strategy is not None, strategy=a.new_strategy,
                         rational=move is None, move=move, **common))
        for aid, move in action[1]:
            a = agent(model, aid)
            ids = IdWatch(model)
            model.current_step_idle = True
            had = a.new_strategy is not None
            a.advance()
            monitor(Step(kind="execute", aid=aid, moved=had, strategy=a.strategy, rational=move is None,
                         reused=ids.done(), **common))
    elif kind == "phase":
        idle_until_phase_change(model)
        common["sc"] = ref.scheme_of(model, cfg.get("reward_scheme", 0))
        monitor(Step(kind="phase", aid=None, moved=False, strategy=None, rational=False, **common))
    else:
        raise ValueError(action)


def idle_until_phase_change(model):
    """Real rounds in which nobody wants to move, until the run enters its next phase."""
    phase = model.current_phase
    agents = list(model.schedule.agents)
    for a in agents:
        a.update_strategy = lambda: None
    try:
        model.current_step_idle = True
        for _ in range(model.iterations_after_convergence + 1):
            if model.current_phase != phase:
                break
            model.step()
    finally:
        for a in agents:
            a.__dict__.pop("update_strategy", None)
    if model.current_phase == phase:
        raise AssertionError("no phase change after %d idle rounds" % (model.iterations_after_convergence + 1))


def actions(model, todo, cfg):
    """Enabled actions: `todo` = agents that have not acted in this round yet (tuple of ids)."""
    ids = [a.unique_id for a in model.schedule.agents]
    mode = cfg.get("_mode", "rational")
    order = cfg.get("agent_activation_order", "sequential")
    left = todo or tuple(ids)
    if not todo and model.current_phase < model.total_phases - 1:
        yield ["phase"], ()
    if "simultaneous" not in order:
        who = left[:1] if order == "sequential" else left
        if mode == "scripted":
            who = ids  # any agent, any time
            for i in who:
                for mv in menu(model, i, cfg)[1:]:
                    yield ["do", i, mv], ()
        else:
            for i in who:
                yield ["act", i], tuple(x for x in left if x != i)
        return
    g = len(left) if order == "simultaneous" else min(cfg.get("_group", 2), len(left))
    groups = [left] if order == "simultaneous" else itertools.permutations(left, g)
    for grp in groups:
        rest = tuple(x for x in left if x not in grp)
        if mode == "scripted":
            for combo in itertools.product(*[menu(model, i, cfg) for i in grp]):
                yield ["group", [[i, mv] for i, mv in zip(grp, combo)]], ()
        else:
            yield ["group", [[i, None] for i in grp]], rest


def run_trace(cfg, trace, monitor=None):
    """Replay from a fresh Simulation."""
    model = build(cfg)
    with env.quiet():
        for act in trace:
            pre = snapshot(model) if monitor else None
            apply(model, act, cfg, monitor or (lambda s: None), pre)
    return model


def explore(cfg, monitor_fn, max_states=2000, max_depth=99, time_limit=60, validate=20, probe=None):
    """Breadth-first search. monitor_fn(Step) -> list of problems. probe(model, cfg): extra checks on every state."""
    t0, cpu0 = time.time(), time.process_time()
    res = dict(states=0, transitions=0, activations=0, moves=0, validated=0, round_validated=0, capped=0, depth=0,
               problems=[], outcomes=collections.Counter(), cfg=cfg, final=[])
    init = build(cfg)
    probs = []

    def monitor(step):
        res["activations"] += 1
        if step.moved:
            res["moves"] += 1
        probs.extend(monitor_fn(step) or [])

    def trace_of(sid):
        tr = []
        while parents[sid] is not None:
            sid, act = parents[sid]
            tr.append(act)
        return tr[::-1]

    key0 = (canon(init), ())
    seen = {key0: 0}
    parents = [None]
    depth = [0]
    frontier = collections.deque([(0, init, ())])
    keys = [key0]
    deepest = []
    while frontier:
        sid, model, todo = frontier.popleft()
        res["depth"] = max(res["depth"], depth[sid])
        if probe is not None:
            with env.quiet():
                try:
                    pr = probe(model, cfg, res)
                except Exception:
                    pr = ["exception in the code under test:\n" + short_tb()]
            for p in pr or []:
                res["problems"].append((p, trace_of(sid)))
            if pr:
                break
        if depth[sid] >= max_depth:
            continue
        for act, rest in actions(model, todo, cfg):
            if time.process_time() - cpu0 > time_limit or env.out_of_time():
                res["capped"] = 1
                frontier.clear()
                break
            m = snapshot(model)
            probs.clear()
            try:
                with env.quiet():
                    apply(m, act, cfg, monitor, model)
            except Exception:
                probs.append("exception in the code under test:\n" + short_tb())
            res["transitions"] += 1
            if probs:
                res["problems"].append(("; ".join(probs[:3]), trace_of(sid) + [act]))
                if len(res["problems"]) >= 3:
                    frontier.clear()
                    break
                continue
            key = (canon(m), rest)
            if key not in seen:
                if len(seen) >= max_states:
                    res["capped"] = 1
                    continue
                nid = len(parents)
                seen[key] = nid
                keys.append(key)
                parents.append((sid, act))
                depth.append(depth[sid] + 1)
                frontier.append((nid, m, rest))
                deepest.append(nid)
                res["outcomes"][outcome(m)] += 1
    res["states"] = len(seen)
    # bind the explored graph to the implementation: replay traces from scratch (the deepest ones and evenly spread ones)
    if not res["problems"] and validate:
        pick = list(dict.fromkeys(deepest[-validate // 2:] + deepest[::max(1, len(deepest) // max(1, validate // 2))]))[:validate]
        for sid in pick:
            tr = trace_of(sid)
            m = run_trace(cfg, tr)
            if canon(m) != keys[sid][0]:
                res["problems"].append(("replaying the trace on a fresh simulation ends in another state", tr))
                break
            res["validated"] += 1
            if cfg.get("_mode", "rational") == "rational" and not keys[sid][1]:
                bad = replay_rounds(cfg, tr, keys[sid][0])
                if bad:
                    res["problems"].append((bad, tr))
                    break
                res["round_validated"] += 1
        res["sample_trace"] = trace_of(deepest[-1]) if deepest else []
    res["outcomes"] = dict(res["outcomes"])
    res["wall"] = time.time() - t0
    return res


def replay_rounds(cfg, trace, want):
    """The same trace through the real scheduler: whole rounds via model.schedule.step() with forced orders."""
    model = build(cfg)
    n = len(model.schedule.agents)
    order = cfg.get("agent_activation_order", "sequential")
    rounds, cur = [], []
    for act in trace:
        if act[0] == "phase":
            return None
        cur.append([act[1]] if act[0] == "act" else [x[0] for x in act[1]])
        if sum(map(len, cur)) == n:
            rounds.append(cur)
            cur = []
    assert not cur
    with env.quiet():
        for r in rounds:
            if order == "random":
                model.random.force([[x for g in r for x in g]])
            elif order == "semisimultaneous":
                model.random.force(r)
            model.schedule.step()
    if canon(model) != want:
        return "real scheduler rounds %r end in another state than the agents' single actions" % (rounds,)
    return None


def outcome(m):
    ops = len({p.owner for p in m.pools.values()})
    return "pools=%d ops=%d private=%d del=%d" % (len(m.pools), ops, sum(p.is_private for p in m.pools.values()),
                                                 sum(len(p.delegators) for p in m.pools.values()))


# ---- many configurations -----------------------------------------------------------------------------------------

def parallel(fn, items, nproc=None):
    """fn over items in forked workers, each with its own scratch cwd; results in completion order."""
    nproc = nproc or env.NPROC
    items = list(items)
    if nproc == 1 or len(items) <= 1:
        for i in items:
            yield fn(i)
        return
    env.scratch_root()
    preload()
    yield from procs.parallel(fn, items, nproc)


def preload():
    """Import the code under test before forking; a module that cannot even be imported is reported by the workers."""
    try:
        import logic.sim  # noqa: F401
    except Exception:
        pass


def fold(rep, res, what=""):
    """Merge one exploration into the report; report its problems."""
    rep.add(states=res["states"], transitions=res["transitions"], traces_validated_against_impl=res["validated"],
            agent_activations=res["activations"], moves=res["moves"], configurations=1,
            scheduler_rounds_validated=res["round_validated"], capped_configurations=res["capped"],
            distinct_outcomes=res["outcomes"])
    rep.coverage["max_depth"] = max(rep.coverage.get("max_depth", 0), res["depth"])
    if res.get("sample_trace"):
        rep.sample({"config": res["cfg"], "trace": res["sample_trace"][:12]})
    for text, trace in res["problems"]:
        rep.violation("%s\nconfig=%s" % (text, json.dumps(res["cfg"])), {"config": res["cfg"], "trace": trace, "kind": what})
