"""C07 phases: every explored state is taken through its phase changes, and a grid of value lists is run to the end."""
import itertools
import json

from mc import configs, env, explore, preds, ref
from mc import agentcheck
from mc.report import Report, short_tb
from mc.state import build, rd

QUICK = dict(max_states=900, time_limit=14, scripted_depth=4)
DEEP = dict(max_states=30000, time_limit=240, scripted_depth=7)
PARAMS = ("k", "a0", "relative_utility_threshold", "absolute_utility_threshold", "extra_pool_cost_fraction")
DEFAULT = dict(k=2, a0=0.3, relative_utility_threshold=0, absolute_utility_threshold=0, extra_pool_cost_fraction=0.4)


def value(cfg, name, phase):
    v = cfg.get(name, DEFAULT[name])
    if isinstance(v, list):
        v = v[min(phase, len(v) - 1)]
    if name == "k" and cfg.get("inactive_stake_fraction_known"):
        v = v / (1 - cfg.get("inactive_stake_fraction", 0))
    return v


def phases_of(cfg):
    return max(len(cfg[p]) if isinstance(cfg.get(p), list) else 1 for p in PARAMS)


def in_force(model, cfg, phase):
    """Problems with the parameters that the simulation uses in `phase`."""
    out = []
    rs = model.reward_scheme
    k = value(cfg, "k", phase)
    kind = cfg.get("reward_scheme", 0)
    sc = ref.Scheme(kind, 1 / k, value(cfg, "a0", phase))
    got = dict(k=rs.k, saturation=rs.global_saturation_threshold, a0=rs.a0,
               relative_utility_threshold=model.relative_utility_threshold,
               absolute_utility_threshold=model.absolute_utility_threshold,
               extra_pool_cost_fraction=model.extra_pool_cost_fraction)
    want = dict(k=k, saturation=1 / k, a0=sc.a0, **{p: value(cfg, p, phase) for p in PARAMS[2:]})
    for p, w in want.items():
        if abs(got[p] - w) > (1 if p == "k" else 1e-12) or p == "k" and got[p] != int(w + 1e-9) and got[p] != int(w):
            out.append("phase %d: %s is %r, should be %r" % (phase, p, got[p], w))
    for pledge in (0, 0.01, 0.1, 0.4):
        if abs(rs.get_pool_saturation_threshold(pledge) - sc.sat(pledge)) > 1e-12:
            out.append("phase %d: saturation threshold of pledge %r is %r, should be %r"
                       % (phase, pledge, rs.get_pool_saturation_threshold(pledge), sc.sat(pledge)))
        for stake in (pledge, 0.2, 0.9):
            if stake >= pledge and abs(rs.calculate_pool_reward(pledge, stake) - sc.reward(pledge, stake)) > 1e-12:
                out.append("phase %d: reward of pledge %r stake %r is %r, should be %r"
                           % (phase, pledge, stake, rs.calculate_pool_reward(pledge, stake), sc.reward(pledge, stake)))
    return out, sc


def frozen(m):
    """Everything that a change of parameters must leave alone."""
    return (sorted((pid, p.id, p.owner, rd(p.pledge), rd(p.stake), rd(p.cost), rd(p.margin), bool(p.is_private),
                    tuple(sorted((d, rd(x)) for d, x in p.delegators.items()))) for pid, p in m.pools.items()),
            [(a.unique_id, rd(a.stake), rd(a.cost), None if a.strategy is None else
              (sorted((q, rd(x)) for q, x in a.strategy.stake_allocations.items()), sorted(a.strategy.owned_pools)))
             for a in m.schedule.agents], rd(m.total_stake))


def strategies(m):
    return [None if a.strategy is None else
            (dict(a.strategy.stake_allocations), {i: (p.pledge, p.margin, p.cost) for i, p in a.strategy.owned_pools.items()})
            for a in m.schedule.agents]


def changed(pre, post, cfg):
    """Problems with a phase change from `pre` (only idle rounds in between) to `post`."""
    out = []
    if frozen(pre) != frozen(post):
        out.append("the phase change alters pools or agents:\n%r\n%r" % (frozen(pre), frozen(post)))
    probs, sc = in_force(post, cfg, post.current_phase)
    out += probs
    out += preds.rankings(post, sc)
    return out


def decisions(m, cfg, sc):
    """Every agent's next decision follows the new values."""
    out = []

    def mon(step):
        if step.moved and step.strategy is not None:
            if step.kind == "decide" or True:
                if step.strategy.owned_pools:
                    out.extend(preds.decided_pools(step.pre, step.aid, step.strategy, sc))
                    t = len(step.strategy.owned_pools)
                    ag = next(a for a in step.pre.schedule.agents if a.unique_id == step.aid)
                    cost = ref.cost_each(ag.cost, value(cfg, "extra_pool_cost_fraction", step.pre.current_phase), t)
                    for p in step.strategy.owned_pools.values():
                        if abs(p.cost - cost) > 1e-12:
                            out.append("new pool of agent %d costs %r, should cost %r" % (step.aid, p.cost, cost))
                out.extend(preds.decided_delegation(step.pre, step.aid, step.strategy, sc))
        if ref.is_abstainer(next(a for a in step.pre.schedule.agents if a.unique_id == step.aid)):
            return
        out.extend(preds.choice(step.pre, step.aid, step.strategy if step.moved else None, sc,
                                explore.op_candidate(step.pre, step.aid)))
    explore.rational_steps(m, cfg, mon)
    return out


def monitor(step):
    if step.kind != "phase":
        return []
    return changed(step.pre, step.post, step.cfg)


def probe(model, cfg, res):
    if model.current_phase == 0:
        return []
    x = res.setdefault("extra", {})
    x["states_probed_in_later_phases"] = x.get("states_probed_in_later_phases", 0) + 1
    probs, sc = in_force(model, cfg, model.current_phase)
    return probs or decisions(model, cfg, sc)


# ---- whole runs --------------------------------------------------------------------------------------------------

def run(cfg):
    """A real run watched round by round from outside."""
    out = []
    info = dict(rounds=0, changes=0)
    try:
        m = build(cfg)
        n = phases_of(cfg)
        if m.total_phases != n:
            out.append("%d phases, should be %d" % (m.total_phases, n))
        phase, streak, pivots = 0, 0, []
        ia = cfg["iterations_after_convergence"]
        out += in_force(m, cfg, 0)[0]
        while m.running and not out:
            pre = strategies(m)
            with env.quiet():
                m.step()
            info["rounds"] += 1
            if not m.running:
                break
            idle = strategies(m) == pre
            streak = streak + 1 if idle else 0
            if streak == ia:
                if phase < n - 1:
                    phase += 1
                    pivots.append(info["rounds"])
                    info["changes"] += 1
                streak = 0
            if m.current_phase != phase:
                out.append("in phase %d after round %d, should be in phase %d" % (m.current_phase, info["rounds"], phase))
                break
            probs, sc = in_force(m, cfg, phase)
            out += probs
            out += preds.rankings(m, sc)
        if out:
            return cfg, info, out
        if list(m.pivot_steps) != pivots:
            out.append("reports changes of values at rounds %r, they happened at %r" % (m.pivot_steps, pivots))
        desc = json.load(open(m.directory / "final-state-descriptors.json"))
        info["end"] = desc["Equilibrium reached"]
    except Exception:
        out.append("exception in the code under test:\n" + short_tb())
    return cfg, info, out


def grid():
    from mc.configs import cfg
    ks = [[2], [2, 3], [3, 1], [2, 6, 1], [4, 3, 5]]
    a0s = [0.3, [0.3, 0.0], [0.0, 1.0, 0.2]]
    rest = [dict(), dict(absolute_utility_threshold=[1e-9, 1e-2]), dict(relative_utility_threshold=[0.1, 0.0], extra_pool_cost_fraction=[0.9, 0.1, 0.0])]
    inact = [dict(), dict(inactive_stake_fraction=0.2), dict(inactive_stake_fraction=0.25, inactive_stake_fraction_known=True)]
    orders = ["sequential", "random", "semisimultaneous", "simultaneous"]
    i = 0
    for k, a0, r, f, scheme in itertools.product(ks, a0s, rest, inact, range(5)):
        for order in (orders if env.THOROUGH else [orders[i % 4]]):
            i += 1
            c = dict(n=5, absolute_utility_threshold=1e-9, k=k, a0=a0 if scheme != 4 else ([4.0, 2.0] if isinstance(a0, list) else 3.0), reward_scheme=scheme,
                     stake_distr_source="pareto", cost_min=1e-3, cost_max=2e-2, seed=3 + i % 5, iterations_after_convergence=1 + i % 3,
                     max_iterations=40, agent_activation_order=order, agent_profile_distr=[3, 1, 0], metrics=[1, 26])
            c.update(r)
            c.update(f)
            yield c


def run_chunk(cs):
    return [run(c) for c in cs]


def main():
    rep = Report("C07", "model_checking", [
        "populations of 3 to 5 agents; phase changes are entered by real idle rounds in every explored state; values compared to 1e-12"])
    agentcheck.into(rep, configs.phased(env.THOROUGH) + hard(), monitor, QUICK, DEEP, probe)
    cs = list(grid())
    for chunk in explore.parallel(run_chunk, [cs[i:i + 20] for i in range(0, len(cs), 20)]):
        for cfg, info, probs in chunk:
            rep.add(runs=1, rounds_of_runs=info["rounds"], phase_changes_of_runs=info["changes"])
            if probs:
                rep.violation("%s\nrun of config=%s" % ("; ".join(probs[:3]), json.dumps(cfg)), {"config": cfg, "run": True})
        if len(rep.violations) > 6:
            break
    return rep.finish()


def hard():
    """Known inactive stake, thresholds and costs that change, more target pools than agents."""
    from mc.configs import cfg, S3A, S3B, S3D
    out = []
    for order in ("random", "simultaneous"):
        for mode in ("scripted", "rational"):
            kw = dict(agent_activation_order=order, _mode=mode, _group=2, max_iterations=10 ** 6, iterations_after_convergence=2)
            out += [
                cfg([0.4, 0.24, 0.16], [0.02, 0.01, 0.03], [0, 0, 1], k=[2, 3], a0=0.3, inactive_stake_fraction=0.2,
                    inactive_stake_fraction_known=True, absolute_utility_threshold=[1e-9, 0.05], **kw),
                cfg(S3D, [0.01, 0.02, 0.01], [0, 1, 0], k=[1, 7], a0=[0.3, 0.0, 2.0], relative_utility_threshold=[0, 0.2],
                    extra_pool_cost_fraction=[1.0, 0.1], **kw),
                cfg(S3B, [0.004, 0.02, 0.01], [0, 0, 0], k=[3, 3, 1], a0=[3.0, 5.0], reward_scheme=4, **kw),
            ]
    return out


def replay(data):
    if data.get("run"):
        probs = run(data["config"])[2]
        print("\n".join(probs) or "not reproduced")
        return 1 if probs else 0
    return agentcheck.replay(data, monitor, probe)
