"""C05 decisions: every activation in any explored state is compared with independently recomputed utilities."""
import json

from mc import agentcheck, configs, env, explore, preds, ref
from mc.report import Report, short_tb
from mc.state import agent, build, canon, snapshot

QUICK = dict(max_states=1200, time_limit=12, scripted_depth=4)
DEEP = dict(max_states=40000, time_limit=240, scripted_depth=8)
ASSUME = ["populations of 3 to 5 agents, bounded menus of strategies, utilities compared to 1e-11",
          "the candidate pool operation move is the one the code itself finds (checked by C11)"]


def monitor(step):
    out = []
    if step.kind in ("act", "decide") and step.rational and step.pre is not None:
        kind = step.cfg["_profiles"][step.aid]
        if kind == 2:
            if step.moved or canon(step.pre, staged=False) != canon(step.post, staged=False):
                out.append("abstainer %d acts" % step.aid)
            return out
        if step.kind == "decide" or not step.moved:
            if canon(step.pre, staged=False) != canon(step.post, staged=False):
                out.append("agent %d changes pools, delegations or rankings without moving" % step.aid)
        out += preds.choice(step.pre, step.aid, step.strategy if step.moved else None, step.sc,
                            explore.op_candidate(step.pre, step.aid))
    return out


def decides_to_move(pre, aid, rel, ab):
    m = snapshot(pre)
    m.relative_utility_threshold, m.absolute_utility_threshold = rel, ab
    b = agent(m, aid)
    with env.quiet():
        b.update_strategy()
    return b.new_strategy is not None


def boundary(step, res):
    """The same decision with thresholds just above and just below the gain that the move promises."""
    try:
        ag = agent(step.pre, step.aid)
        cur = ref.current_utility(step.pre, ag, step.sc)
        exp = ref.expected_utility(step.pre, ag, ag.strategy, step.sc)
        gain = ref.expected_utility(step.pre, ag, step.strategy, step.sc) - max(cur, exp)
    except ref.Ambiguous:
        return []
    if gain < 1e-7:
        return []
    cases = [(0, gain * 1.02, False), (0, gain * 0.98, True)]
    if max(cur, exp) > 1e-7:
        r = gain / max(cur, exp)
        cases += [(r * 1.02, 0, False), (r * 0.98, 0, True), (r * 0.6, gain * 0.6, True)]
    x = res.setdefault("extra", {})
    out = []
    for rel, ab, want in cases:
        x["decisions_at_threshold"] = x.get("decisions_at_threshold", 0) + 1
        if decides_to_move(step.pre, step.aid, rel, ab) != want:
            out.append("agent %s %s for a gain of %r over %r now and %r expected, with thresholds %r relative, %r absolute"
                       % (step.aid, "does not move" if want else "moves", gain, cur, exp, rel, ab))
    return out


def probe(model, cfg, res):
    if cfg.get("_mode") != "scripted":
        return []
    out = []

    def mon(step):
        if step.moved and step.kind in ("act", "decide"):
            out.extend(boundary(step, res))
        x = res.setdefault("extra", {})
        key = "moves_from_scripted_states" if step.moved else "non_moves_from_scripted_states"
        x[key] = x.get(key, 0) + 1
        out.extend(monitor(step))
    explore.rational_steps(model, cfg, mon)
    return out


def converged(args):
    """Run to convergence; then nobody moves, whoever is asked first."""
    cfg, seed = args
    out = []
    try:
        m = build(dict(cfg, max_iterations=80))
        m.random.seed(seed)
        with env.quiet():
            m.run_model()
        if not m.equilibrium_steps:
            return cfg, seed, False, []
        rest = canon(m, staged=False)
        for a in m.schedule.agents:
            c = snapshot(m)
            b = agent(c, a.unique_id)
            c.current_step_idle = True
            with env.quiet():
                b.step()
                if b.new_strategy is not None:
                    b.advance()
            if not c.current_step_idle or canon(c, staged=False) != rest:
                out.append("after convergence agent %d still moves" % a.unique_id)
    except Exception:
        out.append("exception in the code under test:\n" + short_tb())
    return cfg, seed, True, out


def main():
    rep = Report("C05", "model_checking", ASSUME)
    cfgs = configs.scripted(env.THOROUGH) + configs.crowded(env.THOROUGH) + configs.rational(env.THOROUGH)
    agentcheck.into(rep, cfgs, monitor, QUICK, DEEP, probe)
    jobs = [(c, s) for c in configs.rational(env.THOROUGH) for s in range(8 if env.THOROUGH else 2)]
    for cfg, seed, conv, probs in explore.parallel(converged, jobs):
        rep.add(runs=1, converged_runs=int(conv))
        if probs:
            rep.violation("%s\nconfig=%s seed=%d" % ("; ".join(probs[:3]), json.dumps(cfg), seed),
                          {"config": cfg, "seed": seed, "converged": True})
    return rep.finish()


def replay(data):
    if data.get("converged"):
        probs = converged((data["config"], data["seed"]))[3]
        print("\n".join(probs) or "not reproduced")
        return 1 if probs else 0
    return agentcheck.replay(data, monitor, probe)
