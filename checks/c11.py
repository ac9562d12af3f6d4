"""C11 operators' choices: number of pools, margins and kept pools against an independent estimate, in every state."""
from mc import agentcheck, configs, env, explore, preds, ref
from mc.state import agent

QUICK = dict(max_states=1200, time_limit=12, scripted_depth=4)
DEEP = dict(max_states=40000, time_limit=240, scripted_depth=8)


def monitor(step):
    out = []
    if step.kind in ("act", "decide") and step.rational and step.pre is not None:
        if step.moved and step.strategy.owned_pools:
            out += preds.decided_pools(step.pre, step.aid, step.strategy, step.sc)
    return out


def probe(model, cfg, res):
    """The pool operation move every agent would choose in this state, whether or not it takes it."""
    out = []
    x = res.setdefault("extra", {})
    sc = ref.scheme_of(model, cfg.get("reward_scheme", 0))
    for a in model.schedule.agents:
        if ref.is_abstainer(a):
            continue
        s = explore.op_candidate(model, a.unique_id)
        if s is None:
            continue
        t, old = len(s.owned_pools), len(a.strategy.owned_pools)
        key = "candidates_opening" if t > old else "candidates_closing" if t < old else "candidates_same"
        x[key] = x.get(key, 0) + 1
        if any(p.margin > 0 for p in s.owned_pools.values()):
            x["candidates_with_margin"] = x.get("candidates_with_margin", 0) + 1
        out += preds.decided_pools(model, a.unique_id, s, sc)
    return out


def main():
    cfgs = configs.scripted(env.THOROUGH) + configs.crowded(env.THOROUGH) + configs.rational(env.THOROUGH)
    return agentcheck.run("C11", cfgs, monitor, QUICK, DEEP, [
        "populations of 3 to 5 agents, bounded menus of strategies; margins compared to 1e-9, estimates to 1e-11"], probe=probe)


def replay(data):
    return agentcheck.replay(data, monitor, probe)
