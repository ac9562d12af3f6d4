"""C04 delegations: every decision an agent takes in any explored state is compared with greedy filling of its ranking."""
from mc import agentcheck, configs, env, explore, preds

QUICK = dict(max_states=1500, time_limit=12, scripted_depth=4)
DEEP = dict(max_states=40000, time_limit=240, scripted_depth=8)


def monitor(step):
    out = preds.private_empty(step.post)
    if step.moved and step.kind in ("act", "decide") and (step.rational or step.move[0] in ("ops", "del")):
        out += preds.decided_delegation(step.pre, step.aid, step.strategy, step.sc)
    return out


def probe(model, cfg, res):
    if cfg.get("_mode") != "scripted":
        return []
    out = []

    def mon(step):
        x = res.setdefault("extra", {})
        x["decisions_from_scripted_states"] = x.get("decisions_from_scripted_states", 0) + 1
        if step.moved and step.strategy.stake_allocations:
            x["delegating_decisions"] = x.get("delegating_decisions", 0) + 1
        out.extend(monitor(step))
    explore.rational_steps(model, cfg, mon)
    return out


def main():
    cfgs = configs.scripted(env.THOROUGH) + configs.crowded(env.THOROUGH) + configs.rational(env.THOROUGH)
    return agentcheck.run("C04", cfgs, monitor, QUICK, DEEP, [
        "populations of 3 to 5 agents, bounded menus of strategies, amounts compared to 1e-9",
        "pools within 1e-12 of saturation count as either saturated or not"], probe=probe)


def replay(data):
    return agentcheck.replay(data, monitor, probe)
