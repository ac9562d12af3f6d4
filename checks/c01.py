"""C01 conservation: explicit-state search over agents' actions, rational and scripted, all activation orders."""
import copy

from mc import agentcheck, configs, env, preds
from mc.state import snapshot

QUICK = dict(max_states=3000, time_limit=10, scripted_depth=4)
DEEP = dict(max_states=80000, time_limit=240, scripted_depth=8)

SHIFTS = (0.3, 0.02, 0.003, 1e-5, 1e-7)  # relative reductions of one delegation


def monitor(step):
    return preds.conservation(step.post)


def probe(model, cfg, res):
    """From every scripted state: every agent changes every single delegation of its own by amounts of all magnitudes."""
    if cfg.get("_mode") != "scripted" or not any(getattr(a.strategy, "stake_allocations", None) for a in model.schedule.agents):
        return []
    from logic.strategy import Strategy
    m = snapshot(model)
    for a in m.schedule.agents:
        if not getattr(a.strategy, "stake_allocations", None):
            continue
        for pid in sorted(a.strategy.stake_allocations):
            for rel in SHIFTS:
                alloc = dict(a.strategy.stake_allocations)
                alloc[pid] *= 1 - rel
                a.new_strategy = Strategy(stake_allocations=alloc, owned_pools=copy.deepcopy(a.strategy.owned_pools))
                a.advance()
                x = res.setdefault("extra", {})
                x["single_delegation_changes"] = x.get("single_delegation_changes", 0) + 1
                bad = preds.conservation(m)
                if bad:
                    return ["agent %s changes its delegation to pool %s by the factor 1 - %g: %s" % (a.unique_id, pid, rel, b)
                            for b in bad]
    return []


def main():
    cfgs = configs.scripted(env.THOROUGH) + configs.phased(env.THOROUGH) + configs.rational(env.THOROUGH)
    return agentcheck.run("C01", cfgs, monitor, QUICK, DEEP, [
        "populations of 3 to 5 agents, bounded menus of strategies, amounts compared to 1e-9"], probe=probe)


def replay(data):
    return agentcheck.replay(data, monitor, probe)
