"""C02 rankings: after every action and phase change, complete, ordered, and consistent with the parameters."""
from mc import agentcheck, configs, env, preds

QUICK = dict(max_states=2500, time_limit=9, scripted_depth=4)
DEEP = dict(max_states=80000, time_limit=240, scripted_depth=8)


def monitor(step):
    return preds.rankings(step.post, step.sc)


def main():
    cfgs = configs.phased(env.THOROUGH) + configs.scripted(env.THOROUGH) + configs.rational(env.THOROUGH)
    return agentcheck.run("C02", cfgs, monitor, QUICK, DEEP, [
        "populations of 3 to 5 agents, bounded menus of strategies, values compared to 1e-9; near ties below 1e-12 that "
        "are not exact ties are not judged"])


def replay(data):
    return agentcheck.replay(data, monitor)
