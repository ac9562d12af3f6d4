"""C03 operators' pools: pledge, cost, privacy, number and ids after every action (single-phase)."""
import json

from mc import agentcheck, configs, env, explore, preds
from mc.report import Report, short_tb
from mc.state import build

QUICK = dict(max_states=2500, time_limit=9, scripted_depth=4)
DEEP = dict(max_states=80000, time_limit=240, scripted_depth=8)
ASSUME = ["populations of 3 to 5 agents, bounded menus of strategies, amounts compared to 1e-9",
          "parameters fixed while the agents act"]


def monitor(step):
    out = preds.operators(step.post, step.sc)
    if step.reused:
        out.append("pool ids %s are used again" % (step.reused,))
    return out


def watched_run(cfg, steps):
    """`steps` rounds by step(), the rest by run_model(); the pools are inspected after every agent's execution."""
    import logic.stakeholder as st
    model = build(cfg)
    probs = []
    ever, last = set(), set()

    def look():
        nonlocal last
        now = set(model.pools)
        again = (now - last) & ever
        if again:
            probs.append("pool ids %s are used again (round %d)" % (sorted(again), model.schedule.steps))
        ever.update(now)
        last = now
        probs.extend(preds.operators(model))
    orig = st.Stakeholder.advance

    def advance(self):
        orig(self)
        look()
    st.Stakeholder.advance = advance
    try:
        with env.quiet():
            for _ in range(steps):
                if model.running:
                    model.step()
            if model.running:
                model.run_model()
    except Exception:
        probs.append("exception in the code under test:\n" + short_tb())
    finally:
        st.Stakeholder.advance = orig
    return probs, len(ever)


def main():
    rep = Report("C03", "model_checking", ASSUME)
    agentcheck.into(rep, configs.scripted(env.THOROUGH) + configs.rational(env.THOROUGH), monitor, QUICK, DEEP)
    # how a run is driven must not matter: every split of a run into single steps and a final run_model()
    opened = 0
    for c in configs.rational()[:6]:
        c = dict(c, max_iterations=12)
        for steps in range(0, 5):
            probs, n = watched_run(c, steps)
            opened += n
            rep.add(driven_runs=1)
            if probs:
                rep.violation("%s\n%d x step(), then run_model(); config=%s" % ("; ".join(probs[:2]), steps, json.dumps(c)),
                              {"config": c, "steps": steps})
    rep.add(pools_opened_in_driven_runs=opened)
    return rep.finish()


def replay(data):
    if "steps" in data:
        probs, _ = watched_run(data["config"], data["steps"])
        print("\n".join(probs) or "not reproduced")
        return 1 if probs else 0
    return agentcheck.replay(data, monitor)
