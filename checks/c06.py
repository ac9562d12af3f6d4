"""C06 stopping: every history of idle and active rounds, through the real scheduler, against a reference automaton."""
import csv
import itertools
import json
import os

from mc import configs, env, explore
from mc.report import Report, short_tb
from mc.state import build

BASE = dict(_stakes=[0.3, 0.3, 0.4], _costs=[0.001] * 3, _profiles=[0, 0, 0], a0=0.3, metrics=[1, 2], _group=2)


def patched(script, seen):
    """Agents follow `script(round) -> set of movers`: a mover opens a pool, or closes it again."""
    import logic.stakeholder as st
    from logic.strategy import Strategy
    orig = st.Stakeholder.update_strategy

    def update_strategy(self):
        r = seen["round"]
        self.new_strategy = None
        if self.unique_id in script(r):
            self.new_strategy = Strategy() if self.strategy.owned_pools else self.find_operator_move(1, {}, [0.1])
    st.Stakeholder.update_strategy = update_strategy
    return lambda: setattr(st.Stakeholder, "update_strategy", orig)


def automaton(script, ia, phases, max_iter, lists):
    """Reference: what a run must report. `lists`: number of phases for which some parameter has a value of its own."""
    t = streak = phase = 0
    eq, pools, rows = [], set(), []
    while True:
        rows.append(len(pools))
        if t >= max_iter:
            return dict(rows=rows, eq=eq, conv=False, played=t, phase=phase)
        movers = script(t)
        pools = pools ^ set(movers)
        t += 1
        streak = 0 if movers else streak + 1
        if streak >= ia:
            eq.append(t - 1 - ia)
            streak = 0
            if phase == phases - 1:
                return dict(rows=rows, eq=eq, conv=True, played=t, phase=phase)
            phase += 1


def drive(m, seen, how):
    import mesa.time
    first = m.schedule.step

    def step():
        first()
        seen["round"] += 1
    m.schedule.step = step  # counts the rounds that are really played
    try:
        with env.quiet():
            if how == "run":
                m.__class__.run_model(m)
            else:
                n = 0
                while m.running and n < (how if isinstance(how, int) else 1000):
                    m.step()
                    n += 1
                if m.running:
                    m.run_model()
    finally:
        m.schedule.__dict__.pop("step", None)


def observe(m, seen):
    d = m.directory
    with open(d / "metrics.csv") as f:
        table = list(csv.reader(f))
    desc = json.load(open(d / "final-state-descriptors.json"))
    vals = m.datacollector.get_model_vars_dataframe()
    col = vals.columns[0]
    return dict(rows=[int(x) for x in vals[col]], eq=list(m.equilibrium_steps), conv=bool(m.has_converged()),
                played=seen["round"], phase=m.current_phase,
                file_rounds=[r[0] for r in table[1:]], file_rows=[int(float(r[1])) for r in table[1:]],
                desc=desc["Equilibrium reached"], running=m.running)


def compare(want, got):
    out = []
    for k in ("rows", "eq", "conv", "played", "phase"):
        if want[k] != got[k]:
            out.append("%s: %r, should be %r" % (k, got[k], want[k]))
    n = len(want["rows"])
    if got["file_rounds"] != [str(i) for i in range(n)] or got["file_rows"] != want["rows"]:
        out.append("metrics.csv has rounds %r values %r, should be rounds 0..%d values %r"
                   % (got["file_rounds"], got["file_rows"], n - 1, want["rows"]))
    if got["desc"] != ("Yes" if want["conv"] else "No"):
        out.append("final descriptors: equilibrium %r" % got["desc"])
    if got["running"]:
        out.append("still running")
    return out


class NoPickle:
    """The counter on schedule.step cannot be pickled; the saved object is the business of C14."""

    def __enter__(self):
        import logic.sim as sim
        self.orig = sim.Simulation.save_model_state_pkl
        sim.Simulation.save_model_state_pkl = lambda self: None

    def __exit__(self, *a):
        import logic.sim as sim
        sim.Simulation.save_model_state_pkl = self.orig


def run_history(cfg, hist, how):
    ia, max_iter = cfg["iterations_after_convergence"], cfg["max_iterations"]
    phases = max([len(v) for v in cfg.values() if isinstance(v, list) and v is not cfg["_stakes"]
                  and v is not cfg["_costs"] and v is not cfg["_profiles"] and v is not cfg["metrics"]] or [1])
    script = lambda r: hist[r] if r < len(hist) else ()
    seen = {"round": 0}
    want = automaton(script, ia, phases, max_iter, None)
    undo = patched(script, seen)
    try:
        with NoPickle():
            m = build(cfg)
            drive(m, seen, how)
            got = observe(m, seen)
        return want, compare(want, got)
    except Exception:
        return want, ["exception in the code under test:\n" + short_tb()]
    finally:
        undo()


def tree(cfg, alphabet, hows):
    """All histories: a history is extended only while the run it belongs to goes on."""
    res = dict(nodes=0, histories=0, rounds=0, conv=0, limit=0, phases=0, problems=[], cfg=cfg, sample=None)
    phases = cfg.pop("_phases")
    stack = [()]
    ia, mi = cfg["iterations_after_convergence"], cfg["max_iterations"]
    while stack:
        h = stack.pop()
        res["nodes"] += 1
        want = automaton(lambda r: h[r] if r < len(h) else (), ia, phases, mi, None)
        if want["played"] > len(h):
            stack.extend(h + (a,) for a in alphabet)
            continue
        for how in hows:
            w, probs = run_history(cfg, h, how)
            res["histories"] += 1
            res["rounds"] += w["played"]
            res["conv" if w["conv"] else "limit"] += 1
            res["phases"] += w["phase"]
            res["sample"] = dict(history=h, driven=how, config=cfg, reports=w)
            if probs:
                res["problems"].append((probs, h, how))
                if len(res["problems"]) > 2:
                    return res
    return res


def job(a):
    return tree(*a)


def real_run(cfg):
    """A real run: idle rounds are recognised from outside, by comparing all strategies."""
    def strategies(m):
        return [None if a.strategy is None else
                (dict(a.strategy.stake_allocations), {i: (p.pledge, p.margin, p.cost) for i, p in a.strategy.owned_pools.items()})
                for a in m.schedule.agents]
    moved = []
    try:
        with NoPickle():
            m = build(cfg)
            first = m.schedule.step

            def step():
                before = strategies(m)
                first()
                moved.append(before != strategies(m))
            m.schedule.step = step
            with env.quiet():
                m.run_model()
            m.schedule.__dict__.pop("step", None)
            got = observe(m, {"round": len(moved)})
        script = lambda r: (0,) if r < len(moved) and moved[r] else ()
        want = automaton(script, cfg["iterations_after_convergence"], m.total_phases, cfg["max_iterations"], None)
        want["rows"] = got["rows"] if len(got["rows"]) == len(want["rows"]) else want["rows"]
        return cfg, len(moved), sum(moved), compare(want, got)
    except Exception:
        return cfg, len(moved), sum(moved), ["exception in the code under test:\n" + short_tb()]


def jobs():
    deep = env.THOROUGH
    out = []
    multi = {1: dict(k=2), 2: dict(k=[2, 3]), 3: dict(k=[3, 2], a0=[0.3, 0.3, 0.1])}
    for order in ("sequential", "random", "simultaneous", "semisimultaneous"):
        for phases in (1, 2, 3):
            for ia in (1, 2, 3):
                for mi in range(1, (11 if deep else 9)):
                    c = dict(BASE, agent_activation_order=order, iterations_after_convergence=ia, max_iterations=mi,
                             _phases=phases, **{k: v for k, v in multi[phases].items() if k != "a0"})
                    c.update(multi[phases])
                    big = 9 if deep else 6
                    alpha = [(), (0,), (2,)] if mi <= big and (deep or order in ("sequential", "simultaneous")) else [(), (1,)]
                    hows = ["run", "step", 2] if mi <= 4 else ["run"]
                    out.append((c, alpha, hows))
    for order, phases, (ia, mi) in itertools.product(("sequential", "random"), (1, 2), ((4, 9), (5, 9 if not deep else 11), (6, 10 if deep else 9))):
        c = dict(BASE, agent_activation_order=order, iterations_after_convergence=ia, max_iterations=mi, _phases=phases)
        c.update(multi[phases])
        out.append((c, [(), (1,)], ["run"]))
    out.sort(key=lambda x: -len(x[1]) ** x[0]["max_iterations"])
    return out


def real_jobs():
    out = []
    for c in configs.rational():
        for ia, mi in ((1, 30), (3, 30), (2, 4)):
            out.append(dict(c, iterations_after_convergence=ia, max_iterations=mi))
    for c in configs.phased():
        if c["_mode"] == "rational":
            out.append(dict(c, iterations_after_convergence=2, max_iterations=40))
    return out


def main():
    rep = Report("C06", "model_checking", [
        "scripted moves (open / close a pool); up to %d rounds, three phases, idle limits 1 to 6" % (10 if env.THOROUGH else 8)])
    for r in explore.parallel(job, jobs()):
        rep.add(states=r["nodes"], transitions=r["rounds"], ended_in_equilibrium=r["conv"],
                ended_at_limit=r["limit"], phase_changes=r["phases"], traces_validated_against_impl=r["histories"])
        rep.sample(r["sample"])
        for probs, h, how in r["problems"]:
            rep.violation("%s\nhistory=%r driven=%r config=%s" % ("; ".join(probs), h, how, json.dumps(r["cfg"])),
                          {"config": r["cfg"], "history": h, "how": how})
        if len(rep.violations) > 5:
            break
    for cfg, rounds, moved, probs in explore.parallel(real_run, real_jobs()):
        rep.add(real_runs=1, real_rounds=rounds, real_active_rounds=moved)
        if probs:
            rep.violation("%s\nreal run, config=%s" % ("; ".join(probs), json.dumps(cfg)), {"config": cfg, "real": True})
    return rep.finish()


def replay(data):
    if data.get("real"):
        probs = real_run(data["config"])[3]
    else:
        probs = run_history(data["config"], [tuple(x) for x in data["history"]], data["how"])[1]
    print("\n".join(probs) or "not reproduced")
    return 1 if probs else 0
