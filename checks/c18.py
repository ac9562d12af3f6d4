"""C18 interactive session: all message sequences up to a bound through the real socket handler and server, against a
reference session that builds and steps simulations directly; some of them again over a real web socket."""
import itertools
import json
import os
import sys

from mc import crash, env, explore
from mc.report import Report, short_tb

FIXED = dict(cost_max=3e-3, agent_activation_order="random", max_iterations=3, iterations_after_convergence=2, generate_graphs=False,
             stake_distr_source="pareto", metrics=[1, 3, 21, 27, 28])
OFFERED = dict(n=("slider", 4, 1, 9), k=("slider", 2, 1, 5), a0=("slider", 0.3, 0, 1), cost_min=("slider", 1e-3, 1e-3, 2e-3),
               seed=("number", 5), inactive_stake_fraction=("slider", 0, 0, 0.9),
               inactive_stake_fraction_known=("checkbox", False), agent_profile=("static_text", "text"))
STEP, RESET = dict(type="get_step"), dict(type="reset")


def put(param, value):
    return dict(type="submit_params", param=param, value=value)


ALPHABET = [STEP, RESET, put("k", 3), put("k", 1), put("seed", 8), put("n", 2), put("a0", 0.9), put("inactive_stake_fraction", 0.25),
            put("inactive_stake_fraction_known", True), put("max_iterations", 1), put("colour", 3), dict(type="hello")]
CORE = [STEP, RESET, put("k", 3), put("seed", 8)]


def picture(m):
    """Everything of a model that a session could change."""
    pools = sorted((p.id, p.owner, p.pledge, p.stake, p.cost, p.margin, bool(p.is_private), sorted(p.delegators.items())) for p in m.pools.values())
    return json.loads(json.dumps(dict(steps=m.schedule.steps, running=bool(m.running), pools=pools, metrics=m.datacollector.model_vars,
                                      agents=[(a.unique_id, a.stake, a.cost) for a in m.schedule.agents], k=m.reward_scheme.k, a0=m.reward_scheme.a0),
                                 default=str, sort_keys=True))


def elements():
    from interactiveViz.bubbleChartModule import BubbleChartModule
    from interactiveViz.myChartModule import MyChartModule
    from interactiveViz.stackedChartModule import StackedChartModule
    label = lambda x: dict(label=x, title=x, xLabel="Round", yLabel=x, tooltipText="", color="Blue")
    return [MyChartModule([label("Pool count")]), StackedChartModule([dict(Label="Stake per agent id", tooltipText="", xLabel="", yLabel="", Num_pools=9)]),
            BubbleChartModule([dict(Label="StakePairs")]), MyChartModule([label("Mean pledge"), label("Total delegated stake")]), MyChartModule([label("No such metric")])]


def rendered(m):
    """What the charts have to show: the latest recorded metrics (nothing before the first record)."""
    v = m.datacollector.model_vars
    last = lambda name: v[name][-1] if v.get(name) else None
    one = lambda *names: [last(n) for n in names if last(n) is not None]
    agents = last("Stake per agent id")
    sp = last("StakePairs")
    bubbles = [x for t in zip(sp["x"], sp["y"], sp["r"], sp["pool_id"], sp["owner_id"]) for x in t] if sp else []
    out = [one("Pool count"), [list(agents), list(agents.values())] if agents else [[], []], bubbles, one("Mean pledge", "Total delegated stake"), []]
    return json.loads(json.dumps(out, default=float))


class Reference:
    """Values chosen last, and the model they give, stepped directly."""
    def __init__(self):
        self.values = {o: v[1] for o, v in OFFERED.items() if v[0] != "static_text"}
        self.fresh()

    def fresh(self):
        import logic.sim as sim
        self.model = sim.Simulation(**dict(FIXED, **self.values))

    def message(self, msg):
        """The messages to be sent: (kind, data) that must be sent, and whether further pictures of the state may be."""
        if msg["type"] == "get_step":
            if not self.model.running:
                return [("end", None)]
            self.model.step()
            return [("viz_state", rendered(self.model))]
        if msg["type"] == "reset":
            self.fresh()
            return [("viz_state", rendered(self.model))]
        if msg["type"] == "submit_params" and msg["param"] in self.values:
            self.values[msg["param"]] = msg["value"]
            self.fresh()
            return [("maybe", rendered(self.model))]
        return []


def make_app():
    import logic.sim as sim
    from mesa.visualization.UserParam import UserSettableParameter
    from interactiveViz.myModularVisualization import MyModularServer
    params = dict(FIXED)
    for o, v in OFFERED.items():
        params[o] = UserSettableParameter("static_text", o, v[1]) if v[0] == "static_text" else UserSettableParameter(
            v[0], o, v[1], *([v[2], v[3], 1] if v[0] == "slider" else []))
    return MyModularServer(sim.Simulation, elements(), "test", params)


def handler(app, sent, cls=None):
    from interactiveViz.myModularVisualization import MySocketHandler
    h = (cls or MySocketHandler).__new__(cls or MySocketHandler)
    h.application = app
    h.write_message = lambda m, *a, **kw: sent.append(json.loads(m) if isinstance(m, (str, bytes)) else json.loads(json.dumps(m, default=float)))
    return h


def judge(msg, sent, want, ref, model, before):
    out = []
    got = [(m.get("type"), m.get("data")) for m in sent]
    extra = [w[1] for w in want if w[0] == "maybe"]
    must = [w for w in want if w[0] != "maybe"]
    if must and (not got or got[-1] != must[0] or len(got) != 1):
        out.append("answers %r, should be %r" % (got, must))
    if not must and any(g[0] != "viz_state" or not extra or g[1] != extra[0] for g in got):
        out.append("answers %r to a message that asks for none" % got)
    a, b = picture(model), picture(ref.model)
    if a != b:
        out += ["the session's simulation has %s %r, should be %r" % (k, a[k], b[k]) for k in a if a[k] != b[k]]
    return out


def sequence(msgs):
    """All problems of one session; the number of messages."""
    app, ref, sent = make_app(), Reference(), []
    h = handler(app, sent)
    probs = []
    if picture(app.model) != picture(ref.model):
        probs.append("the first simulation of the session is not that of the initial parameters")
    for i, msg in enumerate(msgs):
        sent.clear()
        before = app.model
        want = ref.message(msg)
        h.on_message(json.dumps(msg))
        probs = probs or judge(msg, sent, want, ref, app.model, before)
        if msg["type"] == "get_step" and app.model is not before:
            probs.append("a step request has started another simulation")
        if (msg["type"] == "reset" or msg["type"] == "submit_params" and msg["param"] in ref.values) and app.model is before:
            probs.append("no new simulation was started")
        if probs:
            return ["after message %d (%r): %s" % (i + 1, msg, p) for p in probs], i + 1, ref
    return [], len(msgs), ref


def prefix_job(args):
    """All sequences start + prefix + (rest over the alphabet)."""
    start, prefix, alphabet, rest = args
    res = dict(sequences=0, messages=0, problems=[], states=set(), ended=0)
    count = 0
    for tail in itertools.product(range(len(alphabet)), repeat=rest):
        msgs = list(start) + [alphabet[i] for i in prefix] + [alphabet[i] for i in tail]
        try:
            with env.quiet():
                probs, n, ref = sequence(msgs)
        except Exception:
            probs, n, ref = ["the session fails: " + short_tb()], 0, None
        res["sequences"] += 1
        res["messages"] += n
        if ref:
            res["states"].add(json.dumps([ref.values, ref.model.schedule.steps, ref.model.running], sort_keys=True, default=str))
            res["ended"] += not ref.model.running
        if probs:
            res["problems"].append((probs, msgs))
            if len(res["problems"]) > 1:
                break
        count += 1
        if count % 100 == 0:
            clean()
    clean()
    return res


def clean():
    import shutil
    shutil.rmtree("output", ignore_errors=True)
    for f in ("sequence.dat",):
        if os.path.exists(f):
            os.remove(f)


# ---- over a real web socket, and the shipped page ------------------------------------------------------------------

def wire(msgs):
    """The same session over a real connection: answers of the server (up to the last message)."""
    import asyncio
    import tornado.httpserver
    import tornado.testing
    import tornado.websocket

    async def go():
        app = make_app()
        sock, port = tornado.testing.bind_unused_port()
        server = tornado.httpserver.HTTPServer(app)
        server.add_sockets([sock])
        conn = await tornado.websocket.websocket_connect("ws://127.0.0.1:%d/ws" % port)
        first = json.loads(await asyncio.wait_for(conn.read_message(), 20))
        probs, ref = [], Reference()
        if first.get("type") != "model_params" or {k: v["value"] for k, v in first["params"].items()} != {o: v[1] for o, v in OFFERED.items()}:
            probs.append("offered parameters %r" % first)
        maybe = []
        for msg in msgs:
            want = ref.message(msg)
            maybe += [("viz_state", w[1]) for w in want if w[0] == "maybe"]
            await conn.write_message(json.dumps(msg))
            for w in want:
                while w[0] != "maybe":
                    got = json.loads(await asyncio.wait_for(conn.read_message(), 20))
                    got = (got.get("type"), got.get("data"))
                    if got == w:
                        break
                    if got not in maybe:
                        probs.append("message %r is answered by %r, should be %r" % (msg, got, w))
                        break
        if picture(app.model) != picture(ref.model):
            probs.append("the session's simulation differs from the reference after %r" % msgs)
        conn.close()
        server.stop()
        return probs
    os.chdir(env.new_dir("ws"))
    return asyncio.run(go())


def shipped():
    """The page that the repository offers (runViz), without its network: sessions on it."""
    import importlib
    mv = importlib.import_module("mesa.visualization.ModularVisualization")
    my = importlib.import_module("interactiveViz.myModularVisualization")
    import logic.sim as sim
    os.chdir(env.new_dir("viz"))
    for cls in (mv.ModularServer, my.MyModularServer):
        cls.launch = lambda self, *a, **kw: None
    import interactiveViz.runViz as viz
    app = viz.server
    probs, n = [], 0
    own = isinstance(app, my.MyModularServer)
    sent = []
    h = handler(app, sent, my.MySocketHandler if own else mv.SocketHandler)
    offered = {p: v for p, v in app.user_params.items() if v["param_type"] != "static_text"}
    values = {p: v["value"] for p, v in offered.items()}
    fixed = {p: v for p, v in app.model_kwargs.items() if p not in app.user_params}

    def check(what):
        want = sim.Simulation(**dict(fixed, **values))
        if picture(want) != picture(app.model):
            a, b = picture(app.model), picture(want)
            probs.append("%s: the simulation differs from that of %r in %r" % (what, values, [k for k in a if a[k] != b[k]]))
        return want
    check("start")
    tries = []
    for p, v in offered.items():
        ends = [v["min_value"], v["max_value"]] if v["param_type"] == "slider" else [v["value"] + 1] if v["param_type"] == "number" else v["choices"]
        for e in ends:
            if p == "cost_min" and e > values["cost_max"] or p == "cost_max" and e < values["cost_min"]:
                continue  # costs between reversed bounds: refused
            tries.append((p, e))
    for p, e in tries:
        old = values[p]
        for val in (e, old):
            values[p] = val
            h.on_message(json.dumps(put(p, val)))
            h.on_message(json.dumps(RESET))
            n += 2
            ref = check("%s=%r" % (p, val))
            if len(ref.schedule.agents) > 100:
                continue
            for _ in range(2):
                sent.clear()
                h.on_message(json.dumps(STEP))
                ref.step()
                n += 1
                if picture(ref) != picture(app.model):
                    probs.append("%s=%r: a step request does not advance the simulation by one round" % (p, val))
                shown = sent[0]["data"][0] if sent else None
                if shown != [ref.datacollector.model_vars["Pool count"][-1]]:
                    probs.append("the page shows %r pools, latest recorded %r" % (shown, ref.datacollector.model_vars["Pool count"][-1]))
            if probs:
                break
        if probs:
            break
    return probs, n, len(tries)


def main():
    rep = Report("C18", "model_checking", [
        "messages are handled one at a time, as the server does; several browsers are one sequence of messages",
        "values that the page does not offer (outside a slider's bounds) are not submitted; reversed cost bounds are refused and not judged",
        "whether a submitted parameter is answered at once is not judged (the page asks for the state)",
        "the page that is shipped uses Mesa's own session, where new values take effect at the next reset"])
    explore.preload()
    try:
        import interactiveViz.myModularVisualization  # noqa: F401
    except Exception:
        pass
    deep = env.THOROUGH
    jobs = []
    full = range(len(ALPHABET))
    for start in ([], [STEP, STEP], [STEP] * 5):
        for p in itertools.product(full, repeat=2):
            jobs.append((start, p, ALPHABET, (2 if deep else 1) if start else 2 if deep else 1))
    for p in itertools.product(range(len(CORE)), repeat=3):
        jobs.append(([], p, CORE, 5 if deep else 3))
    states = set()
    for r in explore.parallel(prefix_job, jobs):
        rep.add(sequences=r["sequences"], transitions=r["messages"], sequences_that_end=r["ended"])
        states |= r["states"]
        for probs, msgs in r["problems"]:
            rep.violation("%s\nmessages=%r" % ("; ".join(probs[:3])[:2500], msgs), dict(kind="sequence", messages=msgs))
        if len(rep.violations) > 3:
            break
    rep.add(states=len(states))
    wires = [ALPHABET + [STEP], [STEP] * 6 + [RESET, STEP], [put("k", 3), STEP, put("seed", 8), RESET, STEP, dict(type="hello"), STEP, STEP, STEP, STEP, STEP]]
    for msgs in wires:
        r = crash.forked(wire, msgs)
        rep.add(traces_validated_against_impl=1)
        if isinstance(r, dict):
            r = ["the connection fails: " + r["error"][-1500:]]
        if r:
            rep.violation("; ".join(r[:3]), dict(kind="wire", messages=msgs))
    r = crash.forked(shipped)
    if isinstance(r, dict):
        r = (["the shipped page fails: " + r["error"][-1500:]], 0, 0)
    rep.add(shipped_page_messages=r[1], shipped_page_values=r[2])
    for p in r[0][:2]:
        rep.violation(p, dict(kind="shipped"))
    rep.sample(dict(messages=[STEP, put("k", 3), STEP, RESET]))
    return rep.finish()


def replay(d):
    explore.preload()
    if d["kind"] == "sequence":
        with env.quiet():
            probs = sequence(d["messages"])[0]
    elif d["kind"] == "wire":
        r = crash.forked(wire, d["messages"])
        probs = r if isinstance(r, list) else [r["error"]]
    else:
        r = crash.forked(shipped)
        probs = r[0] if isinstance(r, list) else [r["error"]]
    print("\n".join(probs) or "not reproduced")
    return 1 if probs else 0
