"""C23 the charts of the interactive page: the served page's own scripts run in node (with stand-ins for the browser), joined
to the real socket handler and server; every sequence of user actions up to a bound, and after each the charts against the
records of simulations that are built and stepped directly."""
import html.parser
import importlib
import itertools
import json
import os
import shutil
import subprocess

from checks import c18
from mc import crash, env, explore
from mc.report import Report, short_tb

SMALL = dict(n=("slider", 4, 1, 9), k=("slider", 2, 1, 5), seed=("number", 5))
FIXED = dict(c18.FIXED, max_iterations=4, a0=0.3, cost_min=1e-3, metrics=[1, 21, 27])
CLICKS = [["click", "step"], ["click", "play-pause"], ["timer"], ["click", "reset"]]
ALPHABET = CLICKS + [["set", "k", 1], ["set", "n", 7], ["set", "seed", 8]]
NODE = os.path.join(env.VERIF, "mc", "page.js")


class Html(html.parser.HTMLParser):
    """Scripts (source, text) and element ids of a page, in order."""
    def __init__(self):
        super().__init__()
        self.scripts, self.ids, self.open = [], [], False

    def handle_starttag(self, tag, attrs):
        a = dict(attrs)
        if "id" in a:
            self.ids.append(a["id"])
        if tag == "script":
            self.open = "src" not in a
            self.scripts.append([a.get("src"), ""])

    def handle_endtag(self, tag):
        self.open = self.open and tag != "script"

    def handle_data(self, data):
        if self.open:
            self.scripts[-1][1] += data


def shipped_server():
    """The server of the repository's page (not launched), in a scratch folder with the files that it serves."""
    mv = importlib.import_module("mesa.visualization.ModularVisualization")
    my = importlib.import_module("interactiveViz.myModularVisualization")
    for cls in (mv.ModularServer, my.MyModularServer):
        cls.launch = lambda self, *a, **kw: None
    here = env.new_dir("page")
    for f in os.listdir(os.path.join(env.REPO, "interactiveViz")):
        if f.endswith((".js", ".css")):
            shutil.copy(os.path.join(env.REPO, "interactiveViz", f), here)
    os.chdir(here)
    import interactiveViz.runViz as viz
    return viz.server


def fetch():
    """The page as it is served: scripts with their texts, ids, and what could not be fetched."""
    import asyncio
    import tornado.httpclient
    import tornado.httpserver
    import tornado.testing
    app = shipped_server()

    async def go():
        sock, port = tornado.testing.bind_unused_port()
        server = tornado.httpserver.HTTPServer(app)
        server.add_sockets([sock])
        client = tornado.httpclient.AsyncHTTPClient()
        get = lambda path: client.fetch("http://127.0.0.1:%d%s" % (port, path), raise_error=False)
        page = Html()
        answer = await get("/")
        if answer.code != 200:
            return dict(scripts=[], ids=[], problems=["the page is answered with %d" % answer.code])
        page.feed(answer.body.decode())
        probs = []
        for s in page.scripts:
            if s[0]:
                r = await get(s[0])
                if r.code != 200:
                    probs.append("%s is answered with %d" % (s[0], r.code))
                s[1] = r.body.decode("utf-8", "replace") if r.code == 200 else None
                if s[1] and "/static/" in s[0] and not s[0].endswith("runcontrol.js"):
                    s[1] = ""  # libraries are not run
        server.stop()
        return dict(scripts=page.scripts, ids=page.ids, problems=probs)
    return asyncio.run(go())


class Node:
    def __init__(self):
        self.p = subprocess.Popen(["node", NODE], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)

    def ask(self, **cmd):
        self.p.stdin.write(json.dumps(cmd) + "\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise RuntimeError("node has ended")
        return json.loads(line)

    def close(self):
        self.p.stdin.close()
        self.p.wait()


class Reference:
    """The simulation that the page's requests amount to, and what its charts have to show."""
    def __init__(self, values, fixed, cls=None):
        import logic.sim as sim
        self.values, self.fixed, self.model, self.history, self.cls = dict(values), fixed, None, [], cls or sim.Simulation

    def fresh(self):
        self.model, self.history = self.cls(**dict(self.fixed, **self.values)), []

    def record(self):
        m = self.model
        owned = {}
        for p in m.pools.values():
            owned[p.owner] = owned.get(p.owner, 0) + p.stake
        stakes = {a.unique_id: a.stake for a in m.schedule.agents}
        return dict(count=len(m.pools), owned=owned, n=m.n,
                    bubbles=sorted([stakes[p.owner], p.stake, 3 + 20 * p.margin, p.id, p.owner] for p in m.pools.values() if stakes[p.owner] > 0))

    def request(self, msg):
        if msg["type"] == "reset":
            self.fresh()
        elif msg["type"] == "get_step" and self.model.running:
            now = self.record()
            self.model.step()
            self.history.append(now)
        elif msg["type"] == "submit_params" and msg["param"] in self.values:
            self.values[msg["param"]] = msg["value"]


def close(a, b):
    return abs(a - b) <= 1e-9 * max(1, abs(a), abs(b))


def compare(charts, history):
    """Problems of the charts, given the rounds shown since the last reset."""
    if len(charts) != 3:
        return ["the page shows %d charts, should be 3" % len(charts)]
    out = []
    bubbles = [c for c in charts if c["type"] == "bubble"]
    lines = [c for c in charts if c["type"] == "line"]
    if len(bubbles) != 1 or len(lines) != 2:
        return ["the page shows charts of types %r" % [c["type"] for c in charts]]
    m = len(history)
    for c in lines:
        if c["labels"][:m] != list(range(m)) or c["labels"] != list(range(len(c["labels"]))):
            out.append("rounds %r at the axis, should start with %r" % (c["labels"], list(range(m))))
        if any(len(d[1]) != m for d in c["datasets"]):
            out.append("%r values after %d shown rounds" % (sorted({len(d[1]) for d in c["datasets"]}), m))
    count, stakes = lines
    got = {i: d for i, d in count["datasets"]}
    want = {0: [h["count"] for h in history]} if m else {}
    if got != want:
        out.append("pool counts %r, should be %r" % (got, want))
    got = {i: d for i, d in stakes["datasets"]}
    n = history[0]["n"] if m else 0
    if sorted(got) != list(range(n)):
        out.append("stakes of agents %r, should be of %d agents" % (sorted(got), n))
    elif not out:
        for i in got:
            want = [h["owned"].get(i, 0) for h in history]
            if not all(close(a, b) for a, b in zip(got[i], want)):
                out.append("stake of the pools of agent %d %r, should be %r" % (i, got[i], want))
    data = [p for d in bubbles[0]["datasets"] for p in d[1]]
    got = sorted([p["x"], p["y"], p["r"], p["pool_id"], p["owner_id"]] for p in data)
    want = history[-1]["bubbles"] if m else []
    if len(got) != len(want) or not all(close(a, b) for g, w in zip(got, want) for a, b in zip(g, w)):
        out.append("bubbles %r, should be %r" % (got, want))
    return out


class Session:
    def __init__(self, node, page, app, values, fixed, cls=None):
        mv = importlib.import_module("mesa.visualization.ModularVisualization")
        my = importlib.import_module("interactiveViz.myModularVisualization")
        self.node, self.out = node, []
        self.ref = Reference(values, fixed, cls)
        self.h = c18.handler(app, self.out, my.MySocketHandler if isinstance(app, my.MyModularServer) else mv.SocketHandler)
        self.last = node.ask(cmd="load", scripts=page["scripts"], ids=page["ids"])
        self.h.application.verbose = False
        if self.last["socket"]:
            self.deliver(self.last)
            self.message(dict(type="model_params", params=app.user_params))

    def message(self, m):
        self.last = self.node.ask(cmd="message", data=json.dumps(m, default=float))
        self.deliver(self.last)

    def deliver(self, answer):
        """What the page sends is handled at once, and the answers reach it before the next action."""
        for m in answer["sent"]:
            del self.out[:]
            self.ref.request(m)
            self.h.on_message(json.dumps(m))
            for a in list(self.out):
                self.message(a)

    def act(self, action):
        cmd = dict(zip(("cmd", "id") if action[0] == "click" else ("cmd", "param", "value"), action))
        self.last = self.node.ask(**cmd)
        self.deliver(self.last)

    def problems(self):
        if self.last["error"]:
            return ["a script of the page fails: " + self.last["error"]]
        if not self.last["socket"]:
            return ["the page does not connect"]
        if self.ref.model is None:
            return ["the page does not ask for the first state"]
        if c18.picture(self.h.application.model) != c18.picture(self.ref.model):
            return ["the session's simulation is not the one that was asked for"]
        return compare(self.last["charts"], self.ref.history)


_cache = {}


def small_app(elements, cls=None, n=4):
    import logic.sim as sim
    from mesa.visualization.ModularVisualization import ModularServer
    from mesa.visualization.UserParam import UserSettableParameter
    params = dict(FIXED)
    for o, v in dict(SMALL, n=("slider", n, 1, max(n, 9))).items():
        params[o] = UserSettableParameter(v[0], o, v[1], *([v[2], v[3], 1] if v[0] == "slider" else []))
    return ModularServer(cls or sim.Simulation, elements, "test", params)


def sequence_job(args):
    page, prefix, alphabet, rest = args
    if "node" not in _cache:
        with env.quiet():
            _cache["server"] = shipped_server()
        _cache["node"] = Node()
    res = dict(sequences=0, transitions=0, problems=[], states=set(), rounds=0)
    values = {o: v[1] for o, v in SMALL.items()}
    for tail in itertools.product(alphabet, repeat=rest):
        actions = [list(a) for a in prefix + tail]
        i = 0
        try:
            with env.quiet():
                s = Session(_cache["node"], page, small_app(_cache["server"].visualization_elements), values, FIXED)
                probs = s.problems()
                for i, a in enumerate(actions):
                    if probs:
                        break
                    s.act(a)
                    probs = ["after action %d (%r): %s" % (i + 1, a, p) for p in s.problems()]
                    res["transitions"] += 1
        except Exception:
            probs = ["the session fails at action %d: %s" % (i + 1, short_tb())]
        res["sequences"] += 1
        if probs:
            res["problems"].append((probs[:3], actions))
            break
        res["rounds"] = max(res["rounds"], len(s.ref.history))
        res["states"].add(json.dumps([s.ref.values, len(s.ref.history), s.last["timers"], s.last["tick"]], default=str))
        if res["sequences"] % 100 == 0:
            c18.clean()
    c18.clean()
    return res


# pool sets: (owner, stake, margin) each
SETS = [[], [(0, 0.3, 0.0)], [(3, 1e-4, 1.0), (0, 0.5, 0.013)], [(1, 1e-7, 0.5), (1, 1e-7, 0.5), (2, 0.25, 0.049)], [(2, 0.2, 0.3), (0, 0.1, 0.0), (3, 0.4, 1.0), (1, 0.3, 0.7)]]


def placed(script):
    """A simulation whose pools are those of the script, round by round, instead of what agents do."""
    import logic.sim as sim
    from logic.pool import Pool

    class Placed(sim.Simulation):
        def set_pools(self):
            self.pools.clear()
            for owner, stake, margin in script[min(self.schedule.steps, len(script) - 1)]:
                q = Pool(pool_id=len(self.pools) + 2 + self.schedule.steps, cost=0.01, pledge=min(stake, 1e-3), owner=owner % self.n,
                         reward_scheme=self.reward_scheme, margin=margin)
                q.stake = stake
                self.pools[q.id] = q

        def __init__(self, **kw):
            super().__init__(**kw)
            self.set_pools()

        def step(self):
            self.datacollector.collect(self)
            self.schedule.steps += 1
            self.running = self.schedule.steps <= len(script)
            self.set_pools()
    return Placed


def placed_job(args):
    """The page shows a given history of pool sets: one click per round, then a reset and two more."""
    page, script, n = args
    if "node" not in _cache:
        with env.quiet():
            _cache["server"] = shipped_server()
        _cache["node"] = Node()
    values = dict({o: v[1] for o, v in SMALL.items()}, n=n)
    probs, done = [], 0
    try:
        with env.quiet():
            cls = placed(script)
            app = small_app(_cache["server"].visualization_elements, cls, n)
            s = Session(_cache["node"], page, app, values, FIXED, cls)
            for a in [["click", "step"]] * len(script) + [["click", "reset"]] + [["click", "step"]] * min(2, len(script)):
                s.act(a)
                done += 1
                if len(script) < 10 or done % 50 == 0 or done >= len(script):
                    probs = ["after action %d (%r): %s" % (done, a, p) for p in s.problems()]
                if probs:
                    break
    except Exception:
        probs = ["the session fails at action %d: %s" % (done + 1, short_tb())]
    c18.clean()
    return done, [p[:800] for p in probs[:2]], (script if len(script) < 10 else "long"), n


def placed_scripts(deep):
    for length in (3, 4) if deep else (3,):
        for sets in itertools.product(SETS, repeat=length):
            yield list(sets), 4
    many = [(i, (i % 7 + 1) / 4000, i % 11 / 10) for i in range(1000)]
    yield [many, many[::-1], many[::3], [], many[500:]], 1000
    yield [many[:120], SETS[3], many[:101]], 30
    yield [SETS[i % 5] for i in range(1100 if not deep else 4000)], 4


def shipped(page, actions):
    """The page with the parameters that it ships."""
    app = shipped_server()
    offered = {p: v["value"] for p, v in app.user_params.items() if v["param_type"] != "static_text"}
    fixed = {p: v for p, v in app.model_kwargs.items() if p not in app.user_params}
    node = Node()
    s = Session(node, page, app, offered, fixed)
    probs = s.problems()
    for i, a in enumerate(actions):
        if probs:
            break
        s.act(a)
        probs = ["after action %d (%r): %s" % (i + 1, a, p) for p in s.problems()]
    if not probs and not any(len(h["bubbles"]) for h in s.ref.history):
        probs = []
    node.close()
    return dict(problems=probs, rounds=len(s.ref.history), n=s.ref.model.n if s.ref.model else 0)


SHIPPED = [["click", "step"]] * 4 + [["click", "play-pause"], ["timer"], ["timer"], ["click", "reset"], ["timer"], ["click", "play-pause"], ["timer"],
                                     ["set", "n", 40], ["set", "k", 4], ["click", "reset"], ["click", "step"], ["click", "step"], ["click", "step"]]


def main():
    rep = Report("C23", "model_checking", [
        "the browser (elements, timers, sliders, web socket, drawing library) is a stand-in: what is compared is the content that the charts had when they were last updated",
        "answers of the server reach the page before the next action; answers that cross a reset on a slow connection are Mesa's part",
        "the page is opened as its files are served, with the folder interactiveViz as working directory",
        "titles, colours and tooltips are not judged; pools whose owner has no stake are not drawn"])
    explore.preload()
    page = crash.forked(fetch)
    if "error" in page:
        rep.violation("the page cannot be served: " + page["error"][-1500:], dict(kind="page"))
        return rep.finish()
    for p in page["problems"][:2]:
        rep.violation(p, dict(kind="page"))
    rep.add(scripts=len(page["scripts"]))
    r = crash.forked(shipped, page, SHIPPED)
    if "error" in r:
        r = dict(problems=["the shipped page fails: " + r["error"][-1500:]], rounds=0, n=0)
    rep.add(transitions=len(SHIPPED), traces_validated_against_impl=1)
    for p in r["problems"][:2]:
        rep.violation(p, dict(kind="shipped", actions=SHIPPED))
    deep = env.THOROUGH
    jobs = [(page, p, ALPHABET, 4 if deep else 2) for p in itertools.product(ALPHABET, repeat=2)]
    jobs += [(page, p, CLICKS, 5 if deep else 3) for p in itertools.product(CLICKS, repeat=3)]
    jobs += [(page, tuple([["click", "step"]] * 5 + [["click", "play-pause"]] * w + list(p)), CLICKS, 2 if deep else 1)
             for w in (0, 1) for p in itertools.product(CLICKS, repeat=2)]
    states, rounds = set(), 0
    if not rep.violations:
        for r in explore.parallel(sequence_job, jobs):
            rep.add(sequences=r["sequences"], transitions=r["transitions"])
            states |= r["states"]
            rounds = max(rounds, r["rounds"])
            for probs, actions in r["problems"]:
                rep.violation("; ".join(probs)[:2500], dict(kind="sequence", actions=actions))
            if len(rep.violations) > 3:
                break
    if not rep.violations:
        for done, probs, script, n in explore.parallel(placed_job, [(page, sc, n) for sc, n in placed_scripts(deep)][::-1]):
            rep.add(placed_histories=1, transitions=done)
            rounds = max(rounds, done - 3)
            if probs and len(rep.violations) < 4:
                rep.violation("%s\npools (owner, stake, margin) by round: %s, %d agents" % ("; ".join(probs)[:2500], json.dumps(script)[:1500], n),
                              dict(kind="placed", script=script, n=n))
    rep.add(states=len(states), longest_history=rounds)
    rep.sample(dict(actions=SHIPPED))
    return rep.finish()


def replay(d):
    explore.preload()
    page = crash.forked(fetch)
    if "error" in page:
        probs = [page["error"]]
    elif d["kind"] == "page":
        probs = page["problems"]
    elif d["kind"] == "shipped":
        r = crash.forked(shipped, page, d["actions"])
        probs = r.get("problems") or ([r["error"]] if "error" in r else [])
    elif d["kind"] == "placed":
        script = d["script"] if d["script"] != "long" else next(sc for sc, n in placed_scripts(False) if len(sc) > 10)
        probs = placed_job((page, script, d["n"]))[1]
    else:
        probs = [q for p, _ in sequence_job((page, tuple(d["actions"]), CLICKS, 0))["problems"] for q in p]
    print("\n".join(probs) or "not reproduced")
    return 1 if probs else 0
