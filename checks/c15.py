"""C15 output of consecutive, interrupted and simultaneous runs: all short histories of runs, all disk images a killed
run can leave, all lines at which an exception can end it, all interleavings of runs that start together."""
import collections
import csv
import io
import itertools
import json
import os
import re
import shutil

from mc import crash, env, explore, sched
from mc.report import Report, short_tb

SMALL = dict(n=2, k=1, a0=0.3, stake_distr_source="flat", cost_min=1e-3, cost_max=2e-3, max_iterations=3, seed=3,
             iterations_after_convergence=1, metrics=[1], generate_graphs=False, agent_activation_order="sequential")
KINDS = ("x", "auto", "y", "made", "batch", "batch-x")


def traced():
    return (os.path.join(env.REPO, ""),)


# ---- one run ------------------------------------------------------------------------------------------------------

def run(kind):
    """A run of this kind in the current directory; what it says about itself."""
    import logic.sim as sim
    import custom_batchrunner as cb
    if kind.startswith("batch"):
        params = dict(SMALL, k=[1, 2])
        params.pop("seed")
        params.pop("metrics")  # lists stand for several values
        results, path = cb.custom_batch_run(sim.Simulation, params, "x" if kind == "batch-x" else "batch-run", number_processes=1,
                                            iterations=1, max_steps=5, display_progress=False, initial_seed=3)
        name = os.path.basename(str(path))
        return dict(dir=name, serial=int(name.split("-")[0]), rows=["1", "2"], complete=True)
    ids = {"x": "x", "auto": "", "y": "y", "made": "x"}
    m = sim.Simulation(**dict(SMALL, execution_id=ids[kind]))
    if kind != "made":  # "made": constructed (e.g. shown in the browser) but never run
        m.run_model()
    return dict(dir=os.path.basename(str(m.directory)), serial=m.seq_id, rows=[str(m.seq_id)] if kind != "made" else [],
                complete=kind != "made")


def run_in(where, kind):
    def go():
        os.chdir(where)
        return run(kind)
    return crash.forked(go)


# ---- judging ------------------------------------------------------------------------------------------------------

def folders(image):
    return {p.split("/")[1] for p in image if p.startswith("output/") and (image[p] is None or p.count("/") > 1)}


def serial_of(name):
    m = re.match(r"(\d+)-", name)
    return int(m.group(1)) if m else 0


def in_folder(image, name):
    pre = "output/" + name + "/"
    return {p: v for p, v in image.items() if p.startswith(pre)}


def table(data):
    return list(csv.reader(io.StringIO(data.decode())))


def judge(before, after, r, earlier):
    """Problems with a run `r` that was started on the disk `before`; earlier: serials of the runs started before it."""
    if "error" in r:
        return ["the run fails: " + str(r["error"])[-1200:]]
    out = []
    old = folders(before)
    if r["dir"] in old:
        out.append("the run uses the folder %s, which existed already" % r["dir"])
    if r["dir"] not in folders(after):
        out.append("the run says that its folder is %s, folders are %r" % (r["dir"], sorted(folders(after))))
    new = folders(after) - old
    if new != {r["dir"]}:
        out.append("new folders %r, the run's own is %s" % (sorted(new), r["dir"]))
    if serial_of(r["dir"]) != r["serial"]:
        out.append("folder %s of the run with serial number %d" % (r["dir"], r["serial"]))
    top = max([serial_of(n) for n in old] + list(earlier) + [0])
    if r["serial"] <= top:
        out.append("serial number %d, earlier runs have got up to %d" % (r["serial"], top))
    for name in old:
        if in_folder(before, name) != in_folder(after, name):
            out.append("files in the folder %s of another run have changed" % name)
    return out


def tracker_problems(image, done, maybe=()):
    """done: ids of completed simulations; maybe: ids of interrupted ones (their row may be there or not)."""
    data = image.get("output/experiment-tracker.csv")
    if data is None:
        return ["no experiment tracker, completed runs: %r" % (done,)] if done else []
    t = table(data)
    out = []
    if not t or t[0][:1] != ["id"]:
        return ["the experiment tracker starts with %r" % (t[:1],)]
    if sum(r[:1] == ["id"] for r in t) != 1:
        out.append("%d headers in the experiment tracker" % sum(r[:1] == ["id"] for r in t))
    if any(len(r) != len(t[0]) for r in t):
        out.append("rows of different lengths in the experiment tracker: %r" % t)
    got = collections.Counter(r[0] for r in t[1:] if r[:1] != ["id"])
    want = collections.Counter(done)
    extra = got - want
    if want - got or extra - collections.Counter(maybe):
        out.append("the experiment tracker has rows %r, completed runs: %r%s" % (dict(got), dict(want), ", interrupted: %r" % (maybe,) if maybe else ""))
    return out


# ---- histories ----------------------------------------------------------------------------------------------------

def history_job(first):
    """All histories of runs that begin with `first`, as a tree of disk images."""
    res = dict(runs=0, histories=0, states=set(), problems=[])
    depth = 4 if env.THOROUGH else 3

    def go(image, hist, serials, done):
        for kind in (first if not hist else KINDS):
            where = env.new_dir("h")
            crash.put(where, image)
            r = run_in(where, kind)
            after = crash.tree(where)
            shutil.rmtree(where, ignore_errors=True)
            probs = judge(image, after, r, serials)
            h = hist + (kind,)
            if not probs:
                probs = tracker_problems(after, done + r["rows"])
            res["runs"] += 1
            res["states"].add(tuple(sorted(after)))
            if probs:
                res["problems"].append((probs, dict(kind="history", history=h)))
                continue
            if len(h) < depth:
                go(after, h, serials + [r["serial"]], done + r["rows"])
            else:
                res["histories"] += 1
    go({}, (), [], [])
    res["states"] = len(res["states"])
    return res


# ---- crashes ------------------------------------------------------------------------------------------------------

def prefixes(data):
    n = len(data)
    return sorted({0, 1, n // 2, n - 1} & set(range(n))) if n > 4 else range(n)


def torn(prev, image):
    """Images in which a file that has just grown holds only a part of its new content (files of one run and the
    sequence file; a row of the tracker is a single write of the operating system)."""
    for p, v in image.items():
        if v is None or p.endswith("experiment-tracker.csv"):
            continue
        old = prev.get(p)
        if old == v or p not in prev and not v:
            continue
        if any(w == v and q not in image for q, w in prev.items()):
            continue  # renamed, in one go
        base = old if old and v.startswith(old) else b""
        for n in prefixes(v[len(base):]):
            yield dict(image, **{p: base + v[len(base):len(base) + n]}), "%s torn after %d of %d bytes" % (p, len(base) + n, len(v))


def base_image(pre):
    where = env.new_dir("b")
    serials, rows = [], []
    for kind in pre:
        r = run_in(where, kind)
        if "error" in r:
            return None, [], []
        serials.append(r["serial"])
        rows += r["rows"]
    image = crash.tree(where)
    shutil.rmtree(where, ignore_errors=True)
    return image, serials, rows


def key_of(image):
    """What later runs can see of an image: names of files, and the content of those they read."""
    return tuple(sorted((p, v if p.count("/") < 2 else v is None) for p, v in image.items()))


def follow(image, kinds, serials, done, maybe, what):
    """The runs `kinds`, one after the other, on a disk that an interrupted run has left."""
    probs = []
    n = 0
    for kind in kinds:
        where = env.new_dir("f")
        crash.put(where, image)
        r = run_in(where, kind)
        after = crash.tree(where)
        shutil.rmtree(where, ignore_errors=True)
        n += 1
        probs = judge(image, after, r, serials)
        if not probs:
            done = done + r["rows"]
            probs = tracker_problems(after, done, maybe)
        if probs:
            return n, ["%s, then a run of kind %r: %s" % (what, kind, p) for p in probs]
        serials = serials + [r["serial"]]
        image = after
    return n, []


def crash_images(kind, start):
    """(where, image) for every state of the disk during a run of this kind, and torn versions of them."""
    r, imgs = crash.images(lambda: run(kind), start, traced())
    if "error" in r:
        return r, []
    out, prev, seen = [], start, set()
    for at, image in imgs:
        for im, what in [(image, "killed at " + at)] + [(i, "killed at %s, %s" % (at, w)) for i, w in torn(prev, image)]:
            k = repr(sorted(im.items()))
            if k not in seen:
                seen.add(k)
                out.append((what, im))
        prev = image
    return r, out


def crash_job(args):
    pre, kind, followers, twice = args
    res = dict(images=0, distinct=0, runs=0, problems=[], second=0, lines=0)
    start, serials, rows = base_image(pre)
    if start is None:
        res["problems"].append((["a run of %r fails" % (pre,)], dict(kind="crash", job=args)))
        return res
    r, imgs = crash_images(kind, start)
    if not imgs:
        res["problems"].append((["the run fails: %s" % r.get("error")], dict(kind="crash", job=args)))
        return res
    res["lines"] = r["lines"]
    maybe = ["1", "2"] if kind.startswith("batch") else [str(max(serials + [0]) + 1)]
    seen = set()
    for what, image in imgs:
        res["images"] += 1
        k = key_of(image)
        new = k not in seen
        seen.add(k)
        if new or env.THOROUGH:
            for fol in followers:
                n, probs = follow(image, fol, serials, rows, maybe, what)
                res["runs"] += n
                if probs:
                    res["problems"].append((probs, dict(kind="crash", job=args)))
        if twice and new and not res["problems"]:
            r2, imgs2 = crash_images("x", image)
            seen2 = set()
            maybe2 = maybe + [str(i) for i in range(1, 6)]
            for what2, image2 in imgs2:
                k2 = key_of(image2)
                if k2 in seen2:
                    continue
                seen2.add(k2)
                n, probs = follow(image2, ("x",), serials, rows, maybe2, what + ", next run " + what2)
                res["second"] += 1
                res["runs"] += n
                if probs:
                    res["problems"].append((probs, dict(kind="crash", job=args)))
        if len(res["problems"]) > 2:
            break
    res["distinct"] = len(seen)
    return res


def interrupt_job(args):
    kind, part, parts = args
    res = dict(points=0, runs=0, problems=[], distinct=0)
    start, serials, rows = base_image(("x",))
    if start is None:
        return dict(res, problems=[(["a run fails"], dict(kind="interrupt", job=args))])
    pts = crash.line_points(lambda: run(kind), start, traced())
    if "error" in pts:
        return dict(res, problems=[(["the run fails: %s" % pts["error"]], dict(kind="interrupt", job=args))])
    maybe = ["1", "2"] if kind.startswith("batch") else [str(max(serials) + 1)]
    seen = set()
    for at, number in sorted(pts.items(), key=lambda x: x[1])[part::parts]:
        for exc in (KeyboardInterrupt, OSError):
            r, image = crash.interrupted_at(lambda: run(kind), start, traced(), number, exc)
            res["points"] += 1
            k = key_of(image)
            if k in seen:
                continue
            seen.add(k)
            for fol in (("x",), ("batch-x",)) if exc is KeyboardInterrupt else (("x",),):
                n, probs = follow(image, fol, serials, rows, maybe, "%s at %s" % (exc.__name__, at))
                res["runs"] += n
                if probs:
                    res["problems"].append((probs, dict(kind="interrupt", job=args)))
        if len(res["problems"]) > 2:
            break
    res["distinct"] = len(seen)
    return res


# ---- runs that start together -------------------------------------------------------------------------------------

def shared(path):
    return path.startswith("sequence") or path == "output" or path.startswith("output/") and path.count("/") == 1


def world(pre):
    image, serials, rows = base_image(pre)
    image = image or {}

    def setup(where):
        crash.put(where, image)

    def check(where, results):
        probs = []
        after = crash.tree(where)
        for r in results:
            if "error" in r:
                probs.append("a run that starts together with others fails: %s" % str(r["error"])[-900:])
        if probs:
            return probs, "failed"
        vals = [r["value"] for r in results]
        ser = [v["serial"] for v in vals]
        if len(set(ser)) != len(ser):
            probs.append("runs that started together have serial numbers %r" % ser)
        if min(ser) <= max(serials + [0]):
            probs.append("serial numbers %r, earlier runs have got up to %d" % (ser, max(serials)))
        if len({v["dir"] for v in vals}) != len(vals) or folders(after) != folders(image) | {v["dir"] for v in vals}:
            probs.append("folders %r of runs %r" % (sorted(folders(after)), [v["dir"] for v in vals]))
        for name in folders(image):
            if in_folder(image, name) != in_folder(after, name):
                probs.append("files in the folder %s of another run have changed" % name)
        probs += tracker_problems(after, rows + [x for v in vals for x in v["rows"]])
        return probs, "serials " + ",".join(map(str, ser))
    return setup, check


def together(args):
    pre, kinds, bound, prefix, start = args
    setup, check = world(pre)
    r = sched.subtree(prefix, start, setup, [(run, (k,)) for k in kinds], shared, traced(), check, bound, limit=20000 if env.THOROUGH else 2000)
    return args, r


def together_jobs():
    deep = env.THOROUGH
    combos = [((), ("made", "made"), 3 if deep else 2), (("x",), ("made", "x"), 2), ((), ("x", "x"), 2 if deep else 1),
              (("x",), ("batch", "made"), 2 if deep else 1), (("x",), ("made", "made", "made"), 2 if deep else 1)]
    if deep:
        combos += [((), ("auto", "auto"), 2), ((), ("batch", "batch-x"), 2), (("x", "made"), ("x", "made", "batch"), 1)]
    jobs, roots = [], []
    for pre, kinds, bound in combos:
        setup, check = world(pre)
        decisions, results, where, points = sched.run_schedule([], setup, [(run, (k,)) for k in kinds], shared, traced())
        try:
            probs, outcome = check(where, results)
        except Exception:
            probs = ["the files cannot be read: " + short_tb()]
        shutil.rmtree(where, ignore_errors=True)
        roots.append((probs, dict(kind="together", pre=pre, kinds=kinds, choices=[d[2] for d in decisions])))
        for p in sched.successors(decisions, 0, bound):
            jobs.append((pre, kinds, bound, p, len(p)))
    return sorted(jobs, key=lambda j: (-j[2], j[4])), roots  # those with most below them first


def lost_sequence():
    """Other ways to arrive at a folder that exists: nothing in it may change."""
    import logic.sim as sim
    out, n = [], 0

    def again(kw):
        m = sim.Simulation(**dict(SMALL, execution_id="x", **kw))
        m.run_model()
        return os.path.basename(str(m.directory))
    for lose in (True, False):
        image, serials, rows = base_image(("x", "y"))
        if image is None:
            return n, [["a run fails"]]
        if lose:
            image = {p: v for p, v in image.items() if not p.startswith("sequence")}
        for kw in ({}, {"seq_id": 1}, {"seq_id": 2}):
            where = env.new_dir("l")
            crash.put(where, image)

            def go():
                os.chdir(where)
                return again(kw)
            r = crash.forked(go)
            after = crash.tree(where)
            n += 1
            for name in folders(image):
                if in_folder(image, name) != in_folder(after, name):
                    out.append(["files in the folder %s of another run have changed (sequence file %s, arguments %r)"
                                % (name, "lost" if lose else "kept", kw)])
            shutil.rmtree(where, ignore_errors=True)
    return n, out


def main():
    rep = Report("C15", "model_checking", [
        "crashes are process deaths: what the process has written is on the disk, in order; in addition files of the run and the sequence file may be torn",
        "a row of the experiment tracker is written by one write of the operating system, so it is never torn",
        "an interrupted run may or may not have its row in the tracker",
        "simulations of a batch are numbered within the batch's folder; the batch as a whole has a serial number",
        "runs that start together are interleaved at their operations on the sequence file and the output folder, with at most %d preemptions" % 2])
    explore.preload()
    import custom_batchrunner  # noqa: F401
    env.scratch_root()
    for r in explore.parallel(history_job, [(k,) for k in KINDS]):
        rep.add(runs=r["runs"], histories=r["histories"], states=r["states"])
        for probs, rp in r["problems"][:2]:
            rep.violation("%s\nhistory=%r" % ("; ".join(probs[:3]), rp["history"]), rp)
    deep = env.THOROUGH
    fol = (("x",), ("batch-x", "x"))
    jobs = [((), "x", fol, True), (("x",), "x", fol + (("auto", "y"),), False), (("x",), "batch", fol, False), (("made",), "made", fol, False),
            (("batch",), "auto", fol, False)]
    if deep:
        jobs += [((), "batch", fol, True), (("x",), "y", fol, True), (("x", "batch"), "batch-x", fol, True)]
    for r in explore.parallel(crash_job, jobs):
        rep.add(crash_images=r["images"], distinct_images=r["distinct"], second_crash_images=r["second"], runs=r["runs"], lines_stepped=r["lines"])
        for probs, rp in r["problems"][:2]:
            rep.violation("; ".join(probs[:3]), rp)
    if not rep.violations:
        for r in explore.parallel(interrupt_job, [(k, i, 8) for k in ("x", "batch") for i in range(8)]):
            rep.add(interruption_points=r["points"], runs=r["runs"], distinct_interrupted_images=r["distinct"])
            for probs, rp in r["problems"][:2]:
                rep.violation("; ".join(probs[:3]), rp)
    n, bad = lost_sequence()
    rep.add(runs=n)
    for probs in bad[:2]:
        rep.violation(probs[0], dict(kind="lost"))
    tj, roots = together_jobs()
    for probs, rp in roots:
        rep.add(schedules=1)
        if probs:
            rep.violation("%s\nkinds=%r" % ("; ".join(probs[:3]), rp["kinds"]), rp)
    if not rep.violations:
        for args, r in explore.parallel(together, tj):
            rep.add(schedules=r["schedules"], schedule_points=r["points"], capped_schedule_trees=r["capped"])
            rep.add(schedule_outcomes=r["outcomes"])
            for probs, choices, points in r["problems"]:
                rep.violation("%s\nkinds=%r schedule=%r" % ("; ".join(probs[:3]), args[1], points),
                              dict(kind="together", pre=args[0], kinds=args[1], choices=choices))
            if len(rep.violations) > 5:
                break
    rep.add(transitions=rep.coverage.get("runs", 0) + rep.coverage.get("schedule_points", 0))
    rep.sample(dict(history=["x", "batch", "made"], crash="every line of the third run"))
    return rep.finish()


def replay(d):
    explore.preload()
    if d["kind"] == "history":
        global KINDS
        probs = []
        image, serials, done = {}, [], []
        for kind in d["history"]:
            where = env.new_dir("h")
            crash.put(where, image)
            r = run_in(where, kind)
            after = crash.tree(where)
            probs += judge(image, after, r, serials)
            if "error" not in r:
                serials.append(r["serial"])
                done += r["rows"]
            probs += tracker_problems(after, done)
            image = after
    elif d["kind"] == "together":
        setup, check = world(tuple(d["pre"]))
        _, results, where, _ = sched.run_schedule(d["choices"], setup, [(run, (k,)) for k in d["kinds"]], shared, traced())
        probs = check(where, results)[0]
    elif d["kind"] == "lost":
        probs = [x[0] for x in lost_sequence()[1]]
    else:
        job = d["job"]
        if d["kind"] == "crash":
            job = (tuple(job[0]), job[1], tuple(tuple(x) for x in job[2]), job[3])
        r = (crash_job if d["kind"] == "crash" else interrupt_job)(job)
        probs = [p for x in r["problems"] for p in x[0]]
    print("\n".join(probs) or "not reproduced")
    return 1 if probs else 0
