"""Stateless exploration of interleavings of real processes that share files.

Every worker is a forked process that runs the real code. It stops before each operation on a shared path (a Python
audit event: open, mkdir, rename, ...) and at the first line executed after one, and goes on when the controller says
so; so exactly one worker runs at a time and a schedule is the list of the controller's choices. All schedules with at
most `bound` preemptions are executed from scratch. Blocking file locks are turned into attempts that yield: a worker
whose attempt fails is not enabled until another one has moved."""
import base64
import json
import os
import pickle
import select
import shutil
import sys

from mc import env
from mc.report import short_tb

EVENTS = ("open", "os.mkdir", "os.rename", "os.remove", "os.rmdir", "os.truncate", "os.link", "os.symlink", "os.listdir", "os.scandir")
TIMEOUT = 30


class _Worker:
    def __init__(self, fn, args, where, shared, traced):
        self.up_r, up_w = os.pipe()
        down_r, self.down_w = os.pipe()
        sys.stdout.flush()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(self.up_r)
            os.close(self.down_w)
            _work(fn, args, where, shared, traced, up_w, down_r)
        os.close(up_w)
        os.close(down_r)
        self.buf = b""
        self.at = None
        self.done = False
        self.result = None
        self.blocked_at = -1

    def wait(self):
        """Until the worker stops at its next point."""
        while b"\n" not in self.buf:
            if not select.select([self.up_r], [], [], TIMEOUT)[0]:
                os.kill(self.pid, 9)
                self.done, self.result = True, {"error": "no progress for %d s at %r" % (TIMEOUT, self.at)}
                return
            data = os.read(self.up_r, 65536)
            if not data:
                self.done, self.result = True, {"error": "worker process died at %r" % (self.at,)}
                return
            self.buf += data
        line, self.buf = self.buf.split(b"\n", 1)
        msg = json.loads(line)
        if "done" in msg:
            self.done, self.result = True, msg["done"]
            if "pickle" in self.result:
                self.result = {"value": pickle.loads(base64.b64decode(self.result["pickle"]))}
        else:
            self.at = msg["at"]
        return msg

    def go(self):
        os.write(self.down_w, b"g")

    def end(self):
        for fd in (self.up_r, self.down_w):
            os.close(fd)
        if not self.done:
            try:
                os.kill(self.pid, 9)
            except ProcessLookupError:
                pass
        os.waitpid(self.pid, 0)


def _work(fn, args, where, shared, traced, up, down):
    try:
        os.chdir(where)
        armed = [False]
        pending = [False]

        def say(msg):
            os.write(up, json.dumps(msg, default=str).encode() + b"\n")

        def point(what, blocked=False):
            say({"at": what, "blocked": blocked})
            if os.read(down, 1) != b"g":
                os._exit(3)

        def is_shared(p):
            try:
                return isinstance(p, (str, bytes, os.PathLike)) and shared(os.path.relpath(os.path.abspath(os.fsdecode(p)), where))
            except ValueError:
                return False

        def hook(event, a):
            if not armed[0] or event not in EVENTS:
                return
            if a and (is_shared(a[0]) or event in ("os.rename", "os.link") and is_shared(a[1])):
                armed[0] = False
                try:
                    point("%s %s" % (event, a[0]))
                finally:
                    armed[0] = True
                pending[0] = True
        sys.addaudithook(hook)

        def tracer(frame, event, arg):
            if not frame.f_code.co_filename.startswith(traced):
                return None
            if event == "line" and pending[0] and armed[0]:
                pending[0] = False
                armed[0] = False
                try:
                    point("line %s:%d" % (os.path.basename(frame.f_code.co_filename), frame.f_lineno))
                finally:
                    armed[0] = True
                    pending[0] = frame_open_files(frame)
            return tracer

        import fcntl
        real = fcntl.flock

        def flock(fd, op):
            if op & fcntl.LOCK_UN or op & fcntl.LOCK_NB:
                return real(fd, op)
            armed[0] = False
            point("lock")
            while True:
                try:
                    real(fd, op | fcntl.LOCK_NB)
                    break
                except BlockingIOError:
                    point("lock", blocked=True)
            armed[0] = True
            pending[0] = True
        fcntl.flock = flock

        realf = fcntl.lockf

        def lockf(fd, op, *a):
            if op & fcntl.LOCK_UN or op & fcntl.LOCK_NB:
                return realf(fd, op, *a)
            armed[0] = False
            point("lock")
            while True:
                try:
                    realf(fd, op | fcntl.LOCK_NB, *a)
                    break
                except (BlockingIOError, PermissionError):
                    point("lock", blocked=True)
            armed[0] = True
            pending[0] = True
        fcntl.lockf = lockf

        def frame_open_files(frame):
            # as long as a shared file is open here, its buffer may be written at any line
            f = frame
            while f is not None and f.f_code.co_filename.startswith(traced):
                if any(hasattr(v, "fileno") and hasattr(v, "closed") and not v.closed and is_shared(getattr(v, "name", None)) for v in list(f.f_locals.values())):
                    return True
                f = f.f_back
            return False

        point("start")
        armed[0] = True
        sys.settrace(tracer)
        try:
            with env.quiet():
                out = {"pickle": base64.b64encode(pickle.dumps(fn(*args))).decode()}
        except BaseException:
            out = {"error": short_tb()}
        finally:
            sys.settrace(None)
            armed[0] = False
        say({"done": out})
    except BaseException:
        try:
            os.write(up, json.dumps({"done": {"error": short_tb()}}).encode() + b"\n")
        except OSError:
            pass
    finally:
        os._exit(0)


def run_schedule(prefix, setup, procs, shared, traced):
    """One execution: the choices of `prefix`, then no further preemption. Returns (decisions, results, directory, points)."""
    where = env.new_dir("s")
    setup(where)
    decisions, results, points, _ = run_procs(prefix, procs, where, shared, traced)
    return decisions, results, where, points


def run_procs(prefix, procs, where, shared, traced, limit=None):
    """The processes `procs` in the directory `where`; at most `limit` at a time. Returns (decisions, results, points,
    order in which they ended)."""
    limit = limit or len(procs)
    ws = []
    decisions, cur, step = [], None, 0
    points, ended = [], []
    error = None

    def start():
        # a process of the pool is free: the next task
        while len(ws) < len(procs) and sum(not w.done for w in ws) < limit:
            fn, args = procs[len(ws)]
            ws.append(_Worker(fn, args, where, shared, traced))
            ws[-1].wait()
    try:
        start()
        while True:
            alive = [i for i, w in enumerate(ws) if not w.done]
            if not alive:
                break
            enabled = [i for i in alive if ws[i].blocked_at < 0 or ws[i].blocked_at < step]
            if not enabled:
                error = "deadlock: %r" % [ws[i].at for i in alive]
                break
            i = len(decisions)
            if i < len(prefix) and prefix[i] in enabled:
                c = prefix[i]
            elif cur in enabled:
                c = cur
            else:
                c = enabled[0]
            decisions.append((enabled, cur, c))
            points.append((c, ws[c].at))
            w = ws[c]
            w.go()
            msg = w.wait()
            if msg and msg.get("blocked"):
                w.blocked_at = step  # enabled again when another one has moved
            else:
                w.blocked_at = -1
                step += 1
            cur = None if w.done or w.blocked_at >= 0 else c
            if w.done:
                ended.append(c)
                start()
            if len(decisions) > 5000:
                error = "no end after 5000 steps"
                break
    finally:
        for w in ws:
            w.end()
    results = [w.result for w in ws]
    if error:
        results.append({"error": error})
    return decisions, results, points, ended


def preemptions(decisions, upto, choice):
    n = 0
    for enabled, cur, c in decisions[:upto]:
        n += cur is not None and cur in enabled and c != cur
    enabled, cur, _ = decisions[upto]
    return n + (cur is not None and cur in enabled and choice != cur)


def successors(decisions, start, bound):
    out = []
    for i in range(start, len(decisions)):
        enabled, cur, c = decisions[i]
        for alt in enabled:
            if alt != c and preemptions(decisions, i, alt) <= bound:
                out.append([d[2] for d in decisions[:i]] + [alt])
    return out


def subtree(prefix, start, setup, procs, shared, traced, check, bound, limit=10 ** 9):
    """All schedules that deviate from `prefix` at or after position `start`."""
    def execute(p):
        decisions, results, where, points = run_schedule(p, setup, procs, shared, traced)
        try:
            probs, outcome = check(where, results)
        except Exception:
            probs, outcome = ["the files cannot be read: " + short_tb()], "unreadable"
        shutil.rmtree(where, ignore_errors=True)
        return decisions, points, probs, outcome
    return tree(execute, prefix, start, bound, limit)


def tree(execute, prefix, start, bound, limit=10 ** 9):
    """execute(choices) -> (decisions, points, problems, outcome) for all schedules that deviate at or after `start`."""
    res = dict(schedules=0, points=0, max_points=0, outcomes={}, problems=[], capped=0)
    stack = [(prefix, start)]
    while stack:
        if res["schedules"] >= limit:
            res["capped"] = 1
            break
        p, st = stack.pop()
        decisions, points, probs, outcome = execute(p)
        res["schedules"] += 1
        res["points"] += len(decisions)
        res["max_points"] = max(res["max_points"], len(decisions))
        res["outcomes"][outcome] = res["outcomes"].get(outcome, 0) + 1
        if probs:
            res["problems"].append((probs, [d[2] for d in decisions], points))
            if len(res["problems"]) >= 2:
                break
        stack.extend((q, len(q)) for q in successors(decisions, st, bound))
    return res
