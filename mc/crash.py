"""Crash points of a real run: every state of the disk that a killed run can leave, and every line at which an
exception (Ctrl-C) can end it."""
import json
import os
import select
import shutil
import sys
import time

from mc import env, procs
from mc.report import short_tb


def tree(where):
    """path -> content of all files below `where` (and None for folders)."""
    out = {}
    for d, ds, fs in os.walk(where):
        rel = os.path.relpath(d, where)
        if rel != ".":
            out[rel] = None
        for f in fs:
            p = os.path.join(d, f)
            with open(p, "rb") as fh:
                out[os.path.normpath(os.path.join(rel, f))] = fh.read()
    return out


def put(where, image):
    for p in sorted(image):
        q = os.path.join(where, p)
        if image[p] is None:
            os.makedirs(q, exist_ok=True)
        else:
            os.makedirs(os.path.dirname(q), exist_ok=True)
            with open(q, "wb") as f:
                f.write(image[p])


def _signature(where):
    sig = []
    stack = [where]
    while stack:
        d = stack.pop()
        with os.scandir(d) as it:
            for e in it:
                if e.is_dir(follow_symlinks=False):
                    sig.append(e.path)
                    stack.append(e.path)
                else:
                    st = e.stat()
                    sig.append((e.path, st.st_size, st.st_mtime_ns, st.st_ino))
    return sig


FORKED_LIMIT = 3600 if env.THOROUGH else 120


def read_until(fd, pid):
    """All that a forked process writes; it is killed, with what it started, when that takes too long (None)."""
    end, chunks = time.time() + FORKED_LIMIT, []
    with os.fdopen(fd, "rb", 0) as f:
        while True:
            if not select.select([f], [], [], max(0, end - time.time()))[0]:
                procs.kill_tree(pid)
                return None
            b = f.read(1 << 16)
            if not b:
                return b"".join(chunks).decode()
            chunks.append(b)


def forked(fn, *args):
    """fn in a forked process; its JSON-able result, or {"error": ...}."""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            with env.quiet():
                out = fn(*args)
        except BaseException:
            out = {"error": short_tb()}
        try:
            with os.fdopen(w, "w") as f:
                json.dump(out, f, default=str)
        finally:
            os._exit(0)
    os.close(w)
    data = read_until(r, pid)
    os.waitpid(pid, 0)
    if data is None:
        return {"error": "no end after %d s: the code under test loops or blocks" % FORKED_LIMIT}
    return json.loads(data) if data else {"error": "process died"}


def images(fn, start, traced):
    """Runs fn in a forked process in a copy of the disk image `start`; every distinct image of the disk that exists at
    some line of the code below `traced` (list of path prefixes), i.e. what is left if the process is killed there."""
    where = env.new_dir("c")
    put(where, start)
    out = env.new_dir("i")

    def child():
        os.chdir(where)
        seen = [None]
        n = [0]
        lines = [0]

        def look(frame):
            sig = _signature(where)
            if sig != seen[0]:
                seen[0] = sig
                dst = os.path.join(out, "%04d" % n[0])
                n[0] += 1
                shutil.copytree(where, dst)
                with open(dst + ".at", "w") as f:
                    f.write("%s:%d in %s" % (os.path.basename(frame.f_code.co_filename), frame.f_lineno, frame.f_code.co_name))

        def tracer(frame, event, arg):
            if not frame.f_code.co_filename.startswith(traced):
                return None
            if event in ("line", "return"):
                sys.settrace(None)
                lines[0] += 1
                look(frame)
                sys.settrace(tracer)
            return tracer
        sys.settrace(tracer)
        try:
            res = fn()
        finally:
            sys.settrace(None)
        look(sys._getframe())
        return {"value": res, "lines": lines[0]}
    r = forked(child)
    got = []
    for name in sorted(os.listdir(out)):
        if not name.endswith(".at"):
            got.append((open(os.path.join(out, name + ".at")).read(), tree(os.path.join(out, name))))
    shutil.rmtree(out, ignore_errors=True)
    shutil.rmtree(where, ignore_errors=True)
    return r, got


def line_points(fn, start, traced):
    """All distinct (file, line, function) that fn executes, with the number of the first execution."""
    where = env.new_dir("c")
    put(where, start)

    def child():
        os.chdir(where)
        seen, n = {}, [0]

        def tracer(frame, event, arg):
            if not frame.f_code.co_filename.startswith(traced):
                return None
            if event == "line":
                n[0] += 1
                f = frame.f_back
                key = "%s:%d<%s" % (os.path.basename(frame.f_code.co_filename), frame.f_lineno, f.f_code.co_name if f else "")
                seen.setdefault(key, n[0])
            return tracer
        sys.settrace(tracer)
        try:
            fn()
        finally:
            sys.settrace(None)
        return seen
    r = forked(child)
    shutil.rmtree(where, ignore_errors=True)
    return r


def interrupted_at(fn, start, traced, number, exc=KeyboardInterrupt):
    """The disk after fn has been ended by an exception at its number-th line."""
    where = env.new_dir("c")
    put(where, start)

    def child():
        os.chdir(where)
        n = [0]

        def tracer(frame, event, arg):
            if not frame.f_code.co_filename.startswith(traced):
                return None
            if event == "line":
                n[0] += 1
                if n[0] == number:
                    sys.settrace(None)
                    raise exc("interrupted by the check")
            return tracer
        sys.settrace(tracer)
        try:
            fn()
        except exc:
            return {"raised": True}
        finally:
            sys.settrace(None)
        return {"raised": False}
    r = forked(child)
    got = tree(where)
    shutil.rmtree(where, ignore_errors=True)
    return r, got
