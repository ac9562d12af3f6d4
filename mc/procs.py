"""Worker processes of the checks: forked, each with its own scratch folders, killed with everything they started."""
import errno
import os
import pickle
import signal
import sys
import time
import traceback
from multiprocessing import Pipe
from multiprocessing.connection import wait

from mc import env

LIMIT = 7200 if env.THOROUGH else 300  # seconds after which a single item counts as endless


class Endless(Exception):
    """An item of work has not ended: the code under test loops or blocks."""

    def __init__(self, fn, item):
        super().__init__("no end after %d s: %s of %r" % (LIMIT, getattr(fn, "__name__", fn), item))
        self.item = item


class CodeFailed(Exception):
    """The code under test raised where it has to give a result (the traceback ends in it, not in the harness)."""

    def __init__(self, text, item):
        super().__init__("the code under test fails: %s" % text.strip().split("\n")[-1])
        self.text, self.item = text, item


def blames_code(e):
    """Whether an exception was raised by the code under test (or by a library that it called)."""
    if not isinstance(e, Exception) or isinstance(e, (MemoryError, BlockingIOError)):
        return False
    if isinstance(e, OSError) and e.errno in (errno.ENOSPC, errno.EMFILE, errno.ENFILE, errno.ENOMEM, errno.EAGAIN):
        return False
    for frame in reversed(traceback.extract_tb(e.__traceback__)):
        path = os.path.realpath(frame.filename)
        if path.startswith(os.path.realpath(env.VERIF) + os.sep):
            return False
        if path.startswith(os.path.realpath(env.REPO) + os.sep):
            return True
    return False


def kill_tree(pid):
    """SIGKILL for a process of ours and everything it started."""
    kids, todo = [], [pid]
    while todo:
        p = todo.pop()
        kids.append(p)
        try:
            with open("/proc/%d/task/%d/children" % (p, p)) as f:
                todo += [int(x) for x in f.read().split()]
        except (OSError, ValueError):
            pass
    for p in kids:
        try:
            os.kill(p, signal.SIGKILL)
        except OSError:
            pass


class Worker:
    def __init__(self, fn, items, others):
        self.conn, theirs = Pipe()
        self.item, self.since = None, None
        sys.stdout.flush()
        sys.stderr.flush()
        self.pid = os.fork()
        if self.pid:
            theirs.close()
            return
        try:
            self.conn.close()
            for o in others:
                o.conn.close()
            os.chdir(env.new_dir("w%d-" % os.getpid()))
            env.private_temp()
            while True:
                i = theirs.recv()
                try:
                    out = (True, fn(items[i]))
                except BaseException as e:
                    out = (False, (traceback.format_exc(), blames_code(e)))
                env.clear_temp()
                theirs.send_bytes(pickle.dumps(out))
        except (EOFError, OSError):
            pass
        except BaseException:
            traceback.print_exc()
        finally:
            os._exit(0)

    def give(self, i):
        self.item, self.since = i, time.time()
        self.conn.send(i)

    def end(self):
        kill_tree(self.pid)
        try:
            os.waitpid(self.pid, 0)
        except OSError:
            pass
        self.conn.close()


def parallel(fn, items, nproc):
    """fn over items in forked workers; results as they come."""
    workers, left = [], list(range(len(items)))[::-1]
    try:
        for _ in range(min(nproc, len(items))):
            workers.append(Worker(fn, items, workers))
        for w in workers:
            w.give(left.pop())
        busy = list(workers)
        while busy:
            ready = wait([w.conn for w in busy], timeout=5)
            for w in [w for w in busy if w.conn in ready]:
                try:
                    ok, res = pickle.loads(w.conn.recv_bytes())
                except EOFError:
                    raise RuntimeError("a worker process died on item %r" % (items[w.item],))
                if not ok:
                    text, code = res
                    if code:
                        raise CodeFailed(text, items[w.item])
                    raise RuntimeError("a worker failed on item %r\n%s" % (items[w.item], text))
                if left:
                    w.give(left.pop())
                else:
                    busy.remove(w)
                yield res
            now = time.time()
            for w in busy:
                if now - w.since > LIMIT:
                    raise Endless(fn, items[w.item])
    finally:
        for w in workers:
            w.end()
