import importlib
import json
import os
import signal
import sys
import time
import traceback

from mc import env, procs, report


def stuck(*_):
    if time.process_time() > 300:  # this process itself has been busy all the time, not waiting for its workers
        raise procs.Endless(main, "the work of the main process")


def failure(prop, e):
    """The code under test raised where the property demands a result."""
    if not isinstance(e, procs.CodeFailed):
        e = procs.CodeFailed("".join(traceback.format_exception(e)), None)
    rep = report.Report(prop, "model_checking")
    rep.violation(str(e), {"kind": "failure", "item": e.item, "traceback": e.text})
    return rep.finish()


def main():
    prop = sys.argv[1].upper()
    env.setup()
    sys.path.insert(0, env.VERIF)
    try:
        mod = importlib.import_module("checks." + prop.lower())
    except Exception as e:
        if len(sys.argv) > 2 or not procs.blames_code(e):
            raise
        return failure(prop, e)
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        d = json.load(open(sys.argv[3]))["replay"]
        if d.get("kind") in ("endless", "failure"):
            print("the code %s; rerun the check itself" % ("runs without end" if d["kind"] == "endless" else "fails"))
            return 1
        rc = mod.replay(json.load(open(sys.argv[3]))["replay"])
        return rc
    if not env.THOROUGH:
        signal.signal(signal.SIGALRM, stuck)
        signal.alarm(840)
    try:
        return mod.main()
    except procs.Endless as e:
        rep = report.Report(prop, "model_checking")
        rep.violation(str(e), {"kind": "endless", "item": e.item})
        return rep.finish()
    except Exception as e:
        if not isinstance(e, procs.CodeFailed) and not procs.blames_code(e):
            raise
        return failure(prop, e)


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
