"""Shared driver of the checks that watch agents' actions (C01-C05, C11)."""
from mc import env, explore
from mc.report import Report


def limits(cfg, quick, thorough):
    scripted = cfg.get("_mode") == "scripted"
    d = dict(quick if not env.THOROUGH else thorough)
    depth = d.pop("scripted_depth", None)
    d["max_depth"] = depth if scripted and depth else 99
    return d


def run(prop, cfgs, monitor, quick, thorough, assumptions, probe=None, level="model_checking"):
    rep = Report(prop, level, assumptions)
    into(rep, cfgs, monitor, quick, thorough, probe)
    return rep.finish()


def into(rep, cfgs, monitor, quick, thorough, probe=None):
    global _job_state
    _job_state = (monitor, quick, thorough, probe)
    for r in explore.parallel(_job, cfgs):
        explore.fold(rep, r)
        for k, v in r.get("extra", {}).items():
            rep.add(**{k: v})
        if len(rep.violations) >= 6:
            rep.add(stopped_early=1)
            break


def _job(cfg):
    monitor, quick, thorough, probe = _job_state
    return explore.explore(cfg, monitor, probe=probe, **limits(cfg, quick, thorough))


def replay(data, monitor, probe=None):
    probs = []
    try:
        m = explore.run_trace(data["config"], data["trace"], lambda s: probs.extend(monitor(s) or []))
        if probe:
            probs += probe(m, data["config"], {"extra": {}}) or []
    except Exception as e:
        probs.append("exception: %r" % e)
    print("\n".join(probs) or "not reproduced")
    return 1 if probs else 0
