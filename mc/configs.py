"""Small configurations that force agents to collide: shared pools, saturation, private pools, splitting, closing."""
S2 = [0.6, 0.4]
S3A, S3B, S3C, S3D = [0.5, 0.3, 0.2], [1 / 3, 1 / 3, 1 - 2 / 3], [0.7, 0.2, 0.1], [0.4, 0.35, 0.25]
S4A, S4B, S4C = [0.4, 0.3, 0.2, 0.1], [0.25] * 4, [0.55, 0.25, 0.15, 0.05]
S5A = [0.35, 0.25, 0.2, 0.15, 0.05]


def cfg(stakes, costs, profiles=None, **kw):
    n = len(stakes)
    c = dict(_stakes=list(stakes), _costs=list(costs) if isinstance(costs, (list, tuple)) else [costs] * n,
             _profiles=list(profiles) if profiles else [0] * n)
    c.update(kw)
    return c


def rational(deep=False):
    """Rational agents: what a run can really do, under every activation order."""
    out = []
    for order in ("random", "sequential", "semisimultaneous", "simultaneous"):
        kw = dict(agent_activation_order=order)
        out += [
            cfg(S3A, 1e-3, k=2, a0=0.3, **kw),
            cfg(S3A, [0.02, 0.01, 0.03], [0, 1, 0], k=3, a0=0.3, absolute_utility_threshold=1e-9, **kw),
            cfg(S3C, [0.01, 0.002, 0.004], [1, 1, 1], k=2, a0=0.5, absolute_utility_threshold=1e-9, **kw),
            cfg(S4A, [0.001, 0.002, 0.003, 0.004], k=4, a0=0.3, absolute_utility_threshold=1e-9, **kw),
            cfg(S4B, [0.004, 0.003, 0.002, 0.001], [0, 1, 0, 1], k=3, a0=0.1, absolute_utility_threshold=1e-9, **kw),
            cfg(S4C, [0.03, 0.01, 0.02, 0.005], [0, 0, 1, 2], k=3, a0=1.0, absolute_utility_threshold=1e-9, **kw),
            cfg(S4C, 0.0, [0, 0, 0, 0], k=5, a0=0.0, absolute_utility_threshold=1e-9, extra_pool_cost_fraction=1.0, **kw),
            cfg(S3D, [0.1, 0.2, 0.05], [0, 0, 0], k=2, a0=0.3, reward_scheme=1, absolute_utility_threshold=1e-9, **kw),
            cfg(S4A, [0.01, 0.02, 0.005, 0.03], [0, 1, 0, 0], k=3, a0=0.4, reward_scheme=2, absolute_utility_threshold=1e-9, **kw),
            cfg(S4A, [0.01, 0.02, 0.005, 0.03], [0, 0, 1, 0], k=3, a0=0.4, reward_scheme=3, absolute_utility_threshold=1e-9, **kw),
            cfg(S4A, [0.01, 0.02, 0.005, 0.03], [0, 0, 1, 0], k=4, a0=4.0, reward_scheme=4, absolute_utility_threshold=1e-9, **kw),
            cfg(S4C, [0.002, 0.004, 0.001, 0.003], k=2, a0=0.3, relative_utility_threshold=0.1, extra_pool_cost_fraction=0.0, **kw),
            cfg(S4C, [0.002, 0.004, 0.001, 0.003], [0, 1, 0, 0], k=4, a0=0.2, absolute_utility_threshold=1e-9, extra_pool_cost_fraction=1.5, **kw),
            cfg([0.08, 0.15, 0.25, 0.52], [0.01, 0.02, 0.005, 0.4], [0, 0, 1, 0], k=3, a0=1.7, reward_scheme=4, absolute_utility_threshold=1e-9, **kw),
        ]
    if deep:
        for order in ("random", "sequential", "semisimultaneous", "simultaneous"):
            kw = dict(agent_activation_order=order, absolute_utility_threshold=1e-9)
            for scheme, a0 in ((0, 0.3), (1, 0.5), (2, 0.2), (3, 0.3), (4, 6.0)):
                for k in (1, 2, 3, 5):
                    for profs in ([0] * 5, [0, 1, 0, 1, 0], [1] * 5):
                        out.append(cfg(S5A, [0.004, 0.012, 0.002, 0.02, 0.001], profs, k=k, a0=a0, reward_scheme=scheme, **kw))
                for k in (2, 3):
                    out.append(cfg(S4A, [0.03, 0.02, 0.01, 0.04], [0, 0, 1, 1], k=k, a0=a0, reward_scheme=scheme, **kw))
    for c in out:
        if c["agent_activation_order"] == "semisimultaneous":
            c["_group"] = 2
    return out


def scripted(deep=False):
    """Agents free to adopt any strategy of a finite menu at any time."""
    out = []
    for order in ("random", "simultaneous", "semisimultaneous"):
        kw = dict(agent_activation_order=order, _mode="scripted", _group=2)
        out += [
            cfg(S3A, [0.02, 0.01, 0.03], [0, 0, 0], k=2, a0=0.3, **kw),
            cfg(S3C, [0.002, 0.01, 0.003], [0, 1, 0], k=3, a0=0.3, **kw),
            cfg(S3B, [0.01, 0.01, 0.01], [1, 0, 0], k=2, a0=0.0, **kw),
            cfg(S3D, [0.01, 0.02, 0.01], [0, 0, 1], k=4, a0=0.3, **kw),
            cfg(S3A, [0.9, 0.6, 0.01], [0, 0, 1], k=2, a0=0.3, **kw),
            cfg(S3D, [0.01, 0.02, 0.01], [0, 0, 0], k=3, a0=3.5, reward_scheme=4, **kw),
            cfg([0.1, 0.2, 0.7], [0.01, 0.02, 0.01], [0, 0, 0], k=2, a0=1.8, reward_scheme=4, **kw),
            cfg(S3D, [0.01, 0.02, 0.01], [0, 0, 1], k=2, a0=0.8, reward_scheme=4, **kw),
        ]
        if deep:
            out += [
                cfg(S4A, [0.02, 0.01, 0.03, 0.01], [0, 1, 0, 0], k=3, a0=0.3, _tmax=3, **kw),
                cfg(S3C, [0.002, 0.01, 0.003], [0, 1, 2], k=5, a0=0.3, reward_scheme=2, _tmax=3, **kw),
                cfg(S3A, [0.02, 0.3, 0.03], [0, 0, 0], k=2, a0=0.3, reward_scheme=1, **kw),
                cfg(S3A, [0.02, 0.3, 0.03], [0, 1, 0], k=2, a0=0.3, reward_scheme=3, **kw),
            ]
    return out


def phased(deep=False):
    """Parameters that change in between; the phase change is one of the actions."""
    out = []
    for order in ("random", "semisimultaneous"):
        for mode in ("scripted", "rational"):
            kw = dict(agent_activation_order=order, _mode=mode, _group=2, absolute_utility_threshold=1e-9,
                      max_iterations=10 ** 6, iterations_after_convergence=1)
            out += [
                cfg(S3A, [0.02, 0.01, 0.03], [0, 0, 1], k=[2, 4], a0=0.3, **kw),
                cfg(S3C, [0.002, 0.01, 0.003], [0, 1, 0], k=[4, 2], a0=[0.3, 0.0], **kw),
                cfg(S3B, [0.01, 0.012, 0.008], [0, 0, 0], k=3, a0=[0.0, 0.5], **kw),
                cfg(S3D, [0.01, 0.02, 0.01], [0, 0, 1], k=[3, 2], a0=[4.0, 2.5], reward_scheme=4, **kw),
                cfg(S3D, [0.01, 0.02, 0.01], [1, 0, 0], k=[1, 3, 2], a0=[0.1, 0.7], reward_scheme=1,
                    extra_pool_cost_fraction=[0.4, 0.9], **kw),
            ]
            if deep:
                out += [
                    cfg(S4A, [0.02, 0.01, 0.03, 0.005], [0, 0, 1, 0], k=[2, 5, 1], a0=[0.3, 0.1], **kw),
                    cfg(S3A, [0.02, 0.01, 0.03], [1, 1, 1], k=[2, 6], a0=0.3, reward_scheme=3, **kw),
                    cfg(S3A, [0.02, 0.01, 0.03], [0, 1, 0], k=[6, 2], a0=[0.3, 1.0], reward_scheme=2, **kw),
                ]
    return out


def crowded(deep=False):
    """Scripted worlds with several public pools of small pledge: saturation, overflow and displacement happen."""
    out = []
    for order in ("random", "semisimultaneous"):
        kw = dict(agent_activation_order=order, _mode="scripted", _group=2)
        out += [
            cfg([0.05, 0.05, 0.5, 0.4], [0.002, 0.003, 0.001, 0.004], [0, 0, 0, 1], k=3, a0=0.3, **kw),
            cfg([0.1, 0.15, 0.75], [0.002, 0.003, 0.001], [0, 1, 0], k=4, a0=0.2, _tmax=4, **kw),
            cfg([0.1, 0.15, 0.75], [0.004, 0.003, 0.02], [0, 0, 1], k=5, a0=0.6, _tmax=3, extra_pool_cost_fraction=0.1,
                absolute_utility_threshold=1e-9, **kw),
            cfg([0.05, 0.05, 0.05, 0.85], [0.002, 0.002, 0.002, 0.9], [0, 0, 0, 0], k=4, a0=0.0, _tmax=1, **kw),
            cfg([0.05, 0.15, 0.1, 0.7], [0.002, 0.001, 0.002, 0.9], [0, 0, 0, 0], k=5, a0=5.0, reward_scheme=4, _tmax=1, **kw),
            cfg([0.1, 0.1, 0.1, 0.7], [0.002, 0.003, 0.002, 0.3], k=2, a0=0.3, extra_pool_cost_fraction=1.0, _tmax=1, **kw),
            cfg([0.05, 0.15, 0.1, 0.7], [0.002, 0.001, 0.002, 0.9], [0, 0, 1, 0], k=3, a0=2.0, reward_scheme=4, _tmax=1, **kw),
        ]
        if deep:
            out += [
                cfg([0.05, 0.1, 0.15, 0.7], [0.002, 0.001, 0.002, 0.03], [0, 1, 0, 1], k=6, a0=0.3, _tmax=4, **kw),
                cfg([0.05, 0.1, 0.15, 0.2, 0.5], [0.002, 0.001, 0.002, 0.003, 0.001], [0, 1, 0, 0, 0], k=4, a0=0.3, _tmax=2, **kw),
            ]
    return out
