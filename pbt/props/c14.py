import math

import numpy as np
from hypothesis import strategies as st
from src.numerics.optim_scg import SCG
from pbt import gen as g
from pbt.core import Sub, Violation, require, sut, unchanged

PROPERTY = "C14"
TITLE = "The optimiser returns the best point it evaluated and never gets worse"
RULE = ("A case is an objective with its analytical gradient (convex quadratic, log-cosh, Rosenbrock chain, quartic wells, a "
        "barrier that is infinite, or not a number, outside of a half-space or orthant), a start, options and additional arguments; every call is recorded. "
        "fx is f(x), is the lowest recorded value and not above the start, history does not increase, statistics count the "
        "calls, the start is not modified, repeated runs agree. quadratic: strictly convex ones are solved. "
        "Non-trivial: the start is not stationary and at least two iterations were done.")
ASSUMPTIONS = ["quadratic: condition numbers up to 50 in up to 6 dimensions, 600 iterations, tolerances of 1e-9; the "
               "gradient has to go down by 1e-4", "gradients accept eval_fun, as the optimiser documents"]


def objective(c):
    n = c["n"]
    H = g.spd(c["H"], n, c["scale"], 0.1)
    x1 = g.dec(c["x1"], n, 2.0)
    tilt = 0.2
    if c["anti"]:       # everything changes its sign with the order of the variables: so do all gradients
        x1, H, tilt = x1 - x1[::-1], H + H[::-1, ::-1], 0.0
    k = c["f"]
    if k == "quadratic":
        return (lambda x: 0.5 * (x - x1) @ H @ (x - x1) + 0.3), (lambda x: H @ (x - x1))
    if k == "logcosh":
        return (lambda x: float(np.sum(np.logaddexp(x - x1, x1 - x)) + 0.05 * x @ x)), (lambda x: np.tanh(x - x1) + 0.1 * x)
    if k == "rosenbrock":
        if n == 1:
            return (lambda x: float((1 - x[0]) ** 2)), (lambda x: -2 * (1 - x))

        def f(x):
            return float(np.sum(10 * (x[1:] - x[:-1] ** 2) ** 2 + (1 - x[:-1]) ** 2))

        def df(x):
            r = np.zeros(n)
            e = x[1:] - x[:-1] ** 2
            r[:-1] += -40 * x[:-1] * e - 2 * (1 - x[:-1])
            r[1:] += 20 * e
            return r
        return f, df
    if k == "wells":
        return (lambda x: float(np.sum((x ** 2 - 1) ** 2) + tilt * np.sum(x) + 0.5 * x @ H @ x / (1 + np.trace(H)))), \
            (lambda x: 4 * x * (x ** 2 - 1) + tilt + H @ x / (1 + np.trace(H)))
    if k in ("undefined", "infinite"):      # flat far away: long steps leave the domain
        w = np.diag(H)
        out = math.nan if k == "undefined" else math.inf
        return (lambda x: float(w @ (x - np.log(x))) if np.all(x > 0) else out), (lambda x: w - w / x)
    u = np.ones(n)

    def fb(x):
        t = 30.0 - u @ x
        return 0.5 * (x - x1) @ H @ (x - x1) - math.log(t) if t > 0 else math.inf

    def db(x):
        return H @ (x - x1) + u / (30.0 - u @ x)
    return fb, db


def check(c, ctx):
    f0, df0 = objective(c)
    x0 = g.dec(c["x0"], c["n"], c["far"])
    if c["anti"]:
        x0 = x0 - x0[::-1]
    if c["f"] == "barrier":
        x0 = np.minimum(x0, 3.0)
    if c["f"] in ("undefined", "infinite"):
        x0 = 0.1 + np.abs(x0)
    log = {"f": [], "df": 0, "ef": 0, "bad": 0}
    args = tuple(c["asize"] * k for k in range(1, 1 + c["args"]))

    def f(x, *a):
        log["bad"] += a != args
        v = f0(x) + sum(a)
        log["f"].append((float(v), np.array(x)))
        return v

    def df(x, *a, eval_fun=False):
        log["bad"] += a != args
        log["df"] += 1
        log["ef"] += bool(eval_fun)
        return df0(x)

    opts = {"max_it": c["it"], "x_tol": c["tol"], "f_tol": c["ftol"], "display": c["display"]}
    if c["leave"]:      # options that are not given
        default = {"max_it": 150, "x_tol": 1e-6, "f_tol": 1e-8, "display": False}
        left = [k for i, k in enumerate(default) if c["leave"] >> i & 1]
        c = dict(c, **{j: default[k] for j, k in (("it", "max_it"), ("tol", "x_tol"), ("ftol", "f_tol")) if k in left})
        opts = {k: v for k, v in opts.items() if k not in left}
        ctx.label("default")
    start = g.layout(c["form"], x0.reshape(c["shape"] if c["shape"] and np.prod(c["shape"]) == c["n"] else (c["n"],)))
    keep = np.array(start)
    with sut("SCG"), g.quiet():
        s = SCG(f, df, opts) if opts else SCG(f, df)
        if c["before"]:     # an earlier call, from another start
            e = g.dec(c["x1"], c["n"], 2.0)
            s(x0 * 1.05 if c["before"] == 2 else np.abs(e) + 0.1 if c["f"] in ("undefined", "infinite") else e, *args)
            log.update(f=[], df=0, ef=0)
            ctx.label("used-before")
        x, fx = s(start, *args)
        stats = dict(s.statistics)
    unchanged([keep], [start], "SCG")
    require(not log["bad"], "the additional parameters were not passed on to every call")
    x = np.asarray(x, float)
    require(x.shape == (c["n"],), f"the solution has shape {x.shape}, for {c['n']} variables")
    fx = float(fx)
    require(fx == f0(x) + sum(args) or abs(fx - f0(x) - sum(args)) <= 1e-12 * (abs(fx) + 1e-300),
            lambda: f"fx = {fx!r}, but f(x) = {f0(x) + sum(args)!r}")
    low = min(v for v, _ in log["f"] if v == v)
    at0 = f0(np.array(x0)) + sum(args)
    tiny = 1e-12 * (abs(at0) + abs(fx))
    require(fx <= at0, lambda: f"fx = {fx!r} is above the start {at0!r}")
    require(fx <= low, lambda: f"fx = {fx!r}, but {low!r} was evaluated on the way")
    require(stats["MaxIt"] <= c["it"], f"{stats['MaxIt']} iterations of at most {c['it']}")
    h = np.asarray(stats["fx"], float)[: max(0, int(stats["MaxIt"]) - 1)]
    if h.size:
        require(np.all(np.diff(h) <= 0.0) and h[-1] >= fx and h[0] <= at0,
                lambda: f"the history of fx is not decreasing from {at0} to {fx}: {h}")
    require(stats["f_eval"] == len(log["f"]) + log["ef"] and stats["df_eval"] == log["df"],
            lambda: f"statistics: {stats['f_eval']} and {stats['df_eval']} evaluations; there were {len(log['f'])} (+ {log['ef']} "
            f"inside of the gradient) and {log['df']}")
    require(len(log["f"]) <= 3 * c["it"] + 3, f"{len(log['f'])} evaluations for {c['it']} iterations")
    gr = df0(x)
    if stats["MaxIt"] < c["it"] and gr @ gr > 2e-8:
        near = sum(np.abs(p - x).max() <= c["tol"] * (1 + 1e-9) and abs(v - fx) <= c["ftol"] * (1 + 1e-9) + tiny
                   for v, p in log["f"])
        require(near >= 2, f"stopped after {stats['MaxIt']} of {c['it']} iterations, at a gradient of {np.sqrt(gr @ gr):.3g}, and "
                "the last step is not within the tolerances")
        ctx.label("stopped-by-tolerance")
    path, distinct = [], 0       # the points that improved on everything before
    for i, (v, q) in enumerate(log["f"]):
        distinct += not i or not np.array_equal(q, log["f"][i - 1][1])
        if not path or v < path[-1][0]:
            path.append((v, q, distinct))
    for (v, q, _), (w, r, at) in zip(path, path[1:]):
        require(not (np.abs(q - r).max() <= 0.5 * c["tol"] and v - w <= 0.5 * c["ftol"] and distinct > at + 1), lambda: f"a step of "
                f"{np.abs(q - r).max():.3g} that lowered f by {v - w:.3g} is within both tolerances, {c['tol']} and {c['ftol']}, but did not end the search")
    with sut("SCG again"), g.quiet():
        if c["reuse"]:
            y, fy = s(np.array(start), *args)
        else:
            y, fy = SCG(f, df, opts)(np.array(start), *args)
    require(np.array_equal(x, y) and fx == float(fy), "a second run differs")
    if c["f"] == "quadratic" and c["it"] >= 600 and max(c["tol"], c["ftol"]) <= 1e-9 and abs(c["asize"]) <= 1.0:
        g0, g1 = np.linalg.norm(df0(x0)), np.linalg.norm(df0(x))
        H = g.spd(c["H"], c["n"], c["scale"], 0.1)
        H = H + H[::-1, ::-1] if c["anti"] else H
        if np.linalg.cond(H) <= 50:
            require(g1 <= 1e-4 * max(g0, 1.0), lambda: f"convex quadratic (condition {np.linalg.cond(H):.1f}): the gradient only "
                    f"went from {g0} to {g1} in {stats['MaxIt']} iterations")
            ctx.label("solved")
    ctx.label(c["f"], "it<=3" if c["it"] <= 3 else "", "converged" if stats["MaxIt"] < c["it"] else "max_it", f"args{c['args']}",
              "rejected" if np.any(np.diff(np.asarray(stats["beta"])[:max(1, int(stats["MaxIt"]))]) > 0) else "")
    ctx.hit(np.linalg.norm(df0(x0)) > 1e-6 and stats["MaxIt"] >= 2)


def case(fs):
    return st.fixed_dictionaries({
        "f": st.sampled_from(fs), "n": st.integers(1, 6), "H": g.hexs(36), "scale": g.mag(-1, 1), "x1": g.hexs(6),
        "x0": g.hexs(6), "far": st.sampled_from([1.0, 3.0, 10.0, 30.0]), "it": st.one_of(st.sampled_from([0, 1, 2, 3, 10, 40, 150, 600]), st.integers(1, 25)),
        "tol": st.sampled_from([0.0, 1e-9, 1e-6, 1e-3, 1e-1]), "ftol": st.sampled_from([0.0, 1e-9, 1e-6, 1e-3, 1.0, 100.0]), "display": st.booleans(), "form": g.LAYOUTS,
        "shape": st.sampled_from([None, None, (2, 3), (2, 2)]), "args": st.sampled_from([0, 0, 1, 2, 3, 4, 6]), "asize": st.sampled_from([1.0, 1.0, -1.0, 1e3, -1e5]), "reuse": st.booleans(), "anti": st.sampled_from([False, False, True]), "before": st.sampled_from([0, 0, 1, 2]), "leave": st.sampled_from([0, 0, 0, 1, 2, 4, 8, 6, 15, 15])})


def check_quad(c, ctx):
    check(dict(c, it=600, tol=1e-9, ftol=1e-9, leave=0, asize=1.0), ctx)


def check_speed(c, ctx):
    """Conjugate directions: the number of iterations grows with the dimension, not with the condition number."""
    n = c["n"]
    q = np.linalg.qr(g.dec(c["Q"], n * n, 2.0).reshape(n, n) + 0.01 * np.eye(n))[0]
    e = np.exp(np.abs(g.dec(c["e"], n, 1.0)) * math.log(20.0))
    H = c["scale"] * (q * e) @ q.T
    x1, x0 = g.dec(c["x1"], n, 2.0), g.dec(c["x0"], n, c["far"])
    limit = 3 * n + 12
    with sut("SCG"), g.quiet():
        s = SCG(lambda x: 0.5 * (x - x1) @ H @ (x - x1), lambda x, eval_fun=False: H @ (x - x1),
                {"max_it": limit, "x_tol": 1e-9, "f_tol": 1e-9})
        x, _ = s(np.array(x0))
    g0, g1 = np.linalg.norm(H @ (x0 - x1)), np.linalg.norm(H @ (np.asarray(x) - x1))
    require(g1 <= 1e-3 * max(g0, 1.0), lambda: f"convex quadratic in {n} dimensions (condition {e.max() / e.min():.1f}): after "
            f"{limit} iterations the gradient went from {g0} to {g1} only")
    ctx.label(f"n={n}")
    ctx.hit(g0 > 1e-2 and e.max() / e.min() > 2)


def check_reject(c, ctx):
    """The options that were given are the ones that count."""
    f0, df0 = objective(c)
    with sut("SCG"), g.quiet():
        s = SCG(lambda x: f0(x), lambda x, eval_fun=False: df0(x), {"max_it": c["it"]})
        x0 = g.dec(c["x0"], c["n"], 1.0)
        x, fx = s(x0)
        t = SCG(lambda x: f0(x), lambda x, eval_fun=False: df0(x), {"max_it": 2 * c["it"]})
        y, fy = t(x0)
    if float(fy) > float(fx) + 1e-12 * abs(float(fx)):
        raise Violation(f"{2 * c['it']} iterations end at {fy}, {c['it']} at {fx}")
    ctx.label(c["f"])
    ctx.hit(float(fy) < float(fx))


FS = ["quadratic", "logcosh", "rosenbrock", "wells", "barrier", "undefined", "infinite"]
SUBS = [Sub("contract", case(FS), check, 4000, 80000, shards=3),
        Sub("quadratic", case(["quadratic"]), check_quad, 250, 5000, shards=2),
        Sub("speed", st.fixed_dictionaries({
            "n": st.integers(1, 12), "Q": g.hexs(144), "e": g.hexs(12), "scale": g.mag(-1, 1), "x1": g.hexs(12), "x0": g.hexs(12),
            "far": st.sampled_from([1.0, 3.0, 10.0, 30.0])}), check_speed, 400, 6000, shards=1),
        Sub("more-iterations", case(["quadratic", "logcosh", "rosenbrock", "wells"]), check_reject, 250, 4000, shards=1)]
