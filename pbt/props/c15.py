import math

import numpy as np
from hypothesis import strategies as st
from pbt import gen as g, ref
from pbt.core import Sub, close, expect, require, sut
from pbt.stats import lagged, shape

PROPERTY = "C15"
TITLE = "Trajectories are Euler-Maruyama paths of the model, and reproducible"
RULE = ("A case is a system (OU, DW, L63, L96) with drift and noise (scalar, vector, full matrix), a window and a seed. The grid "
        "is uniform from t0 to tf; whitened increments x(k+1) - x(k) - f(x(k)) dt, by an independent drift, have mean 0, "
        "identity covariance, no correlation in time, no outliers and no correlation with the path; equal seeds (0 included) "
        "give equal paths, other seeds or a second path do not; changes of parameters take effect. Non-trivial: at least "
        "200 steps (law), or any window (grid, seeds).")
ASSUMPTIONS = ["statistical thresholds of 7 standard errors (7.5 or 8 for second moments), on at least 200 steps: a false alarm has a "
               "probability below 1e-10 per statistic", "the window is a whole number of steps"]


def model(c):
    k, d = c["kind"], c["d"]
    if d > 12:      # larger matrices: larger steps may explode
        c["dt"] = min(c["dt"], 0.0025)
    if k == "DW" and c["th"] >= 4.0 and c["dt"] <= 0.00125:
        c["th"] = 12.0
    if k in ("OU", "DW"):
        s = c["ssig"]
        return g.make_model(k, s, c["th"], c["seed"]), s, np.array([[s]]), c["th"]
    if c["sform"] == "scalar":
        s = c["ssig"]
        Q = s * np.eye(d)
    elif c["sform"] == "vector":
        s = g.pos(c["sigma"], d, c["ssig"], 0.1)
        Q = np.diag(s)
    else:
        Q = g.spd(c["sigma"], d, c["ssig"] * min(1.0, 10.0 / d), 0.1)
        s = Q.copy()
    th = np.array([10., 28., 8 / 3]) + g.dec(c["theta"], 3, 2.0) if k == "L63" else c["th"] + 5.0
    return g.make_model(k, s, th, c["seed"], d), s, Q, th


def run(m, c, t0=None, n=None, what="make_trajectory"):
    t0 = c["t0"] if t0 is None else t0
    n = c["n"] if n is None else n
    with sut(what), g.quiet():
        m.make_trajectory(t0, t0 + n * c["dt"], c["dt"])
        return np.array(m.sample_path, float), np.array(m.time_window, float)


def whitened(c, x, Q, th):
    X = x.reshape(len(x), -1)
    r = np.diff(X, axis=0) - c["dt"] * ref.drift(c["kind"], X[:-1], th)
    return np.linalg.solve(np.linalg.cholesky(Q * c["dt"]), r.T).T, X


def law(c, z, X, what):
    n, d = z.shape
    require(np.all(np.isfinite(z)), f"{what}: the path is not finite")
    a = np.abs(z.mean(axis=0)) * math.sqrt(n)
    require(a.max() < 7, lambda: f"{what}: mean of the increments is off by {a.max():.1f} standard errors")
    C = (z.T @ z / n - np.eye(d)) * math.sqrt(n)
    C[np.diag_indices(d)] /= math.sqrt(2)
    v = np.abs(np.diag(C))
    require(v.max() < 8, lambda: f"{what}: variance of the increments is off by {v.max():.1f} standard errors")
    C[np.diag_indices(d)] = 0
    require(np.abs(C).max() < 7.5, lambda: f"{what}: increments of the components correlate, {np.abs(C).max():.1f} standard errors")
    L = np.abs(z[1:].T @ z[:-1]) / math.sqrt(n - 1)
    require(L.max() < 7.5, lambda: f"{what}: successive increments correlate, {L.max():.1f} standard errors")
    require(np.abs(z).max() < 7, lambda: f"{what}: an increment of {np.abs(z).max():.1f} standard deviations")
    shape(z.ravel(), what)
    still = int(np.sum(np.abs(z).max(axis=1) < 1e-9))       # once by chance, in a billion
    require(still < 2, f"{what}: {still} of {n} increments have no noise")
    for i in range(d):
        lagged(z[:, i], z[:, i], f"{what}, component {i}", 1)
        if i:
            lagged(z[:, i - 1], z[:, i], f"{what}, components {i - 1} and {i}", 0)
    # z(k) is independent of X(k): the sum below is a martingale.
    M = np.abs(z.T @ X[:-1]) / np.sqrt(np.sum(X[:-1] ** 2, axis=0) + 1e-12)
    require(M.max() < 9, lambda: f"{what}: increments depend on the state, {M.max():.1f} standard errors")


def check_law(c, ctx):
    m, s, Q, th = model(c)
    x, tk = run(m, c)
    z, X = whitened(c, x, Q, th)
    law(c, z, X, c["kind"])
    x2, _ = run(m, c)
    z2, X2 = whitened(c, x2, Q, th)
    law(c, z2, X2, f"{c['kind']}, second path")
    for i in range(z.shape[1]):
        lagged(z[:, i], z2[:, i], f"{c['kind']}, two paths", 0)
    R = np.abs(np.sum(z * z2, axis=0)) / math.sqrt(len(z))
    require(R.max() < 7.5, lambda: f"{c['kind']}: two paths of one model have the same noise, {R.max():.1f} standard errors")
    if c["change"]:
        with sut("setters"):
            m.sigma = s * 2.0 if c["kind"] in ("OU", "DW") else 2.0 * Q
            th2 = th * 1.1
            m.theta = th2
        x3, _ = run(m, c)
        z3, X3 = whitened(c, x3, 2.0 * Q, th2)
        law(c, z3, X3, f"{c['kind']}, after sigma and theta were set")
    elif c["kind"] == "OU":
        mu = c["mu"]
        with sut("make_trajectory"), g.quiet():
            m.make_trajectory(c["t0"], c["t0"] + c["n"] * c["dt"], c["dt"], mu)
            x4 = np.array(m.sample_path, float)
        z4, X4 = whitened(c, x4 - mu, Q, th)
        law(c, z4, X4, f"OU around {mu}")
    ctx.label(c["kind"], c["sform"], "change" if c["change"] else "")
    ctx.hit(c["n"] >= 200)


def check_short(c, ctx):
    """Many short paths with any step, each from its own start: the increments of all of them together."""
    k = c["kind"]
    dt = c["step"]
    n = c["n"] if dt <= (0.05 if k == "DW" else 0.02) else 1
    c = dict(c, dt=dt if k != "DW" else min(dt, 0.1), n=n)
    m, s, Q, th = model(c)
    z, X = [], []
    for _ in range(c["reps"]):
        x, _ = run(m, c)
        a, b = whitened(c, x, Q, th)
        z.append(a)
        X.append(b[:-1])
    z, X = np.concatenate(z), np.concatenate(X)
    size = np.abs(X).max() + dt * np.abs(ref.drift(k, X, th)).max() + 1.0
    if 1e-15 * size > 1e-3 * math.sqrt(np.linalg.eigvalsh(Q)[0] * c["dt"]):
        ctx.label("rounding")
        return
    law(c, z, np.concatenate([X, X[-1:]]), f"{k}, {c['reps']} paths of {n} steps")
    ctx.label(k, c["sform"], f"n{n}")
    ctx.hit(z.size >= 150)


def check_grid(c, ctx):
    m, s, Q, th = model(c)
    expect(NotImplementedError, "sample_path of a model without one", lambda: m.sample_path)
    expect(NotImplementedError, "time_window of a model without one", lambda: m.time_window)
    expect(NotImplementedError, "time_step of a model without a path", lambda: m.time_step)
    for t0, n in ((c["t0"], c["n"]), (c["t0"] + 1.0, c["n"] // 2 + 1)):
        x, tk = run(m, c, t0, n)
        dt = c["dt"]
        require(tk.shape == (n + 1,), f"{c['kind']}: {tk.size} times for {n} steps of {dt} from {t0}")
        close(tk, t0 + dt * np.arange(n + 1), abs(t0) + n * dt, f"{c['kind']}: time window", 1e-11)
        d = c["d"]
        require(x.shape == ((n + 1,) if d == 1 else (n + 1, d)), f"{c['kind']}: path of shape {x.shape} for {n + 1} times")
        require(np.all(np.isfinite(x)), f"{c['kind']}: path is not finite")
        close(float(m.time_step), dt, abs(t0) + dt, "time_step", 1e-11)
        require(m.single_dim == (d == 1), f"{c['kind']}: single_dim is {m.single_dim}")
    if c["kind"] == "OU":
        for mu in (0.0, c["mu"]):
            with sut("make_trajectory"), g.quiet():
                m.make_trajectory(c["t0"], c["t0"] + c["n"] * c["dt"], c["dt"], mu)
            require(float(m.sample_path[0]) == mu, f"OU: starts at {m.sample_path[0]} in place of {mu}")
    ctx.label(c["kind"], f"n{min(c['n'], 5)}", "t0" if c["t0"] else "")
    ctx.hit()


def check_start(c, ctx):
    m, s, Q, th = model(c)
    k, d = c["kind"], c["d"]
    with sut("make_trajectory"), g.quiet():
        m.make_trajectory(c["t0"], c["t0"] + 0.07)
        x, tk = np.array(m.sample_path, float), np.array(m.time_window, float)
    close(tk, c["t0"] + 0.01 * np.arange(8), abs(c["t0"]) + 0.1, f"{k}: time window with the default time step", 1e-11)
    if k == "OU":
        require(x[0] == 0.0, f"OU: starts at {x[0]} by default")
    elif k == "DW":
        # The start is drawn: each side, plus noise that gets smaller with the step.
        up, z = 0, []
        for i in range(c["reps"]):
            with sut("make_trajectory"), g.quiet():
                m.make_trajectory(0.0, 1e-6, 1e-6)
                v = float(m.sample_path[0])
            up += v > 0
            z.append(v)
        long = 0
        for i in range(64):
            with sut("make_trajectory"), g.quiet():
                m.make_trajectory(0.0, c["len"] * 1e-6, 1e-6)
                long += float(m.sample_path[0]) > 0
        require(abs(long - 32) < 7.5 * 4, f"DW: {long} of 64 paths of {c['len']} steps start above zero")
        e = abs(up - 0.5 * len(z)) / math.sqrt(0.25 * len(z))
        require(e < 7.5, f"DW: {up} of {len(z)} paths start above zero")
        require(len(set(z)) == len(z), "DW: two paths start at one point")
    else:
        # A noise-free orbit from the documented point: the path starts on it, once it has settled.
        y = np.ones(3) if k == "L63" else np.full(d, float(th)) if np.ndim(th) == 0 else np.array(th, float)
        if k == "L96":
            y[d // 2] += 1e-3
        near, size = np.inf, 1.0
        for i in range(6001):
            if i >= 4000:
                near, size = min(near, np.abs(x[0] - y).max()), max(size, np.abs(y).max())
            y = y + 1e-3 * ref.drift(k, y[None], th)[0]
        require(near < 1e-3 * size, f"{k}: starts at {x[0]}, {near} away from the settled noise-free orbit")
    ctx.label(k)
    ctx.hit()


def check_seed(c, ctx):
    paths = []
    for k in range(2):
        m, s, Q, th = model(c)
        a = run(m, c)[0]
        o = None
        with sut("collect_obs"), g.quiet():
            o = np.array(m.collect_obs(1.0 / (c["n"] * c["dt"]) * max(1, c["n"] // 3), 0.5)[1])
        paths.append((a, o, run(m, c)[0]))
    for p, q in zip(*paths):
        require(np.array_equal(p, q), f"{c['kind']}: two models with the seed {c['seed']} differ")
    require(not np.array_equal(paths[0][0], paths[0][2]), f"{c['kind']}: the second path repeats the first")
    for e in (1, *c["off"]):
        e = e if e > 0 else c["seed"] ^ (c["seed"] - e)
        other, *_ = model(dict(c, seed=c["seed"] ^ e))
        require(not np.array_equal(run(other, c)[0], paths[0][0]), f"{c['kind']}: seeds {c['seed']} and {c['seed'] ^ e} give one path")
    fresh = [run(model(dict(c, seed=None))[0], c)[0] for _ in range(2)]
    require(not np.array_equal(*fresh), f"{c['kind']}: two models without a seed give one path")
    if c["kind"] == "OU":
        # The process is linear: four times the noise is twice the path.
        big, *_ = model(dict(c, ssig=4.0 * c["ssig"]))
        close(run(big, c)[0], 2.0 * paths[0][0], np.abs(paths[0][0]).max(), "OU: path with four times the noise", 1e-9)
    moved, *_ = model(c)
    close(run(moved, c, c["t0"] + 0.5)[0], paths[0][0], np.abs(paths[0][0]).max() + 1.0, f"{c['kind']}: path of a shifted window",
          1e-9 if c["kind"] in ("OU", "DW") else np.inf)
    ctx.label(c["kind"], "seed0" if c["seed"] == 0 else "seed")
    ctx.hit()


PLUS = st.sampled_from([-m for k in (7, 8, 10, 15, 16, 20, 31, 32, 53, 61, 63, 64) for m in (2 ** k - 1, 2 ** k)] + [-10 ** k for k in range(1, 13)] + [-9973, -1000003])


def case(kinds, ns, seeds=st.integers(0, 2 ** 40)):
    def one(k):
        dims = [10, 10, 11, 12, 17, 40] if k == "L96" else [g.DIM[k]]
        dts = {"OU": [0.001, 0.01, 0.05, 0.25], "DW": [0.001, 0.01], "L63": [0.001, 0.005, 0.01], "L96": [0.001, 0.01]}[k] + [0.0025, 0.00125, 0.007, 1 / 300]
        return st.fixed_dictionaries({
            "kind": st.just(k), "d": st.sampled_from(dims), "n": ns, "dt": st.sampled_from(dts), "seed": seeds,
            "t0": st.sampled_from([0.0, 0.0, 2.0, -1.0, 0.3, 0.3, 100.0, -60.0, 1500.0, -0.02]), "ssig": g.mag(-1, 0.5), "sigma": g.hexs(60), "theta": g.hexs(3),
            "th": st.sampled_from([0.5, 1.0, 2.0] + ([-1.0, -0.3, 0.0, 4.0, 5.0] if k == "DW" else [-3.0, -5.0, -10.0] if k == "L96" else [])), "sform": st.sampled_from(["scalar", "vector", "matrix", "matrix"]),
            "change": st.booleans(), "mu": st.one_of(st.sampled_from([2.5, -1.0, 1e-3, 300.0]), g.num(-20, 20)), "reps": st.just(300), "len": st.sampled_from([2, 10, 60, 200, 400]), "off": st.lists(st.one_of(st.integers(0, 70).map(lambda k: 1 << k), st.integers(1, 2 ** 64), PLUS, PLUS), max_size=5)})
    return st.sampled_from(kinds).flatmap(one)


def warm():
    g.warm_l63()
    g.warm_l96()


ALL = ["OU", "DW", "L63", "L96"]
SEEDS = st.one_of(st.just(0), st.integers(0, 100), st.integers(0, 2 ** 40))
SUBS = [Sub("law", case(ALL, st.sampled_from([200, 1000, 4000])), check_law, 280, 4000, shards=4),
        Sub("coarse", case(["OU"], st.just(4000)).map(lambda c: dict(c, dt=0.4 + 0.2 * c["change"], th=2.0)), check_law, 20, 300),
        Sub("short", st.tuples(case(ALL, st.integers(1, 5)), g.mag(-5, 0), g.mag(-6, 1)).map(
            lambda t: dict(t[0], step=t[1], ssig=t[2] if t[1] < 0.01 else t[0]["ssig"], reps=max(40, 300 // t[0]["n"]) if t[0]["kind"] in ("OU", "DW") else 60)), check_short, 48, 1200),
        Sub("grid", case(ALL, st.one_of(st.integers(1, 60), st.integers(1, 2500))), check_grid, 160, 3000, shards=2),
        Sub("start", case(ALL, st.just(8), SEEDS), check_start, 40, 600),
        Sub("seeds", case(ALL, st.sampled_from([3, 30, 100]), SEEDS), check_seed, 90, 1500, shards=2)]
