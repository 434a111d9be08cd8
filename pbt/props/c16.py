import math

import numpy as np
from hypothesis import strategies as st
from pbt import gen as g
from pbt.core import Sub, close, expect, require, sut, unchanged
from pbt.stats import lagged, shape

PROPERTY = "C16"
TITLE = "Observations are equidistant, inside the window, with the stated noise"
RULE = ("A case is a path (any values, one or many components) on a uniform window, a density, an observation noise (scalar, "
        "vector, matrix) and a mask (none, booleans or indexes). There are floor(|T| n) sorted, distinct times inside the "
        "window, gaps differ by at most one step, values are the observed components plus noise whose whitened residuals have "
        "mean 0, identity covariance, Gaussian shape and no correlation at any lag (pooled: over 400 samples too), the path does not change, four times the noise doubles the residuals, denser than "
        "the grid is rejected. Non-trivial: at least two observations.")
ASSUMPTIONS = ["a full matrix of observation noise is reduced to its diagonal (documented in the code), which is what "
               "collect_obs returns", "|T| n within 1e-9 of a whole number may be rounded either way",
               "statistical thresholds of 7 standard errors"]


def setup(c, scale=1.0, seed=None):
    d, n = c["d"], c["n"]
    kind = {1: "OU", 3: "L63"}.get(d, "L96")
    m = g.make_model(kind, 1.0, {1: 1.0, 3: np.array([10., 28., 2.6])}.get(d, 8.0), c["seed"] if seed is None else seed, d)
    path = 5.0 * np.cumsum(g.dec(c["x"], (n,) if d == 1 else (n, d)), axis=0)
    m.sample_path = path
    m.time_window = c["t0"] + c["dt"] * np.arange(n)
    mask = None
    cols = np.arange(d)
    if d > 1 and c["mask"] != "none":
        bits = np.resize(np.frombuffer(bytes.fromhex(c["m"]), np.uint8) % 2 == 1, d)
        bits[c["first"] % d] = True
        cols = np.flatnonzero(bits)
        mask = {"bool": bits, "list": [bool(b) for b in bits], "index": cols, "indexlist": [int(k) for k in cols],
                "empty": []}[c["mask"]]
        if c["mask"] == "empty":
            cols = np.arange(d)
    o = len(cols)
    if d == 1:
        R, D = scale * c["r"], np.array([scale * c["r"]])
    elif c["rform"] == "scalar":
        R = scale * c["r"]
        D = np.full(o, R)
    elif c["rform"] == "vector":
        R = D = scale * g.pos(c["R"], o, c["r"], 0.1)
    else:
        R = scale * g.spd(c["R"], o, c["r"], 0.1)
        D = np.diag(R).copy()
    return m, path, mask, cols, R, D


def collect(c, m, R, mask, what="collect_obs"):
    with sut(what), g.quiet():
        t, y, r = m.collect_obs(c["dens"], R, mask)
        return np.array(t) if len(t) else np.zeros(0, int), np.array(y, float), np.array(r, float)


def check(c, ctx):
    m, path, mask, cols, R, D = setup(c)
    n, d, dt = c["n"], c["d"], c["dt"]
    keep = [path.copy(), np.array(R), m.time_window.copy()]
    t, y, r = collect(c, m, R, mask)
    unchanged(keep, [m.sample_path, R, m.time_window], "collect_obs: the path, the noise or the window")
    T = (n - 1) * dt * c["dens"]
    slack = 1e-9 * (T + 1.0 + c["dens"] * abs(c["t0"]))
    want = {math.floor(T - slack), math.floor(T + slack)}
    require(t.size in want, f"{t.size} observations of density {c['dens']} in a window of {(n - 1) * dt}")
    require(t.ndim == 1 and (t.size == 0 or t.dtype.kind in "iu"), f"observation times are {t.dtype} of shape {t.shape}")
    M = t.size
    if M:
        require(t[0] >= 0 and t[-1] <= n - 1, f"observation times {t[0]}..{t[-1]} for {n} time points")
        gaps = np.diff(t)
        require(np.all(gaps > 0), "observation times are not sorted and distinct")
        ends = np.r_[t[0], gaps, n - t[-1]]
        require(ends.max() - ends.min() <= 1, f"observations are not equidistant in {n} points: {t[:20]}")
    o = len(cols)
    require(y.shape == ((M,) if d == 1 else (M, o)), f"observations have shape {y.shape}: {M} times, {o} components")
    close(r, D[0] if d == 1 else np.diag(D), D.max(), "returned observation noise", 1e-12)
    truth = path[t] if d == 1 else path[t][:, cols]
    require(np.all(np.isfinite(y)), "an observation is not finite")
    z = ((y - truth) / np.sqrt(D)).reshape(M, o)
    if M:
        require(np.abs(z).max() < 7 + 1e-9, lambda: f"an observation is {np.abs(z).max():.1f} standard deviations off the path")
        a = np.abs(z.mean(axis=0)) * math.sqrt(M)
        require(a.max() < 7, lambda: f"the observation noise has a mean of {a.max():.1f} standard errors")
    if M >= 200:
        C = (z.T @ z / M - np.eye(o)) * math.sqrt(M)
        C[np.diag_indices(o)] /= math.sqrt(2)
        require(np.abs(C).max() < 7.5, lambda: f"covariance of the observation noise is {np.abs(C).max():.1f} standard errors off")
        L = np.abs(z[1:].T @ z[:-1]) / math.sqrt(M)
        require(L.max() < 7.5, lambda: f"noise of successive observations correlates, {L.max():.1f} standard errors")
    if M:
        shape(z.ravel(), "observation noise")
        for i in range(o):
            lagged(z[:, i], z[:, i], f"observation noise {i}", 1)
            if i:
                lagged(z[:, i - 1], z[:, i], f"observation noises {i - 1} and {i}", 0)
    # The same seed with four times the noise: twice the residuals.
    m2, path2, mask2, _, R2, _ = setup(c, 4.0)
    t2, y2, r2 = collect(c, m2, R2, mask2)
    require(np.array_equal(t, t2), "observation times depend on the noise")
    close(y2 - truth, 2.0 * (y - truth), np.abs(truth).max(initial=0) + np.abs(y - truth).max(initial=0) + 1e-12,
          "residuals with four times the noise", 1e-9)
    # A second sample has other noise.
    t3, y3, _ = collect(c, m, R, mask)
    require(np.array_equal(t, t3) and (M == 0 or not np.array_equal(y, y3)), "a second sample repeats the first")
    if M >= 200:
        z3 = ((y3 - truth) / np.sqrt(D)).reshape(M, o)
        X = np.abs(np.sum(z * z3, axis=0)) / math.sqrt(M)
        for i in range(o):
            lagged(z[:, i], z3[:, i], "two samples", 0)
        require(X.max() < 7.5, lambda: f"two samples have the same noise, {X.max():.1f} standard errors")
    ctx.label(f"d{d}", c["mask"] if d > 1 else "1-D", c["rform"] if d > 1 else "1-D", f"M{len(str(M))}digits",
              "full" if M == n - 1 else "")
    ctx.hit(M >= 2)


def check_pooled(c, ctx):
    """Few observations, drawn many times: independent of each other too."""
    m, path, mask, cols, R, D = setup(c)
    z = []
    for _ in range(400):
        t, y, _ = collect(c, m, R, mask)
        if not t.size:
            return
        truth = path[t] if c["d"] == 1 else path[t][:, cols]
        z.append(((y - truth) / np.sqrt(D)).ravel())
    z = np.array(z)
    N, k = z.shape
    a = np.abs(z.mean(axis=0)) * math.sqrt(N)
    require(a.max() < 7, lambda: f"the observation noise has a mean of {a.max():.1f} standard errors")
    C = (z.T @ z / N - np.eye(k)) * math.sqrt(N)
    C[np.diag_indices(k)] /= math.sqrt(2)
    require(np.abs(C).max() < 8, lambda: f"covariance of the noise of {k} values is {np.abs(C).max():.1f} standard errors off")
    shape(z.ravel(), "observation noise of many samples")
    for i in range(k):
        lagged(z[:, i], z[:, i], f"noise of value {i} in many samples", 1)
    ctx.label(f"d{c['d']}", f"values{k}")
    ctx.hit(k >= 2)


def check_reject(c, ctx):
    m, path, mask, cols, R, D = setup(c)
    keep = path.copy()
    cap = int(round(1.0 / c["dt"], 6))
    for dens in (cap + 1, cap + c["more"], 10 * cap + 1):
        with g.quiet():
            expect(ValueError, f"density {dens} with {cap} points per time unit", m.collect_obs, dens, R, mask)
    unchanged([keep], [m.sample_path], "collect_obs")
    new, *_ = setup(c)
    for attr in ("sample_path", "time_window"):
        e, *_ = setup(c)
        setattr(e, attr, None)
        with g.quiet():
            expect(NotImplementedError, f"collect_obs without {attr}", e.collect_obs, 1, R, mask)
    t, y, r = collect(dict(c, dens=cap), m, R, mask, "collect_obs at one observation per step")
    require(abs(t.size - (c["n"] - 1) * c["dt"] * cap) <= 1 + 1e-6, f"{t.size} observations in {c['n']} points")
    ctx.hit(c["n"] > 3)


def case(ds, ns):
    def one(dt):
        cap = int(round(1.0 / dt, 6))
        return st.fixed_dictionaries({
            "d": st.sampled_from(ds), "n": ns, "dt": st.just(dt), "dens": st.one_of(
                st.integers(1, cap), st.just(cap), st.integers(1, min(cap, 10)), st.floats(0.5, cap).map(lambda v: round(v, 2))),
            "t0": st.sampled_from([0.0, 0.0, 1.0, -3.0]), "x": g.hexs(60), "seed": st.integers(0, 2 ** 31),
            "mask": st.sampled_from(["none", "none", "bool", "list", "index", "indexlist", "empty"]), "m": g.hexs(12),
            "first": st.integers(0, 44), "r": g.mag(-3, 1), "R": g.hexs(100), "more": st.integers(1, 50),
            "rform": st.sampled_from(["scalar", "vector", "matrix"])})
    return st.sampled_from([0.001, 0.01, 0.02, 0.05, 0.1, 0.25, 0.5, 0.0025, 0.007, 1 / 300, 0.03, 1.0]).flatmap(one)


NS = st.one_of(st.integers(2, 12), st.integers(2, 300), st.sampled_from([2000, 6000]))
SUBS = [Sub("sample", case([1, 1, 3, 3, 10, 11], NS), check, 800, 16000, shards=4),
        Sub("wide", case([40, 45], st.sampled_from([2, 30, 300, 1000])), check, 60, 1000),
        Sub("pooled", case([1, 1, 3, 10], st.integers(4, 24)).map(lambda c: dict(c, dens=min(c["dens"], max(1, math.ceil(12 / (c["n"] * c["dt"])))))), check_pooled, 30, 600),
        Sub("reject", case([1, 3, 10], st.integers(2, 200)), check_reject, 120, 2000, shards=1)]
