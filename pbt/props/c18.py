import numpy as np
from hypothesis import strategies as st
from pbt import gen as g
from pbt.core import Sub, close, require, sut, unchanged
from pbt.gp import GP, strategy, warm  # noqa: F401

PROPERTY = "C18"
TITLE = "The initial guess is a finite process that follows the observations"
RULE = ("A case is a problem (OU, DW, L63, L96) with 1 to n observations anywhere, both end points included. initialization() "
        "has one entry per parameter, all finite; A is constant, diagonal and positive, with stationary variance 0.25 (the noise may be correlated); 1-D: b "
        "takes the observed values; n-D: one Euler step per grid step from the first observation reproduces every observation, "
        "and the mean stays at rest when all the observations agree; nothing is modified. Non-trivial: at least two observations.")
ASSUMPTIONS = ["all the components are observed (n-D)", "tolerance 1e-9 relative to the range of b times dt"]


def check(c, ctx):
    p = GP(dict(c, H=0, ssig=min(c["ssig"], 10.0)), rough=False)
    n, d, dt = p.n, p.d, p.dt
    if c["full"] and d > 1:     # correlated noise: only its diagonal matters here
        Q = g.spd(c["Q"], d, 1.0, 0.2)
        r = np.sqrt(p.dsig / np.diag(Q))
        Q = Q * np.outer(r, r)
        p.sigma = lambda: Q.copy()
        ctx.label("correlated-noise")
    if c["const"]:
        p.y = np.repeat(p.y[:1], len(p.y), axis=0)
    elif c["close"]:
        p.y = p.y[:1] + c["close"] * p.y
    v = p.vargp()
    keep = [np.array(p.y), np.array(p.obs), v.model.time_window.copy(), np.array(v.model.sample_path)]
    with sut("initialization"):
        x = v.initialization()
    unchanged(keep, [v.obs_y, v.obs_t, v.model.time_window, v.model.sample_path], "initialization")
    x = np.asarray(x, float)
    require(x.shape == (n * d * (d + 1),), f"{p.kind}: initial guess of shape {x.shape}, for {n} times and {d} components")
    require(np.all(np.isfinite(x)), f"{p.kind}: the initial guess is not finite")
    A, b = x[:n * d * d].reshape(n, d, d), x[n * d * d:].reshape(n, d)
    want = np.broadcast_to(np.diag(p.dsig / (2 * 0.25)), (n, d, d))
    close(A, want, p.dsig.max(), f"{p.kind}: A of the initial guess", 1e-10)
    y = p.y.reshape(len(p.obs), d)
    big = np.abs(y).max() + 1e-6
    if d == 1:
        close(b[p.obs], y, np.abs(b).max() + big, f"{p.kind}: b at the observation times", 1e-9)
        close(b[[0, -1]], y[[0, -1]], np.abs(b).max() + big, f"{p.kind}: b at the end points", 1e-9)
        if c["const"]:
            close(b, np.full((n, 1), y[0, 0]), big, f"{p.kind}: b for equal observations", 1e-9)
    else:
        m = np.zeros((n, d))
        m[0] = y[0]
        for k in range(n - 1):
            m[k + 1] = m[k] + dt * (b[k] - A[k] @ m[k])
        sc = np.abs(m).max() + dt * np.abs(b).sum() + big
        close(m[p.obs], y, sc, f"{p.kind}: mean of the initial guess at the observation times", 1e-9)
        close(m[-1], y[-1], sc, f"{p.kind}: mean of the initial guess at the end", 1e-9)
        close(b[-1], A[-1] @ m[-1], sc / dt, f"{p.kind}: b at the end (at rest)", 1e-9)
        if c["const"]:
            close(m, np.repeat(y[:1], n, axis=0), sc, f"{p.kind}: mean for equal observations", 1e-9)
    with sut("initialization, again"):
        require(np.array_equal(v.initialization(), x), "a second call gives another guess")
    if c["energy"] and not (c["full"] and d > 1) and p.method == "euler" and np.all(p.dsig * dt < 0.05) and np.abs(b).max() * dt < 1.0 and np.abs(b).max() < 1e3:
        with sut("free energy of the initial guess"):
            require(np.isfinite(v.free_energy(x)), f"{p.kind}: free energy of the initial guess is not finite")
        ctx.label("energy")
    ctx.label(p.kind, f"obs{min(len(p.obs), 4)}", "start" if p.obs[0] == 0 else "", "end" if p.obs[-1] == n - 1 else "")
    ctx.hit(len(p.obs) >= 2)


ex = {"full": st.booleans(), "Q": g.hexs(40), "const": st.sampled_from([False, False, True]), "close": st.sampled_from([0, 0, 0, 1e-8, 1e-6, 1e-3]), "energy": st.booleans()}
SUBS = [Sub("scalar", strategy(["OU", "DW"], nmax=60, extra=ex), check, 800, 14000, shards=3),
        Sub("long", strategy(["OU", "DW"], extra=ex, sizes=g.LONGER), check, 20, 300),
        Sub("l63", strategy(["L63"], nmax=60, extra=ex), check, 300, 6000, shards=3),
        Sub("l96", strategy(["L96"], nmax=40, extra=ex), check, 60, 1000, shards=2)]
