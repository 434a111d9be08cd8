import math

import numpy as np
from hypothesis import strategies as st
from pbt import gen as g, ref
from pbt.core import Sub, require, sut
from pbt.gp import GP, smooth, warm  # noqa: F401

PROPERTY = "C13"
TITLE = "The free energy bounds the negative log evidence"
RULE = ("ou: a case is an Ornstein-Uhlenbeck problem (theta, noise, prior, q(0), observations at eighths of the window, any "
        "method) and smooth A(t), b(t); free_energy is compared with -log p(observations) from an exact Kalman filter plus "
        "the exact KL divergence to the smoothing posterior (its drift and q(0) in closed form), extrapolated over grids of "
        "N, 2N, 4N steps; at the posterior itself the bound is tight. dw: the optimised free energy of a double-well problem "
        "is not below -log p(observations) from a transition matrix on a grid of states. exact: free_energy less an independent sum of the "
        "initial divergence, the path energy and the observation energy is zero or vanishes with the step (OU, DW, L63). Non-trivial: the KL gap or, at "
        "the optimum, the pull of the observations is not negligible.")
ASSUMPTIONS = ["ou: extrapolated difference below 0.5 % of the sum of absolute terms (plus 15 % of the first extrapolate)",
               "dw: the bound may be violated by 2 % of the absolute terms plus the difference between two grids of time",
               "the evidence of the continuous-time process is what the bound is about; the error of the discretisation is O(dt)"]


def backward_info(p, tk, Rk):
    """log h(t, x) = -Lam x^2 / 2 + eta x + const, from the observations after
    (strictly) each time; exact OU transitions."""
    n, th, s = p.n, p.theta, float(p.dsig[0])
    Lam, eta = np.zeros(n), np.zeros(n)
    obs = dict(zip(p.obs, p.y))
    e = math.exp(-th * p.dt)
    q = s * (1 - e * e) / (2 * th)
    L, h = 0.0, 0.0
    for k in range(n - 1, -1, -1):
        Lam[k], eta[k] = L, h
        if k in obs:
            L, h = L + 1 / Rk, h + obs[k] / Rk
        L0, h0 = L, h
        # back over one step: x' = e x + N(0, q)
        L, h = e * e * L0 / (1 + q * L0), e * h0 / (1 + q * L0)
    L, h = Lam[0], eta[0]
    if 0 in obs:
        L, h = L + 1 / Rk, h + obs[0] / Rk
    return Lam, eta, L, h


def evidence(p):
    """-log p(y) by the Kalman filter (exact OU transitions)."""
    th, s = p.theta, float(p.dsig[0])
    m, v, t, out, mag = p.mu, p.tau, 0, 0.0, 0.0
    for k, y in zip(p.obs, p.y):
        d = (k - t) * p.dt
        e = math.exp(-th * d)
        m, v, t = e * m, e * e * v + s * (1 - e * e) / (2 * th), k
        r = v + p.R
        out += 0.5 * (math.log(2 * math.pi * r) + (y - m) ** 2 / r)
        mag += 0.5 * (abs(math.log(2 * math.pi * r)) + (y - m) ** 2 / r)
        K = v / r
        m, v = m + K * (y - m), v * (1 - K)
    return out, mag


def check_ou(c, ctx):
    T, N0 = c["T"], c["N"]
    es, scale = [], 0.0
    for N in (N0, 2 * N0, 4 * N0):
        p = GP(dict(c, kind="OU", n=N + 1, dt=T / N, obs=[o * N // 8 for o in c["at"]]), rough=False)
        s = float(p.dsig[0])
        Lam, eta, L0, h0 = backward_info(p, p.tk, p.R)
        sa, sb = p.theta + s * Lam, s * eta
        v0 = 1 / (1 / p.tau + L0)
        m0 = v0 * (p.mu / p.tau + h0)
        if c["opt"] == "posterior":
            A, b = sa.copy(), sb.copy()
            p.m0, p.S0 = m0, v0
        elif c["opt"] == "near":
            A, b = sa + smooth(c["A"], p.tk, (), T, 0.5), sb + smooth(c["b"], p.tk, (), T, 1.0)
        else:
            A, b = 1.5 + smooth(c["A"], p.tk, (), T, 0.7), smooth(c["b"], p.tk, (), T, 2.0)
        v = p.vargp()
        with sut("free_energy"):
            F = v.free_energy(p.x(A, b))
            x2 = p.x(A, b)
        # KL(q || posterior), by the exact moments of q (rk4 on the same grid).
        mt, St, _, _ = ref.forward(A, b, p.m0, p.S0, s, p.dt, "heun")
        u, w = sa - A, b - sb
        r = u * mt + w
        kl = ref.kl(p.m0, p.S0, m0, v0) + 0.5 * ref.trapz(r * r + u * u * St, p.dt) / s
        nle, mag = evidence(p)
        R = p.reference(A, b)
        es.append(F - nle - kl)
        scale = mag + kl + (R["F_abs"] if R else abs(F))
        require(math.isfinite(F), "the free energy is not finite")
        ctx.hit(kl > 1e-3 or (c["opt"] == "posterior" and np.abs(s * Lam).max() > 1e-3))
    r1, r2 = 2 * es[1] - es[0], 2 * es[2] - es[1]
    ext = (4 * r2 - r1) / 3
    require(abs(ext) <= 0.005 * scale + 0.15 * abs(r1), lambda: f"OU/{c['method']}: free energy minus (-log evidence + KL to the "
            f"posterior) is {[float(e) for e in es]} on {N0}, {2 * N0}, {4 * N0} steps: {ext:.5f} for dt -> 0, of {scale:.3f}")
    ctx.label(c["method"], c["opt"], f"obs{len(c['at'])}")


def grid(p, N, T, sub):
    """Euler-Maruyama of the double well on a grid of states, `sub` steps per
    step: -log p(y), and the smoothed mean and variance at the initial time."""
    s = float(p.dsig[0])
    h = T / (N * sub)
    lim = 2.2 + math.sqrt(p.theta) + abs(p.mu) + 3 * math.sqrt(p.tau)
    w = math.sqrt(s * h)
    K = int(min(1400, max(300, 2 * lim / (0.6 * w))))
    x = np.linspace(-lim, lim, K)
    nxt = x + h * np.clip(4 * x * (p.theta - x * x), -1 / h, 1 / h)
    P = np.exp(-0.5 * ((x[None, :] - nxt[:, None]) / w) ** 2)
    P /= P.sum(axis=1, keepdims=True)
    prior = np.exp(-0.5 * (x - p.mu) ** 2 / p.tau)
    prior /= prior.sum()
    obs = dict(zip(p.obs, p.y))
    u, out = np.ones(K), 0.0
    for k in range(N, -1, -1):
        if k in obs:
            u = u * np.exp(-0.5 * (obs[k] - x) ** 2 / p.R) / math.sqrt(2 * math.pi * p.R)
            z = u.max()
            out -= math.log(z)
            u /= z
        if k:
            for _ in range(sub):
                u = P @ u
    q = prior * u
    z = q.sum()
    q /= z
    m = q @ x
    return out - math.log(z), m, q @ (x - m) ** 2


def check_dw(c, ctx):
    from src.numerics.optim_scg import SCG
    T, N = c["T"], c["N"]
    F, F0, post = [], [], None
    for n in (N, 2 * N):
        p = GP(dict(c, kind="DW", n=n + 1, dt=T / n, obs=[o * n // 8 for o in c["at"]]), rough=False)
        p.y, p.R = 0.7 * p.y, p.R + 0.3
        post = post or grid(p, n, T, 1)
        p.m0, p.S0 = float(post[1]), float(post[2])
        v = p.vargp()
        with sut("initialization and optimisation"), g.quiet():
            x0 = v.initialization()
            x0[:p.n] = np.maximum(x0[:p.n], 1.0)
            F0.append(v.free_energy(x0))
            x, fx = SCG(v.free_energy, v.gradient, {"max_it": c["it"]})(x0)
            F.append(v.free_energy(x))
    nle = [grid(p, 2 * N, T, k)[0] for k in (1, 2)]
    best = 2 * nle[1] - nle[0]
    slack = 0.02 * (abs(best) + abs(F[1])) + 2 * abs(F[1] - F[0]) + 2 * abs(nle[1] - nle[0]) + 0.02
    require(F[1] <= F0[1] + 1e-9 * abs(F0[1]), f"DW: optimised from {F0[1]} to {F[1]}")
    require(F[1] >= best - slack, lambda: f"DW/{c['method']}: the free energy {F[1]} (of {F0[1]} at the start) is below "
            f"-log p(observations) = {best} (allowed {slack:.3f})")
    ctx.label(c["method"], f"gap{min(int((F[1] - best) / 0.5), 5)}")
    ctx.hit(F[1] - best < 1.0 + slack)


def check_exact(c, ctx):
    """free_energy less KL0 + Esde + Eobs (whose sum is KL to the posterior less the log evidence): zero, or a mere
    effect of the time step, which vanishes with it."""
    T, N0 = c["T"], c["N"]
    es, scale = [], 0.0
    for N in (N0, 2 * N0, 4 * N0):
        p = GP(dict(c, n=N + 1, dt=T / N, obs=[o * N // 8 for o in c["at"]]), rough=False)
        d = p.d
        shA, shb = ((), ()) if p.one else ((d, d), (d,))
        A = (2.0 if p.one else 2.0 * np.eye(d)) + smooth(c["A"], p.tk, shA, T, 0.7)
        b = smooth(c["b"], p.tk, shb, T, 2.0)
        R = p.reference(A, b)
        if R is None:
            ctx.label("not-positive-definite")
            return
        v = p.vargp()
        with sut("free_energy"):
            es.append(float(v.free_energy(p.x(A, b))) - R["F"])
        require(math.isfinite(es[-1]), "the free energy is not finite")
        scale = R["F_abs"]
    r1, r2 = 2 * es[1] - es[0], 2 * es[2] - es[1]
    ext = (4 * r2 - r1) / 3
    require(abs(ext) <= 1e-8 * scale + 0.6 * max(map(abs, es)), lambda: f"{c['kind']}/{c['method']}: free energy less the sum of "
            f"its terms is {es} on {N0}, {2 * N0}, {4 * N0} steps: it does not vanish with dt")
    ctx.label(c["kind"], c["method"], f"obs{len(c['at'])}")
    ctx.hit()


base = {"method": st.sampled_from(g.METHODS), "at": g.obs_times(9, 5, 1), "m0": g.hexs(1), "S0": g.hexs(1), "y": g.hexs(8),
        "R": g.hexs(1), "mu": g.hexs(1), "tau": g.hexs(1), "H": st.just(0), "theta": g.hexs(1), "sigma": g.hexs(1),
        "t0": st.sampled_from([0.0, 1.0]), "oform": st.sampled_from(["list", "array"])}
OU = st.fixed_dictionaries({**base, "T": st.sampled_from([0.5, 1.0, 2.0]), "N": st.sampled_from([32, 64]), "A": g.hexs(4),
                            "b": g.hexs(4), "ssig": g.mag(-0.7, 0.5), "opt": st.sampled_from(["posterior", "near", "far"])})
DW = st.fixed_dictionaries({**base, "T": st.sampled_from([0.5, 1.0]), "N": st.sampled_from([64]), "ssig": g.mag(-0.3, 0.5),
                            "it": st.sampled_from([20, 50])})
def exact(kinds, w):
    return st.fixed_dictionaries({**base, "kind": st.sampled_from(kinds), "m0": g.hexs(w), "S0": g.hexs(w * w), "y": g.hexs(8 * w),
                                  "R": g.hexs(w * w), "mu": g.hexs(w), "tau": g.hexs(w * w), "theta": g.hexs(3), "sigma": g.hexs(w),
                                  "H": st.sampled_from([0, 0, 1]) if w > 1 else st.just(0), "ssig": g.mag(-0.5, 1),
                                  "A": g.hexs(4 * w * w), "b": g.hexs(4 * w), "N": st.just(24 if w > 1 else 32),
                                  "T": st.sampled_from([0.2, 0.4] if w > 1 else [0.5, 1.0, 2.0]),
                                  "sr": st.sampled_from([2.0, 2.0, 0.01, 50.0]), "sy": st.sampled_from([2.0, 2.0, 0.02, 20.0])})


SUBS = [Sub("ou", OU, check_ou, 400, 6000, shards=4), Sub("dw", DW, check_dw, 60, 800, shards=4),
        Sub("exact-scalar", exact(["OU", "DW"], 1), check_exact, 80, 2000, shards=2),
        Sub("exact-l63", exact(["L63"], 3), check_exact, 30, 600, shards=2)]
