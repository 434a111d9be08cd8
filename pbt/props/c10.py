import numpy as np
from hypothesis import strategies as st
from pbt import gen as g, ref
from pbt.core import Sub, close, require, sut, unchanged
from pbt.problem import Problem, strategy, warm  # noqa: F401

PROPERTY = "C10"
TITLE = "Gradients of the SDE energy w.r.t. drift and noise parameters"
RULE = ("closed: a case is a path for one of the four systems; dEsde/dtheta and dEsde/dSigma against quadrature. "
        "difference: the energy is quadratic in theta and linear in 1/sigma, so that differences of the energy itself, "
        "through the setters of the model, give the derivatives exactly; also dEsde/dtheta after the changes, against a fresh "
        "model. Non-trivial: A, b and the mean are not zero.")
ASSUMPTIONS = ["noise matrices are diagonal", "L96: component q of dEsde/dtheta is the derivative w.r.t. a forcing of "
               "component q (their sum, for a scalar forcing)", "relative tolerance 1e-10 (quadrature), 1e-9 (differences)"]


def sig_ref(p, r):
    i = ref.trapz(r["Er2"], p.dt)
    return -0.5 * i / p.dsig ** 2


def scale_th(p, r):
    x = np.abs(p.m).max() + 6 * np.sqrt(np.abs(p.S).max())
    return (r["Esde_abs"] + np.sqrt(r["Esde_abs"] * p.dt * p.n / p.dsig.min()) * 4 * x) + \
        p.dt * p.n * x * (x + 1) / p.dsig.min()


def check(c, ctx):
    p = Problem(c)
    model = p.model()
    E, _, _, (_, _, dth, dsig) = p.energy(model)
    r = p.ref()
    th = ref.trapz(r["dth"], p.dt)
    close(np.reshape(dth, th.shape), th, scale_th(p, r), f"{p.kind}: dEsde/dtheta", 1e-10)
    s = sig_ref(p, r)
    if p.one:
        close(float(dsig), s[0], r["Esde_abs"] / p.dsig[0], f"{p.kind}: dEsde/dSigma", 1e-10)
    else:
        close(dsig, np.diag(s), r["Esde_abs"] / p.dsig.min(), f"{p.kind}: dEsde/dSigma", 1e-10)
    ctx.label(*p.labels(), p.c["tform"] if p.kind == "L96" else "")
    ctx.hit(p.nontrivial())


def check_diff(c, ctx):
    p = Problem(c)
    model = p.model()
    r = p.ref()
    E0, _, _, (_, _, dth, dsig) = p.energy(model)
    th0 = p.theta
    v = g.dec(c["v"], np.shape(th0) or 1, 1.0)
    if p.kind == "OU":
        v = 0.8 * v * th0
    v = v if np.shape(th0) else float(v[0])

    def at(t):
        with sut("theta setter"):
            model.theta = t
        return p.energy(model)
    mag = p.ref(theta=np.abs(th0) + np.abs(v))["Esde_abs"] + r["Esde_abs"]
    if p.kind == "L96" and not np.shape(th0):
        an = float(np.sum(dth) * v)
    else:
        an = float(np.sum(np.ravel(dth) * np.ravel(v)))
    num = 0.5 * (float(at(th0 + v)[0]) - float(at(th0 - v)[0]))
    close(num, an, mag, f"{p.kind}: difference of the energy along theta", 1e-9)
    back = at(th0)
    close(float(back[0]), float(E0), r["Esde_abs"], "energy after theta was set back", 1e-13)
    close(back[3][2], dth, scale_th(p, r), "dEsde/dtheta after theta was set back", 1e-13)
    # Noise: E(sigma) = sum_i c_i / sigma_i.
    k = c["k"] % p.dsig.size
    f = c["f"]
    new = p.dsig.copy()
    new[k] *= f
    with sut("sigma setter"):
        model.sigma = float(new[0]) if p.one else np.diag(new)
    E1, _, _, (_, _, _, dsig1) = p.energy(model)
    ck = (float(E1) - float(E0)) / (1 / new[k] - 1 / p.dsig[k])
    an0 = float(dsig) if p.one else float(dsig[k, k])
    an1 = float(dsig1) if p.one else float(dsig1[k, k])
    amp = r["Esde_abs"] * (1 + 1 / f) / abs(1 / f - 1)
    close(-ck / p.dsig[k] ** 2, an0, amp / p.dsig[k], f"{p.kind}: difference of the energy along sigma", 1e-10)
    close(-ck / new[k] ** 2, an1, amp / (f * p.dsig[k]) * (1 + 1 / f), f"{p.kind}: dEsde/dSigma at the new noise", 1e-10)
    ctx.label(p.kind, p.c["tform"] if p.kind == "L96" else "")
    ctx.hit(np.any(np.asarray(v) != 0) and p.nontrivial())


ex = {"v": g.hexs(12), "k": st.integers(0, 11), "f": st.sampled_from([0.25, 0.5, 2.0, 3.0, 7.0])}

SUBS = [Sub("closed-scalar", strategy(["OU", "DW"]), check, 600, 9000, shards=2),
        Sub("closed-long", strategy(["OU", "DW", "DW"], sizes=g.LONGER), check, 12, 200),
        Sub("closed-l63", strategy(["L63"]), check, 250, 4000, shards=2),
        Sub("closed-l96", strategy(["L96"]), check, 100, 1600, shards=2),
        Sub("difference", strategy(["OU", "DW", "L63", "L96"], nmax=6, extra=ex, wide=False), check_diff, 240, 4000, shards=3)]
