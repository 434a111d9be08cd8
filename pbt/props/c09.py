import numpy as np
from hypothesis import strategies as st
from pbt import gen as g, ref
from pbt.core import Sub, close, require, sut, unchanged
from pbt.problem import Problem, strategy, warm  # noqa: F401

PROPERTY = "C09"
TITLE = "Gradients of the SDE energy w.r.t. means and covariances"
RULE = ("exact: a case is a path for OU / DW / L63; dEsde/dm and dEsde/dS at every node against exact quadrature of "
        "E[grad h] and E[Hessian h]/2 (h the integrand), with a symmetric dEsde/dS. difference: the energy itself is "
        "differenced (five-point rule) along a generated direction, at inner nodes where the weight of the trapezoidal "
        "rule is dt. stein: L96 against Stein's identity on the unscented points, as documented. Non-trivial: A, b "
        "and the mean are not zero.")
ASSUMPTIONS = ["the derivative w.r.t. S treats its entries as independent, so that dE = <dEsde/dS, dS> for a symmetric "
               "dS", "relative tolerance 1e-9 against the expectation of absolute terms"]


def check(c, ctx):
    p = Problem(c)
    model = p.model()
    A, b, m, S = g.layout(c["form"] if p.one else "c", p.A, p.b, p.m, p.S)
    keep = [np.array(v) for v in (A, b, m, S)]
    for _ in range(c["again"]):
        p.energy(model, A=A + 1.0, b=b, m=m - 0.5, S=S)
    _, _, _, (dm, dS, *_) = p.energy(model, A=A, b=b, m=m, S=S)
    unchanged(keep, (A, b, m, S), "energy")
    r = p.ref()
    if p.kind == "L96":
        Si = np.array([np.linalg.inv(s) for s in p.S])
        nS = np.abs(Si).max(axis=(1, 2)) * p.d
        x = np.abs(p.m).max(axis=1) + 10.0 * np.sqrt(np.abs(p.S).max(axis=(1, 2)))
        cond = np.array([np.linalg.cond(s) for s in p.S])
        sm, sS = r["E_abs"] * nS * x * cond, r["E_abs"] * (nS ** 2 * 100 * np.abs(p.S).max() + nS) * cond
        close(dm, r["dm"], sm[:, None], "L96: dEsde/dm", 1e-11)
        close(dS, r["dS"], sS[:, None, None], "L96: dEsde/dS", 1e-11)
    else:
        e = lambda v: v[:, 0] if p.one else v
        f = lambda v: v[:, 0, 0] if p.one else v
        big = np.max(r["dm_abs"], axis=1)
        bigS = np.max(r["dS_abs"], axis=(1, 2))
        sh = (slice(None),) + (None,) * (0 if p.one else 1)
        close(dm, e(r["dm"]), big[sh], f"{p.kind}: dEsde/dm", 1e-10)
        sh = (slice(None),) + (None,) * (0 if p.one else 2)
        close(dS, f(r["dS"]), bigS[sh], f"{p.kind}: dEsde/dS", 1e-10)
    if not p.one:
        scale = np.abs(dS).max(axis=(1, 2), keepdims=True) + 1e-8
        close(dS, np.swapaxes(dS, 1, 2), scale if p.kind != "L96" else np.maximum(1e3 * scale, 1e-2 * sS[:, None, None]),
              "symmetry of dEsde/dS", 1e-9)
    ctx.label(*p.labels())
    ctx.hit(p.nontrivial())


def check_diff(c, ctx):
    """Only outputs of energy() are used: its value and its gradients."""
    p = Problem(c)
    model = p.model()
    n = p.n
    r = p.ref()
    _, _, _, (dm, dS, *_) = p.energy(model)
    u = g.dec(c["u"], p.m.shape, np.abs(p.m).max() + 0.5)
    V = g.dec(c["v"], p.S.shape, 1.0)
    if not p.one:
        V = 0.5 * (V + np.swapaxes(V, 1, 2))
    lim = np.min(p.S) if p.one else min(np.linalg.eigvalsh(s).min() for s in p.S)
    V = V * 0.9 * lim / max(1e-12, np.abs(V).max() * (1 if p.one else p.d)) / 2.0
    for w in (u, V):
        w[0] = 0
        w[-1] = 0
    E = lambda h, k: float(p.energy(model, **{"m": p.m + h * u} if k == "m" else {"S": p.S + h * V})[0])
    for k, an in (("m", np.sum(dm * u)), ("S", np.sum(dS * V))):
        # Exact for polynomials of degree 6 along a line (the energy is one).
        num = sum(w * (E(h, k) - E(-h, k)) for h, w in ((1, 3 / 4), (2, -3 / 20), (3, 1 / 60))) if k == "m" else \
            sum(w * (E(h, k) - E(-h, k)) for h, w in ((0.5, 3 / 2), (1, -3 / 10), (1.5, 1 / 30)))
        mag = sum(float(ref.energy(p.kind, np.abs(p.A), np.abs(p.b), np.abs(p.m) + 3 * np.abs(u), p.S * (
            1 if k == "m" else 2.0) , p.theta, p.inv(), p.dt)["Esde_abs"]) for _ in (0,)) + r["Esde_abs"]
        close(num, p.dt * an, mag, f"{p.kind}: difference of the energy along {k}", 1e-9)
    ctx.label(p.kind)
    ctx.hit(np.any(u != 0) and np.any(V != 0) and p.nontrivial())


extra = {"form": g.LAYOUTS, "again": st.sampled_from([0, 0, 1])}
uv = {"u": g.hexs(60), "v": g.hexs(60)}

SUBS = [Sub("exact-scalar", strategy(["OU", "DW"], extra=extra), check, 800, 12000, shards=2),
        Sub("exact-long", strategy(["OU", "DW", "DW"], extra=extra, sizes=g.LONGER), check, 12, 200),
        Sub("exact-l63", strategy(["L63"], extra=extra), check, 300, 4500, shards=2),
        Sub("stein-l96", strategy(["L96"], extra=extra), check, 120, 2000, shards=3),
        Sub("difference", strategy(["OU", "DW", "L63", "L63"], extra=uv, wide=False), check_diff, 200, 3000, shards=3)]
