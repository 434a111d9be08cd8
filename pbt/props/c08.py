import numpy as np
from hypothesis import strategies as st
from pbt import gen as g, ref
from pbt.core import Sub, Violation, close, require, sut, unchanged
from pbt.problem import Problem, strategy, warm  # noqa: F401

PROPERTY = "C08"
TITLE = "SDE energy is the expected weighted squared drift mismatch"
RULE = ("value: a case is a path of A(t), b(t), Gaussian moments, drift and (diagonal) noise parameters and observation "
        "times for one system; the energy is compared with the trapezoidal rule on exact quadrature of "
        "0.5 <(f-g)' inv(Sigma) (f-g)> (L96: on the unscented points, which it documents). It is not negative "
        "(OU, DW, L63), zero when g is the drift (OU) and the same for any observation times. correlated: L63 / L96 "
        "with a full noise matrix. Non-trivial: A, b and the mean are not zero.")
ASSUMPTIONS = ["L96 uses the unscented transformation with scaling 1.05 D", "relative tolerance 1e-10 against the "
               "integral of absolute terms"]


def check(c, ctx):
    p = Problem(c)
    model = p.model()
    keep = [np.array(v) for v in (p.A, p.b, p.m, p.S)]
    A, b, m, S = g.layout(c["form"] if p.one else "c", p.A, p.b, p.m, p.S)
    for k in range(c["again"]):              # the model keeps nothing of a call
        p.energy(model, A=A + 1.0, b=b, m=m - 0.5, S=S)
    E, *_ = p.energy(model, A=A, b=b, m=m, S=S)
    unchanged(keep, (A, b, m, S), "energy")
    require(np.size(E) == 1, f"the energy has shape {np.shape(E)}")
    r = p.ref()
    close(float(E), r["Esde"], r["Esde_abs"], f"{p.kind}: Esde", 1e-10)
    require(float(E) >= -1e-10 * r["Esde_abs"], lambda: f"{p.kind}: negative energy {E}")
    E2, *_ = p.energy(model, obs=sorted({0, p.n // 2, p.n - 1}))
    close(float(E2), r["Esde"], r["Esde_abs"], f"{p.kind}: Esde with other observation times", 1e-10)
    if p.kind == "OU":
        E3, *_ = p.energy(model, A=np.full(p.n, p.theta), b=np.zeros(p.n))
        close(float(E3), 0.0, r["Esde_abs"] + p.dt * p.n * p.theta ** 2 * np.max(p.m ** 2 + p.S) / p.dsig[0],
              "OU: energy of the prior process itself", 1e-11)
    ctx.label(*p.labels())
    ctx.hit(p.nontrivial())


extra = {"form": g.LAYOUTS, "again": st.sampled_from([0, 0, 1])}


def check_corr(c, ctx):
    p = Problem(c)
    Q = g.spd(c["Q"], p.d, c["ssig"], 0.2)
    p.sigma = Q
    model = p.model()
    E, *_ = p.energy(model)
    Qi = np.linalg.inv(Q)
    full, diag, mag = [], [], []
    for k in range(p.n):
        x, w = ref.unscented(p.m[k], p.S[k]) if p.kind == "L96" else ref.points(p.m[k], p.S[k], 5)
        r = ref.drift(p.kind, x, p.theta) + x @ p.A[k].T - p.b[k]
        full.append(0.5 * w @ np.einsum("pi,ij,pj->p", r, Qi, r))
        diag.append(0.5 * w @ (r ** 2 @ np.diag(Qi)))
        ra = np.abs(ref.drift(p.kind, x, p.theta)) + np.abs(x) @ np.abs(p.A[k]).T + np.abs(p.b[k])
        mag.append(0.5 * w @ np.einsum("pi,ij,pj->p", ra, np.abs(Qi), ra))
    full, diag, mag = (ref.trapz(v, p.dt) for v in (full, diag, mag))
    tol = 1e-10 * np.linalg.cond(Q)
    if abs(float(E) - full) <= tol * mag:
        pass
    elif abs(float(E) - diag) <= tol * mag:
        ctx.finding("C08-correlated-noise", f"{p.kind}: {float(E)} in place of {full}")
    else:
        raise Violation(f"{p.kind} with a full noise matrix: energy {float(E)!r}; <(f-g)' inv(Sigma) (f-g)> / 2 is "
                        f"{full!r} and its diagonal part {diag!r}")
    ctx.label(p.kind)
    ctx.hit(not np.allclose(Q, np.diag(np.diag(Q))) and p.nontrivial())


SUBS = [Sub("scalar", strategy(["OU", "DW"], extra=extra), check, 800, 12000, shards=2),
        Sub("long", strategy(["OU", "DW", "DW"], extra=extra, sizes=g.LONGER), check, 12, 200),
        Sub("l63", strategy(["L63"], extra=extra), check, 300, 4500, shards=2),
        Sub("l96", strategy(["L96"], extra=extra), check, 120, 2000, shards=3),
        Sub("correlated", strategy(["L63", "L63", "L96"], nmax=5, extra={"Q": g.hexs(100)}), check_corr, 100, 1500,
            shards=2)]
