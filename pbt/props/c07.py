import numpy as np
from hypothesis import strategies as st
from pbt import gen as g, ref
from pbt.core import Sub, close, require, sut, unchanged
from pbt.problem import Problem, strategy, warm  # noqa: F401

PROPERTY = "C07"
TITLE = "Average drift and average drift Jacobian are the Gaussian expectations"
RULE = ("A case is a path of Gaussian moments for one of the four systems (L96 with D = 10..12) with generated drift "
        "parameters; Ef and Edf at every node are compared with quadrature that is exact for the drift's degree, and "
        "do not depend on A, b, the noise or the observation times. Non-trivial: mean and A not zero.")
ASSUMPTIONS = ["quadrature exact for polynomials of the degree of the drift; relative tolerance 1e-10"]


def check(c, ctx):
    p = Problem(c)
    model = p.model()
    _, Ef, Edf, _ = p.energy(model)
    n, d = p.n, p.d
    th = p.theta
    E, J, Ea, Ja = [], [], [], []
    for k in range(n):
        m, S = np.atleast_1d(p.m[k]), np.reshape(p.S[k], (d, d))
        x, w = ref.unscented(m, S) if p.kind == "L96" else ref.points(m, S, 4)
        E.append(w @ ref.drift(p.kind, x, th))
        J.append(np.einsum("p,pij->ij", w, ref.jac(p.kind, x, th)))
        X = np.abs(x).max() + 1.0
        Ea.append(np.abs(ref.drift(p.kind, x, th)).max() + X ** (3 if p.kind == "DW" else 2) * 4 + np.abs(th).max() * X)
        Ja.append(12 * X ** 2 + np.abs(th).max() * 4)
    E, J, Ea, Ja = np.array(E), np.array(J), np.array(Ea), np.array(Ja)
    if p.one:
        close(Ef, E[:, 0], Ea, "average drift", 1e-10)
        close(Edf, J[:, 0, 0], Ja, "average Jacobian", 1e-10)
    else:
        close(Ef, E, Ea[:, None], "average drift", 1e-10)
        close(Edf, J, Ja[:, None, None], "average Jacobian", 1e-10)
    # It is a property of the drift and of the moments only.
    _, Ef2, Edf2, _ = p.energy(model, A=0.5 * p.A + 1.0, b=-p.b, obs=[n - 1])
    close(Ef2, Ef, np.abs(Ef), "average drift for another A, b", 1e-14)
    close(Edf2, Edf, np.abs(Edf), "average Jacobian for another A, b", 1e-14)
    ctx.label(*p.labels())
    ctx.hit(np.any(p.m != 0) and np.any(p.A != 0))


SUBS = [Sub("scalar", strategy(["OU", "DW"]), check, 800, 12000, shards=2),
        Sub("long", strategy(["OU", "DW", "DW"], sizes=g.LONGER), check, 8, 150),
        Sub("l63", strategy(["L63"]), check, 400, 6000, shards=2),
        Sub("l96", strategy(["L96"]), check, 150, 2500, shards=3)]
