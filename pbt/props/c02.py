import numpy as np
from hypothesis import strategies as st
from scipy.linalg import expm
from src.var_bayes.fwd_ode import FwdOde
from pbt import gen as g, ref
from pbt.core import Sub, close, expect, require, sut, unchanged

PROPERTY = "C02"
TITLE = "Forward sweep solves the moment equations"
RULE = ("recursion: a case is (method, 1-D or D = 1..5, number of nodes, dt, arbitrary A(t), b(t), m0, S0, Sigma, memory "
        "layout); both outputs are compared at every node with the Runge-Kutta tableau of the named method applied to "
        "the vectorised linear equations, and with one step of it from the node before. Non-trivial: at least 3 nodes, A not zero and (nD) A not symmetric. "
        "order: constant A and linear b against the matrix exponential, with the a-priori error bound of the "
        "method's order. errors: unknown methods and non-positive steps are rejected.")
ASSUMPTIONS = ["values at half steps are the mean of the neighbouring nodes",
               "tolerance 1e-10 relative to the same recursion on absolute values"]


def fields(c, d):
    n = c["n"]
    if d == 0:
        A = g.near(c, g.dec(c["A"], n, c["sa"]))
        return A, g.near(c, g.dec(c["b"], n, c["sb"])), float(g.dec(c["m0"], 1, 2.0)[0]), float(g.pos(c["S0"], 1, c["ss"])[0]), \
            float(g.pos(c["Q"], 1, c["ss"])[0])
    A = g.near(c, g.dec(c["A"], (n, d, d), c["sa"]))
    return A, g.near(c, g.dec(c["b"], (n, d), c["sb"])), g.dec(c["m0"], d, 2.0), g.near(c, g.spd(c["S0"], d, c["ss"]), False), \
        g.near(c, g.spd(c["Q"], d, c["ss"]), False)


def check(c, ctx):
    d, n = c["d"], c["n"]
    dt = min(c["dt"], 60.0 / (n * c["sa"] * max(d, 1)))     # the absolute terms stay finite
    A, b, m0, S0, Q = fields(c, d)
    if c["form"] != "int" and not (d == 0 and c["whole"]):
        b, m0, S0, Q = (c["unit"] * v for v in (b, m0, S0, Q))      # the equations are linear
    one = d == 0
    if one:
        A, b = g.layout(c["form"], A, b)
        m0, S0, Q = (g.whole(c["whole"], i, v) for i, v in enumerate((m0, S0, Q)))
    else:
        A, b, m0, S0, Q = g.layout(c["form"], A, b, m0, S0, Q)
    keep = [np.array(v) for v in (A, b, m0, S0, Q)]
    with sut("FwdOde"):
        ode = FwdOde(dt, c["name"], one)
        for _ in range(c["reuse"]):          # the solver keeps no state
            ode(A * 0.5, b + 1.0, m0, S0, Q)
        m, S = ode(A, b, m0, S0, Q)
    unchanged(keep, (A, b, m0, S0, Q), "forward sweep")
    rm, rS, sm, sS = ref.forward(A, b, m0, S0, Q, dt, c["name"].lower())
    close(m, rm, np.maximum.accumulate(sm), "mean m(t)", 1e-10)
    close(S, rS, np.maximum.accumulate(sS), "covariance S(t)", 1e-10)
    lm, tm, lS, tS = ref.local_forward(A, b, Q, m, S, dt, c["name"].lower())     # errors that have not grown
    close(np.reshape(m, (n, -1))[1:], lm, tm, "mean m(t), one step on", 1e-12)
    close(np.reshape(S, (n, -1))[1:], lS, tS, "covariance S(t), one step on", 1e-12)
    if not one:
        close(S, np.swapaxes(S, 1, 2), np.maximum.accumulate(sS), "symmetry of S(t)", 1e-11)
    ctx.label(c["name"].lower(), f"d{d}", c["form"], "long" if n > 40 else "short")
    ctx.hit(n >= 3 and np.any(A != 0) and (one or d == 1 or not np.allclose(A, np.swapaxes(A, 1, 2))))


UNIT = st.sampled_from([1.0] * 6 + [1e-12, 1e-8, 1e-4, 1e6])


def cases(dims, nmax, tail=g.LONG, sizes=None):
    return st.fixed_dictionaries({
        "d": st.sampled_from(dims),
        "n": sizes or g.size(2, nmax, tail),
        "name": st.sampled_from(g.METHODS).flatmap(g.case_name),
        "dt": st.one_of(g.mag(-3, -0.7), g.mag(-1, 0.7), g.mag(-7, -3)), "sa": g.mag(-1, 0.9), "sb": g.mag(-1, 1.5), "ss": g.mag(-2, 1),
        "A": g.hexs(120), "b": g.hexs(60), "m0": g.hexs(5), "S0": g.hexs(25), "Q": g.hexs(25),
        "form": st.one_of(g.LAYOUTS, g.LAYOUTS, st.just("int")), "whole": g.BITS, "unit": UNIT, **g.NEAR, "reuse": st.sampled_from([0, 0, 1, 2])})


ORDER = {"euler": 1, "heun": 2, "rk2": 2, "rk4": 4}


def check_order(c, ctx):
    d, n, name, T = c["d"], c["n"], c["name"], 1.0
    D = max(d, 1)
    dt = T / n
    A0 = g.dec(c["A"], (D, D), 1.0)
    A0 = A0 * (c["sa"] / max(1e-3, np.linalg.norm(A0, 2)))
    b0, b1, m0 = g.dec(c["b"], D), g.dec(c["b1"], D), g.dec(c["m0"], D, 2.0)
    S0, Q = g.spd(c["S0"], D), g.spd(c["Q"], D)
    tk = np.arange(n + 1) * dt
    A = np.tile(A0, (n + 1, 1, 1))
    b = b0 + tk[:, None] * b1
    with sut("FwdOde"):
        if d == 0:
            m, S = FwdOde(dt, name, True)(A[:, 0, 0], b[:, 0], m0[0], S0[0, 0], Q[0, 0])
        else:
            m, S = FwdOde(dt, name, False)(A, b, m0, S0, Q)
    m, S = np.reshape(m, (n + 1, D)), np.reshape(S, (n + 1, D * D))
    # Exact: augmented linear systems (m, 1, t) and (vec S, 1).
    G = np.zeros((D + 2, D + 2))
    G[:D, :D], G[:D, D], G[:D, D + 1], G[D + 1, D] = -A0, b0, b1, 1.0
    I = np.eye(D)
    H = np.zeros((D * D + 1, D * D + 1))
    H[:-1, :-1], H[:-1, -1] = -(np.kron(A0, I) + np.kron(I, A0)), Q.ravel()
    p = ORDER[name]
    for got, gen_, y0, what in ((m, G, np.r_[m0, 1.0, 0.0], "mean"), (S, H, np.r_[S0.ravel(), 1.0], "covariance")):
        ex = np.array([expm(gen_ * t) @ y0 for t in (0.25 * T, 0.5 * T, T)])
        k = [n // 4, n // 2, n]
        dim = got.shape[1]
        L = np.linalg.norm(gen_, 2) + 0.05
        big = np.linalg.norm(y0) * np.exp(L * T)
        bound = 3.0 * (L * T) * (L * dt) ** p * np.exp(L * T) * big / {1: 2, 2: 6, 4: 120}[p] + 1e-11 * big
        err = np.abs(got[k] - ex[:, :dim])
        require(np.all(err <= bound), lambda: f"{name}: error of the {what} {err.max():.3g} exceeds the bound "
                f"{bound:.3g} of a method of order {p} (dt={dt})")
    ctx.label(name, f"d{d}", f"n{n}")
    ctx.hit(np.linalg.norm(A0) > 0.05)


order = st.fixed_dictionaries({
    "d": st.sampled_from([0, 1, 2, 3]), "n": st.sampled_from([64, 128, 256]), "name": st.sampled_from(g.METHODS),
    "sa": g.num(0.1, 1.2), "A": g.hexs(9), "b": g.hexs(3), "b1": g.hexs(3), "m0": g.hexs(3), "S0": g.hexs(9),
    "Q": g.hexs(9)})


def check_errors(c, ctx):
    if c["bad"] == "method":
        expect(ValueError, f"method {c['name']!r}", FwdOde, 0.1, c["name"], c["one"])
    else:
        expect(ValueError, f"time step {c['dt']}", FwdOde, c["dt"], c["name"], c["one"])
    ctx.label(c["bad"])
    ctx.hit()


errors = st.one_of(
    st.fixed_dictionaries({"bad": st.just("method"), "one": st.booleans(), "name": st.one_of(
        st.sampled_from(["rk3", "rk5", "euler2", "", "rk", "hun", "eul", "rk-4", "implicit", "rk4 ", " heun", "rk_2",
                          "runge-kutta", "eulerr"]),
        st.text("abcdefghkrlun24 ", max_size=6)).filter(lambda s: s.lower() not in g.METHODS)}),
    st.fixed_dictionaries({"bad": st.just("dt"), "one": st.booleans(), "name": st.sampled_from(g.METHODS),
                           "dt": st.one_of(st.just(0.0), g.mag(-6, 1).map(lambda x: -x))}))

SUBS = [Sub("recursion-1d", cases([0], 300), check, 600, 12000, shards=2),
        Sub("recursion-nd", cases([1, 2, 3, 3, 4, 5], 60, (129, 257, 300)), check, 900, 18000, shards=3),
        Sub("recursion-many", cases([8, 10, 12], 6, ()), check, 60, 1000),
        Sub("recursion-long", cases([0, 0, 1, 2], 0, sizes=g.LONGER), check, 24, 600),
        Sub("order", order, check_order, 120, 3000, shards=2),
        Sub("errors", errors, check_errors, 80, 1000)]
