import numpy as np
from hypothesis import strategies as st
from scipy.linalg import expm
from src.var_bayes.bwd_ode import BwdOde
from pbt import gen as g, ref
from pbt.core import Sub, close, expect, require, sut, unchanged
from pbt.props.c02 import ORDER, UNIT

PROPERTY = "C03"
TITLE = "Backward sweep solves the adjoint equations with jumps"
RULE = ("recursion: a case is (method, 1-D or D = 1..5, number of nodes, dt, arbitrary A(t), energy gradients at every "
        "node, observation gradients at a generated set of nodes that often holds the first or the last); lam and psi "
        "are compared at every node with the method's tableau on the vectorised adjoint equations, started from the "
        "observation gradient at the last node, with a jump at every observed node; also with one step from the node before. Non-trivial: at least 3 nodes, "
        "a jump that is not zero and A not zero. order: exact solution for constant A between two jumps.")
ASSUMPTIONS = ["values at half steps are the mean of the neighbouring nodes",
               "tolerance 1e-10 relative to the same recursion on absolute values"]


def jumps(c, n, d, key, sym=False):
    shape = (n,) if d == 0 else ((n, d) if key == "jm" else (n, d, d))
    J = g.dec(c[key], shape, c["sj"])
    if d and key == "jS":
        J = 0.5 * (J + np.swapaxes(J, 1, 2))
    mask = np.zeros(n)
    mask[c["obs"]] = 1.0
    return J * mask.reshape((n,) + (1,) * (J.ndim - 1))


def check(c, ctx):
    d, n = c["d"], c["n"]
    dt = min(c["dt"], 60.0 / (n * c["sa"] * max(d, 1)))     # the absolute terms stay finite
    one = d == 0
    A = g.dec(c["A"], (n,) if one else (n, d, d), c["sa"])
    dm = g.dec(c["dm"], (n,) if one else (n, d), c["se"])
    dS = g.dec(c["dS"], (n,) if one else (n, d, d), c["se"])
    if not one:
        dS = 0.5 * (dS + np.swapaxes(dS, 1, 2))
    jm, jS = jumps(c, n, d, "jm"), jumps(c, n, d, "jS")
    if c["form"] != "int":
        dm, dS, jm, jS = (c["unit"] * v for v in (dm, dS, jm, jS))      # the equations are linear
    A, dm, dS = g.near(c, A), g.near(c, dm), g.near(c, dS)
    A, dm, dS, jm, jS = g.layout(c["form"], A, dm, dS, jm, jS)
    keep = [np.array(v) for v in (A, dm, dS, jm, jS)]
    with sut("BwdOde"):
        ode = BwdOde(dt, c["name"], one)
        for _ in range(c["reuse"]):
            ode(A * 0.5, dm + 1.0, dS, jm, jS)
        lam, psi = ode(A, dm, dS, jm, jS)
    unchanged(keep, (A, dm, dS, jm, jS), "backward sweep")
    rl, rp, sl, sp = ref.backward(A, dm, dS, jm, jS, dt, c["name"].lower())
    acc = lambda s: np.maximum.accumulate(s[::-1])[::-1]
    close(lam, rl, acc(sl), "lam(t)", 1e-10)
    close(psi, rp, acc(sp), "psi(t)", 1e-10)
    ll, tl, lp, tp = ref.local_backward(A, dm, dS, jm, jS, lam, psi, dt, c["name"].lower())     # errors that have not grown
    close(np.reshape(lam, (n, -1))[-2::-1], ll, tl, "lam(t), one step on", 1e-12)
    close(np.reshape(psi, (n, -1))[-2::-1], lp, tp, "psi(t), one step on", 1e-12)
    if not one:
        close(psi, np.swapaxes(psi, 1, 2), acc(sp), "symmetry of psi(t)", 1e-11)
    ctx.label(c["name"].lower(), f"d{d}", c["form"])
    if c["obs"] and c["obs"][-1] == n - 1:
        ctx.label("observed-at-end")
    if c["obs"] and c["obs"][0] == 0:
        ctx.label("observed-at-start")
    ctx.hit(n >= 3 and np.any(jm != 0) and np.any(A != 0))


def cases(dims, nmax, tail=g.LONG, sizes=None):
    return (sizes or g.size(2, nmax, tail)).flatmap(lambda n: st.fixed_dictionaries({
        "d": st.sampled_from(dims), "n": st.just(n), "obs": g.obs_times(n, 8, 0, True),
        "name": st.sampled_from(g.METHODS).flatmap(g.case_name),
        "dt": st.one_of(g.mag(-3, -0.7), g.mag(-1, 0.7), g.mag(-7, -3)), "sa": g.mag(-1, 0.9), "se": g.mag(-1, 2), "sj": g.mag(-1, 2),
        "A": g.hexs(120), "dm": g.hexs(60), "dS": g.hexs(120), "jm": g.hexs(60), "jS": g.hexs(120),
        "form": st.one_of(g.LAYOUTS, g.LAYOUTS, st.just("int")), "reuse": st.sampled_from([0, 0, 1, 2]), "unit": UNIT, **g.NEAR}))


def check_order(c, ctx):
    """Constant A and constant energy gradients; an observation at the middle
    and one at the end: the exact solution is a matrix exponential."""
    d, n, name, T = c["d"], c["n"], c["name"], 1.0
    D = max(d, 1)
    dt = T / n
    A0 = g.dec(c["A"], (D, D), 1.0)
    A0 = A0 * (c["sa"] / max(1e-3, np.linalg.norm(A0, 2)))
    dm, jm = g.dec(c["dm"], D), g.dec(c["jm"], D)
    sy = lambda M: 0.5 * (M + M.T)
    dS, jS = sy(g.dec(c["dS"], (D, D))), sy(g.dec(c["jS"], (D, D)))
    A = np.tile(A0, (n + 1, 1, 1))
    Dm, DS = np.tile(dm, (n + 1, 1)), np.tile(dS, (n + 1, 1, 1))
    Jm, JS = np.zeros_like(Dm), np.zeros_like(DS)
    for k in (n // 2, n):
        Jm[k], JS[k] = jm, jS
    with sut("BwdOde"):
        if d == 0:
            lam, psi = BwdOde(dt, name, True)(A[:, 0, 0], Dm[:, 0], DS[:, 0, 0], Jm[:, 0], JS[:, 0, 0])
        else:
            lam, psi = BwdOde(dt, name, False)(A, Dm, DS, Jm, JS)
    lam, psi = np.reshape(lam, (n + 1, D)), np.reshape(psi, (n + 1, D * D))
    I = np.eye(D)
    p = ORDER[name]
    P = np.kron(A0.T, I) + np.kron(I, A0.T)
    for got, L0, f, j, what in ((lam, A0.T, dm, jm, "lam"), (psi, P, dS.ravel(), jS.ravel(), "psi")):
        k = f.size
        M = np.zeros((k + 1, k + 1))         # in reversed time: y' = -L y + f
        M[:k, :k], M[:k, k] = -L0, f
        y_mid = (expm(M * 0.5 * T) @ np.r_[j, 1.0])[:k] + j
        y_0 = (expm(M * 0.5 * T) @ np.r_[y_mid, 1.0])[:k]
        L = np.linalg.norm(M, 2) + 0.05
        big = 2.0 * (np.linalg.norm(np.r_[j, 1.0])) * np.exp(L * T)
        bound = 3.0 * (L * T) * (L * dt) ** p * np.exp(L * T) * big / {1: 2, 2: 6, 4: 120}[p] + 1e-11 * big
        for node, ex in ((n, j), (n // 2, y_mid), (0, y_0)):
            err = np.abs(got[node] - ex).max()
            require(err <= bound, lambda: f"{name}: error of {what} at node {node} of {n} is {err:.3g}, above the bound "
                    f"{bound:.3g} of a method of order {p}")
    ctx.label(name, f"d{d}")
    ctx.hit(np.linalg.norm(A0) > 0.05)


order = st.fixed_dictionaries({
    "d": st.sampled_from([0, 1, 2, 3]), "n": st.sampled_from([64, 128, 256]), "name": st.sampled_from(g.METHODS),
    "sa": g.num(0.1, 1.2), "A": g.hexs(9), "dm": g.hexs(3), "jm": g.hexs(3), "dS": g.hexs(9), "jS": g.hexs(9)})


def check_errors(c, ctx):
    if c["bad"] == "method":
        expect(ValueError, f"method {c['name']!r}", BwdOde, 0.1, c["name"], c["one"])
    else:
        expect(ValueError, f"time step {c['dt']}", BwdOde, c["dt"], c["name"], c["one"])
    ctx.label(c["bad"])
    ctx.hit()


from pbt.props.c02 import errors  # noqa: E402

SUBS = [Sub("recursion-1d", cases([0], 300), check, 600, 12000, shards=2),
        Sub("recursion-nd", cases([1, 2, 3, 3, 4, 5], 60, (129, 257, 300)), check, 900, 18000, shards=3),
        Sub("recursion-many", cases([8, 10, 12], 6, ()), check, 60, 1000),
        Sub("recursion-long", cases([0, 0, 1, 2], 0, sizes=g.LONGER), check, 24, 600),
        Sub("order", order, check_order, 120, 3000, shards=2),
        Sub("errors", errors, check_errors, 80, 1000)]
