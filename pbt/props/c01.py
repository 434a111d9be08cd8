import numpy as np
from hypothesis import strategies as st
from src.var_bayes.gaussian_moments import GaussianMoments
from pbt import gen as g
from pbt.core import Sub, close, expect, require, sut, unchanged, Violation

PROPERTY = "C01"
TITLE = "Gaussian moments and their derivatives"
RULE = ("A case is a pair of arrays (means, variances), an order 0-8 and a memory layout; the three families of "
        "outputs are compared with the recurrence M_n = m M_{n-1} + (n-1) v M_{n-2}, dm = n M_{n-1}, "
        "ds = n(n-1)/2 M_{n-2}. It is non-trivial when the order is at least 2 and some mean and some variance are "
        "not zero. Errors: out-of-range and fractional orders, mismatched shapes.")
ASSUMPTIONS = ["float64 rounding: relative tolerance 1e-11 against the sum of absolute terms"]


def moments(m, v):
    M = [np.ones_like(m), m]
    for n in range(2, 9):
        M.append(m * M[n - 1] + (n - 1) * v * M[n - 2])
    return M


def check(c, ctx):
    n = c["n"]
    m0 = g.dec(c["m"], n, c["sm"])
    v0 = np.abs(g.dec(c["v"], n, c["sv"]))
    if c["form"] == "scalar":
        m, v, m0, v0 = float(m0[0]), float(v0[0]), m0[:1], v0[:1]
    elif c["form"] == "list":
        m, v = m0.tolist(), v0.tolist()
    else:
        m, v = g.layout(c["form"], m0, v0)
    before = (np.array(m), np.array(v))
    with sut("GaussianMoments"):
        gm = GaussianMoments(m, v)
    M, Mabs = moments(m0, v0), moments(np.abs(m0), v0)
    for order in c["orders"]:
        with sut(f"moment of order {order}"):
            val = np.array(gm(order))
        close(val, M[order], Mabs[order], f"moment {order}", 1e-11)
        if order >= 1:
            with sut(f"derivatives of order {order}"):
                dm, ds = np.array(gm.dm(order)), np.array(gm.ds(order))
            close(dm, order * M[order - 1], order * Mabs[order - 1], f"dm of moment {order}", 1e-11)
            rs = order * (order - 1) / 2 * M[order - 2] if order > 1 else np.zeros_like(m0)
            ra = order * (order - 1) / 2 * Mabs[order - 2] if order > 1 else np.zeros_like(m0)
            close(ds, rs, ra, f"ds of moment {order}", 1e-11)
        ctx.label(f"order{order}")
        ctx.hit(order >= 2 and np.any(m0 != 0) and np.any(v0 != 0))
    unchanged(before, (m, v), "GaussianMoments")
    ctx.label(c["form"])


far = lambda a: st.one_of(a, a, a, g.mag(-12, -3), g.mag(2, 6))
case = g.size(1, 12, g.LONG + (2049, 5000)).flatmap(lambda n: st.fixed_dictionaries({
    "n": st.just(n), "m": g.hexs(n), "v": g.hexs(n), "sm": far(g.mag(-3, 2)), "sv": far(g.mag(-3, 2)),
    "form": st.sampled_from(["c", "c", "strided", "list", "scalar"]),
    "orders": st.lists(st.integers(0, 8), min_size=1, max_size=5)}))


def check_errors(c, ctx):
    m = np.zeros(c["n"])
    if c["what"] == "shape":
        expect((RuntimeError, ValueError), f"means of size {c['n']} with variances of size {c['k']}",
               GaussianMoments, m, np.ones(c["k"]))
    else:
        gm = GaussianMoments(m, m + 1)
        expect(ValueError, f"{c['what']} of order {c['order']}", {"call": gm, "dm": gm.dm, "ds": gm.ds}[c["what"]],
               c["order"])
    ctx.label(c["what"])
    ctx.hit()


errors = st.one_of(
    st.tuples(st.integers(1, 9), st.integers(1, 9)).filter(lambda t: t[0] != t[1]).map(
        lambda t: {"what": "shape", "n": t[0], "k": t[1]}),
    st.tuples(st.sampled_from(["call", "dm", "ds"]), st.one_of(st.integers(9, 40), st.integers(-40, -1), st.sampled_from([8.5, -0.5, 2.5, 1.0 / 3.0, 1e300]))).map(
        lambda t: {"what": t[0], "order": t[1], "n": 3}),
    st.sampled_from(["dm", "ds"]).map(lambda w: {"what": w, "order": 0, "n": 2}))

SUBS = [Sub("moments", case, check, 1500, 40000, shards=2),
        Sub("errors", errors, check_errors, 120, 2000)]
