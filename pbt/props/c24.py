import numpy as np
from hypothesis import strategies as st
from src.numerics.utilities import ut_approx
from pbt import gen as g
from pbt.core import Sub, close, require, sut, unchanged

PROPERTY = "C24"
TITLE = "Unscented transform is exact for affine maps and in the mean of quadratic ones"
RULE = ("A case is a mean and a covariance of 1..12 dimensions (any scale, correlated) and a map of the rows of an array, into "
        "1..8 dimensions, with additional arguments. affine: the mean and the covariance are C m + e and C S C'. quadratic: "
        "the mean is the one of the quadratic form, the covariance is symmetric and has no negative variance; adding a constant "
        "to the map moves the mean and leaves the covariance. diagonal: a covariance that is not positive definite counts by its diagonal. Non-trivial: "
        "two dimensions or more, and a map that is not constant.")
ASSUMPTIONS = ["tolerance 1e-11 relative to the absolute terms", "points are the rows of the array that the function receives"]


def moments(c):
    d = c["d"]
    S = g.near(c, g.spd(c["S"], d, 1.0, c["floor"]), False)
    w = np.exp(g.dec(c["w"], d, c["spread"]))
    S = c["scale"] ** 2 * w[:, None] * S * w[None, :]
    return c["scale"] * g.dec(c["m"], d, c["far"]), 0.5 * (S + S.T)


def run(c, fun, m, S, *args):
    mm, SS = (m, S) if c["form"] == "int" else g.layout(c["form"], m, S)
    keep = [mm.copy(), SS.copy()]
    with sut("ut_approx"):
        y, P = ut_approx(fun, mm, SS, *args)
    unchanged(keep, [mm, SS], "ut_approx")
    return y, P


def check_affine(c, ctx):
    m, S = moments(c)
    d, k = c["d"], c["k"]
    C, e = g.dec(c["C"], (k, d), 2.0), c["scale"] * g.dec(c["e"], k, 3.0)
    shapes = []

    def fun(x, *a):
        shapes.append((np.shape(x), len(a)))
        if a:
            return x @ a[0].T + a[1] + sum(a[2:])
        return x @ C.T + e
    args = (C, e, 1.0, -2.0, 0.5, 0.25, 0.25)[:c["args"]]
    e = e + sum(args[2:])
    y, P = run(c, fun, m, S, *args)
    require(all(s[1] == d and a == len(args) for s, a in shapes), f"the function was called with {shapes}")
    ab = np.abs(C) @ (np.abs(m) + 3 * np.sqrt(np.diag(S) * d)) + np.abs(e) + 4.0 * bool(args)
    close(y, C @ m + e, ab, "mean of an affine map", 1e-12 * d)
    close(P, C @ S @ C.T, np.outer(ab, ab), "covariance of an affine map", 1e-12 * d)
    if k >= d:
        y, P = run(c, lambda x: x, m, S)
        ab = np.abs(m) + 3 * np.sqrt(np.diag(S) * d)
        close(y, m, ab, "mean of the identity", 1e-12 * d)
        close(P, S, np.outer(ab, ab), "covariance of the identity", 1e-12 * d)
    ctx.label(f"d{min(d, 4)}", f"k{min(k, 4)}", "args" if args else "", c["form"])
    ctx.hit(d > 1 and np.any(C != 0))


def check_int(c, ctx):
    """Whole numbers, in arrays of integers and in lists, count as the numbers that they are."""
    d = c["d"]
    L = np.tril(np.round(g.dec(c["S"], (d, d), 3.0)), -1) + np.diag(np.arange(1, d + 1))
    S = (L @ L.T).astype(int)
    m = g.dec(c["m"], d, 9.0)
    C = g.dec(c["C"], (c["k"], d), 2.0)

    def fun(x):
        return np.sin(x @ C.T) + x[:, :1] ** 2
    with sut("ut_approx"):
        y, P = ut_approx(fun, m, S.astype(float))
        whole = np.round(m)
        y0, P0 = ut_approx(fun, whole, S.astype(float))
        for what, got, want in (("integer covariance", ut_approx(fun, m, S), (y, P)),
                                ("integer mean", ut_approx(fun, whole.astype(int), S.astype(float)), (y0, P0)),
                                ("integers", ut_approx(fun, whole.astype(int), S), (y0, P0)),
                                ("lists", ut_approx(fun, m.tolist(), S.tolist()), (y, P))):
            s = np.abs(want[0]).max() + np.trace(S)
            close(got[0], want[0], s, f"mean ({what})", 1e-12 * d)
            close(got[1], want[1], s * s, f"covariance ({what})", 1e-12 * d)
    ctx.label(f"d{min(d, 4)}")
    ctx.hit(d > 1 and np.any(m != whole))


def check_quadratic(c, ctx):
    m, S = moments(c)
    d, k = c["d"], c["k"]
    Q = g.dec(c["C"], (k, d, d), 1.0)
    C, e = g.dec(c["e"], (k, d), 1.0), g.dec(c["m"], k, 2.0)
    s = c["scale"]

    def fun(x, shift=0.0):
        return np.einsum("kij,pi,pj->pk", Q, x, x) / s + x @ C.T + s * e + shift
    y, P = run(c, fun, m, S)
    r = np.abs(m) + 3 * np.sqrt(np.diag(S) * d)
    ab = np.einsum("kij,i,j->k", np.abs(Q), r, r) / s + np.abs(C) @ r + s * np.abs(e)
    close(y, np.einsum("kij,ij->k", Q, S + np.outer(m, m)) / s + C @ m + s * e, ab, "mean of a quadratic map", 1e-12 * d)
    out = np.outer(ab, ab) + 1e-100
    close(P, P.T, out, "symmetry of the covariance", 1e-12 * d)
    require(np.all(np.linalg.eigvalsh(P / np.sqrt(np.outer(np.diag(out), np.diag(out)))) >= -1e-11 * d * k),
            "the covariance has a negative variance")
    y2, P2 = run(c, fun, m, S, 5.0 * s)
    close(y2, y + 5.0 * s, ab + 5 * s, "mean of the shifted map", 1e-12 * d)
    close(P2, P, np.outer(ab + 5 * s, ab + 5 * s), "covariance of the shifted map", 1e-12 * d)
    # A component on its own has the same variance as among others.
    i = c["i"] % k
    y1, P1 = run(c, lambda x: fun(x)[:, [i]], m, S)
    close([y1[0], P1[0, 0]], [y[i], P[i, i]], [ab[i], ab[i] ** 2], "one of the components on its own", 1e-12 * d)
    ctx.label(f"d{min(d, 4)}", f"k{min(k, 4)}", "far" if c["far"] > 10 else "")
    ctx.hit(d > 1 and np.any(Q != 0))


def check_diagonal(c, ctx):
    m, S = moments(c)
    d, k = c["d"], c["k"]
    B = S.copy()
    i, j = c["i"] % d, (c["i"] + 1 + c["j"] % (d - 1)) % d
    B[i, j] = B[j, i] = c["over"] * np.sqrt(S[i, i] * S[j, j])
    D = np.diag(np.diag(S))
    C, e = g.dec(c["C"], (k, d), 2.0), c["scale"] * g.dec(c["e"], k, 3.0)
    y, P = run(c, lambda x: x @ C.T + e, m, B)
    ab = np.abs(C) @ (np.abs(m) + 3 * np.sqrt(np.diag(S) * d)) + np.abs(e)
    close(y, C @ m + e, ab, "mean (covariance not positive definite)", 1e-12 * d)
    close(P, C @ D @ C.T, np.outer(ab, ab), "covariance (from the diagonal)", 1e-12 * d)
    f = (lambda x: np.sin(x / c["scale"]) + x ** 2 / c["scale"])
    y1, P1 = run(c, f, m, B)
    y2, P2 = run(c, f, m, D)
    r = np.abs(m) + 3 * np.sqrt(np.diag(S) * d)
    ab = 1 + r + r ** 2 / c["scale"]
    close(y1, y2, ab, "non-linear map: the mean, as for the diagonal", 1e-12 * d)
    close(P1, P2, np.outer(ab, ab), "non-linear map: the covariance, as for the diagonal", 1e-12 * d)
    ctx.label(f"d{min(d, 4)}")
    ctx.hit(np.any(C != 0))


def case(d, extra=None):
    return st.fixed_dictionaries({
        "d": d, "k": st.integers(1, 8), "S": g.hexs(100), "w": g.hexs(12), "spread": st.sampled_from([0.0, 0.5, 2.0]), "m": g.hexs(12),
        "floor": st.sampled_from([0.01, 0.1, 1.0]), "scale": g.mag(-4, 4), "far": st.sampled_from([1.0, 5.0, 50.0]), "C": g.hexs(96),
        "e": g.hexs(40), "form": g.LAYOUTS, "args": st.sampled_from([0, 0, 2, 3, 4, 7]), "i": st.integers(0, 11), **g.NEAR, **(extra or {})})


dims = g.size(1, 12, (20, 33, 40))
SUBS = [Sub("affine", case(dims), check_affine, 800, 16000, shards=2),
        Sub("integers", st.fixed_dictionaries({"d": st.integers(1, 6), "k": st.integers(1, 4), "S": g.hexs(36), "m": g.hexs(6),
                                               "C": g.hexs(24)}), check_int, 200, 3000),
        Sub("quadratic", case(dims), check_quadratic, 700, 14000, shards=2),
        Sub("diagonal", case(st.one_of(st.integers(2, 3), st.integers(2, 12)), {
            "j": st.integers(0, 11), "over": st.sampled_from([1.2, 2.0, 10.0, -1.2, -3.0])}), check_diagonal, 400, 8000)]
