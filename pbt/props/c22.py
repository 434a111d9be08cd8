import math

import numpy as np
from hypothesis import strategies as st
from src.numerics.utilities import chol_inv, finite_diff, log_det, my_trapz, safe_log  # noqa: F401
from pbt import gen as g
from pbt.core import Sub, close, expect, require, sut, unchanged

PROPERTY = "C22"
TITLE = "Numerical utilities return what their names say"
RULE = ("logdet: log-determinants of positive definite matrices, vectors (diagonals) and numbers, with determinants far outside "
        "of the range of floats, against the eigenvalues, additive over blocks and products with numbers. inverse: chol_inv "
        "gives the inverse and an inverse Cholesky factor, for floats, integers, numbers, any layout. safelog: log inside of "
        "1e-300..1e300, clipped outside, monotone. trapz: the trapezoidal rule over all of the range, however it is divided by "
        "observation times, for any number of dimensions. Non-trivial: matrices of two rows or more, arrays of two points or more.")
ASSUMPTIONS = ["condition numbers up to 1e8", "tolerances scale with the condition number"]


def matrix(c):
    n = c["n"]
    L = np.tril(g.dec(c["L"], (n, n)))
    L[np.diag_indices(n)] = 0.3 + np.abs(L[np.diag_indices(n)])
    s = np.exp(np.linspace(-c["spread"], c["spread"], n)) if n > 1 else np.ones(1)
    L = g.near(c, L, False) if "diag" in c["near"] or "iso" in c["near"] else L
    L = L * s[:, None]
    return c["scale"] * (L @ L.T), L * math.sqrt(c["scale"])


def check_logdet(c, ctx):
    S, L = matrix(c)
    n = len(S)
    S = 0.5 * (S + S.T)
    cond = np.linalg.cond(S)
    if cond > 1e8:
        ctx.label("ill-conditioned")
        return
    want = 2.0 * math.fsum(np.log(np.diag(L)))
    mag = 2.0 * np.abs(np.log(np.diag(L))).sum() + n
    tol = 1e-13 * cond + 1e-12
    A = g.layout(c["form"], S)
    keep = A.copy()
    with sut("log_det"):
        got = log_det(A)
    unchanged([keep], [A], "log_det")
    close(float(got), want, mag, "log_det of a matrix", tol)
    with sut("log_det"):
        close(float(log_det(np.diag(S).copy())), np.log(np.diag(S)).sum(), np.abs(np.log(np.diag(S))).sum() + n, "log_det of a vector", 1e-12)
        close(float(log_det(float(S[0, 0]))), math.log(S[0, 0]), abs(math.log(S[0, 0])) + 1, "log_det of a number", 1e-12)
        close(float(log_det(np.array(S[0, 0]))), math.log(S[0, 0]), abs(math.log(S[0, 0])) + 1, "log_det of a 0-d array", 1e-12)
        close(float(log_det([list(map(float, r)) for r in S])), want, mag, "log_det of a list", tol)
        close(float(log_det(7.0 * S)), want + n * math.log(7.0), mag + 2 * n, "log_det of 7 S", tol)
        B = np.zeros((n + 2, n + 2))
        B[:n, :n], B[n:, n:] = S, np.array([[2.0, 0.5], [0.5, 1.0]])
        close(float(log_det(B)), want + math.log(1.75), mag + 1, "log_det of two blocks", tol)
    for bad in (np.ones((n, n + 1)), np.ones((n + 1, n))):
        expect(RuntimeError, "log_det of a matrix that is not square", log_det, bad)
    ctx.label("extreme" if abs(want) > 750 else "", f"n{min(n, 4)}")
    ctx.hit(n > 1)


def check_inverse(c, ctx):
    S, L = matrix(c)
    n = len(S)
    S = 0.5 * (S + S.T)
    if c["integers"]:
        S = np.round(g.dec(c["L"], (n, n), 4.0)).astype(int)
        S = S @ S.T + 3 * np.eye(n, dtype=int)
        L = np.linalg.cholesky(S)
    cond = np.linalg.cond(S)
    if cond > 1e8:
        ctx.label("ill-conditioned")
        return
    A = S.copy() if c["integers"] else g.layout(c["form"], S)
    keep = A.copy()
    with sut("chol_inv"):
        inv, ch = chol_inv(A)
    unchanged([keep], [A], "chol_inv")
    ref = np.linalg.inv(S.astype(float))
    close(inv, ref, np.abs(ref).max(), "chol_inv: inverse", 1e-12 * cond * n)
    close(ch @ L, np.eye(n), np.linalg.norm(ch) * np.linalg.norm(L), "chol_inv: factor", 1e-12 * cond)
    require(np.allclose(ch, np.tril(ch), atol=1e-12 * np.abs(ch).max()), "chol_inv: the factor is not triangular")
    x = abs(float(S[0, 0]))
    for v in (x, np.array(x), int(math.ceil(x))):
        with sut("chol_inv of a number"):
            i, h = chol_inv(v)
        close([float(i), float(h)], [1 / float(v), 1 / math.sqrt(float(v))], [1 / float(v), 1 / math.sqrt(float(v))], "chol_inv of a number", 1e-13)
    ctx.label("integers" if c["integers"] else c["form"])
    ctx.hit(n > 1)


def check_safelog(c, ctx):
    x = np.array([m * 10.0 ** e for m, e in c["x"]])
    want = np.array([math.log(min(max(v, 1e-300), 1e300)) for v in x])
    with sut("safe_log"):
        got = safe_log(x)
    close(got, want, np.abs(want) + 1e-3, "safe_log", 1e-13)
    with sut("safe_log of numbers"):
        one = [float(safe_log(float(v))) for v in x]
        two = safe_log(np.tile(x, (2, 1)))
    close(one, want, np.abs(want) + 1e-3, "safe_log of numbers", 1e-13)
    close(two, np.tile(want, (2, 1)), np.abs(want) + 1e-3, "safe_log of a matrix", 1e-13)
    i = np.argsort(x)
    require(np.all(np.diff(np.asarray(got)[i]) >= -1e-9), "safe_log is not monotone")
    ctx.label("low" if x.min() < 1e-300 else "", "high" if x.max() > 1e300 else "", "zero" if np.any(x == 0) else "")
    ctx.hit(len(x) > 1)


def check_trapz(c, ctx):
    n = c["n"]
    f = g.dec(c["f"], (n,) + tuple(c["sh"]), c["scale"])
    f, keep = g.layout(c["form"], f), f.copy()
    if c["integers"]:
        f = keep = np.round(f / c["scale"] * 3.0).astype(["int64", "int32", "float32"][c["integers"] - 1])
        keep = keep.copy()
    exact = keep.astype(float)
    want = c["dx"] * (exact.sum(axis=0) - 0.5 * (exact[0] + exact[-1])) if n > 1 else 0.0 * exact[0]
    mag = c["dx"] * np.abs(exact).sum(axis=0) * (1e6 if c["integers"] == 3 else 1.0)
    with sut("my_trapz"):
        whole = my_trapz(f, c["dx"])
        close(whole, want, mag, "my_trapz without observation times", 1e-12)
        for name, obs in (("list", list(c["obs"])), ("array", np.array(c["obs"], dtype=int)), ("tuple", tuple(c["obs"]))):
            close(my_trapz(f, c["dx"], obs) + 0 * want, want, mag, f"my_trapz divided at a {name} of times {c['obs'][:6]}", 1e-12)
        close(my_trapz(f, dx=c["dx"], obs_t=range(n)) + 0 * want, want, mag, "my_trapz divided everywhere", 1e-12)
        if c["dx"] == 1.0:
            close(my_trapz(f), want, mag, "my_trapz with the default step", 1e-12)
    unchanged([keep], [f], "my_trapz")
    ctx.label(f"{len(c['sh'])}-D", str(keep.dtype), "start" if 0 in c["obs"] else "", "end" if n - 1 in c["obs"] else "", f"obs{min(len(c['obs']), 4)}")
    ctx.hit(n > 1)


MAT = {"n": st.one_of(st.integers(1, 4), st.integers(1, 12), st.sampled_from([40, 80, 130])), "L": g.hexs(100), "form": g.LAYOUTS,
       **g.NEAR, "scale": g.mag(-12, 12), "spread": st.sampled_from([0.0, 0.5, 1.0, 2.0])}
X = st.tuples(st.sampled_from([0.0, 1.0, 1.0, 2.5, 9.99]), st.one_of(st.integers(-323, 307), st.sampled_from([-308, -301, -300, -299, 299, 300, 301])))


def warm():
    chol_inv(np.eye(2))
    chol_inv(2.0)
    for v in (1.0, np.ones(2), np.ones((2, 2))):
        safe_log(v)


SUBS = [Sub("logdet", st.fixed_dictionaries(MAT), check_logdet, 500, 9000, shards=2),
        Sub("inverse", st.fixed_dictionaries({**MAT, "integers": st.sampled_from([False, False, True])}), check_inverse, 400, 8000, shards=2),
        Sub("safelog", st.fixed_dictionaries({"x": st.lists(X, min_size=1, max_size=12)}), check_safelog, 300, 5000),
        Sub("trapz", g.size(1, 60).flatmap(lambda n: st.fixed_dictionaries({
            "n": st.just(n), "f": g.hexs(60), "sh": st.sampled_from([[], [], [1], [3], [2, 2], [3, 3], [2, 1, 3]]), "obs": g.obs_times(n, 8, 0, True),
            "dx": st.one_of(st.just(1.0), g.mag(-4, 1)), "scale": g.mag(-3, 3), "form": g.LAYOUTS,
            "integers": st.sampled_from([0, 0, 0, 1, 2, 3])})), check_trapz, 600, 12000, shards=2)]
