import math

import numpy as np
from hypothesis import strategies as st
from src.numerics.optim_scg import SCG
from src.numerics.utilities import finite_diff
from pbt import gen as g
from pbt.core import Sub, close, require, sut, unchanged

PROPERTY = "C23"
TITLE = "Numerical gradients are accurate and the gradient checker's verdict is right"
RULE = ("difference: a smooth function of 1..12 variables (quadratic, cubic, trigonometric, exponential, product; the gradient "
        "is known) with additional arguments, at a point given as a number, a list, or an array in any layout; compared at the accuracy "
        "of central differences. verdict: the optimiser's gradient check of a right gradient, or of one with a mistake "
        "(one component, all of them, scale, signs, order, undefined) well above or below the tolerance. Non-trivial: the gradient is not zero "
        "(difference); there is a mistake (verdict).")
ASSUMPTIONS = ["accuracy 2e-8 relative to the size of the function and of its derivatives, that one-sided differences do not reach",
               "mistakes at the tolerance itself (within a factor 1.5) are not generated"]


def function(c):
    """f, gradient, a bound on |f| and its derivatives near x."""
    n, k, s = c["n"], c["f"], c["scale"]
    if n > 200 and k in ("quadratic", "product"):
        k = "trig"
    a = g.dec(c["a"], n, 1.5)
    H = g.dec(c["H"], (n, n), 1.0) if k == "quadratic" else np.zeros((1, 1))
    H = 0.5 * (H + H.T)
    x = g.dec(c["x"], n, c["far"])
    X = np.abs(x).max() + 1.0
    if k == "quadratic":
        return x, (lambda v: s * (0.5 * v @ H @ v + a @ v + 1.0)), (lambda v: s * (H @ v + a)), s * (n * n * X * X + n * X + 1)
    if k == "cubic":
        return x, (lambda v: s * float(np.sum(a * v ** 3 + v ** 2))), (lambda v: s * (3 * a * v ** 2 + 2 * v)), s * n * 12 * X ** 3
    if k == "trig":
        return x, (lambda v: s * float(np.sum(np.sin(a * v + np.arange(n))))), \
            (lambda v: s * a * np.cos(a * v + np.arange(n))), s * n * 4 * X
    if k == "exp":
        b = a / (1.0 + n * X)
        return x, (lambda v: s * math.exp(float(b @ v))), (lambda v: s * b * math.exp(float(b @ v))), 6 * s * X
    w = 1.0 + np.arange(n)

    def fp(v):
        return s * float(np.prod(np.cos(v / w)) + 0.1 * v @ v)

    def dp(v):
        cs, sn = np.cos(v / w), np.sin(v / w)
        return s * (np.array([-sn[i] / w[i] * np.prod(np.delete(cs, i)) for i in range(n)]) + 0.2 * v)
    return x, fp, dp, s * (n * X * X + 1)


def check(c, ctx):
    x, f0, df0, mag = function(c)
    n = c["n"]
    args = [float(k) for k in range(2, 2 + c["args"])]
    calls = []

    def f(v, *a):
        calls.append((np.shape(v), list(a)))
        v = np.array(v, dtype=float)
        r = f0(v) * (a[0] if a else 1.0) + (a[1] if len(a) > 1 else 0.0)
        return np.array([r]) if c["ret"] == "array" and n == 1 else r
    arg = x.tolist() if c["form"] == "list" else g.layout(c["form"], x)
    if n == 1 and c["number"]:
        arg = float(x[0])
    keep = np.array(arg)
    with sut("finite_diff"):
        got = finite_diff(f, arg, *args)
    unchanged([keep], [arg], "finite_diff")
    require(all(a == args for _, a in calls), "the additional arguments were not passed on to every call")
    require(all(s == (n,) for s, _ in calls), lambda: f"the function was called with arrays of shape {sorted({s for s, _ in calls})}")
    want = df0(x) * (args[0] if args else 1.0)
    if n == 1:
        require(np.ndim(got) == 0, f"gradient of one variable: shape {np.shape(got)}, expected a number")
        want = want[0]
    mag = mag * (args[0] if args else 1.0) + (args[1] if len(args) > 1 else 0.0)
    close(got, want, np.abs(mag) * np.ones_like(want), f"finite_diff ({c['f']})", 2e-9 * (1 + c["far"]))
    ctx.label(c["f"], f"n{min(n, 3)}", f"args{c['args']}", c["form"])
    ctx.hit(np.any(want != 0))


def check_verdict(c, ctx):
    x, f0, df0, mag = function(c)
    n, tol = c["n"], c["tol"]
    gr = df0(x)
    err = np.zeros(n)
    size = tol * n * (c["times"] if c["big"] else 1.0 / c["times"])   # its norm
    k = c["mistake"]
    if k == "one":
        err[c["i"] % n] = size
    elif k == "all":
        err[:] = size / math.sqrt(n)
    elif k == "scale":
        err = size * gr / np.linalg.norm(gr) if np.any(gr != 0) else err
    elif k == "signs":
        err = size / math.sqrt(n) * (-1.0) ** np.arange(n)
    elif k == "reversed":
        err = gr[::-1] - gr
    elif k == "opposite":
        err = -2.0 * gr
    elif k == "rotated":
        err = np.roll(gr, 1) * (-1.0) ** np.arange(n) - gr
    elif k in ("nan", "inf"):
        err[c["i"] % n] = float(k)
    norm = np.linalg.norm(err)
    if 0.75 < norm / (tol * n) < 1.3:
        ctx.label("at the tolerance")
        return
    noise = 2e-9 * (1 + c["far"]) * mag * math.sqrt(n)
    if noise > 0.2 * tol * n:
        ctx.label("too-rough")
        return
    want = "PASSED" if norm <= tol * n else "FAILED"
    start = g.layout(c["form"], x)
    keep = start.copy()
    seen = []

    def df(v, *a, eval_fun=False):
        seen.append((np.array(v), eval_fun))
        r = df0(np.array(v)) + err
        v *= 0.0                                    # a gradient that writes on its input
        return r
    s = SCG(lambda v: f0(np.array(v)), df, {"max_it": 5})
    with sut("check_gradient_function"), g.quiet() as out:
        if c["default"] and tol == 1e-4:
            s.check_gradient_function(start)
        else:
            s.check_gradient_function(start, tol)
    text = out.getvalue()
    unchanged([keep], [start], "check_gradient_function")
    require(seen and all(e for _, e in seen), "the gradient was not asked to evaluate the function first")
    require(all(np.array_equal(v, keep) for v, _ in seen), "the gradient was evaluated somewhere else")
    other = "PASSED" if want == "FAILED" else "FAILED"
    require(want in text and other not in text,
            lambda: f"mistake of norm {norm:.4g} in {n} components (tolerance {tol}): expected {want}; the output is {text!r}")
    ctx.label(want, k, f"n{min(n, 3)}", "long" if np.linalg.norm(gr) > 1e3 else "")
    ctx.hit(norm != 0)


def case(extra, far, sizes=g.size(1, 12, (30, 65, 101))):
    return st.fixed_dictionaries({
        "n": sizes, "f": st.sampled_from(["quadratic", "cubic", "trig", "exp", "product"]),
        "a": g.hexs(12), "H": g.hexs(40), "x": g.hexs(12), "far": st.sampled_from(far), **extra})


SUBS = [Sub("difference", case({"scale": g.mag(-4, 4), "args": st.sampled_from([0, 0, 1, 2, 3, 4, 6]), "number": st.booleans(),
                                "ret": st.sampled_from(["number", "array"]), "form": st.sampled_from(["c", "f", "strided", "list"])},
                               [0.5, 2.0, 8.0, 300.0]), check, 1200, 24000, shards=2),
        Sub("wide", case({"scale": g.mag(-4, 4), "args": st.sampled_from([0, 2]), "number": st.just(False), "ret": st.just("number"),
                          "form": st.sampled_from(["c", "list"])}, [0.5, 2.0, 8.0], st.integers(1, 21).map(lambda k: 100 * k + 1)), check, 4, 60),
        Sub("verdict", case({"tol": st.sampled_from([1e-4, 1e-4, 1e-2, 1e-3, 1e-5, 1.0]), "times": st.sampled_from([1.5, 2.0, 5.0, 100.0]),
                             "big": st.booleans(), "mistake": st.sampled_from(["none", "one", "all", "scale", "signs", "reversed", "opposite", "rotated", "nan", "inf"]),
                             "scale": st.sampled_from([1.0, 1.0, 30.0, 1e3, 1e5]), "i": st.integers(0, 11), "default": st.booleans(), "form": g.LAYOUTS}, [0.5, 2.0]),
            check_verdict, 800, 16000, shards=2)]
