import numpy as np
from hypothesis import strategies as st
from pbt import gen as g, ref
from pbt.core import Sub, close, require, sut, unchanged
from pbt.gp import GP, strategy, warm  # noqa: F401

PROPERTY = "C12"
TITLE = "Free energy is KL0 + Esde + Eobs, with consistent by-products"
RULE = ("A case is a problem for one of the four systems (any method, observation set, noise, prior, initial moments, "
        "operator) and rough A(t), b(t) in one vector; the value is compared with independent forward sweep + exact "
        "quadrature + closed forms; the by-products (moments, multipliers, average drifts) with theirs. history: "
        "a sequence of evaluations at different points of one object equals those of fresh objects. overflow: unstable paths whose moments "
        "overflow have no finite free energy. Non-trivial: at least "
        "3 nodes and all three terms not zero.")
ASSUMPTIONS = ["tolerance 1e-9 relative to absolute terms; paths whose discrete covariance loses positive definiteness are "
               "not counted"]

KEYS = ("mt", "st", "lamt", "psit", "Efx", "Edf")


def compare_out(out, R, p):
    sc = {"mt": R["sm"].max(), "st": R["sS"].max(), "lamt": np.abs(R["sl"]).max(), "psit": np.abs(R["sp"]).max()}
    th = np.abs(np.asarray(p.theta)).max()
    X = sc["mt"] + 4 * np.sqrt(sc["st"]) + 1
    sc["Efx"], sc["Edf"] = 12 * X ** 3 + th * X, 12 * X ** 2 + th
    for k in KEYS:
        require(k in out, f"{p.kind}: no {k} in the output")
        tol = 1e-9
        if k in ("lamt", "psit"):
            tol = 1e-8
        close(out[k], R[k], sc[k], f"{p.kind}: {k}", tol)


def check(c, ctx):
    p = GP(c)
    R = p.reference()
    if R is None:
        ctx.label("not-positive-definite")
        return
    v = p.vargp()
    x = p.x()
    x0 = x.copy()
    with sut("free_energy"):
        F = v.free_energy(x)
        out = v.arg_out
    unchanged([x0], [x], "free_energy")
    require(np.ndim(F) == 0, f"the free energy has shape {np.shape(F)}")
    close(float(F), R["F"], R["F_abs"], f"{p.kind}: free energy", 1e-9 if p.kind != "L96" else 1e-8)
    compare_out(out, R, p)
    close(out["m0"], p.m0, 1.0, "m0", 1e-14)
    close(out["s0"], p.S0, 1.0, "s0", 1e-14)
    ctx.label("Eobs<-50" if R["parts"][2] < -50 else "", "Esde>1e6" if R["parts"][1] > 1e6 else "")
    ctx.label(p.kind, p.method, f"obs{min(3, len(p.obs))}", *(["last"] if p.obs[-1] == p.n - 1 else []),
              *(["first"] if p.obs[0] == 0 else []))
    ctx.hit(p.n >= 3 and all(abs(q) > 1e-9 for q in R["parts"]))


def check_history(c, ctx):
    p = GP(c)
    v = p.vargp()
    seen = {}
    x0 = p.x()
    buf = x0.copy()
    for op in c["ops"]:
        if c["reuse"]:
            # One array, which the caller changes.
            buf[:] = x0 * (1.0 + c["step"] * op[1])
            x = buf
        else:
            x = x0 * (1.0 + c["step"] * op[1])
        fresh = p.vargp()
        with sut(op[0]):
            if op[0] == "f":
                got, exp = v.free_energy(x), fresh.free_energy(x)
            elif op[0] == "g":
                got, exp = v.gradient(x, eval_fun=True), fresh.gradient(x, eval_fun=True)
            elif op[0] == "fg":
                v.free_energy(x), fresh.free_energy(x)
                got, exp = v.gradient(x), fresh.gradient(x)
            else:
                got, exp = v.initialization(), fresh.initialization()
        close(got, exp, np.abs(exp).max() + 1e-300, f"{p.kind}: {op[0]} after {len(seen)} other calls", 1e-13)
        if op[0] != "i":
            a, b = v.arg_out, fresh.arg_out
            for k in KEYS:
                close(a[k], b[k], np.abs(b[k]).max() + 1e-300, f"{p.kind}: {k} after {op[0]}", 1e-13)
        seen[len(seen)] = 1
    ctx.label(p.kind, f"ops{min(len(c['ops']), 4)}")
    ctx.hit(len({o[1] for o in c["ops"]}) >= 2)


def check_overflow(c, ctx):
    """Moments that overflow: the free energy must not look like a number."""
    p = GP(c)
    A = p.A * -(10.0 ** c["power"])
    with np.errstate(all="ignore"):
        m, S, _, _ = ref.forward(A, p.b, p.m0, p.S0, p.sigma(), p.dt, p.method)
    last = np.r_[np.ravel(m[-1]), np.ravel(S[-1])]
    if np.all(np.isfinite(last)):
        ctx.label("finite")
        return
    v = p.vargp()
    try:
        with np.errstate(all="ignore"), g.quiet():
            F = v.free_energy(p.x(A))
    except (ArithmeticError, ValueError, np.linalg.LinAlgError) as e:
        ctx.label(type(e).__name__)
    else:
        require(not np.isfinite(F) or F > 1e100, f"{p.kind}: a free energy of {F}, for moments that end at {last[:4]}")
        ctx.label("not-finite")
    ctx.label(p.kind)
    ctx.hit()


ops = st.lists(st.tuples(st.sampled_from(["f", "g", "fg", "i"]), st.integers(-3, 3)).map(list), min_size=2, max_size=7)
dcase = lambda kinds, nmax: strategy(kinds, nmax, {"ops": ops, "reuse": st.booleans(), "step": st.sampled_from([0.1, 0.1, 1e-3, 1e-6, 1e-9])}).filter(lambda c: len(c["obs"]) >= 1 and c["n"] >= 3 and not c["H"])

SUBS = [Sub("value-scalar", strategy(["OU", "DW"], 60), check, 600, 10000, shards=2),
        Sub("value-long", strategy(["OU", "DW"], sizes=g.LONGER), check, 12, 200),
        Sub("value-l63", strategy(["L63"]), check, 300, 5000, shards=3),
        Sub("value-l96", strategy(["L96"]), check, 90, 1500, shards=3),
        Sub("overflow", strategy(["OU", "OU", "DW", "DW", "L63"], 60, {"power": st.integers(4, 20)}), check_overflow, 60, 900),
        Sub("history", dcase(["OU", "DW", "L63", "L96"], 12), check_history, 120, 2000, shards=3)]
