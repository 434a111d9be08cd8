import numpy as np
from hypothesis import strategies as st
from pbt import gen as g, ref
from pbt.core import Sub, close, require, sut, unchanged
from pbt.gp import GP, smooth, strategy, warm  # noqa: F401

PROPERTY = "C11"
TITLE = "The gradient of the free energy is its derivative"
RULE = ("derivative: a case is a problem (OU, DW or L63, any method, observations at eighths of the window that often hold "
        "its ends) with smooth A(t), b(t) and a smooth direction, perhaps on one entry only; on grids of N, 2N and 4N "
        "steps the derivative of free_energy along the direction (five-point rule) and the pairing with gradient() "
        "differ by O(dt), and the difference extrapolated to dt = 0 has to vanish. composition: on rough paths the gradient "
        "is compared, entry by entry, with the formulas evaluated on an independent forward sweep, expectations and "
        "backward sweep. Non-trivial: at least one observation, a direction and a gradient that are not zero.")
ASSUMPTIONS = ["derivative: extrapolated difference below 0.5 % of the sum of absolute terms of the pairing (plus 15 % "
               "of the first extrapolate, for slow convergence)",
               "composition: 1e-8 relative to absolute terms; paths whose discrete covariance loses positive "
               "definiteness are not counted", "L96: the derivative itself is a known finding; only the composition is claimed"]


def check_derivative(c, ctx):
    T, N0 = c["T"], c["N"]
    es, sc = [], []
    for N in (N0, 2 * N0, 4 * N0):
        p = GP(dict(c, n=N + 1, dt=T / N, obs=[o * N // 8 for o in c["at"]]), rough=False)
        d = p.d
        shA, shb = ((), ()) if p.one else ((d, d), (d,))
        I = 1.0 if p.one else np.eye(d)
        A = 2.0 * I + smooth(c["A"], p.tk, shA, T, 0.7)
        b = smooth(c["b"], p.tk, shb, T, 2.0)
        dA, db = smooth(c["dA"], p.tk, shA, T), smooth(c["db"], p.tk, shb, T)
        if not p.one and c["focus"] is not None:
            k = c["focus"]
            mA, mb = np.zeros((d, d)), np.zeros(d)
            if k < 9:
                mA[k // 3, k % 3] = 1.0
            else:
                mb[k - 9] = 1.0
            dA, db = dA * mA, db * mb
        if c["only"] == "A":
            db = 0 * db
        if c["only"] == "b":
            dA = 0 * dA
        v = p.vargp()
        x, u = p.x(A, b), p.x(dA, db)
        e = 1e-4
        with sut("free_energy and gradient"):
            f = [v.free_energy(x + k * e * u) for k in (1, -1, 2, -2)]
            x0 = x.copy()
            gr = v.gradient(x, eval_fun=True)
        unchanged([x0], [x], "gradient")
        require(np.all(np.isfinite(f)) and np.all(np.isfinite(gr)), f"{p.kind}: not finite")
        num = (8 * (f[0] - f[1]) - (f[2] - f[3])) / (12 * e)
        es.append(num - gr @ u)
        sc.append(np.abs(gr * u).sum() + 1e-7 * abs(f[0]))
    r1, r2 = 2 * es[1] - es[0], 2 * es[2] - es[1]
    ext = (4 * r2 - r1) / 3
    s = sc[2]
    require(abs(ext) <= 0.005 * s + 0.15 * abs(r1), lambda: f"{c['kind']}/{c['method']}: the derivative of the free "
            f"energy and the gradient differ by {[float(e / s) for e in es]} (relative) on {N0}, {2 * N0}, {4 * N0} steps: "
            f"{ext / s:.4f} for dt -> 0")
    ctx.label(c["kind"], c["method"], f"focus{c['focus']}" if c["kind"] == "L63" else "", *(
        ["end"] if 8 in c["at"] else []), *(["start"] if 0 in c["at"] else []))
    ctx.hit(np.any(np.concatenate([dA.ravel(), db.ravel()]) != 0) and s > 1e-6)


def dcase(kinds, N, Ts):
    w = 3 if "L63" in kinds else 1
    return st.fixed_dictionaries({
        "kind": st.sampled_from(kinds), "method": st.sampled_from(g.METHODS), "T": st.sampled_from(Ts),
        "N": st.sampled_from(N), "at": g.obs_times(9, 5, 1), "A": g.hexs(4 * w * w), "b": g.hexs(4 * w),
        "dA": g.hexs(4 * w * w), "db": g.hexs(4 * w), "m0": g.hexs(w), "S0": g.hexs(w * w), "y": g.hexs(8 * w),
        "R": g.hexs(w * w), "mu": g.hexs(w), "tau": g.hexs(w * w), "H": st.sampled_from([0, 0, 1]), "theta": g.hexs(3),
        "sigma": g.hexs(w), "ssig": g.mag(-0.5, 1), "t0": st.sampled_from([0.0, 1.0]), "oform": st.sampled_from(["list", "array"]),
        "only": st.sampled_from(["", "", "A", "b"]),
        "focus": st.one_of(st.none(), st.integers(0, 11)) if w == 3 else st.none()})


def check_composition(c, ctx):
    p = GP(c)
    R = p.reference()
    if R is None:
        ctx.label("not-positive-definite")
        return
    v = p.vargp()
    x = p.x()
    with sut("gradient"):
        for k in range(c["again"]):
            v.free_energy(x * 0.5)
        if c["how"] == "eval":
            gr = v.gradient(x, eval_fun=True)
        else:
            v.free_energy(x)
            gr = v.gradient(x)
    nA = p.A.size
    require(np.shape(gr) == x.shape, f"the gradient has shape {np.shape(gr)}, for {x.shape} parameters")
    tol = 1e-8 if p.kind != "L96" else 1e-7
    close(gr[:nA], R["gA"].ravel(), R["sgA"], f"{p.kind}: gradient w.r.t. A", tol)
    close(gr[nA:], R["gb"].ravel(), R["sgb"], f"{p.kind}: gradient w.r.t. b", tol)
    ctx.label(p.kind, p.method, c["how"])
    ctx.hit(np.abs(R["grad"]).max() > 1e-9)


ex = {"again": st.sampled_from([0, 0, 1]), "how": st.sampled_from(["eval", "free_energy"])}


def check_l96(c, ctx):
    """The known finding, on one fixed problem: recorded while it is there."""
    p = GP(c)
    v = p.vargp()
    x, u = p.x(), np.zeros(p.A.size + p.b.size)
    u[:p.A.size] = np.tile(np.sin(1.0 + np.arange(100.0) ** 1.3).reshape(10, 10), (p.n, 1, 1)).ravel()
    e = 1e-5
    with sut("free_energy and gradient"):
        num = (v.free_energy(x + e * u) - v.free_energy(x - e * u)) / (2 * e)
        gr = v.gradient(x, eval_fun=True)
    require(np.all(np.isfinite(gr)) and np.isfinite(num), "L96: not finite")
    if abs(num - gr @ u) > 0.02 * np.abs(gr * u).sum():
        ctx.finding("C11-L96", f"derivative {num} and pairing {gr @ u}")
    ctx.hit()


S0 = "".join(f"{(37 * k * k + 11 * k + 5) % 256:02x}" for k in range(100))
L96 = {"kind": "L96", "n": 41, "obs": [10, 20], "method": "euler", "dt": 0.005, "oform": "list", "A": "10", "b": "30",
       "m0": "20", "S0": S0, "y": "20", "R": "10", "mu": "00", "tau": "10", "H": 0, "theta": "00", "sigma": "7f",
       "ssig": 10.0, "sa": 0.1, "t0": 0.0}

SUBS = [Sub("derivative-scalar", dcase(["OU", "DW"], [32, 64], [0.5, 1.0, 2.0]), check_derivative, 240, 4000, shards=3),
        Sub("derivative-l63", dcase(["L63"], [24, 40], [0.2, 0.4]), check_derivative, 150, 2400, shards=5),
        Sub("composition-scalar", strategy(["OU", "DW"], extra=ex), check_composition, 400, 8000, shards=2),
        Sub("composition-long", strategy(["OU", "DW"], extra=ex, sizes=g.LONGER), check_composition, 12, 200),
        Sub("composition-l63", strategy(["L63"], extra=ex), check_composition, 200, 3600, shards=2),
        Sub("composition-l96", strategy(["L96"], extra=ex), check_composition, 60, 1000, shards=2),
        Sub("l96-finding", st.just(L96), check_l96, 1, 1, tshards=1)]
