import copy
import math
import types

import numpy as np
from hypothesis import strategies as st
from src.var_bayes.simulation import Simulation
from pbt import gen as g, ref
from pbt.core import Sub, close, expect, require, sut
from pbt.gp import GP, strategy
from pbt.props.c13 import backward_info, evidence

PROPERTY = "C19"
TITLE = "A simulation stores a consistent optimum and repeats itself"
RULE = ("run: a case is a set of simulation parameters (DW, OU, L63; method, window, noise, density, drift, prior; as "
        "numbers, lists or diagonal matrices; seed). After setup and run the output has every field with its shape, all finite; m(t), S(t) are the moments of the stored A(t), "
        "b(t); fx, the expectations and the multipliers are the independent values for those; fx is not above the free energy "
        "of the initial guess; a second simulation is identical and the parameters are not modified. ou: the optimum is "
        "-log p(observations) + KL(q(0) || smoothed x(0)), exactly known. setup: the path, observations, noise, prior and "
        "initial moments that setup() makes, L96 included. reuse: one object through several set-ups (with other models, perhaps a rejected one) gives what new objects give. invalid: bad parameters raise and leave no output. "
        "Non-trivial: at least one observation and an optimum below the start.")
ASSUMPTIONS = ["where the stored S(t) is not positive definite (a step that is too coarse) only the moments are compared", "all the components are observed; partial observation and external data are known findings",
               "ou: tolerance 0.02 + 2 % of the absolute terms + twice the change between two grids", "L96 (40 components) takes "
               "minutes per run: the optimisation of 10 components, by the same classes, stands for it"]
DIM = {"OU": 1, "DW": 1, "L63": 3, "L96": 40}
FIELDS = {"at", "bt", "fx", "m0", "s0", "mt", "st", "Efx", "Edf", "lamt", "psit"}


def density(c):
    """At least two observations, at most one per step."""
    return int(min(math.ceil((c["k"] + 0.01) / (c["n"] * c["dt"])), round(1 / c["dt"])))


def formed(v, how, d):
    """A number, a list (values differ), a diagonal matrix, or arrays of these: the value, and the array of length d it means."""
    if how == "number" or d == 1:
        return v, np.full(d, v)
    w = [round(v * f, 6) for f in (1.0, 1.3, 0.8, 1.1, 0.9)]
    w = [w[i % 5] for i in range(d)]
    if how.startswith("array"):
        if how == "array-int":
            w = [float(math.ceil(abs(x)) + (v == 0.0)) for x in w]
        return (np.array(w, int if how == "array-int" else float) if how != "array-matrix" else np.diag(w)), np.array(w)
    return (w, np.array(w)) if how == "list" else ([[w[i] if i == j else 0.0 for j in range(d)] for i in range(d)], np.array(w))


def meant(c, d):
    """sys, obs, tau, mu as arrays of length d."""
    f = c.get("forms") or ["number"] * 4
    return [formed(c[k], h, d)[1] for k, h in zip(("sys", "obs", "tau", "mu"), f)]


def params(c):
    kind = c["kind"]
    th = {"DW": c["th"], "OU": c["th"], "L63": [10.0 + c["th"], 28.0, 2.667], "L96": 7.0 + c["th"]}.get(kind)
    n = c["n"]
    d = DIM[kind]
    fs, fo, ft, fm = c.get("forms") or ["number"] * 4
    c = dict(c, sys=formed(c["sys"], fs, d)[0], obs=formed(c["obs"], fo, d)[0], tau=formed(c["tau"], ft, d)[0],
             mu=formed(c["mu"], fm, d)[0])
    return {"Output_Name": "sim", "Model": c["name"], "Ode-method": c["method"], "Random-Seed": c["seed"],
            "Time-window": {"t0": c["t0"], "tf": c["t0"] + n * c["dt"], "dt": c["dt"]},
            "Noise": {"sys": c["sys"], "obs": c["obs"]}, "Observations": {"density": c.get("dens") or density(c), "operator": c["op"]},
            "Drift": {"theta": th}, "Prior": {"tau0": c["tau"], "mu0": c["mu"]}}


def same(a, b):
    """Whether two dictionaries of parameters are equal, arrays and their types included."""
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.dtype == b.dtype and np.array_equal(a, b)
    return type(a) is type(b) and a == b


def simulate(P, data=None):
    with sut("setup and run"), g.quiet():
        s = Simulation("sim")
        s.setup(P, data)
        s.run()
    return s


def start(s, method, dt):
    """Free energy of the initial guess, from the public classes."""
    from src.var_bayes.bwd_ode import BwdOde
    from src.var_bayes.fwd_ode import FwdOde
    from src.var_bayes.gaussian_like import GaussianLikelihood
    from src.var_bayes.prior_kl0 import PriorKL0
    from src.var_bayes.variational import VarGP
    d = s.m_data
    one = d["model"].single_dim
    v = VarGP(d["model"], s.output["m0"], s.output["s0"], FwdOde(dt, method, one), BwdOde(dt, method, one),
              GaussianLikelihood(d["obs_y"], d["obs_t"], d["obs_noise"], None, one),
              PriorKL0(d["mu0"], d["tau0"], one), d["obs_y"], d["obs_t"])
    return v.free_energy(v.initialization())


def check(c, ctx):
    P = params(c)
    keep = copy.deepcopy(P)
    s = simulate(P)
    require(same(P, keep), "the parameters were modified")
    o = s.output
    kind, n, d = c["kind"], c["n"] + 1, DIM[c["kind"]]
    require(FIELDS <= set(o), f"fields that are missing in the output: {FIELDS - set(o)}")
    v, M = (lambda *k: k), (n, d, d)
    shapes = {"at": M, "bt": (n, d), "mt": (n, d), "st": M, "Efx": (n, d), "Edf": M, "lamt": (n, d), "psit": M}
    for k, sh in shapes.items():
        want = (n,) if d == 1 else sh
        require(np.shape(o[k]) == want, f"{k} has shape {np.shape(o[k])}, not {want}")
        require(np.all(np.isfinite(o[k])), f"{k} is not finite")
    require(np.isfinite(o["fx"]) and np.size(o["fx"]) == 1, f"fx is {o['fx']}")
    A, b, dt = np.asarray(o["at"], float), np.asarray(o["bt"], float), c["dt"]
    th = np.array(P["Drift"]["theta"]) if kind == "L63" else P["Drift"]["theta"]
    sys, obs, tau0, mu0 = meant(c, d)
    S = c["sys"] if d == 1 else np.diag(sys)
    m, V, sm, sV = ref.forward(A, b, o["m0"], o["s0"], S, dt, c["method"].lower())
    close(o["mt"], m, sm, "m(t) against the moments of the stored A(t), b(t)", 1e-9)
    close(o["st"], V, sV, "S(t) against the moments of the stored A(t), b(t)", 1e-9)
    e = np.linalg.eigvalsh(V.reshape(n, d, d))
    if np.any(e[:, 0] <= 1e-3 * e.max()):
        ctx.label("not-positive-definite")      # too coarse a step: no expectations to compare with
        return
    dsig = sys
    E = ref.energy(kind, A, b, m, V, th, 1.0 / dsig, dt)
    R = np.atleast_2d(s.m_data["obs_noise"]).astype(float)
    require(np.allclose(R, np.diag(obs)), f"observation noise {R}, given {P['Noise']['obs']}")
    idx, y = list(s.m_data["obs_t"]), np.asarray(s.m_data["obs_y"], float)
    H = np.eye(d)
    eo, eo_abs = ref.eobs(m, V, y, idx, R, H)
    mu, tau = mu0, np.diag(tau0)
    k0 = ref.kl(o["m0"], o["s0"], mu, tau)
    F, sc = k0 + E["Esde"] + eo, k0 + 2 * d + E["Esde_abs"] + eo_abs
    close(float(np.ravel(o["fx"])[0]), F, sc, "fx against the free energy of the stored A(t), b(t)", 1e-9)
    close(np.reshape(o["Efx"], (n, d)), E["Ef"], np.abs(E["Ef"]).max() + np.abs(V).max() + np.abs(m).max() ** 3 + 1, "Efx", 1e-9)
    close(np.reshape(o["Edf"], M), E["Edf"], np.abs(E["Edf"]).max() + np.abs(V).max() + np.abs(m).max() ** 2 + 1, "Edf", 1e-9)
    jm, jS = ref.eobs_grad(m, V, y, idx, R, H)
    sq = (lambda a: a.reshape(n)) if d == 1 else (lambda a: a)
    lam, psi, _, _ = ref.backward(A, sq(E["dm"]), sq(E["dS"]), sq(jm), sq(jS), dt, c["method"].lower())
    _, _, sl, sp = ref.backward(A, sq(E["dm_abs"]), sq(E["dS_abs"]),
                                sq((jm != 0) * (np.abs(y).max(initial=0) + np.abs(m).max()) / obs.min()), sq(jS), dt, c["method"].lower())
    close(o["lamt"], lam, sl + np.abs(sl).max(), "lamt", 1e-8)
    close(o["psit"], psi, sp + np.abs(sp).max(), "psit", 1e-8)
    with sut("the free energy of the initial guess"):
        F0 = start(s, c["method"], dt)
    require(F <= F0 + 1e-8 * sc, f"optimised from {F0} to {F}")
    t = simulate(params(c))
    for k in FIELDS:
        require(np.array_equal(np.asarray(o[k], float), np.asarray(t.output[k], float)), f"{k} of a second simulation differs")
    ctx.label(kind, c["method"].lower(), f"obs{min(len(idx), 4)}")
    ctx.hit(len(idx) > 0 and F < F0 - 1e-6 * sc)


def check_setup(c, ctx):
    """What run() starts from, for all models: L96 included."""
    P = params(c)
    keep = copy.deepcopy(P)
    out = []
    for _ in range(2):
        with sut("setup"), g.quiet():
            s = Simulation("sim")
            s.setup(P, None)
        require(same(P, keep), "the parameters were modified by setup")
        out.append(s.m_data)
    a = out[0]
    n, d = c["n"] + 1, DIM[c["kind"]]
    model = a["model"]
    x = np.asarray(model.sample_path, float)
    require(x.shape == ((n,) if d == 1 else (n, d)), f"sample path of shape {x.shape}")
    sys, obs, tau, mu = meant(c, d)
    close(np.atleast_2d(model.sigma), np.diag(sys), sys.max(), "the model's noise", 1e-12)
    require(np.array_equal(np.ravel(model.theta), np.ravel(P["Drift"]["theta"])), f"the model's drift is {model.theta}")
    close(float(model.time_step), c["dt"], c["dt"] + abs(c["t0"]), "time step", 1e-11)
    close(float(model.time_window[0]), c["t0"], 1.0, "start", 1e-11)
    y, R = np.asarray(a["obs_y"], float), np.atleast_2d(a["obs_noise"])
    require(y.shape[1:] == x.shape[1:] and len(y) == len(a["obs_t"]), f"{len(a['obs_t'])} times, values of shape {y.shape}")
    close(R, np.diag(obs), obs.max(), "the noise of the observations", 1e-12)
    r = np.abs(y - x[list(a["obs_t"])]) / np.sqrt(obs if d > 1 else obs[0])
    require(r.size == 0 or r.max() < 7, lambda: f"an observation {r.max():.1f} standard deviations off the path")
    z = np.abs(np.asarray(a["m0"], float) - x[0]) / 0.1
    require(np.shape(a["m0"]) == x.shape[1:] and z.max() < 7, lambda: f"initial mean {a['m0']}, path starts at {x[0]}")
    require(z.max() > 0, "the initial mean is the true state")
    V = np.atleast_2d(a["s0"])
    require(V.shape == (d, d) and np.linalg.eigvalsh(V)[0] > 0, f"initial covariance {a['s0']}")
    close(np.broadcast_to(a["mu0"], d), mu, np.abs(mu).max() + 1e-9, "prior mean", 1e-12)
    close(np.atleast_2d(a["tau0"]), np.diag(tau), tau.max(), "prior covariance", 1e-12)
    for k in ("obs_t", "obs_y", "m0", "s0", "mu0", "tau0"):
        require(np.array_equal(np.asarray(a[k], float), np.asarray(out[1][k], float)), f"{k} differs after a second setup with one seed")
    require(np.array_equal(x, out[1]["model"].sample_path), "two paths with one seed differ")
    if d > 1:       # whatever is made of a full matrix, the caller's stays
        T = np.diag(tau) + 0.1 * tau.min() / d
        P["Prior"]["tau0"], keep = T, T.copy()
        with sut("setup with a full matrix tau0"), g.quiet():
            Simulation("sim").setup(P, None)
        require(np.array_equal(T, keep), "setup modified the array tau0")
    ctx.label(c["kind"], *("/".join(f) for f in [c["forms"]] if d > 1))
    ctx.hit()


def check_optimise(c, ctx):
    """What run() does, by the public classes, for any problem."""
    from src.numerics.optim_scg import SCG
    p = GP(dict(c, H=0), rough=False)
    v = p.vargp()
    try:
        with g.quiet():
            x0 = v.initialization()
            F0 = v.free_energy(x0)
            scg = SCG(v.free_energy, v.gradient, {"max_it": c["it"], "x_tol": 1e-6, "f_tol": 1e-8})
            x, fx = scg(x0.copy())
            F = v.free_energy(x)
    except np.linalg.LinAlgError:
        # The step was so long that a covariance is not positive definite.
        require(p.kind == "L96", f"{p.kind}: the optimisation failed")
        ctx.label("L96-not-positive-definite")
        return
    if not np.isfinite(F0):
        ctx.label("start-not-finite")
        return
    sc = 1e-9 * (abs(F0) + abs(F) + 1.0)
    if not np.isfinite(F) or not np.isfinite(fx):
        A = x[:p.n * p.d * p.d].reshape((p.n,) if p.one else (p.n, p.d, p.d))
        b = x[p.n * p.d * p.d:].reshape((p.n,) if p.one else (p.n, p.d))
        S = ref.forward(A, b, p.m0, p.S0, p.sigma(), p.dt, p.method)[1].reshape(p.n, p.d, p.d)
        require(not np.all(np.isfinite(S)) or np.linalg.eigvalsh(S).min() <= 0 or np.abs(x).max() > 1e50,
                f"{p.kind}: the optimiser ends at {fx}, free_energy(x) is {F}")
        ctx.label("not-positive-definite")      # too long a step for these observations
        return
    require(abs(F - fx) <= sc, f"{p.kind}: the optimiser ends at {fx}, free_energy(x) is {F}")
    require(F <= F0 + sc, f"{p.kind}: optimised from {F0} to {F}")
    ctx.label(p.kind, "down" if F < F0 - sc else "still")
    ctx.hit(F < F0 - sc)


def check_ou(c, ctx):
    """Finer grids, same window: the optimum is known in closed form."""
    P = params(c)
    s = simulate(P)
    o, d = s.output, s.m_data
    p = types.SimpleNamespace(n=c["n"] + 1, theta=c["th"], dsig=[c["sys"]], obs=list(d["obs_t"]), y=np.asarray(d["obs_y"], float),
                              R=c["obs"], dt=c["dt"], mu=c["mu"], tau=c["tau"])
    Lam, eta, L, h = backward_info(p, None, p.R)
    v0 = 1 / (1 / p.tau + L)
    q0 = ref.kl(o["m0"], o["s0"], v0 * (p.mu / p.tau + h), v0)
    nle, mag = evidence(p)
    F, best = float(np.ravel(o["fx"])[0]), nle + q0
    # Leading error of the discretisation: the strength of the pull at the
    # observations (where a(t) jumps) times dt.
    rough = c["dt"] * (np.abs(np.diff(c["sys"] * Lam)).sum() + c["th"] + len(p.obs)) * (1 + mag)
    require(abs(F - best) <= 0.03 * (1 + mag + q0) + rough,
            lambda: f"OU/{c['method']}: optimum {F}, in closed form {best} (allowed {0.03 * (1 + mag + q0) + rough:.3f})")
    ctx.label(c["method"].lower())
    ctx.hit(rough < 0.2 * (1 + mag))


def check_reuse(c, ctx):
    """One Simulation object through a sequence of set-ups and runs."""
    s = Simulation("sim")
    fresh = None
    for k, q in enumerate(c["seq"]):
        P = params(q)
        keep = copy.deepcopy(P)
        bad = c["bad"] == k and k > 0
        if bad:
            how = c["how"]
            if how == "density":
                P["Observations"]["density"] = int(round(1 / q["dt"])) + 1
            elif how == "model":
                P["Model"] = "L64"
            else:
                P["Noise"][how] = -1.0
            keep = copy.deepcopy(P)
        with g.quiet():
            if bad:
                expect((ValueError, RuntimeError), f"setup with a bad {how}", s.setup, P, None)
                require(same(P, keep), "the parameters were modified")
                ctx.label(f"rejected-{how}")
                if c["after"]:      # nothing is computed from parameters that were rejected
                    try:
                        s.run()
                    except Exception:
                        ctx.label("run-after-rejection-raises")
                    else:
                        old = simulate(copy.deepcopy(last))
                        for f in FIELDS:
                            require(np.array_equal(np.asarray(s.output[f], float), np.asarray(old.output[f], float)),
                                    f"run after a rejected set-up: {f} is not that of the parameters accepted before")
                continue
            last = P
            with sut(f"setup and run, number {k}"):
                s.setup(P, None)
                if q["only"]:
                    ctx.label("setup-only")
                    continue
                s.run()
                if q["twice"]:
                    s.run()
                    ctx.label("run-twice")
        require(same(P, keep), "the parameters were modified")
        fresh = simulate(copy.deepcopy(P))
        require(set(s.output) == set(fresh.output), f"fields {sorted(s.output)}; of a new object: {sorted(fresh.output)}")
        for f in FIELDS:
            require(np.array_equal(np.asarray(s.output[f], float), np.asarray(fresh.output[f], float)),
                    f"run {k} of one object: {f} differs from that of a new object")
        ctx.label(q["kind"])
        ctx.hit(k > 0)


BAD = [("Noise", "obs", 0.0), ("Noise", "obs", -1.0), ("Noise", "sys", 0.0), ("Noise", "sys", -0.5), ("Prior", "tau0", 0.0),
       ("Prior", "tau0", -0.5), ("Observations", "density", "dense"), ("Time-window", "dt", 0.0), ("Time-window", "dt", -0.01),
       ("Time-window", "tf", "before"), ("Ode-method", None, "rk5"), ("Ode-method", None, ""), ("Model", None, "L64"),
       ("Model", None, ""), ("Model", None, "near"), ("Ode-method", None, "near"), ("Drift", "theta", None), ("Noise", "obs", None), ("Noise", "sys", None), ("Prior", "tau0", None),
       ("Observations", "density", 0)] + [(a, b, math.nan) for a, b in (("Noise", "obs"), ("Noise", "sys"), ("Prior", "tau0"))] + [
    (a, b, f) for a, b in (("Noise", "obs"), ("Noise", "sys"), ("Prior", "tau0")) for f in ("one-list", "one-matrix")]


def check_bad(c, ctx):
    P = params(c)
    k, j, v = c["bad"]
    if v in ("one-list", "one-matrix"):     # a single entry that is not positive
        d = DIM[c["kind"]]
        w = [0.5 + 0.1 * i for i in range(d)]
        w[c["n"] % d] = -0.3 if c["n"] % 2 else 0.0
        v = w if v == "one-list" else [[w[i] if i == q else 0.0 for q in range(d)] for i in range(d)]
    if v == "near":         # names that are almost right: all of them
        w = P[k]
        for name in (w + "B", w + "0", w[:-1], w[1:], "X" + w, w * 2, w + "-" + w, None, 0)[:9 if k == "Model" else 6]:
            rejected(c, dict(P, **{k: name}), k, j, name)
        ctx.label(f"{k}/near")
        ctx.hit()
        return
    if v == "dense":
        v = int(round(1 / c["dt"])) + 1
    if v == "before":
        v = c["t0"] - 1.0
    if c["drop"] and j is None:
        del P[k]
    elif c["drop"]:
        del P[k][j]
    elif j is None:
        P[k] = v
    else:
        P[k][j] = v
    rejected(c, P, k, j, v)
    ctx.label(f"{k}/{j}")
    ctx.hit()


def rejected(c, P, k, j, v):
    s = Simulation("sim")
    with g.quiet():
        try:
            s.setup(P, None)
            if c["kind"] != "L96":      # (a run takes minutes, and the set-up has to raise)
                s.run()
        except Exception:
            pass
        else:
            require(False, f"{c['kind']}: {'no' if c['drop'] else v!r} {k}/{j} was accepted, fx = {s.output.get('fx')}")
    require(not s.output, f"{c['kind']}: output {sorted(s.output)} although {k}/{j} = {v!r} was rejected")


def check_findings(c, ctx):
    P = params(dict(c, kind="L63", name="L63", op=[True, False, True], dens=20, n=20, dt=0.01, sys=5.0))
    try:
        with g.quiet():
            s = Simulation("sim")
            s.setup(P, None)
            s.run()
            ok = np.isfinite(s.output["fx"])
    except Exception as e:
        ctx.finding("C19-partial-observation", str(e))
    else:
        require(ok, "partial observation: fx is not finite")
    P = params(dict(c, kind="DW", name="DW", dens=4, n=50, dt=0.02, sys=0.8))
    try:
        with g.quiet():
            s = Simulation("sim")
            s.setup(P, ([10, 20, 30, 40], np.array([1.0, 0.9, 1.1, 1.0])))
            s.run()
            ok = np.isfinite(s.output["fx"])
    except Exception as e:
        ctx.finding("C19-external-data", str(e))
    else:
        require(ok, "external data: fx is not finite")
    ctx.hit()


MANY = ["number", "list", "matrix", "array", "array-int", "array-matrix"]
FORMS = st.one_of(st.just(["number"] * 4), st.lists(st.sampled_from(MANY), min_size=3, max_size=3).flatmap(
    lambda f: st.sampled_from(["number", "list", "array", "array-int"]).map(lambda m: f + [m])))


def case(kinds, extra=None, ns=None):
    def one(k):
        dts = {"L63": [0.005, 0.01], "L96": [0.005, 0.01], "DW": [0.005, 0.01], "OU": [0.005, 0.01, 0.02]}[k]
        return st.sampled_from(dts).flatmap(lambda dt: st.fixed_dictionaries({
            "kind": st.just(k), "name": g.case_name(k), "method": st.sampled_from(["euler", "heun", "rk2", "rk4", "Euler", "RK4"]),
            "seed": st.integers(0, 10 ** 6), "t0": st.sampled_from([0.0, 0.0, 1.0]), "dt": st.just(dt),
            "n": ns or (st.integers(20, 40) if k == "L63" else st.integers(20, 160)),
            "sys": g.mag(0.3, 1.3) if k == "L63" else g.mag(-0.7, 0.3), "obs": g.mag(-1, 0.5) if k == "L63" else g.mag(-1.5, 0),
            "k": st.integers(2, 8), "op": st.none(), "forms": FORMS,
            "th": st.sampled_from([0.5, 1.0, 1.5]), "tau": st.one_of(g.mag(-1, 0.3), g.mag(-1, 0.3), g.mag(-2, 2)), "mu": st.sampled_from([0.0, 0.5, 1.0, -1.0, 0.0, -3.0, 6.0]),
            **(extra or {})}))
    return st.sampled_from(kinds).flatmap(one)


def small(k):
    return case([k], {"only": st.sampled_from([False, False, False, True]), "twice": st.sampled_from([False, False, True])}, st.integers(20, 40))


REUSE = st.fixed_dictionaries({"bad": st.integers(0, 3), "how": st.sampled_from(["obs", "sys", "density", "model"]), "after": st.booleans(), "seq": st.lists(st.sampled_from(["DW", "OU", "DW", "OU", "L63"]).flatmap(small),
                                                                         min_size=2, max_size=3)})


def warm():
    g.warm_l63()
    g.warm_l96()


IT = {"it": st.sampled_from([1, 3, 8])}


SUBS = [Sub("run-scalar", case(["DW", "OU"]), check, 120, 2400, shards=3), Sub("run-l63", case(["L63"]), check, 24, 400, shards=4),
        # All 40 components, a few steps: one run takes two seconds.
        Sub("run-l96", case(["L96"], ns=st.integers(2, 4)).map(lambda c: dict(c, k=2)), check, 2, 20, shards=3),
        Sub("optimise", strategy(["OU", "DW", "L63"], extra=IT), check_optimise, 150, 3000, shards=2),
        Sub("optimise-l96", strategy(["L96"], extra=IT), check_optimise, 16, 300, shards=2),
        Sub("ou", case(["OU"], ns=st.sampled_from([100, 200])), check_ou, 80, 1500, shards=3),
        Sub("setup", case(["DW", "OU", "L63", "L63", "L96", "L96"]), check_setup, 120, 2000, shards=2),
        Sub("reuse", REUSE, check_reuse, 40, 600, shards=3),
        Sub("invalid", case(["DW", "OU", "L63", "L63"], {"bad": g.hexs(1).map(lambda h: BAD[int(h, 16) % len(BAD)]), "drop": st.sampled_from([False, False, True])}), check_bad, 120, 1500, shards=2),
        Sub("invalid-l96", case(["L96"], {"bad": st.sampled_from([b for b in BAD if b[0] in ("Noise", "Prior") and b[2] is not None]), "drop": st.just(False)}), check_bad, 30, 300),
        Sub("findings", case(["DW"]), check_findings, 1, 1, tshards=1)]
