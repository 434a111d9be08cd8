import numpy as np
from hypothesis import strategies as st
from pbt import gen as g
from pbt.core import Sub, Violation, require, sut
from pbt.gp import GP, strategy, warm  # noqa: F401
from src.var_bayes.bwd_ode import BwdOde
from src.var_bayes.fwd_ode import FwdOde
from src.var_bayes.gaussian_like import GaussianLikelihood
from src.var_bayes.prior_kl0 import PriorKL0
from src.var_bayes.variational import VarGP

PROPERTY = "C25"
TITLE = "Results depend on the arguments and on the current parameters only, not on the history"
RULE = ("A case is a problem for one of the four systems and a history of 3..16 operations on one set of objects: free energy and "
        "gradient at different points, forward and backward sweeps, likelihood and KL0 with their gradients, energies, initial guesses, "
        "setters of theta, sigma and of the observation noise; the arguments are new arrays, the same ones with new values, or some of each. Every result equals the one of objects built anew with the current "
        "parameters; no argument, no array given to a constructor or setter, and no result that was returned earlier, is modified. "
        "Non-trivial: a setter that is followed by an evaluation, or evaluations at two different points.")
ASSUMPTIONS = ["the model of a history has no time-dependent state but the parameters that the setters change",
               "relative tolerance 1e-12 on the largest entry"]


KEYS = ("mt", "st", "lamt", "psit", "Efx", "Edf")


class World:
    """One set of objects, and every array it was given."""

    def __init__(self, p, par, reuse=False):
        self.p, self.given, self.reuse, self.buffers = p, {}, reuse, {}
        one = p.one

        def give(name, v):
            v = np.array(v, dtype=float) if np.ndim(v) or (p.c["zerod"] and one) else v
            self.given[name] = (v, np.array(v))
            return v
        with sut(f"building the objects for {p.kind}"):
            self.model = g.make_model(p.kind, give("sigma", par["sigma"]), give("theta", par["theta"]), 1, p.d)
            g.set_path(self.model, p.tk, p.d)
            obs = np.array(p.obs)
            y = give("y", p.y)
            self.lik = GaussianLikelihood(y, obs, give("R", par["R"]), None if one or not p.c["H"] else give("H", p.H), one)
            self.kl = PriorKL0(give("mu", p.mu), give("tau", p.tau), one)
            self.fwd, self.bwd = FwdOde(p.dt, p.method, one), BwdOde(p.dt, p.method, one)
            self.gp = VarGP(self.model, give("m0", p.m0), give("S0", p.S0), self.fwd, self.bwd, self.lik, self.kl, y, obs)
            self.given["obs"] = (obs, obs.copy())
        self.give = give

    def do(self, op, k):
        """The results of one operation."""
        p, a = self.p, arguments(self.p, op, k)
        if self.reuse:
            # The caller writes new values to the arrays of earlier calls.
            old = self.buffers.setdefault(op, a)
            for i, v in enumerate(a):
                if np.ndim(v) and not (self.reuse == "mixed" and (i + k) % 2):
                    old[i][...] = v
                else:
                    old[i] = v
            a = old
        if p.c["zerod"]:
            a = [np.array(v, dtype=float) if np.ndim(v) == 0 else v for v in a]
        s = self.model.sigma
        if op == "f":
            return [self.gp.free_energy(*a)] + [self.gp.arg_out[q] for q in KEYS], a
        if op == "g":
            return [self.gp.gradient(*a, eval_fun=True)], a
        if op == "fg":
            F, G = self.gp.free_energy(*a), self.gp.gradient(*a)
            by = {q: np.array(v) for q, v in self.gp.arg_out.items() if q in KEYS}
            for i in range(2):
                require(np.array_equal(G, self.gp.gradient(*a)), "two gradients at one point, after one evaluation, differ")
            for q, v in by.items():
                require(np.array_equal(v, self.gp.arg_out[q], equal_nan=True), f"evaluating the gradient modified the by-product {q}")
            return [F, G] + [by[q] for q in KEYS], a
        if op == "i":
            return [self.gp.initialization()], a
        if op == "fwd":
            return list(self.fwd(*a, s)), a
        if op == "bwd":
            return list(self.bwd(*a)), a
        if op == "lik":
            return [self.lik(*a)], a
        if op == "lgr":
            return list(self.lik.gradients(*a)), a
        if op == "kl":
            return [self.kl(*a)], a
        if op == "kgr":
            return list(self.kl.gradients(*a)), a
        E, (Ef, Edf), gr = self.model.energy(*a, self.lik.times)
        return [E, Ef, Edf] + list(gr), a


def arguments(p, op, k):
    n, d = p.n, p.d
    if op in ("f", "g", "fg"):
        return [p.x() * (1.0 + p.c["step"] * k)]
    if op == "i":
        return []
    A, b = p.A * (1.0 + p.c["step"] * k), p.b * (1.0 + p.c["step"] * k)
    if op == "fwd":
        return [A, b, p.m0, p.S0] if p.one else [A, b, np.array(p.m0), np.array(p.S0)]
    m = g.dec(p.c["y"], (n,) if p.one else (n, d), 1.0 + 2 * p.c["step"] * abs(k))
    S = g.pos(p.c["S0"], n, 0.5 + p.c["step"] * abs(k)) if p.one else g.spd(p.c["S0"], (n, d), 0.5 + p.c["step"] * abs(k), 0.3)
    if op == "bwd":
        return [A, m, S, 0.3 * m, 0.2 * S]
    if op in ("lik", "lgr"):
        return [m, S]
    if op in ("kl", "kgr"):
        a = [float(m[0]), float(S[0])] if p.one else [m[0].copy(), S[0].copy()]
        return a if op == "kl" else a + ([0.7 * k, -0.2] if p.one else [0.7 * k * m[-1], 0.3 * S[-1]])
    return [A, b, m, S]


def near(a, b, what):
    a, b = np.asarray(a, float), np.asarray(b, float)
    require(a.shape == b.shape, lambda: f"{what}: shape {a.shape}, new objects give {b.shape}")
    fin = np.isfinite(b)
    require(np.array_equal(np.isfinite(a), fin), f"{what}: not finite where new objects are, or the reverse")
    if not fin.all() or not b.size:
        return
    s = np.abs(b).max()
    e = np.abs(a - b).max()
    require(e <= 1e-12 * s, lambda: f"{what}: differs from new objects by {e:.3g} (largest entry {s:.3g})")


def parameters(p, par, op, k):
    """The value that a setter gets."""
    f = 1.0 + 1.5 * p.c["step"] * k
    if op == "theta":
        return p.theta * f
    if op == "sigma":
        return p.sigma() * (1.0 + 3.0 * p.c["step"] * abs(k))
    return p.R * (1.0 + 3.0 * p.c["step"] * abs(k))


def compare(p, tag, op, k, par, bad, res, ctx):
    """With the results of new objects."""
    fresh = None
    f = World(p, par)
    try:
        with np.errstate(all="ignore"):
            exp, _ = f.do(op, k)
    except np.linalg.LinAlgError as e:
        fresh = e
    if bad or fresh:
        # Coarse steps may leave no positive definite covariance.
        if type(bad) is not type(fresh):
            raise Violation(f"{tag}: {bad!r}, and new objects: {fresh!r}")
        ctx.label("not-positive-definite")
        return
    for i, (r, e) in enumerate(zip(res, exp)):
        near(r, e, f"{tag}, result {i}")


def check(c, ctx):
    p = GP(c)
    par = {"theta": p.theta, "sigma": p.sigma(), "R": p.R}
    w = World(p, par, c["reuse"])
    held, done, todo = [], [], []
    for op, k in c["hist"]:
        tag = f"{p.kind}: {op}({k}) after {' '.join(o for o, _ in done) or 'nothing'}"
        if op in ("theta", "sigma", "R"):
            v = parameters(p, par, op, k)
            par[op] = v
            v = w.give(f"{op}-{len(done)}", v)
            with sut(f"setter of {op}"):
                if op == "R":
                    w.lik.noise = v
                else:
                    setattr(w.model, op, v)
        else:
            bad = None
            try:
                with np.errstate(all="ignore"):
                    res, args = w.do(op, k)
            except np.linalg.LinAlgError as e:
                bad = e
            if bad is None:
                for i, (a, e) in enumerate(zip(args, arguments(p, op, k))):
                    require(np.array_equal(a, e), f"{tag}: argument {i} was modified")
                held.append((tag, res, [np.array(r) for r in res]))
            # New objects come in between the calls, or after all of them.
            todo.append((tag, op, k, dict(par), bad, bad is None and held[-1][2]))
            if not c["late"]:
                compare(p, *todo.pop(), ctx)
        done.append((op, k))
        for name, (v, keep) in w.given.items():
            require(np.array_equal(np.asarray(v), keep), f"{tag}: the array given as {name} was modified")
        for t, res, keep in held:
            for i, (r, e) in enumerate(zip(res, keep)):
                require(np.array_equal(np.asarray(r), e, equal_nan=True), f"{tag}: result {i} of an earlier call ({t}) was modified")
    for t in todo:
        compare(p, *t, ctx)
    names = [o for o, _ in done]
    sets = [i for i, o in enumerate(names) if o in ("theta", "sigma", "R")]
    ctx.label(p.kind, "same-arrays" if c["reuse"] else "", *set(names))
    ctx.hit(any(i < len(names) - 1 for i in sets) or len({k for _, k in done}) > 1)


OPS = ["f", "f", "g", "g", "fg", "fg", "i", "fwd", "bwd", "lik", "lgr", "kl", "kgr", "e", "e", "theta", "theta", "sigma", "sigma", "R"]
# Single operations, and one operation several times in a row.
once = st.tuples(st.sampled_from(OPS), st.integers(-2, 2)).map(lambda t: [list(t)])
again = st.tuples(st.sampled_from(OPS), st.lists(st.integers(-2, 2), min_size=2, max_size=4)).map(lambda t: [[t[0], k] for k in t[1]])
hist = st.lists(st.one_of(once, once, again), min_size=1, max_size=10).map(lambda v: sum(v, [])[:16])


def case(kinds, nmax):
    return strategy(kinds, nmax, {"hist": hist, "reuse": st.sampled_from([False, True, "mixed"]), "late": st.booleans(), "step": st.sampled_from([0.1, 0.1, 0.1, 1e-3, 1e-6, 1e-8]), "zerod": st.sampled_from([False, False, True])}).filter(lambda c: c["n"] >= 3 and len(c["obs"]) >= 1 and not (
        c["H"] and any(o == "i" for o, _ in c["hist"])))


SUBS = [Sub("scalar", case(["OU", "DW"], 30), check, 400, 8000, shards=2),
        Sub("l63", case(["L63"], 20), check, 200, 4000, shards=3),
        Sub("l96", case(["L96"], 20), check, 60, 1000, shards=3)]
