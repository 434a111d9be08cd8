"""Paths of moments and variational parameters for the four systems, and the
reference for their energies."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen as g, ref
from pbt.core import sut

KINDS = ["OU", "DW", "L63", "L96"]


def strategy(kinds, nmax=8, extra=None, wide=True, sizes=None):
    far = (lambda a, b: st.one_of(a, a, a, b)) if wide else (lambda a, b: a)

    def one(kind):
        hi = {"OU": nmax * 4, "DW": nmax * 4, "L63": nmax, "L96": max(2, nmax // 2)}[kind]
        tail = {"OU": g.LONG, "DW": g.LONG, "L63": (40, 65, 129), "L96": ()}[kind]
        dims = [10, 10, 11, 12] + [13, 16, 40] * (nmax > 6) if kind == "L96" else [g.DIM[kind]]
        w = {"OU": 1, "DW": 1, "L63": 3, "L96": 10}[kind]
        return (sizes or g.size(2, hi, tail)).flatmap(lambda n: st.fixed_dictionaries({
            "kind": st.just(kind), "n": st.just(n), "d": st.sampled_from(dims), "obs": g.obs_times(n, 5, 0, True),
            "oform": st.sampled_from(["list", "array"]), "dt": g.mag(-3, -0.5), "t0": st.sampled_from([0.0, 0.0, 1.5, -2.0]),
            "A": g.hexs(60 * w), "b": g.hexs(30 * w), "m": g.hexs(30 * w), "S": g.hexs(60 * w),
            "sa": g.mag(-1, 1), "sb": g.mag(-1, 1.3), "sm": far(g.mag(-1, 0.8), g.mag(-4, 2)), "ss": far(g.mag(-1.5, 0.5), g.mag(-7, 2)),
            "theta": g.hexs(12), "sigma": g.hexs(12), "ssig": far(g.mag(-1, 1.3), g.mag(-5, 8)),
            "sform": st.sampled_from(["scalar", "vector", "matrix"]), "tform": st.sampled_from(["num", "vec"]), "tsize": st.sampled_from([1.0] * 9 + [1e-8, 1e-3, 1e3]),
            **g.NEAR, **(extra or {})}))
    return st.sampled_from(kinds).flatmap(one)


class Problem:
    def __init__(self, c):
        self.c, self.kind, self.n, self.d, self.dt = c, c["kind"], c["n"], c["d"], c["dt"]
        n, d, one = self.n, self.d, c["kind"] in ("OU", "DW")
        self.one = one
        if one:
            self.A, self.b = g.dec(c["A"], n, c["sa"]), g.dec(c["b"], n, c["sb"])
            self.m, self.S = g.dec(c["m"], n, c["sm"]), g.pos(c["S"], n, c["ss"])
            self.dsig = g.pos(c["sigma"], 1, c["ssig"], 0.05)
            self.theta = float(g.dec(c["theta"], 1, 3.0)[0])
            if self.kind == "OU":
                self.theta = abs(self.theta) + 0.05
        else:
            self.A, self.b = g.dec(c["A"], (n, d, d), c["sa"]), g.dec(c["b"], (n, d), c["sb"])
            self.m = g.dec(c["m"], (n, d), c["sm"])
            self.S = g.spd(c["S"], (n, d), c["ss"], 0.2 if self.kind == "L96" else 0.05)
            self.dsig = g.pos(c["sigma"], d, c["ssig"], 0.05)
            if c["sform"] == "scalar":
                self.dsig = np.full(d, self.dsig[0])
            if self.kind == "L63":
                self.theta = np.array([10.0, 28.0, 2.667]) + g.dec(c["theta"], 3, 8.0)
            else:
                self.theta = 8.0 + g.dec(c["theta"], d, 4.0) if c["tform"] == "vec" else 8.0 + float(g.dec(c["theta"], 1, 4.0)[0])
        self.theta = self.theta * c.get("tsize", 1.0)
        self.A, self.b, self.m, self.S = (g.near(c, v) for v in (self.A, self.b, self.m, self.S))
        self.tk = c["t0"] + np.arange(n) * self.dt
        self.sigma = self.sig_arg()

    def sig_arg(self):
        f = self.c["sform"]
        if self.one or f == "scalar":
            return float(self.dsig[0])
        return self.dsig.copy() if f == "vector" else np.diag(self.dsig)

    def model(self, seed=1):
        with sut(f"constructor of {self.kind}"):
            m = g.make_model(self.kind, self.sigma, self.theta, seed, self.d)
            g.set_path(m, self.tk, 1 if self.one else self.d)
        return m

    def obs(self):
        o = self.c["obs"]
        return list(o) if self.c["oform"] == "list" else np.array(o, dtype=int)

    def inv(self):
        return 1.0 / self.dsig

    def ref(self, **kw):
        q = {k: kw.get(k, getattr(self, k)) for k in ("A", "b", "m", "S", "theta")}
        return ref.energy(self.kind, q["A"], q["b"], q["m"], q["S"], q["theta"], kw.get("dinv", self.inv()), self.dt)

    def energy(self, model, what="energy", **kw):
        q = {k: kw.get(k, getattr(self, k)) for k in ("A", "b", "m", "S")}
        with sut(what):
            E, (Ef, Edf), gr = model.energy(q["A"], q["b"], q["m"], q["S"], kw.get("obs", self.obs()))
        return E, Ef, Edf, gr

    def nontrivial(self):
        return np.any(self.A != 0) and np.any(self.b != 0) and np.any(self.m != 0)

    def labels(self):
        o = self.c["obs"]
        return [self.kind, self.c["sform"], f"obs{min(len(o), 3)}"] + (["t0"] if self.c["t0"] else [])


def warm():
    g.warm_l63()
    g.warm_l96()
