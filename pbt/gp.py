"""Variational problems (VarGP objects) and their full reference."""
import numpy as np
from hypothesis import strategies as st
from src.var_bayes.bwd_ode import BwdOde
from src.var_bayes.fwd_ode import FwdOde
from src.var_bayes.gaussian_like import GaussianLikelihood
from src.var_bayes.prior_kl0 import PriorKL0
from src.var_bayes.variational import VarGP

from pbt import gen as g, ref
from pbt.core import sut


def short(c):
    """A long grid has a shorter step: growth stays within bounds."""
    if c["near"] == "tight" and c["kind"] in ("OU", "DW"):
        c = dict(c, obs=list(range(min(c["n"], 60))))
    return dict(c, dt=min(c["dt"], 1.5 / c["n"])) if c["n"] > 60 else c


def strategy(kinds, nmax=30, extra=None, sizes=None):
    def one(kind):
        hi = {"OU": nmax, "DW": nmax, "L63": max(3, nmax // 2), "L96": max(3, nmax // 6)}[kind]
        w = {"OU": 1, "DW": 1, "L63": 3, "L96": 10}[kind]
        tail = {"OU": (65, 130, 257, 500, 1001), "DW": (65, 130, 257, 500, 1001), "L63": (40, 65, 130), "L96": ()}[kind] if nmax > 12 else ()
        return (sizes or g.size(2, hi, tail)).flatmap(lambda n: st.fixed_dictionaries({
            "kind": st.just(kind), "n": st.just(n), "obs": st.one_of(g.obs_times(n, 5, 1), g.obs_times(n, 40 // w, 1, True)), "method": st.sampled_from(g.METHODS),
            "oform": st.sampled_from(["list", "array"]),
            "dt": g.mag(-3, -1.3), "A": g.hexs(40 * w), "b": g.hexs(30 * w), "m0": g.hexs(w), "S0": g.hexs(w * w),
            "y": g.hexs(12 * w), "R": g.hexs(w * w), "mu": g.hexs(w), "tau": g.hexs(w * w), "H": st.sampled_from([0, 0, 1]),
            "theta": g.hexs(3), "sigma": g.hexs(w), "ssig": st.one_of(g.mag(-1, 1), g.mag(-1, 1), g.mag(-1, 1), g.mag(-4, 6)), "ss0": st.sampled_from([1.0, 1.0, 1.0, 1e-2, 30.0]), "sa": g.mag(-1, 0.5),
            "t0": st.sampled_from([0.0, 0.0, 2.0]),
            "sy": st.sampled_from([2.0, 2.0, 2.0, 0.02, 50.0]), "sr": st.sampled_from([2.0, 2.0, 2.0, 1e-4, 1e-2, 50.0]),
            "sb": st.sampled_from([3.0, 3.0, 3.0, 0.03, 100.0]), "near": st.sampled_from([False, False, False, False, True, "tight"]),
            "kin": g.NEAR["near"], "eps": g.NEAR["eps"], **(extra or {})})).map(short)
    return st.sampled_from(kinds).flatmap(one)


class GP:
    def __init__(self, c, rough=True):
        self.c, self.kind, self.n, self.dt, self.method = c, c["kind"], c["n"], c["dt"], c["method"]
        self.one = self.kind in ("OU", "DW")
        n, d = self.n, g.DIM[self.kind]
        self.d = d
        self.obs = list(c["obs"])
        k = len(self.obs)
        sy, sr, sb = c.get("sy", 2.0), c.get("sr", 2.0), c.get("sb", 3.0)
        s0, sq = c.get("ss0", 1.0), 1.0
        if c.get("near") == "tight":        # little variance, and less noise: a negative observation energy
            s0, sq, sr = 1e-4, 1e-3, 1e-3
        if self.one:
            self.dsig = g.pos(c["sigma"], 1, sq * c["ssig"], 0.1)
            self.theta = abs(float(g.dec(c["theta"], 1, 2.0)[0])) + 0.1
            self.m0, self.S0 = float(g.dec(c["m0"], 1, 1.5)[0]), float(g.pos(c["S0"], 1, s0, 0.05)[0])
            self.mu, self.tau = float(g.dec(c["mu"], 1, 1.5)[0]), float(g.pos(c["tau"], 1, 1.0, 0.1)[0])
            self.R = float(g.pos(c["R"], 1, sr, 0.1)[0])
            self.H = 1.0
            self.y = g.dec(c["y"], k, sy)
        else:
            self.dsig = g.pos(c["sigma"], d, sq * c["ssig"], 0.1)
            self.theta = np.array([10., 28., 2.667]) + g.dec(c["theta"], 3, 5.0) if self.kind == "L63" else \
                8.0 + float(g.dec(c["theta"], 1, 3.0)[0])
            self.m0, self.S0 = g.dec(c["m0"], d, 1.5), g.spd(c["S0"], d, s0, 0.3)
            self.mu, self.tau = g.dec(c["mu"], d, 1.5), g.spd(c["tau"], d, 1.0, 0.3)
            self.H = np.eye(d)
            if c["H"]:
                self.H = np.eye(d)[: max(1, d - 1)] + 0.3
            o = len(self.H)
            self.R, self.y = g.spd(c["R"], o, sr, 0.3), g.dec(c["y"], (k, o), sy)
        if rough:
            if self.one:
                self.A, self.b = 1.0 + g.dec(c["A"], n, c["sa"]), g.dec(c["b"], n, sb)
            else:
                self.A = np.eye(d) + g.dec(c["A"], (n, d, d), c["sa"])
                self.b = g.dec(c["b"], (n, d), sb)
            if "kin" in c:
                k = {"near": c["kin"], "eps": c["eps"]}
                self.A, self.b = g.near(k, self.A), g.near(k, self.b)
            if c.get("near"):
                # Observations close to the path.
                m = ref.forward(self.A, self.b, self.m0, self.S0, self.sigma(), self.dt, self.method)[0]
                if np.all(np.isfinite(m)):
                    x = np.array([np.atleast_2d(self.H) @ np.reshape(v, -1) for v in m[self.obs]])
                    self.y = (x + 1e-2 * np.sqrt(sr) * np.reshape(self.y, x.shape)).reshape(np.shape(self.y))
        self.tk = c["t0"] + np.arange(n) * self.dt

    def sigma(self):
        return float(self.dsig[0]) if self.one else np.diag(self.dsig)

    def x(self, A=None, b=None):
        return np.concatenate(((self.A if A is None else A).ravel(), (self.b if b is None else b).ravel()))

    def vargp(self):
        with sut(f"building a VarGP for {self.kind}"):
            model = g.make_model(self.kind, self.sigma(), self.theta, 1, self.d)
            g.set_path(model, self.tk, self.d)
            H = None if self.one or not self.c["H"] else self.H
            y = np.array(self.y)
            ot = np.array(self.obs) if self.c["oform"] == "array" else list(self.obs)
            lik = GaussianLikelihood(y, ot, self.R, H, self.one)
            return VarGP(model, self.m0, self.S0, FwdOde(self.dt, self.method, self.one),
                         BwdOde(self.dt, self.method, self.one), lik, PriorKL0(self.mu, self.tau, self.one), y, ot)

    def reference(self, A=None, b=None):
        """Everything from the oracles; None if the covariance is not positive
        definite all the way (then the expectations are not defined)."""
        A, b = (self.A if A is None else A), (self.b if b is None else b)
        n, d, dt = self.n, self.d, self.dt
        m, S, sm, sS = ref.forward(A, b, self.m0, self.S0, self.sigma(), dt, self.method)
        e = np.linalg.eigvalsh(np.reshape(S, (n, d, d)))
        if np.any(e[:, 0] <= 1e-3 * e[:, -1]) or not np.all(np.isfinite(m)) or np.abs(m).max() > 1e3:
            return None
        E = ref.energy(self.kind, A, b, m, S, self.theta, 1.0 / self.dsig, dt)
        eo, eo_abs = ref.eobs(m, S, self.y, self.obs, self.R, self.H)
        jm, jS = ref.eobs_grad(m, S, self.y, self.obs, self.R, self.H)
        k0 = ref.kl(self.m0, self.S0, self.mu, self.tau)
        sq = (lambda v: v.reshape(n)) if self.one else (lambda v: v)
        lam, psi, _, _ = ref.backward(A, sq(E["dm"]), sq(E["dS"]), sq(jm), sq(jS), dt, self.method)
        R = {"mt": m, "st": S, "lamt": lam, "psit": psi, "Efx": sq(E["Ef"]), "Edf": sq(E["Edf"]),
             "F": k0 + E["Esde"] + eo, "parts": (k0, E["Esde"], eo), "E": E,
             "F_abs": abs(k0) + 2 * d + E["Esde_abs"] + eo_abs * np.linalg.cond(np.atleast_2d(self.R)),
             "sm": sm, "sS": sS}
        # The multipliers inherit the cancellations inside dEsde/dm, dEsde/dS.
        am, aS = E["dm_abs"], E["dS_abs"]
        H, iR = np.atleast_2d(self.H), np.abs(np.linalg.inv(np.atleast_2d(self.R)))
        W = np.abs(self.y).max(initial=0.0) + (np.abs(H).sum() * (np.abs(m).max() + 1e-3))
        jam, jaS = (np.abs(H).T @ iR).max() * W * len(H) * (jm != 0), np.abs(jS) * np.linalg.cond(np.atleast_2d(self.R))
        _, _, sl, sp = ref.backward(A, sq(np.abs(am)), sq(np.abs(aS)), sq(jam), sq(jaS), dt, self.method)
        R["sl"], R["sp"] = sl, sp
        A3, b2, m2, S3 = A.reshape(n, d, d), b.reshape(n, d), m.reshape(n, d), S.reshape(n, d, d)
        l2, p3 = lam.reshape(n, d), psi.reshape(n, d, d)
        Si = np.diag(1.0 / self.dsig)
        db = (-E["Ef"] - np.einsum("nij,nj->ni", A3, m2) + b2) @ Si
        da = Si @ (E["Edf"] + A3) @ S3 - db[:, :, None] * m2[:, None, :]
        R["gA"] = dt * (da - l2[:, :, None] * m2[:, None, :] - 2.0 * p3 @ S3)
        R["gb"] = dt * (db + l2)
        si = (1.0 / self.dsig).max()
        mm, SS = np.abs(m2).max() + 1e-3, np.abs(S3).max()
        sdb = si * (np.abs(E["Ef"]).max() + (np.abs(A3) @ np.abs(m2)[:, :, None]).max() + np.abs(b2).max() + SS + mm ** 2)
        R["sgb"] = dt * (sdb + np.abs(sl).max())
        R["sgA"] = dt * (si * d * (np.abs(E["Edf"]).max() + np.abs(A3).max()) * SS + (sdb + np.abs(sl).max()) * mm +
                         2 * d * np.abs(sp).max() * SS)
        R["grad"] = np.concatenate((R["gA"].ravel(), R["gb"].ravel()))
        return R


def smooth(h, tk, shape, T, scale=1.0):
    """A smooth path from a few coefficients (the same on any grid)."""
    c = g.dec(h, (4,) + shape, scale)
    t = ((tk - tk[0]) / T).reshape((-1,) + (1,) * len(shape))
    return c[0] + c[1] * np.sin(3.0 * t) + c[2] * np.cos(2.0 * t) + c[3] * np.sin(5.0 * t + 1.0)


def warm():
    g.warm_l63()
    g.warm_l96()
