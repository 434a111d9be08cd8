import numpy as np
from hypothesis import strategies as st
from src.var_bayes.prior_kl0 import PriorKL0
from pbt import gen as g, ref
from pbt.core import Sub, close, require, sut, unchanged, Violation

PROPERTY = "C05"
TITLE = "Energy at t=0 is the Gaussian KL divergence"
RULE = ("A case is a prior (mu0, tau0), marginal moments (m0, s0), multipliers (lam0, psi0), 1-D or D = 1..6, over "
        "several magnitudes. Value and gradients against closed forms with slogdet / solve; the value is not negative, "
        "and zero for equal moments; a sequence of evaluations on one object gives the same as fresh objects. "
        "Non-trivial: m0 differs from mu0 and s0 from tau0.")
ASSUMPTIONS = ["relative tolerance 1e-9 times the condition of the two covariances"]


def make(c):
    d = c["d"]
    if d == 0:
        mu, m = (float(g.dec(c[k], 1, c["sm"])[0]) for k in ("mu", "m"))
        tau, s = float(g.pos(c["tau"], 1, c["st"])[0]), float(g.pos(c["s"], 1, c["ss"])[0])
        lam, psi = float(g.dec(c["lam"], 1, c["sm"])[0]), float(g.dec(c["psi"], 1, 3.0)[0])
    else:
        mu, m = g.dec(c["mu"], d, c["sm"]), g.dec(c["m"], d, c["sm"])
        tau, s = g.spd(c["tau"], d, c["st"]), g.spd(c["s"], d, c["ss"])
        lam, psi = g.dec(c["lam"], d, 2.0), g.dec(c["psi"], (d, d), 3.0)
        tau, s = g.near(c, tau, False), g.near(c, s, False)
    w = c["whole"]
    mu, m, lam = g.whole(w, 0, mu), g.whole(w, 1, m), g.whole(w, 2, lam)
    if d == 0:
        tau, s, psi = g.whole(w, 3, tau), g.whole(w, 4, s), g.whole(w, 5, psi)
    else:
        k = 1 + len(c["tau"]) % 7
        tau = np.eye(d, dtype=int) * k + 1 if w & 8 else tau
        s = np.eye(d, dtype=int) * (k + 2) - (d < k + 2) if w & 16 else s
    if c["same"] in ("m", "both"):
        m = np.array(mu) if d else mu
    if c["same"] in ("s", "both"):
        s = np.array(tau) if d else tau
    if c["same"] == "almost":
        m, s = mu + c["eps"] * np.asarray(m), tau + c["eps"] * np.asarray(s)
        m, s = (m, s) if d else (float(m), float(s))
    return mu, tau, m, s, lam, psi


def check(c, ctx):
    d = c["d"]
    mu, tau, m, s, lam, psi = make(c)
    one = d == 0
    if not one and not c["whole"]:
        mu, tau, m, s, lam, psi = g.layout(c["form"], mu, tau, m, s, lam, psi)
    keep = [np.array(v) for v in (mu, tau, m, s, lam, psi)]
    with sut("PriorKL0"):
        p = PriorKL0(mu if not c["aslist"] else np.asarray(mu).tolist(),
                     tau if not c["aslist"] else np.asarray(tau).tolist(), one)
        for k in range(c["reuse"]):
            p(m + 1.0, s)
            p.gradients(m, s, lam, psi)
        if one and c["zerod"]:
            m, s, lam, psi = (np.array(v) for v in (m, s, lam, psi))
        val = np.array(p(m, s), dtype=float)
        gm, gs = p.gradients(m, s, lam, psi)
        again = np.array(p(m, s), dtype=float)
    unchanged(keep, (mu, tau, m, s, lam, psi), "PriorKL0")
    require(val.size == 1, f"KL0 is not a scalar but has shape {val.shape}")
    val = val.item()
    require(val == again.item(), f"KL0 changed between two evaluations: {val} and {again.item()}")
    D = max(d, 1)
    cond = np.linalg.cond(np.reshape(tau, (D, D))) + np.linalg.cond(np.reshape(s, (D, D)))
    z = np.abs(np.reshape(m, D) - np.reshape(mu, D))
    it = np.linalg.inv(np.reshape(tau, (D, D)))
    is_ = np.linalg.inv(np.reshape(s, (D, D)))
    scale = D + abs(np.linalg.slogdet(np.reshape(tau, (D, D)))[1]) + abs(np.linalg.slogdet(np.reshape(s, (D, D)))[1]) \
        + np.sum(np.abs(it) * np.abs(np.reshape(s, (D, D)))) + (np.abs(np.reshape(m, D)) + np.abs(np.reshape(mu, D))) \
        @ np.abs(it) @ z
    exp = ref.kl(m, s, mu, tau)
    tol = 1e-12 * (10 + cond)
    close(val, exp, scale, "KL0", tol)
    require(val >= -tol * scale, lambda: f"KL0 is negative: {val}")
    if c["same"] == "both":
        close(val, 0.0, scale, "KL0 of equal moments", tol)
    rm, rs = ref.kl_grad(m, s, mu, tau)
    nm = np.abs(it).sum() * (np.abs(m).max() + np.abs(mu).max() + 1e-300) if not one else it[0, 0] * (abs(m) + abs(mu))
    close(np.reshape(gm, D), np.reshape(lam, D) + rm, np.abs(np.reshape(lam, D)) + nm, "gradient w.r.t. m0", tol)
    ns = np.abs(it).max() + np.abs(is_).max()
    close(np.reshape(gs, (D, D)), np.reshape(psi, (D, D)) + rs, np.abs(np.reshape(psi, (D, D))) + ns,
          "gradient w.r.t. s0", tol)
    ctx.label(f"d{d}", "whole" if c["whole"] else "", f"same-{c['same']}")
    ctx.hit(np.any(np.asarray(m) != np.asarray(mu)) and not np.allclose(s, tau))


case = st.fixed_dictionaries({
    "d": st.sampled_from([0, 0, 1, 2, 3, 4, 6, 6, 9, 12, 40]), "sm": g.mag(-2, 2), "st": g.mag(-2, 2), "ss": g.mag(-2, 2),
    "mu": g.hexs(6), "m": g.hexs(6), "tau": g.hexs(36), "s": g.hexs(36), "lam": g.hexs(6), "psi": g.hexs(36),
    "same": st.sampled_from(["no", "no", "no", "m", "s", "both", "almost"]), "form": g.LAYOUTS, "aslist": st.booleans(), "whole": g.BITS, "zerod": st.booleans(),
    "reuse": st.sampled_from([0, 0, 1, 2]), **g.NEAR})


def warm():
    PriorKL0(np.zeros(2), np.eye(2), False)(np.zeros(2), np.eye(2))


SUBS = [Sub("kl", case, check, 2400, 40000, shards=4)]
