import numpy as np
from hypothesis import strategies as st
from src.var_bayes.fwd_ode import FwdOde
from src.var_bayes.bwd_ode import BwdOde
from src.var_bayes.gaussian_like import GaussianLikelihood
from src.var_bayes.prior_kl0 import PriorKL0
from pbt import gen as g, ref
from pbt.core import Sub, close, require, sut

PROPERTY = "C04"
TITLE = "Scalar and matrix code paths agree, and respect a change of coordinates"
RULE = ("scalar: a case is a 1-D problem; it is solved by the scalar code and as 1 x 1 matrices. blocks: two independent "
        "problems (dimensions p and q) stacked in a block-diagonal one: solutions are the blocks, energies add up. "
        "coordinates: x -> T x + shift with a well conditioned T: moments are transformed, multipliers by the inverse "
        "transpose, KL0 is invariant and Eobs is too. Metamorphic relations, no reference solution is used. "
        "Non-trivial: at least 3 nodes, one observation, and A not zero (blocks, coordinates: A not symmetric).")
ASSUMPTIONS = ["tolerance 1e-9 relative to the recursion on absolute values, times the condition of T"]


def build(c, d, tag=""):
    n = c["n"]
    P = {"A": g.dec(c["A" + tag], (n, d, d), c["sa"]), "b": g.dec(c["b" + tag], (n, d), 2.0),
         "m0": g.dec(c["m0" + tag], d, 2.0), "S0": g.spd(c["S0" + tag], d), "Q": g.spd(c["Q" + tag], d),
         "dm": g.dec(c["dm" + tag], (n, d), 3.0), "dS": g.dec(c["dS" + tag], (n, d, d), 3.0),
         "mu": g.dec(c["mu" + tag], d), "tau": g.spd(c["tau" + tag], d),
         "R": g.spd(c["R" + tag], d), "y": g.dec(c["y" + tag], (len(c["obs"]), d), 2.0)}
    P["dS"] = 0.5 * (P["dS"] + P["dS"].transpose(0, 2, 1))
    return P


def solve(P, c, one):
    n, dt, name, obs = c["n"], c["dt"], c["name"], c["obs"]
    A, b, m0, S0, Q = P["A"], P["b"], P["m0"], P["S0"], P["Q"]
    if one:
        A, b, m0, S0, Q = A[:, 0, 0], b[:, 0], m0[0], S0[0, 0], Q[0, 0]
    m, S = FwdOde(dt, name, one)(A, b, m0, S0, Q)
    if one:
        lik = GaussianLikelihood(P["y"][:, 0], obs, P["R"][0, 0], None, True)
        kl = PriorKL0(P["mu"][0], P["tau"][0, 0], True)
    else:
        lik = GaussianLikelihood(P["y"], obs, P["R"], None, False)
        kl = PriorKL0(P["mu"], P["tau"], False)
    e = lik(m, S)
    jm, jS, *_ = lik.gradients(m, S)
    dm, dS = (P["dm"][:, 0], P["dS"][:, 0, 0]) if one else (P["dm"], P["dS"])
    lam, psi = BwdOde(dt, name, one)(A, dm, dS, jm, jS)
    k = kl(m0, S0)
    gk = kl.gradients(m0, S0, lam[0], psi[0])
    d = P["b"].shape[1]
    out = {"m": m, "S": S, "lam": lam, "psi": psi, "jm": jm, "jS": jS}
    out = {q: np.reshape(v, (n, d, d) if q in ("S", "psi", "jS") else (n, d)) for q, v in out.items()}
    out.update(E=float(np.asarray(e)), K=float(np.asarray(k)), gm=np.reshape(gk[0], d), gS=np.reshape(gk[1], (d, d)))
    return out


def scales(P, c, sol):
    """Upper bounds of the magnitudes that take part."""
    name, dt = c["name"], c["dt"]
    _, _, sm, sS = ref.forward(P["A"], P["b"], P["m0"], P["S0"], P["Q"], dt, name)
    _, _, sl, sp = ref.backward(P["A"], P["dm"], P["dS"], sol["jm"], sol["jS"], dt, name)
    iR = np.abs(np.linalg.inv(P["R"])).max()
    big = 1.0 + np.abs(P["y"]).max(initial=0.0) + sm.max()
    cond = np.linalg.cond(P["R"]) + np.linalg.cond(P["tau"]) + np.linalg.cond(P["S0"])
    e = len(c["obs"]) * (iR * (big ** 2 + sS.max()) + 5.0) * sm.shape[1] ** 2
    it, is_ = np.abs(np.linalg.inv(P["tau"])).max(), np.abs(np.linalg.inv(P["S0"])).max()
    j = iR * big * sm.shape[1] * 10
    return {"m": sm.max(), "S": sS.max(), "lam": sl.max() + j * cond, "psi": sp.max() + iR * cond, "jm": j * cond,
            "jS": iR * cond, "E": e * cond, "K": cond * (10 + it * 100) * sm.shape[1] ** 2,
            "gm": (sl.max() + it * 50) * cond, "gS": (sp.max() + it + is_) * cond}


def compare(got, exp, sc, what, f=1.0):
    for k in got:
        close(got[k], exp[k], sc[k], f"{what}: {k}", 1e-11 * f)


def check_scalar(c, ctx):
    P = build(c, 1)
    with sut("1-D problem"):
        s, M = solve(P, c, True), solve(P, c, False)
    compare(s, M, scales(P, c, M), "scalar code against 1 x 1 matrices")
    ctx.label(c["name"])
    ctx.hit(c["n"] >= 3 and np.any(P["A"] != 0))


def check_blocks(c, ctx):
    p, q = c["p"], c["q"]
    P, Q = build(c, p), build(c, q, "2")
    one = p == 1 and c["scalar"]
    B = {}
    for k in P:
        if k in ("b", "m0", "mu", "dm", "y"):
            B[k] = np.concatenate([P[k], Q[k]], axis=-1)
        else:
            B[k] = np.zeros(P[k].shape[:-2] + (p + q, p + q))
            B[k][..., :p, :p], B[k][..., p:, p:] = P[k], Q[k]
    with sut("block problem"):
        sP, sQ, sB = solve(P, c, one), solve(Q, c, False), solve(B, c, False)
    sc = scales(B, c, sB)
    for k in sB:
        if k in ("E", "K"):
            close(sB[k], sP[k] + sQ[k], 10 * sc[k], f"sum over the blocks: {k}", 1e-11)
        elif k in ("m", "lam", "jm", "gm"):
            close(sB[k], np.concatenate([sP[k], sQ[k]], axis=-1), sc[k], f"blocks: {k}", 1e-11)
        else:
            e = np.zeros_like(sB[k])
            e[..., :p, :p], e[..., p:, p:] = sP[k], sQ[k]
            close(sB[k], e, sc[k], f"blocks: {k}", 1e-11)
    ctx.label(c["name"], f"{p}+{q}")
    ctx.hit(c["n"] >= 3 and np.any(P["A"] != 0) and not np.allclose(Q["A"], Q["A"].transpose(0, 2, 1))
            if q > 1 else np.any(P["A"] != 0))


def check_coord(c, ctx):
    d = c["d"]
    P = build(c, d)
    T = np.eye(d) * 1.5 + g.dec(c["T"], (d, d), 1.2 / d)
    if c["perm"]:
        T = T[np.argsort(g.dec(c["T"], d), kind="stable")]
    Ti = np.linalg.inv(T)
    v = g.dec(c["shift"], d, 1.0)
    A2 = T @ P["A"] @ Ti
    up = lambda M: T @ M @ T.T
    sym = lambda M: 0.5 * (M + np.swapaxes(M, -1, -2))
    R = {"A": A2, "b": P["b"] @ T.T + A2 @ v, "m0": T @ P["m0"] + v, "S0": sym(up(P["S0"])), "Q": sym(up(P["Q"])),
         "dm": P["dm"] @ Ti, "dS": sym(Ti.T @ P["dS"] @ Ti), "mu": T @ P["mu"] + v, "tau": sym(up(P["tau"])),
         "R": sym(up(P["R"])), "y": P["y"] @ T.T + v}
    with sut("transformed problem"):
        s, t = solve(P, c, False), solve(R, c, False)
    ldT = np.linalg.slogdet(T)[1]
    e = {"m": s["m"] @ T.T + v, "S": up(s["S"]), "lam": s["lam"] @ Ti, "psi": Ti.T @ s["psi"] @ Ti,
         "jm": s["jm"] @ Ti, "jS": Ti.T @ s["jS"] @ Ti, "gm": s["gm"] @ Ti, "gS": Ti.T @ s["gS"] @ Ti,
         "K": s["K"], "E": s["E"] + len(c["obs"]) * ldT}
    sc1, sc2 = scales(P, c, s), scales(R, c, t)
    k = np.linalg.cond(T) ** 2 * 10
    nT = 1 + np.linalg.norm(T, 2) ** 2 + np.linalg.norm(Ti, 2) ** 2
    compare(t, e, {q: sc1[q] * nT + sc2[q] for q in sc1}, "change of coordinates", k)
    ctx.label(c["name"], f"d{d}", "perm" if c["perm"] else "linear")
    ctx.hit(c["n"] >= 3 and not np.allclose(P["A"], P["A"].transpose(0, 2, 1)))


def fields(n, tag="", k=9):
    return {q + tag: g.hexs(w) for q, w in (("A", 80), ("b", 40), ("m0", 4), ("S0", k), ("Q", k), ("dm", 40),
                                            ("dS", 80), ("mu", 4), ("tau", k), ("R", k), ("y", 20))}


def cases(extra, two=False):
    return st.one_of(st.integers(2, 9), st.integers(2, 40)).flatmap(lambda n: st.fixed_dictionaries({
        "n": st.just(n), "obs": g.obs_times(n, 6, 1), "name": st.sampled_from(g.METHODS), "dt": g.mag(-3, -1),
        "sa": g.mag(-0.5, 0.6), **fields(n), **(fields(n, "2") if two else {}), **extra}))


def warm():
    check_scalar({"n": 3, "obs": [1], "name": "euler", "dt": 0.1, "sa": 1.0,
                  **{q: "10" for q in fields(3)}}, __import__("pbt.core", fromlist=["Ctx"]).Ctx())


SUBS = [Sub("scalar", cases({}), check_scalar, 400, 8000, shards=2),
        Sub("blocks", cases({"p": st.integers(1, 3), "q": st.integers(1, 3), "scalar": st.booleans()}, True),
            check_blocks, 400, 8000, shards=2),
        Sub("coordinates", cases({"d": st.integers(2, 4), "T": g.hexs(16), "shift": g.hexs(4),
                                  "perm": st.booleans()}), check_coord, 400, 8000, shards=3)]
