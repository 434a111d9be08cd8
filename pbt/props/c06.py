import numpy as np
from hypothesis import strategies as st
from src.var_bayes.gaussian_like import GaussianLikelihood
from pbt import gen as g, ref
from pbt.core import Sub, close, require, sut, unchanged

PROPERTY = "C06"
TITLE = "Observation energy is the expected negative log-likelihood"
RULE = ("value: a case is a set of observation times (distinct, in any order; end points common), values, marginal moments on n "
        "nodes, noise (full covariance in nD), and an operator H (none, square, or o x d); energy and gradients "
        "(w.r.t. mean, covariance, noise) are compared with closed forms. derivative: exact central differences of the energy itself (it is quadratic "
        "in m and linear in S) along generated directions. history: a generated sequence of noise changes and "
        "evaluations on one object against fresh objects. Non-trivial: at least one observation with a residual that "
        "is not zero.")
ASSUMPTIONS = ["observation times are distinct (two values at one time are not claimed); the likelihood takes them in any order"]


def build(c):
    y, R, H, m, S, Hr = build_floats(c)
    w = c["whole"]
    y, m = g.whole(w, 0, y), g.whole(w, 1, m)
    if w & 4:
        R = g.whole(4, 2, R) if c["d"] == 0 else np.eye(len(R), dtype=int) * (1 + len(c["R"]) % 5) + (0 if c["diag"] else 1)
    if H is not None:
        H = Hr = g.whole(w, 3, H)
    return y, R, H, m, (g.whole(w, 4, S) if c["d"] == 0 and np.all(S >= 0.5) else S), Hr


def build_floats(c):
    n, d, obs = c["n"], c["d"], c["obs"]
    k = len(obs)
    if d == 0:
        y = g.dec(c["y"], k, c["sy"])
        H = None if c["H"] is None else float(1.0 + g.dec(c["H"], 1, 2.0)[0])
        R = float(g.pos(c["R"], 1, c["sr"])[0])
        return y, R, H, g.dec(c["m"], n, c["sm"]), g.pos(c["S"], n, c["ss"]), (1.0 if H is None else H)
    o = d if c["H"] is None else c["o"]
    y = g.dec(c["y"], (k, o), c["sy"])
    H = None if c["H"] is None else g.dec(c["H"], (o, d), 2.0)
    if H is not None and o == d and "iso" in c["near"]:
        H = np.eye(d) + c["eps"] * H
    R = g.near(c, g.spd(c["R"], o, c["sr"]), False)
    if c["diag"]:
        R = np.diag(np.diag(R)).copy()
    return y, R, H, g.near(c, g.dec(c["m"], (n, d), c["sm"])), g.near(c, g.spd(c["S"], (n, d), c["ss"])), (np.eye(d) if H is None else H)


def times(obs, form):
    return {"list": list(obs), "array": np.array(obs), "np": [np.int64(k) for k in obs]}[form]


def reference(y, R, Hr, m, S, obs, d):
    e, mag = ref.eobs(m, S, y, obs, R, Hr)
    gm, gS = ref.eobs_grad(m, S, y, obs, R, Hr)
    k = np.linalg.cond(np.atleast_2d(R))
    iR = np.linalg.inv(np.atleast_2d(R))
    H = np.atleast_2d(Hr)
    W = max([1e-300] + [np.abs(np.reshape(y[i], -1)).max() + (np.abs(H) @ np.abs(np.reshape(m[t], -1))).max()
                        for i, t in enumerate(obs)])
    mag += len(obs) * np.abs(iR).sum() * W ** 2
    sm = (np.abs(H).T @ np.abs(iR)).max() * W * len(H)
    sS = (np.abs(H).T @ np.abs(iR) @ np.abs(H)).max()
    if d == 0:
        gm, gS = gm[:, 0], gS[:, 0, 0]
    return e, mag, gm, gS, sm, sS, 1e-12 * (10 + k)


def compare(lik, y, R, Hr, m, S, obs, d, what):
    e, mag, gm, gS, sm, sS, tol = reference(y, R, Hr, m, S, obs, d)
    with sut(what):
        got = np.array(lik(m, S), dtype=float)
        dm, dS, dR = lik.gradients(m, S)
    require(got.size == 1, f"{what}: the energy has shape {got.shape}")
    close(got.item(), e, mag, f"{what}: energy", tol)
    close(dm, gm, sm, f"{what}: gradient w.r.t. m", tol)
    close(dS, gS, sS, f"{what}: gradient w.r.t. S", tol)
    noise(np.asarray(dR), y, R, Hr, m, S, obs, d, what, tol)
    out = np.ones(len(m), bool)
    out[list(obs)] = False
    require(not np.any(np.asarray(dm)[out]) and not np.any(np.asarray(dS)[out]),
            f"{what}: a gradient away from the observation times is not zero")


def noise(dR, y, R, Hr, m, S, obs, d, what, tol):
    """d Eobs / dR = (R^-1 - R^-1 <(y - H x)(y - H x)'> R^-1) / 2, one term for each observation."""
    H, R2 = np.atleast_2d(Hr), np.atleast_2d(R)
    iR, o, n = np.linalg.inv(R2), len(R2), len(m)
    want, mag = np.zeros((n, o, o)), 0.0
    for i, t in enumerate(obs):
        yt, mt = np.reshape(y[i], -1), np.reshape(m[t], -1)
        w = yt - H @ mt
        St = np.reshape(S[t], (H.shape[1],) * 2)
        want[t] = 0.5 * (iR - iR @ (np.outer(w, w) + H @ St @ H.T) @ iR)
        a = np.abs(yt) + np.abs(H) @ np.abs(mt)
        mag = max(mag, (np.abs(iR) + np.abs(iR) @ (np.outer(a, a) + np.abs(H) @ np.abs(St) @ np.abs(H).T) @ np.abs(iR)).max())
    require(dR.shape == ((n,) if d == 0 else (n, o, o)), f"{what}: gradient w.r.t. the noise has shape {dR.shape}")
    close(dR.reshape(n, o, o), want, mag, f"{what}: gradient w.r.t. the noise", tol)


def check(c, ctx):
    d, obs = c["d"], c["obs"]
    y, R, H, m, S, Hr = build(c)
    if not c["whole"]:
        y, m, S = g.layout(c["form"], y, m, S)
    keep = [np.array(v) for v in (y, R, m, S)]
    with sut("GaussianLikelihood"):
        lik = GaussianLikelihood(y, times(obs, c["tform"]), R, H, d == 0)
        parts = [("values", lik.values, y), ("times", lik.times, np.array(obs)), ("noise", lik.noise, R), ("operator", lik.operator, Hr)]
    for name, got, want in parts:
        got, want = np.asarray(got, float), np.asarray(want, float)
        require(got.shape == want.shape and np.array_equal(got, want), f"{name} of the likelihood: {got} of shape {got.shape}")
    for k in range(1 + c["again"]):
        compare(lik, y, R, Hr, m, S, obs, d, f"evaluation {k}")
    unchanged(keep, (y, R, m, S), "GaussianLikelihood")
    ctx.label(f"d{d}", "H" if H is not None else "no-H", c["tform"], "whole" if c["whole"] else "", f"obs{min(len(obs), 4)}",
              *(["first"] if 0 in obs else []), *(["last"] if c["n"] - 1 in obs else []),
              "sorted" if obs == sorted(obs) else "not-sorted")
    ctx.hit(np.any(np.asarray(y) != 0))


def check_derivative(c, ctx):
    d, obs = c["d"], c["obs"]
    y, R, H, m, S, Hr = build(c)
    with sut("GaussianLikelihood"):
        lik = GaussianLikelihood(y, times(obs, c["tform"]), R, H, d == 0)
        dm, dS, *_ = lik.gradients(m, S)
        u = g.dec(c["u"], m.shape, c["sm"] + 0.1)
        V = g.dec(c["v"], S.shape, 1.0)
        V = V if d == 0 else 0.5 * (V + V.transpose(0, 2, 1))
        V = V * c["ss"]
        num_m = 0.5 * (float(lik(m + u, S)) - float(lik(m - u, S)))
        num_S = 0.5 * (float(lik(m, S + V)) - float(lik(m, S - V)))
    _, _, _, _, sm, sS, tol = reference(y, R, Hr, np.abs(m) + np.abs(u), np.abs(S) + np.abs(V), obs, d)
    mag = reference(y, R, Hr, np.abs(m) + np.abs(u), S, obs, d)[1] + sS * len(obs) * (np.abs(S).max() + np.abs(V).max()) * \
        max(d, 1) ** 2
    close(num_m, np.sum(dm * u), mag, "derivative along m", tol)
    close(num_S, np.sum(dS * V), mag, "derivative along S", tol)
    ctx.label(f"d{d}", "H" if H is not None else "no-H")
    ctx.hit(np.any(u[obs] != 0) and np.any(V[obs] != 0))


def check_history(c, ctx):
    d, obs = c["d"], c["obs"]
    y, R, H, m, S, Hr = build(c)
    with sut("GaussianLikelihood"):
        lik = GaussianLikelihood(y, times(obs, c["tform"]), R, H, d == 0)
    cur = R
    for k, op in enumerate(c["ops"]):
        if op[0] == "noise":
            f = op[1]
            o = 1 if d == 0 else np.shape(R)[0]
            new = float(g.pos(f, 1, c["sr"])[0]) if d == 0 else g.spd(f, o, c["sr"])
            # Some changes are small ones.
            cur = new if not op[2] else cur * (1.0 + op[2]) if op[3] else cur + op[2] * np.abs(cur).max() / np.abs(new).max() * new
            with sut("noise setter"):
                lik.noise = cur
                close(lik.noise, cur, np.abs(cur).max() if d else cur, "noise", 1e-15)
        else:
            compare(lik, y, cur, Hr, op[1] * m, S * op[2], obs, d, f"step {k}")
    ctx.label(f"d{d}", f"changes{sum(o[0] == 'noise' for o in c['ops'])}")
    ctx.hit(any(a[0] == "noise" and b[0] == "eval" for a, b in zip(c["ops"], c["ops"][1:])))


def cases(extra, sizes=None):
    return (sizes or g.size(1, 60)).flatmap(lambda n: st.fixed_dictionaries({
        "n": st.just(n), "obs": st.one_of(g.obs_times(n, 9, 1), g.obs_times(n, 9, 1, True), g.obs_times(n, 9, 1).flatmap(st.permutations)).map(list), "d": st.sampled_from([0, 0, 0, 1, 2, 3, 4] + [10] * (n < 20)), "o": st.integers(1, 6),
        "y": g.hexs(36), "m": g.hexs(80), "S": g.hexs(100), "R": g.hexs(16), "H": st.one_of(st.none(), g.hexs(16)),
        "sy": g.mag(-2, 2.5), "sm": g.mag(-2, 2.5), "ss": g.mag(-2, 1), "sr": g.mag(-4, 2), "diag": st.booleans(), "whole": g.BITS,
        "tform": st.sampled_from(["list", "array", "np"]), "form": g.LAYOUTS, "again": st.sampled_from([0, 0, 1]), **g.NEAR, **extra}))


ops = st.lists(st.one_of(st.tuples(st.just("noise"), g.hexs(16), st.sampled_from([0.0, 0.0, 1e-2, 1e-4, 1e-6, 1e-8]), st.booleans()),
                         st.tuples(st.just("eval"), g.num(-2, 2), g.num(0.1, 3))).map(list), min_size=1, max_size=8)


def warm():
    lik = GaussianLikelihood(np.zeros((1, 2)), [1], np.eye(2), None, False)
    lik(np.zeros((3, 2)), np.zeros((3, 2, 2)))


SUBS = [Sub("value", cases({}), check, 1600, 24000, shards=3),
        Sub("long", cases({}, g.LONGER), check, 24, 400),
        Sub("derivative", cases({"u": g.hexs(60), "v": g.hexs(60)}), check_derivative, 800, 12000, shards=2),
        Sub("history", cases({"ops": ops}), check_history, 500, 8000, shards=2)]
