import numpy as np
from hypothesis import strategies as st
from pbt import gen as g
from pbt.core import Sub, close, expect, require, sut

PROPERTY = "C17"
TITLE = "Drift and noise parameters stay valid and consistent through every update"
RULE = ("history: a case is a model and a sequence of updates: noise (valid, valid and related to the current one, zero, negative, indefinite, not symmetric, not a number, of the wrong shape), "
        "drift (valid, or not positive for OU), trajectories. After each step sigma and theta are the last valid ones, "
        "inverse_sigma inverts sigma, invalid values raise the documented exception and change nothing. forms: scalar, vector "
        "and matrix noise that describe one matrix give equal models. rejected: invalid constructor arguments. Non-trivial: at "
        "least one valid update, or any constructor case.")
ASSUMPTIONS = ["invalid matrices have an eigenvalue that is at most zero by a clear margin (or exactly zero)",
               "Lorenz setters take matrices, as they document (no conversion of scalars)"]
BAD = (ValueError, RuntimeError)


def base(c):
    k, d = c["kind"], c["d"]
    th = {"OU": 1.5, "DW": 1.0, "L63": np.array([10., 28., 2.6]), "L96": np.array(8.0)}[k]
    s = np.array([[c["s"]]]) if d == 1 else g.spd(c["Q"], d, c["s"], 0.2)
    return th, s


def same(m, c, th, Q, what):
    d = c["d"]
    with sut("accessors"):
        s, i, t = m.sigma, m.inverse_sigma, m.theta
    s, i = np.asarray(s, float), np.asarray(i, float)
    require(s.shape == (() if d == 1 else (d, d)), f"{what}: sigma has shape {s.shape}")
    s, i = s.reshape(d, d), i.reshape(d, d)
    require(np.array_equal(s, Q), lambda: f"{what}: sigma is {s}, not {Q}")
    close(i @ Q, np.eye(d), np.linalg.cond(Q) * d, f"{what}: inverse_sigma times sigma", 1e-12)
    require(np.array_equal(np.asarray(t, float), np.asarray(th, float)), lambda: f"{what}: theta is {t}, not {th}")


def indefinite(h, d, scale):
    w = scale * (0.3 + np.abs(g.dec(h, d)))
    how = int(h[2:4] or "0", 16)
    f = -1.0 if how % 2 else -0.2
    i = int(h[:2], 16) % d
    if how % 5 == 4:        # all, some (an even number has a positive determinant), or one
        w *= -1.0
    elif how % 5 >= 2:
        w[i] *= f
        w[(i + 1) % d] *= f
    else:
        w[i] *= f
    if how % 7 == 6:
        return np.diag(w)
    V = np.linalg.qr(g.dec(h, (d, d)) + 2.0 * np.eye(d))[0]
    S = (V * w) @ V.T
    return 0.5 * (S + S.T)


def lopsided(h, d, v):
    """A matrix with positive eigenvalues that is not symmetric."""
    S = g.spd(h, d, v, 0.2)
    i = int(h[:2] or "0", 16) % (d - 1)
    S[i, i + 1] += (0.1 if len(h) % 2 else -0.1) * S.diagonal().min()
    return S


def related(Q, h, v):
    """A valid matrix that shares something with Q: its diagonal, determinant, eigenvalues, most entries, ..."""
    d = len(Q)
    how = int(h[:2], 16) % 7
    s = np.sqrt(np.diag(Q))
    if d == 1:
        return Q * [1.0, 1.0 + 1e-9, 1.0 + 1e-6, 1.001, 1.5, 0.5, 1.0 / Q[0, 0] ** 2][how]
    if how == 0:    # the same variances, other correlations
        R = g.spd(h, d, 1.0, 0.2)
        r = np.sqrt(np.diag(R))
        R = R / np.outer(r, r) * np.outer(s, s)
        R[np.diag_indices(d)] = np.diag(Q)
        return 0.5 * (R + R.T)
    if how == 1:    # the same variances, none
        return np.diag(np.diag(Q))
    if how == 2:    # the same determinant and variances: signs of one component
        e = np.ones(d)
        e[int(h[2:4] or "0", 16) % d] = -1.0
        return Q * np.outer(e, e)
    if how == 3:    # the same numbers: two components change places
        i = int(h[2:4] or "0", 16) % (d - 1)
        P = np.arange(d)
        P[[i, i + 1]] = P[[i + 1, i]]
        return Q[np.ix_(P, P)]
    if how == 4:    # one variance
        R = Q.copy()
        i = int(h[2:4] or "0", 16) % d
        R[i, i] *= 1.0 + min(v, 1.0)
        return R
    if how == 5:    # very close
        return Q * (1.0 + 1e-8)
    R = np.array(Q)  # one pair of entries
    i = int(h[2:4] or "0", 16) % (d - 1)
    R[i, i + 1] = R[i + 1, i] = 0.5 * R[i, i + 1]
    return R if np.linalg.eigvalsh(R)[0] > 1e-3 * np.linalg.eigvalsh(Q)[0] else Q.copy()


def check_history(c, ctx):
    th, Q = base(c)
    k, d = c["kind"], c["d"]
    one = d == 1
    m = None
    with sut("constructor"):
        m = g.make_model(k, float(Q[0, 0]) if one else Q.copy(), th, 1, d)
    same(m, c, th, Q, f"new {k}")
    ok = 0
    for n, (op, h, v) in enumerate(c["ops"]):
        what = f"{k}, step {n} ({op})"
        if op == "sigma":
            Q = np.array([[v]]) if one else g.spd(h, d, v, 0.2)
            with sut(what):
                m.sigma = float(Q[0, 0]) if one else Q.copy()
            ok += 1
        elif op == "diag":
            Q = np.array([[v]]) if one else np.diag(g.pos(h, d, v, 0.2))
            with sut(what):
                m.sigma = float(Q[0, 0]) if one else Q.copy()
            ok += 1
        elif op == "int":           # whole numbers, as a user types them
            n = 1 + int(h[:2], 16) % 9
            if one:
                Q = np.array([[float(n)]])
                new = [n, np.int64(n), np.array(n)][int(h[2:4] or "0", 16) % 3]
            else:
                new = np.diag(np.full(d, n + 2)) + np.eye(d, k=1, dtype=int) + np.eye(d, k=-1, dtype=int)
                Q = new.astype(float)
            with sut(what):
                m.sigma = new
            ok += 1
        elif op == "inttheta":
            n = 1 + int(h[:2], 16) % 9
            th = n if one else (np.array([10, 28, n]) if k == "L63" else np.array(n))
            with sut(what):
                m.theta = th
            ok += 1
        elif op == "creep":         # the smallest changes
            e = 1.0 + 2.0 ** -(30 + int(h[:2], 16) % 23)
            if int(h[2:4] or "0", 16) % 2:
                th = th * e
                with sut(what):
                    m.theta = th
            else:
                Q = Q * e
                with sut(what):
                    m.sigma = float(Q[0, 0]) if one else Q.copy()
            ok += 1
        elif op == "related":
            Q = related(Q, h, v)
            with sut(what):
                m.sigma = float(Q[0, 0]) if one else Q.copy()
            ok += 1
        elif op == "theta":
            th = v if one else (np.array([10., 28., 2.6]) * v if k == "L63" else np.array(8.0 * v))
            with sut(what):
                m.theta = th
            ok += 1
        elif op == "shuffle":       # the same numbers in another order, or with other signs
            if k == "L63":
                th = [th[::-1], np.roll(th, 1), th[[1, 0, 2]], -th, th[[0, 2, 1]]][int(h[:2], 16) % 5].copy()
            elif k != "OU":
                th = -th
            with sut(what):
                m.theta = th
            ok += 1
        elif op == "nudge":
            th = th * (1.0 + min(v, 1.0) * 1e-7)
            with sut(what):
                m.theta = th
            ok += 1
        elif op == "zero":
            with g.quiet():
                expect(BAD, what, setattr, m, "sigma", 0.0 if one else np.zeros((d, d)))
                if not one:
                    Z = np.diag(g.pos(h, d, v, 0.2))
                    Z[0, 0] = 0.0
                    expect(BAD, what, setattr, m, "sigma", Z)
        elif op == "bad":
            with g.quiet():
                expect(BAD, what, setattr, m, "sigma", -v if one else indefinite(h, d, v))
        elif op == "nan":
            with g.quiet():
                expect(BAD + (np.linalg.LinAlgError,), what, setattr, m, "sigma", np.nan if one else Q * np.where(np.eye(d) > 0, np.nan, 1.0))
        elif op == "lopsided" and not one:
            with g.quiet():
                expect(BAD, what, setattr, m, "sigma", lopsided(h, d, v))
        elif op == "shape" and not one:
            for e in (d - 1, d + 1):
                with g.quiet():
                    expect(BAD, what, setattr, m, "sigma", np.eye(e))
            with g.quiet():
                expect(BAD, what, setattr, m, "sigma", np.ones((d, d + 1)))
        elif op == "badtheta" and k == "OU":
            for w in (-v, 0.0, np.nan):
                with g.quiet():
                    expect(ValueError, what, setattr, m, "theta", w)
        elif op == "path":
            with sut(what), g.quiet():
                m.make_trajectory(0.0, 0.003, 0.001)
        same(m, c, th, Q, what)
        ctx.label(op)
    ctx.label(k)
    ctx.hit(ok)


def check_forms(c, ctx):
    k, d = c["kind"], c["d"]
    v = g.pos(c["Q"], d, c["s"], 0.2)
    th, _ = base(c)
    forms = [("vector", v), ("matrix", np.diag(v)), ("list", [float(x) for x in v]),
             ("list of lists", [[float(x) for x in r] for r in np.diag(v)])]
    if c["const"]:
        v = np.full(d, c["s"])
        forms = [("number", c["s"]), ("0-d array", np.array(c["s"])), ("vector", v), ("matrix", np.diag(v)),
                 ("integer", int(np.ceil(c["s"])))]
    for name, f in forms:
        with sut(f"{k} with {name} noise"):
            m = g.make_model(k, f, th, 1, d)
        same(m, c, th, np.diag(np.full(d, float(f))) if name == "integer" else np.diag(v), f"{k} with {name} noise")
    if k == "L63":
        with sut("list of drift parameters"):
            m = g.make_model(k, forms[0][1], [10, 28, 2.6], 1, d)
        same(m, c, np.array([10., 28., 2.6]), np.diag(v), "list of drift parameters")
    ctx.label(k)
    ctx.hit()


def check_reject(c, ctx):
    k, d = c["kind"], c["d"]
    th, Q = base(c)
    v = c["s"]

    def rej(what, s, t=th, dim=d):
        with g.quiet():
            expect(BAD, f"{k}: {what}", g.make_model, k, s, t, 1, dim)
    if d == 1:
        rej("negative noise", -v)
        rej("no noise", 0.0)
        rej("noise that is not a number", np.nan)
        if k == "OU":
            rej("drift that is not a number", v, np.nan)
            rej("negative drift", v, -v)
            rej("no drift", v, 0.0)
    else:
        rej("negative noise", -v)
        rej("no noise", 0.0)
        rej("indefinite noise", indefinite(c["Q"], d, v))
        for n in {2, d - 1, d}:         # an even number of negative directions has a positive determinant
            e = np.ones(d)
            e[:n] = -1.0
            rej(f"noise with {n} negative directions", np.roll(e, int(c["Q"][:2], 16)) * v)
            rej(f"noise with {n} negative directions", np.diag(np.roll(e, int(c["Q"][:2], 16))) * v)
            V = np.linalg.qr(g.dec(c["Q"], (d, d)) + 2.0 * np.eye(d))[0]
            S = (V * e) @ V.T * v
            rej(f"noise with {n} negative directions", 0.5 * (S + S.T))
        rej("noise that is not symmetric", lopsided(c["Q"], d, v))
        w = g.pos(c["Q"], d, v, 0.2)
        w[d // 2] *= -1
        rej("a negative variance", w)
        rej("a negative variance", np.diag(w))
        w[d // 2] = 0.0
        rej("a zero variance", w)
        rej("noise of the wrong size", np.eye(d + 1) * v)
        rej("noise of the wrong size", np.ones(d - 1) * v)
        rej("noise in three dimensions", np.ones((d, d, d)))
        if k == "L96":
            for n in (9, 4, 1, 0):
                rej(f"{n} dimensions", v, th, n)
    ctx.label(k)
    ctx.hit()


KIND = st.sampled_from([("OU", 1), ("DW", 1), ("L63", 3), ("L63", 3), ("L96", 10), ("L96", 11), ("L96", 40), ("L96", 57)])
OPS = ["sigma", "sigma", "related", "related", "related", "diag", "theta", "nudge", "creep", "shuffle", "int", "int", "inttheta", "zero", "bad", "bad", "lopsided", "nan", "shape", "badtheta", "path"]


def case(extra, kinds=KIND):
    return kinds.flatmap(lambda kd: st.fixed_dictionaries({
        "kind": st.just(kd[0]), "d": st.just(kd[1]), "s": st.one_of(g.mag(-2, 1.5), g.mag(-2, 1.5), g.mag(-2, 1.5), g.mag(-9, 9)), "Q": g.hexs(60), **extra}))


def warm():
    g.warm_l63()
    g.warm_l96()


OP = st.tuples(st.sampled_from(OPS), g.hexs(60), st.one_of(g.mag(-2, 1.5), g.mag(-2, 1.5), g.mag(-2, 1.5), g.mag(-9, 9)))
SUBS = [Sub("history", case({"ops": st.lists(OP, min_size=1, max_size=8)}), check_history, 300, 6000, shards=3),
        Sub("forms", case({"const": st.booleans()}, st.sampled_from([("L63", 3), ("L96", 10), ("L96", 12)])), check_forms, 120, 2000),
        Sub("rejected", case({}), check_reject, 120, 2000)]
