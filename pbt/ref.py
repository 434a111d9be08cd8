"""Oracles, written from the definitions and sharing no code with /repo."""
import math

import numpy as np

# ----- Runge-Kutta by tableau, on the vectorised linear equations -----------
TABLEAU = {
    "euler": ([0.0], [[]], [1.0]),
    "heun": ([0.0, 1.0], [[], [1.0]], [0.5, 0.5]),
    "rk2": ([0.0, 0.5], [[], [0.5]], [0.0, 1.0]),
    "rk4": ([0.0, 0.5, 0.5, 1.0], [[], [0.5], [0.0, 0.5], [0.0, 0.0, 1.0]],
            [1 / 6, 1 / 3, 1 / 3, 1 / 6]),
}


def _at(x, k, l, c):
    return x[k] if c == 0.0 else (x[l] if c == 1.0 else 0.5 * (x[k] + x[l]))


def rk_linear(L, f, y0, dt, method, order, jump=None):
    """y' = L y + f along the nodes of `order` (with step dt, that is negative
    when going backwards).  `jump[k]` is added on arrival at node k."""
    c, a, b = TABLEAU[method]
    y = np.zeros((len(f), y0.size))
    y[order[0]] = y0
    for k, l in zip(order[:-1], order[1:]):
        K = []
        for i in range(len(b)):
            yi = y[k] + dt * sum((a[i][j] * K[j] for j in range(i)), np.zeros_like(y0))
            K.append(_at(L, k, l, c[i]) @ yi + _at(f, k, l, c[i]))
        y[l] = y[k] + dt * sum(b[i] * K[i] for i in range(len(b)))
        if jump is not None:
            y[l] = y[l] + jump[l]
    return y


def _nd(A):
    return A.reshape(-1, 1, 1) if A.ndim == 1 else A


def _lyap(A):
    """Row-major vec: A S + S A' -> (A x I + I x A) vec(S)."""
    I = np.eye(A.shape[-1])
    return np.array([np.kron(a, I) + np.kron(I, a) for a in A])


def forward(A, b, m0, S0, Sigma, dt, method):
    """Marginal moments.  Returns (m, S, scale_m, scale_S): the scales come
    from the same recursion on absolute values, so they bound every
    intermediate number."""
    one = np.ndim(A) == 1
    A, n = _nd(np.asarray(A, float)), len(A)
    d = A.shape[1]
    b = np.asarray(b, float).reshape(n, d)
    m0, S0 = np.asarray(m0, float).reshape(d), np.asarray(S0, float).reshape(d * d)
    Q = np.broadcast_to(np.asarray(Sigma, float).reshape(d * d), (n, d * d))
    idx = list(range(n))
    P = _lyap(A)
    m = rk_linear(-A, b, m0, dt, method, idx)
    S = rk_linear(-P, Q, S0, dt, method, idx)
    sm = rk_linear(np.abs(A), np.abs(b), np.abs(m0), dt, method, idx)
    sS = rk_linear(np.abs(P), np.abs(Q), np.abs(S0), dt, method, idx)
    if one:
        return m[:, 0], S[:, 0], sm[:, 0], sS[:, 0]
    sh = (n, d, d)
    return m, S.reshape(sh), sm, sS.reshape(sh)


def step_linear(L, f, Y, dt, method, order, jump=None):
    """One step from each row of Y; the rows are in the order of the grid, the result is that of the sweep's.  Also the
    scale of each step: the same step on absolute values."""
    k, l = order[:-1], order[1:]
    c, a, w = TABLEAU[method]
    out = []
    for s in (False, True):
        g = np.abs if s else (lambda v: v)
        h = abs(dt) if s else dt
        y, K = g(Y[k]), []
        at = lambda v, q: (1.0 - q) * g(v[k]) + q * g(v[l])
        for ci, ai in zip(c, a):
            z = y + h * sum((g(q) * Ki for q, Ki in zip(ai, K)), np.zeros_like(y))
            K.append(np.einsum("nij,nj->ni", at(L, ci), z) + at(f, ci))
        y = y + h * sum(q * Ki for q, Ki in zip(w, K))
        out.append(y + (g(jump[l]) if jump is not None else 0.0))
    return out


def local_forward(A, b, Q, m, S, dt, method):
    """What one step from each of the nodes (m, S) leads to, and its scale: (m, sm, S, sS) at nodes 1, 2, ..."""
    A, n = _nd(np.asarray(A, float)), len(A)
    d = A.shape[1]
    i = np.arange(n)
    b, m = (np.asarray(v, float).reshape(n, d) for v in (b, m))
    Q = np.broadcast_to(np.asarray(Q, float).reshape(d * d), (n, d * d))
    return step_linear(-A, b, m, dt, method, i) + step_linear(-_lyap(A), Q, np.reshape(S, (n, d * d)), dt, method, i)


def local_backward(A, dm, dS, jm, jS, lam, psi, dt, method):
    """The same for (lam, psi): at nodes n-2, n-3, ..., 0."""
    A, n = _nd(np.asarray(A, float)), len(A)
    At, i = A.transpose(0, 2, 1), np.arange(n)[::-1]
    f = [np.asarray(v, float).reshape(n, -1) for v in (dm, dS, jm, jS, lam, psi)]
    return step_linear(At, -f[0], f[4], -dt, method, i, f[2]) + step_linear(_lyap(At), -f[1], f[5], -dt, method, i, f[3])


def backward(A, dm, dS, jm, jS, dt, method):
    """Lagrange multipliers; they start from the contribution of an
    observation at the final time."""
    one = np.ndim(A) == 1
    A, n = _nd(np.asarray(A, float)), len(A)
    d = A.shape[1]
    f = [np.asarray(v, float).reshape(n, -1) for v in (dm, dS, jm, jS)]
    At = A.transpose(0, 2, 1)
    P = _lyap(At)
    idx = list(range(n - 1, -1, -1))
    out = []
    for s in (1.0, None):
        g = (lambda v: v) if s else np.abs
        sg = -1.0 if s else 1.0
        h = -dt if s else dt
        lam = rk_linear(g(At), sg * g(f[0]), g(f[2][-1]), h, method, idx, g(f[2]))
        psi = rk_linear(g(P), sg * g(f[1]), g(f[3][-1]), h, method, idx, g(f[3]))
        out += [lam, psi]
    lam, psi, sl, sp = out
    if one:
        return lam[:, 0], psi[:, 0], sl[:, 0], sp[:, 0]
    sh = (n, d, d)
    return lam, psi.reshape(sh), sl, sp.reshape(sh)


# ----- Gaussian expectations -------------------------------------------------
_GH = {}


def gh(n):
    """Gauss-Hermite for N(0, 1): exact for polynomials of degree 2n-1."""
    if n not in _GH:
        x, w = np.polynomial.hermite_e.hermegauss(n)
        _GH[n] = (x, w / math.sqrt(2.0 * math.pi))
    return _GH[n]


def points(m, S, n):
    """Nodes and weights of a tensor rule for N(m, S)."""
    m = np.atleast_1d(np.asarray(m, float))
    S = np.asarray(S, float).reshape(m.size, m.size)
    x, w = gh(n)
    if m.size == 1:
        return m + math.sqrt(S[0, 0]) * x[:, None], w
    grid = np.array(np.meshgrid(*[x] * m.size, indexing="ij")).reshape(m.size, -1).T
    W = np.prod(np.array(np.meshgrid(*[w] * m.size, indexing="ij")).reshape(m.size, -1), axis=0)
    return m + grid @ np.linalg.cholesky(S).T, W


# ----- the four systems: drift, Jacobian, Hessians, d(drift)/d(theta) --------
def drift(kind, x, th):
    """x is (p, d)."""
    if kind == "OU":
        return -th * x
    if kind == "DW":
        return 4.0 * x * (th - x ** 2)
    if kind == "L63":
        s, r, b = th
        X, Y, Z = x.T
        return np.stack([s * (Y - X), X * (r - Z) - Y, X * Y - b * Z], axis=1)
    d = x.shape[1]
    i = np.arange(d)
    return (x[:, (i + 1) % d] - x[:, (i - 2) % d]) * x[:, (i - 1) % d] - x + th


def jac(kind, x, th):
    p, d = x.shape
    if kind == "OU":
        return np.full((p, 1, 1), -float(th))
    if kind == "DW":
        return (4.0 * th - 12.0 * x ** 2).reshape(p, 1, 1)
    J = np.zeros((p, d, d))
    if kind == "L63":
        s, r, b = th
        X, Y, Z = x.T
        J[:, 0, 0], J[:, 0, 1] = -s, s
        J[:, 1, 0], J[:, 1, 1], J[:, 1, 2] = r - Z, -1.0, -X
        J[:, 2, 0], J[:, 2, 1], J[:, 2, 2] = Y, X, -b
        return J
    for i in range(d):
        J[:, i, (i + 1) % d] += x[:, (i - 1) % d]
        J[:, i, (i - 2) % d] -= x[:, (i - 1) % d]
        J[:, i, (i - 1) % d] += x[:, (i + 1) % d] - x[:, (i - 2) % d]
        J[:, i, i] -= 1.0
    return J


def hess(kind, x, th):
    """(p, i, j, k): second derivatives of the drift's component i."""
    p, d = x.shape
    H = np.zeros((p, d, d, d))
    if kind == "DW":
        H[:, 0, 0, 0] = -24.0 * x[:, 0]
    if kind == "L63":
        H[:, 1, 0, 2] = H[:, 1, 2, 0] = -1.0
        H[:, 2, 0, 1] = H[:, 2, 1, 0] = 1.0
    return H


def dtheta(kind, x, th):
    """(p, i, q): derivative of the drift's component i w.r.t. parameter q."""
    p, d = x.shape
    if kind == "OU":
        return -x.reshape(p, 1, 1)
    if kind == "DW":
        return 4.0 * x.reshape(p, 1, 1)
    T = np.zeros((p, d, d))
    if kind == "L63":
        X, Y, Z = x.T
        T[:, 0, 0], T[:, 1, 1], T[:, 2, 2] = Y - X, X, -Z
    else:
        T[:, np.arange(d), np.arange(d)] = 1.0
    return T


RULE_N = {"OU": 4, "DW": 6, "L63": 5}


def unscented(m, S):
    """The documented unscented points: scaling k = 1.05 D."""
    d = m.size
    k = 1.05 * d
    L = np.linalg.cholesky((d + k) * S)
    x = np.vstack([m[None], m[None] + L.T, m[None] - L.T])
    w = np.r_[k / (d + k), np.full(2 * d, 0.5 / (d + k))]
    return x, w


def energy_at(kind, a, b, m, S, th, dinv):
    """Everything about one time: dinv is the diagonal of the inverse noise."""
    m = np.atleast_1d(np.asarray(m, float))
    d = m.size
    a, b, S = np.reshape(a, (d, d)), np.reshape(b, d), np.reshape(S, (d, d))
    x, w = unscented(m, S) if kind == "L96" else points(m, S, RULE_N[kind])
    r = drift(kind, x, th) + x @ a.T - b
    out = {"Er2": w @ r ** 2, "r_abs": w @ (np.abs(drift(kind, x, th)) + np.abs(x) @ np.abs(a).T + np.abs(b)) ** 2}
    out["E"] = 0.5 * dinv @ out["Er2"]
    out["E_abs"] = 0.5 * dinv @ out["r_abs"]
    out["Ef"] = w @ drift(kind, x, th)
    out["Edf"] = np.einsum("p,pij->ij", w, jac(kind, x, th))
    T = dtheta(kind, x, th)
    out["dth"] = np.einsum("p,pi,piq,i->q", w, r, T, dinv)
    if kind == "L96":
        h = r ** 2 @ dinv
        Si = np.linalg.inv(S)
        z = x - m
        out["dm"] = 0.5 * (np.einsum("p,p,pi->i", w, h, x @ Si) - (w @ h) * (Si @ m))
        zz = z @ Si
        out["dS"] = 0.5 * (0.5 * np.einsum("p,p,pi,pj->ij", w, h, zz, zz) - 0.5 * (w @ h) * Si)
        ha = (np.abs(drift(kind, x, th)) + np.abs(x) @ np.abs(a).T + np.abs(b)) ** 2 @ dinv
        aS = np.abs(Si)
        out["dm_abs"] = 0.5 * (np.einsum("p,p,pi->i", w, ha, np.abs(x) @ aS) + (w @ ha) * (aS @ np.abs(m)))
        az = np.abs(z) @ aS
        out["dS_abs"] = 0.5 * (0.5 * np.einsum("p,p,pi,pj->ij", w, ha, az, az) + 0.5 * (w @ ha) * aS)
    else:
        J = jac(kind, x, th) + a
        H = hess(kind, x, th)
        out["dm"] = np.einsum("p,i,pi,pij->j", w, dinv, r, J)
        out["dS"] = 0.5 * (np.einsum("p,i,pij,pik->jk", w, dinv, J, J) +
                           np.einsum("p,i,pi,pijk->jk", w, dinv, r, H))
        Ja = np.abs(jac(kind, x, th)) + np.abs(a)
        ra = np.abs(drift(kind, x, th)) + np.abs(x) @ np.abs(a).T + np.abs(b)
        out["dm_abs"] = np.einsum("p,i,pi,pij->j", w, dinv, ra, Ja)
        out["dS_abs"] = 0.5 * (np.einsum("p,i,pij,pik->jk", w, dinv, Ja, Ja) +
                               np.einsum("p,i,pi,pijk->jk", w, dinv, ra, np.abs(H)))
    return out


def trapz(f, dt):
    f = np.asarray(f, float)
    return dt * (f.sum(axis=0) - 0.5 * (f[0] + f[-1]))


def energy(kind, A, b, m, S, th, dinv, dt):
    """The energy of the SDE and its parts, over a path."""
    E = [energy_at(kind, A[k], b[k], m[k], S[k], th, np.atleast_1d(dinv)) for k in range(len(b))]
    g = {k: np.array([e[k] for e in E]) for k in E[0]}
    g["Esde"] = trapz(g["E"], dt)
    g["Esde_abs"] = trapz(g["E_abs"], dt)
    return g


# ----- Gaussian terms --------------------------------------------------------
def kl(m, S, mu, tau):
    """KL(N(m, S) || N(mu, tau))."""
    m, mu = np.atleast_1d(np.asarray(m, float)), np.atleast_1d(np.asarray(mu, float))
    d = m.size
    S, tau = np.reshape(S, (d, d)), np.reshape(tau, (d, d))
    z = m - mu
    return 0.5 * (np.linalg.slogdet(tau)[1] - np.linalg.slogdet(S)[1] - d +
                  np.trace(np.linalg.solve(tau, S)) + z @ np.linalg.solve(tau, z))


def kl_grad(m, S, mu, tau):
    m, mu = np.atleast_1d(np.asarray(m, float)), np.atleast_1d(np.asarray(mu, float))
    d = m.size
    S, tau = np.reshape(S, (d, d)), np.reshape(tau, (d, d))
    return (np.linalg.solve(tau, m - mu),
            0.5 * (np.linalg.solve(tau, np.eye(d)) - np.linalg.solve(S, np.eye(d))))


def eobs(m, S, y, idx, R, H):
    """Expected negative log-likelihood of y_n ~ N(H x(t_n), R)."""
    H, R = np.atleast_2d(H), np.atleast_2d(R)
    o, d = H.shape
    tot, mag = 0.0, 0.0
    for n, t in enumerate(idx):
        v = np.reshape(y[n], o) - H @ np.reshape(m[t], d)
        P = H @ np.reshape(S[t], (d, d)) @ H.T
        tr = np.trace(np.linalg.solve(R, P))
        q = v @ np.linalg.solve(R, v)
        c = o * math.log(2.0 * math.pi)
        ld = np.linalg.slogdet(R)[1]
        tot += 0.5 * (q + tr + c + ld)
        mag += 0.5 * (q + abs(tr) + c + abs(ld))
    return tot, mag


def eobs_grad(m, S, y, idx, R, H):
    H, R = np.atleast_2d(H), np.atleast_2d(R)
    o, d = H.shape
    n = len(m)
    gm, gS = np.zeros((n, d)), np.zeros((n, d, d))
    for k, t in enumerate(idx):
        v = np.reshape(y[k], o) - H @ np.reshape(m[t], d)
        gm[t] -= H.T @ np.linalg.solve(R, v)
        gS[t] += 0.5 * H.T @ np.linalg.solve(R, H)
    return gm, gS
