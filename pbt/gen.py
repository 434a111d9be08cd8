"""Generators.  A case is a JSON value: numbers, names, and short byte strings
(hex) from which arrays of any size are decoded.  Byte strings shrink well:
Hypothesis drops bytes and lowers them, and the arrays become short, periodic
and zero."""
import contextlib
import io
import math

import numpy as np
from hypothesis import strategies as st

METHODS = ["euler", "heun", "rk2", "rk4"]


def hexs(n=96):
    """Bytes for one array (at most n of them; reused cyclically if too few)."""
    return st.one_of(st.binary(min_size=n, max_size=n),
                     st.binary(min_size=1, max_size=n)).map(bytes.hex)


def num(lo, hi):
    """A number from a lattice of [lo, hi], or any float of it."""
    return st.one_of(st.integers(0, 1000).map(lambda k: lo + (hi - lo) * k / 1000.0),
                     st.floats(lo, hi, allow_nan=False, allow_infinity=False))


def mag(lo, hi):
    """A positive number, log-uniform between 10^lo and 10^hi."""
    return st.integers(0, 400).map(lambda k: float(10.0 ** (lo + (hi - lo) * k / 400.0)))


def dec(h, shape, scale=1.0):
    """The array of a byte string: values in [-scale, scale]."""
    shape = (shape,) if isinstance(shape, int) else tuple(shape)
    n = int(np.prod(shape)) if shape else 1
    raw = np.frombuffer(bytes.fromhex(h), dtype=np.int8).astype(float) / 128.0
    if raw.size < n:
        i = np.arange(n)
        c = i // raw.size
        raw = raw[i % raw.size] * (0.7 + 0.3 * np.cos(1.3 * c + 0.1 * i))
    return (scale * raw[:n]).reshape(shape)


def spd(h, d, scale=1.0, floor=0.05):
    """A symmetric positive definite matrix, or (n, d, d) stack of them."""
    n, d = (None, d) if isinstance(d, int) else d
    L = dec(h, (n or 1, d, d))
    L = np.tril(L)
    S = scale * (np.einsum("nij,nkj->nik", L, L) + floor * np.eye(d))
    S = 0.5 * (S + S.transpose(0, 2, 1))
    return S if n else S[0]


def pos(h, shape, scale=1.0, floor=0.02):
    """Positive values."""
    return scale * (floor + np.abs(dec(h, shape)))


def obs_times(n, max_obs=8, min_obs=1, dense=False):
    """Sorted, unique indexes of [0, n): the end points are common."""
    base = st.sets(st.integers(0, n - 1), min_size=min(min_obs, n), max_size=min(max_obs, n))
    return st.one_of(base, base.map(lambda s: s | {0}), base.map(lambda s: s | {n - 1}),
                     base.map(lambda s: s | {0, n - 1}),
                     st.just(set(range(min(n, max_obs)))),
                     st.tuples(st.integers(1, 8), st.integers(0, 9)).map(
                         lambda t: set(range(min(t[1], n - 1), n, t[0])) if dense else set(range(n)[-max_obs:]))).map(sorted)


LONG = (65, 128, 129, 200, 256, 257, 300, 500, 512, 513, 1000, 1024, 1025)


LONGER = st.sampled_from((600, 777, 1001, 1100, 1500))       # grids of a whole simulation and more


def size(lo, hi, tail=LONG):
    """Mostly small sizes, sometimes up to hi, seldom one of the tail."""
    small = st.integers(lo, min(9, hi))
    return st.integers(0, 19).flatmap(lambda k: small if k < 9 or (k > 18 and not tail) else
                                      (st.integers(lo, hi) if k < 19 else st.sampled_from([t for t in tail])))


def layout(kind, *arrays):
    """The same values in another memory layout ("int": rounded, as integers)."""
    out = []
    for a in arrays:
        a = np.asarray(a, dtype=float)
        if kind == "int":
            a = np.array(np.round(a), dtype=int)
        elif kind == "f":
            a = np.asfortranarray(a)
        elif kind == "strided" and a.ndim:
            big = np.full(tuple(2 * k for k in a.shape), 7.25)
            big[tuple(slice(None, None, 2) for _ in a.shape)] = a
            a = big[tuple(slice(None, None, 2) for _ in a.shape)]
        else:
            a = np.array(a, order="C")
        out.append(a)
    return out if len(out) > 1 else out[0]


def whole(bits, i, v):
    """v, or (where bit i is set) a whole number of the type int; never 0 where v is positive."""
    if not bits >> i & 1:
        return v
    if np.ndim(v) == 0:
        return int(round(float(v))) or (1 if v > 0 else 0)
    return np.array(np.round(v), dtype=int)


def near(c, M, path=True):
    """M made almost (by c["eps"]) constant in time, symmetric, diagonal, or a multiple of the identity.  A convex
    combination: what is positive definite stays so."""
    M, kind = np.asarray(M, dtype=float), c["near"]
    square = M.ndim > 1 and M.shape[-1] == M.shape[-2] and (M.ndim > 2 or not path)
    B = M
    if "flat" in kind and path:
        B = np.broadcast_to(B[:1], M.shape)
    if square and "sym" in kind:
        B = 0.5 * (B + np.swapaxes(B, -1, -2))
    if square and "diag" in kind:
        B = B * np.eye(M.shape[-1])
    if "iso" in kind and not (path and M.ndim == 1):
        B = B * 0 + np.eye(M.shape[-1]) * B[..., :1, :1] if square else B * 0 + B[..., :1]
    return M if B is M else (1.0 - c["eps"]) * B + c["eps"] * M


NEAR = {"near": st.sampled_from([""] * 6 + ["flat", "sym", "diag", "iso", "flat sym", "flat diag", "flat iso"]),
        "eps": st.sampled_from([0.0, 1e-9, 1e-7, 1e-6, 1e-5, 1e-4, 1e-2])}
BITS = st.one_of(st.just(0), st.just(0), st.integers(1, 255))
LAYOUTS = st.sampled_from(["c", "c", "c", "f", "strided"])


def case_name(name):
    """Different spellings of the name of an integration method."""
    return st.sampled_from([name, name.upper(), name.capitalize()])


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()) as out:
        yield out


# ----- dynamical systems ---------------------------------------------------
DIM = {"OU": 1, "DW": 1, "L63": 3, "L96": 10}


def make_model(kind, sigma, theta, seed=1, dim=10):
    """A model, silently."""
    with quiet():
        if kind == "OU":
            from src.dynamics.ornstein_uhlenbeck import OrnsteinUhlenbeck
            return OrnsteinUhlenbeck(sigma, theta, seed)
        if kind == "DW":
            from src.dynamics.double_well import DoubleWell
            return DoubleWell(sigma, theta, seed)
        if kind == "L63":
            from src.dynamics.lorenz_63 import Lorenz63
            return Lorenz63(sigma, theta, seed)
        from src.dynamics.lorenz_96 import Lorenz96
        return Lorenz96(sigma, theta, seed, dim_d=dim)


def set_path(model, tk, d):
    """Give a model its time window (and a path of the right size)."""
    model.time_window = np.array(tk, dtype=float)
    model.sample_path = np.zeros(len(tk)) if d == 1 else np.zeros((len(tk), d))


def warm_l63():
    m = make_model("L63", np.eye(3), np.array([10., 28., 2.6]))
    with quiet():
        m.make_trajectory(0.0, 0.05, 0.01)


def warm_l96():
    from src.dynamics import lorenz_96 as L
    m = make_model("L96", np.eye(10), 8.0)
    with quiet():
        m.make_trajectory(0.0, 0.05, 0.01)
    n = 3
    m.energy(np.tile(np.eye(10), (6, 1, 1)), np.zeros((6, 10)), np.ones((6, 10)),
             np.tile(np.eye(10), (6, 1, 1)), [n])


def fsum(values):
    return math.fsum(float(v) for v in values)
