"""Statistics of values that should be independent and standard normal: false alarms below 1e-10 each."""
import math

import numpy as np
from scipy.stats import binom, norm

from pbt.core import require


def shape(z, what):
    """The whole distribution: Kolmogorov's distance, and the numbers beyond 1 to 3 deviations (exact binomial tails)."""
    n, s = len(z), np.sort(z)
    F = norm.cdf(s)
    D = math.sqrt(n) * max((np.arange(1, n + 1) / n - F).max(), (F - np.arange(n) / n).max())
    require(D < 4.2, lambda: f"{what}: values are not Gaussian, Kolmogorov distance {D:.1f} / sqrt(n)")
    for k in (1, 1.5, 2, 2.5, 3):
        for side in (-1, 1):
            m, q = int(np.sum(side * z > k)), norm.sf(k)
            low = min(binom.cdf(m, n, q), binom.sf(m - 1, n, q))
            require(low > 1e-13, lambda: f"{what}: {m} of {n} values are beyond {side * k} standard deviations, {n * q:.1f} are expected")


def lagged(u, v, what, first):
    """No correlation at any lag (at least 100 pairs each; Chernoff's bound gives 1e-14 for nine deviations)."""
    n = len(u)
    if n < 110:
        return
    size = 2 ** math.ceil(math.log2(2 * n))
    r = np.fft.irfft(np.fft.rfft(v, size) * np.conj(np.fft.rfft(u, size)), size)
    lags = np.arange(first, n - 100)
    for sign in ([1] if first else [1, -1]):
        w = np.abs(r[sign * lags]) / np.sqrt(n - lags)
        require(w.max() < 9, lambda: f"{what}: values {sign * lags[w.argmax()]} steps apart correlate, {w.max():.1f} standard errors")
