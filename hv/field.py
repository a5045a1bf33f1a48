"""Reference second moments of spectral random fields on a box."""
import numpy as np


def spectrum(shape, d, corl, var, cov):
    """power spectrum of a zero-mean periodic field on a box of cells"""
    h2 = 0
    for ax, (n, dd, l) in enumerate(zip(shape, d, corl)):
        i = np.arange(n)
        c = np.minimum(i, n - i) * dd / l         # distance on the periodic box
        s = [1] * len(shape)
        s[ax] = n
        h2 = h2 + (c ** 2).reshape(s)
    r = var * (np.exp(-h2) if cov == 'gaussian' else np.exp(-np.sqrt(h2)))
    r = r + np.zeros(shape)
    s = np.abs(np.fft.fftn(r)) / r.size
    s.flat[0] = 0
    return s


def moments(s):
    """(variance, [lag-1 covariance along every axis], var of the mean square)"""
    v = float(s.sum())
    lag = []
    for ax, n in enumerate(s.shape):
        k = np.arange(n)
        sh = [1] * s.ndim
        sh[ax] = n
        lag.append(float((s * np.cos(2 * np.pi * k / n).reshape(sh)).sum()))
    return v, lag, float(2 * (s ** 2).sum())


def sample(y):
    """(mean square, [lag-1 products along every axis, periodic])"""
    return float((y * y).mean()), [float((y * np.roll(y, -1, ax)).mean()) for ax in range(y.ndim)]


class Pool:
    """pooled standardised deviations"""
    def __init__(self):
        self.d = {}

    def add(self, key, dev, var):
        a = self.d.setdefault(key, [0.0, 0.0, 0])
        a[0] += dev
        a[1] += var
        a[2] += 1

    def dump(self):
        return self.d

    @staticmethod
    def merge(list_of):
        out = {}
        for d in list_of:
            for k, (a, b, n) in d.items():
                o = out.setdefault(k, [0.0, 0.0, 0])
                o[0] += a
                o[1] += b
                o[2] += n
        return {k: (o[0] / np.sqrt(o[1]) if o[1] > 0 else 0.0, o[2]) for k, o in out.items()}


def lag_var(s, ax):
    """variance of the lag-1 product mean along an axis"""
    n = s.shape[ax]
    sh = [1] * s.ndim
    sh[ax] = n
    c = np.cos(2 * np.pi * np.arange(n) / n).reshape(sh)
    return float(2 * ((s * c) ** 2).sum())
