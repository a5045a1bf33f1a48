"""Statistics with thresholds so wide that chance never trips them."""
import numpy as np


def ks_uniform(u):
    """sqrt(n) * Kolmogorov distance of u from the uniform distribution on [0, 1]"""
    u = np.sort(np.asarray(u, float))
    n = len(u)
    if n < 20:
        return 0.0
    i = np.arange(1, n + 1)
    return float(np.sqrt(n) * max(np.max(i / n - u), np.max(u - (i - 1) / n)))


KS_LIMIT = 2.6      # P < 3e-6
Z_LIMIT = 6.0


def zscore(total, mean, var):
    return 0.0 if var <= 0 else float((total - mean) / np.sqrt(var))


class Independence:
    """products of standardised values of pairs that are drawn independently"""

    def __init__(self):
        self.p, self.same = {}, {}

    def add(self, key, a, b, distinct=True):
        if a is None or b is None:
            return
        s = self.p.setdefault(key, [0.0, 0])
        s[0] += a * b
        s[1] += 1
        if distinct and abs(a - b) < 1e-9:
            self.same[key] = self.same.get(key, 0) + 1

    def many(self, key, a, b, distinct=True):
        for x, y in zip(a, b):
            self.add(key, float(x), float(y), distinct)

    def series(self, key, v):
        """values drawn one after another: neighbours, and the next but one"""
        self.many(key, v[:-1], v[1:])
        self.many(key + ', two apart', v[:-2], v[2:])

    def dump(self):
        return [[k, s, n, self.same.get(k, 0)] for k, (s, n) in self.p.items()]

    @classmethod
    def load(cls, results, key='_pairs'):
        I = cls()
        for r in results:
            for k, s, n, same in (r.get('stats') or {}).get(key) or []:
                t = I.p.setdefault(k, [0.0, 0])
                t[0] += s
                t[1] += n
                I.same[k] = I.same.get(k, 0) + same
        return I

    def judge(self, msgs, cov):
        for key, (s, n) in sorted(self.p.items()):
            z = s / n ** 0.5
            cov['pairs: ' + key] = [n, round(z, 3)]
            if n >= 50 and abs(z) > Z_LIMIT:
                msgs.append('%s are not independent: over %d pairs, their correlation is %.3f (z=%.1f)' % (key, n, s / n, z))
            if self.same.get(key, 0) > 2 + n // 200:
                msgs.append('%s are the same in %d of %d pairs, although they are drawn independently' % (key, self.same[key], n))
