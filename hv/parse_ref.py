"""Random option definitions with the value a user writes and the value the
parser has to deliver.  Nothing here uses the parser."""
import random

WORDS = ['a', 'sG', 'x_1', 'lens', 'B2', 'flat', 'zz.9', 'Q-r', '7up', 'fS', 'two words', 'sand (fine)', '"q"', "it's", "'s'", 'True', '12', '1_000']


def scalar(r, dt):
    """(text, value)"""
    if dt is int:
        v = r.choice([0, 1, -3, 42, r.randint(-999, 999), r.randint(-999, 999), r.randint(10 ** 16, 10 ** 18)])
        return r.choice([str(v), '%+d' % v if v else str(v)]), v
    if dt is float:
        k = r.random()
        if k < 0.25:
            v = r.randint(-50, 50)
            return str(v), float(v)
        if k < 0.5:
            t = r.choice(['%de%d', '%d.e%d', '.%de%d', '%d.5E%d', '-%d.25e%d']) % (r.randint(1, 99), r.choice([r.randint(-12, 8), -300, 290]))
            return t, float(t)
        v = r.uniform(-1e3, 1e3)
        return repr(v), v
    w = r.choice(WORDS)
    return w, w


def nested(r, dims, dt, ragged=None):
    """random nested value with these dimensions; -1: any length >= 1.
    ragged: dimensions that may differ inside of one value"""
    fix = {}

    def rec(i):
        if i == len(dims):
            return scalar(r, dt)
        n = dims[i]
        if n == -1:
            if ragged and i in ragged:
                n = r.randint(1, 4)
            else:
                n = fix.setdefault(i, r.randint(1, 4))
        items = [rec(i + 1) for _ in range(n)]
        return [x[0] for x in items], [x[1] for x in items]
    return rec(0)


def like(r, ref, dt):
    """value with the shape of the nested list ref"""
    if not isinstance(ref, list):
        return scalar(r, dt)
    items = [like(r, x, dt) for x in ref]
    return [x[0] for x in items], [x[1] for x in items]


def fill(ref, v):
    """nested list with the shape of ref where the lowest levels are v"""
    if not isinstance(ref, list):
        return v
    return [fill(x, v) for x in ref]


def text(t, r, lines=None):
    """lines: lists may be broken into several (indented) lines"""
    if lines is None:
        lines = r.random() < 0.15
    sp = lambda: r.choice(['', '', '\n   ', '\n\t', ' \n ', '\t']) if lines and r.random() < 0.4 else ' ' * r.choice([0, 0, 0, 1, 2])
    if isinstance(t, list):
        return '[' + sp() + (',').join(sp() + text(x, r, lines) + sp() for x in t) + ']'
    return t


def expand(v, lead):
    for n in reversed(lead):
        v = [v for _ in range(n)]
    return v


def shape_of(v):
    """expanded shape notation of the documentation"""
    def depth(x):
        return 1 + depth(x[0]) if isinstance(x[0], list) else 1
    d = depth(v)

    def cut(x, k):
        # lengths at level k
        return len(x) if k == 0 else [cut(y, k - 1) for y in x]
    return [cut(v, k) for k in range(d)]


def flat_shape(r):
    nd = r.choice([1, 1, 2, 2, 2, 3, 3, 4])
    dims = [r.randint(1, 4) for _ in range(nd)]
    if nd < 4:
        for i in range(nd):
            if r.random() < 0.3:
                dims[i] = -1
    return dims


def list_option(r, known):
    """known: dict name -> parsed nested value of earlier list options.
    returns dict(shape, dt, text, value, how)"""
    dt = r.choice([int, float, str])
    k = r.random()
    if k < 0.12:
        nd = r.randint(0, 3)
        t, v = nested(r, [-1] * nd, dt, ragged=range(1, nd))
        return dict(shape=-1, dt=dt, text=t, value=v if nd else [v], how='any')
    if k < 0.30 and known:
        name = r.choice(sorted(known))
        ref = known[name]
        if r.random() < 0.5:
            t, v = like(r, ref, dt)
            return dict(shape=name, dt=dt, text=t, value=v, how='same-as')
        t, v = scalar(r, dt)
        return dict(shape=name, dt=dt, text=t, value=fill(ref, v), how='same-as-expanded')
    if k < 0.42:
        # expanded notation
        nd = r.randint(1, 3)
        t, v = nested(r, [-1] * nd, dt, ragged=range(1, nd))
        sh = shape_of(v)
        if r.random() < 0.3:
            t, x = scalar(r, dt)
            return dict(shape=sh, dt=dt, text=t, value=fill(v, x), how='explicit-expanded')
        return dict(shape=sh, dt=dt, text=t, value=v, how='explicit')
    dims = flat_shape(r)
    shape = list(dims)
    # replace fixed dimensions by the name of an option of this length
    for i, n in enumerate(dims):
        names = [x for x in sorted(known) if len(known[x]) == n]
        if n > 0 and names and r.random() < 0.4:
            shape[i] = r.choice(names)
    minus = [i for i, n in enumerate(dims) if n == -1]
    # how many leading dimensions may be left out: those before the first -1
    can = minus[0] if minus else len(dims)
    drop = r.randint(0, can) if r.random() < 0.6 else 0
    sub = dims[drop:]
    rag = [i for i in range(1, len(sub))] if drop == 0 else [i for i in range(1, len(sub)) if i == len(sub) - 1]
    if r.random() < 0.4:
        rag = []
    t, v = nested(r, sub, dt, ragged=rag)
    val = expand(v, dims[:drop])
    if len(dims) == 1 and dims[0] > 0 and shape[0] == dims[0] and r.random() < 0.5:
        shape = shape[0]          # plain integer notation
    return dict(shape=shape, dt=dt, text=t, value=val, how='drop%d/%d%s' % (drop, len(dims), 'r' if minus else ''))


BOOLS = [('true', True), ('True', True), ('TRUE', True), ('yes', True), ('Yes', True), ('1', True),
         ('false', False), ('False', False), ('no', False), ('NO', False), ('0', False)]


def same(a, b):
    if isinstance(b, (list, tuple)) or isinstance(a, (list, tuple)):
        return isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b) and \
            all(same(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b
