"""C28: plots of cross sections."""
import contextlib
import io
import os
import numpy as np
from hv import work, gen, obs, sut
BUILD = None
RULE = ('random models of sheets, random fields, coordinates inside, on the sides and outside of the domain, as default, number, list or '
        'empty list, with and without logarithm, also of tiny values, with and without limits of the axes (also reversed): every drawn polygon is compared with the value of '
        'the cell at its position in the requested slice, axis limits and labels with the request, figures are displayed and the model '
        'is left unchanged; distinct by grid and arguments')
ASSUMPTIONS = ['any backend without a window', 'coordinates on the side between two cells may show either']


def cases(tier, seed):
    return work.seeds('C28', seed, work.n_cases(tier, 120, 2500))


LIMS = []      # (section, limits of its axes)
HOOK = [lambda: None]
AXES = {}      # section: its figure and axes


def drawn(known):
    """adds [(horizontal, vertical, value)] of every new figure that shows data"""
    import matplotlib.pyplot as plt
    for n in plt.get_fignums():
        fig = plt.figure(n)
        if any(f is fig for f, _ in known):
            continue
        out = []
        known.append((fig, out))
        for ax in fig.axes:
            if ax.get_label() == '<colorbar>':
                continue
            for c in ax.collections:
                a = c.get_array()
                if a is None:
                    continue
                a = np.ma.filled(np.ma.asarray(a, float).ravel(), np.nan)
                P = c.get_paths()
                if len(P) != len(a):
                    continue
                out.append([(*(p.vertices[:4].mean(axis=0)), v) for p, v in zip(P, a)])
                LIMS.append((id(out[-1]), ax.get_xlim(), ax.get_ylim()))
                AXES[id(out[-1])] = (fig, ax)
            for im in ax.images:
                a = np.ma.filled(np.ma.asarray(im.get_array(), float), np.nan)
                if a.ndim != 2:
                    raise sut.Inconclusive('the section is drawn as an image in colours')
                l, rt, b, t = im.get_extent()
                if im.origin == 'upper':
                    a = a[::-1]
                X = l + (np.arange(a.shape[1]) + 0.5) * (rt - l) / a.shape[1]
                Y = b + (np.arange(a.shape[0]) + 0.5) * (t - b) / a.shape[0]
                out.append([(x, y, a[j, i]) for j, y in enumerate(Y) for i, x in enumerate(X)])
                LIMS.append((id(out[-1]), ax.get_xlim(), ax.get_ylim()))
                AXES[id(out[-1])] = (fig, ax)


def run_case(case, tmp):
    os.environ['MPLCONFIGDIR'] = tmp
    r = work.rnd(case)
    spec = gen.make(case['seed'], size='tiny', geometries=('sheet',))
    g = spec['grid']
    if r.random() < 0.3:
        # zero is a coordinate like any other
        for a in 'xy':
            g[a + '0'] = spec['model'][a + '0'] = -(r.randrange(g['n' + a]) + r.uniform(0.1, 0.9)) * g['d' + a]
    o = obs.run_spec(spec, tmp, work.npseed(case), r=r)
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    if not hasattr(plt.show, 'hv'):
        # once, before the program can import the name
        real = plt.show

        def show(*a, **k):
            HOOK[0]()
            return real(*a, **k)
        show.hv = True
        plt.show = show
    try:
        from hyvr.postprocess.plotting import cross_section_pcolor as plot
    except ImportError as e:
        raise sut.SUTError(e)
    D = o.data
    m, st = work.Msgs(), {'figures': 0, 'polygons': 0, 'outside': 0}
    before = {k: np.array(v) for k, v in obs.attr(o.model, 'data').items()}
    log = r.random() < 0.3
    field = r.choice(['k_iso', 'poros'] if log else [k for k in D if D[k].ndim == 3])
    if log and r.random() < 0.4:
        # also of values close to nothing
        f = 10.0 ** -r.randint(5, 40)
        o.model.data[field] = o.model.data[field] * f
        before[field] = np.array(o.model.data[field])
        D = dict(D, **{field: before[field]})
    kw, want = {}, []
    for ax in 'yx':
        o0, d, l, n = g[ax + '0'], g['d' + ax], g['l' + ax], g['n' + ax]

        def coord():
            k = r.random()
            if o0 < 0 < o0 + l and r.random() < 0.3:
                return 0.0
            if k < 0.7:
                return o0 + (r.randrange(n) + r.uniform(0.02, 0.98)) * d
            if k < 0.85:
                return r.choice([o0 - r.uniform(0.02, 2) * d, o0 + l + r.uniform(0.02, 2) * d, o0 - 3 * l - d, o0 + 5 * l])
            return o0 + r.randint(0, n) * d
        k = r.random()
        if k < 0.2:
            vals = [o0 + l / 2]
        elif k < 0.35:
            vals = kw[ax] = []
        elif k < 0.6:
            vals = [coord()]
            kw[ax] = vals[0]
        else:
            vals = [coord() for _ in range(r.randint(1, 3))]
            kw[ax] = r.choice([list, tuple, np.array])(vals)
        want += [(ax, v) for v in vals]
    lims = {}
    for ax in 'xy':
        for c in 'xy':
            if r.random() < 0.25:
                a = r.uniform(-50, 50)
                b = [a, a + r.uniform(1, 30)]
                if r.random() < 0.3:
                    b.reverse()          # an axis may run the other way
                lims['%slim_%s' % (c, ax)] = r.choice([list, tuple])(b)
    plt.close('all')
    known = []
    LIMS.clear()
    AXES.clear()
    displayed = []

    def shown():
        drawn(known)
        displayed.extend(plt.figure(n) for n in plt.get_fignums())
    HOOK[0] = shown
    from matplotlib.figure import Figure
    fig_show = Figure.show

    def figure_shown(self, *a, **k):
        drawn(known)
        displayed.append(self)
    Figure.show = figure_shown
    err = io.StringIO()
    try:
        with contextlib.redirect_stderr(err):
            sut.call(plot, o.model, field, log=log, **kw, **lims)
        drawn(known)
        figs = [s for _, lst in known for s in lst]
    finally:
        HOOK[0] = lambda: None
        Figure.show = fig_show
        plt.close('all')
    exp = []
    for ax, v in want:
        q = (v - g[ax + '0']) / g['d' + ax]
        n = g['n' + ax]
        t = 1e-6
        ok = sorted({int(np.floor(q - t)), int(np.floor(q + t))})
        on_side = any(abs(q - e) <= t for e in (0, n))
        ok = [k for k in ok if 0 <= k < n]
        exp.append((ax, v, ok, on_side))
    st['outside'] = sum(not e[2] for e in exp)
    exp = [e for e in exp if e[2]]
    fits = {}

    def fit(j, i):
        """None when figure i shows section j"""
        if (j, i) not in fits:
            ax, v, ok, _ = exp[j]
            bad = None
            for k in ok:
                bad = compare(figs[i], D[field], g, ax, k, log)
                if bad is None:
                    break
            fits[j, i] = bad
        return fits[j, i]

    def match(j, i):
        """can sections j.. be figures i..? Sections on the side of the domain may count as outside."""
        if j == len(exp):
            return i == len(figs)
        if i < len(figs) and fit(j, i) is None and match(j + 1, i + 1):
            return True
        return exp[j][3] and match(j + 1, i)
    if match(0, 0):
        for i, f in enumerate(figs):
            fig, axes = AXES[id(f)]
            if not any(fig is x for x in displayed):
                m.add('field %s, arguments %s: section %d is drawn but never displayed', field, kw, i + 1)
            st['displayed'] = st.get('displayed', 0) + 1
            if not any(e[3] for e in exp):
                # which section of what it is can be read
                ax, v = exp[i][:2]
                if field not in axes.get_title() or '%.2f' % v not in axes.get_title():
                    m.add('the section of %s at %s = %.2f has the title %r', field, ax, v, axes.get_title())
                lab = axes.get_xlabel(), axes.get_ylabel()
                if lab != ('x' if ax == 'y' else 'y', 'z'):
                    m.add('the axes of the section at %s = %.2f have the labels %r', ax, v, lab)
        st['figures'] += len(figs)
        st['polygons'] += sum(len(f) for f in figs)
    elif len(figs) != len(exp):
        m.add('field %s, arguments %s: %d sections are drawn instead of %d (%s)', field, kw, len(figs), len(exp), err.getvalue()[-120:])
    else:
        for j in range(len(exp)):
            if fit(j, j) is not None and not exp[j][3]:
                m.add('field %s at %s = %.6g (log: %s): %s', field, exp[j][0], exp[j][1], log, fit(j, j))
                break
        else:
            m.add('field %s, arguments %s: the sections are not those requested', field, kw)
    if not m and lims:
        # sections come in the order in which they are requested, those at y first
        got = {i: v for i, *v in LIMS}
        n_y = [e[3] for e in exp if e[0] == 'y']
        if not any(e[3] for e in exp):
            for i, f in enumerate(figs):
                ax = 'y' if i < len(n_y) else 'x'
                for c, v in zip('xy', got.get(id(f), ())):
                    w = lims.get('%slim_%s' % (c, ax))
                    if w is not None:
                        st['limits'] = st.get('limits', 0) + 1
                        if np.max(np.abs(np.array(v) - np.array(w))) > 1e-9 * (1 + np.max(np.abs(w))):
                            m.add('the %s-axis of a section at %s has the limits %s instead of %s', c, ax, tuple(v), tuple(w))
    if not m and st['outside'] and not err.getvalue().strip():
        m.add('a coordinate outside of the domain is not reported: %s', kw)
    after = o.model.data
    for k in before:
        if k not in after or not np.array_equal(before[k], after[k], equal_nan=before[k].dtype.kind == 'f'):
            m.add('plotting changed the field %s', k)
    return {'violations': m, 'stats': st, 'sig': [g['nx'], g['ny'], g['nz'], field, log, str(kw)] if want else None,
            'sample': {'field': field, 'log': log, 'sections': [(a, round(v, 4)) for a, v in want]}}


def compare(fig, A, g, ax, k, log):
    other = 'x' if ax == 'y' else 'y'
    S = np.asarray(A[:, k, :] if ax == 'y' else A[k, :, :], float)
    n, nz = S.shape
    if len(fig) != n * nz:
        return '%d cells are drawn instead of %d' % (len(fig), n * nz)
    if log:
        S = np.log10(S)
    seen = set()
    ratio = []
    for i, (u, z, v) in enumerate(fig):
        a = (u - g[other + '0']) / g['d' + other] - 0.5
        c = (z - g['z0']) / g['dz'] - 0.5
        if n == 1:
            a = 0.0              # the width of a single cell is not known to matplotlib
        a, c = (int(round(a)), a), (int(round(c)), c)
        if abs(a[0] - a[1]) > 1e-4 or abs(c[0] - c[1]) > 1e-4 or not (0 <= a[0] < n and 0 <= c[0] < nz):
            return 'a cell is drawn at (%.6g, %.6g), where no cell centre is' % (u, z)
        seen.add((a[0], c[0]))
        w = S[a[0], c[0]]
        if log:
            ratio.append((v, w))
        elif not abs(v - w) <= 1e-9 * (1 + abs(w)):
            return 'the cell at (%.6g, %.6g) has value %.9g instead of %.9g' % (u, z, v, w)
    if len(seen) != n * nz:
        return 'only %d of %d cells are drawn' % (len(seen), n * nz)
    if log:
        q = np.array(ratio)
        big = np.abs(q[:, 1]) > 1e-6
        f = (q[big, 0] / q[big, 1]) if big.any() else np.ones(1)
        if not (f.min() > 0 and f.max() - f.min() < 1e-6 * f.max()):
            return 'the values are not the logarithm of the field'
        if abs(f[0] - 1) > 1e-6:
            return 'the values are not the decadic logarithm of the field (factor %.6g)' % f[0]
    return None
