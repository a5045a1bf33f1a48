"""What the cells inside an object must look like, given the shape of the
object and the parameter file.  Everything is judged from the output fields."""
import numpy as np
from hv import geom
from hv.work import angle_diff

AT = 1e-6      # degrees


def fac_ids(spec, e):
    h = spec['hyd']['hydrofacies']
    fac = [h.index(f) for f in e['facies']]
    alt = None if e['altfacies'] is None else [[h.index(f) for f in l] for l in e['altfacies']]
    lag = h.index(e['lag_facies']) if e.get('lag_facies') and e.get('lag_height') else None
    return fac, alt, lag


def rng(e, k):
    v = e[k]
    return (0.0, 0.0) if v is None else (min(v), max(v))


def const(v):
    return len(v) == 0 or np.all(v == v[0])


def where(idx, n=0):
    return '(%d, %d, %d)' % tuple(int(a[n]) for a in idx)


def layers(msgs, st, d, f, L, tol, fac, alt, what):
    if not np.all(np.isin(f, fac)):
        msgs.add('%s has a layer of facies %s, allowed are %s', what, sorted(set(f.tolist()) - set(fac)), fac)
        return
    ok, feas, n = geom.layer_consistent(d, f, L, tol)
    st['layer_boundaries'] = st.get('layer_boundaries', 0) + n
    if not ok:
        msgs.add('%s: the facies are not constant within parallel layers of thickness %.6g', what, L)
        return
    seq = geom.layer_sequence(d, f, L, feas, tol)
    good, npair = geom.transitions_ok(seq, fac, alt)
    st['layer_transitions'] = st.get('layer_transitions', 0) + npair
    if alt is None:
        for i in seq:
            pick(st, 'facies of layers', seq[i], fac)
    elif good and all(seq[i + 1] in alt[fac.index(seq[i])] for i in seq if i + 1 in seq):
        for i in seq:
            if i + 1 in seq:
                pick(st, 'facies of layers after another', seq[i + 1], alt[fac.index(seq[i])])
    if not good:
        msgs.add('%s: neighbouring layers do not alternate as altfacies demands (%s)', what, [seq[i] for i in sorted(seq)][:20])


def draw(st, key, u):
    st.setdefault('_u', {}).setdefault(key, []).append(float(u))
    if st.get('_at') is not None and 'layers' not in key and 'weights' not in key:
        facies = key.startswith('facies')
        st.setdefault('_d', []).append([st['_at'], 'facies' if facies else key, float(u) if facies else (float(u) - 0.5) * 12 ** 0.5])


def pick(st, key, f, fac):
    """which of the listed facies a massive object got, as a number in (0, 1) that is uniform on average"""
    if f not in fac or len(set(fac)) < 2:
        return
    u = sorted(set(fac))
    for kind, score in ((key, dict(zip(u, range(len(u))))), (key + ' (weights)', {x: fac.count(x) for x in u})):
        s = np.array([score[x] for x in fac], float)
        if s.std() > 0:
            draw(st, kind, (score[f] - s.mean()) / s.std())



def pooled(results, facies=('facies',)):
    """distribution of what was drawn: angles are uniform in their range, facies evenly distributed"""
    from hv import stats
    P = {}
    for r in results:
        for k, v in ((r.get('stats') or {}).get('_u') or {}).items():
            P.setdefault(k, []).extend(v)
    msgs, cov = [], {}
    independent(results, msgs, cov)
    kinds = [x for r in results for x in (r.get('stats') or {}).get('_kinds') or []]
    look = [x for r in results for x in (r.get('stats') or {}).get('_look') or []]
    if len(set(kinds)) > 1:
        n = len(kinds)
        cnt = {x: kinds.count(x) for x in sorted(set(kinds))}
        cov['structures_of_random_troughs'] = cnt
        for x in list(cnt) + ['others'] * (4 - len(cnt)):
            z = stats.zscore(cnt.get(x, 0), n / 4.0, n * 3 / 16.0)
            if abs(z) > stats.Z_LIMIT:
                msgs.append('of %d troughs with random structure, %s have each of its values (one of 4 is expected to occur %.1f times)' % (n, cnt, n / 4.0))
                break
    if look:
        cov['random_troughs_by_look'] = {nm: look.count(i) for i, nm in enumerate(('uniform', 'layered', 'bulb', 'layered bulb'))}
        if len(look) > 120:
            for i, nm in ((1, 'dipping layers'), (3, 'nested bulbs'), (0, 'a uniform inside')):
                if look.count(i) == 0:
                    msgs.append('of %d troughs with random structure, none has %s' % (len(look), nm))
    for k, v in sorted(P.items()):
        if k.startswith('facies'):
            z = stats.zscore(sum(v), 0.0, len(v))
            cov['z_' + k] = [len(v), round(z, 3)]
            if abs(z) > stats.Z_LIMIT:
                msgs.append('pooled over %d objects, %s are not drawn evenly from the list of the element (z=%.1f)' % (len(v), k, z))
            continue
        d = stats.ks_uniform(v)
        cov['ks_' + k] = [len(v), round(d, 3)]
        if d > stats.KS_LIMIT:
            msgs.append('pooled over %d objects, the drawn %s are not uniform in the given range (KS %.2f)' % (len(v), k, d))
    return msgs, cov


def independent(results, msgs, cov):
    """everything is drawn for every object and every quantity of its own"""
    from hv import stats
    I = stats.Independence()
    for r in results:
        V = {}
        for (ae, oi), key, z in (r.get('stats') or {}).get('_d') or []:
            V[ae, oi, key] = z
        keys = sorted({k[2] for k in V})
        for (ae, oi, key), z in V.items():
            I.add('%s of neighbouring objects' % key, z, V.get((ae, oi + 1, key)), key != 'facies')
            I.add('%s of objects and the next but one' % key, z, V.get((ae, oi + 2, key)), key != 'facies')
            I.add('%s of the first objects of neighbouring elements' % key, z if oi == 0 else None, V.get((ae + 1, 0, key)), False)
            for k2 in keys:
                if k2 > key:
                    I.add('%s and %s of an object' % (key, k2), z, V.get((ae, oi, k2)), key != 'facies')
    I.judge(msgs, cov)


def in_range(msgs, v, lo, hi, what, name, st=None):
    if st is not None and hi - lo > 0.5:
        draw(st, name, min(max((v - lo) / (hi - lo), 0.0), 1.0))
    t = AT * (1 + abs(lo) + abs(hi))
    if not (lo - t <= v <= hi + t):
        msgs.add('%s: %s %.9g is outside of the given range [%.9g, %.9g]', what, name, v, lo, hi)


def sheet(w, e, spec, msgs, st):
    el = w.elem(e.ae)
    c = w.cells_of(e)
    n = int(c.sum())
    if n == 0:
        return
    what = 'sheet %d of element %d (%s)' % (e.oi, e.ae, w.aes[e.ae][2].type_name)
    fac, alt, _ = fac_ids(spec, el)
    D = w.data
    f, az, dp = D['facies'][c], D['azim'][c], D['dip'][c]
    st['sheets'] = st.get('sheets', 0) + 1
    st['_at'] = (e.ae, e.oi)
    if not const(az) or not const(dp):
        msgs.add('%s: azimuth or dip vary inside of one sheet', what)
        return
    in_range(msgs, az[0], *rng(el, 'azimuth'), what, 'azimuth', st)
    in_range(msgs, dp[0], *rng(el, 'dip'), what, 'dip', st)
    if el['structure'] == 'massive':
        if not const(f) or f[0] not in fac:
            msgs.add('%s is massive but has facies %s (given: %s)', what, sorted(set(f.tolist())), fac)
        pick(st, 'facies of massive objects', int(f[0]), fac)
        return
    a, p = np.deg2rad(az[0]), np.deg2rad(dp[0])
    nv = (np.sin(p) * np.cos(a), -np.sin(p) * np.sin(a), np.cos(p))
    d = nv[0] * w.X[c] + nv[1] * w.Y[c] + nv[2] * w.Z[c]
    tol = 1e-9 * (1 + np.ptp(w.X) + np.ptp(w.Y) + np.ptp(w.Z)) + 1e-14 * (np.abs(w.X).max() + np.abs(w.Y).max() + np.abs(w.Z).max())
    layers(msgs, st, d, f, el['dipset_dist'], tol, fac, alt, what)


def bulb_angles(p, q, s, a, b, c, alpha):
    """(azimuth, dip) of the tangential plane; undefined where the normal is
    vertical or zero"""
    al = np.deg2rad(alpha)
    A, B, C = p / a, q / b, s / c
    ln = np.sqrt(A * A + B * B + C * C)
    ln[ln == 0] = 1
    nx = (A * np.cos(al) - B * np.sin(al)) / ln
    ny = (A * np.sin(al) + B * np.cos(al)) / ln
    nz = C / ln
    return nx, ny, nz


def trough(w, e, spec, msgs, st):
    el = w.elem(e.ae)
    c = w.cells_of(e)
    n = int(c.sum())
    if n == 0:
        return
    o = e.obj
    what = 'trough %d of element %d (%s)' % (e.oi, e.ae, w.aes[e.ae][2].type_name)
    fac, alt, lagf = fac_ids(spec, el)
    D = w.data
    F, AZ, DP = D['facies'], D['azim'], D['dip']
    dx, dy, dz, p, q, s, l = e.aux
    lag = el['lag_height'] or 0.0
    hgt = dz + o.c          # above the deepest point
    is_lag = c & (hgt < lag - w.zt)
    maybe = c & (np.abs(hgt - lag) <= w.zt) if lag else np.zeros_like(c)
    st['troughs'] = st.get('troughs', 0) + 1
    if el['structure'] == 'random':
        s_ = getattr(o, 'structure', None)
        if isinstance(s_, (int, str, np.integer)):
            st.setdefault('_kinds', []).append(str(s_))
        z = c & (hgt > lag + w.zt)
        if z.sum() >= 8 and el['dip'] is not None and min(map(abs, el['dip'])) > 1:
            va, vf = not const(np.abs(DP[z])), not const(F[z])
            st.setdefault('_look', []).append(2 * va + vf)
    if is_lag.any():
        st['lag_cells'] = st.get('lag_cells', 0) + int(is_lag.sum())
        if not np.all(F[is_lag] == lagf):
            msgs.add('%s: cells in the lag have facies %s instead of %s', what, sorted(set(F[is_lag].tolist())), lagf)
        if np.any(AZ[is_lag] != 0) or np.any(DP[is_lag] != 0):
            msgs.add('%s: cells in the lag have an azimuth or dip', what)
    b = c & ~is_lag & ~maybe
    if not b.any():
        return
    f, az, dp = F[b], AZ[b], DP[b]
    kinds = {'massive': ['massive'], 'flat': ['massive'], 'dip': ['dip'], 'bulb': ['bulb'], 'bulb_sets': ['bulb_sets'],
             'random': ['massive', 'dip', 'bulb', 'bulb_sets']}[el['structure']]
    tries = []
    for k in kinds:
        m = type(msgs)()
        s2 = {'_at': (e.ae, e.oi)}
        trough_kind(k, w, o, el, m, s2, b, f, az, dp, e.aux, fac, alt, what)
        tries.append((m, s2, k))
        if not m:
            break
    m, s2, k = min(tries, key=lambda t: len(t[0]))
    if m:
        for x in m:
            msgs.add('%s', x)
    else:
        del s2['_at']
        for kk, v in s2.items():
            if kk == '_d':
                if len(kinds) == 1:
                    st.setdefault('_d', []).extend(v)
            elif kk == '_u':
                if len(kinds) == 1:       # (else several structures may fit)
                    for a, lst in v.items():
                        st.setdefault('_u', {}).setdefault(a, []).extend(lst)
            else:
                st[kk] = st.get(kk, 0) + v
        st['structure_' + k] = st.get('structure_' + k, 0) + 1


def trough_kind(kind, w, o, el, msgs, st, b, f, az, dp, aux, fac, alt, what):
    dx, dy, dz, p, q, s, l = aux
    if kind in ('massive', 'dip'):
        if not const(az) or not const(dp):
            msgs.add('%s: azimuth or dip vary inside of one %s trough', what, kind)
            return
        lo, hi = rng(el, 'azimuth')
        da = az[0] - o.alpha
        t = AT * 10
        # azimuths are equal modulo 360
        fit = [da + 360 * k for k in (-2, -1, 0, 1, 2) if lo - t <= da + 360 * k <= hi + t]
        if len(fit) == 1 and hi - lo > 0.5:
            draw(st, 'azimuth', min(max((fit[0] - lo) / (hi - lo), 0.0), 1.0))
        if not fit:
            msgs.add('%s: azimuth %.9g minus orientation %.9g is outside of the given range [%.9g, %.9g]', what, az[0], o.alpha, lo, hi)
        in_range(msgs, dp[0], *rng(el, 'dip'), what, 'dip', st)
        if kind == 'massive':
            if not const(f) or f[0] not in fac:
                msgs.add('%s is massive but has facies %s (given: %s)', what, sorted(set(f.tolist())), fac)
            pick(st, 'facies of massive objects', int(f[0]), fac)
            return
        a, ps = np.deg2rad(az[0]), np.deg2rad(dp[0])
        d = np.sin(ps) * np.cos(a) * dx[b] - np.sin(ps) * np.sin(a) * dy[b] + np.cos(ps) * dz[b]
        layers(msgs, st, d, f, el['dipset_dist'], 1e-8 * (1 + max(o.a, o.b, o.c)), fac, alt, what)
        return
    nx, ny, nz = bulb_angles(p[b].copy(), q[b].copy(), s[b].copy(), o.a, o.b, o.c, o.alpha)
    want = np.rad2deg(np.arccos(np.clip(np.abs(nz), 0, 1)))
    lo, hi = rng(el, 'dip')
    big = np.sqrt(nx * nx + ny * ny) > 1e-6
    ok_sign = big & (np.abs(nx) > 1e-6)
    # every dip is the dip of the tangential plane, limited by one common value
    got = np.abs(dp)
    tol = 1e-4
    free = got < want - tol
    if np.any(got > want + tol):
        i = int(np.argmax(got - want))
        msgs.add('%s: dip %.6g is steeper than the bulb (%.6g)', what, dp[i], want[i])
    if free.any():
        lim = got[free]
        if lim.max() - lim.min() > tol:
            msgs.add('%s: dips are limited at different angles (%.6g .. %.6g)', what, lim.min(), lim.max())
        if not lo - tol <= lim[0] <= hi + tol:
            msgs.add('%s: dips are limited at %.6g, but the range of the maximum dip is [%.6g, %.6g]', what, lim[0], lo, hi)
        if np.any(got > lim.max() + tol):
            msgs.add('%s: dips exceed their limit', what)
    if np.any(got > hi + tol):
        msgs.add('%s: dip %.6g exceeds the maximum dip %.6g', what, got.max(), hi)
    # the normal vector of the bedding points to the side to which the (upward) normal vector of the bulb points
    chk = big & (np.abs(nz) > 1e-6) & (got > tol)
    hl = np.where(big, np.sqrt(nx * nx + ny * ny), 1.0)
    side = np.sign(dp) * np.sign(nz) * (np.cos(np.deg2rad(az)) * nx - np.sin(np.deg2rad(az)) * ny) / hl
    bad = chk & ~(side > 1 - 1e-6)
    if bad.any():
        i = int(np.argmax(bad))
        msgs.add('%s: azimuth %.6g and dip %.6g are those of a bed that faces another direction than the bulb, whose normal vector is '
                 '(%.6g, %.6g, %.6g)', what, az[i], dp[i], nx[i], ny[i], nz[i])
    st['bulb_beds'] = st.get('bulb_beds', 0) + int(chk.sum())
    st['bulb_beds_along_y'] = st.get('bulb_beds_along_y', 0) + int((chk & (np.abs(nx) <= 1e-9)).sum())
    wa = -np.rad2deg(np.arctan2(np.sign(nx) * ny, np.abs(nx)))
    bad = ok_sign & (angle_diff(az, wa) > 1e-3)
    if not np.isfinite(az).all() or not np.isfinite(dp).all():
        msgs.add('%s: an azimuth or dip is not a number', what)
    if bad.any():
        i = int(np.argmax(bad))
        msgs.add('%s: azimuth %.6g, but the bulb has %.6g there', what, az[i], wa[i])
    st['bulb_cells'] = st.get('bulb_cells', 0) + int(ok_sign.sum())
    if kind == 'bulb':
        if not const(f) or f[0] not in fac:
            msgs.add('%s is a single bulb but has facies %s (given: %s)', what, sorted(set(f.tolist())), fac)
        pick(st, 'facies of bulbs', int(f[0]), fac)
    else:
        layers(msgs, st, l[b] * o.c, f, el['bulbset_dist'], 1e-8 * (1 + o.c), fac, alt, what)


def channel(w, e, spec, msgs, st):
    el = w.elem(e.ae)
    c = w.cells_of(e)
    if not c.any() or e.aux is None:
        return
    o = e.obj
    what = 'channel %d of element %d (%s)' % (e.oi, e.ae, w.aes[e.ae][2].type_name)
    fac, alt, lagf = fac_ids(spec, el)
    D = w.data
    F, AZ, DP = D['facies'], D['azim'], D['dip']
    d2, near, dist, dz = e.aux
    lag = el['lag_height'] or 0.0
    hgt = dz + o.depth
    is_lag = c & (hgt < lag - w.zt)
    maybe = c & (np.abs(hgt - lag) <= w.zt) if lag else np.zeros_like(c)
    st['channels'] = st.get('channels', 0) + 1
    st['_at'] = (e.ae, e.oi)
    if is_lag.any():
        st['lag_cells'] = st.get('lag_cells', 0) + int(is_lag.sum())
        if not np.all(F[is_lag] == lagf):
            msgs.add('%s: cells in the lag have facies %s instead of %s', what, sorted(set(F[is_lag].tolist())), lagf)
        if np.any(AZ[is_lag] != 0) or np.any(DP[is_lag] != 0):
            msgs.add('%s: cells in the lag have an azimuth or dip', what)
    b = c & ~is_lag & ~maybe
    if not b.any():
        return
    f, az, dp = F[b], AZ[b], DP[b]
    if not const(dp):
        msgs.add('%s: the dip varies inside of one channel', what)
        return
    in_range(msgs, dp[0], *rng(el, 'dip'), what, 'dip', st)
    if el['structure'] == 'massive':
        if not const(f) or f[0] not in fac:
            msgs.add('%s is massive but has facies %s (given: %s)', what, sorted(set(f.tolist())), fac)
        pick(st, 'facies of massive objects', int(f[0]), fac)
        if not const(az):
            msgs.add('%s is massive but its azimuth varies', what)
        else:
            in_range(msgs, az[0], *rng(el, 'azimuth'), what, 'azimuth', st)
        return
    # azimuth: inverse distance weighted flow direction
    xc, yc = np.asarray(o.x_center), np.asarray(o.y_center)
    vx, vy = np.asarray(o.vx), np.asarray(o.vy)
    wt = 1.0 / (np.sqrt(d2) + 1e-20)
    wx = (wt * vx).sum(axis=2) / wt.sum(axis=2)
    wy = (wt * vy).sum(axis=2) / wt.sum(axis=2)
    okv = np.hypot(wx, wy) > 1e-6 * np.hypot(vx, vy).max()
    wa = np.rad2deg(np.arctan2(wy, wx))
    ii = np.where(b)
    wab = wa[ii[0], ii[1]]
    bad = okv[ii[0], ii[1]] & (angle_diff(az, wab) > 1e-5)
    if bad.any():
        i = int(np.argmax(bad))
        msgs.add('%s: azimuth %.9g, but the flow direction is %.9g', what, az[i], wab[i])
    st['flow_cells'] = st.get('flow_cells', 0) + int(b.sum())
    along = np.concatenate([[0.0], np.cumsum(np.hypot(np.diff(xc), np.diff(yc)))])
    ps = np.deg2rad(dp[0])
    # cells with two equally close centreline points are not judged
    part = np.partition(np.sqrt(d2), min(1, d2.shape[2] - 1), axis=2)
    uniq = (part[:, :, 1] - part[:, :, 0] > 1e-9) if d2.shape[2] > 1 else np.ones(near.shape, bool)
    k = uniq[ii[0], ii[1]]
    d = along[near[ii[0], ii[1]]] * np.sin(ps) + dz[b] * np.cos(ps)
    layers(msgs, st, d[k], f[k], el['dipset_dist'], 1e-8 * (1 + along[-1]), fac, alt, what)
