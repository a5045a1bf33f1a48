"""Reference geometry: which cells lie inside which generated object, computed
independently of the code under test (vectorised, from the definition of the
shapes), with an explicit 'too close to call' class for rounding."""
import numpy as np
from hv import sut
from hv.obs import attr, surf, all_aes, grid_centers

TOL = 1e-9


class Ent:
    """one object (sheet, trough, channel) or the background of an AE"""
    __slots__ = ('ae', 'oi', 'obj', 'kind', 'inside', 'amb', 'aux')


class World:
    def __init__(self, spec, model, data=None):
        self.spec, self.model, self.data = spec, model, data
        g = self.g = spec['grid']
        self.x, self.y, self.z = grid_centers(g)
        self.shape = (g['nx'], g['ny'], g['nz'])
        self.scale = max(g['lz'], abs(g['z0']), 1.0)
        self.zt = TOL * self.scale
        self.X = self.x[:, None, None] + np.zeros(self.shape)
        self.Y = self.y[None, :, None] + np.zeros(self.shape)
        self.Z = self.z[None, None, :] + np.zeros(self.shape)
        self.aes = all_aes(model)
        self.by_num = {int(attr(ae, 'num')): k for k, (_, _, ae) in enumerate(self.aes)}
        self.ents = []          # per global AE index: list of Ent, objects in order, then background or None

    def geometry(self, k):
        name = attr(self.aes[k][2], 'type_name')
        return self.spec['elements'][name]['geometry']

    def elem(self, k):
        return self.spec['elements'][attr(self.aes[k][2], 'type_name')]

    # -- shapes ------------------------------------------------------------
    def between(self, bottom, top):
        b, t = surf(bottom)[:, :, None], surf(top)[:, :, None]
        inside = (self.Z >= b) & (self.Z <= t)
        amb = (np.abs(self.Z - b) < self.zt) | (np.abs(self.Z - t) < self.zt)
        # only ambiguous if it may be inside at all
        amb &= (self.Z >= b - self.zt) & (self.Z <= t + self.zt)
        return inside, amb

    def trough_local(self, o):
        """(dx, dy, dz) to the nearest image of the centre"""
        g = self.g
        dx, dy, dz = self.X - attr(o, 'x'), self.Y - attr(o, 'y'), self.Z - attr(o, 'z')
        if self.spec['model']['periodic']:
            dx = dx - g['lx'] * np.round(dx / g['lx'])
            dy = dy - g['ly'] * np.round(dy / g['ly'])
        return dx, dy, dz

    def trough(self, o):
        dx, dy, dz = self.trough_local(o)
        al = np.deg2rad(attr(o, 'alpha'))
        a, b, c = attr(o, 'a'), attr(o, 'b'), attr(o, 'c')
        p = (dx * np.cos(al) + dy * np.sin(al)) / a
        q = (-dx * np.sin(al) + dy * np.cos(al)) / b
        s = dz / c
        l2 = p * p + q * q + s * s
        zt = self.zt / c
        inside = (l2 <= 1) & (s <= 0)
        tol = 1e-7
        amb = ((np.abs(l2 - 1) < tol) & (s <= zt)) | ((np.abs(s) < zt) & (l2 <= 1 + tol))
        if self.spec['model']['periodic']:
            g = self.g
            if max(a, b) > min(g['lx'], g['ly']) * 0.4999:
                # a cell may also lie in an image whose centre is not the nearest
                for i in (-1, 0, 1):
                    for j in (-1, 0, 1):
                        ex, ey = dx + i * g['lx'], dy + j * g['ly']
                        pp = (ex * np.cos(al) + ey * np.sin(al)) / a
                        qq = (-ex * np.sin(al) + ey * np.cos(al)) / b
                        amb |= (pp * pp + qq * qq + s * s <= 1 + tol) & (s <= zt) & ~inside
                        # and between two centres either may be nearest
                        tie = ((np.abs(np.abs(dx) - g['lx'] / 2) < tol * g['lx']) | (np.abs(np.abs(dy) - g['ly'] / 2) < tol * g['ly']))
                        amb |= tie & (s <= zt)
        return inside, amb, (dx, dy, dz, p, q, s, np.sqrt(l2))

    def channel(self, o):
        xc, yc = np.asarray(attr(o, 'x_center')), np.asarray(attr(o, 'y_center'))
        shp2 = self.shape[:2]
        if len(xc) == 0:
            f = np.zeros(self.shape, bool)
            return f, f.copy(), None
        d2 = (self.x[:, None, None] - xc) ** 2 + (self.y[None, :, None] - yc) ** 2
        near = np.argmin(d2, axis=2)
        d = np.sqrt(np.min(d2, axis=2))
        width, depth, ztop = attr(o, 'width'), attr(o, 'depth'), attr(o, 'ztop')
        floor = 4 * depth / width ** 2 * d ** 2 - depth
        dz = self.Z - ztop
        inside = (dz <= 0) & (dz >= floor[:, :, None])
        ft = self.zt + 1e-9 * np.abs(floor)[:, :, None]
        amb = ((np.abs(dz) < self.zt) | (np.abs(dz - floor[:, :, None]) < ft)) & \
              (dz <= self.zt) & (dz >= floor[:, :, None] - ft)
        return inside, amb, (d2, near, d, dz)

    # -- everything --------------------------------------------------------
    def build(self):
        for k, (si, ai, ae) in enumerate(self.aes):
            geo = self.geometry(k)
            lst = []
            for oi, o in enumerate(attr(ae, 'object_list')):
                e = Ent()
                e.ae, e.oi, e.obj, e.kind, e.aux = k, oi, o, geo, None
                if geo == 'sheet':
                    e.inside, e.amb = self.between(attr(o, 'bottom_surface'), attr(o, 'top_surface'))
                elif geo == 'trough':
                    e.inside, e.amb, e.aux = self.trough(o)
                else:
                    e.inside, e.amb, e.aux = self.channel(o)
                lst.append(e)
            if geo != 'sheet':
                e = Ent()
                e.ae, e.oi, e.obj, e.kind, e.aux = k, None, None, 'bg', None
                e.inside, e.amb = self.between(attr(ae, 'bottom_surface'), attr(ae, 'top_surface'))
                lst.append(e)
            self.ents.append(lst)
        return self

    def ha_of(self, e):
        return -1 if e.kind == 'bg' else int(attr(e.obj, 'num_ha'))

    def check_assignment(self, max_msgs=3):
        """every cell belongs to the first entity (from top to bottom, AE by AE,
        objects before background) at or below the AE of the cell above it that
        contains it.  Returns (messages, stats)."""
        D = self.data
        ae_arr, ha_arr = D['ae'], D['ha']
        nx, ny, nz = self.shape
        msgs = []
        st = {'cells': 0, 'ambiguous_cells': 0, 'object_cells': 0, 'background_cells': 0, 'eroded_cells': 0}
        nA = len(self.aes)
        first = np.full((nA,) + self.shape, -1, dtype=int)
        anyamb = np.zeros(self.shape, bool)
        for k, lst in enumerate(self.ents):
            for j, e in enumerate(lst):
                m = (first[k] == -1) & e.inside
                first[k][m] = j
                anyamb |= e.amb
        for i in range(nx):
            for j in range(ny):
                cur = 0
                for kz in range(nz - 1, -1, -1):
                    st['cells'] += 1
                    got = self.by_num.get(int(ae_arr[i, j, kz]))
                    if got is None:
                        msgs.append('cell %s has ae=%d, which is no generated element' % ((i, j, kz), ae_arr[i, j, kz]))
                        if len(msgs) >= max_msgs:
                            return msgs, st
                        continue
                    gha = int(ha_arr[i, j, kz])
                    accept = []
                    for k in range(cur, nA):
                        f = first[k, i, j, kz]
                        if not anyamb[i, j, kz]:
                            if f >= 0:
                                accept.append((k, f))
                                break
                            continue
                        done = False
                        for jj, e in enumerate(self.ents[k]):
                            if e.amb[i, j, kz]:
                                accept.append((k, jj))
                            elif e.inside[i, j, kz]:
                                accept.append((k, jj))
                                done = True
                                break
                        if done:
                            break
                    if anyamb[i, j, kz]:
                        st['ambiguous_cells'] += 1
                    want = [(k, self.ha_of(self.ents[k][jj])) for k, jj in accept]
                    if (got, gha) not in want:
                        msgs.append('cell %s at z=%.6g is assigned to ae %d / object %d, but belongs to %s (ae, object)' % (
                            (i, j, kz), self.z[kz], got, gha, want[:3]))
                        if len(msgs) >= max_msgs:
                            return msgs, st
                    st['object_cells' if gha >= 0 else 'background_cells'] += 1
                    if got < nA:
                        b = surf(attr(self.aes[got][2], 'bottom_surface'))[i, j]
                        if self.z[kz] < b - self.zt:
                            st['eroded_cells'] += 1
                    cur = got
        return msgs, st

    def cells_of(self, e):
        """cells the *output* assigns to this entity"""
        num = int(attr(self.aes[e.ae][2], 'num'))
        return (self.data['ae'] == num) & (self.data['ha'] == self.ha_of(e))


# -- parallel layers -----------------------------------------------------------

def layer_consistent(d, f, L, tol):
    """d: positions along the normal, f: facies.  Is there an offset s such that
    the facies is constant in every layer [s+kL, s+(k+1)L)?  Returns
    (ok, feasible intervals of s mod L, number of boundaries seen)."""
    o = np.argsort(d, kind='stable')
    d, f = d[o], f[o]
    # collapse positions that are equal up to rounding; different facies at the
    # same position is only possible if a boundary runs through it
    feas = [(0.0, L)]
    n = 0
    i = 0
    for a in range(len(d) - 1):
        if f[a] != f[a + 1]:
            n += 1
            lo, hi = d[a] - tol, d[a + 1] + tol
            if hi - lo >= L:
                continue
            m = lo % L
            segs = [(m, min(L, m + hi - lo))]
            if m + hi - lo > L:
                segs.append((0.0, m + hi - lo - L))
            new = []
            for (x0, x1) in feas:
                for (y0, y1) in segs:
                    z0, z1 = max(x0, y0), min(x1, y1)
                    if z0 <= z1:
                        new.append((z0, z1))
            feas = new
            if not feas:
                return False, [], n
    return True, feas, n


def layer_sequence(d, f, L, feas, tol):
    """facies of layers whose index does not depend on which feasible offset is
    true: dict index -> facies (relative to offset in the first feasible
    interval); empty if the offset is not determined well enough"""
    if len(feas) != 1:
        return {}
    s0, s1 = feas[0]
    i0 = np.floor((d - s0 - tol) / L).astype(int)
    i1 = np.floor((d - s1 + tol) / L).astype(int)
    i2 = np.floor((d - s0 + tol) / L).astype(int)
    i3 = np.floor((d - s1 - tol) / L).astype(int)
    ok = (i0 == i1) & (i2 == i3) & (i0 == i2)
    out = {}
    for i, ff in zip(i0[ok], f[ok]):
        out.setdefault(int(i), int(ff))
    return out


def transitions_ok(seq, fac, alt):
    """seq: dict index->facies; is every known neighbour pair allowed?  Layers
    may be built from either side."""
    pairs = [(seq[i], seq[i + 1]) for i in seq if i + 1 in seq]
    if alt is None:
        return True, len(pairs)
    allowed = {fac[i]: set(alt[i]) for i in range(len(fac))}
    up = all(b in allowed.get(a, ()) for a, b in pairs)
    down = all(a in allowed.get(b, ()) for a, b in pairs)
    return up or down, len(pairs)
