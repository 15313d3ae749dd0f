"""C28: faces found to represent a surface are exactly those whose cell centres are separated by it."""

import numpy as np

from props.spec import spec
from rv import gen, gridgen
from rv.core import Scenario, Skip

PROP = spec('C28')

METHODS = ('staffa', 'regular', 'dense', 'optimised', 'auto', 'mode staffa', 'mode regular', 'mode regular_dense', 'mode regular_optimised')


# oracle

def pairs_of(ext):
    """All neighbouring cells, as (axis, cell on negative side)."""
    out = []
    for axis in range(3):
        n = list(ext)
        n[axis] -= 1
        out += [(axis, c) for c in np.ndindex(*n)]
    return out


def brute(centres, tris, eps):
    """For each pair of neighbours: definite and possible (triangle, t, point), by Moller Trumbore in double precision."""
    ext = centres.shape[:3]
    pairs = pairs_of(ext)
    out = {}
    if not pairs:
        return out
    a = np.array([centres[c] for _, c in pairs])
    up = []
    for axis, c in pairs:
        d = list(c)
        d[axis] += 1
        up.append(centres[tuple(d)])
    d = np.array(up) - a
    e1, e2 = tris[:, 1] - tris[:, 0], tris[:, 2] - tris[:, 0]
    for n, key in enumerate(pairs):
        h = np.cross(d[n], e2)
        det = np.sum(e1 * h, axis = 1)
        size = np.linalg.norm(d[n]) * np.linalg.norm(np.cross(e1, e2), axis = 1)
        flat = np.abs(det) <= 1.0e-9 * size
        with np.errstate(all = 'ignore'):
            f = 1.0 / det
            s = a[n] - tris[:, 0]
            u = f * np.sum(s * h, axis = 1)
            q = np.cross(s, e1)
            v = f * np.sum(d[n] * q, axis = 1)
            t = f * np.sum(e2 * q, axis = 1)
            m = np.minimum(np.minimum(u, v), 1.0 - u - v)
        ok = ~flat
        sure = ok & (m > eps) & (t > eps) & (t < 1.0 - eps)
        may = (ok & (m > -eps) & (t > -eps) & (t < 1.0 + eps)) | flat
        if np.any(may):
            out[key] = (np.where(sure)[0], np.where(may)[0], {int(x): (t[x], a[n] + t[x] * d[n]) for x in np.where(may & ~flat)[0]})
    return out


def sides_of(centres, f):
    """Faces where function of position changes sign, and those too close to call."""
    v = f(centres)
    return v


# surfaces

def sheet(ctx, lo, hi, axes, amp, n = None, margin = 0.4):
    """A height field over two axes that extends beyond the box; returns triangles, points and side function."""
    a, b = axes
    c = 3 - a - b
    n = (ctx.integer(2, 6), ctx.integer(2, 6)) if n is None else n
    span = hi - lo
    u = np.linspace(lo[a] - margin * span[a], hi[a] + margin * span[a], n[0])
    v = np.linspace(lo[b] - margin * span[b], hi[b] + margin * span[b], n[1])
    g = np.zeros((n[0], n[1], 3))
    g[..., a] = u[:, None]
    g[..., b] = v[None, :]
    mid = ctx.uniform(lo[c] + 0.1 * span[c], hi[c] - 0.1 * span[c])
    sa, sb = ctx.uniform(-amp, amp), ctx.uniform(-amp, amp)
    g[..., c] = mid + span[c] * (sa * (g[..., a] - u.mean()) / span[a] + sb * (g[..., b] - v.mean()) / span[b])
    wavy = ctx.flag()
    if wavy:
        g[..., c] += span[c] * amp * ctx.rng.uniform(-0.5, 0.5, n)
        # irrational spacing in the plane too, keeping the outline
    p = g.reshape((-1, 3))
    t = []
    for i in range(n[0] - 1):
        for j in range(n[1] - 1):
            k = i * n[1] + j
            q = [k, k + 1, k + n[1] + 1, k + n[1]]
            t += [[q[0], q[1], q[2]], [q[0], q[2], q[3]]] if ctx.flag() else [[q[0], q[1], q[3]], [q[1], q[2], q[3]]]
    t = np.array(t, dtype = int)

    def side(x):
        """Signed distance along axis c of points x from the sheet."""
        out = np.full(x.shape[:-1], np.nan)
        for tri in p[t]:
            d = np.linalg.det(np.array([tri[1][[a, b]] - tri[0][[a, b]], tri[2][[a, b]] - tri[0][[a, b]]]))
            r = x[..., [a, b]] - tri[0][[a, b]]
            e1, e2 = tri[1][[a, b]] - tri[0][[a, b]], tri[2][[a, b]] - tri[0][[a, b]]
            w1 = (r[..., 0] * e2[1] - r[..., 1] * e2[0]) / d
            w2 = (e1[0] * r[..., 1] - e1[1] * r[..., 0]) / d
            inside = (w1 >= -1e-12) & (w2 >= -1e-12) & (w1 + w2 <= 1 + 1e-12)
            z = tri[0][c] + w1 * (tri[1][c] - tri[0][c]) + w2 * (tri[2][c] - tri[0][c])
            out = np.where(inside, x[..., c] - z, out)
        return out

    return t, p, side, wavy


def curtain(ctx, lo, hi):
    """A vertical wall along a line of increasing x (or y), beyond the box."""
    a = ctx.integer(0, 1)
    b = 1 - a
    n = ctx.integer(2, 6)
    span = hi - lo
    u = np.linspace(lo[a] - 0.4 * span[a], hi[a] + 0.4 * span[a], n)
    mid, slope = ctx.uniform(lo[b] + 0.2 * span[b], hi[b] - 0.2 * span[b]), ctx.uniform(-0.6, 0.6)
    v = mid + span[b] * (slope * (u - u.mean()) / span[a] + ctx.rng.uniform(-0.15, 0.15, n))
    p, t = [], []
    for k in range(n):
        for z in (lo[2] - 0.3 * span[2], hi[2] + 0.3 * span[2]):
            x = np.zeros(3)
            x[a], x[b], x[2] = u[k], v[k], z
            p.append(x)
    for k in range(n - 1):
        q = [2 * k, 2 * k + 1, 2 * k + 3, 2 * k + 2]
        t += [[q[0], q[1], q[2]], [q[0], q[2], q[3]]] if ctx.flag() else [[q[0], q[1], q[3]], [q[1], q[2], q[3]]]

    def side(x):
        return x[..., b] - np.interp(x[..., a], u, v)

    return np.array(t), np.array(p), side


def ball(ctx, lo, hi):
    c = np.array([ctx.uniform(l, h) for l, h in zip(lo, hi)])
    r = 0.5 * (hi - lo) * ctx.rng.uniform(0.3, 1.2, 3)
    p = np.array([[1, 0, 0], [-1, 0, 0], [0, 1, 0], [0, -1, 0], [0, 0, 1], [0, 0, -1]], dtype = float)
    t = [[x, y, z] for x in (0, 1) for y in (2, 3) for z in (4, 5)]
    return np.array(t), c + p * r


def random_soup(ctx, lo, hi):
    n = ctx.integer(1, 30)
    span = hi - lo
    base = lo - 0.3 * span + 1.6 * span * ctx.rng.random((n, 1, 3))
    tri = base + span * ctx.choice([0.2, 0.6, 1.5]) * ctx.rng.uniform(-1.0, 1.0, (n, 3, 3))
    return np.arange(3 * n).reshape((-1, 3)), tri.reshape((-1, 3))


def folded(ctx, lo, hi):
    """A rolled up sheet."""
    nu, nv = ctx.integer(4, 9), ctx.integer(2, 4)
    span = hi - lo
    ax = [int(x) for x in ctx.rng.permutation(3)]
    th = np.linspace(0.0, ctx.uniform(2.0, 7.0), nu)
    r = np.linspace(0.2, ctx.uniform(0.3, 0.7), nu)
    g = np.zeros((nu, nv, 3))
    g[..., ax[0]] = 0.5 * (lo + hi)[ax[0]] + span[ax[0]] * (r * np.cos(th))[:, None]
    g[..., ax[1]] = 0.5 * (lo + hi)[ax[1]] + span[ax[1]] * (r * np.sin(th))[:, None]
    g[..., ax[2]] = np.linspace(lo[ax[2]] - 0.2 * span[ax[2]], hi[ax[2]] - ctx.uniform(-0.2, 0.6) * span[ax[2]], nv)[None, :]
    g += 0.03 * span * ctx.rng.uniform(-1.0, 1.0, g.shape)
    t = []
    for i in range(nu - 1):
        for j in range(nv - 1):
            k = i * nv + j
            t += [[k, k + 1, k + nv + 1], [k, k + nv + 1, k + nv]]
    return np.array(t), g.reshape((-1, 3))


class Case:
    """Grid, surface and oracle."""

    def __init__(self, ctx, irregular = False, kinds = None, max_n = (5, 5, 5), other_crs = None, patches = None, faults = None):
        import resqpy.crs as rqc
        import resqpy.grid as grr
        import resqpy.surface as rqs
        self.ctx = ctx
        self.m = m = gen.model(ctx)
        kw = dict(gen.crs_kwargs(ctx, extreme = False), axis_order = 'easting northing') if ctx.flag() else {'z_inc_down': ctx.flag()}
        self.kw = kw
        crs = rqc.Crs(m, title = 'grid crs', **kw)
        crs.create_xml(reuse = False)
        self.crs = crs
        if irregular:
            r = gridgen.random_grid(ctx, growth = ctx.flag(0.4), max_n = max_n, faults = faults, inactive = ctx.flag(0.3), gaps = ctx.flag(0.2), pinch = False)
            g = r.build(m, crs_uuid = crs.uuid)
            g.write_hdf5()
            g.create_xml()
            self.grid = grr.any_grid(m, uuid = g.uuid)
            cp = r.to_cp()
            self.centres = cp.reshape(cp.shape[:3] + (8, 3)).mean(axis = 3)
            self.dxyz = None
            self.ext = tuple(int(n) for n in cp.shape[:3])
        else:
            self.ext = tuple(ctx.integer(1, n) for n in max_n)
            if self.ext[1:] == (1, 1) and (self.ext[0] == 1 or kinds == ['curtain']):
                self.ext = (self.ext[0], 1, 2)
            self.dxyz = np.array([ctx.choice([1.0, 10.0, 50.0, ctx.uniform(5.0, 120.0)]) for _ in range(2)] + [ctx.uniform(0.5, 30.0)])
            g = grr.RegularGrid(m, extent_kji = self.ext, dxyz = tuple(self.dxyz), title = 'block', crs_uuid = crs.uuid, set_points_cached = ctx.flag())
            g.create_xml(add_cell_length_properties = ctx.flag(0.3))
            if ctx.flag(0.3):
                g.make_regular_points_cached()
            self.grid = g
            k, j, i = np.meshgrid(*[np.arange(n) for n in self.ext], indexing = 'ij')
            self.centres = (np.stack((i, j, k), axis = -1) + 0.5) * self.dxyz
        ctx.check(grr.any_grid is not None, 'setup')
        c = self.centres.reshape((-1, 3))
        lo, hi = c.min(axis = 0), c.max(axis = 0)
        pad = np.maximum(0.1 * (hi - lo), 0.5 * (self.dxyz if self.dxyz is not None else 10.0))
        self.lo, self.hi = lo - pad, hi + pad
        self.kind = ctx.choice(kinds or ['sheet', 'sheet', 'partial', 'soup', 'folded', 'ball', 'curtain', 'side sheet', 'outside', 'several'])
        self.side = None
        if self.kind in ('sheet', 'partial', 'side sheet', 'outside'):
            axes = (0, 1) if self.kind == 'sheet' else ctx.choice([(0, 1), (0, 2), (1, 2)])
            self.height_axis = 3 - sum(axes)
            t, p, self.side, self.wavy = sheet(ctx, self.lo, self.hi, axes, ctx.choice([0.0, 0.2, 0.6, 1.0]))
            if self.kind == 'partial':
                keep = ctx.rng.random(len(t)) < 0.6
                keep[ctx.integer(0, len(t) - 1)] = True
                t, self.side = t[keep], None
            elif self.kind == 'outside':
                p = p + (5.0 * (self.hi - self.lo) + 1.0)
                self.side = None
        elif self.kind == 'curtain':
            t, p, self.side = curtain(ctx, self.lo, self.hi)
        elif self.kind == 'soup':
            t, p = random_soup(ctx, self.lo, self.hi)
        elif self.kind == 'folded':
            t, p = folded(ctx, self.lo, self.hi)
        elif self.kind == 'ball':
            t, p = ball(ctx, self.lo, self.hi)
        else:
            parts = [random_soup(ctx, self.lo, self.hi), folded(ctx, self.lo, self.hi), ball(ctx, self.lo, self.hi)]
            t = np.concatenate([a + o for (a, _), o in zip(parts, np.cumsum([0] + [len(b) for _, b in parts]))])
            p = np.concatenate([b for _, b in parts])
        # winding is arbitrary
        if ctx.flag():
            flip = ctx.rng.random(len(t)) < 0.5
            t = np.where(flip[:, None], t[:, ::-1], t)
        self.t, self.p = t, p
        # surface, perhaps in another crs and as several patches
        other = ctx.flag(0.4) if other_crs is None else other_crs
        self.s_kw = kw
        s_crs = crs
        sp = p
        if other:
            self.s_kw = dict(gen.crs_kwargs(ctx, extreme = False))
            s_crs = rqc.Crs(m, title = 'surface crs', **self.s_kw)
            s_crs.create_xml(reuse = False)
            sp = gen.CrsOracle(kw).convert_to(gen.CrsOracle(self.s_kw), p)
        self.other = other
        s = rqs.Surface(m, title = 'surf', crs_uuid = s_crs.uuid)
        n_patch = ctx.choice([1, 1, 2, 3]) if patches is None else patches
        n_patch = min(n_patch, len(t))
        if n_patch == 1:
            s.set_from_triangles_and_points(t, sp)
        else:
            s.set_multi_patch_from_triangles_and_points([(x.copy(), sp.copy()) for x in np.array_split(t, n_patch)])
        self.n_patch = n_patch
        self.surface = s
        if ctx.flag(0.6):
            self.store()
        self.s_points = sp

    def store(self):
        import resqpy.surface as rqs
        if self.surface.root is None:
            self.surface.write_hdf5()
            self.surface.create_xml()
            if self.ctx.flag():
                self.surface = rqs.Surface(self.m, uuid = self.surface.uuid)

    def expected(self, eps):
        return brute(self.centres, self.p[self.t], eps)

    def intact(self, code, tol = 1.0e-3, winding = False):
        """The surface still represents the same points, as understood from its crs."""
        import resqpy.crs as rqc
        s, ctx = self.surface, self.ctx
        t, p = s.triangles_and_points()
        ctx.equal(len(t), len(self.t), code, 'number of triangles')
        crs = rqc.Crs(self.m, uuid = s.crs_uuid)
        kw = {k: getattr(crs, k) for k in ('x_offset', 'y_offset', 'z_offset', 'rotation', 'rotation_units', 'axis_order', 'xy_units', 'z_units', 'z_inc_down')}
        q = gen.CrsOracle(kw).convert_to(gen.CrsOracle(self.kw), p)[t]
        e = self.p[self.t]
        if winding:
            q, e = [np.array([sorted(x.tolist()) for x in np.round(y, 2)]) for y in (q, e)]
            tol = 0.03
        ctx.check(np.all(np.abs(q - e) <= tol), code, 'points of surface', most = float(np.abs(q - e).max()), kind = self.kind)


def run(ctx, c, method, **kw):
    import resqpy.grid_surface as rqgs
    if method == 'staffa':
        r = rqgs.find_faces_to_represent_surface_staffa(c.grid, c.surface, 'cut', **kw)
    elif method == 'regular':
        r = rqgs.find_faces_to_represent_surface_regular(c.grid, c.surface, 'cut', **kw)
    elif method == 'dense':
        r = rqgs.find_faces_to_represent_surface_regular_dense_optimised(c.grid, c.surface, 'cut', **kw)
    elif method == 'optimised':
        r = rqgs.find_faces_to_represent_surface_regular_optimised(c.grid, c.surface, 'cut', **kw)
    else:
        r = rqgs.find_faces_to_represent_surface(c.grid, c.surface, 'cut', mode = method.split()[-1], **kw)
    return r


def faces_of(ctx, c, gcs):
    """List of (axis, lower cell) for each connection, with True where first cell of pair is the lower one."""
    out = []
    if gcs is None or not gcs.count:
        return out
    ctx.equal(int(gcs.count), len(gcs.cell_index_pairs), 'connections', 'count')
    inv = {int(gcs.face_index_map[a, p]): (a, p) for a in range(3) for p in range(2)}
    for (a, b), (fa, fb), in zip(np.asarray(gcs.cell_index_pairs).tolist(), np.asarray(gcs.face_index_pairs).tolist()):
        ca, cb = [tuple(int(x) for x in np.unravel_index(x, c.ext)) for x in (a, b)]
        (ax, pol), (bx, bol) = inv[fa], inv[fb]
        d = [y - x for x, y in zip(ca, cb)]
        ctx.check(ax == bx and pol != bol and d[ax] == (1 if pol else -1) and sum(map(abs, d)) == 1, 'connections', 'faces do not match cells', cells = (ca, cb),
                  faces = (inv[fa], inv[fb]))
        out.append(((ax, ca if pol else cb), bool(pol)))
    return out


def same_faces(ctx, c, got, exp, code):
    """All definite faces are present, none other than the possible ones."""
    keys = [k for k, _ in got]
    ctx.equal(len(set(keys)), len(keys), code, 'faces repeated')
    have = set(keys)
    must = {k for k, (sure, _, _) in exp.items() if len(sure)}
    ctx.check(not must - have, code, 'faces missing', missing = sorted(must - have)[:5], count = len(have), expected = len(must), kind = c.kind)
    ctx.check(not have - set(exp), code, 'faces not cut', extra = sorted(have - set(exp))[:5], count = len(have), expected = len(must), kind = c.kind)
    ctx.observe('faces', len(have))
    ctx.observe('ambiguous', len(set(exp) - must))


def check_props(ctx, c, got, exp, props, want, curtain, eps):
    zf = gen.LENGTH_M[c.kw.get('z_units', 'm')]
    xf = gen.LENGTH_M[c.kw.get('xy_units', 'm')]
    n = len(got)
    for w in want:
        ctx.check(w in props, 'properties', 'property missing', wanted = w)
    for w in ('triangle', 'depth', 'offset', 'flange bool', 'normal vector'):
        if w in want:
            ctx.equal(len(props[w]), n, 'properties', 'length of ' + w)
    tol = 1.0e-6 * (1.0 + np.abs(c.hi).max()) + (1.0e-3 if eps > 1.0e-4 else 0.0) + (0.02 if c.other else 0.0)
    for r, (key, _) in enumerate(got):
        axis, cell = key
        if curtain and cell[0] > 0:
            sure, may, where = exp[(axis, (0,) + cell[1:])]
        else:
            sure, may, where = exp[key]
        if len(where) < len(may):  # coplanar triangle
            continue
        options = list(where.keys())
        if 'triangle' in want:
            tri = int(props['triangle'][r])
            ctx.check(tri in where, 'triangle', 'triangle does not separate the centres', face = key, triangle = tri, options = options)
            options = [tri]
            if 'flange bool' in want:
                ctx.equal(bool(props['flange bool'][r]), bool(c.flange[tri]), 'flange')
        xyz = 2 - axis
        fits = []
        for o in options:
            t, q = where[o]
            ok = True
            # shallow angles make the position less exact
            tri = c.p[c.t[o]]
            nv = np.cross(tri[1] - tri[0], tri[2] - tri[0])
            nn = np.linalg.norm(nv)
            slack = tol * (1.0 if nn == 0 else min(1.0e4, nn / max(1.0e-30, abs(nv[xyz]))))
            if 'depth' in want and not (curtain and cell[0] > 0):
                ok = ok and abs(props['depth'][r] - q[2]) <= slack
            if 'offset' in want:
                f = (cell[axis] + 1) * c.dxyz[xyz]
                e = q[xyz] - f
                if axis > 0:
                    e *= xf / zf
                    slack *= max(1.0, xf / zf)
                ok = ok and abs(props['offset'][r] - e) <= slack
            fits.append(ok)
            if 'normal vector' in want:
                e = c.p[c.t[o]] * np.array([xf, xf, zf])
                v = np.cross(e[1] - e[0], e[2] - e[0])
                v /= np.linalg.norm(v)
                g = props['normal vector'][r]
                fits[-1] = fits[-1] and abs(np.linalg.norm(g) - 1.0) < 1.0e-6 and g[2] <= 1.0e-9 and \
                    min(np.abs(g - v).max(), np.abs(g + v).max()) < 1.0e-5 + (1.0e-3 if c.other else 0.0) / max(1.0e-2, min(np.linalg.norm(e[1] - e[0]), np.linalg.norm(e[2] - e[0])))
        ctx.check(any(fits), 'values', 'no triangle fits values', face = key, values = {w: np.asarray(props[w][r]).tolist() for w in want if w in ('depth', 'offset', 'normal vector', 'triangle')},
                  points = {o: where[o][1].tolist() for o in options}, method = ctx.method)


def sealed_bisector(ctx, c, got):
    """Cells on the two sides as split by the faces found; None unless there are exactly two parts."""
    faces = {k for k, _ in got}
    seen = np.full(c.ext, -1, dtype = int)
    part = 0
    for start in np.ndindex(*c.ext):
        if seen[start] >= 0:
            continue
        stack = [start]
        seen[start] = part
        while stack:
            x = stack.pop()
            for axis in range(3):
                for d in (-1, 1):
                    y = list(x)
                    y[axis] += d
                    y = tuple(y)
                    if not 0 <= y[axis] < c.ext[axis] or seen[y] >= 0:
                        continue
                    if (axis, min(x, y)) in faces:
                        continue
                    seen[y] = part
                    stack.append(y)
        part += 1
    return seen if part == 2 else None


def expected_bisector(ctx, parts, raw):
    """Array of True for shallower side, with flag for curtain."""
    a = parts == parts[0, 0, 0]
    k = np.arange(a.shape[0])[:, None, None] + np.zeros(a.shape)
    mt, mf = k[a].mean(), k[~a].mean()
    if abs(mt - mf) > 0.001 and not raw:
        if mt > mf:
            a = ~a
    return a, abs(mt - mf) <= 0.001


def check_bisector(ctx, got, parts, raw, code = 'bisector'):
    b, is_curtain = got
    a, level = expected_bisector(ctx, parts, raw)
    flat = bool(np.all(a == a[0]))
    ctx.equal(bool(is_curtain), flat, code, 'curtain')
    b = np.asarray(b)
    if is_curtain:
        ctx.equal(b.shape, a.shape[1:], code, 'shape of columns bisector')
        a = a[0]
        # either side may be True, as neither is shallower, except that raw has origin True
        if raw:
            ctx.equal(b, a, code, 'columns')
        else:
            ctx.check(np.array_equal(b, a) or np.array_equal(b, ~a), code, 'columns', got = b, expected = a)
    elif level and not raw:
        ctx.check(np.array_equal(b, a) or np.array_equal(b, ~a), code, 'cells', got = b, expected = a)
    else:
        ctx.equal(b, a, code, 'cells')


def expected_shadow(got, ext):
    a = np.zeros(ext, dtype = int)
    f = [k[1] for k, _ in got if k[0] == 0]
    for c in np.ndindex(*ext):
        col = [x[0] for x in f if x[1:] == c[1:]]
        below = any(x >= c[0] for x in col)  # face below the cell
        above = any(x < c[0] for x in col)
        a[c] = (1 if below else 0) + (2 if above else 0)
    return a


def props_for(ctx, c, method, curtain = False):
    if method == 'regular':
        return ctx.subset(['offset', 'normal vector'])
    want = ctx.subset(['triangle', 'depth', 'offset', 'grid shadow'] + (['grid bisector'] if c.side is not None else []))
    if ctx.flag(0.2) and c.flange is not None:
        want.append('flange bool')
    return want


def add_flange(ctx, c):
    import resqpy.property as rqp
    c.flange = None
    if not ctx.flag(0.4):
        return
    c.store()
    a = ctx.rng.random(len(c.t)) < 0.5
    p = rqp.Property.from_array(c.m, a.astype(np.int8), source_info = 'test', keyword = 'flange bool', support_uuid = c.surface.uuid,
                                property_kind = 'flange bool', discrete = True, indexable_element = 'faces', null_value = -1, dtype = np.uint8)
    ctx.check(p is not None, 'setup')
    c.flange = a


def exercise(ctx, c, methods, calls, curtain = False):
    """A history of calls with the same surface and grid."""
    add_flange(ctx, c)
    loose = False
    for _ in range(calls):
        method = ctx.choice(methods)
        ctx.method = method
        kw = {}
        want = []
        agitate = False
        if method in ('regular', 'dense', 'optimised'):
            want = props_for(ctx, c, method)
            if want:
                kw['return_properties'] = want
            agitate = ctx.flag(0.2)
            if agitate:
                kw['agitate'] = True
                kw['random_agitation'] = ctx.flag()
            if ctx.flag(0.3):
                kw['title'] = 'any title'
        raw = False
        if method in ('dense', 'optimised'):
            if ctx.flag():
                kw['n_batches'] = ctx.choice([1, 2, 3, 7, 50])
            if curtain and ctx.flag(0.7):
                kw['is_curtain'] = True
            raw = ctx.flag(0.3)
            if raw:
                kw['raw_bisector'] = True
        seen = []
        if ctx.flag(0.2):
            kw['progress_fn'] = seen.append
        feature = ctx.choice(['fault', 'horizon', 'geobody boundary'])
        kw['feature_type'] = feature
        eps = 2.0e-3 if agitate or loose or c.other else 1.0e-6
        exp = c.expected(eps)
        skip = False
        if 'grid bisector' in want:
            # only asked for where the faces seal the grid
            sure = [(k, True) for k, v in exp.items() if len(v[0])]
            amb = [k for k, v in exp.items() if not len(v[0])]
            parts = None if amb else sealed_bisector(ctx, c, sure)
            if parts is None:
                want.remove('grid bisector')
                if not want:
                    kw.pop('return_properties')
        r = run(ctx, c, method, **kw)
        gcs, props = r if want else (r, {})
        got = faces_of(ctx, c, gcs)
        cur = kw.get('is_curtain', False)
        same_faces(ctx, c, got, exp, 'faces-' + method.split()[-1])
        if gcs is not None and gcs.count:
            ctx.equal([f[2] for f in gcs.feature_list][:1], [gcs.feature_list[0][2]], 'feature')
            ctx.equal(np.asarray(gcs.feature_indices).tolist(), [0] * gcs.count, 'feature')
            ctx.equal(len(gcs.feature_list), 1, 'feature', 'number of features')
            ctx.check(gcs.feature_list[0][2].startswith('cut'), 'feature', 'name', name = gcs.feature_list[0][2])
            ctx.check(any('cut' in str(x) for x in c.m.titles(obj_type = {'fault': 'FaultInterpretation', 'horizon': 'HorizonInterpretation',
                                                                         'geobody boundary': 'GeobodyBoundaryInterpretation'}[feature])), 'feature', 'no interpretation')
            if 'title' in kw:
                ctx.equal(gcs.title, kw['title'], 'feature', 'title')
        if want and gcs is not None and gcs.count:
            check_props(ctx, c, got, exp, props, want, cur, eps)
            if 'grid shadow' in want:
                ctx.equal(np.asarray(props['grid shadow']).tolist(), expected_shadow(got, c.ext).tolist(), 'shadow')
            if 'grid bisector' in want:
                ctx.observe('bisectors')
                if cur:
                    b, flag = props['grid bisector']
                    ctx.check(flag, 'bisector', 'curtain flag')
                    ctx.equal(np.asarray(b), (parts == parts[0, 0, 0])[0], 'bisector', 'curtain')
                else:
                    check_bisector(ctx, props['grid bisector'], parts, raw)
        if seen:
            ctx.check(seen[0] == 0.0 and (seen[-1] == 1.0 or gcs is None) and all(0.0 <= x <= 1.0 for x in seen), 'progress', seen = seen)
        if agitate and method == 'regular':
            loose = True  # agitation is documented to perturb the points of the surface
        ctx.observe('method ' + method)
    c.intact('surface-kept', tol = 0.03 if c.other else 1.0e-3)
    ctx.sig(c.ext, c.kind, c.other, c.n_patch, tuple(methods) if len(methods) < 3 else 'many', calls)


def regular_grids(ctx):
    c = Case(ctx)
    exercise(ctx, c, METHODS, ctx.integer(1, 4))


def curtains(ctx):
    c = Case(ctx, kinds = ['curtain'])
    exercise(ctx, c, ('dense', 'optimised'), ctx.integer(1, 3), curtain = True)


def sheets(ctx):
    c = Case(ctx, kinds = ['sheet', 'side sheet', 'curtain'], max_n = (6, 6, 6))
    exercise(ctx, c, ('dense', 'optimised'), ctx.integer(1, 3))


def irregular_grids(ctx):
    c = Case(ctx, irregular = True, max_n = (4, 4, 4))
    exercise(ctx, c, ('staffa', 'auto', 'mode staffa'), ctx.integer(1, 2))


def consistent_sides(ctx):
    """All first cells of pairs on one side, all second cells on the other."""
    c = Case(ctx, kinds = ['sheet', 'side sheet'], other_crs = False, max_n = (5, 5, 5))
    q = c.p[c.t] * np.array([1.0, 1.0, gen.LENGTH_M[c.kw.get('z_units', 'm')] / gen.LENGTH_M[c.kw.get('xy_units', 'm')]])
    n = np.cross(q[:, 1] - q[:, 0], q[:, 2] - q[:, 0])
    n *= np.sign(n[:, c.height_axis])[:, None]
    mean = n.sum(axis = 0) / np.linalg.norm(n.sum(axis = 0))
    n /= np.linalg.norm(n, axis = 1)[:, None]
    if np.min(n @ mean) < np.cos(np.radians(40.0)):
        raise Skip('shape beyond rough reorientation')
    ctx.method = 'regular'
    exp = c.expected(1.0e-6)
    r = run(ctx, c, 'regular', consistent_side = True)
    got = faces_of(ctx, c, r)
    same_faces(ctx, c, got, exp, 'faces-consistent')
    side = c.side(c.centres)
    first = []
    for (axis, cell), lower in got:
        if not len(exp[(axis, cell)][0]) or len(exp[(axis, cell)][1]) > 1:
            continue
        other = list(cell)
        other[axis] += 1
        a, b = side[cell], side[tuple(other)]
        if a * b >= 0.0:
            continue  # passes through the sheet more than once
        first.append((a if lower else b) > 0.0)
    ctx.check(len(set(first)) <= 1, 'sides', 'first cells on both sides', count = len(first), positive = sum(first), kind = c.kind, wavy = c.wavy)
    c.intact('surface-kept', winding = True)
    ctx.sig(c.ext, c.kind, c.wavy, len(first))


# helper functions taken on their own

def mask_faces(ctx, ext, parts = None, p = 0.3):
    """Boolean arrays of faces, either random or those between two parts."""
    out = []
    for axis in range(3):
        n = list(ext)
        n[axis] -= 1
        if parts is None:
            out.append(ctx.rng.random(n) < p)
        else:
            lo = tuple(slice(0, -1) if a == axis else slice(None) for a in range(3))
            hi = tuple(slice(1, None) if a == axis else slice(None) for a in range(3))
            out.append(parts[lo] != parts[hi])
    return out


def indices(ctx, mask, dup = True):
    x = np.stack(np.where(mask), axis = -1).astype(np.int32)
    if not len(x):
        return None
    if dup and ctx.flag(0.3):
        x = np.concatenate((x, x[ctx.rng.integers(0, len(x), 3)]))
    return x[ctx.rng.permutation(len(x))]


def blob(ctx, ext):
    """A connected set of cells with a connected complement, touching the boundary."""
    style = ctx.choice(['plane', 'grown', 'corner', 'columns', 'columns', 'inner'])
    k, j, i = np.meshgrid(*[np.arange(n) for n in ext], indexing = 'ij')
    if style == 'plane':
        v = ctx.rng.uniform(-1.0, 1.0, 3)
        a = (k - ext[0] / 2) * v[0] + (j - ext[1] / 2) * v[1] + (i - ext[2] / 2) * v[2] + ctx.uniform(-1.0, 1.0) > 0.0
    elif style == 'corner':
        o = [ctx.choice([0, n - 1]) for n in ext]
        r = [ctx.integer(1, n) for n in ext]
        a = (abs(k - o[0]) < r[0]) & (abs(j - o[1]) < r[1]) & (abs(i - o[2]) < r[2])
    elif style == 'columns':
        v = ctx.rng.uniform(-1.0, 1.0, 2)
        a = (j - ext[1] / 2) * v[0] + (i - ext[2] / 2) * v[1] + ctx.uniform(-1.0, 1.0) > 0.0
    elif style == 'inner':
        a = np.zeros(ext, dtype = bool)
        lo = [ctx.integer(0, n - 1) for n in ext]
        hi = [ctx.integer(x, n - 1) for x, n in zip(lo, ext)]
        a[lo[0]:hi[0] + 1, lo[1]:hi[1] + 1, lo[2]:hi[2] + 1] = True
    else:
        a = np.zeros(ext, dtype = bool)
        cells = [tuple(ctx.integer(0, n - 1) for n in ext)]
        a[cells[0]] = True
        for _ in range(ctx.integer(1, int(np.prod(ext)))):
            x = list(cells[ctx.integer(0, len(cells) - 1)])
            ax = ctx.integer(0, 2)
            x[ax] += ctx.choice([-1, 1])
            if 0 <= x[ax] < ext[ax] and not a[tuple(x)]:
                a[tuple(x)] = True
                cells.append(tuple(x))
    return a


def two_parts(ctx, a):
    class G:
        ext = a.shape
    m = mask_faces(ctx, a.shape, parts = a)
    got = [((axis, tuple(int(v) for v in c)), True) for axis in range(3) for c in np.stack(np.where(m[axis]), axis = -1)]
    return sealed_bisector(ctx, G, got), m, got


def bisectors(ctx):
    import resqpy.grid_surface as rqgs
    import resqpy.grid_surface._find_faces as ff
    ext = tuple(ctx.integer(1, 6) for _ in range(3))
    a = blob(ctx, ext)
    parts, m, got = two_parts(ctx, a)
    if parts is None:
        raise Skip('not in two parts')
    raw = ctx.flag(0.4)
    masks = [None if (x.size == 0 and ctx.flag()) or (not x.any() and ctx.flag(0.3)) else x for x in m]
    ind = [indices(ctx, x) for x in m]
    keep = [None if x is None else x.copy() for x in masks + ind]
    for name, r in (('faces', rqgs.bisector_from_faces(ext, *masks, raw)), ('indices', ff.bisector_from_face_indices(ext, *ind, raw))):
        b, cur = r
        ctx.equal(b.shape, ext, 'bisector', name)
        flat = bool(np.all(a == a[0]))
        check_bisector(ctx, (b[0] if cur else b, cur), parts, raw, 'bisector-' + name)
        if cur:
            ctx.check(np.all(b == b[0]), 'bisector-' + name, 'layers differ in curtain')
    for x, y in zip(keep, masks + ind):
        ctx.check((x is None) == (y is None) and (x is None or np.array_equal(x, y)), 'argument-kept')
    # boundary
    box = np.array([[n, n, n] for n in (10**6, -1)])
    for (axis, cell), _ in got:
        hi = list(cell)
        hi[axis] += 1
        box[0] = np.minimum(box[0], cell)
        box[1] = np.maximum(box[1], hi)
    b1 = rqgs.get_boundary(*masks, ext)
    b2 = ff.get_boundary_from_indices(*ind, ext)
    d = rqgs.get_boundary_dict(*masks, ext)
    ctx.equal([[d[x + '_min'] for x in 'kji'], [d[x + '_max'] + 1 for x in 'kji']], b1.tolist(), 'boundary', 'as dictionary')
    for name, b in (('faces', b1), ('indices', b2)):
        ctx.check(np.all(b[0] >= 0) and np.all(b[1] <= ext) and np.all(b[0] <= box[0]) and np.all(b[1] > box[1]), 'boundary', name, got = b, box = box, extent = ext)
        ctx.check(np.all(b[0] >= box[0] - 1) and np.all(b[1] <= box[1] + 2), 'boundary', name + ' too wide', got = b, box = box, extent = ext)
    ctx.sig(ext, raw, len(got), tuple(x is None for x in masks))


def column_bisectors(ctx):
    import resqpy.grid_surface as rqgs
    import resqpy.grid_surface._find_faces as ff
    ext = (1, ctx.integer(1, 8), ctx.integer(1, 8))
    a = blob(ctx, ext)
    m = mask_faces(ctx, ext, parts = a)
    if ctx.flag(0.2):
        m = mask_faces(ctx, ext, p = 0.4)
    jf, jf_i = m[1][0], np.stack(np.where(m[1][0]), axis = -1)
    fi, fi_i = m[2][0], np.stack(np.where(m[2][0]), axis = -1)
    # flood
    exp = np.zeros(ext[1:], dtype = bool)
    exp[0, 0] = True
    stack = [(0, 0)]
    while stack:
        j, i = stack.pop()
        for y, shut in (((j + 1, i), j < ext[1] - 1 and jf[j, i]), ((j - 1, i), j > 0 and jf[j - 1, i]), ((j, i + 1), i < ext[2] - 1 and fi[j, i]),
                        ((j, i - 1), i > 0 and fi[j, i - 1])):
            if not (0 <= y[0] < ext[1] and 0 <= y[1] < ext[2]) or shut or exp[y]:
                continue
            exp[y] = True
            stack.append(y)
    ctx.equal(rqgs.column_bisector_from_faces(ext[1:], jf, fi), exp, 'columns', 'faces')
    ctx.equal(ff.column_bisector_from_face_indices(ext[1:], jf_i, fi_i), exp, 'columns', 'indices')
    ctx.sig(ext, int(exp.sum()))


def shadows(ctx):
    import resqpy.grid_surface as rqgs
    import resqpy.grid_surface._find_faces as ff
    ext = (ctx.integer(1, 9), ctx.integer(1, 4), ctx.integer(1, 4))
    m = ctx.rng.random((ext[0] - 1,) + ext[1:]) < ctx.choice([0.05, 0.2, 0.5, 0.9])
    got = [((0, tuple(int(v) for v in c)), True) for c in np.stack(np.where(m), axis = -1)]
    exp = expected_shadow(got, ext)
    r = rqgs.shadow_from_faces(ext, m)
    ctx.equal(r.tolist(), exp.tolist(), 'shadow', 'from faces')
    ind = np.stack(np.where(m), axis = -1).astype(np.int32)
    if len(ind):
        ind = ind[ctx.rng.permutation(len(ind))]
        if ctx.flag(0.4):
            ind = np.concatenate((ind, ind[:2]))
    r = ff.shadow_from_face_indices(ext, ind)
    ctx.equal(r.tolist(), exp.tolist(), 'shadow', 'from indices')
    ctx.sig(ext, len(got))


SCENARIOS = [
    Scenario(regular_grids, 220),
    Scenario(sheets, 120),
    Scenario(curtains, 60),
    Scenario(irregular_grids, 60),
    Scenario(consistent_sides, 60),
    Scenario(bisectors, 250),
    Scenario(column_bisectors, 100),
    Scenario(shadows, 120),
]
