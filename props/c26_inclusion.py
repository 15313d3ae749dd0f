"""C26: point inclusion."""

from fractions import Fraction

import numpy as np

from rv.core import Scenario, Skip
from rv import gen
from props.spec import spec

PROP = spec('C26')


def cross(a, b, c):
    return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])


def on_segment(p, a, b):
    return cross(a, b, p) == 0 and min(a[0], b[0]) <= p[0] <= max(a[0], b[0]) and min(a[1], b[1]) <= p[1] <= max(a[1], b[1])


def segments_meet(a, b, c, d):
    s = [cross(a, b, c), cross(a, b, d), cross(c, d, a), cross(c, d, b)]
    s = [(x > 0) - (x < 0) for x in s]
    if s[0] * s[1] < 0 and s[2] * s[3] < 0:
        return True
    return on_segment(c, a, b) or on_segment(d, a, b) or on_segment(a, c, d) or on_segment(b, c, d)


def is_simple(poly):
    n = len(poly)
    if len(set(poly)) < n:
        return False
    for i in range(n):
        for j in range(i + 1, n):
            a, b, c, d = poly[i], poly[(i + 1) % n], poly[j], poly[(j + 1) % n]
            if j == i + 1:
                if on_segment(d, a, b) or on_segment(a, c, d):
                    return False
            elif i == 0 and j == n - 1:
                if on_segment(c, a, b) or on_segment(b, c, d):
                    return False
            elif segments_meet(a, b, c, d):
                return False
    return True


def exact_inside(p, poly):
    """Integer arithmetic; None if on the boundary."""
    inside = False
    n = len(poly)
    for i in range(n):
        a, b = poly[i], poly[(i + 1) % n]
        if on_segment(p, a, b):
            return None
        if (a[1] > p[1]) != (b[1] > p[1]):
            s = cross(a, b, p)
            if (s > 0) == (b[1] > a[1]):
                inside = not inside
    return inside


def lattice_polygon(ctx, kind = None):
    kind = kind or ctx.choice(['star', 'star', 'convex', 'comb', 'spiral', 'triangle', 'quad'])
    for _ in range(40):
        if kind in ('star', 'convex', 'triangle', 'quad'):
            n = {'triangle': 3, 'quad': 4}.get(kind) or ctx.integer(4, 12)
            ang = np.sort(ctx.rng.uniform(0, 2 * np.pi, size = n))
            r = np.full(n, 12.0) if kind == 'convex' else ctx.rng.uniform(2, 14, size = n)
            pts = [(int(round(x)), int(round(y))) for x, y in zip(r * np.cos(ang), r * np.sin(ang))]
            if kind == 'convex':
                q = []
                for p in pts:
                    if p not in q:
                        q.append(p)
                pts = q
                if len(pts) < 3 or not all(cross(pts[i - 2], pts[i - 1], pts[i]) > 0 for i in range(len(pts))):
                    continue
        elif kind == 'comb':
            k = ctx.integer(2, 5)
            pts = [(0, -2)]
            for i in range(k):
                pts += [(4 * i + 2, ctx.integer(3, 9)), (4 * i + 4, ctx.integer(-1, 2))]
            pts += [(4 * k, -2)]
            if ctx.flag():
                pts = [(y, x) for x, y in pts]
        else:
            pts = [(0, 0), (14, 0), (14, 12), (2, 12), (2, 4), (8, 4), (8, 8), (6, 8), (6, 6), (4, 6), (4, 10), (12, 10), (12, 2), (0, 2)]
            k = ctx.integer(0, 3)
            for _ in range(k):
                pts = [(-y, x) for x, y in pts]
        if is_simple(pts):
            break
    else:
        raise Skip('no polygon')
    if ctx.flag():
        pts = pts[::-1]
    k = ctx.integer(0, len(pts) - 1)
    pts = pts[k:] + pts[:k]
    return kind, pts


def test_points(ctx, pts, n = 40):
    a = np.array(pts)
    lo, hi = a.min(axis = 0) - 3, a.max(axis = 0) + 3
    out = []
    for _ in range(n):
        if ctx.flag(0.3):  # aligned with a vertex, so that rays pass through vertices
            v = pts[ctx.integer(0, len(pts) - 1)]
            p = (ctx.integer(lo[0], hi[0]), v[1]) if ctx.flag(0.7) else (v[0], ctx.integer(lo[1], hi[1]))
        else:
            p = (ctx.integer(lo[0], hi[0]), ctx.integer(lo[1], hi[1]))
        e = exact_inside(p, pts)
        if e is not None:
            out.append((p, e))
    return out


def polygons(ctx):
    import resqpy.olio.point_inclusion as pip
    import resqpy.olio.vector_utilities as vec
    import resqpy.lines as rql
    kind, pts = lattice_polygon(ctx)
    cases = test_points(ctx, pts)
    if not cases:
        raise Skip('no points off boundary')
    ctx.sig(kind, tuple(pts))
    # exact scaling and shifting by powers of two keep the arithmetic free of rounding
    scale = ctx.choice([1.0, 0.25, 64.0])
    shift = np.array([ctx.choice([0.0, 1024.0, -4096.0]), ctx.choice([0.0, 2048.0])])
    poly = np.array(pts, dtype = float) * scale + shift
    p = np.array([c for c, _ in cases], dtype = float) * scale + shift
    e = np.array([x for _, x in cases], dtype = bool)
    ctx.observe('polygon points', len(e))
    ctx.observe('inside', int(e.sum()))
    poly3 = np.concatenate((poly, ctx.rng.normal(size = (len(poly), 1))), axis = 1)
    p3 = np.concatenate((p, ctx.rng.normal(size = (len(p), 1))), axis = 1)
    use_poly = poly3 if ctx.flag() else poly
    use_p = p3 if ctx.flag() else p
    closed = np.concatenate((use_poly, use_poly[:1])) if ctx.flag(0.3) else use_poly
    k_poly = closed if ctx.flag() else [tuple(v) for v in closed]
    got = pip.pip_array_cn(use_p, k_poly)
    ctx.equal(got, e, 'pip-array', poly = poly, p = p)
    if len(p) % 2 == 0:
        shp = (2, -1, use_p.shape[1])
        ctx.equal(pip.pip_array_cn(use_p.reshape(shp), k_poly), e.reshape((2, -1)), 'pip-array-shape')
    for i in range(len(p)):
        pt = use_p[i] if ctx.flag() else tuple(use_p[i])
        ctx.equal(bool(pip.pip_cn(pt, k_poly)), bool(e[i]), 'pip-cn', poly = poly, p = pt)
        ctx.equal(bool(pip.pip_wn(pt, k_poly)), bool(e[i]), 'pip-wn', poly = poly, p = pt)
        ctx.equal(bool(vec.point_in_polygon(p[i, 0], p[i, 1], poly)), bool(e[i]), 'point-in-polygon', poly = poly, p = pt)
    xlen = ctx.integer(1, 6)
    num = ctx.integer(0, 5)
    rows = vec.points_in_polygon(p, poly, xlen, num)
    idx = np.where(e)[0]
    ctx.equal(rows, np.stack((np.full(len(idx), num), idx // xlen, idx % xlen), axis = -1), 'points-in-polygon')
    # file form
    with open(ctx.path('poly.txt'), 'w') as fp:
        for v in poly:
            fp.write(f'{v[0]} {v[1]} 0.0\n')
        fp.write('999.0 999.0 999.0\n')
    if not np.any(np.all(np.isclose(np.concatenate((poly, np.zeros((len(poly), 1))), axis = 1), 999.0), axis = 1)):
        mult = ctx.choice([None, 0.5, 2.0])
        m = mult or 1.0
        got = pip.points_in_polygon(p[:, 0] * m, p[:, 1] * m, ctx.path('poly.txt'), poly_unit_multiplier = mult)
        ctx.equal(got, e, 'points-in-polygon-file')
    # polyline object
    model = gen.model(ctx)
    line = rql.Polyline(model, set_coord = poly3, set_crs = model.crs_uuid, is_closed = True, title = 'poly')
    ctx.equal(line.points_are_inside_xy(use_p), e, 'polyline-array')
    for i in range(0, len(p), 5):
        ctx.equal(bool(line.point_is_inside_xy(use_p[i])), bool(e[i]), 'polyline-point')
        ctx.equal(bool(line.point_is_inside_xy(use_p[i], mode = ctx.choice(['crossing', 'winding']))), bool(e[i]), 'polyline-point-mode')


def polygon_sets(ctx):
    """Several polygons of equal vertex count over points of a lattice."""
    import resqpy.olio.vector_utilities as vec
    import resqpy.olio.point_inclusion as pip
    n = ctx.integer(1, 4)
    ps = []
    while len(ps) < n:
        _, pts = lattice_polygon(ctx, 'quad')
        ps.append(pts)
    nx, ny = ctx.integer(1, 12), ctx.integer(1, 12)
    # points offset by an irrational like fraction cannot lie on an edge of a lattice polygon of this size
    x = np.arange(nx) * 2 - 9 + 0.123456789
    y = np.arange(ny) * 2 - 9 + 0.318309886
    pts = np.stack(np.meshgrid(x, y), axis = -1).reshape((-1, 2))
    ctx.sig('set', tuple(map(tuple, ps)), nx, ny)
    got = vec.points_in_polygons(pts, np.array(ps, dtype = float), nx)
    exp = []
    for k, poly in enumerate(ps):
        fpoly = [(Fraction(a), Fraction(b)) for a, b in poly]
        for i, p in enumerate(pts):
            r = exact_inside((Fraction(float(p[0])), Fraction(float(p[1]))), fpoly)
            if r:
                exp.append((k, i // nx, i % nx))
    ctx.equal(got.tolist(), [list(v) for v in exp], 'points-in-polygons')
    # scan of convex polygon
    for kind in ('convex', 'triangle'):
        _, poly = lattice_polygon(ctx, kind)
        dx, dy = ctx.choice([0.5, 1.0, 1.7]), ctx.choice([0.5, 1.0, 1.3])
        origin = (-13.0 + 0.123456789 + ctx.integer(0, 8), -14.0 + 0.318309886 + ctx.integer(0, 8))
        nc, nr = ctx.integer(1, 40), ctx.integer(1, 40)
        xs = origin[0] + dx * np.arange(nc)
        ys = origin[1] + dy * np.arange(nr)
        # pixels extend only over the polygon's own area in some cases, so keep the polygon within the pixels or not
        a = np.array(poly)
        if a[:, 0].min() < xs[0]:
            continue  # left of the first pixel is outside the documented use
        mask = pip.scan(origin, nc, nr, dx, dy, np.array(poly, dtype = float))
        near = np.zeros((nr, nc), dtype = bool)
        exp = np.zeros((nr, nc), dtype = bool)
        for r in range(nr):
            for c in range(nc):
                p = (float(xs[c]), float(ys[r]))
                exp[r, c] = bool(exact_inside(p, poly))
                s = [cross(poly[q - 1], poly[q], p) for q in range(len(poly))]
                near[r, c] = min(abs(v) for v in s) < 1e-6
        ctx.check(np.all((mask == exp) | near), 'scan', origin = origin, dx = dx, dy = dy, poly = poly, mask = mask, exp = exp)


def tri_state(x, y, tri, tol = 1.0e-5):
    """True inside, False outside, None too close to the boundary."""
    a, b, c = [tuple(v) for v in tri]
    area2 = cross(a, b, c)
    p = (x, y)
    inside = True
    for s, t in ((a, b), (b, c), (c, a)):
        l = np.hypot(t[0] - s[0], t[1] - s[1])
        d = cross(s, t, p)
        # distance to segment
        u = 0.0 if l == 0 else min(1.0, max(0.0, ((x - s[0]) * (t[0] - s[0]) + (y - s[1]) * (t[1] - s[1])) / l**2))
        if np.hypot(x - s[0] - u * (t[0] - s[0]), y - s[1] - u * (t[1] - s[1])) < tol:
            return None
        if d * area2 <= 0:
            inside = False
    return inside


def triangle_set(ctx, nx, ny, n):
    out = []
    for _ in range(n):
        k = ctx.choice(['any', 'any', 'tiny', 'sliver', 'off', 'lattice', 'huge', 'point'])
        c = ctx.rng.uniform(-1.0, 1.0, size = 2) + ctx.rng.random(2) * np.array([nx, ny])
        if k == 'any':
            t = ctx.rng.uniform(-2.0, 2.0, size = (3, 2)) + np.array([nx, ny]) * ctx.rng.random((3, 2))
        elif k == 'tiny':
            t = c + ctx.rng.normal(size = (3, 2)) * 0.4
        elif k == 'sliver':
            d = ctx.rng.normal(size = 2) * 5
            t = np.array([c, c + d, c + d * 0.5 + ctx.rng.normal(size = 2) * 0.05])
        elif k == 'off':
            t = c + ctx.choice([-1, 1]) * np.array([3 * nx, 0 if ctx.flag() else 3 * ny]) + ctx.rng.normal(size = (3, 2))
        elif k == 'lattice':
            t = ctx.rng.integers(-1, max(nx, ny) + 2, size = (3, 2)) + ctx.choice([0.0, 0.5])
        elif k == 'huge':
            t = c + ctx.rng.normal(size = (3, 2)) * 200
        else:
            t = np.array([c, c, c])
        out.append(t)
    return np.array(out, dtype = float).reshape((n, 3, 2))


def compare_rows(ctx, rows, tris, nx, ny, fx, fy, code, tol = 1.0e-5):
    rows = np.asarray(rows)
    ctx.equal(rows.shape[1], 3, code + '-shape')
    got = {}
    for t, j, i in rows.tolist():
        ctx.check((t, j, i) not in got, code + '-duplicate', row = (t, j, i))
        got[(t, j, i)] = True
        ctx.check(0 <= t < len(tris) and 0 <= j < ny and 0 <= i < nx, code + '-range', row = (t, j, i))
    for t, tri in enumerate(tris):
        for j in range(ny):
            for i in range(nx):
                s = tri_state(fx(i), fy(j), tri, tol)
                if s is None:
                    continue
                ctx.equal((t, j, i) in got, bool(s), code, tri = tri, ji = (j, i), xy = (fx(i), fy(j)))


def triangles(ctx):
    import resqpy.olio.vector_utilities as vec
    nx, ny = ctx.integer(1, 9), ctx.integer(1, 9)
    n = ctx.integer(1, 5)
    tris = triangle_set(ctx, nx, ny, n)
    ctx.sig('tri', nx, ny, tris.tolist())
    p = np.stack(np.meshgrid(np.arange(nx).astype(float), np.arange(ny).astype(float)), axis = -1).reshape((-1, 2))
    ident = lambda v: float(v)
    rows = vec.points_in_triangles_njit(p, tris, nx)
    compare_rows(ctx, rows, tris, nx, ny, ident, ident, 'points-in-triangles')
    for t in range(n):
        num = ctx.integer(0, 3)
        r1 = vec.points_in_triangle(p, tris[t], nx, num)
        r2 = vec.mesh_points_in_triangle(tris[t], nx, ny, num)
        ctx.equal(np.asarray(r1)[:, 0], np.full(len(r1), num), 'triangle-number')
        ctx.equal(np.asarray(r2)[:, 0], np.full(len(r2), num), 'triangle-number')
        compare_rows(ctx, np.asarray(r1) - np.array([num, 0, 0]), tris[t:t + 1], nx, ny, ident, ident, 'points-in-triangle')
        compare_rows(ctx, np.asarray(r2) - np.array([num, 0, 0]), tris[t:t + 1], nx, ny, ident, ident, 'mesh-points-in-triangle')
        for _ in range(8):
            x, y = ctx.uniform(-1, nx), ctx.uniform(-1, ny)
            if ctx.flag(0.3):
                x = float(tris[t, ctx.integer(0, 2), 0])
            if ctx.flag(0.3):
                y = float(tris[t, ctx.integer(0, 2), 1])
            s = tri_state(x, y, tris[t], 1.0e-9)
            if s is not None:
                ctx.equal(bool(vec.point_in_triangle(x, y, tris[t])), s, 'point-in-triangle', tri = tris[t], p = (x, y))
                ctx.equal(bool(vec.point_in_triangle(x, y, tris[t][ctx.rng.permutation(3)])), s, 'point-in-triangle-order', tri = tris[t], p = (x, y))


def _aligned(ctx, names):
    import resqpy.olio.vector_utilities as vec
    nx, ny = ctx.integer(1, 10), ctx.integer(1, 10)
    n = ctx.choice([0, 1, 2, 5, 5, 7, 19, 20, 21, 23, 41])
    dx, dy = ctx.choice([1.0, 0.5, 100.0, 3.3]), ctx.choice([1.0, 0.25, 70.0, 1.7])
    unit = triangle_set(ctx, nx, ny, n)
    tris = unit * np.array([dx, dy])
    ctx.sig('aligned', nx, ny, dx, dy, unit.tolist())
    fx = lambda i: i + 0.5
    fy = lambda j: j + 0.5
    keep = tris.copy()
    for name in names:
        if n == 0 and name == 'points_in_triangles_aligned_optimised_old':
            continue
        rows = getattr(vec, name)(nx, ny, dx, dy, tris)
        ctx.equal(tris, keep, 'triangles-unchanged', name = name)
        compare_rows(ctx, rows, unit, nx, ny, fx, fy, name)
    return nx, ny, dx, dy, unit, tris


def aligned(ctx):
    _aligned(ctx, ('points_in_triangles_aligned', 'points_in_triangles_aligned_optimised_serial', 'points_in_triangles_aligned_optimised_old'))


def aligned_parallel(ctx):
    import resqpy.olio.vector_utilities as vec
    nx, ny, dx, dy, unit, tris = _aligned(ctx, ('points_in_triangles_aligned_optimised',))
    n = len(unit)
    nb = ctx.choice([1, 2, 3, 7, 20, 50])
    rows = vec.points_in_triangles_aligned_optimised(nx, ny, dx, dy, tris, nb)
    compare_rows(ctx, rows, unit, nx, ny, lambda i: i + 0.5, lambda j: j + 0.5, 'optimised-batches')
    ax, ay, az = [int(v) for v in ctx.rng.permutation(3)]
    t3 = np.zeros((n, 3, 3))
    t3[..., ax] = unit[..., 0] - 0.5
    t3[..., ay] = unit[..., 1] - 0.5
    grad = ctx.rng.normal(size = 2)
    t3[..., az] = ctx.rng.normal(size = (n, 3)) * 3.0
    rows, z = vec.points_in_triangles_aligned_unified(nx, ny, ax, ay, az, t3, nb)
    compare_rows(ctx, rows, unit, nx, ny, lambda i: i + 0.5, lambda j: j + 0.5, 'unified')
    ctx.equal(len(z), len(rows), 'unified-z-count')
    for (t, j, i), zz in zip(rows.tolist(), z):
        tri = t3[t]
        q = tri[:, [ax, ay]]
        a2 = cross(q[0], q[1], q[2])
        size = np.max(np.ptp(q, axis = 0))
        if abs(a2) < 1.0e-2 * size * size or tri_state(i, j, q, 1.0e-3) is None:
            continue
        w = np.array([cross(q[1], q[2], (i, j)), cross(q[2], q[0], (i, j)), cross(q[0], q[1], (i, j))]) / a2
        ctx.close(zz, float(np.dot(w, tri[:, az])), 'unified-z', tol = 1.0e-6, tri = tri, ji = (j, i), axes = (ax, ay, az))
        ctx.observe('sampled z')


def edged(ctx):
    """Lattice points on, inside and outside triangles, with the documented treatment of edges."""
    import resqpy.olio.vector_utilities as vec
    p = ctx.rng.integers(-6, 7, size = (ctx.integer(3, 8), 3))
    t = np.array([ctx.rng.permutation(len(p))[:3] for _ in range(ctx.integer(1, 5))])
    d = ctx.rng.integers(-7, 8, size = (30, 3))
    ctx.sig('edged', p.tolist(), t.tolist())
    for proj, (i, j) in (('xy', (0, 1)), ('xz', (0, 2)), ('yz', (1, 2))):
        for e in (False, True):
            got = vec.points_in_triangles(p.astype(float), t, d.astype(float), projection = proj, edged = e)
            ctx.equal(got.shape, (len(t), len(d)), 'edged-shape')
            for k, tr in enumerate(t):
                a, b, c = [tuple(int(x) for x in p[v][[i, j]]) for v in tr]
                area2 = cross(a, b, c)
                if area2 == 0:
                    continue
                for m in range(len(d)):
                    q = tuple(int(x) for x in d[m][[i, j]])
                    s = [np.sign(cross(*ed, q)) * np.sign(area2) for ed in ((a, b), (b, c), (c, a))]
                    exp = min(s) >= 0 if e else min(s) > 0
                    ctx.equal(bool(got[k, m]), bool(exp), 'edged' if e else 'not-edged', tri = (a, b, c), q = q)


SCENARIOS = [
    Scenario(polygons, 150, workers = 3),
    Scenario(polygon_sets, 40, workers = 1),
    Scenario(triangles, 50, workers = 1),
    Scenario(aligned, 50, workers = 1),
    Scenario(aligned_parallel, 60, workers = 1),
    Scenario(edged, 40, workers = 1),
]
