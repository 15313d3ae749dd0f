"""C25: triangulations are valid and complete; surfaces come back unchanged and edits change what they state."""

import math
from collections import Counter

import numpy as np

from props.spec import spec
from rv import gen, objects
from rv.core import Scenario, Skip

PROP = spec('C25')


def orient(a, b, c):
    return (b[..., 0] - a[..., 0]) * (c[..., 1] - a[..., 1]) - (b[..., 1] - a[..., 1]) * (c[..., 0] - a[..., 0])


def hull_area(p):
    """Twice the area of the convex hull, and the number of points on its boundary (distinct points p)."""
    q = sorted(map(tuple, p))
    cross = lambda o, a, b: (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])

    def half(q):
        h = []
        for x in q:
            while len(h) > 1 and cross(h[-2], h[-1], x) <= 0:
                h.pop()
            h.append(x)
        return h[:-1]

    h = half(q) + half(q[::-1])
    a = sum(h[i - 1][0] * h[i][1] - h[i][0] * h[i - 1][1] for i in range(len(h)))
    return a, h


def on_boundary(q, h, tol = 0.0):
    for i in range(len(h)):
        a, b = np.array(h[i - 1], float), np.array(h[i], float)
        if abs((b[0] - a[0]) * (q[1] - a[1]) - (b[1] - a[1]) * (q[0] - a[0])) <= tol * np.hypot(*(b - a)):
            return True
    return False


def points_2d(ctx, kind, n):
    if kind == 'lattice':
        m = ctx.integer(2, 7)
        p = np.array([(i, j) for i in range(m) for j in range(ctx.choice([2, m]))], dtype = float)
        p = p[ctx.rng.random(len(p)) < ctx.choice([0.6, 1.0])]
    elif kind == 'runs':  # several collinear runs
        p = []
        for _ in range(ctx.integer(2, 4)):
            a, d = ctx.rng.integers(-20, 20, 2), ctx.rng.integers(-3, 4, 2)
            p += [a + k * d for k in range(ctx.integer(2, 8))]
        p = np.array(p, dtype = float)
    elif kind == 'clusters':
        c = ctx.rng.integers(-2000, 2000, (4, 2))
        p = (c[ctx.rng.integers(0, 4, n)] + ctx.rng.integers(-9, 10, (n, 2))).astype(float)
    elif kind == 'circle':
        r = np.array([(5, 0), (4, 3), (3, 4), (0, 5)])
        p = np.array([(x * a, y * b) for x, y in r for a in (1, -1) for b in (1, -1)], dtype = float)
        p = p[ctx.rng.random(len(p)) < 0.8]
    else:
        p = ctx.rng.integers(-1000, 1001, (n, 2)).astype(float)
    p = np.unique(p, axis = 0)
    ctx.rng.shuffle(p, axis = 0)
    if len(p) < 4 or np.linalg.matrix_rank(p[1:] - p[0]) < 2:
        raise Skip
    return p


def delaunay(ctx):
    """The triangulation of points is a complete Delaunay triangulation (integer coordinates, exact evaluation)."""
    import resqpy.olio.triangulation as tri
    import resqpy.olio.vector_utilities as vec
    kind = ctx.choice(['random', 'random', 'lattice', 'runs', 'clusters', 'circle'])
    p = points_2d(ctx, kind, ctx.integer(4, 40))
    n = len(p)
    algo = ctx.choice(['scipy', None, 'scipy', 'simple'])
    if algo == 'simple' and kind not in ('random', 'clusters'):
        algo = 'scipy'
    scale = ctx.choice([1.0, 0.5, 64.0]) if algo != 'simple' else 1.0
    q = p * scale
    if ctx.flag(0.4):
        q = np.hstack([q, ctx.rng.normal(size = (n, 1))])
    before = q.copy()
    hull = ctx.flag(0.6)
    seen = []
    kw = dict(container_size_factor = 10000.0, progress_fn = seen.append) if algo == 'simple' else {}
    got = tri.dt(q, algorithm = algo, return_hull = hull, **kw)
    ctx.check(np.array_equal(q, before), 'argument', 'points changed')
    t = got[0] if hull else got
    ctx.sig(kind, n, algo, hull)
    ctx.observe('points', n)
    ctx.observe('triangles', len(t))
    ctx.check(t.ndim == 2 and t.shape[1] == 3 and t.min() >= 0 and t.max() < n and len(set(map(tuple, np.sort(t, axis = 1)))) == len(t), 'indices',
              'triangle indices invalid or repeated')
    a2 = orient(p[t[:, 0]], p[t[:, 1]], p[t[:, 2]])
    total, h = hull_area(p)
    ctx.check(np.all(a2 != 0), 'degenerate', 'triangle without area', kind = kind, t = t[a2 == 0])
    exact = algo != 'simple'
    if exact:
        ctx.equal(float(np.abs(a2).sum()), float(total), 'area', 'area of triangles against convex hull', kind = kind)
        ctx.equal(sorted(set(t.flatten().tolist())), list(range(n)), 'unused', 'points used')
    else:
        ctx.check(total * 0.97 - 1 <= np.abs(a2).sum() <= total, 'area', 'area of triangles against convex hull', got = float(np.abs(a2).sum()), hull = total)
    e, c = tri.edges(t)
    cnt = Counter()
    for x in t.tolist():
        for k in range(3):
            cnt[tuple(sorted((x[k], x[(k + 1) % 3])))] += 1
    ctx.equal({tuple(x): int(y) for x, y in zip(e.tolist(), c)}, dict(cnt), 'edges', 'edges and counts')
    ctx.check(max(cnt.values()) <= 2, 'edge-use', 'edge of more than two triangles')
    # triangles either side of an edge are on opposite sides
    opp = {}
    for x in t.tolist():
        for k in range(3):
            i, j = sorted((x[k], x[(k + 1) % 3]))
            s = orient(p[i], p[j], p[x[(k + 2) % 3]])
            ctx.check((i, j) not in opp or opp[(i, j)] * s < 0, 'overlap', 'triangles overlap at edge', edge = (i, j))
            opp[(i, j)] = s
    # empty circumcircles, exact in integers
    ip = p.astype(int)
    for x in t:
        a, b, cc = (ip[k] for k in x)
        if orient(a, b, cc) < 0:
            b, cc = cc, b
        rows = [(v - ip).astype(object) for v in (a, b, cc)]
        sq = [r[:, 0] * r[:, 0] + r[:, 1] * r[:, 1] for r in rows]
        det = (rows[0][:, 0] * (rows[1][:, 1] * sq[2] - rows[2][:, 1] * sq[1]) - rows[0][:, 1] * (rows[1][:, 0] * sq[2] - rows[2][:, 0] * sq[1]) + sq[0] *
               (rows[1][:, 0] * rows[2][:, 1] - rows[2][:, 0] * rows[1][:, 1]))
        ctx.check(not np.any(det > 0), 'circumcircle', 'point inside circumcircle', kind = kind, algo = algo, triangle = x, n = int(np.sum(det > 0)))
        # centre of circumcircle and inclusion test
        m = np.array(tri.ccc(p[x[0]], p[x[1]], p[x[2]]))
        r = [math.hypot(*(p[k] - m)) for k in x]
        big = max(r) + np.abs(p).max()
        cond = max(1.0, max(r)**2 / abs(float(orient(p[x[0]], p[x[1]], p[x[2]]))))
        ctx.check(max(r) - min(r) <= 1.0e-9 * big * cond, 'circumcentre', 'circumcentre not at equal distance', r = r)
    rim = sorted(k for k, v in cnt.items() if v == 1)
    if hull:
        b = got[1]
        ctx.equal(len(set(b.tolist())), len(b), 'hull', 'hull points repeated')
        ring = sorted(tuple(sorted((int(b[i - 1]), int(b[i])))) for i in range(len(b)))
        ctx.equal(ring, rim, 'hull', 'hull against edges of one triangle', kind = kind, algo = algo)
        turn = sum(p[b[i - 1]][0] * p[b[i]][1] - p[b[i]][0] * p[b[i - 1]][1] for i in range(len(b)))
        ctx.check(turn < 0, 'hull-order', 'hull not clockwise')
    if algo == 'simple':
        ctx.check(len(seen) >= 2 and all(0.0 <= x <= 1.0 for x in seen) and seen == sorted(seen) and seen[-1] == 1.0, 'progress', 'progress values', seen = seen)


def apex_on_hull(p, t, b, cc, aoi):
    """Whether the apex (opposite the longest side) of a triangle with centre outside the area is on the hull: known finding."""
    for x, c in zip(t, cc):
        if not aoi.point_is_inside_xy(c):
            d = [np.hypot(*(p[x[k - 1]] - p[x[k - 2]])) for k in range(3)]
            if x[int(np.argmax(d))] in b:
                return True
    return False


def voronoi_probe(ctx):
    """Voronoi cells where such an apex is on the hull."""
    voronoi(ctx, probe = True)


def voronoi(ctx, probe = False):
    """Voronoi cells hold exactly the places nearest to their seed."""
    import resqpy.crs as rqc
    import resqpy.lines as rql
    import resqpy.model as rq
    import resqpy.olio.triangulation as tri
    n = ctx.integer(4, 25) if not probe else ctx.integer(4, 5)
    p = ctx.rng.uniform(-100.0, 100.0, (n, 2))
    t, b = tri.dt(p, return_hull = True)
    far = ctx.choice([68.0, 96.0, 130.0, 300.0, 1.0e4]) if not probe else 68.0
    # area of interest: convex polygon well around
    k = 4 if far < 90.0 else ctx.choice([4, 4, 6, 9])
    th = -np.sort(np.arange(k) * 2.0 * np.pi / k + (0.25 * np.pi if far < 90.0 else ctx.uniform(0.0, 1.0)))
    r = far * 1.5 / math.cos(math.pi / k)
    ring = np.stack([r * np.cos(th), r * np.sin(th), np.zeros(k)], axis = 1)
    model = rq.Model(create_basics = True)
    crs = rqc.Crs(model)
    crs.create_xml()
    aoi = rql.Polyline(model, set_coord = ring, is_closed = True, set_crs = crs.uuid, title = 'aoi')
    cc = np.array([tri.ccc(p[x[0]], p[x[1]], p[x[2]]) for x in t])
    inside = all(aoi.point_is_inside_xy(x) for x in cc)
    if apex_on_hull(p, t, b, cc, aoi) != probe:
        raise Skip
    ctx.observe('all centres inside' if inside else 'centres outside')
    ctx.sig(n, k, far, inside)
    c, v = tri.voronoi(p, t, b, aoi)
    ctx.equal(len(v), n, 'cells', 'number of cells')
    ctx.close(c[:len(t)], cc, 'centres', tol = 1.0e-9 * np.abs(cc).max())
    total = 0.0
    polys = []
    for i in range(n):
        q = c[np.array(v[i], dtype = int)]
        a = 0.5 * sum(q[j - 1][0] * q[j][1] - q[j][0] * q[j - 1][1] for j in range(len(q)))
        ctx.check(a < 0, 'clockwise', 'cell not clockwise', cell = i)
        total -= a
        polys.append(q)
        s = np.array([orient(q[j - 1], q[j], p[i]) for j in range(len(q))])
        ctx.check(np.all(s < 0), 'seed', 'seed point not inside its cell', cell = i)
    area = -0.5 * sum(ring[j - 1][0] * ring[j][1] - ring[j][0] * ring[j - 1][1] for j in range(k))
    ctx.close(total, area, 'area', rtol = 1.0e-6)
    for _ in range(100):
        x = ctx.rng.uniform(-1.0, 1.0, 2) * ctx.choice([100.0, far])
        d = np.hypot(*(p - x).T)
        o = np.argsort(d)
        if d[o[1]] - d[o[0]] < 0.01:
            continue
        q = polys[o[0]]
        s = np.array([orient(q[j - 1], q[j], x) for j in range(len(q))])
        ctx.check(np.all(s <= 1.0e-6 * far), 'nearest', 'place not in cell of nearest seed', place = x, seed = o[0])
    # triangulated cells
    centres = ctx.choice([p, None])
    pts, tr = tri.triangulated_polygons(c, v, centres = centres)
    ctx.equal(len(tr), sum(len(x) for x in v), 'polygons', 'number of triangles')
    ctx.check(np.array_equal(pts[:len(c)], c) and (centres is None or np.array_equal(pts[len(c):], p)), 'polygons', 'points')
    k = 0
    for i, x in enumerate(v):
        for j in range(len(x)):
            ctx.equal(tr[k].tolist(), [len(c) + i, int(x[j]), int(x[(j + 1) % len(x)])], 'polygons', 'triangle')
            k += 1
    a = 0.5 * np.abs(orient(pts[tr[:, 0]], pts[tr[:, 1]], pts[tr[:, 2]])).sum()
    ctx.close(a, area, 'polygons', rtol = 1.0e-6)


def patchwork(ctx, nj = None, ni = None, keep = 0.8):
    """Part of a triangulated lattice: triangles, points."""
    nj, ni = nj or ctx.integer(1, 6), ni or ctx.integer(1, 6)
    x = np.arange(ni + 1) * ctx.uniform(5.0, 20.0)
    y = np.arange(nj + 1) * ctx.uniform(5.0, 20.0)
    p = np.zeros((nj + 1, ni + 1, 3))
    p[..., 0] = x
    p[..., 1] = y[:, None]
    p[..., :2] += ctx.rng.uniform(-1.0, 1.0, p.shape[:2] + (2,))
    p[..., 2] = 100.0 + ctx.rng.uniform(-8.0, 8.0, p.shape[:2])
    idx = np.arange(p.shape[0] * p.shape[1]).reshape(p.shape[:2])
    t = []
    for j in range(nj):
        for i in range(ni):
            a, b, c, d = idx[j, i], idx[j, i + 1], idx[j + 1, i + 1], idx[j + 1, i]
            t += [(a, b, c), (a, c, d)] if ctx.flag() else [(a, b, d), (b, c, d)]
    t = np.array([np.roll(x, ctx.integer(0, 2))[::ctx.choice([1, -1])] for x in t])
    t = t[ctx.rng.random(len(t)) < keep]
    if not len(t):
        raise Skip
    ctx.rng.shuffle(t, axis = 0)
    return t.astype(ctx.choice([np.int32, np.int64])), p.reshape(-1, 3)


def edges_rims(ctx):
    """Edges, rims and triangles of edges and points against enumeration."""
    import resqpy.olio.triangulation as tri
    t, p = patchwork(ctx, keep = ctx.choice([0.5, 0.8, 1.0]))
    before = t.copy()
    e, c = tri.edges(t)
    cnt = Counter(tuple(sorted((int(x[k]), int(x[(k + 1) % 3])))) for x in t for k in range(3))
    ctx.equal(list(zip(map(tuple, e.tolist()), c.tolist())), sorted(cnt.items()), 'edges', 'edges and counts')
    re = tri.rim_edges(e, c)
    ctx.equal(sorted(map(tuple, re.tolist())), sorted(k for k, v in cnt.items() if v == 1), 'rim-edges', 'rim edges')
    ie = tri.internal_edges(e, c)
    ctx.equal(sorted(map(tuple, ie.tolist())), sorted(k for k, v in cnt.items() if v == 2), 'internal-edges', 'internal edges')
    ctx.sig(len(t), len(re), len(ie))
    el, pl = tri.rims(re)
    ctx.equal(len(el), len(pl), 'rims', 'number of lists')
    ctx.observe('rims', len(el))
    ctx.equal(sorted(np.concatenate(el).tolist()), list(range(len(re))), 'rims', 'every rim edge in exactly one rim')
    for a, b in zip(el, pl):
        ctx.equal(len(a), len(b), 'rims', 'edges and points in rim')
        for i in range(len(a)):
            ctx.equal(tuple(sorted((int(b[i]), int(b[(i + 1) % len(b)])))), tuple(re[a[i]].tolist()), 'rims', 'edge joins successive points')
    for _ in range(5):
        k = ctx.integer(0, len(p) - 1)
        ctx.equal(tri.triangles_using_point(t, k).tolist(), [i for i in range(len(t)) if k in t[i]], 'using-point', 'triangles using point')
    some = e[ctx.rng.random(len(e)) < 0.5]
    exp = [[i for i in range(len(t)) if a in t[i] and b in t[i]] for a, b in some]
    for (a, b), x in zip(some, exp):
        ctx.equal(tri.triangles_using_edge(t, *ctx.choice([(a, b), (b, a)])).tolist(), x, 'using-edge', 'triangles using edge')
    ctx.equal(tri.triangles_using_edges(t, some).tolist(), [(x + [-1, -1])[:2] for x in exp], 'using-edges', 'triangles using edges')
    none = np.array([[len(p), len(p) + 1]])
    ctx.equal(tri.triangles_using_edges(t, none).tolist(), [[-1, -1]], 'using-edges', 'unused edge')
    ctx.check(np.array_equal(t, before), 'argument', 'triangles changed')
    # clockwise: viewed from negative z with left handed axes
    got = tri.make_all_clockwise_xy(t, p)
    ctx.check(got is t or np.array_equal(got, t), 'clockwise', 'in place')
    s = orient(p[t[:, 0]], p[t[:, 1]], p[t[:, 2]])
    ctx.check(np.all(s < 0), 'clockwise', 'triangles not all clockwise')
    ctx.check(np.array_equal(np.sort(t, axis = 1), np.sort(before, axis = 1)), 'clockwise', 'triangles changed other than in order')
    was = orient(p[before[:, 0]], p[before[:, 1]], p[before[:, 2]]) < 0
    ctx.check(np.array_equal(t[was], before[was]), 'clockwise', 'clockwise triangles changed')


def reorient(ctx):
    """Rotation to the average plane, and surrounding rings."""
    import resqpy.olio.triangulation as tri
    n = ctx.choice([10, 50, 1300])
    # plane with normal nv, thin
    nv = gen.unit(ctx) if hasattr(gen, 'unit') else ctx.rng.normal(size = 3)
    nv = nv / np.linalg.norm(nv)
    if nv[2] < 0:
        nv = -nv
    if ctx.flag(0.1):
        nv = np.array([0.0, 0.0, 1.0])
    u = np.cross(nv, [1.0, 0, 0] if abs(nv[0]) < 0.8 else [0, 1.0, 0])
    u /= np.linalg.norm(u)
    w = np.cross(nv, u)
    flat = ctx.rng.uniform(-100.0, 100.0, (n, 2))
    thick = ctx.choice([0.0, 0.5])
    p = flat[:, :1] * u + flat[:, 1:] * w + ctx.rng.uniform(-thick, thick, (n, 1)) * nv + ctx.rng.uniform(-500.0, 500.0, 3)
    linalg = ctx.flag(0.7)
    rough = ctx.flag()
    max_dip = ctx.choice([None, None, 20.0, 60.0])
    dip = math.degrees(math.acos(min(1.0, nv[2])))
    before = p.copy()
    q, v, m = tri.reorient(p, rough = rough, max_dip = max_dip, use_linalg = linalg, sample = ctx.choice([500, None]))
    ctx.sig(n, linalg, rough, max_dip, round(dip / 10))
    ctx.check(np.array_equal(p, before), 'argument', 'points changed')
    ctx.close(m @ m.T, np.eye(3), 'matrix', tol = 1.0e-9)
    ctx.close(np.linalg.det(m), 1.0, 'matrix', tol = 1.0e-9)
    ctx.close(q, p @ m.T, 'rotated', tol = 1.0e-6)
    up = m.T @ np.array([0.0, 0.0, 1.0])
    got = math.degrees(math.acos(min(1.0, max(-1.0, up[2]))))
    if max_dip is not None:
        ctx.check(got <= max_dip + 0.01, 'max-dip', 'dip of rotation exceeds limit', got = got, limit = max_dip)
    free = max_dip is None or dip < max_dip - 15.0
    lim = (1.0 if linalg else (20.0 if rough else 8.0)) + (0.5 if thick else 0.0)
    ctx.close(abs(np.linalg.norm(v)), 1.0, 'normal', tol = 1.0e-6)
    if free and n >= 50 or (linalg and free):
        ang = math.degrees(math.acos(min(1.0, abs(float(v @ nv)))))
        ctx.check(ang <= lim, 'normal', 'normal vector', angle = ang, limit = lim)
        ang = math.degrees(math.acos(min(1.0, abs(float(up @ nv)))))
        ctx.check(ang <= lim, 'rotation', 'rotation does not take normal to z axis', angle = ang, limit = lim)
        if linalg:
            ctx.check(v[2] >= 0.0, 'normal', 'normal vector in negative hemisphere')
    elif thick == 0.0 and max_dip is not None and dip > max_dip + 15.0 and linalg:
        ctx.close(got, max_dip, 'max-dip', tol = 0.01)
        a = math.degrees(math.atan2(up[0], up[1])) - math.degrees(math.atan2(nv[0], nv[1]))
        ctx.check(abs((a + 180.0) % 360.0 - 180.0) < 10.0, 'max-dip', 'direction of dip', off = a)
    # rings
    count = ctx.integer(3, 15)
    factor = ctx.choice([1.5, 10.0])
    dist = ctx.choice([None, 1.0, 5000.0])
    inner = ctx.flag()
    angle = ctx.choice([None, 0.0, 30.0, -45.0])
    r = tri.surrounding_xy_ring(p, count = count, radial_factor = factor, radial_distance = dist, inner_ring = inner, saucer_angle = angle)
    ctx.equal(r.shape, (3 * count if inner else count, 3), 'ring', 'points in ring')
    c = p.mean(axis = 0)
    d = np.hypot(*(r - c)[:, :2].T)
    most = np.hypot(*(p - c)[:, :2].T).max()
    outer = d[-count:]
    ctx.check(np.ptp(outer) < 1.0e-6 * outer.max(), 'ring', 'distance varies round ring')
    ctx.check(outer[0] >= max(dist or 0.0, factor * most) - 1.0e-6 and outer[0] <= max(dist or 0.0, factor * most * 1.5) + 1.0e-6, 'ring', 'radius of ring',
              got = outer[0], furthest = most, factor = factor, dist = dist)
    if inner:
        ctx.check(np.ptp(d[:2 * count]) < 1.0e-6 * d.max() and most < d[0] < outer[0] and d[0] < most * 1.6, 'ring', 'inner ring', got = d[0], furthest = most)
    ctx.close(r[:, 2], c[2] - d * math.tan(math.radians(angle or 0.0)), 'ring-z', tol = 1.0e-6 * d.max())
    for x in (r[-count:],) + ((r[:2 * count],) if inner else ()):
        th = np.unwrap(np.arctan2(*(x - c)[:, 1::-1].T))
        ctx.close(np.abs(np.diff(th)), np.full(len(x) - 1, 2.0 * np.pi / len(x)), 'ring', tol = 1.0e-6)


def soup(t, p, digits = 6):
    """Triangles as sorted coordinates, orientation ignored."""
    q = np.round(p[t], digits) + 0.0
    return Counter(tuple(sorted(map(tuple, x))) for x in q.tolist())


def model_and_crs(ctx):
    m = gen.model(ctx)
    b = objects.Builder(ctx, m)
    return m, b, b.add('crs')


def fresh(m, crs, title = 's'):
    import resqpy.surface as rqs
    return rqs.Surface(m, title = title, crs_uuid = crs.obj.uuid)


def make(ctx, m, crs):
    """A surface with one or more patches, and its patches."""
    s = fresh(m, crs)
    parts = [patchwork(ctx) for _ in range(ctx.choice([1, 1, 2, 3]))]
    parts = [(t, p + np.array([k * 300.0, 0.0, 0.0])) for k, (t, p) in enumerate(parts)]
    if len(parts) == 1:
        s.set_from_triangles_and_points(*parts[0])
    else:
        s.set_multi_patch_from_triangles_and_points(parts)
    off = np.cumsum([0] + [len(p) for _, p in parts])
    t = np.concatenate([t + o for (t, _), o in zip(parts, off)])
    p = np.concatenate([p for _, p in parts])
    return s, parts, t, p


def same(ctx, s, t, p, code, tol = 0.0):
    gt, gp = s.triangles_and_points()
    ctx.equal(gt.tolist(), t.tolist(), code, 'triangles')
    ctx.equal(gp.shape, p.shape, code, 'shape of points')
    ctx.check(np.all(np.abs(gp - p) <= tol), code, 'points', most = np.abs(gp - p).max())


def surface_store(ctx):
    """Surfaces with patches come back unchanged; counts, edges and lengths."""
    import resqpy.olio.xml_et as rqet
    import resqpy.surface as rqs
    m, b, crs = model_and_crs(ctx)
    s, parts, t, p = make(ctx, m, crs)
    role = ctx.choice(['map', 'pick'])
    s.surface_role = role
    r = b.interp(0.5)
    s.set_represented_interpretation_root(r)
    nv = s.normal().copy() if ctx.flag() else None
    title = ctx.choice([None, 'named now'])
    s.write_hdf5()
    s.create_xml(title = title)
    m.store_epc()
    ctx.sig(len(parts), len(t), role, r is None, nv is None)
    if ctx.flag():
        import resqpy.model as rq
        m2 = rq.Model(m.epc_file)
    else:
        m2 = m
    s2 = rqs.Surface(m2, uuid = s.uuid)
    ctx.equal(s2.surface_role, role, 'role', 'surface role')
    ctx.equal(str(s2.crs_uuid), str(crs.obj.uuid), 'crs', 'crs')
    ctx.equal(s2.title, title or 's', 'title', 'title')
    ctx.equal(objects.norm(s2.represented_interpretation_root), objects.norm(r), 'interpretation', 'represented interpretation')
    ru = rqet.uuid_for_part_root(r) if r is not None else None
    ctx.equal(objects.norm(s2.represented_interpretation_uuid), objects.norm(ru), 'interpretation', 'uuid')
    if r is not None:
        ctx.observe('interpreted')
        ctx.check(any(str(u) == str(ru) for u in m2.uuids(related_uuid = s.uuid)), 'interpretation', 'interpretation not related to surface')
        ctx.check(any(str(u) == str(s.uuid) for u in m2.uuids(related_uuid = ru)), 'interpretation', 'surface not related to interpretation')
    if nv is not None:
        ctx.check(s2.normal_vector is not None, 'kept-normal', 'normal vector not kept')
        ctx.close(s2.normal_vector, nv, 'kept-normal', tol = 1.0e-12)
    for x in (s, s2):
        ctx.equal(x.number_of_patches(), len(parts), 'patches', 'number of patches')
        ctx.equal(int(x.triangle_count()), len(t), 'counts', 'triangle count')
        ctx.equal(int(x.node_count()), len(p), 'counts', 'node count')
        whole_first = ctx.flag()
        if whole_first:
            same(ctx, x, t, p, 'whole')
        for k in ctx.rng.permutation(len(parts)):
            k = int(k)
            ctx.equal((int(x.triangle_count(patch = k)), int(x.node_count(patch = k))), (len(parts[k][0]), len(parts[k][1])), 'patch-counts', 'counts of patch')
            gt, gp = x.triangles_and_points(patch = k, copy = ctx.flag())
            ctx.check(np.array_equal(gt, parts[k][0]) and np.array_equal(gp, parts[k][1]), 'patch', 'triangles and points of patch')
            e, c = x.distinct_edges_and_counts(patch = k)
            cnt = Counter(tuple(sorted((int(y[i]), int(y[(i + 1) % 3])))) for y in parts[k][0] for i in range(3))
            ctx.equal(dict(zip(map(tuple, e.tolist()), c.tolist())), dict(cnt), 'patch-edges', 'edges of patch')
            ctx.equal(x.distinct_edges(patch = k).tolist(), e.tolist(), 'patch-edges', 'edges')
        if ctx.flag():
            x.decache_triangles_and_points()
        same(ctx, x, t, p, 'whole')
        a, c = x.triangles_and_points(copy = True)
        a[:] = 0
        c[:] = 0.0
        same(ctx, x, t, p, 'copy')
        # lengths and normals
        uom = ctx.choice([None, 'm', 'ft', 'km'])
        k = ctx.choice([None] + list(range(len(parts))))
        tt, pp = (t, p) if k is None else parts[k]
        q = pp.copy()
        cr = crs.obj
        u = uom or cr.xy_units
        q[:, :2] *= FACTOR[cr.xy_units] / FACTOR[u]
        q[:, 2] *= FACTOR[cr.z_units] / FACTOR[u]
        exp = np.linalg.norm(q[np.roll(tt, -1, axis = 1)] - q[tt], axis = -1)
        ctx.close(x.edge_lengths(required_uom = uom, patch = k), exp, 'edge-lengths', rtol = 1.0e-6, uom = uom, units = (cr.xy_units, cr.z_units))
        q = pp.copy()
        q[:, 2] *= FACTOR[cr.z_units] / FACTOR[cr.xy_units]
        nv = np.cross(q[tt[:, 1]] - q[tt[:, 0]], q[tt[:, 2]] - q[tt[:, 0]])
        nv /= np.linalg.norm(nv, axis = 1)[:, None]
        flip = (nv[:, 2] > 0) == bool(cr.z_inc_down)  # normals point upwards
        nv[flip] *= -1
        store = k is None and x is s2 and ctx.flag(0.6)
        got = x.normal_vectors(patch = k, add_as_property = store)
        ctx.close(got, nv, 'normal-vectors', tol = 1.0e-6)
        if store:
            stored_normals(ctx, x, got)
        same(ctx, x, t, p, 'unchanged')
    # combined surface
    s3, _, t3, p3 = make(ctx, m2, crs)
    comb = rqs.CombinedSurface([s2, s3] if ctx.flag() else [rqs.CombinedSurface([s2]), s3])
    gt, gp = comb.triangles_and_points()
    ctx.check(np.array_equal(gt, np.concatenate([t, t3 + len(p)])) and np.array_equal(gp, np.concatenate([p, p3])), 'combined', 'combined triangles and points')
    k = ctx.integer(0, len(gt) - 1)
    ctx.equal(tuple(int(i) for i in comb.surface_index_for_triangle_index(k)), (0, k) if k < len(t) else (1, k - len(t)), 'combined', 'surface of triangle')
    same(ctx, s2, t, p, 'unchanged')


FACTOR = {'m': 1.0, 'ft': 0.3048, 'ft[US]': 1200.0 / 3937.0, 'km': 1000.0, 'cm': 0.01, 'mm': 0.001, 'in': 0.0254, 'yd': 0.9144}


def stored_normals(ctx, s, nv):
    """Normal vectors kept as a points property of the surface, found again from the dataset."""
    import resqpy.model as rq
    import resqpy.property as rqp
    m = s.model
    m.store_epc()
    for model in (m, rq.Model(m.epc_file)):
        parts = model.parts(obj_type = 'PointsProperty', title = 'normal vector', related_uuid = s.uuid)
        ctx.equal(len(parts), 1, 'stored-normals', 'normal vector properties of surface')
        pc = rqp.PropertyCollection(support = model_surface(model, s.uuid))
        part = parts[0]
        ctx.check(part in pc.parts(), 'stored-normals', 'property not in collection of surface')
        ctx.equal((pc.property_kind_for_part(part), pc.indexable_for_part(part), bool(pc.points_for_part(part))), ('normal vector', 'faces', True), 'stored-normals', 'kind, indexable element and points')
        ctx.close(pc.cached_part_array_ref(part), nv, 'stored-normals')
    ctx.observe('stored normals')


def model_surface(model, uuid):
    import resqpy.surface as rqs
    return rqs.Surface(model, uuid = uuid)


def surface_reuse(ctx):
    """A surface given new triangles holds those and nothing of what it held before."""
    m, b, crs = model_and_crs(ctx)
    s, parts, t, p = make(ctx, m, crs)
    n = ctx.integer(1, 3)
    for _ in range(n):
        if ctx.flag(0.7):
            same(ctx, s, t, p, 'reused')
        if ctx.flag():
            s.decache_triangles_and_points()
        _, parts, t, p = make(ctx, m, crs)
        if len(parts) == 1 and ctx.flag(0.7):
            a, c = parts[0][0].copy(), parts[0][1].copy()
            s.set_from_triangles_and_points(a, c)
            a[:], c[:] = 0, 0.0
            ctx.observe('single')
        else:
            s.set_multi_patch_from_triangles_and_points(parts)
            ctx.observe('multiple')
        same(ctx, s, t, p, 'reused')
        ctx.equal((int(s.triangle_count()), int(s.node_count()), s.number_of_patches()), (len(t), len(p), len(parts)), 'reused', 'counts')
    ctx.sig(n, len(parts), len(t))
    s.write_hdf5()
    s.create_xml()
    m.store_epc()
    same(ctx, model_surface(m, s.uuid), t, p, 'reused')


def surface_edit(ctx):
    """Trimming, splitting, rescaling, refining and thinning of surfaces."""
    import resqpy.lines as rql
    import resqpy.olio.xml_et as rqet
    import resqpy.surface as rqs
    m, b, crs = model_and_crs(ctx)
    s, parts, t, p = make(ctx, m, crs)
    if ctx.flag():
        s.write_hdf5()
        s.create_xml()
        m.store_epc()
        s = rqs.Surface(m, uuid = s.uuid)
        ctx.observe('from dataset')
    op = ctx.choice(['trim', 'trim', 'split', 'rescale', 'resample', 'downsample', 'distill', 'nan', 'clockwise', 'crs', 'sample', 'crossings', 'line'])
    ctx.observe(op)
    ctx.sig(op, len(parts), len(t))
    lo, hi = p.min(axis = 0), p.max(axis = 0)
    if op == 'trim':
        out = fresh(m, crs, None)
        kw = {}
        inside = np.ones(len(p), dtype = bool)
        if ctx.flag(0.7):
            f = ctx.rng.uniform(-0.1, 1.1, (2, 3))
            if ctx.flag():
                f[:, 2] = (-1.0, 2.0)
            box = lo + f * (hi - lo)
            kw['xyz_box'] = box.copy()
            inside &= np.all((p >= box.min(axis = 0)) & (p <= box.max(axis = 0)), axis = 1)
        if not kw or ctx.flag(0.4):
            c, r = (lo + ctx.rng.uniform(0.2, 0.8, 3) * (hi - lo))[:2], ctx.uniform(0.2, 0.8) * (hi - lo)[:2]
            th = np.arange(ctx.choice([3, 4, 8])) * 2.0 * np.pi / 8 + 0.1
            th = np.sort(ctx.rng.uniform(0.0, 2.0 * np.pi, 3)) if len(th) == 3 else np.arange(len(th)) * 2.0 * np.pi / len(th) + 0.123
            q = np.stack([c[0] + r[0] * np.cos(th), c[1] + r[1] * np.sin(th), np.zeros(len(th))], axis = 1)
            if ctx.flag():
                q = q[::-1]
            kw['xy_polygon'] = rql.Polyline(m, set_coord = q, is_closed = True, set_crs = crs.obj.uuid, title = 'trim')
            k = len(q)
            d = np.array([orient(q[i - 1], q[i], p) / np.hypot(*(q[i] - q[i - 1])[:2]) for i in range(k)])
            if np.abs(d).min() < 1.0e-6:
                raise Skip
            inside &= np.all(d > 0, axis = 0) | np.all(d < 0, axis = 0)
        exp = soup(t[np.any(inside[t], axis = 1)], p)
        out.set_to_trimmed_surface(s, **kw)
        ctx.equal(str(out.crs_uuid), str(crs.obj.uuid), 'trim', 'crs')
        if not exp:
            ctx.equal(int(out.triangle_count()), 0, 'trim', 'triangles expected')
        else:
            gt, gp = out.triangles_and_points()
            ctx.check(soup(gt, gp) == exp, 'trim', 'triangles after trimming', got = len(gt), expected = sum(exp.values()), kw = list(kw))
            ctx.equal(sorted(set(gt.flatten().tolist())), list(range(len(gp))), 'trim-points', 'points used')
            ctx.equal((int(out.triangle_count()), int(out.node_count())), (len(gt), len(gp)), 'trim-counts', 'counts')
            ctx.equal([x.patch_index for x in out.patch_list], list(range(len(out.patch_list))), 'trim-patches', 'patch indices')
    elif op == 'split':
        a = lo + ctx.rng.uniform(0.0, 1.0, 3) * (hi - lo)
        c = lo + ctx.rng.uniform(0.0, 1.0, 3) * (hi - lo)
        delta = ctx.rng.uniform(-50.0, 50.0, (2, 3))
        side = orient(a, c, p)
        if np.abs(side).min() < 1.0e-6 * np.hypot(*(c - a)[:2]):
            raise Skip
        right = side < 0
        out = fresh(m, crs)
        out.set_to_split_surface(s, np.stack([a, c]), delta)
        exp = soup(t[np.any(right[t], axis = 1)], p + delta[0]) + soup(t[np.any(~right[t], axis = 1)], p + delta[1])
        gt, gp = out.triangles_and_points()
        got = soup(gt, gp)
        ctx.check(got == exp, 'split', 'triangles after splitting', got = sum(got.values()), expected = sum(exp.values()))
        ctx.equal(sorted(set(gt.flatten().tolist())), list(range(len(gp))), 'split-points', 'points used')
    elif op == 'rescale':
        ref, f = ctx.choice([None, 90.0, 100.0]), ctx.choice([0.5, 1.0, -2.0, 3.0])
        if ctx.flag():
            s.normal()
        s.vertical_rescale_points(ref_depth = ref, scaling_factor = f)
        q = p.copy()
        r = p[:, 2].min() if ref is None else ref
        q[:, 2] = r + f * (p[:, 2] - r)
        same(ctx, s, t, q, 'rescale', tol = 1.0e-9)
        p = q
        new = fresh(m, crs)
        new.set_from_triangles_and_points(t, q)
        ctx.close(s.normal(), new.normal(), 'normal', tol = 1.0e-6)
    elif op == 'resample':
        out = s.resampled_surface(title = ctx.choice([None, 'fine']))
        gt, gp = out.triangles_and_points()
        q = p[t]
        mid = [0.5 * (q[:, i] + q[:, (i + 1) % 3]) for i in range(3)]
        exp = np.concatenate([np.stack([q[:, i], mid[i], mid[i - 1]], axis = 1) for i in range(3)] + [np.stack(mid, axis = 1)])
        e = soup(np.arange(len(exp) * 3).reshape(-1, 3), exp.reshape(-1, 3))
        ctx.check(soup(gt, gp) == e, 'resample', 'triangles after refining', got = len(gt), expected = len(exp))
        ctx.equal(len(np.unique(gp, axis = 0)), len(gp), 'resample', 'distinct points')
        ctx.equal(out.extra_metadata.get('resampled from surface'), str(s.uuid), 'resample', 'reference to source')
    elif op == 'downsample':
        n = ctx.choice([None, 3, 5, 10, 1000])
        used = np.unique(t)
        n2 = max(3, len(p) // 100 if n is None else n)
        if n2 < len(p) and len(parts) == 1 and n2 < 5:
            n = n2 = 5
        r, em = b.interp(0.6), ctx.choice([{}, {'a': 'b'}])
        s.set_represented_interpretation_root(r)
        s.extra_metadata = dict(em)
        s.surface_role = ctx.choice(['map', 'pick'])
        target = gen.model(ctx, crs = False, name = 'target.epc') if ctx.flag() else None
        keep_r, keep_em, name = ctx.flag(0.7), ctx.flag(0.7), ctx.choice([None, 'coarse'])
        out = rqs.Surface.from_downsampling_surface(s, point_count = n, title = name, target_model = target, inherit_extra_metadata = keep_em,
                                                    inherit_represented_interpretation = keep_r)
        ctx.equal((out.title, out.surface_role, str(out.crs_uuid)), (name or s.title, s.surface_role, str(crs.obj.uuid)), 'downsample', 'title, role and crs')
        ctx.check(out.model is (target or m), 'downsample', 'model of result')
        ctx.equal({k: v for k, v in (out.extra_metadata or {}).items() if k in ('a',)}, em if keep_em else {}, 'downsample', 'extra metadata')
        out.write_hdf5()
        out.create_xml()
        out.model.store_epc()
        out = rqs.Surface(out.model, uuid = out.uuid)
        exp = rqet.uuid_for_part_root(r) if keep_r and r is not None else None
        ctx.equal(objects.norm(out.represented_interpretation_uuid), objects.norm(exp), 'downsample', 'interpretation', inter = target is not None)
        if exp is not None:
            ctx.equal(len(out.model.parts(uuid = exp)), 1, 'downsample', 'interpretation not in model of result')
        ctx.equal(len(out.model.parts(uuid = crs.obj.uuid)), 1, 'downsample', 'crs not in model of result')
        gt, gp = out.triangles_and_points()
        if n2 >= len(p):
            ctx.check(np.array_equal(gt, t) and np.array_equal(gp, p), 'downsample', 'copy expected')
        else:
            have = set(map(tuple, p.tolist()))
            ctx.equal(len(gp), n2, 'downsample', 'number of points')
            ctx.check(len(set(map(tuple, gp.tolist()))) == n2 and all(tuple(x) in have for x in gp.tolist()), 'downsample', 'points are a subset')
            total, _ = hull_area(gp[:, :2])
            a = np.abs(orient(gp[gt[:, 0]], gp[gt[:, 1]], gp[gt[:, 2]])).sum()
            ctx.close(a, total, 'downsample-area', rtol = 1.0e-6)
    elif op == 'distill':
        from resqpy.surface._surface import distill_triangle_points
        gt, gp = distill_triangle_points(t, p)
        ctx.check(np.array_equal(gp[gt], p[t]), 'distill', 'triangles changed')
        ctx.equal(len(gp), len(np.unique(t)), 'distill', 'points kept')
        ctx.equal(sorted(set(gt.flatten().tolist())), list(range(len(gp))), 'distill', 'points used')
    elif op == 'nan':
        from resqpy.surface._surface import nan_removed_triangles_and_points
        q = p.copy()
        bad = ctx.rng.random(len(p)) < 0.15
        q[bad, ctx.integer(0, 2)] = np.nan
        gt, gp = nan_removed_triangles_and_points(t, q)
        keep = t[~np.any(bad[t], axis = 1)]
        ctx.check(np.array_equal(gp, p[~bad]), 'nan', 'points kept')
        ctx.check(np.array_equal(gp[gt], p[keep]), 'nan', 'triangles kept')
    elif op == 'clockwise':
        turn = ctx.flag(0.3)
        s.make_all_clockwise_xy(reorient = turn)
        gt, gp = s.triangles_and_points()
        ctx.check(np.array_equal(np.sort(gt, axis = 1), np.sort(t, axis = 1)) and np.array_equal(gp, p), 'clockwise', 'other than order changed')
        if turn:
            import resqpy.olio.triangulation as tri
            gp = gp.copy()
            gp[:, 2] *= FACTOR[crs.obj.z_units] / FACTOR[crs.obj.xy_units]
            gp = tri.reorient(gp)[0]
        o = orient(gp[gt[:, 0]], gp[gt[:, 1]], gp[gt[:, 2]])
        ctx.check(np.all(o < 1.0e-6), 'clockwise', 'not clockwise', turn = turn)
        t = gt
    elif op == 'crs':
        other = b.add('crs')
        nv = s.normal()
        old = str(s.uuid)
        s.change_crs(other.obj)
        ctx.equal(str(s.crs_uuid), str(other.obj.uuid), 'crs', 'crs of surface')
        q = p.copy()
        if not (other.obj == crs.obj):
            q = other.obj.convert_array_from(crs.obj, q)
            ctx.check(str(s.uuid) != old, 'crs', 'uuid unchanged')
        gt, gp = s.triangles_and_points()
        ctx.equal(gt.tolist(), t.tolist(), 'crs', 'triangles')
        ctx.close(gp, q, 'crs-points', tol = 1.0e-6 * (1.0 + np.abs(q).max()))
        new = fresh(m, other)
        new.set_from_triangles_and_points(t, gp)
        ctx.close(s.normal(), new.normal(), 'normal', tol = 1.0e-6)
        p = gp
    elif op in ('sample', 'line'):
        q = np.column_stack([ctx.rng.uniform(lo[0] - 5, hi[0] + 5, 20), ctx.rng.uniform(lo[1] - 5, hi[1] + 5, 20), ctx.rng.uniform(0, 9, 20)])
        k = ctx.choice([None] + list(range(len(parts))))
        tt, pp = (t, p) if k is None else parts[k]
        if op == 'sample' and len(parts) == 1 and ctx.flag():  # a second layer
            off = 20.0
            s = fresh(m, crs)
            tt, pp = np.concatenate([t, t + len(p)]), np.concatenate([p, p + np.array([0.0, 0.0, off])])
            s.set_from_triangles_and_points(tt, pp)
            t, p, k = tt, pp, None
            double = True
        else:
            double = False
        exp, sure = [], []
        for x in q:
            w = np.stack([orient(pp[tt[:, 1]], pp[tt[:, 2]], x), orient(pp[tt[:, 2]], pp[tt[:, 0]], x), orient(pp[tt[:, 0]], pp[tt[:, 1]], x)], axis = 1)
            w = w / w.sum(axis = 1)[:, None]
            lowest = w.min(axis = 1)
            sure.append(np.all(np.abs(lowest) > 1.0e-3))
            hit = lowest > 0
            exp.append(sorted((w[hit] * pp[tt[hit], 2]).sum(axis = 1).tolist()))
        if op == 'sample':
            mode = ctx.choice(['any', 'minimum', 'maximum', 'exception'])
            shape = ctx.choice([(20,), (4, 5)])
            dim = ctx.choice([2, 3])
            ok = np.array(sure)
            if mode == 'exception' and any(len(e) > 1 for e in exp):
                ctx.raises(ValueError, lambda: s.sample_z_at_xy_points(q, multiple_handling = mode, patch = k), 'sample-multiple')
            else:
                z = s.sample_z_at_xy_points(q[:, :dim].reshape(shape + (dim,)), multiple_handling = mode, patch = k)
                ctx.equal(z.shape, shape, 'sample', 'shape')
                z = z.flatten()
                for i in np.nonzero(ok)[0]:
                    if not exp[i]:
                        ctx.check(np.isnan(z[i]), 'sample', 'value away from surface', got = z[i])
                        continue
                    ctx.observe('sampled')
                    e = exp[i][-1 if mode == 'maximum' else 0]
                    ctx.check(abs(z[i] - e) < 1.0e-6 or (mode == 'any' and any(abs(z[i] - y) < 1.0e-6 for y in exp[i])), 'sample', 'sampled value',
                              got = z[i], expected = exp[i], mode = mode, double = double)
        else:
            for i in range(20):
                if not sure[i]:
                    continue
                got = s.line_intersection(np.array([q[i, 0], q[i, 1], 0.0]), np.array([0.0, 0.0, ctx.choice([1.0, -2.0])]), patch = k)
                ctx.equal(got is not None, bool(exp[i]), 'line', 'line meets surface')
                if exp[i]:
                    ctx.close(got, np.array([q[i, 0], q[i, 1], exp[i][0]]), 'line', tol = 1.0e-6)
                    reach = ctx.choice([0.5, 1.5, -1.5])
                    seg = s.line_intersection(np.array([q[i, 0], q[i, 1], 0.0]), np.array([0.0, 0.0, exp[i][0] * reach]), line_segment = True, patch = k)
                    ctx.observe('segment hit' if seg is not None else 'segment short')
                    ctx.equal(seg is not None, reach > 1.0, 'segment', 'segment meets surface')
                    if seg is not None:
                        ctx.close(seg, np.array([q[i, 0], q[i, 1], exp[i][0]]), 'segment', tol = 1.0e-6)
    else:
        ax = ctx.integer(0, 2)
        v = ctx.uniform(lo[ax] - 2, hi[ax] + 2)
        got = s.axial_edge_crossings(ax, v)
        es = sorted(set(tuple(sorted((int(x[k]), int(x[(k + 1) % 3])))) for x in t for k in range(3)))
        exp = []
        for i, j in es:
            a, c = p[i], p[j]
            if (a[ax] - v) * (c[ax] - v) < 0:
                exp.append(a + (c - a) * (v - a[ax]) / (c[ax] - a[ax]))
        if not exp:
            ctx.check(got is None, 'crossings', 'no crossing expected')
        else:
            ctx.close(got, np.array(exp), 'crossings', tol = 1.0e-6 * np.abs(exp).max())
    if op not in ('rescale', 'clockwise', 'crs'):
        same(ctx, s, t, p, 'source-changed')


def check_soup(ctx, s, tris, code):
    """Triangles given as corner coordinates, any orientation and order."""
    t, p = s.triangles_and_points()
    tris = np.asarray(tris)
    exp = soup(np.arange(len(tris) * 3).reshape(-1, 3), tris.reshape(-1, 3))
    got = soup(t, p)
    ctx.check(got == exp, code, 'triangles', got = sum(got.values()), expected = sum(exp.values()), missing = list((exp - got))[:2], extra = list(got - exp)[:2])
    ctx.equal((int(s.triangle_count()), int(s.node_count())), (len(t), len(p)), code, 'counts')
    ctx.check(t.min() >= 0 and t.max() < len(p), code, 'indices')


def quads(q, quad):
    """Triangles of quadrilateral with corners q in order round the edge; both diagonals where not quad."""
    if quad:
        c = np.mean(q, axis = 0)
        return [[c, q[i], q[(i + 1) % 4]] for i in range(4)]
    return [[q[0], q[1], q[3]], [q[2], q[1], q[3]]]


def surface_make(ctx):
    """Surfaces made from meshes, cells, planes and files cover what they should."""
    import resqpy.surface as rqs
    m, b, crs = model_and_crs(ctx)
    s = fresh(m, crs)
    quad = ctx.flag()
    op = ctx.choice(['mesh', 'sparse', 'torn', 'cell', 'cells', 'plane', 'triangle', 'pair', 'sail', 'tsurf'])
    ctx.observe(op)
    nj, ni = (int(x) for x in ctx.rng.integers(1, 6, 2))
    ctx.sig(op, quad, nj, ni)
    mesh = np.zeros((nj + 1, ni + 1, 3))
    mesh[..., 0] = np.arange(ni + 1) * 10.0
    mesh[..., 1] = np.arange(nj + 1)[:, None] * 7.0
    mesh += ctx.rng.uniform(-2.0, 2.0, mesh.shape)
    tris = None
    if op == 'mesh':
        if ctx.flag(0.3):
            o = rqs.Mesh(m, xyz_values = mesh, crs_uuid = crs.obj.uuid, title = 'm')
            s.set_from_mesh_object(o, quad_triangles = quad)
        else:
            s.set_from_irregular_mesh(mesh, quad_triangles = quad)
        tris = [x for j in range(nj) for i in range(ni) for x in quads([mesh[j, i], mesh[j, i + 1], mesh[j + 1, i + 1], mesh[j + 1, i]], quad)]
        check_soup(ctx, s, tris, 'mesh')
    elif op == 'torn':
        torn = np.zeros((nj, ni, 2, 2, 3))
        for jp in range(2):
            for ip in range(2):
                torn[:, :, jp, ip] = mesh[jp:nj + jp, ip:ni + ip]
        torn[..., 2] += ctx.rng.uniform(0.0, 5.0, (nj, ni, 1, 1))
        s.set_from_torn_mesh(torn, quad_triangles = quad)
        tris = [x for j in range(nj) for i in range(ni) for x in quads([torn[j, i, 0, 0], torn[j, i, 0, 1], torn[j, i, 1, 1], torn[j, i, 1, 0]], quad)]
        check_soup(ctx, s, tris, 'torn')
    elif op == 'sparse':
        bad = ctx.rng.random((nj + 1, ni + 1)) < 0.25
        mesh[bad, 2] = np.nan
        if ctx.flag(0.3):
            mesh[bad] = np.nan
        exp, loose = [], []
        for j in range(nj):
            for i in range(ni):
                q = [mesh[j, i], mesh[j, i + 1], mesh[j + 1, i + 1], mesh[j + 1, i]]
                q = [x for x in q if not np.isnan(x[2])]
                if len(q) == 4:
                    exp += quads(q, False)
                elif len(q) == 3:
                    exp.append(q)
        if not exp:
            raise Skip
        s.set_from_sparse_mesh(mesh)
        check_soup(ctx, s, exp, 'sparse')
        ctx.equal(int(s.node_count()), int((~bad).sum()), 'sparse', 'points kept')
        ctx.equal(s.column_from_triangle_index(0), (None, None), 'column', 'column of sparse mesh')
    elif op in ('cell', 'cells'):
        n = 1 if op == 'cell' else ctx.integer(1, 4)
        cp = np.array([[[[(i, j, k) for i in (0., 1.)] for j in (0., 1.)] for k in (0., 1.)]] * n) * 10.0 + ctx.rng.uniform(-2.0, 2.0, (n, 2, 2, 2, 3))
        if op == 'cell':
            s.set_to_single_cell_faces_from_corner_points(cp[0], quad_triangles = quad)
        else:
            s.set_to_multi_cell_faces_from_corner_points(cp, quad_triangles = quad)
        t, p = s.triangles_and_points()
        per = 4 if quad else 2
        ctx.equal(len(t), n * 6 * per, 'cell', 'number of triangles')
        for i in range(len(t)):
            c, ax, pol = s.cell_axis_and_polarity_from_triangle_index(i)
            ctx.equal((c, ax, pol), (i // (6 * per), i % (6 * per) // (2 * per), i % (2 * per) // per), 'cell', 'face of triangle')
            f = np.take(cp[c], pol, axis = ax).reshape(4, 3)
            ok = np.vstack([f, f.mean(axis = 0)])
            d = [np.abs(ok - x).max(axis = 1).min() for x in p[t[i]]]
            ctx.check(max(d) < 1.0e-9, 'cell', 'triangle not on its face', triangle = i, axis = ax, polarity = pol)
            if op == 'cell':
                ctx.equal(tuple(s.patch_list[0].face_from_triangle_index(i)), (ax, pol), 'cell', 'face of triangle in patch')
        v = p[t]
        vol = np.abs(np.einsum('ij,ij->i', np.cross(v[:, 0], v[:, 1]), v[:, 2]))
        for c in range(n):  # each face covered exactly once: every edge of the closed surface is used twice
            e = Counter()
            for x in np.round(v[c * 6 * per:(c + 1) * 6 * per], 6).tolist():
                for k in range(3):
                    e[tuple(sorted((tuple(x[k]), tuple(x[(k + 1) % 3]))))] += 1
            ctx.equal(set(e.values()), {2}, 'cell', 'surface of cell closed')
    elif op == 'plane':
        box = ctx.rng.uniform(-100.0, 100.0, (2, 3))
        box.sort(axis = 0)
        border, depth = ctx.choice([0.0, 5.0]), ctx.uniform(0.0, 99.0)
        before = box.copy()
        s.set_to_horizontal_plane(depth, box, border = border, quad_triangles = quad)
        ctx.check(np.array_equal(box, before), 'argument', 'box changed')
        x0, y0 = box[0, :2] - border
        x1, y1 = box[1, :2] + border
        q = np.array([(x0, y0, depth), (x0, y1, depth), (x1, y1, depth), (x1, y0, depth)])
        t, p = s.triangles_and_points()
        ctx.equal(len(t), 4 if quad else 2, 'plane', 'number of triangles')
        ctx.close(np.abs(orient(p[t[:, 0]], p[t[:, 1]], p[t[:, 2]])).sum() / 2.0, (x1 - x0) * (y1 - y0), 'plane', rtol = 1.0e-9)
        ctx.close(p[:, 2], np.full(len(p), depth), 'plane-z', tol = 1.0e-9)
        ctx.close(np.array([p.min(axis = 0), p.max(axis = 0)]), np.array([q.min(axis = 0), q.max(axis = 0)]), 'plane', tol = 1.0e-9)
        e = Counter(tuple(sorted((int(x[k]), int(x[(k + 1) % 3])))) for x in t for k in range(3))
        ctx.equal(sum(1 for v in e.values() if v == 1), 4, 'plane', 'rim edges')
    elif op == 'triangle':
        q = ctx.rng.uniform(-9.0, 9.0, (3, 3))
        s.set_to_triangle(q)
        check_soup(ctx, s, [q], 'triangle')
    elif op == 'pair':
        q = mesh[:2, :2]
        s.set_to_triangle_pair(q if ctx.flag() else q.reshape(4, 3))
        t, p = s.triangles_and_points()
        ctx.check(np.array_equal(p, q.reshape(4, 3)) and len(t) == 2, 'pair', 'points')
        e = Counter(tuple(sorted((int(x[k]), int(x[(k + 1) % 3])))) for x in t for k in range(3))
        ctx.equal(sorted(k for k, v in e.items() if v == 1), [(0, 1), (0, 2), (1, 3), (2, 3)], 'pair', 'rim in logical order')
    elif op == 'sail':
        n, r = ctx.integer(1, 8), ctx.uniform(10.0, 100.0)
        c = ctx.rng.uniform(-50.0, 50.0, 3)
        s.set_to_sail(n, c, r, ctx.uniform(0.0, 360.0), 90.0 / n * ctx.uniform(0.3, 1.0))
        t, p = s.triangles_and_points()
        ctx.equal((len(t), len(p)), (n * n, (n + 1) * (n + 2) // 2), 'sail', 'counts')
        ctx.close(np.linalg.norm(p - c, axis = 1), np.full(len(p), r), 'sail', tol = 1.0e-6 * r)
        e = Counter(tuple(sorted((int(x[k]), int(x[(k + 1) % 3])))) for x in t for k in range(3))
        ctx.equal((sum(1 for v in e.values() if v == 1), sum(1 for v in e.values() if v == 2), len(e)), (3 * n, 3 * n * (n - 1) // 2, 3 * n * (n + 1) // 2),
                  'sail', 'edges of a large triangle')
    else:
        t, p = patchwork(ctx)
        off = ctx.choice([1, 0, 5])
        fn = ctx.path('a.ts')
        with open(fn, 'w') as f:
            f.write('GOCAD TSurf 1\nHEADER {\nname: surf\n}\nTFACE\n')
            for i, x in enumerate(p):
                f.write(ctx.choice(['VRTX', 'PVRTX']) + f' {i + off} {x[0]!r} {x[1]!r} {x[2]!r}'.replace('np.float64(', '').replace(')', '') + '\n')
            for x in t + off:
                f.write(f'TRGL {x[0]} {x[1]} {x[2]}\n')
            f.write('END\n')
        if ctx.flag():
            s = rqs.Surface(m, tsurf_file = fn, crs_uuid = crs.obj.uuid, title = 's')
        else:
            s.set_from_tsurf_file(fn)
        same(ctx, s, t, p, 'tsurf')
    if op in ('mesh', 'torn'):
        t, p = s.triangles_and_points()
        per = 4 if quad else 2
        for k in list(ctx.rng.integers(0, len(t), 4)) + [len(t)]:
            got = s.column_from_triangle_index(int(k))
            ctx.equal(tuple(got), (None, None) if k >= len(t) else divmod(int(k) // per, ni), 'column', 'column of triangle')
        j, i = s.column_from_triangle_index(np.arange(len(t)))
        ctx.equal(list(zip(j.tolist(), i.tolist())), [divmod(k // per, ni) for k in range(len(t))], 'column', 'columns of triangles')
        src = mesh if op == 'mesh' else None
        for k in range(len(t)):
            c = p[t[k]]
            if op == 'mesh':
                f = mesh[j[k]:j[k] + 2, i[k]:i[k] + 2].reshape(4, 3)
            else:
                f = torn[j[k], i[k]].reshape(4, 3)
            f = np.vstack([f, f.mean(axis = 0)])
            ctx.check(max(np.abs(f - x).max(axis = 1).min() for x in c) < 1.0e-9, 'column', 'triangle not in its column')
    if ctx.flag(0.3):
        t, p = (x.copy() for x in s.triangles_and_points())
        s.write_hdf5()
        s.create_xml()
        m.store_epc()
        import resqpy.model as rq
        same(ctx, rqs.Surface(rq.Model(m.epc_file), uuid = s.uuid), t, p, 'stored')


def point_set(ctx):
    """Surfaces made from point sets: every point used, the hull covered, the flange around."""
    import resqpy.olio.triangulation as tri
    import resqpy.surface as rqs
    m, b, crs = model_and_crs(ctx)
    n = ctx.integer(6, 40)
    re = ctx.flag()
    nv = ctx.rng.normal(size = 3)
    nv /= np.linalg.norm(nv)
    steep = re and ctx.flag()
    flat = np.column_stack([ctx.rng.uniform(0.0, 1000.0, (n, 2)), ctx.rng.uniform(-10.0, 10.0, n)])
    if steep:  # rotate into a steep plane; units made the same by the routine
        u = np.cross(nv, [0.0, 0.0, 1.0])
        u /= np.linalg.norm(u)
        w = np.cross(nv, u)
        p = flat[:, :1] * u + flat[:, 1:2] * w + flat[:, 2:] * nv
        p[:, 2] *= FACTOR[crs.obj.xy_units] / FACTOR[crs.obj.z_units]
    else:
        p = flat.copy()
    p += np.array([1000.0, 2000.0, 500.0])
    with_nan = p.copy()
    if ctx.flag(0.2):
        with_nan = np.vstack([p[:3], [np.nan, 1.0, 2.0], p[3:]])
    ps = rqs.PointSet(m, points_array = with_nan, crs_uuid = crs.obj.uuid, title = 'p')
    flange = ctx.flag()
    count = ctx.integer(5, 13)
    inner = ctx.flag()
    saucer = ctx.choice([None, None, 20.0, -10.0]) if re and flange else None
    cw = ctx.flag()
    s = fresh(m, crs)
    kw = dict(reorient = re, extend_with_flange = flange, flange_point_count = count, flange_radial_factor = ctx.choice([3.0, 10.0]),
              flange_radial_distance = ctx.choice([None, 20000.0]), flange_inner_ring = inner, saucer_parameter = saucer, make_clockwise = cw,
              reorient_max_dip = ctx.choice([None, None, 45.0]) if re else None)
    fl = s.set_from_point_set(ps, **kw)
    ctx.sig(n, re, steep, flange, inner, saucer, cw)
    t, q = s.triangles_and_points()
    extra = (3 * count if inner else count) if flange else 0
    ctx.equal(len(q), n + extra, 'count', 'number of points')
    ctx.close(q[:n], p, 'points', tol = 1.0e-6)
    ctx.equal(sorted(set(t.flatten().tolist())), list(range(len(q))), 'used', 'points used', kw = str(kw))
    ctx.equal(ps.full_array_ref().shape, with_nan.shape, 'source', 'point set changed')
    ctx.check(np.array_equal(ps.full_array_ref(), with_nan, equal_nan = True), 'source', 'point set changed')
    # projection in which it was triangulated
    u = p.copy()
    z = FACTOR[crs.obj.z_units] / FACTOR[crs.obj.xy_units] if re else 1.0
    u[:, 2] *= z
    v = q.copy()
    v[:, 2] *= z
    if re:
        _, normal, mat = tri.reorient(u, max_dip = kw['reorient_max_dip'])
        v = v @ mat.T
        ctx.close(np.abs(s.normal_vector), np.abs(normal), 'normal', tol = 1.0e-6)
    o = orient(v[t[:, 0]], v[t[:, 1]], v[t[:, 2]])
    total, _ = hull_area(v[:, :2])
    ctx.close(np.abs(o).sum(), total, 'area', rtol = 1.0e-4, kw = str(kw))
    if cw:
        ctx.check(np.all(o <= 1.0e-6), 'clockwise', 'triangles not clockwise', kw = str(kw), bad = int(np.sum(o > 0)), steep = steep)
    e, c = tri.edges(t)
    ctx.check(c.max() <= 2, 'edges', 'edge of more than two triangles')
    if flange:
        ctx.equal(fl.tolist(), np.any(t >= n, axis = 1).tolist(), 'flange', 'flange triangles')
        cen = v[:n].mean(axis = 0)
        d = np.hypot(*(v[n:] - cen)[:, :2].T)
        most = np.hypot(*(v[:n] - cen)[:, :2].T).max()
        lim = max(most * kw['flange_radial_factor'], kw['flange_radial_distance'] or 0.0)
        ctx.check(np.all(d[-count:] >= lim * 0.9999), 'flange', 'flange too close', got = d.min(), limit = lim)
        ctx.close(v[n:, 2], cen[2] - d * math.tan(math.radians(saucer or 0.0)), 'saucer', tol = 1.0e-4 * d.max())
    else:
        ctx.check(fl is None, 'flange', 'flange array not expected')


SCENARIOS = [
    Scenario(delaunay, 200, name = 'delaunay'),
    Scenario(voronoi, 80, name = 'voronoi'),
    Scenario(voronoi_probe, 40, name = 'voronoi_probe', probe = 'C25-voronoi-hull-apex'),
    Scenario(edges_rims, 100, name = 'edges_rims'),
    Scenario(reorient, 120, name = 'reorient'),
    Scenario(surface_store, 60, name = 'surface_store'),
    Scenario(surface_edit, 200, name = 'surface_edit'),
    Scenario(surface_reuse, 40, name = 'surface_reuse'),
    Scenario(surface_make, 160, name = 'surface_make'),
    Scenario(point_set, 100, name = 'point_set'),
]
