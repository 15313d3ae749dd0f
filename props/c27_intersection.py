"""C27: intersections of lines, triangles and planes."""

from fractions import Fraction

import numpy as np

from rv.core import Scenario, Skip
from props.spec import spec

PROP = spec('C27')


def fvec(v):
    return [Fraction(float(x)) for x in v]


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def sub(a, b):
    return [x - y for x, y in zip(a, b)]


def solve(p, v, tri):
    """Exact (t, u, w) with p + t v = t0 + u (t1 - t0) + w (t2 - t0), or None if line is parallel to plane."""
    p, v = fvec(p), fvec(v)
    t0, t1, t2 = [fvec(x) for x in tri]
    e1, e2 = sub(t1, t0), sub(t2, t0)
    n = cross(e1, e2)
    d = dot(n, v)
    if d == 0:
        return None
    t = dot(n, sub(t0, p)) / d
    q = [a + t * b for a, b in zip(p, v)]
    r = sub(q, t0)
    nn = dot(n, n)
    u = dot(n, cross(r, e2)) / nn
    w = dot(n, cross(e1, r)) / nn
    return t, u, w, q


MARGIN = Fraction(1, 10**9)


def verdict(s, segment, l_tol = 0.0, t_tol = 0.0):
    """True hit, False miss, None too close to a boundary to say."""
    if s is None:
        return False
    t, u, w, _ = s
    lt, tt = Fraction(l_tol), Fraction(t_tol)
    terms = [u + tt, w + tt, 1 + tt - u - w, 1 + tt - u]
    if segment:
        terms += [t + lt, 1 + lt - t]
    m = min(terms)
    if m > MARGIN:
        return True
    if m < -MARGIN:
        return False
    return None


def soup(ctx, n):
    k = ctx.choice(['lattice', 'lattice', 'normal', 'surface'])
    if k == 'lattice':
        return ctx.rng.integers(-6, 7, size = (n, 3, 3)).astype(float)
    if k == 'normal':
        return ctx.rng.normal(size = (n, 3, 3)) * 4.0 + ctx.choice([0.0, 100.0])
    # gently varying surface of triangles
    out = []
    w = int(np.ceil(np.sqrt(n / 2)))
    z = ctx.rng.normal(size = (w + 1, w + 1))
    for j in range(w):
        for i in range(w):
            c = [np.array((3.0 * a, 3.0 * b, z[b, a])) - np.array((1.5 * w, 1.5 * w, 0)) for a, b in ((i, j), (i + 1, j), (i + 1, j + 1), (i, j + 1))]
            out += [np.array((c[0], c[1], c[2])), np.array((c[0], c[2], c[3]))]
    out = np.array(out)[:n]
    return out


def line_for(ctx, tris):
    """A line usually aimed at or near one of the triangles."""
    tri = tris[ctx.integer(0, len(tris) - 1)]
    k = ctx.choice(['aim', 'aim', 'aim', 'vertical', 'random', 'lattice', 'axis'])
    w = ctx.rng.dirichlet((1, 1, 1)) if ctx.flag(0.75) else ctx.rng.normal(size = 3) + 0.33
    target = w @ tri
    if k == 'random':
        p, v = ctx.rng.normal(size = (2, 3)) * 6
        return p, v
    if k == 'lattice':
        return ctx.rng.integers(-7, 8, size = 3).astype(float), ctx.rng.integers(-7, 8, size = 3).astype(float)
    if k == 'vertical':
        v = np.array((0.0, 0.0, ctx.choice([-1.0, 5.0, 20.0])))
    elif k == 'axis':
        v = np.zeros(3)
        v[ctx.integer(0, 2)] = ctx.choice([-3.0, 1.0, 10.0])
    else:
        v = ctx.rng.normal(size = 3) * ctx.choice([1.0, 10.0])
    t = ctx.choice([0.5, 0.1, 0.9, ctx.uniform(-1, 2)])
    return target - t * v, v


def check_hit(ctx, got, s, e, code, scale, **data):
    if e is None:
        return
    none = got is None or np.any(np.isnan(got))
    ctx.check(none != e, code, 'intersection expected' if e else 'no intersection expected', got = got,
              exact = None if s is None else [float(x) for x in s[:3]], **data)
    if e:
        ctx.close(got, [float(x) for x in s[3]], code + '-point', tol = 1.0e-7 * scale, rtol = 1e-8, **data)


def conditioned(p, v, tri):
    """Excludes lines nearly parallel to the plane, or near degenerate triangles, where rounding decides."""
    e1, e2 = tri[1] - tri[0], tri[2] - tri[0]
    n = np.cross(e1, e2)
    nl = np.linalg.norm(n)
    vl = np.linalg.norm(v)
    if nl < 1.0e-6 * max(np.linalg.norm(e1), np.linalg.norm(e2), 1e-30)**2 or vl == 0:
        return False
    c = abs(np.dot(n, v)) / nl / vl
    return c > 1.0e-4 or np.dot(n, v) == 0.0


def single(ctx):
    import resqpy.olio.intersection as meet
    tris = soup(ctx, 4)
    hits = 0
    for tri in tris:
        for _ in range(6):
            p, v = line_for(ctx, tris)
            if not conditioned(p, v, tri):
                continue
            s = solve(p, v, tri)
            if s is None and abs(float(np.dot(np.cross(tri[1] - tri[0], tri[2] - tri[0]), v))) != 0.0:
                continue
            if s is not None and np.dot(np.negative(v), np.cross(tri[1] - tri[0], tri[2] - tri[0])) == 0.0:
                continue
            scale = 1.0 + np.max(np.abs(tri)) + np.max(np.abs(p)) + np.max(np.abs(v))
            got = meet.line_plane_intersect(p, v, tri)
            if s is None:
                ctx.check(got is None, 'parallel-plane', got = got, p = p, v = v, tri = tri)
            else:
                ctx.check(got is not None, 'plane-missed', p = p, v = v, tri = tri)
                if abs(s[0]) < 1e4:
                    ctx.close(got, [float(x) for x in s[3]], 'plane-point', tol = 1e-7 * scale * max(1.0, abs(float(s[0]))), p = p, v = v, tri = tri)
            for seg in (False, True):
                for lt, tt in ((0.0, 0.0), (ctx.choice([0.0, 0.05, 0.3]), ctx.choice([0.0, 0.02, 0.25]))):
                    e = verdict(s, seg, lt, tt)
                    hits += bool(e)
                    a = dict(p = p, v = v, tri = tri, segment = seg, l_tol = lt, t_tol = tt)
                    check_hit(ctx, meet.line_triangle_intersect(p, v, tri, line_segment = seg, l_tol = lt, t_tol = tt), s, e, 'single', scale, **a)
                    check_hit(ctx, meet.line_triangle_intersect_numba(p, v, tri, seg, lt, tt), s, e, 'numba', scale, **a)
                e = verdict(s, seg)
                perm = ctx.rng.permutation(3)
                check_hit(ctx, meet.line_triangle_intersect(p, v, tri[perm], line_segment = seg), s, e, 'vertex-order', scale, p = p, v = v, tri = tri, perm = perm)
                if seg:
                    check_hit(ctx, meet.line_triangle_intersect(p + v, -v, tri, line_segment = True), s, e, 'direction', scale, p = p, v = v, tri = tri)
    ctx.sig('single', tris.tolist())
    ctx.observe('hits', hits)


def bulk(ctx):
    import resqpy.olio.intersection as meet
    n = ctx.integer(1, 10)
    tris = soup(ctx, n)
    n = len(tris)
    c = ctx.integer(1, 6)
    lines = [line_for(ctx, tris) for _ in range(c)]
    ps = np.array([x for x, _ in lines])
    vs = np.array([x for _, x in lines])
    common = ctx.flag(0.3)
    if common:
        vs[:] = vs[0]
    seg = ctx.flag()
    ctx.sig('bulk', n, c, seg, common, tris[0].tolist(), ps[0].tolist())
    keep = [a.copy() for a in (ps, vs, tris)]
    both = meet.line_set_triangles_intersects(ps, vs[0] if common else vs, tris, line_segment = seg)
    ctx.equal(both.shape, (c, n, 3), 'bulk-shape')
    scale = 1.0 + np.max(np.abs(tris)) + np.max(np.abs(ps)) + np.max(np.abs(vs))
    hits = 0
    for li in range(c):
        one = meet.line_triangles_intersects(ps[li], vs[li], tris, line_segment = seg)
        ctx.equal(one.shape, (n, 3), 'set-shape')
        for ti in range(n):
            if not conditioned(ps[li], vs[li], tris[ti]):
                continue
            s = solve(ps[li], vs[li], tris[ti])
            e = verdict(s, seg)
            if s is not None and np.dot(np.negative(vs[li]), np.cross(tris[ti, 1] - tris[ti, 0], tris[ti, 2] - tris[ti, 0])) == 0.0:
                continue
            hits += bool(e)
            a = dict(p = ps[li], v = vs[li], tri = tris[ti], segment = seg)
            check_hit(ctx, one[ti], s, e, 'one-to-many', scale, **a)
            check_hit(ctx, both[li, ti], s, e, 'many-to-many', scale, **a)
        ctx.equal(meet.intersects_indices(one), [i for i in range(n) if not np.isnan(one[i, 0])], 'intersects-indices')
    ctx.observe('hits', hits)
    for a, b in zip(keep, (ps, vs, tris)):
        ctx.equal(b, a, 'arguments-unchanged')
    _views(ctx, meet, both)


def _views(ctx, meet, both):
    c, n = both.shape[:2]
    hit = ~np.isnan(both[..., 0])
    pairs = [(int(a), int(b)) for a, b in np.argwhere(hit)]
    la, ta, xyz = meet.distilled_intersects(both)
    ctx.equal(sorted(zip(la.tolist(), ta.tolist())), pairs, 'distilled')
    for a, b, q in zip(la, ta, xyz):
        ctx.equal(q, both[a, b], 'distilled-point')
    last = meet.last_intersects(both)
    ctx.equal(last.shape, (c, 3), 'last-shape')
    for i in range(c):
        w = np.where(hit[i])[0]
        ctx.close(last[i], both[i, w[-1]] if len(w) else np.full(3, np.nan), 'last', tol = 0)
        t, q = meet.triangles_for_line(both, i)
        ctx.equal(np.asarray(t).tolist(), w.tolist(), 'triangles-for-line')
        ctx.close(q, both[i, w], 'triangles-for-line-points', tol = 0)
    for i in range(n):
        w = np.where(hit[:, i])[0]
        t, q = meet.lines_for_triangle(both, i)
        ctx.equal(np.asarray(t).tolist(), w.tolist(), 'lines-for-triangle')
        ctx.close(q, both[w, i], 'lines-for-triangle-points', tol = 0)


def polyline(ctx):
    import resqpy.olio.intersection as meet
    tris = soup(ctx, ctx.integer(1, 12))
    m = ctx.integer(2, 7)
    line = np.empty((m, 3))
    for i in range(m):
        w = ctx.rng.dirichlet((1, 1, 1))
        line[i] = w @ tris[ctx.integer(0, len(tris) - 1)] + ctx.rng.normal(size = 3) * np.array([0.5, 0.5, 3.0])
    ctx.sig('polyline', m, tris[0].tolist())
    both = meet.poly_line_triangles_intersects(line, tris)
    ctx.equal(both.shape, (m - 1, len(tris), 3), 'polyline-shape')
    scale = 1.0 + np.max(np.abs(tris)) + np.max(np.abs(line))
    sure, unsure = {}, set()
    for i in range(m - 1):
        for t, tri in enumerate(tris):
            p, v = line[i], line[i + 1] - line[i]
            if not conditioned(p, v, tri):
                unsure.add(i)
                continue
            s = solve(p, v, tri)
            e = verdict(s, True)
            if e is None:
                unsure.add(i)
            check_hit(ctx, both[i, t], s, e, 'polyline', scale, p = p, v = v, tri = tri)
            if e:
                sure.setdefault(i, []).append([float(x) for x in s[3]])
    _views(ctx, meet, both)
    start = ctx.integer(0, m - 2)
    seg, xyz = meet.poly_line_triangles_first_intersect(line, tris, start = start)
    expect = [i for i in sorted(sure) if i >= start]
    if not any(i >= start for i in unsure):
        if not expect:
            ctx.check(seg is None and xyz is None, 'first-none', seg = seg)
        else:
            ctx.equal(int(seg), expect[0], 'first-segment')
            d = np.min(np.max(np.abs(np.array(sure[expect[0]]) - xyz), axis = 1))
            ctx.close(d, 0.0, 'first-point', tol = 1e-7 * scale)
    ctx.observe('segments hit', len(sure))


def lines_2d(ctx):
    import resqpy.olio.intersection as meet
    for _ in range(20):
        if ctx.flag():
            a = [ctx.integer(-6, 6) for _ in range(8)]
        else:
            a = [float(x) for x in ctx.rng.normal(size = 8) * 5]
        if ctx.flag(0.5):
            a = [float(x) for x in a]
        x1, y1, x2, y2, x3, y3, x4, y4 = [Fraction(x) for x in a]
        div = (x1 - x2) * (y3 - y4) - (y1 - y2) * (x3 - x4)
        if (x1 == x2 and y1 == y2) or (x3 == x4 and y3 == y4):
            continue
        l1 = np.hypot(float(x1 - x2), float(y1 - y2))
        l2 = np.hypot(float(x3 - x4), float(y3 - y4))
        if div != 0 and abs(float(div)) < 1e-3 * l1 * l2:
            continue
        for seg, half in ((False, False), (False, True), (True, False), (True, True)):
            got = meet.line_line_intersect(*a, line_segment = seg, half_segment = half)
            d = dict(a = a, segment = seg, half = half)
            if div == 0:
                ctx.check(got == (None, None), 'parallel-2d', got = got, **d)
                continue
            t = ((x1 - x3) * (y3 - y4) - (y1 - y3) * (x3 - x4)) / div
            u = ((x1 - x3) * (y1 - y2) - (y1 - y3) * (x1 - x2)) / div
            e = True
            if seg:
                terms = [t, u, 1 - u] + ([] if half else [1 - t])
                integral = all(isinstance(x, int) for x in a) or all(float(x).is_integer() for x in a)
                mm = min(terms)
                if mm == 0 and not integral:
                    continue
                if mm != 0 and abs(mm) < MARGIN:
                    continue
                e = mm >= 0  # end points are documented as included
            if e:
                ctx.check(got[0] is not None, 'missed-2d', t = float(t), u = float(u), **d)
                ctx.close(got, [float(x1 + t * (x2 - x1)), float(y1 + t * (y2 - y1))], 'point-2d', tol = 1e-7, rtol = 1e-7, **d)
            else:
                ctx.check(got == (None, None), 'false-2d', got = got, t = float(t), u = float(u), **d)
            ctx.observe('line pairs')
    ctx.sig('2d', a)


SCENARIOS = [
    Scenario(single, 60, workers = 2),
    Scenario(bulk, 250),
    Scenario(polyline, 200),
    Scenario(lines_2d, 100),
]
