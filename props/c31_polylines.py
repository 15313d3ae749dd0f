"""C31: measures, derived lines and set conversions of polylines."""

import os

import numpy as np

from props.spec import spec
from rv import gen, objects
from rv.core import Scenario, Skip

PROP = spec('C31')


# shapes


def ring(ctx, n):
    """Sorted angles without large gaps."""
    while True:
        a = np.sort(ctx.rng.uniform(0.0, 2.0 * np.pi, n))
        gaps = np.diff(np.append(a, a[0] + 2.0 * np.pi))
        if gaps.max() < 2.8 and gaps.min() > 0.02:
            return a


def plan(ctx, kind):
    """Vertices in the xy plane, in anti-clockwise order if they bound a simple polygon."""
    if kind == 'convex':
        a = ring(ctx, ctx.integer(3, 14))
        p = np.stack((np.cos(a) * ctx.uniform(0.3, 1.0), np.sin(a) * ctx.uniform(0.3, 1.0)), axis = -1)
    elif kind == 'star':
        a = ring(ctx, ctx.integer(4, 16))
        p = np.stack((np.cos(a), np.sin(a)), axis = -1) * ctx.rng.uniform(0.2, 1.0, (len(a), 1))
    elif kind == 'comb':
        k = ctx.integer(2, 7)
        h = ctx.rng.integers(1, 6, k)
        p = [(0, 0), (k, 0)]
        for i in range(k - 1, -1, -1):
            p += [(i + 1, h[i]), (i, h[i])]
        keep = [p[0]]
        for q in p[1:]:
            if q != keep[-1]:
                keep.append(q)
        p = np.array(keep, dtype = float) * np.array([ctx.choice([1.0, 8.0]), ctx.choice([1.0, 0.125, 4.0])])
    elif kind == 'spiral':
        m = ctx.integer(5, 12)
        a = np.linspace(0.0, ctx.uniform(3.5, 9.0), m)
        out = np.stack((np.cos(a), np.sin(a)), axis = -1) * (1.0 + a[:, None] * 0.3)
        inn = np.stack((np.cos(a), np.sin(a)), axis = -1) * (0.8 + a[:, None] * 0.3)
        p = np.concatenate((out, inn[::-1]))
    elif kind == 'ell':
        w = ctx.uniform(0.02, 0.4)
        p = np.array([(0.0, 0.0), (1.0, 0.0), (1.0, w), (w, w), (w, 1.0), (0.0, 1.0)])
    elif kind == 'thin':
        w = ctx.uniform(0.001, 0.02)
        p = np.array([(0.0, 0.0), (1.0, 0.0), (1.0, w), (0.6, w), (0.5, 0.5 * w), (0.4, w), (0.0, w)])
    elif kind == 'gram':  # crosses itself whilst always turning the same way
        n = ctx.choice([5, 7, 9])
        a = 2.0 * np.pi * ctx.choice([2, (n - 1) // 2]) * np.arange(n) / n
        p = np.stack((np.cos(a), np.sin(a)), axis = -1)
    else:
        n = ctx.integer(2, 20)
        p = np.cumsum(ctx.rng.uniform(-1.0, 1.0, (n, 2)), axis = 0)
    return p


SIMPLE = ['convex', 'star', 'comb', 'spiral', 'ell', 'thin']


def shape(ctx, kinds = None):
    kind = ctx.choice(kinds or SIMPLE + ['gram', 'walk', 'walk'])
    p = plan(ctx, kind)
    if kind != 'comb':
        t = ctx.uniform(0.0, 2.0 * np.pi)
        p = p @ np.array([[np.cos(t), np.sin(t)], [-np.sin(t), np.cos(t)]])
        p = p * ctx.choice([1.0, 50.0, 3000.0])
    centre = ctx.choice([(0.0, 0.0), (0.0, 0.0), (float(ctx.integer(-1000, 1000)), float(ctx.integer(-1000, 1000))),
                         (430000.0, 6100000.0)])
    p = p + np.array(centre)
    p = np.roll(p, ctx.integer(0, len(p) - 1), axis = 0)
    anti = True
    if ctx.flag():
        p, anti = p[::-1].copy(), False
    size = np.ptp(p, axis = 0).max()
    z = ctx.choice(['flat', 'zero', 'slope', 'rough'])
    zz = {'flat': np.full(len(p), 1234.5), 'zero': np.zeros(len(p)), 'slope': 900.0 + 0.5 * (p[:, 0] - p[0, 0]),
          'rough': ctx.rng.uniform(-1.0, 1.0, len(p)) * size}[z]
    return kind, np.concatenate((p, zz[:, None]), axis = 1), anti


def twice_area(p):
    """Signed, from the first vertex, exact enough."""
    q = p[:, :2] - p[0, :2]
    return sum(q[i, 0] * q[i + 1, 1] - q[i + 1, 0] * q[i, 1] for i in range(1, len(q) - 1))


def is_convex(kind, p):
    if kind in ('gram', 'walk'):
        return None if kind == 'walk' else False
    if kind == 'convex':
        return True
    q = p[:, :2] - p[0, :2]
    a, b, c = q, np.roll(q, -1, axis = 0), np.roll(q, -2, axis = 0)
    cr = (b - a)[:, 0] * (c - b)[:, 1] - (b - a)[:, 1] * (c - b)[:, 0]
    size = np.ptp(q, axis = 0).max()**2
    if kind == 'comb':
        return bool(np.all(cr >= 0.0) or np.all(cr <= 0.0))
    if np.any(np.abs(cr) < 1.0e-7 * size):
        return None
    return bool(np.all(cr > 0.0) or np.all(cr < 0.0))


def segments(p, closed):
    return np.stack((p, np.roll(p, -1, axis = 0)), axis = 1)[:None if closed else -1]


def along(p, closed, f, d = 3):
    """Point at fraction f of the length, in d dimensions."""
    s = segments(p, closed)
    ln = np.linalg.norm(s[:, 1, :d] - s[:, 0, :d], axis = 1)
    cum = np.concatenate(([0.0], np.cumsum(ln)))
    t = f * cum[-1]
    return np.array([np.interp(t, cum, np.append(s[:, 0, k], s[-1, 1, k])) for k in range(3)])


def setup(ctx, kinds = None, crs_kw = None, closed = None):
    import resqpy.crs as rqc
    import resqpy.lines as rql
    m = gen.model(ctx, crs = False)
    kw = gen.crs_kwargs(ctx) if crs_kw is None else crs_kw
    crs = rqc.Crs(m, title = 'c', **kw)
    crs.create_xml()
    kind, p, anti = shape(ctx, kinds)
    if closed is None:
        closed = kind in SIMPLE + ['gram'] and ctx.flag(0.8) or ctx.flag(0.3)
    if closed and len(p) < 3:
        closed = False
    how = ctx.choice(['2d', 'xyz', 'xyz'])
    given = p[:, :2].copy() if how == '2d' else p.copy()
    if how == '2d':
        p = p * np.array([1.0, 1.0, 0.0])
    if ctx.flag(0.1) and len(p) % 2 == 0:
        given = given.reshape((2, -1, given.shape[-1]))
    line = rql.Polyline(m, is_closed = closed, set_coord = given, set_crs = crs.uuid, title = 'line',
                        extra_metadata = gen.metadata(ctx, 0.3))
    ctx.equal(line.coordinates, p, 'coordinates', 'as given')
    scale = np.ptp(p, axis = 0).max()
    ctx.sig(kind, closed, len(p), how)
    return m, crs, kw, kind, p, anti, closed, line, scale


def measures(ctx):
    """Lengths, interpolation, spacing, centres, areas and orientation."""
    m, crs, kw, kind, p, anti, closed, line, scale = setup(ctx)
    if ctx.flag(0.2):
        line.write_hdf5()
        line.create_xml()
        m.store_epc()
        import resqpy.lines as rql
        import resqpy.model as rq
        m = rq.Model(m.epc_file)
        line = rql.Polyline(m, uuid = line.uuid)
        ctx.equal(line.coordinates, p, 'reloaded')
        ctx.equal(bool(line.isclosed), closed, 'reloaded-closed')
    seg = segments(p, closed)
    tol = 1.0e-9 * scale + 1.0e-9 * np.abs(p).max()
    ln = {d: np.linalg.norm(seg[:, 1, :d] - seg[:, 0, :d], axis = 1) for d in (2, 3)}
    for s in range(len(seg)):
        for xy in (False, True):
            ctx.close(line.segment_length(s, in_xy = xy), ln[2 if xy else 3][s], 'segment-length', tol = tol, s = s, xy = xy)
        ctx.close(line.segment_midpoint(s), seg[s].mean(axis = 0), 'midpoint', tol = tol)
    ops = ['length', 'interpolate', 'spacing', 'centre', 'centre', 'centre', 'shape', 'shape', 'tangents']
    ctx.rng.shuffle(ops)
    for op in ops:
        ctx.observe(op)
        xy = ctx.flag()
        d = 2 if xy else 3
        if op == 'length':
            ctx.close(line.full_length(in_xy = xy), ln[d].sum(), 'full-length', tol = tol * len(p))
        elif op == 'interpolate':
            cum = np.concatenate(([0.0], np.cumsum(ln[d]))) / ln[d].sum()
            fs = [0.0, 1.0, 0.5, float(ctx.rng.random()), float(ctx.rng.random()), 1.0e-4, 0.9999]
            fs += [float(min(c, 1.0)) for c in cum[:-1]]
            for f in fs:
                got = line.interpolated_point(f, in_xy = xy) if xy else line.interpolated_point(f)
                ctx.close(got, along(p, closed, f, d), 'interpolated', tol = 1.0e-7 * scale + tol, f = f, xy = xy)
        elif op == 'spacing':
            n = ctx.integer(2, 30)
            e = np.array([along(p, closed, f, d) for f in np.arange(n) / (n if closed else n - 1)])
            ctx.close(line.equidistant_points(n, in_xy = xy), e, 'equidistant', tol = 1.0e-7 * scale + tol, n = n, xy = xy)
        elif op == 'centre':
            mode = ctx.choice(['weighted', 'weighted', 'sampled', 'default'])
            n = ctx.integer(5, 40)
            a = {} if mode == 'default' else {'mode': mode, 'n': n, 'in_xy': xy, 'cache': ctx.flag(0.7)}
            dd = 3 if mode == 'default' else d
            if mode == 'sampled':
                e = np.mean([along(p, closed, f, dd) for f in np.arange(n) / (n if closed else n - 1)], axis = 0)
            else:
                e = np.sum(seg.mean(axis = 1) * ln[dd][:, None], axis = 0) / ln[dd].sum()
            got = line.balanced_centre(**a)
            ctx.close(got[:dd], e[:dd], 'centre', tol = 1.0e-7 * scale + 10.0 * tol, args = a)
        elif op == 'tangents':
            u = (seg[:, 1] - seg[:, 0]) / ln[3][:, None]
            if len(p) < 3:
                e = np.array([u[0], u[0]])
            elif closed:
                e = u + np.roll(u, 1, axis = 0)
            else:
                e = np.concatenate((u[:1], u[1:] + u[:-1], u[-1:]))
            size = np.linalg.norm(e, axis = 1)
            got = line.tangent_vectors()
            ctx.equal(got.shape, p.shape, 'tangents-shape')
            ok = size > 1.0e-3
            ctx.close(got[ok], (e / np.maximum(size, 1e-12)[:, None])[ok], 'tangents', tol = 1.0e-6)
        elif op == 'shape' and closed:
            a2 = twice_area(p)
            if kind in SIMPLE:
                ctx.close(line.area(), abs(a2) / 2.0, 'area', tol = 1.0e-9 * scale * scale + 4.0 * tol * scale, kind = kind)
            if kind in SIMPLE or kind == 'gram':
                e = is_convex(kind, p)
                trust = ctx.flag()
                if e is not None:
                    ctx.equal(bool(line.is_convex(trust_metadata = trust)), e, 'is-convex', kind)
                t = gen.CrsOracle(kw).to_true(p)
                ctx.equal(bool(line.is_clockwise(trust_metadata = ctx.flag())), bool(twice_area(t) < 0.0), 'is-clockwise',
                          f'{kind} {kw.get("axis_order")}')
            if kind in SIMPLE:
                for s in range(len(seg)):
                    v = seg[s, 1, :2] - seg[s, 0, :2]
                    e = np.array([v[1], -v[0], 0.0]) / np.linalg.norm(v)
                    ctx.close(line.segment_normal(s), e if anti else -e, 'segment-normal', tol = 1.0e-6)
        elif op == 'shape':
            ctx.equal(bool(line.is_convex()), False, 'open-convex')
    ctx.equal(line.coordinates, p, 'unchanged', 'vertices after the questions')


def crossing_number(p, q):
    """Even-odd inclusion by summed angles (winding parity); None if too near an edge."""
    v = p[:, :2] - q[:2]
    w = np.roll(v, -1, axis = 0)
    ang = np.arctan2(v[:, 0] * w[:, 1] - v[:, 1] * w[:, 0], np.sum(v * w, axis = 1))
    return int(round(ang.sum() / (2.0 * np.pi)))


def nearest(p, closed, q):
    """Distances from q to the segments, with the nearest points, in xy."""
    s = segments(p[:, :2], closed)
    v = s[:, 1] - s[:, 0]
    f = np.clip(np.sum((q - s[:, 0]) * v, axis = 1) / np.maximum(np.sum(v * v, axis = 1), 1.0e-300), 0.0, 1.0)
    c = s[:, 0] + f[:, None] * v
    return np.linalg.norm(c - q, axis = 1), c, f


def crossings(a, b, full = True):
    """Crossing of segment a with the segments b: (t on a, u on b), and whether any is too close to call."""
    r, s = a[1] - a[0], b[:, 1] - b[:, 0]
    den = r[0] * s[:, 1] - r[1] * s[:, 0]
    w = b[:, 0] - a[0]
    with np.errstate(all = 'ignore'):
        t = (w[:, 0] * s[:, 1] - w[:, 1] * s[:, 0]) / den
        u = (w[:, 0] * r[1] - w[:, 1] * r[0]) / den
    return t, u, np.abs(den) / np.maximum(np.linalg.norm(r) * np.linalg.norm(s, axis = 1), 1e-300)


def places(ctx):
    """Inclusion, closest segments, snapping, intersections and crossings in the xy plane."""
    import resqpy.lines as rql
    m, crs, kw, kind, p, anti, closed, line, scale = setup(ctx)
    lo, hi = p.min(axis = 0), p.max(axis = 0)
    pts = lo + (hi - lo) * ctx.rng.uniform(-0.3, 1.3, (ctx.integer(1, 15), 3))
    tol = 1.0e-7 * scale + 1.0e-9 * np.abs(p).max()
    keep = []
    for q in pts:
        d, c, f = nearest(p, closed, q[:2])
        best = int(np.argmin(d))
        ctx.observe('nearest')
        g = ctx.choice([q, tuple(q), tuple(q[:2]), q[:2].copy(), list(q)])
        s, dist = line.closest_segment_and_distance_to_point_xy(g)
        ctx.close(dist, d[best], 'closest-distance', tol = tol)
        ctx.check(0 <= s < len(d), 'closest-segment-range', 'index', s = s)
        ctx.close(d[s], d[best], 'closest-segment', tol = tol, s = s, e = best)
        g = ctx.choice([q, tuple(q), q[:2].copy()])
        any_s = ctx.choice([s, ctx.integer(0, len(d) - 1)])
        snap = line.point_snapped_to_segment_xy(any_s, g)
        ctx.close(np.array(snap, dtype = float), c[any_s], 'snapped', tol = tol, s = any_s)
        # back to three dimensions
        f = float(ctx.rng.uniform(0.02, 0.98))
        a, b = segments(p, closed)[any_s]
        e = (1.0 - f) * a + f * b
        got = line.segment_xyz_from_xy(any_s, e[0], e[1])
        run = np.abs(b[:2] - a[:2]).max()
        ctx.close(got, e, 'segment-xyz', tol = tol * max(1.0, np.abs(b - a).max() / run))
        if closed and d[best] > 1.0e-6 * scale:
            w = crossing_number(p, q)
            g = ctx.choice([q, tuple(q), q[:2].copy()])
            ctx.equal(bool(line.point_is_inside_xy(g)), bool(w % 2), 'inside-crossing')
            ctx.equal(bool(line.point_is_inside_xy(g, mode = 'winding')), w != 0, 'inside-winding')
            keep.append((q, w))
    if keep:
        ctx.observe('inside', len(keep))
        q = np.array([k[0] for k in keep])
        dims = ctx.choice([2, 3])
        e = np.array([bool(k[1] % 2) for k in keep])
        q = q[:, :dims]
        if len(q) % 2 == 0 and ctx.flag():
            q, e = q.reshape((2, -1, dims)), e.reshape((2, -1))
        ctx.equal(np.array(line.points_are_inside_xy(q), dtype = bool), e, 'insides')
    seg = segments(p[:, :2], closed)
    for _ in range(4):
        half = ctx.flag()
        a = (lo + (hi - lo) * ctx.rng.uniform(-0.5, 1.5, (2, 3)))[:, :2]
        t, u, den = crossings(a, seg)
        edge = 1.0e-6
        if np.any(den < 1.0e-6) or np.any((np.abs(t) < edge) | (np.abs(u) < edge) | (np.abs(u - 1.0) < edge) |
                                          (np.abs(t - 1.0) < edge)):
            continue
        hit = (t > 0.0) & (u > 0.0) & (u < 1.0) & (half | (t < 1.0))
        s, x, y = line.first_line_intersection(a[0, 0], a[0, 1], a[1, 0], a[1, 1], half_segment = half)
        ctx.observe('intersect-hit' if hit.any() else 'intersect-none')
        if not hit.any():
            ctx.check(s is None and x is None and y is None, 'intersection-none', 'no crossing')
        else:
            e = int(np.argmax(hit))
            ctx.equal(int(s), e, 'intersection-segment', 'first')
            ctx.close(np.array([x, y]), a[0] + t[e] * (a[1] - a[0]), 'intersection-point', tol = tol * 100.0)
    # another line
    q = np.cumsum(ctx.rng.uniform(-0.5, 0.5, (ctx.integer(2, 12), 3)), axis = 0) * scale + p.mean(axis = 0)
    oc = len(q) > 2 and ctx.flag()
    other = rql.Polyline(m, is_closed = oc, set_coord = q, set_crs = crs.uuid, title = 'other')
    expected = []
    for a in seg:
        t, u, den = crossings(a, segments(q[:, :2], oc))
        if np.any((den > 1.0e-12) & ((np.minimum(np.abs(t), np.abs(1.0 - t)) < 1.0e-6) |
                                     (np.minimum(np.abs(u), np.abs(1.0 - u)) < 1.0e-6)) & (np.abs(t - 0.5) < 0.6) &
                  (np.abs(u - 0.5) < 0.6)):
            raise Skip('touching lines')
        for j in np.nonzero((t > 0.0) & (t < 1.0) & (u > 0.0) & (u < 1.0))[0]:
            expected.append(a[0] + t[j] * (a[1] - a[0]))
    got = line.xy_crossings(other)
    ctx.observe('crossings', len(expected))
    e = np.array(expected).reshape((-1, 2))
    if len(e) > 1 and np.any(np.max(np.abs(np.diff(e, axis = 0)) / (np.abs(e[1:]) + 1.0), axis = 1) < 1.0e-8):
        raise Skip('successive crossings that the code treats as one')
    ctx.equal(len(got), len(e), 'crossing-count')
    ctx.close(np.array(got, dtype = float).reshape((-1, 2)), e, 'crossing-points', tol = tol * 100.0)


def normalised(ctx):
    """Mapping to and from the unit square, circle and perimeter."""
    m, crs, kw, kind, p, anti, closed, line, scale = setup(ctx, ['convex', 'convex', 'comb'], closed = True)
    if not is_convex(kind, p):
        raise Skip('not convex')
    mode = ctx.choice(['square', 'circle', 'perimeter'])
    ctx.sig(mode)
    if ctx.flag(0.3):
        line.balanced_centre(in_xy = ctx.flag(), mode = ctx.choice(['weighted', 'sampled']))
    c = line.balanced_centre(cache = False)[:2]
    tol = 1.0e-6 * scale + 1.0e-9 * np.abs(p).max()
    ntol = 1.0e-6 + 1.0e-7 * np.abs(p).max() / scale
    for _ in range(8):
        nx, ny = float(ctx.rng.uniform(0.02, 0.98)), float(ctx.rng.uniform(0.001, 0.999))
        x, y = line.denormalised_xy(nx, ny, mode = mode)
        q = np.array([x, y], dtype = float)
        ctx.check(crossing_number(p, q) != 0 or nearest(p, True, q)[0].min() < tol, 'inside', f'{mode} maps within the polygon')
        if mode == 'perimeter':
            ctx.close(q, c + np.sqrt(nx) * (along(p, True, ny, 2)[:2] - c), 'perimeter', tol = tol)
        elif mode == 'circle':
            a = np.arctan2(y - c[1], x - c[0]) / (2.0 * np.pi) % 1.0
            ctx.close((a - ny + 0.5) % 1.0, 0.5, 'circle', tol = ntol * 10.0)
        else:
            d, w = q - c, np.array([nx, ny]) - 0.5
            ctx.close(d / np.linalg.norm(d), w / np.linalg.norm(w), 'square', tol = ntol * 100.0 / max(np.abs(w).max(), 0.01))
        if max(abs(nx - 0.5), abs(ny - 0.5)) < 0.02:
            continue
        n2 = line.normalised_xy(x, y, mode = mode)
        ctx.observe('inverse')
        got = np.array(n2, dtype = float)
        got[1] = (got[1] - ny + 0.5) % 1.0 + ny - 0.5 if mode != 'square' else got[1]
        ctx.close(got, np.array([nx, ny]), 'inverse', tol = ntol * 100.0, mode = mode)
    # corners and edges of the normalised space
    for nx, ny in ((1.0, 0.3), (1.0, 0.0), (1.0, 1.0), (0.25, 1.0), (0.0, 0.5)):
        q = np.array(line.denormalised_xy(nx, ny, mode = mode), dtype = float)
        d = nearest(p, True, q)[0].min()
        if nx == 1.0 or mode == 'square':
            ctx.check(d < tol, 'edge', f'{mode} edge maps to boundary', d = d, n = (nx, ny))
        elif nx == 0.0:
            ctx.close(q, c, 'middle', tol = tol)


def hull_of(p):
    q = [tuple(v) for v in p[:, :2] - p[0, :2]]
    out = []
    for i, a in enumerate(q):  # a vertex of the hull if the others fit within half a turn of it
        ang = np.sort([np.arctan2(b[1] - a[1], b[0] - a[0]) for j, b in enumerate(q) if b != a])
        gap = np.max(np.diff(np.append(ang, ang[0] + 2.0 * np.pi)))
        if abs(gap - np.pi) < 1.0e-7:
            return None
        if gap > np.pi:
            out.append(i)
    return out


def derived(ctx):
    """Scaled, trimmed, splined, shifted, flattened and hull lines."""
    import resqpy.lines as rql
    m, crs, kw, kind, p, anti, closed, line, scale = setup(ctx)
    tol = 1.0e-9 * scale + 1.0e-9 * np.abs(p).max()
    seg = segments(p, closed)
    ln = np.linalg.norm(seg[:, 1] - seg[:, 0], axis = 1)
    op = ctx.choice(['scaled', 'trimmed', 'regular', 'hull', 'hull', 'splined', 'shift', 'flatten'])
    ctx.observe(op)
    ctx.sig(op)
    md = dict(line.extra_metadata or {})
    extra = gen.metadata(ctx, 0.3)
    title = ctx.choice([None, 'new title'])
    new = None
    if op == 'scaled':
        if ctx.flag(0.5):
            line.balanced_centre(in_xy = ctx.flag(), mode = ctx.choice(['weighted', 'sampled']))
        f = ctx.choice([1.0, 0.5, 2.0, ctx.uniform(0.1, 3.0)])
        new = rql.Polyline.from_scaled_polyline(line, f, title = title, extra_metadata = extra)
        c = np.sum(seg.mean(axis = 1) * ln[:, None], axis = 0) / ln.sum()
        ctx.close(new.coordinates, c + f * (p - c), 'scaled', tol = 10.0 * tol + 1.0e-8 * scale)
        ctx.equal(bool(new.isclosed), closed, 'scaled-closed')
        if extra is not None or not set(new.extra_metadata or {}) - set(md):
            ctx.equal(dict(new.extra_metadata or {}), md if extra is None else extra, 'scaled-metadata')
    elif op == 'trimmed':
        s0 = ctx.integer(0, len(p) - 2)
        s1 = ctx.integer(s0, len(p) - 2)
        e = p[s0:s1 + 2].copy()
        kws = {}
        if ctx.flag():
            e[0] = 0.7 * p[s0] + 0.3 * p[s0 + 1]
            kws['start_xyz'] = tuple(e[0])
        if ctx.flag():
            e[-1] = 0.4 * p[s1] + 0.6 * p[s1 + 1]
            kws['end_xyz'] = e[-1].copy()
            if ctx.flag(0.3):
                kws['end_xyz'] = kws['end_xyz'][:2]
                e[-1, 2] = p[s1 + 1, 2]
        new = rql.Polyline.from_trimmed_polyline(line, s0, s1, title = title, extra_metadata = extra, **kws)
        ctx.equal(new.coordinates, e, 'trimmed')
        ctx.equal(bool(new.isclosed), False, 'trimmed-open')
    elif op == 'regular':
        n, r = ctx.integer(3, 20), ctx.uniform(0.1, 500.0)
        c = p[0]
        new = rql.Polyline.for_regular_polygon(m, n, r, tuple(c), crs.uuid, 'poly')
        q = new.coordinates - c
        ctx.equal(q.shape, (n, 3), 'regular-shape')
        t = tol + 1.0e-9 * r
        ctx.close(np.linalg.norm(q[:, :2], axis = 1), np.full(n, r), 'regular-radius', tol = t)
        ctx.close(q[:, 2], np.zeros(n), 'regular-level', tol = t)
        ctx.close(np.linalg.norm(q - np.roll(q, 1, axis = 0), axis = 1), np.full(n, 2.0 * r * np.sin(np.pi / n)), 'regular-sides',
                  tol = 3.0 * t)
        ctx.check(np.any((np.abs(q[:, 0]) < t) & (q[:, 1] > 0.0)), 'regular-north', 'a vertex lies in the y direction')
        ctx.check(bool(new.is_convex()), 'regular-convex', 'convex')
        title = 'poly'
        ctx.close(new.area(), 0.5 * n * r * r * np.sin(2.0 * np.pi / n), 'regular-area', tol = t * r * n)
    elif op == 'hull':
        if not closed or len(p) < 3:
            raise Skip('open')
        e = hull_of(p)
        if e is None or kind in ('comb', 'ell', 'thin'):
            raise Skip('three vertices in line')
        title = ctx.choice([None, '', 'new title'])
        new = rql.Polyline.convex_hull_from_closed_polyline(line, title, mode = ctx.choice(['crossing', 'winding']))
        ctx.equal(sorted(map(tuple, new.coordinates)), sorted(map(tuple, p[e])), 'hull', f'vertices for {kind}')
        ctx.check(bool(new.is_convex(trust_metadata = False)), 'hull-convex', 'convex')
        ctx.equal(bool(new.isclosed), True, 'hull-closed')
        ctx.equal(new.title, title or 'line convex hull', 'hull-title')
        title = new.title
    elif op == 'splined':
        if closed and len(p) < 3:
            raise Skip('two points')
        sub = ctx.integer(1, 4)
        ml = ctx.choice([None, scale * ctx.uniform(0.05, 1.0)])
        md_k = ctx.choice([None, 5.0, 30.0])
        weight = ctx.choice(['linear', 'square', 'cube'])
        new = line.splined(tangent_weight = weight, min_subdivisions = sub, max_segment_length = ml, max_degrees_per_knot = md_k,
                           title = title)
        q = new.coordinates
        at = []
        i = 0
        for v in p:
            while i < len(q) and not np.all(q[i] == v):
                i += 1
            ctx.check(i < len(q), 'splined-knots', 'original vertices kept in order')
            at.append(i)
        ctx.equal(at[0], 0, 'splined-start', 'first')
        if not closed:
            ctx.equal(at[-1], len(q) - 1, 'splined-end', 'last')
        gaps = np.diff(at + ([len(q)] if closed else []))
        ctx.check(np.all(gaps >= sub), 'splined-subdivisions', 'at least the subdivisions asked for')
        if ml is not None:
            ctx.check(np.all(gaps >= np.ceil(ln / ml - 1.0e-9)), 'splined-length', 'at least enough segments for the length')
        if md_k is None:
            ctx.equal(gaps.astype(int), np.maximum(sub, np.ones(len(ln)) if ml is None else np.ceil(ln / ml)).astype(int),
                      'splined-count', 'no more subdivisions than asked for') if ml is None else None
        # Hermite cubic with tangents weighted by the neighbouring segments
        v = seg[:, 1] - seg[:, 0]
        w = {'linear': 1, 'square': 2, 'cube': 3}[weight]
        u = v / ln[:, None]**w
        if closed:
            tan = u + np.roll(u, 1, axis = 0)
        else:
            tan = np.concatenate((u[:1], u[1:] + u[:-1], u[-1:]))
        size = np.linalg.norm(tan, axis = 1)
        if np.all(size > 1.0e-4 * np.max(np.linalg.norm(u, axis = 1))):
            tan = tan / size[:, None]
            for s in range(len(seg)):
                t = (np.arange(gaps[s]) / gaps[s])[:, None]
                e = ((1.0 + 2.0 * t) * (1.0 - t)**2 * seg[s, 0] + t * (1.0 - t)**2 * ln[s] * tan[s] + t * t *
                     (3.0 - 2.0 * t) * seg[s, 1] + t * t * (t - 1.0) * ln[s] * tan[(s + 1) % len(p)])
                ctx.close(q[at[s]:at[s] + gaps[s]], e, 'splined-curve', tol = 1.0e-6 * scale + 10.0 * tol)
        ctx.equal(bool(new.isclosed), closed, 'splined-closed')
    else:
        line.write_hdf5()
        root = line.create_xml()
        named = ctx.choice(['', 'new title'])
        if op == 'shift':
            by = tuple(float(ctx.integer(-50, 50)) for _ in range(3))
            new = rql.shift_polyline(m, root, xyz_shift = by, title = named)
            ctx.close(new.coordinates, p + np.array(by), 'shifted', tol = 1e-9 * (1.0 + np.abs(p).max()))
        else:
            ax, val = ctx.choice(['x', 'y', 'z', 'Z']), ctx.uniform(-50.0, 50.0)
            new = rql.flatten_polyline(m, root, axis = ax, value = val, title = named)
            e = p.copy()
            e[:, 'xyz'.index(ax.lower())] = val
            ctx.equal(new.coordinates, e, 'flattened')
        ctx.equal(bool(new.isclosed), closed, 'moved-closed')
        if named:
            ctx.equal(new.title, named, 'moved-title')
        ctx.check(str(new.uuid) != str(line.uuid), 'moved-uuid', 'a different object')
        title = new.title
        ctx.equal(rql.Polyline(m, uuid = line.uuid).coordinates, p, 'moved-original')
    ctx.equal(line.coordinates, p, 'original', 'left alone')
    ctx.equal(str(new.crs_uuid), str(crs.uuid), 'crs')
    if op in ('scaled', 'trimmed', 'splined'):
        ctx.equal(new.title, title or 'line', 'title')
    new.write_hdf5()
    new.create_xml()
    m.store_epc()
    import resqpy.model as rq
    back = rql.Polyline(rq.Model(m.epc_file), uuid = new.uuid)
    ctx.equal(back.coordinates, new.coordinates, 'derived-stored')
    ctx.equal(bool(back.isclosed), bool(new.isclosed), 'derived-stored-closed')


def many(ctx, m, crss, count, prefix = 'line'):
    """Random lines and their truth."""
    import resqpy.lines as rql
    lines, truth = [], []
    for i in range(count):
        kind, p, _ = shape(ctx)
        closed = len(p) > 2 and ctx.flag()
        u = ctx.choice(crss)
        lines.append(rql.Polyline(m, is_closed = closed, set_coord = p, set_crs = u, title = f'{prefix} {i}'))
        truth.append((p, closed, str(u)))
    return lines, truth


def match(ctx, polys, truth, code, crs = None, tol = 0.0):
    ctx.equal(len(polys), len(truth), code + '-count', 'number of lines')
    for i, (got, (p, closed, u)) in enumerate(zip(polys, truth)):
        ctx.equal(got.coordinates.shape, p.shape, code + '-shape', f'line {i}')
        ctx.close(got.coordinates, p, code + '-points', tol = tol, rtol = tol, i = i)
        ctx.equal(bool(got.isclosed), bool(closed), code + '-closed', f'line {i}')
        if crs is not None:
            ctx.equal(str(got.crs_uuid), str(crs), code + '-crs')


def sets(ctx):
    """Sets of lines, before and after storage."""
    import resqpy.crs as rqc
    import resqpy.lines as rql
    import resqpy.model as rq
    m = gen.model(ctx, crs = False)
    crs = rqc.Crs(m, title = 'c', **gen.crs_kwargs(ctx))
    crs.create_xml()
    b = objects.Builder(ctx, m)
    n = ctx.choice([1, 1, 2, 3, 5, 8, 12])
    lines, truth = many(ctx, m, [crs.uuid], n)
    if ctx.flag(0.2):  # all the same
        for i in range(n):
            if len(truth[i][0]) > 2:
                flag = n % 2 == 0
                lines[i].isclosed, truth[i] = flag, (truth[i][0], flag, truth[i][2])
    if n > 1 and ctx.flag(0.2):
        j = ctx.integer(1, n - 1)
        lines[j], truth[j] = lines[0], truth[0]
        ctx.observe('repeated')
    ctx.sig(n, [t[1] for t in truth], [len(t[0]) for t in truth])
    given = list(lines)
    kw = {} if ctx.flag() else {'crs_uuid': crs.uuid}
    title = ctx.choice([None, 'set'])
    s = rql.PolylineSet(m, polylines = given, title = title, extra_metadata = gen.metadata(ctx, 0.3), **kw)
    ctx.equal(s.title, title or (lines[0].title if n == 1 else f'{lines[0].title} + {n - 1} polylines'), 'set-title')
    match(ctx, s.polys, truth, 'set', crs.uuid)
    ctx.equal(np.array(s.count_perpol), np.array([len(t[0]) for t in truth]), 'set-counts')
    ctx.equal(s.coordinates, np.concatenate([t[0] for t in truth]), 'set-coordinates')
    ctx.equal([bool(c) for c in s.closed_array], [t[1] for t in truth], 'set-closed-array')
    match(ctx, s.convert_to_polylines(), truth, 'fresh-split', crs.uuid)
    interp = b.interp(0.4)
    kind = None
    if interp is not None:
        s.set_interpretation_root(interp)
        ctx.check(all(q.rep_int_root is interp for q in s.polys), 'interp-recursive', 'passed to the lines')
    elif ctx.flag(0.5):
        kind = ctx.choice(['horizon', 'fault', 'fracture', 'geobody boundary'])
        s.create_interpretation_and_feature(kind = kind, name = 'feat')
        interp = s.rep_int_root
    save = ctx.flag(0.3) and len(set(id(q) for q in lines)) == n
    s.write_hdf5(save_polylines = save) if save else s.write_hdf5()
    s.create_xml(save_polylines = save) if save else s.create_xml()
    if interp is not None:
        ctx.equal(str(m.uuid(related_uuid = s.uuid, uuid = interp.attrib['uuid'])), interp.attrib['uuid'], 'interp-relation')
    m.store_epc()
    m2 = rq.Model(m.epc_file)
    s2 = rql.PolylineSet(m2, uuid = s.uuid)
    match(ctx, s2.polys, truth, 'reloaded', crs.uuid)
    ctx.equal(str(s2.crs_uuid), str(crs.uuid), 'reloaded-crs')
    ctx.equal(dict(s2.extra_metadata or {}), dict(s.extra_metadata or {}), 'reloaded-metadata')
    ctx.equal([bool(c) for c in s2.closed_array], [t[1] for t in truth], 'reloaded-closed-array')
    match(ctx, s2.convert_to_polylines(), truth, 'split', crs.uuid)
    if interp is not None:
        ctx.check(s2.rep_int_root is not None, 'interp-reloaded', 'present')
        ctx.equal(s2.rep_int_root.attrib['uuid'], interp.attrib['uuid'], 'interp-uuid')
        ref = [e for e in m2.root(uuid = s.uuid).iter() if str(e.tag).endswith('RepresentedInterpretation')][0]
        ct = [e.text for e in ref.iter() if str(e.tag).endswith('ContentType')][0]
        ctx.equal(ct.rsplit('type=', 1)[-1], m2.type_of_uuid(interp.attrib['uuid']), 'interp-type', 'type named in the reference')
    if save:
        ctx.observe('saved singly')
        for q, t in zip(lines, truth):
            one = rql.Polyline(m2, uuid = q.uuid)
            match(ctx, [one], [t], 'single', crs.uuid)
            ctx.check(m2.uuid(related_uuid = s.uuid, uuid = q.uuid) is not None, 'single-related', 'line and set')
    # a copy made from the reloaded lines, after which the set is stored again
    s3 = rql.PolylineSet(m2, polylines = s2.polys, title = 'again')
    s3.write_hdf5()
    s3.create_xml()
    m2.store_epc()
    m3 = rq.Model(m.epc_file)
    match(ctx, rql.PolylineSet(m3, uuid = s3.uuid).polys, truth, 'again', crs.uuid)
    # inclusion
    whole = np.concatenate([t[0] for t in truth])
    lo, hi = whole.min(axis = 0), whole.max(axis = 0)
    for _ in range(6):
        base = truth[ctx.integer(0, n - 1)][0]
        q = base.min(axis = 0) + np.ptp(base, axis = 0) * ctx.rng.uniform(-0.2, 1.2, 3) if ctx.flag(0.8) else lo
        mode = ctx.choice(['crossing', 'winding'])
        e, near = None, False
        for i, (p, closed, _) in enumerate(truth):
            if not closed:
                continue
            if nearest(p, True, q[:2])[0].min() < 1.0e-6 * np.ptp(p, axis = 0).max() + 1.0e-9 * np.abs(p).max():
                near = True
            w = crossing_number(p, q)
            if e is None and (w % 2 if mode == 'crossing' else w):
                e = i
        if not near:
            ctx.observe('found' if e is not None else 'not found')
            ctx.equal(s2.poly_index_containing_point_in_xy(q, mode = mode), e, 'set-inclusion', mode)


def singles(ctx):
    """Single lines keep everything through storage."""
    import resqpy.crs as rqc
    import resqpy.lines as rql
    import resqpy.model as rq
    import resqpy.property as rqp
    m = gen.model(ctx, crs = False)
    crs = rqc.Crs(m, title = 'c', **gen.crs_kwargs(ctx))
    crs.create_xml()
    b = objects.Builder(ctx, m)
    lines, truth = many(ctx, m, [crs.uuid], ctx.integer(1, 3))
    interps, props = [], []
    for q, (p, closed, _) in zip(lines, truth):
        root = b.interp(0.4)
        if root is not None:
            q.rep_int_root = root
        elif ctx.flag(0.4):
            q.create_interpretation_and_feature(kind = ctx.choice(['horizon', 'fault', 'fracture', 'geobody boundary']),
                                                name = ctx.choice([None, 'feat']))
            root = q.rep_int_root
        interps.append(root)
        if ctx.flag(0.3):
            q.is_convex()
            if closed:
                q.is_clockwise()
        q.write_hdf5()
        q.create_xml()
        which = ctx.choice(['nodes', 'intervals', None])
        ctx.observe(f'property {which}')
        a = None
        if which:
            a = ctx.rng.random(len(p) if which == 'nodes' or closed else len(p) - 1)
            rqp.Property.from_array(m, a, 'made', 'depth-ish', q.uuid, property_kind = 'length', indexable_element = which, uom = 'm')
        props.append((which, a))
    m.store_epc()
    m2 = rq.Model(m.epc_file)
    for q, t, root, (which, a) in zip(lines, truth, interps, props):
        one = rql.Polyline(m2, uuid = q.uuid)
        match(ctx, [one], [t], 'line', crs.uuid)
        ctx.equal(one.title, q.title, 'line-title')
        ctx.equal(tuple(one.nodepatch), (0, len(t[0])), 'line-nodes')
        ctx.equal(dict(one.extra_metadata or {}), dict(q.extra_metadata or {}), 'line-metadata')
        if root is None:
            ctx.check(one.rep_int_root is None, 'line-interp', 'none')
        else:
            ctx.equal(str(one.rep_int_uuid), root.attrib['uuid'], 'line-interp')
            ref = [e for e in one.root.iter() if str(e.tag).endswith('RepresentedInterpretation')][0]
            ct = [e.text for e in ref.iter() if str(e.tag).endswith('ContentType')][0]
            ctx.equal(ct.rsplit('type=', 1)[-1], m2.type_of_uuid(root.attrib['uuid']), 'line-interp-type')
        pc = one.extract_property_collection()
        ctx.equal(pc.number_of_parts(), 1 if which else 0, 'line-properties', 'count')
        if which:
            ctx.equal(pc.single_array_ref(indexable = which), a, 'line-property')


def mixed(ctx):
    """Combining lines of different coordinate reference systems brings them all into the first."""
    import resqpy.crs as rqc
    import resqpy.lines as rql
    m = gen.model(ctx, crs = False)
    kws, uuids = {}, []
    for i in range(3):
        kw = gen.crs_kwargs(ctx)
        c = rqc.Crs(m, title = f'c{i}', **kw)
        c.create_xml()
        kws[str(c.uuid)] = kw
        uuids.append(c.uuid)
    n = ctx.integer(2, 6)
    lines, truth = many(ctx, m, uuids, n)
    ctx.sig([uuids.index(q.crs_uuid) for q in lines])
    s = rql.PolylineSet(m, polylines = [lines[0]], title = 'set')
    s.combine_polylines(list(lines))
    first = gen.CrsOracle(kws[truth[0][2]])
    e = np.concatenate([gen.CrsOracle(kws[u]).convert_to(first, p) for p, _, u in truth])
    ctx.equal(s.coordinates.shape, e.shape, 'shape')
    ctx.close(s.coordinates, e, 'combined', tol = 1.0e-6, rtol = 1.0e-8)
    ctx.equal(str(s.crs_uuid), truth[0][2], 'crs')
    ctx.equal([bool(c) for c in s.closed_array], [t[1] for t in truth], 'closed')
    match(ctx, lines, truth, 'lines', None)
    if len(set(t[2] for t in truth)) > 1:
        ctx.raises(AssertionError, lambda: rql.PolylineSet(m, polylines = list(lines)), 'refused')


def text_files(ctx):
    """Writing to and reading from irap and charisma files."""
    import resqpy.crs as rqc
    import resqpy.lines as rql
    import resqpy.model as rq
    m = gen.model(ctx, crs = False)
    crs = rqc.Crs(m, title = 'c', **gen.crs_kwargs(ctx))
    crs.create_xml()
    n = ctx.choice([1, 2, 3, 6])
    lines, truth = many(ctx, m, [crs.uuid], n)
    form = ctx.choice(['irap', 'charisma'])
    by_hand = ctx.flag(0.5)
    ctx.sig(form, by_hand, n, [len(t[0]) for t in truth])
    f = ctx.path(f'some lines.{form}.txt')
    if by_hand:
        kept = []
        with open(f, 'w') as fp:
            for i, (p, closed, u) in enumerate(truth):
                if ctx.flag(0.25):
                    p, closed = p[:1], False
                    ctx.observe('single point')
                else:
                    kept.append((p, closed if form == 'irap' else False, u))
                if form == 'irap':
                    for v in (np.concatenate((p, p[:1])) if closed else p):
                        fp.write(' '.join(repr(float(x)) for x in v) + '\n')
                    fp.write('999.0 999.0 999.0\n' if ctx.flag() else '  999.00  999.00   999.00\n')
                    if ctx.flag(0.2):
                        fp.write('\n')
                else:
                    for v in p:
                        fp.write('\t'.join(['INLINE-', '0', '0'] + [repr(float(x)) for x in v] + ['fault', str(i + 1)]) + '\n')
        truth = kept
        if not kept:
            raise Skip('no lines')
    else:
        s = rql.PolylineSet(m, polylines = lines, title = ctx.choice(['set', 'two words', None]))
        if ctx.flag(0.5):
            s.write_hdf5()
            s.create_xml()
            m.store_epc()
            m = rq.Model(m.epc_file)
            s = rql.PolylineSet(m, uuid = s.uuid)
        s.convert_to_irap(f) if form == 'irap' else s.convert_to_charisma(f)
        match(ctx, s.polys, truth, 'after-writing', crs.uuid)
        if form == 'charisma':
            truth = [(p, False, u) for p, c, u in truth]
    title = ctx.choice([None, 'named'])
    uuid = ctx.choice([crs.uuid, crs.uuid, None])
    s = rql.PolylineSet(m, crs_uuid = uuid, title = title, **{f'{form}_file': f})
    ctx.equal(s.title, title or 'some lines', 'file-title')
    # closed lines come with the first point repeated in the file
    match(ctx, s.polys, truth, 'file', crs.uuid, tol = 1.0e-12)
    s.write_hdf5()
    s.create_xml()
    m.store_epc()
    match(ctx, rql.PolylineSet(rq.Model(m.epc_file), uuid = s.uuid).polys, truth, 'file-stored', crs.uuid, tol = 1.0e-12)


def plain_lines(ctx):
    """Stripping of repeated vertices from plain arrays."""
    import resqpy.olio.simple_lines as sl
    tol = ctx.choice([0.001, 0.5])
    n, d = ctx.integer(2, 12), ctx.choice([2, 3])
    base = np.cumsum(np.concatenate((np.zeros((1, d)), ctx.rng.choice([-5.0, 5.0, 3.0], (n - 1, d)))), axis = 0)
    e, a = [], []
    for v in base:
        e.append(v)
        a.append(v)
        for _ in range(ctx.choice([0, 0, 0, 1, 2])):
            a.append(v + ctx.rng.uniform(-0.2, 0.2, d) * tol / d)
    a, e = np.array(a), np.array(e)
    a0 = a.copy()
    got = sl.duplicate_vertices_removed(a, tolerance = tol)
    if len(a) > 2:
        e[-1] = a[-1]
        ctx.equal(got, e, 'duplicates')
    ctx.equal(a, a0, 'duplicates-input')
    shut = ctx.flag()
    line = np.concatenate((base, base[:1] + (0.2 * tol / d if shut else 3.0 * tol)))
    ctx.equal(sl.polygon_line(line, tolerance = tol), base if shut else line, 'polygon-line')
    ctx.sig(n, d, tol, shut, len(a))


SCENARIOS = [
    Scenario(measures, 300),
    Scenario(places, 250),
    Scenario(normalised, 60),
    Scenario(derived, 250),
    Scenario(sets, 120),
    Scenario(singles, 40),
    Scenario(mixed, 25),
    Scenario(text_files, 60),
    Scenario(plain_lines, 40),
]
