"""C39: compiled numeric kernels stay in bounds and parallel equals serial.

Every kernel is compiled with bounds checking (an access outside an array raises IndexError), and is given views into larger
buffers whose surroundings are filled with a pattern that must survive.
"""

import os

os.environ['NUMBA_BOUNDSCHECK'] = '1'

import numba
import numpy as np

numba.core.config.BOUNDSCHECK = 1

from props.spec import spec
from props import c28_find_faces as c28
from rv.core import Scenario, Skip, Violation

PROP = spec('C39')


class Guard:
    """Keeps arrays within larger buffers, and checks that nothing around (or in them, unless outputs) is changed."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.held = []

    def __call__(self, a, output = False, layout = None):
        ctx = self.ctx
        a = np.asarray(a)
        layout = layout or ctx.choice(['C', 'C', 'C', 'spread'])
        pad = 64
        if layout == 'spread' and a.ndim >= 1:  # not contiguous, with other data in between
            buf = np.empty((a.shape[0] * 2 + 2 * pad,) + a.shape[1:], dtype = a.dtype)
            self.fill(buf)
            v = buf[pad:pad + 2 * a.shape[0]:2]
        else:
            buf = np.empty(a.size + 2 * pad, dtype = a.dtype)
            self.fill(buf)
            v = buf[pad:pad + a.size].reshape(a.shape)
            assert v.base is not None
        v[...] = a
        keep = buf.copy()
        self.held.append((buf, keep, v, a.copy(), output))
        return v

    def fill(self, buf):
        if buf.dtype == bool:
            buf[...] = self.ctx.rng.random(buf.shape) < 0.5
        elif buf.dtype.kind == 'f':
            buf[...] = -7.0e30
        else:
            buf[...] = 90

    def intact(self, code):
        for buf, keep, v, a, output in self.held:
            if not output:
                self.ctx.check(v.tobytes() == a.tobytes(), code, 'input array changed')
            was = v.copy()
            v[...] = a
            self.ctx.check(buf.tobytes() == keep.tobytes(), code, 'memory around array changed')
            v[...] = was


def call(ctx, code, fn, *args, **kw):
    """Result of kernel; accesses out of bounds are violations."""
    try:
        return fn(*args, **kw)
    except (IndexError, SystemError) as e:
        raise Violation(code + '-bounds', str(e)[:120], dict(args = [getattr(a, 'shape', a) for a in args])) from e


def most_threads():
    return int(numba.config.NUMBA_NUM_THREADS)


def threads(ctx):
    n = ctx.choice([1, 2, 3, 5, 8])
    return min(n, most_threads())


def on_threads(ctx, code, fn, *args, repeats = 2, **kw):
    """Result with one thread, having checked that it is the same with any number of threads, on every run."""
    numba.set_num_threads(1)
    base = call(ctx, code, fn, *args, **kw)
    for n in (threads(ctx), most_threads()):
        numba.set_num_threads(n)
        for _ in range(repeats):
            again = call(ctx, code, fn, *args, **kw)
            for x, y in zip(base if isinstance(base, tuple) else (base,), again if isinstance(again, tuple) else (again,)):
                ctx.check(x.shape == y.shape and x.dtype == y.dtype and x.tobytes() == y.tobytes(), code + '-threads', 'differs with number of threads', threads = n,
                          one = x.shape, many = y.shape)
            ctx.observe('parallel runs')
    numba.set_num_threads(most_threads())
    ctx.observe('threads layer ' + numba.threading_layer())
    return base


def size(ctx, big = 60, huge = 0):
    r = ctx.rng.random()
    if r < 0.12:
        return 0
    if r < 0.25:
        return 1
    if huge and r > 0.9:
        return ctx.integer(huge // 4, huge)
    return ctx.integer(2, big)


def crossing(x, y, poly):
    """Even-odd rule, as stated: points above lower end, and at or below higher end, of each edge."""
    inside = False
    n = len(poly)
    for i in range(n):
        (ax, ay), (bx, by) = poly[i - 1], poly[i]
        if min(ay, by) < y <= max(ay, by):
            if x <= (y - ay) * (bx - ax) / (by - ay) + ax:
                inside = not inside
    return inside


def near_edge(x, y, poly, eps = 1.0e-9):
    a = np.asarray(poly, dtype = float)
    b = np.roll(a, -1, axis = 0)
    d = b - a
    l2 = np.maximum(np.sum(d * d, axis = 1), 1.0e-300)
    t = np.clip(((x - a[:, 0]) * d[:, 0] + (y - a[:, 1]) * d[:, 1]) / l2, 0.0, 1.0)
    q = a + t[:, None] * d
    return bool(np.min(np.hypot(q[:, 0] - x, q[:, 1] - y)) < eps * (1.0 + np.max(np.abs(a))))


def polygons(ctx):
    """Points in polygons."""
    import resqpy.olio.vector_utilities as vec
    g = Guard(ctx)
    n = size(ctx, huge = 30000)
    dims = ctx.choice([2, 3])
    pts = ctx.rng.random((n, dims)) * 10.0
    if ctx.flag(0.3):
        pts = np.round(pts)
    nv = ctx.choice([0, 1, 2, 3, 3, 4, 7, 15])
    poly = ctx.rng.random((nv, 2)) * 10.0
    if ctx.flag(0.3):
        poly = np.round(poly)
    xlen = ctx.choice([1, max(1, n), ctx.integer(1, max(1, n))])
    num = ctx.choice([0, 3, 12])
    p, q = g(pts), g(poly)
    got = on_threads(ctx, 'points-in-polygon', vec.points_in_polygon, p, q, xlen, num)
    ctx.sig(n, nv, dims)
    lone = np.array([bool(call(ctx, 'point-in-polygon', vec.point_in_polygon, p[i, 0], p[i, 1], q)) for i in range(min(n, 2000))], dtype = bool)
    ctx.equal(got.shape[1:], (3,), 'points-in-polygon', 'shape')
    idx = got[:, 1].astype(int) * xlen + got[:, 2]
    ctx.check(np.all(got[:, 2] < xlen) and np.all(got[:, 2] >= 0), 'points-in-polygon', 'I index')
    ctx.check(np.all(got[:, 0] == num), 'points-in-polygon', 'number')
    ctx.check(len(idx) < 2 or np.all(np.diff(idx) > 0), 'points-in-polygon', 'order')
    ctx.equal(idx[idx < 2000], np.where(lone)[0], 'points-in-polygon', 'same as point by point')
    for i in range(min(n, 300)):
        if nv and not near_edge(pts[i, 0], pts[i, 1], poly):
            ctx.check(bool(lone[i]) == crossing(pts[i, 0], pts[i, 1], poly), 'point-in-polygon', 'inside', point = pts[i].tolist(), poly = poly.tolist())
        elif not nv:
            ctx.check(not lone[i], 'point-in-polygon', 'inside nothing')
    # several
    m = ctx.integer(0, 4)
    polys = ctx.rng.random((m, max(nv, 1), 2)) * 10.0
    r = g(polys, layout = 'C')
    p2 = g(pts[:, :2].copy(), layout = 'C')
    got = call(ctx, 'points-in-polygons', vec.points_in_polygons, p2, r, xlen)
    exp = [call(ctx, 'points-in-polygon', vec.points_in_polygon, p2, r[i], xlen, i) for i in range(m)]
    exp = np.concatenate(exp) if m else np.empty((0, 3), dtype = np.int32)
    ctx.equal(got, exp, 'points-in-polygons')
    g.intact('guard')


def bary2(tri, x, y):
    a, b, c = tri
    d = (b[0] - a[0]) * (c[1] - a[1]) - (c[0] - a[0]) * (b[1] - a[1])
    if d == 0.0:
        return None
    u = ((x - a[0]) * (c[1] - a[1]) - (c[0] - a[0]) * (y - a[1])) / d
    v = ((b[0] - a[0]) * (y - a[1]) - (x - a[0]) * (b[1] - a[1])) / d
    return 1.0 - u - v, u, v


def in_triangle(tri, x, y, eps = 1.0e-7):
    """True, False, or None if too close to call."""
    w = bary2(tri, x, y)
    if w is None or near_edge(x, y, tri, eps):
        return None
    return min(w) > 0.0


def triangles(ctx):
    """Points in triangles: explicit points, and points of an implicit mesh."""
    import resqpy.olio.vector_utilities as vec
    g = Guard(ctx)
    n, m = size(ctx, huge = 2000), ctx.choice([0, 1, 2, 5])
    pts = ctx.rng.random((n, 2)) * 10.0
    tris = ctx.rng.random((m, 3, 2)) * 10.0
    xlen = ctx.integer(1, max(1, n))
    p, t = g(pts), g(tris)
    ctx.sig(n, m)
    got = call(ctx, 'points-in-triangles', vec.points_in_triangles_njit, p, t, xlen)
    exp = []
    for i in range(m):
        one = call(ctx, 'points-in-triangle', vec.points_in_triangle, p, t[i], xlen, i)
        lone = [k for k in range(n) if call(ctx, 'point-in-triangle', vec.point_in_triangle, p[k, 0], p[k, 1], t[i])]
        ctx.equal([[i] + list(divmod(k, xlen)) for k in lone], one.tolist(), 'points-in-triangle')
        exp += one.tolist()
        for k in range(min(n, 200)):
            e = in_triangle(tris[i], *pts[k])
            if e is not None:
                ctx.check(e == (k in lone), 'point-in-triangle', 'inside', point = pts[k].tolist(), tri = tris[i].tolist())
    ctx.equal(got.tolist(), exp, 'points-in-triangles')
    # implicit mesh
    nx, ny = ctx.integer(0, 8), ctx.integer(0, 8)
    tri = ctx.rng.random((3, 2)) * 10.0 - 1.0
    got = call(ctx, 'mesh-points-in-triangle', vec.mesh_points_in_triangle, g(tri), nx, ny, 5)
    got = [tuple(x) for x in got.tolist()]
    ctx.check(len(set(got)) == len(got), 'mesh-points-in-triangle', 'once each')
    for j in range(ny):
        for i in range(nx):
            e = in_triangle(tri, float(i), float(j))
            if e is not None:
                ctx.check(e == ((5, j, i) in got), 'mesh-points-in-triangle', 'inside')
    ctx.check(all(a == 5 and 0 <= b < ny and 0 <= c < nx for a, b, c in got), 'mesh-points-in-triangle', 'range')
    g.intact('guard')


def some_triangles(ctx, m, nx, ny, dx, dy, dims = 2):
    t = (ctx.rng.random((m, 3, dims)) * 1.6 - 0.3)
    if ctx.flag(0.5) and m:  # small ones
        c = ctx.rng.random((m, 1, dims))
        t = c + (t - 0.5) * ctx.choice([0.02, 0.2, 0.5])
    t[..., 0] *= max(nx, 1) * dx
    t[..., 1] *= max(ny, 1) * dy
    if ctx.flag(0.2):
        t[..., 0] = np.round(t[..., 0] / dx) * dx + (0.5 * dx if ctx.flag() else 0.0)
    return t


def aligned(ctx):
    """Points of an aligned mesh in triangles, worked on in parallel batches."""
    import resqpy.olio.vector_utilities as vec
    g = Guard(ctx)
    nx, ny = size(ctx, 12, 60), size(ctx, 12, 60)
    dx, dy = ctx.uniform(0.5, 50.0), ctx.uniform(0.5, 50.0)
    m = ctx.choice([0, 1, 2, 3, 7, 19, 20, 21, 22, 39, 40, 41, 61, ctx.integer(100, 600)])
    tris = some_triangles(ctx, m, nx, ny, dx, dy)
    t = g(tris)
    nb = ctx.choice([1, 2, 3, 7, 20, 20, 50])
    ctx.sig(m, nx, ny, nb)
    serial = call(ctx, 'aligned-serial', vec.points_in_triangles_aligned_optimised_serial, nx, ny, dx, dy, t)
    got = on_threads(ctx, 'aligned', vec.points_in_triangles_aligned_optimised, nx, ny, dx, dy, t, nb)
    ctx.equal(got, serial, 'aligned', 'same as serial')
    ctx.equal(call(ctx, 'aligned', vec.points_in_triangles_aligned_optimised, nx, ny, dx, dy, t), serial, 'aligned', 'default batches')
    ctx.check(got.dtype == np.int32 and got.shape[1:] == (3,), 'aligned', 'type')
    if len(got):
        ctx.check(np.all(got >= 0) and got[:, 0].max() < m and got[:, 1].max() < ny and got[:, 2].max() < nx, 'aligned', 'range')
    have = set(map(tuple, got.tolist()))
    ctx.check(len(have) == len(got), 'aligned', 'once each')
    for k in range(min(m, 12)):
        for j in range(min(ny, 12)):
            for i in range(min(nx, 12)):
                e = in_triangle(tris[k], (i + 0.5) * dx, (j + 0.5) * dy, 1.0e-6)
                if e is not None:
                    ctx.check(e == ((k, j, i) in have), 'aligned', 'inside', tri = tris[k].tolist(), cell = (j, i), d = (dx, dy))
    old = call(ctx, 'aligned-plain', vec.points_in_triangles_aligned, nx, ny, dx, dy, t) if m < 50 else None
    if old is not None:
        for a, b in ((have, set(map(tuple, old.tolist()))),):
            for k, j, i in a ^ b:
                ctx.check(near_edge((i + 0.5) * dx, (j + 0.5) * dy, tris[k], 1.0e-5), 'aligned-plain', 'methods differ', tri = tris[k].tolist(), cell = (j, i))
    g.intact('guard')
    ctx.observe('hits', len(got))


def unified(ctx):
    """As for aligned, with any arrangement of axes, and values of the third axis."""
    import resqpy.olio.vector_utilities as vec
    g = Guard(ctx)
    nx, ny = size(ctx, 12, 60), size(ctx, 12, 60)
    m = ctx.choice([0, 1, 2, 3, 7, 19, 20, 21, 22, 39, 40, 41, 61, ctx.integer(100, 600)])
    ax, ay, az = ctx.choice([(0, 1, 2), (0, 2, 1), (1, 2, 0), (1, 0, 2), (2, 0, 1), (2, 1, 0)])
    base = some_triangles(ctx, m, nx, ny, 1.0, 1.0, 3)
    base[..., 2] *= 10.0
    tris = np.empty_like(base)
    tris[..., ax], tris[..., ay], tris[..., az] = base[..., 0] - 0.5, base[..., 1] - 0.5, base[..., 2]
    t = g(tris)
    nb = ctx.choice([1, 2, 3, 7, 20, 20, 50])
    ctx.sig(m, nx, ny, nb, ax, ay)
    serial = call(ctx, 'unified-serial', vec._points_in_triangles_aligned_unified_batch, nx, ny, 0, t, ax, ay, az)
    got, z = on_threads(ctx, 'unified', vec.points_in_triangles_aligned_unified, nx, ny, ax, ay, az, t, nb)
    ctx.equal(got, serial[0], 'unified', 'same as serial')
    ctx.equal(z, serial[1], 'unified', 'values same as serial')
    d = call(ctx, 'unified', vec.points_in_triangles_aligned_unified, nx, ny, ax, ay, az, t)
    ctx.equal(d[0], serial[0], 'unified', 'default batches')
    flat = np.ascontiguousarray(base[..., :2])
    other = call(ctx, 'aligned', vec.points_in_triangles_aligned_optimised, nx, ny, 1.0, 1.0, flat)
    ctx.equal(got, other, 'unified', 'same as for two dimensions')
    for (k, j, i), v in list(zip(got.tolist(), z.tolist()))[:300]:
        w = bary2(base[k], i + 0.5, j + 0.5)
        if w is None:
            continue
        s = np.max(np.abs(np.array(w)))
        a, b, c = base[k][:, :2]
        area = abs((b[0] - a[0]) * (c[1] - a[1]) - (c[0] - a[0]) * (b[1] - a[1]))
        if s < 1.5 and area > 1.0e-3:
            ctx.check(abs(v - float(np.dot(w, base[k][:, 2]))) < 1.0e-5 * (1.0 + 10.0 / area), 'unified', 'value on triangle', got = v, exp = float(np.dot(w, base[k][:, 2])))
    g.intact('guard')
    ctx.observe('hits', len(got))


def small(ctx):
    """Small kernels against definitions."""
    import resqpy.olio.vector_utilities as vec
    g = Guard(ctx)
    what = ctx.choice(['meshgrid', 'triangle_box', 'intercepts', 'sorted', 'vectors', 'normal', 'extremes'])
    ctx.sig(what)
    if what == 'meshgrid':
        x, y = [ctx.rng.random(size(ctx, 9)) if ctx.flag() else ctx.rng.integers(0, 100, size = size(ctx, 9)) for _ in range(2)]
        xx, yy = call(ctx, 'meshgrid', vec.meshgrid, g(x), g(y))
        ex, ey = np.meshgrid(x, y)
        ctx.equal(xx, ex, 'meshgrid')
        ctx.equal(yy, ey, 'meshgrid')
        ctx.equal((xx.dtype, yy.dtype), (x.dtype, y.dtype), 'meshgrid', 'types')
    elif what == 'triangle_box':
        t = ctx.rng.random((3, ctx.choice([2, 3])))
        got = call(ctx, 'triangle-box', vec.triangle_box, g(t))
        ctx.equal(tuple(got), (t[:, 0].min(), t[:, 0].max(), t[:, 1].min(), t[:, 1].max()), 'triangle-box')
    elif what == 'intercepts':
        xs = ctx.rng.integers(0, 6, 2).astype(float) if ctx.flag() else ctx.rng.random(2) * 6.0
        ys, zs = ctx.rng.random(2), ctx.rng.random(2)
        x = ctx.choice([xs[0], xs[1], ctx.uniform(-1.0, 7.0)])
        within = min(xs) <= x <= max(xs)
        a = call(ctx, 'intercept', vec.vertical_intercept, x, g(xs), g(ys))
        b = call(ctx, 'intercept', vec.vertical_intercept_nan, x, xs[0], xs[1], ys[0], ys[1])
        c, d = call(ctx, 'intercept', vec.vertical_intercept_nan_yz, x, xs[0], xs[1], ys[0], ys[1], zs[0], zs[1])
        ctx.equal((a is None, np.isnan(b), np.isnan(c), np.isnan(d)), (not within,) * 4, 'intercept', 'within')
        if within:
            if xs[0] == xs[1]:
                ctx.check(a in ys and b in ys and c in ys and d in zs, 'intercept', 'vertical')
            else:
                f = (x - xs[0]) / (xs[1] - xs[0])
                for v, e in ((a, ys), (b, ys), (c, ys), (d, zs)):
                    ctx.close(v, e[0] + f * (e[1] - e[0]), 'intercept', tol = 1.0e-7)
    elif what == 'sorted':
        n = size(ctx, 12)
        p = ctx.rng.random((n, 2)) * np.array([ctx.uniform(0.1, 5.0), ctx.uniform(0.1, 5.0)])
        if n > 1 and ctx.flag(0.3):
            p[ctx.integer(0, n - 1)] = np.nan
        shaped = p.reshape((2, n // 2, 2)) if n % 2 == 0 and n and ctx.flag(0.3) else p
        axis = ctx.choice([-1, -1, 0, 1])
        q, a = call(ctx, 'xy-sorted', vec.xy_sorted_njit, g(shaped, layout = 'C'), axis)
        ctx.equal(q.shape, p.shape, 'xy-sorted', 'shape')
        if axis == -1 and n and not np.all(np.isnan(p)):
            span = np.nanmax(p, axis = 0) - np.nanmin(p, axis = 0)
            ctx.equal(int(a), 1 if span[1] > span[0] else 0, 'xy-sorted', 'axis')
        elif axis != -1:
            ctx.equal(int(a), axis, 'xy-sorted', 'axis given')
        ctx.equal(sorted(map(repr, q.tolist())), sorted(map(repr, p.tolist())), 'xy-sorted', 'same points')
        v = q[:, int(a)]
        v = v[~np.isnan(v)]
        ctx.check(np.all(np.diff(v) >= 0.0), 'xy-sorted', 'order')
    elif what == 'extremes':
        n, m = ctx.integer(0, 8), ctx.integer(1, 4)
        p = ctx.rng.random((n, m)) - 0.5
        p[ctx.rng.random(p.shape) < 0.2] = np.nan
        hi, lo = call(ctx, 'extremes', vec._nanmax, g(p)), call(ctx, 'extremes', vec._nanmin, g(p))
        e = [(np.nan, np.nan) if np.all(np.isnan(p[:, c])) else (np.nanmax(p[:, c]), np.nanmin(p[:, c])) for c in range(m)]
        ctx.close(hi, np.array([x for x, _ in e]), 'extremes', tol = 0.0)
        ctx.close(lo, np.array([x for _, x in e]), 'extremes', tol = 0.0)
    elif what == 'vectors':
        v = ctx.rng.normal(size = 3)
        if ctx.flag(0.2):
            v[ctx.integer(0, 2)] = 0.0
        ctx.close(call(ctx, 'vectors', vec.unit_vector_njit, g(v)), v / np.linalg.norm(v), 'unit-vector', tol = 1.0e-12)
        ctx.equal(call(ctx, 'vectors', vec.unit_vector_njit, g(np.zeros(3))), np.zeros(3), 'unit-vector', 'zero')
        r = call(ctx, 'vectors', vec.rotation_matrix_3d_vector_njit, g(v, layout = 'C'))
        ctx.close(r, vec.rotation_matrix_3d_vector(v), 'rotation', tol = 1.0e-12)
        a = ctx.rng.uniform(-180.0, 180.0, 3)
        ctx.close(call(ctx, 'vectors', vec.rotation_3d_matrix_njit, g(a, layout = 'C')), vec.rotation_3d_matrix(a), 'rotation', tol = 1.0e-12)
        p = ctx.rng.random((size(ctx, 9), 3))
        mat = np.ascontiguousarray(r)
        ctx.close(call(ctx, 'vectors', vec.rotate_array_njit, mat, g(p, layout = 'C')), p @ mat.T, 'rotation', tol = 1.0e-9)
    else:
        t = ctx.rng.random((3, 3))
        e = np.cross(t[0] - t[1], t[0] - t[2])
        ctx.close(call(ctx, 'normal', vec.triangle_normal_vector_numba, g(t)), e / np.linalg.norm(e), 'normal', tol = 1.0e-12)
    g.intact('guard')
    ctx.observe(what)


def searches(ctx):
    """First and next in lists."""
    import resqpy.grid_surface._find_faces as ff
    import resqpy.olio.triangulation as tri
    g = Guard(ctx)
    n = size(ctx, 12)
    a = ctx.rng.random(n) < ctx.choice([0.0, 0.2, 0.8, 1.0])
    v = ctx.rng.integers(0, 5, size = n)
    pairs = ctx.rng.integers(0, 6, size = (n, 2))
    used = ctx.rng.random(n) < ctx.choice([0.0, 0.5, 1.0])
    k = ctx.integer(0, 6)
    ctx.sig(n)
    ctx.equal(call(ctx, 'first-false', tri._first_false, g(a)), next((i for i in range(n) if not a[i]), n), 'first-false')
    ctx.equal(call(ctx, 'first-match', tri._first_match, g(v), k), next((i for i in range(n) if v[i] == k), n), 'first-match')
    t = call(ctx, 'first-true', ff._first_true, g(a))
    ctx.equal(int(t), next((i + 1 for i in range(n) if a[i]), n), 'first-true')
    got = call(ctx, 'find-unused', tri._find_unused, g(pairs), g(used), k)
    exp = next(((i, int(pairs[i, 1])) for i in range(n) if pairs[i, 0] == k and not used[i]), None) or \
        next(((i, int(pairs[i, 0])) for i in range(n) if pairs[i, 1] == k and not used[i]), (n, -1))
    ctx.equal(tuple(int(x) for x in got), exp, 'find-unused')
    b = ctx.rng.random([ctx.integer(0, 4) for _ in range(3)]) < 0.4
    for x, y in zip(call(ctx, 'where', ff._where_true, g(b)), np.where(b)):
        ctx.equal(x, y, 'where')
    g.intact('guard')


def line_triangle(ctx):
    """Meeting of a line and a triangle."""
    import resqpy.olio.intersection as meet
    g = Guard(ctx)
    tri = ctx.rng.random((3, 3)) * 10.0
    w = ctx.rng.dirichlet((1.0, 1.0, 1.0))
    if ctx.flag(0.4):
        w = ctx.rng.normal(size = 3)
        w /= w.sum()
    target = w @ tri
    v = ctx.rng.normal(size = 3) * ctx.choice([0.1, 1.0, 20.0])
    f = ctx.uniform(-1.0, 2.0)
    p = target - f * v
    n = np.cross(tri[1] - tri[0], tri[2] - tri[0])
    if abs(np.dot(n, v)) < 1.0e-3 * np.linalg.norm(n) * np.linalg.norm(v) or np.linalg.norm(n) < 1.0e-2 or np.max(np.abs(w)) > 20.0:
        raise Skip('near parallel')
    segment = ctx.flag()
    tol = ctx.choice([0.0, 1.0e-6, 0.1])
    l_tol = ctx.choice([0.0, 0.05])
    margin = min(abs(min(w) + tol), abs(f + l_tol), abs(f - 1.0 - l_tol))
    if margin < 1.0e-4:
        raise Skip('on the edge')
    # weights: first corner is limited by u + v, others directly
    hit = w[1] >= -tol and w[1] <= 1.0 + tol and w[2] >= -tol and w[1] + w[2] <= 1.0 + tol
    if segment:
        hit = hit and -l_tol <= f <= 1.0 + l_tol
    ctx.sig(segment, hit)
    a = call(ctx, 'line-triangle', meet.line_triangle_intersect_numba, g(p, layout = 'C'), g(v, layout = 'C'), g(tri, layout = 'C'), segment, l_tol, tol)
    b = meet.line_triangle_intersect(p, v, tri, segment, l_tol, tol)
    ctx.equal((a is not None, b is not None), (hit, hit), 'line-triangle', str((w.tolist(), f)))
    if hit:
        ctx.close(a, target, 'line-triangle', tol = 1.0e-6)
        ctx.close(b, target, 'line-triangle', tol = 1.0e-6)
    g.intact('guard')


def intersect(ctx):
    """Kernel which sets faces from hits, with last hit prevailing, as if done one by one."""
    import resqpy.grid_surface._find_faces as ff
    g = Guard(ctx)
    axis = ctx.integer(0, 2)
    ext = np.array([ctx.integer(1, 6) for _ in range(3)])  # kji
    ext[2 - axis] = ctx.integer(2, 6)
    d = np.array([ctx.uniform(1.0, 20.0) for _ in range(3)])  # xyz
    index1, index2 = {2: (1, 2), 1: (0, 2), 0: (0, 1)}[axis]
    n_axis = int(ext[2 - axis])
    size_xyz = ext[::-1] * d
    m = ctx.integer(1, 30)
    pts = ctx.rng.random((3 * m, 3)) * size_xyz * 1.4 - 0.2 * size_xyz
    tris = np.arange(3 * m).reshape((m, 3))
    hits = []
    for t in range(m):
        for _ in range(ctx.integer(0, 6)):
            hits.append((t, ctx.integer(0, int(ext[index1]) - 1), ctx.integer(0, int(ext[index2]) - 1)))
    if hits and ctx.flag(0.3):  # crowd the same line
        hits = [(t, hits[0][1], hits[0][2]) for t, _, _ in hits] * ctx.choice([1, 20])
    hits = np.array(hits, dtype = np.int32).reshape((-1, 3))
    shape = ext.copy()
    shape[2 - axis] -= 1
    shape = tuple(int(x) for x in shape)
    faces0 = np.zeros(shape, dtype = bool)
    out = dict(faces = faces0, depths = np.full(shape, np.nan), offsets = np.full(shape, np.nan), tri = np.full(shape, -1, dtype = np.int32))
    want = [ctx.flag() for _ in range(3)]

    def once():
        arr = {k: g(a.copy(), output = True, layout = 'C') for k, a in out.items()}
        call(ctx, 'intersect', ff.intersect_numba, axis, index1, index2, g(hits, layout = 'C'), n_axis, g(pts, layout = 'C'), g(tris, layout = 'C'), tuple(d),
             arr['faces'], want[0], arr['depths'], want[1], arr['offsets'], want[2], arr['tri'])
        return arr

    ctx.sig(axis, len(hits), shape)
    exp = {k: a.copy() for k, a in out.items()}
    for t, d1, d2 in hits.tolist():
        c0 = d / 2.0
        c0 = np.array([d[axis] / 2.0] * 3)
        c0[2 - index1] = (d1 + 0.5) * d[2 - index1]
        c0[2 - index2] = (d2 + 0.5) * d[2 - index2]
        x = [a for a in range(3) if a != axis]
        w = bary2(pts[tris[t]][:, x], c0[x[0]], c0[x[1]])
        if w is None or min(abs(v) for v in w) < 1.0e-5:
            raise Skip('close call')
        if min(w) < 0.0:
            continue
        v = float(np.dot(w, pts[tris[t]][:, axis]))
        if min(abs(v - (q + 0.5) * d[axis]) for q in range(n_axis)) < 1.0e-6 * d[axis] or np.max(np.abs(w)) > 1.0:
            raise Skip('close call')
        if not 0.5 * d[axis] <= v <= (n_axis - 0.5) * d[axis]:
            continue
        f = int(v / d[axis] - 0.5)
        at = np.zeros(3, dtype = int)
        at[index1], at[index2], at[2 - axis] = d1, d2, f
        at = tuple(at)
        xyz = c0.copy()
        xyz[axis] = v
        exp['faces'][at] = True
        if want[0]:
            exp['depths'][at] = xyz[2]
        if want[1]:
            exp['offsets'][at] = v - (f + 1) * d[axis]
        if want[2]:
            exp['tri'][at] = t
    for _ in range(2):
        arr = once()
        ctx.equal(arr['faces'], exp['faces'], 'intersect-faces')
        ctx.close(arr['depths'], exp['depths'], 'intersect-depths', tol = 1.0e-6 * (1.0 + float(size_xyz.max())))
        ctx.close(arr['offsets'], exp['offsets'], 'intersect-offsets', tol = 1.0e-6 * (1.0 + float(size_xyz.max())))
        ctx.equal(arr['tri'], exp['tri'], 'intersect-triangles')
    g.intact('guard')
    ctx.observe('faces set', int(exp['faces'].sum()))


def boxes(ctx):
    """Bounding boxes of faces, faces set from indices, and filling of a box from open faces."""
    import resqpy.grid_surface._find_faces as ff
    g = Guard(ctx)
    ext = tuple(ctx.choice([1, 1, 2, 3, ctx.integer(1, 7)]) for _ in range(3))
    shapes = [tuple(n - (a == b) for b, n in enumerate(ext)) for a in range(3)]
    masks = [None if ctx.flag(0.15) else (ctx.rng.random(s) < ctx.choice([0.0, 0.05, 0.3, 1.0])) for s in shapes]
    ctx.sig(ext, tuple(m is None for m in masks))
    some = [m is not None and m.any() for m in masks]
    lo, hi = np.full(3, 10**6), np.full(3, -1)
    for a, m in enumerate(masks):
        if m is not None and m.any():
            w = np.array(np.where(m))
            e0, e1 = w.min(axis = 1), w.max(axis = 1)
            for b in range(3):
                if b == a:
                    e1[b] += 1
                else:
                    e0[b] = max(e0[b] - 1, 0)
                    e1[b] = min(e1[b] + 1, ext[b] - 1)
            lo, hi = np.minimum(lo, e0), np.maximum(hi, e1)
    if any(some):
        views = [None if m is None else g(m) for m in masks]
        box = call(ctx, 'boundary', ff.get_boundary, *views, ext)
        ctx.equal(box, np.array([lo, hi + 1]), 'boundary')
        d = call(ctx, 'boundary', ff.get_boundary_dict, *views, ext)
        ctx.equal([int(d[k]) for k in ('k_min', 'j_min', 'i_min', 'k_max', 'j_max', 'i_max')], lo.tolist() + hi.tolist(), 'boundary', 'dictionary')
        idx = [None if m is None or not m.any() else np.stack(np.where(m), axis = -1).astype(np.int32) for m in masks]
        b2 = call(ctx, 'boundary-indices', ff.get_boundary_from_indices, *[None if x is None else g(x, layout = 'C') for x in idx], ext)
        full = [x for x in idx if x is not None]
        e0 = np.maximum(np.min([x.min(axis = 0) for x in full], axis = 0) - 1, 0)
        e1 = np.minimum(np.max([x.max(axis = 0) for x in full], axis = 0) + 2, ext)
        ctx.equal(b2, np.array([e0, e1]), 'boundary-indices')
        ctx.check(np.all(b2[1] <= ext) and np.all(b2[0] >= 0), 'boundary-indices', 'within grid')
        got = call(ctx, 'face-arrays', ff._box_face_arrays_from_indices, *idx, b2)
        for a, (x, m) in enumerate(zip(got, masks)):
            # faces in axis a between cells of the box
            s = tuple(slice(int(b2[0, b]), int(b2[1, b]) - (a == b)) for b in range(3))
            e = np.zeros(x.shape, dtype = bool) if m is None else m[s]
            ctx.equal(x, e, 'face-arrays')
    # filling
    a = np.zeros(ext, dtype = bool)
    seed = tuple(ctx.integer(0, n - 1) for n in ext)
    if ctx.flag(0.9):
        a[seed] = True
    shut = [ctx.rng.random(s) < ctx.choice([0.0, 0.3, 0.6, 0.9]) for s in shapes]
    v = g(a, output = True, layout = 'C')
    call(ctx, 'fill', ff._fill_bisector, v, *[g(~s, layout = 'C') for s in shut])
    exp = a.copy()
    todo = [seed] if a.any() else []
    while todo:
        c = todo.pop()
        for ax in range(3):
            for step in (-1, 1):
                n = list(c)
                n[ax] += step
                if not 0 <= n[ax] < ext[ax]:
                    continue
                f = list(c)
                f[ax] = min(c[ax], n[ax])
                if not shut[ax][tuple(f)] and not exp[tuple(n)]:
                    exp[tuple(n)] = True
                    todo.append(tuple(n))
    ctx.equal(v, exp, 'fill')
    ctx.observe('cells filled', int(exp.sum()))
    # shallower side
    n_true = int(exp.sum())
    if 0 < n_true < exp.size:
        raw = ctx.flag()
        w = g(exp, output = True, layout = 'C')
        curtain = bool(call(ctx, 'shallow', ff._shallow_or_curtain, w, n_true, raw))
        k = np.arange(1, ext[0] + 1).reshape((-1, 1, 1))
        mk, ok = (k * exp).sum() / n_true, (k * ~exp).sum() / (exp.size - n_true)
        ctx.equal(w, exp if raw or not mk > ok else ~exp, 'shallow')
        if abs(abs(mk - ok) - 0.001) > 1.0e-6:
            ctx.equal(curtain, bool(abs(mk - ok) <= 0.001 and np.all(exp == exp[0])), 'shallow', 'curtain')
    g.intact('guard')


def whole(ctx):
    """Faces found for surfaces: same with any number of threads and batches."""
    import resqpy.grid_surface as rqgs
    c = c28.Case(ctx, kinds = ['sheet', 'soup', 'folded', 'ball', 'curtain', 'several', 'outside'], max_n = ctx.choice([(5, 5, 5), (9, 9, 9)]), other_crs = False, patches = 1)
    if np.prod(c.ext) < 2:
        raise Skip('single cell')
    c.flange = None
    want = [p for p in c28.props_for(ctx, c, 'optimised') if p != 'grid bisector']  # is refused for leaky surfaces
    args = dict(return_properties = want or None)
    ctx.sig(c.kind, c.ext)
    base = None
    for n in (1, threads(ctx), most_threads(), most_threads()):
        numba.set_num_threads(n)
        for method in (rqgs.find_faces_to_represent_surface_regular_optimised, rqgs.find_faces_to_represent_surface_regular_dense_optimised):
            kw = dict(args)
            if method is rqgs.find_faces_to_represent_surface_regular_optimised:
                kw['n_batches'] = ctx.choice([1, 2, 5, 20, 50])
            r = call(ctx, 'faces', method, c.grid, c.surface, 'cut', **kw)
            gcs, arrays = r if isinstance(r, tuple) else (r, {})
            got = (None, {}) if gcs is None or not gcs.count else ((np.array(gcs.cell_index_pairs), np.array(gcs.face_index_pairs)), arrays)
            which = 0 if method is rqgs.find_faces_to_represent_surface_regular_optimised else 1
            if base is None:
                base = [None, None]
            if base[which] is None:
                base[which] = got
                continue
            e = base[which]
            ctx.equal(got[0] is None, e[0] is None, 'faces-threads', 'any')
            if e[0] is None:
                continue
            ctx.equal(got[0][0], e[0][0], 'faces-threads', 'cells')
            ctx.equal(got[0][1], e[0][1], 'faces-threads', 'faces')
            for name, a in e[1].items():
                x, y = got[1][name], a
                if isinstance(a, tuple):
                    ctx.equal(x[1], y[1], 'faces-threads', name)
                    x, y = x[0], y[0]
                ctx.check(np.array_equal(x, y, equal_nan = np.asarray(y).dtype.kind == 'f'), 'faces-threads', name, threads = n)
            ctx.observe('parallel runs')
    numba.set_num_threads(most_threads())


SCENARIOS = [
    Scenario(polygons, 60),
    Scenario(triangles, 60),
    Scenario(aligned, 80),
    Scenario(unified, 80),
    Scenario(small, 200),
    Scenario(searches, 80),
    Scenario(line_triangle, 100),
    Scenario(intersect, 120),
    Scenario(boxes, 120),
    Scenario(whole, 24),
]
