"""C37: vector and geometry utilities."""

import math

import numpy as np

from rv.core import Scenario, Skip
from props.spec import spec

PROP = spec('C37')


def vector(ctx, zero = False, dims = 3):
    """A vector with a well defined direction, in any octant, sometimes along axes or in coordinate planes."""
    k = ctx.choice(['any', 'any', 'lattice', 'axis', 'plane', 'steep', 'flat'])
    if k == 'any':
        v = ctx.rng.normal(size = dims)
    elif k == 'lattice':
        v = ctx.rng.integers(-3, 4, size = dims).astype(float)
    elif k == 'axis':
        v = np.zeros(dims)
        v[ctx.integer(0, dims - 1)] = ctx.choice([-1.0, 1.0])
    elif k == 'plane':
        v = ctx.rng.normal(size = dims)
        v[ctx.integer(0, dims - 1)] = 0.0
    else:
        v = ctx.rng.normal(size = dims)
        v[-1] *= 1000.0 if k == 'steep' else 0.001
    n = np.linalg.norm(v)
    if n < 1.0e-3 and not zero:
        v = np.zeros(dims)
        v[0] = 1.0
    return v * ctx.choice([1.0, 1.0, 0.01, 1234.5])


def az_ref(v):
    return math.degrees(math.atan2(v[0], v[1])) % 360.0


def ang_diff(a, b):
    d = (np.asarray(a) - np.asarray(b)) % 360.0
    return np.minimum(d, 360.0 - d)


def directions(ctx):
    import resqpy.olio.vector_utilities as vec
    n = ctx.integer(1, 12)
    va = np.array([vector(ctx) for _ in range(n)])
    ctx.sig('dir', np.sign(va).tolist())
    ctx.observe('vectors', n)
    inc_ref = np.degrees(np.arctan2(np.hypot(va[:, 0], va[:, 1]), va[:, 2]))
    un_ref = va / np.sqrt(np.sum(va * va, axis = 1))[:, None]
    ctx.close(vec.unit_vectors(va), un_ref, 'unit-vectors', tol = 1e-12)
    ctx.close(vec.naive_lengths(va), np.linalg.norm(va, axis = 1), 'lengths', rtol = 1e-12, tol = 0)
    ctx.close(vec.naive_2d_lengths(va), np.hypot(va[:, 0], va[:, 1]), 'lengths-2d', rtol = 1e-12, tol = 1e-15)
    ctx.close(vec.inclinations(va), inc_ref, 'inclinations', tol = 2e-6)
    ctx.close(vec.nan_inclinations(va), inc_ref, 'nan-inclinations', tol = 2e-6)
    ctx.close(vec.nan_inclinations(un_ref, already_unit_vectors = True), inc_ref, 'nan-inclinations', tol = 2e-6)
    horizontal = np.hypot(va[:, 0], va[:, 1]) > 0.0
    if np.any(horizontal):
        a = vec.azimuths(va[horizontal])
        ctx.check(np.all((a >= 0.0) & (a <= 360.0)), 'azimuth-range', a = a)
        ctx.check(np.all(ang_diff(a, [az_ref(v) for v in va[horizontal]]) < 1e-9), 'azimuths', a = a, v = va)
        a2 = vec.azimuths(va[horizontal][:, :2])
        ctx.close(a2, a, 'azimuths-2d', tol = 1e-12)
        a3 = vec.azimuths(va[horizontal].reshape((1, -1, 3)))
        ctx.close(a3.reshape(-1), a, 'azimuths-shape', tol = 1e-12)
    for i, v in enumerate(va):
        ctx.close(vec.unit_vector(v), un_ref[i], 'unit-vector', tol = 1e-12)
        ctx.close(vec.unit_vector(tuple(v)), un_ref[i], 'unit-vector', tol = 1e-12)
        ctx.close(vec.unit_vector_njit(v), un_ref[i], 'unit-vector', tol = 1e-12)
        ctx.close(vec.naive_length(v), np.sqrt(v[0]**2 + v[1]**2 + v[2]**2), 'length', rtol = 1e-12, tol = 0)
        ctx.close(vec.naive_2d_length(v), np.sqrt(v[0]**2 + v[1]**2), 'length-2d', rtol = 1e-12, tol = 0)
        ctx.close(vec.inclination(v), inc_ref[i], 'inclination', tol = 2e-6, v = v)
        if horizontal[i]:
            a = vec.azimuth(v)
            ctx.check(0.0 <= a < 360.0 + 1e-9 and ang_diff(a, az_ref(v)) < 1e-9, 'azimuth', a = a, v = v)
            ctx.check(ang_diff(vec.azimuth(v[:2]), a) < 1e-9, 'azimuth-2d', v = v)
            h = vec.unit_vector_from_azimuth(a + 360.0 * ctx.integer(-1, 1))
            ctx.close(h, np.append(v[:2] / np.hypot(v[0], v[1]), 0.0), 'vector-from-azimuth', tol = 1e-9)
            ctx.close(vec.unit_vector_from_azimuth_and_inclination(a, inc_ref[i]), un_ref[i], 'vector-from-azi-incl', tol = 1e-7)
        else:
            ctx.close(vec.azimuth(v), 0.0, 'azimuth-vertical', tol = 0)
        w = vector(ctx)
        cosine = np.dot(v, w) / np.linalg.norm(v) / np.linalg.norm(w)
        ref = math.atan2(np.linalg.norm(np.cross(v, w)), np.dot(v, w))
        ctx.close(vec.radians_difference(v, w), ref, 'angle', tol = 3e-8, cosine = cosine)
        ctx.close(vec.degrees_difference(v, w), math.degrees(ref), 'angle-degrees', tol = 2e-6)
        ctx.close(vec.degrees_difference(v, v * ctx.uniform(0.1, 9.0)), 0.0, 'angle-self', tol = 2e-6)
        ctx.close(vec.degrees_difference(v, -v), 180.0, 'angle-opposite', tol = 2e-6)
        f = np.array([ctx.choice([1.0, 0.3048, 3.28084]) for _ in range(3)])
        ctx.close(vec.unit_corrected_length(v, f), np.linalg.norm(v * f), 'corrected-length', rtol = 1e-12, tol = 0)
        ctx.close(vec.manhattan_distance(v, w), np.sum(np.abs(v - w)), 'manhattan', rtol = 1e-12, tol = 1e-12)
        ctx.close(vec.manhatten_distance(v, w), np.sum(np.abs(v - w)), 'manhattan', rtol = 1e-12, tol = 1e-12)
        ctx.close(vec.add(v, w), v + w, 'add', tol = 0)
        ctx.close(vec.subtract(v, w), v - w, 'subtract', tol = 0)
        ctx.close(vec.elemental_multiply(v, w), v * w, 'multiply', tol = 0)
        ctx.close(vec.amplify(v, 2.5), v * 2.5, 'amplify', tol = 0)
        ctx.close(vec.v_3d(v[:2]), np.append(v[:2], 0.0), 'v3d', tol = 0)
        ctx.close(vec.dot_product(v, w), v[0] * w[0] + v[1] * w[1] + v[2] * w[2], 'dot', rtol = 1e-10, tol = 1e-9 * np.linalg.norm(v) * np.linalg.norm(w))
        ctx.close(vec.cross_product(v, w), [v[1] * w[2] - v[2] * w[1], v[2] * w[0] - v[0] * w[2], v[0] * w[1] - v[1] * w[0]], 'cross',
                  rtol = 1e-10, tol = 1e-9 * np.linalg.norm(v) * np.linalg.norm(w))
    wa = np.array([vector(ctx) for _ in range(n)])
    ctx.close(vec.dot_products(va, wa), [float(np.dot(x, y)) for x, y in zip(va, wa)], 'dots', rtol = 1e-9, tol = 1e-7)
    # with zero and NaN vectors mixed in
    mixed = np.array(va)
    zero = ctx.rng.random(n) < 0.3
    mixed[zero] = 0.0
    ctx.close(vec.unit_vectors(mixed), np.where(zero[:, None], 0.0, un_ref), 'unit-vectors-zero', tol = 1e-12)
    nan = ctx.rng.random(n) < 0.3
    mixed[nan] = np.nan
    ctx.close(vec.nan_unit_vectors(mixed), np.where(nan[:, None], np.nan, np.where(zero[:, None], 0.0, un_ref)), 'nan-unit-vectors', tol = 1e-12)
    shaped = mixed.reshape((n, 1, 3))
    ctx.close(vec.nan_unit_vectors(shaped), vec.nan_unit_vectors(mixed).reshape((n, 1, 3)), 'nan-unit-vectors', tol = 0)
    e = np.where(nan, np.nan, inc_ref)
    ctx.close(vec.nan_inclinations(mixed)[~zero], e[~zero], 'nan-inclinations', tol = 2e-6)


def ref_axial(axis, deg):
    a = math.radians(deg)
    c, s = math.cos(a), math.sin(a)
    if axis == 0:
        return np.array([[1, 0, 0], [0, c, -s], [0, s, c]])
    if axis == 1:
        return np.array([[c, 0, s], [0, 1, 0], [-s, 0, c]])
    return np.array([[c, -s, 0], [s, c, 0], [0, 0, 1]])


def rotations(ctx):
    import resqpy.olio.vector_utilities as vec
    ang = [ctx.choice([0.0, 90.0, -90.0, 180.0, 270.0, ctx.uniform(-400, 400), ctx.uniform(-5, 5)]) for _ in range(3)]
    ctx.sig('rot', ang)
    shape = ctx.choice([(1,), (5,), (2, 3), (2, 1, 2)])
    pts = ctx.rng.normal(size = shape + (3,)) * 50.0
    keep = pts.copy()
    for axis in range(3):
        m = vec.rotation_matrix_3d_axial(axis, ang[0])
        ctx.close(m, ref_axial(axis, ang[0]), 'axial', tol = 1e-12, axis = axis)
        ctx.close(np.dot(m, vec.rotation_matrix_3d_axial(axis, ang[1])), vec.rotation_matrix_3d_axial(axis, ang[0] + ang[1]), 'axial-compose', tol = 1e-10)
    m = vec.rotation_3d_matrix(ang)
    # documented as rotation about the x, z, then y axis
    ctx.close(m @ m.T, np.eye(3), 'orthogonal', tol = 1e-12)
    ctx.close(np.linalg.det(m), 1.0, 'proper', tol = 1e-12)
    expect = ref_axial(1, ang[2]) @ ref_axial(2, ang[1]) @ ref_axial(0, ang[0])
    ctx.close(m, expect, 'xzy-matrix', tol = 1e-11, ang = ang)
    ctx.close(vec.rotation_3d_matrix_njit(np.array(ang)), m, 'xzy-njit', tol = 1e-12)
    ctx.close(vec.reverse_rotation_3d_matrix(ang) @ m, np.eye(3), 'reverse', tol = 1e-12)
    r = vec.rotate_array(m, pts)
    ctx.close(r, np.einsum('ij,...j->...i', m, pts), 'rotate-array', tol = 1e-10)
    ctx.close(vec.rotate_array_njit(m, pts.reshape(-1, 3)), r.reshape(-1, 3), 'rotate-array-njit', tol = 1e-10)
    ctx.equal(pts, keep, 'rotate-array-copy')
    ctx.close(vec.rotate_array(vec.reverse_rotation_3d_matrix(ang), r), pts, 'rotate-back', tol = 1e-9)
    v = pts.reshape(-1, 3)[0]
    ctx.close(vec.rotate_vector(m, v), r.reshape(-1, 3)[0], 'rotate-vector', tol = 1e-10)
    # vector to vertical
    w = vector(ctx)
    u = w / np.linalg.norm(w)
    for fn in (vec.rotation_matrix_3d_vector, vec.rotation_matrix_3d_vector_njit):
        mv = fn(w)
        ctx.close(mv @ mv.T, np.eye(3), 'to-z-orthogonal', tol = 1e-7, w = w)
        ctx.close(mv @ u, [0, 0, 1], 'to-z', tol = 1e-7, w = w)
        ctx.close(mv @ np.array((0.0, 0.0, 1.0)), u, 'from-z', tol = 1e-7, w = w)
        ctx.close(np.linalg.det(mv), 1.0, 'to-z-proper', tol = 1e-7, w = w)
    # rotation for cross section
    t = vector(ctx)
    if np.hypot(t[0], t[1]) > 0.0:
        x = vec.rotate_xyz_array_around_z_axis(pts, t[:ctx.choice([2, 3])])
        ux = t[:2] / np.hypot(t[0], t[1])
        ctx.close(x[..., 0], pts[..., 0] * ux[0] + pts[..., 1] * ux[1], 'section-x', tol = 1e-9)
        ctx.close(x[..., 1], -pts[..., 0] * ux[1] + pts[..., 1] * ux[0], 'section-y', tol = 1e-9)
        ctx.close(x[..., 2], pts[..., 2], 'section-z', tol = 1e-12)
    # tilting
    az, dip = ctx.uniform(0, 360), ctx.choice([0.0, ctx.uniform(0, 89), ctx.uniform(-60, 60)])
    mt = vec.tilt_3d_matrix(az, dip)
    ctx.close(mt @ mt.T, np.eye(3), 'tilt-orthogonal', tol = 1e-12)
    h = np.array([math.sin(math.radians(az)), math.cos(math.radians(az)), 0.0])
    # a horizontal step in the azimuth direction goes down (z increasing) by the dip; strike direction is fixed
    ctx.close(mt @ h, h * math.cos(math.radians(dip)) + np.array([0, 0, math.sin(math.radians(dip))]), 'tilt-dip', tol = 1e-10, az = az, dip = dip)
    strike = np.array([h[1], -h[0], 0.0])
    ctx.close(mt @ strike, strike, 'tilt-strike', tol = 1e-10)
    pivot = ctx.rng.normal(size = 3) * 10
    q = pts.copy()
    vec.tilt_points(pivot, az, dip, q)
    ctx.close(q, np.einsum('ij,...j->...i', mt, pts - pivot) + pivot, 'tilt-points', tol = 1e-9)
    vec.tilt_points(pivot, az, -dip, q)
    ctx.close(q, pts, 'tilt-back', tol = 1e-9)
    # projection onto a horizontal or vertical plane (general planes: known finding C37-project-plane)
    if ctx.flag(0.5):
        n = np.array([0.0, 0.0, ctx.choice([-2.0, 1.0])])
    else:
        n = np.append(vector(ctx, dims = 2), 0.0)
    check_projection(ctx, pivot, n, pts)


def check_projection(ctx, pivot, n, pts):
    import resqpy.olio.vector_utilities as vec
    un = n / np.linalg.norm(n)
    q = pts.copy()
    vec.project_points_onto_plane(pivot, n, q)
    e = pts - np.sum((pts - pivot) * un, axis = -1)[..., None] * un
    ctx.close(q, e, 'project-plane', tol = 1e-5, n = n)


def plane_probe(ctx):
    check_projection(ctx, np.array((1.0, 2.0, 3.0)), np.array((1.0, 1.0, 1.0)), np.array([(1.0, 2.0, 3.0), (7.0, 6.0, 5.0)]))


def determinants(ctx):
    import resqpy.olio.vector_utilities as vec
    a = ctx.rng.integers(-9, 10, size = (3, 3)).astype(float)
    ctx.sig('det', a.tolist())
    e = float(np.round(np.linalg.det(a)))
    ctx.close(vec.determinant(a[0], a[1], a[2]), e, 'determinant', tol = 1e-9)
    ctx.close(vec.determinant_3x3(a), e, 'determinant', tol = 1e-9)
    p = ctx.rng.integers(-20, 21, size = (3, 3)).astype(float)
    cross = (p[1, 0] - p[0, 0]) * (p[2, 1] - p[0, 1]) - (p[1, 1] - p[0, 1]) * (p[2, 0] - p[0, 0])
    cw = vec.clockwise(*p)
    ctx.equal(np.sign(cw), -np.sign(cross), 'clockwise', p = p)
    n = ctx.integer(3, 9)
    pp = ctx.rng.integers(-20, 21, size = (n, 3)).astype(float)
    t = np.array([ctx.rng.permutation(n)[:3] for _ in range(ctx.integer(1, 6))])
    for proj, (i, j) in (('xy', (0, 1)), ('xz', (0, 2)), ('yz', (1, 2))):
        got = vec.clockwise_triangles(pp, t, projection = proj)
        for k, tri in enumerate(t):
            a, b, c = pp[tri][:, [i, j]]
            s = (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])
            ctx.equal(np.sign(got[k]), -np.sign(s), 'clockwise-triangles', projection = proj)
        d = ctx.rng.integers(-20, 21, size = (ctx.integer(1, 8), 3)).astype(float)
        for edged in (False, True):
            inside = vec.points_in_triangles(pp, t, d, projection = proj, edged = edged)
            for k, tri in enumerate(t):
                tr = pp[tri][:, [i, j]]
                area2 = (tr[1, 0] - tr[0, 0]) * (tr[2, 1] - tr[0, 1]) - (tr[1, 1] - tr[0, 1]) * (tr[2, 0] - tr[0, 0])
                if area2 == 0:
                    continue
                sgn = np.sign(area2)
                for m, dd in enumerate(d[:, [i, j]]):
                    s = [sgn * ((tr[(q + 1) % 3, 0] - tr[q, 0]) * (dd[1] - tr[q, 1]) - (tr[(q + 1) % 3, 1] - tr[q, 1]) *
                                (dd[0] - tr[q, 0])) for q in range(3)]
                    e = all(x >= 0 for x in s) if edged else all(x > 0 for x in s)
                    ctx.equal(bool(inside[k, m]), e, 'points-in-triangles', edged = edged, tri = tr, d = dd)
                    if proj == 'xy':
                        ccw = tr if sgn > 0 else tr[::-1]
                        f = vec.in_triangle_edged if edged else vec.in_triangle
                        ctx.equal(bool(f(ccw[0], ccw[1], ccw[2], dd)), e, 'in-triangle', edged = edged)
    # circumcircle, on integer points so that the sign is exact
    a, b, c, d = ctx.rng.integers(-12, 13, size = (4, 2)).astype(float)
    area2 = (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])
    if area2 != 0:
        if area2 < 0:
            b, c = c, b
            area2 = -area2
        # centre and radius scaled by 2*area2
        ux = ((b[0] - a[0])**2 + (b[1] - a[1])**2) * (c[1] - a[1]) - ((c[0] - a[0])**2 + (c[1] - a[1])**2) * (b[1] - a[1])
        uy = ((c[0] - a[0])**2 + (c[1] - a[1])**2) * (b[0] - a[0]) - ((b[0] - a[0])**2 + (b[1] - a[1])**2) * (c[0] - a[0])
        k = 2 * area2
        r2 = ux * ux + uy * uy
        d2 = (k * (d[0] - a[0]) - ux)**2 + (k * (d[1] - a[1]) - uy)**2
        ctx.equal(bool(vec.in_circumcircle(a, b, c, d)), bool(d2 < r2), 'circumcircle', pts = (a, b, c, d))


def triangles(ctx):
    import resqpy.olio.vector_utilities as vec
    n = ctx.integer(3, 10)
    p = ctx.rng.normal(size = (n, 3)) * 10.0 + ctx.choice([0.0, 1000.0])
    if ctx.flag(0.3):  # collinear lattice: degenerate triangles have zero area
        p = np.outer(np.arange(n), ctx.rng.integers(-3, 4, size = 3)).astype(float) * 0.1
    t = np.array([ctx.rng.permutation(n)[:3] for _ in range(ctx.integer(1, 8))])
    ctx.sig('tri', n, len(t), p[0].tolist())
    cr = np.cross(p[t[:, 1]] - p[t[:, 0]], p[t[:, 2]] - p[t[:, 0]])
    area = 0.5 * np.linalg.norm(cr, axis = 1)
    ext = max(1.0e-30, np.max(np.ptp(p, axis = 0)))
    # Heron's formula loses half the digits for needle triangles
    at = 1.0e-6 * ext * ext
    got = vec.area_of_triangles(p, t)
    ctx.close(got, area, 'areas', tol = at, rtol = 1e-9, nan = False, p = p, t = t)
    got = vec.area_of_triangles(p, t, xy_projection = True)
    ctx.close(got, 0.5 * np.abs(cr[:, 2]), 'areas-xy', tol = at, rtol = 1e-9, nan = False, p = p, t = t)
    for k, tri in enumerate(t):
        ctx.close(vec.area_of_triangle(*p[tri]), area[k], 'area', tol = at, rtol = 1e-9, nan = False)
        if area[k] > 1.0e-3 * ext * ext:
            nv = vec.triangle_normal_vector(p[tri])
            ctx.close(nv, cr[k] / np.linalg.norm(cr[k]), 'normal', tol = 1e-9)
            ctx.close(vec.triangle_normal_vector_numba(p[tri]), nv, 'normal-njit', tol = 1e-12)
        ctx.close(vec.triangle_box(p[tri][:, :2].copy()),
                  [p[tri][:, 0].min(), p[tri][:, 0].max(), p[tri][:, 1].min(), p[tri][:, 1].max()], 'triangle-box', tol = 0)


def seg_dist(p, a, b):
    d = b - a
    l2 = np.dot(d, d)
    if l2 == 0:
        return np.linalg.norm(p - a)
    u = min(1.0, max(0.0, np.dot(p - a, d) / l2))
    return np.linalg.norm(p - (a + u * d))


def distances(ctx):
    import resqpy.olio.vector_utilities as vec
    import resqpy.olio.intersection as meet
    p, a, b = ctx.rng.normal(size = (3, 3)) * ctx.choice([1.0, 100.0])
    if ctx.flag(0.3):
        p, a, b = ctx.rng.integers(-3, 4, size = (3, 3)).astype(float)
    ctx.sig('dist', p.tolist(), a.tolist(), b.tolist())
    p2, a2, b2 = p[:2], a[:2], b[:2]
    ctx.close(vec.point_distance_to_line_segment_2d(p, a, b), seg_dist(p2, a2, b2), 'segment-distance', tol = 1e-9, p = p, a = a, b = b)
    if not np.all(a2 == b2):
        d = b2 - a2
        e = abs(d[0] * (p2[1] - a2[1]) - d[1] * (p2[0] - a2[0])) / np.hypot(*d)
        ctx.close(vec.point_distance_to_line_2d(p, a, b), e, 'line-distance', tol = 1e-9)
        u = np.dot(p2 - a2, d) / np.dot(d, d)
        ctx.close(meet.point_projected_to_line_2d(p, a, b), a2 + u * d, 'projected', tol = 1e-7)
        ctx.close(meet.point_snapped_to_line_segment_2d(p, a, b), a2 + min(1, max(0, u)) * d, 'snapped', tol = 1e-7)
    else:
        ctx.close(vec.point_distance_to_line_2d(p, a, b), np.hypot(*(p2 - a2)), 'line-distance', tol = 1e-9)
    ctx.equal(bool(vec.is_obtuse_2d(p, a, b)), bool(np.dot(a2 - p2, b2 - p2) < 0.0), 'obtuse')
    tol = ctx.choice([1e-6, 1e-3, 0.5])
    q = p + ctx.rng.uniform(-1, 1, size = 3) * ctx.choice([0.3, 1.0, 3.0]) * tol
    m = np.max(np.abs(p - q))
    if abs(m - tol) > 1e-9 * tol + 1e-12:
        ctx.equal(bool(vec.isclose(p, q, tolerance = tol)), bool(m <= tol), 'isclose')
        ctx.equal(bool(vec.is_close(p, q, tolerance = tol)), bool(m <= tol), 'isclose')
    shape = ctx.choice([(4,), (2, 3), (2, 2, 2)])
    pts = ctx.rng.normal(size = shape + (3,))
    if ctx.flag(0.3):
        pts.reshape(-1, 3)[0] = np.nan
    for proj, (i, j) in (('xy', (0, 1)), ('xz', (0, 2)), ('yz', (1, 2))):
        e = (pts[..., i] - p[i])**2 + (pts[..., j] - p[j])**2
        ctx.close(vec.point_distance_sqr_to_points_projected(p, pts, proj), e, 'projected-distance', tol = 1e-9, rtol = 1e-12)
        near = vec.nearest_point_projected(p, pts, proj)
        ctx.close(e[near], np.nanmin(e), 'nearest', tol = 1e-9)
        ctx.equal(len(near), len(shape), 'nearest-index')
    x0, x1, y0, y1, z0, z1 = [float(v) for v in ctx.rng.normal(size = 6) * 5]
    x = ctx.choice([ctx.uniform(-8, 8), x0, x1, 0.5 * (x0 + x1)])
    inside = min(x0, x1) <= x <= max(x0, x1)
    if abs(x1 - x0) > 1e-3:
        u = (x - x0) / (x1 - x0)
        ey, ez = (y0 + u * (y1 - y0), z0 + u * (z1 - z0)) if inside else (np.nan, np.nan)
        tl = 1e-10 / abs(x1 - x0) + 1e-10
        got = vec.vertical_intercept(x, np.array([x0, x1]), np.array([y0, y1]))
        ctx.close(np.nan if got is None else got, ey, 'intercept', tol = tl)
        ctx.close(vec.vertical_intercept_nan(x, x0, x1, y0, y1), ey, 'intercept-nan', tol = tl)
        ctx.close(vec.vertical_intercept_nan_yz(x, x0, x1, y0, y1, z0, z1), [ey, ez], 'intercept-yz', tol = tl)


def sorting(ctx):
    import resqpy.olio.vector_utilities as vec
    import resqpy.olio.simple_lines as sl
    n = ctx.integer(3, 14)
    dims = ctx.choice([2, 3])
    p = ctx.rng.normal(size = (n, dims)) * np.array([ctx.choice([1, 10]), ctx.choice([1, 10]), 100.0])[:dims]
    ctx.sig('sort', n, dims, p[0].tolist())
    rng_ = np.ptp(p, axis = 0)
    for axis in (None, 0, 1):
        ex = (1 if rng_[1] > rng_[0] else 0) if axis is None else axis
        s, ax = vec.xy_sorted(p, axis = axis)
        ctx.equal(ax, ex, 'sort-axis')
        ctx.equal(s, p[np.argsort(p[:, ex], kind = 'stable')], 'sorted')
        s, ax = vec.xy_sorted_njit(p, axis = -1 if axis is None else axis)
        ctx.equal(ax, ex, 'sort-axis')
        ctx.equal(s, p[np.argsort(p[:, ex], kind = 'stable')], 'sorted-njit')
    with_nan = p.copy()
    with_nan[ctx.integer(1, n - 1)] = np.nan
    rn = np.nanmax(with_nan, axis = 0) - np.nanmin(with_nan, axis = 0)
    _, ax = vec.xy_sorted(with_nan)
    _, ax2 = vec.xy_sorted_njit(with_nan)
    ctx.equal((ax, ax2), ((1 if rn[1] > rn[0] else 0),) * 2, 'sort-axis-nan')
    # clockwise order about the mean of a convex polygon
    k = ctx.integer(3, 9)
    ang = np.sort(ctx.rng.uniform(0, 2 * np.pi, size = k))
    gaps = np.diff(np.append(ang, ang[0] + 2 * np.pi))
    if np.min(gaps) > 0.05 and np.max(gaps) < np.pi - 0.1:
        circ = np.stack((np.cos(ang), np.sin(ang), ctx.rng.normal(size = k)), axis = -1) * 10
        c = np.mean(circ, axis = 0)
        b = ctx.rng.permutation(k)[:ctx.integer(3, k)]
        got = vec.clockwise_sorted_indices(circ, b)
        ctx.equal(sorted(got.tolist()), sorted(b.tolist()), 'clockwise-set')
        az = [az_ref(circ[i] - c) for i in got]
        ctx.check(all(x <= y + 1e-9 for x, y in zip(az[:-1], az[1:])), 'clockwise-order', az = az)
    # mean direction over an axis
    shape = ctx.choice([(4, 3), (3, 4, 3), (2, 3, 4, 3)])
    a = ctx.rng.normal(size = shape)
    axis = ctx.integer(0, len(shape) - 2)
    lo, hi = 0, shape[axis] - 1
    aa = np.moveaxis(a, axis, 0)
    if shape[axis] > 2 and ctx.flag(0.5):
        aa[0] = np.nan
        lo = 1
    e = aa[hi].reshape(-1, 3).mean(axis = 0) - aa[lo].reshape(-1, 3).mean(axis = 0)
    got = vec.points_direction_vector(a, axis)
    ctx.close(got, e, 'direction-vector', tol = 1e-9)
    ctx.check(vec.points_direction_vector(np.full(shape, np.nan), axis) is None, 'direction-vector-nan')
    # line cleaning
    m = ctx.integer(1, 12)
    line = np.cumsum(ctx.rng.integers(0, 2, size = (m, 3)) * (ctx.rng.random((m, 1)) < ctx.choice([0.1, 0.5, 1.0])), axis = 0).astype(float)
    if ctx.flag(0.3) and m > 1:
        line[-1] = line[0]
    keep = line.copy()
    got = sl.duplicate_vertices_removed(line)
    if m < 3:
        e = line
    else:
        idx = [0] + [i for i in range(1, m) if np.any(line[i] != line[i - 1])]
        e = line[idx]
        if len(idx) == 1:
            e = line[[0, -1]]
    ctx.equal(got, e, 'duplicates-removed', line = line)
    ctx.equal(line, keep, 'line-unchanged')
    got = sl.polygon_line(line)
    ctx.equal(got, line[:-1] if m > 1 and np.all(line[0] == line[-1]) else line, 'polygon-line')
    # lines file
    lines = [np.round(ctx.rng.normal(size = (ctx.integer(1, 5), 3)) * 100, 3) for _ in range(ctx.integer(1, 4))]
    with open(ctx.path('lines.txt'), 'w') as fp:
        for ln in lines:
            for q in ln:
                fp.write(ctx.choice(['{} {} {}\n', ' {}  {}\t{}\n']).format(*q))
                if ctx.flag(0.1):
                    fp.write('\n')
            fp.write('999.0 999.0 999.0\n')
    got = sl.read_lines(ctx.path('lines.txt'))
    ctx.equal(len(got), len(lines), 'lines-count')
    for g, e in zip(got, lines):
        ctx.equal(g, e, 'lines-read')


def perspective(ctx):
    import resqpy.olio.vector_utilities as vec
    lo = ctx.rng.normal(size = 3) * 10
    hi = lo + ctx.rng.uniform(1, 20, size = 3)
    axis = ctx.integer(0, 2)
    vd = ctx.uniform(1.5, 10)
    v = lo + ctx.rng.random(3) * (hi - lo)
    box = np.array([lo, hi])
    ctx.sig('persp', axis, v.tolist())
    got = vec.perspective_vector(box, axis, vd, v)
    f = 1.0 - (v[axis] - lo[axis]) / (vd * (hi[axis] - lo[axis]))
    mid = 0.5 * (lo + hi)
    e = mid + f * (v - mid)
    e[axis] = v[axis]
    ctx.close(got, e, 'perspective', tol = 1e-9)
    x = ctx.rng.normal(size = ctx.integer(0, 5))
    y = ctx.rng.normal(size = ctx.integer(0, 5))
    ex, ey = np.meshgrid(x, y)
    gx, gy = vec.meshgrid(x, y)
    ctx.equal(gx, ex, 'meshgrid')
    ctx.equal(gy, ey, 'meshgrid')
    d = ctx.uniform(-720, 720)
    ctx.close(vec.degrees_from_radians(vec.radians_from_degrees(d)), d, 'degrees', tol = 1e-9)
    ctx.close(vec.radians_from_degrees(d), d * math.pi / 180.0, 'radians', tol = 1e-9)


SCENARIOS = [
    Scenario(directions, 150, workers = 2),
    Scenario(rotations, 150, workers = 2),
    Scenario(plane_probe, 2, probe = 'C37-project-plane'),
    Scenario(determinants, 80, workers = 2),
    Scenario(triangles, 80, workers = 1),
    Scenario(distances, 150, workers = 2),
    Scenario(sorting, 100, workers = 1),
    Scenario(perspective, 40, workers = 1),
]
