"""C29: well paths against surfaces, layers and skins by brute force; surfaces made from grids against corner points."""

import numpy as np

from props import c33_blocked_wells as c33
from props.c14_grid_views import unsplit_expected
from props.spec import spec
from rv import gen
from rv.core import Scenario, Skip
from rv.gridgen import random_grid

PROP = spec('C29')


# oracle

def fans(quads):
    """(N, 2, 2, 3) to (N, 4, 3, 3)."""
    ring = np.stack((quads[:, 0, 0], quads[:, 0, 1], quads[:, 1, 1], quads[:, 1, 0]), axis = 1)
    mid = ring.mean(axis = 1)
    out = np.empty((len(quads), 4, 3, 3))
    for t in range(4):
        out[:, t, 0] = mid
        out[:, t, 1] = ring[:, t]
        out[:, t, 2] = ring[:, (t + 1) % 4]
    return out


def cross(path, tris):
    """(segment, fraction, triangle, xyz) in order along the path."""
    a, e1, e2 = tris[:, 0], tris[:, 1] - tris[:, 0], tris[:, 2] - tris[:, 0]
    area = np.linalg.norm(np.cross(e1, e2), axis = 1)
    out = []
    for k in range(len(path) - 1):
        p, d = path[k], path[k + 1] - path[k]
        ld = np.linalg.norm(d)
        h = np.cross(np.broadcast_to(d, e2.shape), e2)
        det = np.sum(e1 * h, axis = 1)
        with np.errstate(all = 'ignore'):
            s = p - a
            u = np.sum(s * h, axis = 1) / det
            q = np.cross(s, e1)
            v = np.sum(d * q, axis = 1) / det
            t = np.sum(e2 * q, axis = 1) / det
            b = np.minimum(np.minimum(u, v), 1.0 - u - v)
        good = (area > 1.0e-9) & (np.abs(det) > 1.0e-12 * area * ld)
        seen = good & (b > -1.0e-5) & (t > -1.0e-6) & (t < 1.0 + 1.0e-6)
        if np.any(seen & (np.abs(det) < 0.005 * area * ld)):
            raise Skip('path nearly in the plane of a triangle')
        if np.any(seen & (b < 1.0e-5)):
            raise Skip('path close to an edge of a triangle')
        if np.any(seen & ((t < 1.0e-6) | (t > 1.0 - 1.0e-6))):
            raise Skip('knot close to a triangle')
        for x in np.where(seen)[0]:
            out.append((k, float(t[x]), int(x), p + t[x] * d))
    out.sort(key = lambda x: (x[0], x[1]))
    return out


def from_start(path, found, start, s_xyz, nudge, key = lambda x: (x[0], x[1])):
    """Those crossings beyond the starting position, or Skip where close to it; positions of start also returned."""
    pos = np.concatenate(([0.0], np.cumsum(np.linalg.norm(np.diff(path, axis = 0), axis = 1))))
    at = pos[start]
    if s_xyz is not None:
        at += np.linalg.norm(s_xyz - path[start])
    if nudge:
        left = pos[start + 1] - at
        at += 0.9 * left if left <= nudge else nudge
    out = []
    for f in found:
        k, t = key(f)
        x = pos[k] + t * (pos[k + 1] - pos[k])
        if abs(x - at) < 0.05:
            raise Skip('crossing close to start')
        if x > at and k >= start:
            out.append((x, f))
    out.sort(key = lambda x: x[0])
    return out


def start_at(ctx, path, p_start = 0.5):
    """Starting knot, point and nudge, to be passed as such."""
    start = 0 if not ctx.flag(p_start) else ctx.integer(0, len(path) - 2)
    s_xyz = nudge = None
    if ctx.flag(0.4):
        s_xyz = path[start] + ctx.uniform(0.1, 0.85) * (path[start + 1] - path[start])
    if ctx.flag(0.4):
        nudge = ctx.choice([0.1, 1.0, 5.0])
        if s_xyz is not None and ctx.flag() and np.linalg.norm(s_xyz - path[start]) > nudge:
            nudge = -nudge
    return start, s_xyz, nudge


def tri_rows(t, p):
    """Triangles as rows, each with its vertices in a standard order."""
    x = np.round(p[t] / 1.0e-4).astype(np.int64)
    order = np.lexsort((x[:, :, 2], x[:, :, 1], x[:, :, 0]), axis = 1)
    x = np.take_along_axis(x, order[:, :, np.newaxis], axis = 1)
    return x.reshape((-1, 9))


def same_triangles(ctx, got, exp, code, **kw):
    """Two lots of triangles (N, 3, 3), in any order."""
    ctx.check(len(got) == len(exp), code + '-count', 'number of triangles', got = len(got), expect = len(exp), **kw)

    def ordered(x):
        x = x - base
        c = x.mean(axis = 1)
        r = np.round(c, 2)
        return x, c, r

    base = exp.reshape((-1, 3)).min(axis = 0)
    # nearest matching by centroid, then vertices as sets
    from scipy.spatial import cKDTree
    g, e = got - base, exp - base
    gc, ec = g.mean(axis = 1), e.mean(axis = 1)
    used = np.zeros(len(e), dtype = bool)
    tree = cKDTree(ec)
    for x in range(len(g)):
        for y in tree.query_ball_point(gc[x], 1.0e-3):
            if used[y]:
                continue
            d = np.linalg.norm(g[x][:, np.newaxis] - e[y][np.newaxis], axis = -1)
            if d.min(axis = 0).max() < 1.0e-3 and d.min(axis = 1).max() < 1.0e-3:
                used[y] = True
                break
        else:
            ctx.fail(code + '-triangle', 'triangle of surface is not one of those expected', triangle = got[x], **kw)


def on_quads(ctx, tris, quads, code, **kw):
    """Pairs of triangles, two per quad in order, each pair making up its quad."""
    ctx.check(len(tris) == 2 * len(quads), code + '-count', 'number of triangles', got = len(tris), expect = 2 * len(quads), **kw)
    scale = 1.0e-6 * (1.0 + np.max(np.abs(quads)))
    for x in range(len(quads)):
        ring = np.array([quads[x][0, 0], quads[x][0, 1], quads[x][1, 1], quads[x][1, 0]])
        ids = []
        for t in tris[2 * x:2 * x + 2]:
            d = np.linalg.norm(t[:, np.newaxis] - ring[np.newaxis], axis = -1)
            ctx.check(np.all(d.min(axis = 1) < scale), code + '-vertex', 'vertex of triangle is not a corner of the face', triangle = t, ring = ring, **kw)
            ids.append(d)
        # vertices as corners: all used, unless corners coincide
        gap = np.linalg.norm(ring[:, np.newaxis] - ring[np.newaxis], axis = -1) + 1.0e9 * np.eye(4)
        if gap.min() < 10.0 * scale:
            continue
        a, b = [set(d.argmin(axis = 1)) for d in ids]
        ctx.check(len(a) == 3 and len(b) == 3 and a | b == {0, 1, 2, 3}, code + '-halves', 'two triangles do not make up the face', a = sorted(a), b = sorted(b), **kw)
        both = sorted(a & b)
        ctx.check(both in ([0, 2], [1, 3]), code + '-diagonal', 'two triangles do not share a diagonal', both = both, **kw)


def matches_faces(ctx, surf, quads, quad_triangles, code, **kw):
    """quads: (n0, n1, 2, 2, 3) faces of cells indexed as for column_from_triangle_index."""
    t, p = surf.triangles_and_points()
    n0, n1 = quads.shape[:2]
    flat = quads.reshape((-1, 2, 2, 3))
    per = 4 if quad_triangles else 2
    ctx.check(len(t) == per * n0 * n1, code + '-count', 'number of triangles', got = len(t), expect = per * n0 * n1, **kw)
    tris = np.asarray(p)[np.asarray(t)]
    a, b = surf.column_from_triangle_index(np.arange(len(t)))
    ctx.check(a is not None, code + '-column', 'no columns for triangles', **kw)
    at = np.asarray(a) * n1 + np.asarray(b)
    ctx.check(np.all(np.bincount(at, minlength = n0 * n1) == per), code + '-column-counts', 'triangles per face', **kw)
    order = np.argsort(at, kind = 'stable')
    for _ in range(3):
        x = ctx.integer(0, len(t) - 1)
        pair = surf.column_from_triangle_index(x)
        ctx.check(tuple(map(int, pair)) == (int(a[x]), int(b[x])), code + '-column-one', 'column for a single triangle', **kw)
    tris = tris[order]
    if quad_triangles:
        f = fans(flat)
        tol = 1.0e-6 * (1.0 + np.max(np.abs(quads)))
        g = tris.reshape((-1, 4, 3, 3))
        d = np.linalg.norm(g[:, :, np.newaxis, :, np.newaxis] - f[:, np.newaxis, :, np.newaxis, :], axis = -1)  # cell, got, exp, vg, ve
        near = np.maximum(d.min(axis = 4).max(axis = 3), d.min(axis = 3).max(axis = 3))  # cell, got, exp
        ok = np.all(near.min(axis = 2) < tol) and np.all(near.min(axis = 1) < tol)
        ctx.check(ok, code + '-triangles', 'triangles are not those of the faces', worst = float(max(near.min(axis = 2).max(), near.min(axis = 1).max())), **kw)
    else:
        on_quads(ctx, tris, flat, code, **kw)


# surfaces

def layer_quads(cp, k, kp):
    return cp[k, :, :, kp]  # (nj, ni, jp, ip, 3)


def healed_cp(raw):
    p = unsplit_expected(raw)
    cp = np.empty((raw.nk, raw.nj, raw.ni, 2, 2, 2, 3))
    for k in range(raw.nk):
        for kp in range(2):
            for jp in range(2):
                for ip in range(2):
                    cp[k, :, :, kp, jp, ip] = p[raw.raw_k[k] + kp, jp:jp + raw.nj, ip:ip + raw.ni]
    return cp


def surfaces(ctx):
    """Surfaces of layers, sections and column faces."""
    import resqpy.grid_surface as rqgs
    import resqpy.model as rq
    import resqpy.grid as grr
    m = gen.model(ctx)
    faults = ctx.flag(0.5)
    raw = random_grid(ctx, growth = ctx.flag(0.4), max_n = (4, 5, 5), faults = faults, gaps = ctx.flag(0.35), pinch = ctx.flag(0.2))
    how = ctx.choice(['memory', 'memory', 'persisted'])
    if how == 'memory':
        g = raw.build(m)
    else:
        uuid = raw.persist(m)
        g = grr.Grid(m, uuid = uuid)
    cp = raw.to_cp(raw.points)
    if not np.all(np.isfinite(cp)):
        raise Skip('undefined points')
    faulted = bool(raw.extras)
    quad = ctx.flag(0.6)
    kw = dict(extent = cp.shape[:3], faulted = faulted, gaps = raw.n_gaps, quad = quad)
    heal = healed_cp(raw)
    ctx.observe('surface-grid', 1)

    # layers
    for _ in range(2):
        k, kp = ctx.integer(0, raw.nk - 1), ctx.integer(0, 1)
        ref = ('top', 'base')[kp]
        s = rqgs.generate_untorn_surface_for_layer_interface(g, k0 = k, ref_k_faces = ref, quad_triangles = quad)
        ctx.check(str(s.crs_uuid) == str(g.crs_uuid), 'surface-crs', 'crs of surface')
        matches_faces(ctx, s, layer_quads(heal, k, kp), quad, 'untorn-layer', k = k, ref = ref, **kw)
        s = rqgs.generate_torn_surface_for_layer_interface(g, k0 = k, ref_k_faces = ref, quad_triangles = quad)
        matches_faces(ctx, s, layer_quads(cp, k, kp), quad, 'torn-layer', k = k, ref = ref, **kw)
        ctx.observe('layers', 2)
    # bordered
    k, kp = ctx.integer(0, raw.nk - 1), ctx.integer(0, 1)
    border = ctx.uniform(1.0, 500.0)
    mesh = unsplit_expected(raw)[raw.raw_k[k] + kp]
    sk = np.empty((mesh.shape[0] + 2, mesh.shape[1] + 2, 3))
    sk[1:-1, 1:-1] = mesh

    def out(a, b):
        return a + border * (a - b) / np.linalg.norm(a - b, axis = -1, keepdims = True)

    edge = np.concatenate([np.linalg.norm(np.diff(mesh, axis = x), axis = -1).ravel() for x in range(2)])
    if edge.min() > 1.0e-3:
        sk[1:-1, 0], sk[1:-1, -1] = out(mesh[:, 0], mesh[:, 1]), out(mesh[:, -1], mesh[:, -2])
        sk[0, 1:-1], sk[-1, 1:-1] = out(mesh[0], mesh[1]), out(mesh[-1], mesh[-2])
        for a, b in ((0, 0), (0, -1), (-1, 0), (-1, -1)):
            da, db = (1 if a == 0 else -2), (1 if b == 0 else -2)
            sk[a, b] = sk[a, db] + sk[da, b] - sk[da, db]
        bq = np.stack((np.stack((sk[:-1, :-1], sk[:-1, 1:]), axis = 2), np.stack((sk[1:, :-1], sk[1:, 1:]), axis = 2)), axis = 2)
        s = rqgs.generate_untorn_surface_for_layer_interface(g, k0 = k, ref_k_faces = ('top', 'base')[kp], quad_triangles = quad, border = border)
        matches_faces(ctx, s, bq, quad, 'bordered-layer', k = k, border = border, **kw)
    # sections
    for axis in 'JI':
        n = raw.nj if axis == 'J' else raw.ni
        for sl, plus in {(0, False), (n - 1, True), (ctx.integer(0, n - 1), ctx.flag())}:
            single = ctx.flag(0.4) and not raw.n_gaps
            q = cp[:, sl, :, :, int(plus)] if axis == 'J' else cp[:, :, sl, :, :, int(plus)]  # (nk, n, kp, p, 3)
            if single:
                q = np.stack((q[:1, :, 0], q[-1:, :, 1]), axis = 2)
            info = dict(axis = axis, slice = sl, plus = plus, single = single, **kw)
            ax = axis if ctx.flag(0.8) else axis.lower()
            s = rqgs.generate_torn_surface_for_x_section(g, ax, ref_slice0 = sl, plus_face = plus, quad_triangles = quad, as_single_layer = single)
            matches_faces(ctx, s, q, quad, 'torn-section', **info)
            if not faulted:
                s = rqgs.generate_untorn_surface_for_x_section(g, ax, ref_slice0 = sl, plus_face = plus, quad_triangles = quad, as_single_layer = single)
                matches_faces(ctx, s, q, quad, 'untorn-section', **info)
            ctx.observe('sections')
    # column faces
    for _ in range(3):
        j, i = ctx.integer(0, raw.nj - 1), ctx.integer(0, raw.ni - 1)
        axis, pol = ctx.choice([1, 2]), ctx.integer(0, 1)
        single = ctx.flag(0.3)
        mesh, s = rqgs.create_column_face_mesh_and_surface(g, (j, i), axis, pol, quad_triangles = quad, as_single_layer = single)
        q = cp[:, j, i, :, pol] if axis == 1 else cp[:, j, i, :, :, pol]  # (nk, kp, p, 3)
        if single:
            q = np.stack((q[:1, 0], q[-1:, 1]), axis = 1)
        q = q.transpose((0, 2, 1, 3))[np.newaxis]  # (1, nk, p, kp, 3)
        info = dict(column = (j, i), axis = axis, polarity = pol, single = single, **kw)
        matches_faces(ctx, s, q, quad, 'column-face', **info)
        if mesh is not None:
            e = np.concatenate((q[0, :, :, 0], q[0, -1:, :, 1])).transpose((1, 0, 2))
            ctx.close(mesh.full_array_ref(), e, 'column-face-mesh', tol = 1.0e-9, **info)
        else:
            ctx.check(raw.n_gaps and not single, 'column-face-no-mesh', 'no mesh returned')
        ctx.observe('column-faces')
    ctx.close(g.corner_points(), cp, 'grid-points-changed', tol = 1.0e-9)
    ctx.sig(cp.shape[:3], faulted, raw.n_gaps, quad, how)


# skins

def split_faces(raw):
    """Columns whose plus j (then plus i) face is split."""
    j = np.any(raw.pfc[:-1, :, 1, :] != raw.pfc[1:, :, 0, :], axis = -1)
    i = np.any(raw.pfc[:, :-1, :, 1] != raw.pfc[:, 1:, :, 0], axis = -1)
    return j, i


def boundary(c_cp, raw, with_faults = True):
    """Boolean (nk, nj, ni, 6): faces in the skin."""
    b = np.zeros(c_cp.shape[:3] + (6,), dtype = bool)
    b[0, ..., 0] = b[-1, ..., 1] = True
    b[:, 0, :, 2] = b[:, -1, :, 3] = True
    b[:, :, 0, 4] = b[:, :, -1, 5] = True
    if raw is not None:
        for k in range(raw.nk - 1):
            if raw.raw_k[k + 1] != raw.raw_k[k] + 1:
                b[k, ..., 1] = b[k + 1, ..., 0] = True
        if with_faults:
            sj, si = split_faces(raw)
            b[:, :-1, :, 3] |= sj
            b[:, 1:, :, 2] |= sj
            b[:, :, :-1, 5] |= si
            b[:, :, 1:, 4] |= si
    return b


def face_quad(cp, axis, pol):
    return np.take(cp, pol, axis = 3 + axis)  # (nk, nj, ni, 2, 2, 3)


def skin(ctx):
    """The skin is made up of the outer faces, and is closed."""
    import resqpy.grid_surface as rqgs
    m = gen.model(ctx)
    faults, gaps = ctx.flag(0.5), ctx.flag(0.3)
    c = c33.make_grid(ctx, gen.model(ctx, name = 'n.epc', crs = False) if False else m, max_n = (4, 5, 5), faults = faults, gaps = gaps)
    g, cp, raw = c.grid, c.cp, c.raw
    quad, single = ctx.flag(0.6), ctx.flag(0.6)
    regular = c.flavour == 'regular' and ctx.flag(0.6)
    box = np.array(g.xyz_box(local = True)).copy()
    s = rqgs.GridSkin(g, quad_triangles = quad, use_single_layer_tactics = single, is_regular = regular)
    kw = dict(extent = c.extent, flavour = c.flavour, faulted = c.faulted, gapped = c.gapped, quad = quad, single = single, regular = regular)
    ctx.close(np.array(g.xyz_box(local = True)), box, 'skin-box-changed', tol = 0.0)
    t, p = s.skin.triangles_and_points()
    tris = np.asarray(p)[np.asarray(t)]
    nk = cp.shape[0]
    if regular:
        lo, hi = cp.reshape((-1, 3)).min(axis = 0), cp.reshape((-1, 3)).max(axis = 0)
        ctx.check(len(tris) == 12, 'regular-skin-count', 'number of triangles in skin of regular grid', n = len(tris), **kw)
        on_lo, on_hi = np.abs(tris - lo) < 1.0e-6, np.abs(tris - hi) < 1.0e-6
        ctx.check(np.all(on_lo | on_hi), 'regular-skin-corners', 'vertices of skin of regular grid are corners of its box', **kw)
        for a in range(3):
            for f in (on_lo, on_hi):
                ctx.check(np.all(f[..., a], axis = 1).sum() == 2, 'regular-skin-face', 'two triangles on each face', axis = a, **kw)
    else:
        one = single and not c.gapped
        faces = boundary(cp, raw, with_faults = False)
        quads = []
        for f, (axis, pol) in enumerate(c33.AP):
            q = face_quad(cp, axis, pol)
            if axis == 0 or not one:
                quads.append(q[faces[..., f]])
            else:
                q = np.stack((q[0, ..., 0, :, :], q[-1, ..., 1, :, :]), axis = -3)
                quads.append(q[faces[0, ..., f]])
        if raw is not None:
            sj, si = split_faces(raw)
            for f, mask, axis, pol, sl in ((3, sj, 1, 1, np.s_[:, :-1, :]), (2, sj, 1, 0, np.s_[:, 1:, :]), (5, si, 2, 1, np.s_[:, :, :-1]), (4, si, 2, 0, np.s_[:, :, 1:])):
                q = face_quad(cp, axis, pol)[sl]
                if c.gapped:
                    quads.append(q[:, mask].reshape((-1, 2, 2, 3)))
                else:
                    q = np.stack((q[0, ..., 0, :, :], q[-1, ..., 1, :, :]), axis = -3)
                    quads.append(q[mask])
        quads = np.concatenate(quads)
        if quad:
            same_triangles(ctx, tris, fans(quads).reshape((-1, 3, 3)), 'skin', **kw)
        else:
            ctx.check(len(tris) == 2 * len(quads), 'skin-count', 'number of triangles in skin', got = len(tris), expect = 2 * len(quads), **kw)
            # every vertex is a corner, and total area is between limits for either diagonal
            def area(a):
                return np.linalg.norm(np.cross(a[..., 1, :] - a[..., 0, :], a[..., 2, :] - a[..., 0, :]), axis = -1) * 0.5
            r = np.stack((quads[:, 0, 0], quads[:, 0, 1], quads[:, 1, 1], quads[:, 1, 0]), axis = 1)
            d0 = area(r[:, [0, 1, 2]]) + area(r[:, [0, 2, 3]])
            d1 = area(r[:, [0, 1, 3]]) + area(r[:, [1, 2, 3]])
            lo, hi = np.minimum(d0, d1).sum(), np.maximum(d0, d1).sum()
            ctx.check(lo - 1.0e-6 * hi <= area(tris).sum() <= hi * (1.0 + 1.0e-6), 'skin-area', 'area of skin', got = area(tris).sum(), lo = lo, hi = hi, **kw)
            from scipy.spatial import cKDTree
            d, _ = cKDTree(quads.reshape((-1, 3))).query(tris.reshape((-1, 3)))
            ctx.check(d.max() < 1.0e-6 * (1.0 + np.abs(cp).max()), 'skin-vertices', 'vertices of skin', **kw)
    if not c.faulted or single or c.gapped:
        keys = np.round(tris.reshape((-1, 3)) / 1.0e-3).astype(np.int64)
        _, ids = np.unique(keys, axis = 0, return_inverse = True)
        # points which straddle a rounding limit
        from scipy.spatial import cKDTree
        pairs = cKDTree(tris.reshape((-1, 3))).query_pairs(2.0e-3, output_type = 'ndarray')
        if len(pairs) and np.any(ids[pairs[:, 0]] != ids[pairs[:, 1]]):
            from scipy.sparse import coo_matrix
            from scipy.sparse.csgraph import connected_components
            n = len(keys)
            ids = connected_components(coo_matrix((np.ones(len(pairs)), (pairs[:, 0], pairs[:, 1])), shape = (n, n)), directed = False)[1]
        ids = ids.reshape((-1, 3))
        e = np.sort(np.concatenate((ids[:, [0, 1]], ids[:, [1, 2]], ids[:, [2, 0]])), axis = 1)
        e = e[e[:, 0] != e[:, 1]]
        _, n = np.unique(e, axis = 0, return_counts = True)
        ctx.check(np.all(n % 2 == 0), 'skin-open', 'edge of skin is not shared: skin is not closed', odd = int((n % 2).sum()), **kw)
        if not c.faulted and not c.pinched:
            ctx.check(np.all(n == 2) or c.gapped, 'skin-edge', 'edge of skin not shared by exactly two triangles', **kw)
        ctx.observe('closed-skins')
    # triangles to surfaces
    for _ in range(3):
        x = ctx.integer(0, len(tris) - 1)
        si_, ti = s.skin.surface_index_for_triangle_index(x)
        tt, pp = s.skin.surface_list[si_].triangles_and_points()
        ctx.close(np.asarray(pp)[np.asarray(tt)[ti]], tris[x], 'skin-triangle', tol = 1.0e-9, index = x, **kw)
        if not regular and si_ == 0:
            ctx.check(np.all(np.isin(np.round(tris[x][:, 2], 6), np.round(tris[x][:, 2], 6))), 'skin-top')
    ctx.observe('skin-triangles', len(tris))
    ctx.sig(c.extent, c.flavour, c.faulted, c.gapped, quad, single)


def skin_hits(ctx):
    """First crossing of the skin."""
    import resqpy.grid_surface as rqgs
    m = gen.model(ctx, crs = False)
    c = c33.make_grid(ctx, m, max_n = (4, 4, 4), pinch = False)
    t = c33.make_trajectory(ctx, m, c, other_crs = False)
    g = c.grid
    regular = c.flavour == 'regular' and ctx.flag(0.6)
    single = ctx.flag(0.6)
    s = rqgs.GridSkin(g, use_single_layer_tactics = single, is_regular = regular) if ctx.flag(0.7) or regular else g.skin(use_single_layer_tactics = single)
    tris = c33.faces_of(c.cp)
    every = c33.hits(c.path, tris)
    b = boundary(c.cp, c.raw).reshape((-1, 6))
    found = [h for h in every if b[h[2], h[3]]]
    kw = dict(extent = c.extent, flavour = c.flavour, faulted = c.faulted, gapped = c.gapped, single = single, regular = regular, walk = c.walk)
    for n in range(4):
        start, s_xyz, nudge = (0, None, None) if n == 0 else start_at(ctx, c.path)
        try:
            ahead = from_start(c.path, found, start, s_xyz, nudge)
        except Skip:
            continue
        info = dict(start = start, start_xyz = s_xyz, nudge = nudge, **kw)
        xyz, kji0, axis, pol, seg = s.find_first_intersection_of_trajectory(t, start = start, start_xyz = s_xyz, nudge = nudge)
        if not ahead:
            ctx.check(xyz is None and kji0 is None and axis is None and pol is None and seg is None, 'skin-hit-none', 'crossing of skin reported where there is none', xyz = xyz, kji0 = kji0, **info)
            ctx.observe('skin-misses')
            continue
        judge(ctx, c, ahead, 0, (xyz, kji0, axis, pol, seg), 'skin-hit', **info)
        ctx.observe('skin-hits')
        # with a cell excluded
        first = tuple(int(x) for x in np.unravel_index(ahead[0][1][2], c.extent))
        same = [a for a in ahead if a[0] - ahead[0][0] < 0.02]
        ex = np.array(first) if ctx.flag() else first
        if len(same) == 1:
            got = s.find_first_intersection_of_trajectory(t, start = start, start_xyz = s_xyz, nudge = nudge, exclude_kji0 = ex)
            rest = [a for a in ahead if a[0] - ahead[0][0] > 1.0e-3]
            if got[0] is not None:
                at = [a for a in ahead if np.linalg.norm(point(c.path, a[1]) - got[0]) < 1.0e-2 and a[1][0] == int(got[4])]
                ctx.check(bool(at) and at[0] is not ahead[0], 'skin-exclude', 'excluded cell found', got = got[0], kji0 = got[1], ex = ex, faces = [(a[0], c33.AP[a[1][3]], np.unravel_index(a[1][2], c.extent)) for a in ahead], **info)
            if rest and rest[0][0] - ahead[0][0] > 0.5 and all(a[1][2] != ahead[0][1][2] for a in rest if a[0] - rest[0][0] < 0.02):  # both sides of a fault may be in skin
                judge(ctx, c, rest, 0, got, 'skin-exclude', **info)
            elif not rest:
                ctx.check(got[0] is None, 'skin-exclude-none', 'crossing of skin reported where there is none but that excluded', got = got[0], kji0 = got[1], **info)
            other = tuple((np.array(first) + 1) % np.array(c.extent))
            if other != first:
                judge(ctx, c, ahead, 0, s.find_first_intersection_of_trajectory(t, start = start, start_xyz = s_xyz, nudge = nudge, exclude_kji0 = other), 'skin-exclude-other', **info)
            ctx.observe('skin-excluded')
    ctx.sig(c.extent, c.flavour, c.faulted, c.gapped, single, regular, len(found), c.walk)


def point(path, h):
    return path[h[0]] + h[1] * (path[h[0] + 1] - path[h[0]])


def judge(ctx, c, ahead, at, got, code, **kw):
    """The result is the first of ahead (or at the same place)."""
    xyz, kji0, axis, pol, seg = got
    e = point(c.path, ahead[at][1])
    ctx.check(xyz is not None, code + '-missed', 'crossing of skin missed', expect = e, cell = np.unravel_index(ahead[at][1][2], c.extent), face = c33.AP[ahead[at][1][3]], **kw)
    ctx.check(np.linalg.norm(np.array(xyz) - e) < 2.0e-3, code + '-place', 'crossing of skin is not the first', got = xyz, expect = e, kji0 = kji0, cell = np.unravel_index(ahead[at][1][2], c.extent), **kw)
    ctx.check(int(seg) == ahead[at][1][0], code + '-segment', 'segment of path', got = seg, expect = ahead[at][1][0], **kw)
    may = [(tuple(int(x) for x in np.unravel_index(a[1][2], c.extent)), c33.AP[a[1][3]]) for a in ahead if abs(a[0] - ahead[at][0]) < 2.0e-3]
    ctx.check((tuple(int(x) for x in kji0), (int(axis), int(pol))) in may, code + '-cell', 'cell or face at crossing of skin', got = (kji0, axis, pol), expect = may, **kw)


# surfaces and paths

def random_surface(ctx, m, crs):
    """Returns surface, triangles (N, 3, 3) in the order of the indices."""
    import resqpy.surface as rqs
    r = ctx.rng
    style = ctx.choice(['mesh', 'mesh', 'soup', 'patches', 'sheet', 'folded'])
    n = ctx.integer(2, 8)
    x, y = np.meshgrid(np.linspace(-100.0, 1100.0, n + 1), np.linspace(-100.0, 1100.0, n + 1))
    z = 1500.0 + r.uniform(-120.0, 120.0, x.shape)
    p = np.stack((x + r.uniform(-30.0, 30.0, x.shape), y + r.uniform(-30.0, 30.0, x.shape), z), axis = -1).reshape((-1, 3))
    t = []
    for a in range(n):
        for b in range(n):
            q = [a * (n + 1) + b, a * (n + 1) + b + 1, (a + 1) * (n + 1) + b, (a + 1) * (n + 1) + b + 1]
            t += [[q[0], q[1], q[2]], [q[1], q[3], q[2]]]
    t = np.array(t)
    if style == 'mesh' or style == 'patches':
        keep = r.random(len(t)) < ctx.choice([1.0, 0.7])
        keep[0] = True
        t = t[keep]
        t = t[r.permutation(len(t))]
        t = np.array([np.roll(a, ctx.integer(0, 2)) for a in t])
    elif style == 'soup':
        p = np.stack((r.uniform(-100.0, 1100.0, 60), r.uniform(-100.0, 1100.0, 60), r.uniform(1000.0, 2000.0, 60)), axis = -1)
        t = np.array([r.choice(60, 3, replace = False) for _ in range(ctx.integer(1, 60))])
    elif style == 'sheet':
        p[:, 2], p[:, 0] = p[:, 1] + 1000.0, 500.0 + r.uniform(-100.0, 100.0, len(p))
    elif style == 'folded':
        p[:, 2] += 300.0 * np.sin(p[:, 0] / 90.0)
    s = rqs.Surface(m, crs_uuid = crs.uuid, title = 'surface')
    if style == 'patches':
        cut = ctx.integer(1, len(t)) if len(t) > 1 else 1
        parts = [x for x in (t[:cut], t[cut:]) if len(x)]
        if len(parts) == 1:
            s.set_from_triangles_and_points(t, p)
        else:
            tl, pl = [], []
            for x in parts:
                u, inv = np.unique(x, return_inverse = True)
                pl.append(p[u])
                tl.append(inv.reshape(x.shape))
            s.set_multi_patch_from_triangles_and_points([(a, b) for a, b in zip(tl, pl)])
            t = np.concatenate((tl[0], tl[1] + len(pl[0])))
            p = np.concatenate(pl)
    else:
        s.set_from_triangles_and_points(t, p)
    return s, p[t], style


def random_path(ctx, n = None):
    r = ctx.rng
    n = n or ctx.integer(2, 12)
    style = ctx.choice(['down', 'wild', 'undulating'])
    if style == 'down':
        z = np.linspace(1000.0 + r.uniform(0.0, 100.0), ctx.choice([1450.0, 2000.0]), n)
        xy = np.cumsum(r.uniform(-100.0, 100.0, (n, 2)), axis = 0) + r.uniform(200.0, 800.0, 2)
    elif style == 'wild':
        z = r.uniform(1200.0, 1800.0, n)
        xy = r.uniform(-50.0, 1050.0, (n, 2))
    else:
        z = 1500.0 + 300.0 * np.cos(np.arange(n) * r.uniform(0.5, 3.0))
        xy = np.stack((np.linspace(0.0, 1000.0, n), r.uniform(0.0, 1000.0) + r.uniform(-50.0, 50.0, n)), axis = -1)
    return np.concatenate((xy, z[:, np.newaxis]), axis = 1)


def trajectory(m, crs, path, name = 'well'):
    import resqpy.well as rqw
    dat = rqw.MdDatum(m, crs_uuid = crs.uuid, location = tuple(path[0]), md_reference = 'kelly bushing')
    dat.create_xml()
    mds = np.concatenate(([0.0], np.cumsum(np.linalg.norm(np.diff(path, axis = 0), axis = 1))))
    return rqw.Trajectory(m, md_datum = dat, crs_uuid = crs.uuid, mds = mds, control_points = path.copy(), length_uom = 'm', well_name = name)


def traj_surface(ctx):
    """All crossings of a surface, and first (and second) of them."""
    import resqpy.crs as rqc
    import resqpy.grid_surface as rqgs
    m = gen.model(ctx, crs = False)
    crs = rqc.Crs(m)
    crs.create_xml()
    s, tris, style = random_surface(ctx, m, crs)
    paths = [random_path(ctx) for _ in range(ctx.integer(1, 3))]
    trajs = [trajectory(m, crs, p, 'well %d' % x) for x, p in enumerate(paths)]
    exp = [cross(p, tris) for p in paths]
    many = ctx.flag()
    res = rqgs.find_intersections_of_trajectory_with_surface(trajs, s) if many else [rqgs.find_intersections_of_trajectory_with_surface(t, s) for t in trajs]
    ctx.equal(len(res), len(trajs), 'surface-list')
    for path, e, t, (ti, xyz) in zip(paths, exp, trajs, res):
        if not e:
            ctx.check(ti is None and xyz is None, 'surface-none', 'crossings reported where there are none', ti = ti, style = style)
        else:
            ctx.check(ti is not None, 'surface-missed', 'crossings missed', expect = e, style = style)
            ctx.check(sorted(int(x) for x in ti) == sorted(x[2] for x in e), 'surface-triangles', 'triangles crossed', got = sorted(map(int, ti)), expect = sorted(x[2] for x in e), style = style)
            # in order of segments
            left = list(e)
            for a, b in zip(ti, xyz):
                hit = [x for x in left if x[2] == int(a) and np.linalg.norm(x[3] - b) < 1.0e-3]
                ctx.check(bool(hit), 'surface-xyz', 'point of crossing', tri = int(a), xyz = b, style = style)
                left.remove(hit[0]) if not isinstance(hit[0][3], np.ndarray) else left.pop([x is hit[0] for x in left].index(True))
            ctx.observe('crossings', len(e))
        for n in range(4):
            start, s_xyz, nudge = (0, None, None) if n == 0 else start_at(ctx, path)
            if ctx.flag(0.08):
                start, s_xyz, nudge = len(path) - 1 + ctx.integer(0, 1), None, None
            second = ctx.flag()
            info = dict(start = start, start_xyz = s_xyz, nudge = nudge, style = style, second = second)
            try:
                ahead = from_start(path, e, start, s_xyz, nudge) if start < len(path) - 1 else []
            except Skip:
                continue
            got = rqgs.find_first_intersection_of_trajectory_with_surface(t, s, start = start, start_xyz = s_xyz, nudge = nudge, return_second = second)
            ctx.equal(len(got), 6 if second else 3, 'first-length')
            if not ahead:
                ctx.check(all(x is None for x in got), 'first-none', 'crossing reported where there is none', got = got, **info)
                continue
            f = ahead[0][1]
            ctx.check(got[0] is not None, 'first-missed', 'crossing missed', expect = f, **info)
            same = [a for a in ahead[1:] if a[1][0] == f[0]]
            if same and same[0][0] - ahead[0][0] < 1.0e-2:
                continue
            ctx.check(np.linalg.norm(got[0] - f[3]) < 1.0e-3 and int(got[1]) == f[0] and int(got[2]) == f[2], 'first', 'first crossing of surface', got = got, expect = f, **info)
            if second:
                if not same:
                    ctx.check(got[3] is None and got[5] is None, 'second-none', 'second crossing reported where there is none in segment', got = got, **info)
                elif len(same) == 1 or same[1][0] - same[0][0] > 1.0e-2:
                    h = same[0][1]
                    ctx.check(got[3] is not None, 'second-missed', 'second crossing missed', expect = h, **info)
                    ctx.check(np.linalg.norm(got[3] - h[3]) < 1.0e-3 and int(got[4]) == h[0] and int(got[5]) == h[2], 'second', 'second crossing of surface', got = got, expect = h, **info)
                    ctx.observe('second-crossings')
            ctx.observe('first-crossings')
    ctx.sig(style, len(tris), [len(x) for x in exp], many)


# layers

def layer(ctx):
    """Crossings of a layer interface."""
    import resqpy.grid_surface as rqgs
    m = gen.model(ctx, crs = False)
    c = c33.make_grid(ctx, m, max_n = (4, 4, 4), pinch = False)
    g = c.grid
    paths, trajs = [], []
    for x in range(ctx.integer(1, 2)):
        trajs.append(c33.make_trajectory(ctx, m, c, other_crs = False))
        paths.append(c.path)
    nk, nj, ni = c.extent
    heal = healed_cp(c.raw) if c.raw is not None else c.cp
    kw = dict(extent = c.extent, flavour = c.flavour, faulted = c.faulted, gapped = c.gapped)
    for _ in range(3):
        k, kp = ctx.integer(0, nk - 1), ctx.integer(0, 1)
        ref = ('top', 'base')[kp]
        healing = ctx.flag()
        quad = ctx.flag(0.7)
        q = layer_quads(heal if healing else c.cp, k, kp)
        if quad:
            tris = fans(q.reshape((-1, 2, 2, 3))).reshape((-1, 3, 3))
        else:
            make = rqgs.generate_untorn_surface_for_layer_interface if healing else rqgs.generate_torn_surface_for_layer_interface
            t, p = make(g, k0 = k, ref_k_faces = ref, quad_triangles = False).triangles_and_points()
            tris = np.asarray(p)[np.asarray(t)]
        per = 4 if quad else 2
        try:
            exp = [cross(p, tris) for p in paths]
        except Skip:
            continue
        info = dict(k = k, ref = ref, heal = healing, quad = quad, **kw)
        many = ctx.flag()
        res = rqgs.find_intersections_of_trajectory_with_layer_interface(trajs if many else trajs[0], g, k0 = k, ref_k_faces = ref, heal_faults = healing, quad_triangles = quad)
        res = res if many else [res]
        ctx.equal(len(res), len(trajs) if many else 1, 'layer-list')
        for e, (cols, xyz) in zip(exp, res):
            if not e:
                ctx.check(cols is None and xyz is None, 'layer-none', 'crossings reported where there are none', cols = cols, **info)
                continue
            ctx.check(cols is not None, 'layer-missed', 'crossings of layer missed', n = len(e), **info)
            want = sorted(divmod(x[2] // per, ni) for x in e)
            ctx.check(sorted((int(a), int(b)) for a, b in cols) == want, 'layer-columns', 'columns of crossings of layer', got = cols, expect = want, **info)
            for (a, b), v in zip(cols, xyz):
                ctx.check(any(divmod(x[2] // per, ni) == (int(a), int(b)) and np.linalg.norm(x[3] - v) < 1.0e-3 for x in e), 'layer-xyz', 'point of crossing of layer', xyz = v, **info)
            ctx.observe('layer-crossings', len(e))
        regular = c.flavour == 'regular' and ctx.flag(0.6)
        start = ctx.integer(0, max(len(p) for p in paths) - 1) if ctx.flag(0.4) else 0
        res = rqgs.find_first_intersection_of_trajectory_with_layer_interface(trajs if many else trajs[0], g, k0 = k, ref_k_faces = ref, start = start, heal_faults = healing, quad_triangles = quad, is_regular = regular)
        res = list(zip(*res)) if many else [res]
        for path, e, (xyz, seg, col) in zip(paths, exp, res):
            ahead = [x for x in e if x[0] >= start]
            col = tuple(col)
            if not ahead:
                ctx.check(xyz is None and seg is None and col == (None, None), 'first-layer-none', 'crossing reported where there is none', xyz = xyz, col = col, start = start, regular = regular, **info)
                continue
            f = ahead[0]
            ctx.check(xyz is not None, 'first-layer-missed', 'crossing of layer missed', expect = f, start = start, regular = regular, **info)
            if len(ahead) > 1 and np.linalg.norm(ahead[1][3] - f[3]) < 1.0e-2:
                continue
            ctx.check(np.linalg.norm(xyz - f[3]) < 1.0e-3 and int(seg) == f[0] and tuple(map(int, col)) == divmod(f[2] // per, ni), 'first-layer', 'first crossing of layer', got = (xyz, seg, col), expect = f, col = divmod(f[2] // per, ni), start = start, regular = regular, **info)
            ctx.observe('first-layer-crossings')
    ctx.sig(c.extent, c.flavour, c.faulted, c.gapped, len(trajs))


# cells and columns

def cell(ctx):
    """Crossings of one cell, or of one column face; points within a cell."""
    import resqpy.grid_surface as rqgs
    m = gen.model(ctx, crs = False)
    c = c33.make_grid(ctx, m, max_n = (4, 4, 4))
    g = c.grid
    t = c33.make_trajectory(ctx, m, c, other_crs = False)
    tris = c33.faces_of(c.cp)
    nk, nj, ni = c.extent
    kw = dict(extent = c.extent, flavour = c.flavour, faulted = c.faulted, gapped = c.gapped, walk = c.walk)
    met = []
    try:
        met = sorted({h[2] for h in c33.hits(c.path, tris)})
    except Skip:
        pass
    for n in range(4):
        x = ctx.choice(met) if met and ctx.flag(0.85) else ctx.integer(0, nk * nj * ni - 1)
        kji0 = tuple(int(v) for v in np.unravel_index(x, c.extent))
        start, s_xyz, nudge = start_at(ctx, c.path)
        try:
            found = cross(c.path, tris[x].reshape((-1, 3, 3)))
            ahead = from_start(c.path, found, start, s_xyz, nudge if s_xyz is not None else None)
        except Skip:
            continue
        a = {} if s_xyz is None and nudge is None else dict(nudge = nudge)
        got = rqgs.find_first_intersection_of_trajectory_with_cell_surface(t, g, kji0 if ctx.flag() else np.array(kji0), start, start_xyz = s_xyz if s_xyz is None or ctx.flag() else tuple(s_xyz), **a)
        xyz, knot, axis, pol = got
        info = dict(kji0 = kji0, start = start, start_xyz = s_xyz, nudge = nudge, **kw)
        if not ahead:
            ctx.check(all(v is None for v in got), 'cell-none', 'crossing of cell reported where there is none', got = got, **info)
        else:
            f = ahead[0][1]
            ctx.check(xyz is not None, 'cell-missed', 'crossing of cell missed', expect = f, **info)
            if len(ahead) == 1 or ahead[1][0] - ahead[0][0] > 1.0e-2:
                ctx.check(np.linalg.norm(xyz - f[3]) < 1.0e-3 and int(knot) == f[0] and (int(axis), int(pol)) == c33.AP[f[2] // 4], 'cell', 'first crossing of cell', got = got, expect = f, face = c33.AP[f[2] // 4], **info)
            ctx.observe('cell-crossings')
    if not c.gapped:
        for n in range(4):
            col = (ctx.integer(0, nj - 1), ctx.integer(0, ni - 1))
            axis, pol = ctx.choice([1, 2]), ctx.integer(0, 1)
            seg = ctx.integer(0, len(c.path) - 2)
            if met and ctx.flag(0.8):
                h = ctx.choice([h for h in c33.hits(c.path, tris)])
                k_, col, seg = None, tuple(int(v) for v in np.unravel_index(h[2], c.extent)[1:]), h[0]
                if c33.AP[h[3]][0]:
                    axis, pol = c33.AP[h[3]]
            s_xyz = nudge = None
            line = c.path[seg:seg + 2].copy()
            if ctx.flag(0.4):
                s_xyz = line[0] + ctx.uniform(0.1, 0.9) * (line[1] - line[0])
                line[0] = s_xyz
                if ctx.flag():
                    nudge = ctx.choice([-1.0, -0.1, 0.1])
                    line[0] = s_xyz + nudge * (line[1] - line[0]) / np.linalg.norm(line[1] - line[0])
            f = c33.AP.index((axis, pol))
            ids = np.arange(nk * nj * ni).reshape(c.extent)[:, col[0], col[1]]
            try:
                found = cross(line, tris[ids, f].reshape((-1, 3, 3)))
            except Skip:
                continue
            xyz, k0 = rqgs.find_intersection_of_trajectory_interval_with_column_face(t, g, seg, col, axis, pol, start_xyz = s_xyz, nudge = nudge)
            info = dict(col = col, axis = axis, polarity = pol, seg = seg, start_xyz = s_xyz, nudge = nudge, **kw)
            if not found:
                ctx.check(xyz is None and k0 is None, 'column-none', 'crossing of column face reported where there is none', xyz = xyz, k0 = k0, **info)
            else:
                ctx.check(xyz is not None, 'column-missed', 'crossing of column face missed', expect = found[0], **info)
                if len(found) == 1 or np.linalg.norm(found[1][3] - found[0][3]) > 1.0e-2:
                    ctx.check(np.linalg.norm(xyz - found[0][3]) < 1.0e-3 and int(k0) == found[0][2] // 4, 'column', 'crossing of column face', got = (xyz, k0), expect = found[0], **info)
                ctx.observe('column-crossings')
    # points within cells
    for n in range(4):
        kji0 = tuple(ctx.integer(0, v - 1) for v in c.extent)
        q = c.cp[kji0]
        thick = np.linalg.norm(q[1] - q[0], axis = -1)
        f = ctx.rng.uniform(0.1, 0.9, 3)
        if n % 2:
            a = ctx.integer(0, 2)
            f[a] = ctx.choice([-0.5, 1.5, 3.0])
        w = [np.array([1.0 - v, v]) for v in f]
        p = np.einsum('k,j,i,kjix->x', w[0], w[1], w[2], q)
        pinched = bool(np.all(thick < 1.0e-6))
        if not pinched:
            if thick.min() < 3.0:
                continue
            # mean position and a ray to the mean corner
            line = np.array([p, q.reshape((-1, 3)).mean(axis = 0)])
            if np.linalg.norm(line[1] - line[0]) < 0.1:
                continue
            try:
                count = len(cross(line, tris[np.ravel_multi_index(kji0, c.extent)].reshape((-1, 3, 3))))
            except Skip:
                continue
            if n % 2 and count == 0 or n % 2 == 0 and count:
                continue  # uneven cell
        got = rqgs.point_is_within_cell(p, g, kji0)
        ctx.equal(bool(got), bool(not pinched and n % 2 == 0), 'within-cell')
        ctx.observe('points-in-cells')
    ctx.sig(c.extent, c.flavour, c.faulted, c.gapped, c.walk, len(met))


# boxes

def overlap(ctx):
    """Box of a path overlapping the box of a grid: never false where path meets grid."""
    import resqpy.crs as rqc
    import resqpy.grid_surface as rqgs
    m = gen.model(ctx, crs = False)
    kw = gen.crs_kwargs(ctx)
    z_down = kw.get('z_inc_down', True)
    kw['z_inc_down'] = z_down
    c = c33.make_grid(ctx, m, max_n = (3, 3, 3), crs_kw = kw)
    path, style = c33.walk(ctx, c.cp, c.z_down)
    if ctx.flag():
        # just clipping a corner
        lo, hi = c33.cell_box(c.cp)
        corner = np.where(ctx.rng.random(3) < 0.5, lo, hi)
        span = hi - lo
        p = corner + ctx.rng.uniform(-0.3, 0.3, 3) * span
        path = np.array([p, p + ctx.rng.uniform(-0.3, 0.3, 3) * span, p + ctx.rng.uniform(-0.5, 0.5, 3) * span])
    other = ctx.flag(0.7)
    crs, cps = c.crs, path
    if other:
        kw2 = gen.crs_kwargs(ctx)
        crs = rqc.Crs(m, title = 'path crs', **kw2)
        crs.create_xml()
        cps = gen.CrsOracle(kw).convert_to(gen.CrsOracle(kw2), path)
    before = cps.copy()
    t = trajectory(m, crs, cps)
    got = bool(rqgs.trajectory_grid_overlap(t, c.grid))
    ctx.check(np.array_equal(t.control_points, before), 'overlap-path-changed', 'control points changed by query')
    lo, hi = c33.cell_box(c.cp)
    plo, phi = path.min(axis = 0), path.max(axis = 0)
    d = np.minimum(phi - lo, hi - plo)
    if np.abs(d).min() < 1.0e-3:
        raise Skip('boxes nearly touch')
    e = bool(np.all(d > 0.0))
    if got != e:
        ctx.fail('overlap', 'overlap of boxes of path and grid', got = got, expect = e, other = other, kw = kw, path = path, lo = lo, hi = hi)
    ctx.observe('overlaps' if e else 'no-overlaps')
    ctx.sig(other, e, c.extent, c.flavour)


# cells visited by a well

def visited(ctx):
    """Surfaces of the cells of a blocked well."""
    import resqpy.grid_surface as rqgs
    import resqpy.well as rqw
    m = gen.model(ctx, crs = False)
    c = c33.make_grid(ctx, m, max_n = (4, 4, 4), pinch = False, inactive = ctx.flag(0.6))
    t = c33.make_trajectory(ctx, m, c, other_crs = False)
    bw = rqw.BlockedWell(m, grid = c.grid, trajectory = t)
    if bw.cell_count is None or bw.cell_count == 0:
        raise Skip('well does not meet grid')
    cells = [tuple(int(v) for v in np.unravel_index(x, c.extent)) for x in np.asarray(bw.cell_indices)]
    kjis, grids = bw.cell_indices_and_grid_list()
    ctx.check([tuple(int(v) for v in x) for x in kjis] == cells and all(x is c.grid for x in grids), 'visited-cells', 'cells and grids of blocked well')
    tris = c33.faces_of(c.cp)
    for _ in range(3):
        combined, active, quad = ctx.flag(), ctx.flag(), ctx.flag(0.6)
        lo = ctx.integer(0, c.extent[0] - 1) if ctx.flag(0.4) else 0
        hi = ctx.integer(lo, c.extent[0]) if ctx.flag(0.4) else None
        centre = c.cp.mean(axis = (3, 4, 5))
        limit = None
        if c.z_down and ctx.flag(0.5):
            z = sorted(centre[x][2] for x in cells)
            limit = float(ctx.choice(z)) + ctx.choice([-0.5, 0.5])
        if limit is not None and any(abs(centre[x][2] - limit) < 1.0e-3 for x in cells):
            continue
        want = [x for x in cells if not (active and c.inactive is not None and c.inactive[x]) and x[0] >= lo and (hi is None or x[0] <= hi) and (limit is None or centre[x][2] <= limit)]
        info = dict(combined = combined, active = active, quad = quad, min_k0 = lo, max_k0 = hi, depth_limit = limit, cells = cells, want = want)
        a = dict(combined = combined, active_only = active, min_k0 = lo, max_k0 = hi, depth_limit = limit, quad_triangles = quad)
        got = rqgs.generate_surface_for_blocked_well_cells(bw, **a)
        if not want:
            ctx.check(got is None, 'visited-none', 'surface made where there are no cells', **info)
            continue
        ctx.check(got is not None, 'visited-missing', 'no surface for the cells', **info)
        parts = [got] if combined else got
        groups = [want] if combined else [[x] for x in want]
        ctx.check(len(parts) == len(groups), 'visited-count', 'number of surfaces', got = len(parts), **info)
        for s, grp in zip(parts, groups):
            tt, pp = s.triangles_and_points()
            x = np.asarray(pp)[np.asarray(tt)]
            ids = [int(np.ravel_multi_index(v, c.extent)) for v in grp]
            ctx.check(str(s.crs_uuid) == str(c.grid.crs_uuid), 'visited-crs', 'crs of surface')
            if quad:
                same_triangles(ctx, x, tris[ids].reshape((-1, 3, 3)), 'visited', **info)
            else:
                quads = np.concatenate([np.stack([np.take(c.cp[v], pol, axis = axis) for axis, pol in c33.AP]) for v in grp])
                on_quads(ctx, x, quads, 'visited', **info)
            for n in range(3):
                y = ctx.integer(0, len(x) - 1)
                ce, axis, pol = s.cell_axis_and_polarity_from_triangle_index(y)
                q = np.take(c.cp[grp[int(ce)]], int(pol), axis = int(axis)).reshape((-1, 3))
                q = np.concatenate((q, q.mean(axis = 0, keepdims = True)))
                d = np.linalg.norm(x[y][:, np.newaxis] - q[np.newaxis], axis = -1).min(axis = 1).max()
                ctx.check(d < 1.0e-3, 'visited-face', 'cell and face for triangle', index = y, cell = ce, axis = axis, polarity = pol, **info)
        ctx.observe('visited-surfaces', len(parts))
    ctx.sig(c.extent, c.flavour, c.faulted, c.gapped, len(cells))


SCENARIOS = [
    Scenario(surfaces, 150 * 3),
    Scenario(skin, 120 * 3),
    Scenario(skin_hits, 200 * 3),
    Scenario(traj_surface, 200 * 3),
    Scenario(layer, 140 * 3),
    Scenario(cell, 160 * 3),
    Scenario(overlap, 120 * 3),
    Scenario(visited, 120 * 3),
]
