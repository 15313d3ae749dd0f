"""C14: views of grid geometry against corner points derived only from the raw points and split pillar lists."""

import numpy as np

from props.spec import spec
from rv import gen
from rv.core import Scenario, Skip
from rv.gridgen import random_grid

PROP = spec('C14')


def make(ctx, undefined = False, **kw):
    """Returns raw grid and resqpy grid, either in memory or read back from file."""
    import resqpy.grid as grr
    import resqpy.model as rq
    m = gen.model(ctx)
    raw = random_grid(ctx, growth = ctx.flag(0.4), undefined = undefined, **kw)
    how = ctx.choice(['memory', 'memory', 'persisted', 'reopened'])
    if how == 'memory':
        g = raw.build(m)
    else:
        uuid = raw.persist(m)
        if how == 'reopened':
            m.store_epc()
            m = rq.Model(ctx.path('m.epc'))
        g = grr.Grid(m, uuid = uuid)
    return raw, g, how


def unmask(a):
    if isinstance(a, np.ma.MaskedArray):
        return np.where(np.ma.getmaskarray(a), np.nan, np.ma.getdata(a))
    return a


def pick_cell(ctx, raw):
    return (ctx.integer(0, raw.nk - 1), ctx.integer(0, raw.nj - 1), ctx.integer(0, raw.ni - 1))


# each view: fn(ctx, raw, grid, cp) compares one view of the geometry


def v_corner_points(ctx, raw, g, cp):
    ctx.close(g.corner_points(), cp, 'corner-points', tol = 1.0e-9)


def v_corner_points_cell(ctx, raw, g, cp):
    c = pick_cell(ctx, raw)
    got = g.corner_points(c, cache_cp_array = ctx.flag(0.3), cache_resqml_array = ctx.flag(0.7))
    if raw.cell_undefined is not None and raw.cell_undefined[c]:
        ctx.check(got is None or np.any(np.isnan(got)), 'corner-points-undefined', got = got)
    else:
        ctx.close(got, cp[c], 'corner-points-cell', tol = 1.0e-9, cell = c)


def v_point(ctx, raw, g, cp):
    c = pick_cell(ctx, raw)
    ci = np.array([ctx.integer(0, 1) for _ in range(3)])
    got = g.point(c, corner_index = ci, cache_array = ctx.flag(0.5))
    if raw.cell_undefined is not None and raw.cell_undefined[c]:
        return
    ctx.close(got, cp[c][tuple(ci)], 'point', tol = 1.0e-9, cell = c, corner = ci)


def v_points_ref(ctx, raw, g, cp):
    for masked in (True, False):
        p = g.points_ref(masked = masked)
        if masked:
            ctx.check(isinstance(p, np.ma.MaskedArray), 'points-masked')
            p = unmask(p)
        ctx.close(p, raw.native_points(), 'points-ref', tol = 1.0e-9)
    ctx.close(unmask(g.point_raw()), raw.native_points(), 'point-raw-all', tol = 1.0e-9)


def v_centre(ctx, raw, g, cp):
    exp = np.mean(cp, axis = (3, 4, 5))
    form = ctx.integer(0, 3)
    if form == 0:
        got = unmask(g.centre_point())
        ctx.close(got, exp, 'centre-all', tol = 1.0e-7)
    elif form == 1:
        c = pick_cell(ctx, raw)
        got = g.centre_point(c, cache_centre_array = ctx.flag(0.3))
        if np.any(np.isnan(exp[c])):
            ctx.check(got is None or np.any(np.isnan(got)), 'centre-undefined')
        else:
            ctx.close(got, exp[c], 'centre-cell', tol = 1.0e-7, cell = c)
    elif form == 2:
        cells = np.array([pick_cell(ctx, raw) for _ in range(ctx.integer(1, 5))])
        ctx.close(g.centre_point_list(cells), exp[tuple(cells.T)], 'centre-list', tol = 1.0e-7)
    else:
        from resqpy.property import property_collection  # noqa: F401
        c = pick_cell(ctx, raw)
        if raw.cell_undefined is None:
            got = g.face_centres_kji_01(c)
            e = np.empty((3, 2, 3))
            for ax in range(3):
                for p in range(2):
                    e[ax, p] = np.mean(np.take(cp[c], p, axis = ax), axis = (0, 1))
            ctx.close(got, e, 'face-centres', tol = 1.0e-7)


def v_face_centre_all(ctx, raw, g, cp):
    ax, p = ctx.integer(0, 2), ctx.integer(0, 1)
    exp = np.mean(np.take(cp, p, axis = 3 + ax), axis = (3, 4))
    if ctx.flag():
        got = unmask(g.face_centre(None, ax, p))
        ctx.close(got, exp, 'face-centre-all', tol = 1.0e-7, axis = ax, p = p)
    else:
        c = pick_cell(ctx, raw)
        if raw.cell_undefined is None:
            ctx.close(g.face_centre(c, ax, p), exp[c], 'face-centre', tol = 1.0e-7, axis = ax, p = p)


def v_split_horizon(ctx, raw, g, cp):
    kp = ctx.integer(0, 1)
    k = ctx.integer(0, raw.nk - 1)
    got = unmask(g.split_horizon_points(ref_k0 = k, kp = kp, masked = ctx.flag()))
    ctx.close(got, cp[k, :, :, kp], 'split-horizon', tol = 1.0e-9, k = k, kp = kp)
    if not raw.n_gaps:
        got = g.split_horizon_points(ref_k0 = raw.nk)
        ctx.close(got, cp[-1, :, :, 1], 'split-horizon-base', tol = 1.0e-9)


def v_split_horizons(ctx, raw, g, cp):
    nh = raw.nk + raw.n_gaps
    lo = ctx.integer(0, nh)
    hi = ctx.integer(lo, nh)
    got = g.split_horizons_points(min_k0 = lo, max_k0 = hi)
    ctx.close(got, np.stack([raw.points[h][raw.pfc] for h in range(lo, hi + 1)]), 'split-horizons', tol = 1.0e-9)
    ctx.close(g.split_horizons_points()[raw.raw_k], cp[:, :, :, 0], 'split-horizons-tops', tol = 1.0e-9)


def v_horizon(ctx, raw, g, cp):
    kp = ctx.integer(0, 1)
    k = ctx.integer(0, raw.nk - 1)
    prim = raw.points[raw.raw_k[k] + kp, :(raw.nj + 1) * (raw.ni + 1)].reshape((raw.nj + 1, raw.ni + 1, 3))
    ctx.close(g.horizon_points(ref_k0 = k, kp = kp), prim, 'horizon', tol = 1.0e-9)
    if not raw.n_gaps:
        e = raw.points[-1, :(raw.nj + 1) * (raw.ni + 1)].reshape((raw.nj + 1, raw.ni + 1, 3))
        ctx.close(g.horizon_points(ref_k0 = raw.nk), e, 'horizon-base', tol = 1.0e-9)
    healed = unsplit_expected(raw)[raw.raw_k[k] + kp]
    ctx.close(g.horizon_points(ref_k0 = k, kp = kp, heal_faults = True), healed, 'horizon-healed', tol = 1.0e-7)


def unsplit_expected(raw):
    """Mean over the surrounding columns of the point each uses at the pillar."""
    total = np.zeros((raw.points.shape[0], raw.nj + 1, raw.ni + 1, 3))
    count = np.zeros((raw.nj + 1, raw.ni + 1))
    for j in range(raw.nj):
        for i in range(raw.ni):
            for jp in range(2):
                for ip in range(2):
                    total[:, j + jp, i + ip] += raw.points[:, raw.pfc[j, i, jp, ip]]
                    count[j + jp, i + ip] += 1.0
    return total / count[..., np.newaxis]


def v_unsplit(ctx, raw, g, cp):
    got = unmask(g.unsplit_points_ref(cache_array = ctx.flag(0.3), masked = ctx.flag(0.3)))
    ctx.close(got, unsplit_expected(raw), 'unsplit-points', tol = 1.0e-7)


def x_sect(cp, axis, sl, plus):
    if axis == 'I':
        return cp[:, :, sl, :, :, int(plus)]  # (nk, nj, kp, jp, 3)
    return cp[:, sl, :, :, int(plus), :]


def v_x_section(ctx, raw, g, cp):
    axis = ctx.choice(['I', 'J'])
    ax = axis if ctx.flag(0.8) else axis.lower()
    sl = ctx.integer(0, (raw.ni if axis == 'I' else raw.nj) - 1)
    plus = ctx.flag()
    e = x_sect(cp, axis, sl, plus)
    got = unmask(g.x_section_corner_points(ax, ref_slice0 = sl, plus_face = plus, masked = ctx.flag(0.3)))
    ctx.close(got, e, 'x-section', tol = 1.0e-9, axis = axis, slice = sl, plus = plus)
    got = unmask(g.split_gap_x_section_points(ax, ref_slice0 = sl, plus_face = plus, masked = ctx.flag(0.3)))
    ctx.close(got, e, 'gap-x-section', tol = 1.0e-9, axis = axis, slice = sl, plus = plus)
    if not raw.n_gaps:
        got = unmask(g.split_x_section_points(ax, ref_slice0 = sl, plus_face = plus, masked = ctx.flag(0.3)))
        ctx.close(got, np.concatenate((e[:, :, 0], e[-1:, :, 1])), 'split-x-section', tol = 1.0e-9)
        if not raw.split:
            got = unmask(g.unsplit_x_section_points(ax, ref_slice0 = sl, plus_face = plus, masked = ctx.flag(0.3)))
            p = raw.native_points()
            s = sl + int(plus)
            ctx.close(got, p[:, :, s] if axis == 'I' else p[:, s], 'unsplit-x-section', tol = 1.0e-9)


def v_x_section_rotated(ctx, raw, g, cp):
    if raw.cell_undefined is not None:
        return
    axis = ctx.choice(['I', 'J'])
    n = raw.ni if axis == 'I' else raw.nj
    sl = ctx.integer(0, n - 1)
    plus = ctx.flag()
    e = x_sect(cp, axis, sl, plus)
    az = None if ctx.flag(0.5) and e.shape[1] > 1 else ctx.uniform(0.0, 360.0)
    got = g.x_section_corner_points(axis, ref_slice0 = sl, plus_face = plus, rotate = True, azimuth = az)
    ctx.close(got[..., 2], e[..., 2], 'rotated-z', tol = 1.0e-6)
    ctx.close([got[..., 0].min(), got[..., 1].min()], [0.0, 0.0], 'rotated-origin', tol = 1.0e-6)
    d0 = np.linalg.norm(e.reshape(-1, 3)[:, None] - e.reshape(-1, 3)[None], axis = -1)
    d1 = np.linalg.norm(got.reshape(-1, 3)[:, None] - got.reshape(-1, 3)[None], axis = -1)
    ctx.close(d1, d0, 'rotated-rigid', tol = 1.0e-5)
    if az is not None:
        a = np.radians(az)
        u = np.array([np.sin(a), np.cos(a)])
        ex = e[..., :2] @ u
        ctx.close(got[..., 0], ex - ex.min(), 'rotated-azimuth', tol = 1.0e-5)
    else:
        first = np.mean(e[:, 0, :, 0, :2], axis = (0, 1))
        # most of the variation along the section is on x
        if e.shape[1] >= 2 and raw.kind == 'box' and not raw.split:
            ctx.close(np.ptp(got[..., 1]), 0.0, 'rotated-flat', tol = 1.0e-5)
        del first


def v_find_x_sect(ctx, raw, g, cp):
    """Any cell reported for a point in a cross section holds it; a cell's own middle is found in simple sections."""
    import resqpy.grid as grr
    if raw.cell_undefined is not None or raw.pinched:
        return
    axis = ctx.choice(['I', 'J'])
    if (raw.nj if axis == 'I' else raw.ni) < 2:
        return
    xs = g.x_section_corner_points(axis, ref_slice0 = 0, rotate = True)
    k, n = ctx.integer(0, xs.shape[0] - 1), ctx.integer(0, xs.shape[1] - 1)
    w = np.array([ctx.uniform(0.05, 0.95), ctx.uniform(0.05, 0.95)])
    c = xs[k, n]
    p = ((1 - w[0]) * ((1 - w[1]) * c[0, 0] + w[1] * c[0, 1]) + w[0] * ((1 - w[1]) * c[1, 0] + w[1] * c[1, 1]))
    r = grr.find_cell_for_x_sect_xz(xs, p[0], p[2])
    if r[0] is not None:
        q = xs[r[0], r[1]]
        poly = np.array([q[0, 0], q[0, 1], q[1, 1], q[1, 0]])[:, [0, 2]]
        ctx.check(inside(poly, p[0], p[2], -1.0e-6), 'x-sect-cell-wrong', got = r, expected = (k, n))


def inside(poly, x, y, margin):
    """True if point is inside polygon or within -margin of it (margin negative), or inside by more than margin."""
    n = len(poly)
    wn = False
    dmin = np.inf
    for a in range(n):
        p, q = poly[a], poly[(a + 1) % n]
        if (p[1] > y) != (q[1] > y):
            if x < p[0] + (y - p[1]) * (q[0] - p[0]) / (q[1] - p[1]):
                wn = not wn
        d = q - p
        l2 = float(d @ d)
        t = 0.0 if l2 == 0.0 else min(1.0, max(0.0, float((np.array([x, y]) - p) @ d) / l2))
        dmin = min(dmin, float(np.linalg.norm(p + t * d - np.array([x, y]))))
    if margin < 0.0:
        return wn or dmin <= -margin
    return wn and dmin > margin


def v_z_depths(ctx, raw, g, cp):
    got = g.z_corner_point_depths(order = 'cellular')
    ctx.close(unmask(got), cp[..., 2], 'z-cellular', tol = 1.0e-9)
    got = g.z_corner_point_depths(order = 'linear')
    ctx.close(unmask(got), np.transpose(cp[..., 2], (0, 3, 1, 4, 2, 5)), 'z-linear', tol = 1.0e-9)


def v_coord_lines(ctx, raw, g, cp):
    n = (raw.nj + 1) * (raw.ni + 1)
    e = np.stack((raw.points[0, :n], raw.points[-1, :n]), axis = 1).reshape((raw.nj + 1, raw.ni + 1, 2, 3))
    ctx.close(g.coordinate_line_end_points(), e, 'coordinate-lines', tol = 1.0e-9)


def v_pillars(ctx, raw, g, cp):
    ctx.equal(g.create_column_pillar_mapping(), raw.pfc, 'pillars-for-column')
    pj, pi = ctx.integer(0, raw.nj), ctx.integer(0, raw.ni)
    four = g.pillar_foursome((pj, pi), none_if_unsplit = False)
    split = any(e[0] == pj * (raw.ni + 1) + pi for e in raw.extras)
    for jp in range(2):
        for ip in range(2):
            j, i = pj - 1 + jp, pi - 1 + ip
            if 0 <= j < raw.nj and 0 <= i < raw.ni:
                ctx.check(four[jp, ip] == raw.pfc[j, i, 1 - jp, 1 - ip], 'foursome', pillar = (pj, pi), at = (jp, ip),
                          got = four)
    r = g.pillar_foursome((pj, pi), none_if_unsplit = True)
    ctx.check((r is None) == (not split), 'foursome-none')


def v_nearest_pillar(ctx, raw, g, cp):
    k, kp = ctx.integer(0, raw.nk - 1), ctx.integer(0, 1)
    prim = raw.points[raw.raw_k[k] + kp, :(raw.nj + 1) * (raw.ni + 1)].reshape((raw.nj + 1, raw.ni + 1, 3))
    if np.all(np.isnan(prim[..., 0])):
        return
    lo, hi = np.nanmin(prim[..., :2], axis = (0, 1)), np.nanmax(prim[..., :2], axis = (0, 1))
    xy = np.array([ctx.uniform(lo[0] - 50.0, hi[0] + 50.0), ctx.uniform(lo[1] - 50.0, hi[1] + 50.0)])
    d2 = np.sum((prim[..., :2] - xy)**2, axis = -1)
    ctx.close(g.pillar_distances_sqr(xy, ref_k0 = k, kp = kp), d2, 'pillar-distances', tol = 1.0e-3, rtol = 1.0e-9)
    j, i = g.nearest_pillar(xy, ref_k0 = k, kp = kp)
    ctx.close(d2[j, i], np.nanmin(d2), 'nearest-pillar', tol = 1.0e-3, rtol = 1.0e-9)


def v_boxes(ctx, raw, g, cp):
    lazy = ctx.flag(0.3)
    local = True
    got = np.array(g.xyz_box(lazy = lazy, local = local))
    full = np.array([np.nanmin(raw.points, axis = (0, 1)), np.nanmax(raw.points, axis = (0, 1))])
    if lazy and raw.cell_undefined is not None:
        pass
    elif lazy:
        ctx.check(np.all(got[0] >= full[0] - 1.0e-6) and np.all(got[1] <= full[1] + 1.0e-6) and np.all(got[0] <= got[1]),
                  'lazy-box', got = got, full = full)
    else:
        ctx.close(got, full, 'xyz-box', tol = 1.0e-9)
        ctx.close(g.xyz_box_centre(lazy = False, local = True), np.mean(full, axis = 0), 'xyz-box-centre', tol = 1.0e-7)
    cells = [pick_cell(ctx, raw) for _ in range(3)]
    if raw.cell_undefined is not None:
        cells = [c for c in cells if not raw.cell_undefined[c]]
    boxes = []
    for c in cells:
        e = np.array([np.min(cp[c], axis = (0, 1, 2)), np.max(cp[c], axis = (0, 1, 2))])
        b = g.bounding_box(c, cache_cp_array = ctx.flag(0.2))
        ctx.close(b, e, 'bounding-box', tol = 1.0e-9, cell = c)
        boxes.append(b)
    if boxes:
        e = np.array([np.min([b[0] for b in boxes], axis = 0), np.max([b[1] for b in boxes], axis = 0)])
        ctx.close(g.composite_bounding_box([b.copy() for b in boxes]), e, 'composite-box', tol = 1.0e-9)


def v_split_faces(ctx, raw, g, cp):
    ej = np.zeros((max(raw.nj - 1, 0), raw.ni), dtype = bool)
    ei = np.zeros((raw.nj, max(raw.ni - 1, 0)), dtype = bool)
    f = raw.pfc
    if raw.nj > 1:
        ej = np.any(f[:-1, :, 1, :] != f[1:, :, 0, :], axis = -1)
    if raw.ni > 1:
        ei = np.any(f[:, :-1, :, 1] != f[:, 1:, :, 0], axis = -1)
    sj, si = g.split_column_faces()
    if not raw.split:
        ctx.check(sj is None and si is None, 'split-faces-none')
    else:
        if raw.nj > 1:
            ctx.equal(sj, ej, 'split-faces-j')
        else:
            ctx.check(sj is None, 'split-faces-j-none')
        if raw.ni > 1:
            ctx.equal(si, ei, 'split-faces-i')
        else:
            ctx.check(si is None, 'split-faces-i-none')
    for j, i, ax, pol in np.ndindex(raw.nj, raw.ni, 2, 2):
        ax += 1
        got = bool(g.is_split_column_face(j, i, ax, pol))
        if ax == 1:
            jj = j if pol else j - 1
            exp = bool(ej[jj, i]) if 0 <= jj < raw.nj - 1 else False
        else:
            ii = i if pol else i - 1
            exp = bool(ei[j, ii]) if 0 <= ii < raw.ni - 1 else False
        ctx.check(got == exp, 'is-split-face', at = (j, i, ax, pol), got = got)


def v_fault_throws(ctx, raw, g, cp):
    """Throws between columns from split nodes."""
    if raw.cell_undefined is not None:
        return
    mode = ctx.choice(['maximum', 'mean', 'minimum'])
    simple = ctx.flag(0.6)
    apm = ctx.flag()
    got = g.fault_throws_per_edge_per_column(mode = mode, simple_z = simple, axis_polarity_mode = apm)
    e = np.zeros((raw.nj, raw.ni, 2, 2))
    f = raw.pfc

    def edge(pa, pb):
        """Throw of column using pillars pa relative to column using pb, +ve if a is deeper."""
        d = raw.points[:, pa] - raw.points[:, pb]  # (nkr + 1, 2, 3)
        t = d[..., 2] if simple else np.sign(d[..., 2]) * np.sqrt(np.sum(d * d, axis = -1))
        if mode == 'mean':
            return np.mean(t)
        lo, hi = np.mean(np.min(t, axis = 0)), np.mean(np.max(t, axis = 0))
        if abs(abs(lo) - abs(hi)) < 1.0e-9 and lo != hi:
            return None
        flip = abs(lo) > abs(hi)
        if mode == 'maximum':
            return lo if flip else hi
        return hi if flip else lo

    mask = np.ones(e.shape, dtype = bool)
    for j in range(raw.nj):
        for i in range(raw.ni):
            if j < raw.nj - 1:
                t = edge(f[j, i, 1, :], f[j + 1, i, 0, :])
                if t is None:
                    mask[j, i, 0, 1] = mask[j + 1, i, 0, 0] = False
                else:
                    e[j, i, 0, 1] = t
                    e[j + 1, i, 0, 0] = -t
            if i < raw.ni - 1:
                t = edge(f[j, i, :, 1], f[j, i + 1, :, 0])
                if t is None:
                    mask[j, i, 1, 1] = mask[j, i + 1, 1, 0] = False
                else:
                    e[j, i, 1, 1] = t
                    e[j, i + 1, 1, 0] = -t
    if not apm:
        ctx.check(got.shape == (raw.nj, raw.ni, 4), 'throw-shape')
        g2 = np.empty(e.shape)
        g2[:, :, 1, 0] = got[:, :, 0]
        g2[:, :, 0, 1] = got[:, :, 1]
        g2[:, :, 1, 1] = got[:, :, 2]
        g2[:, :, 0, 0] = got[:, :, 3]
        got = g2
    ctx.close(np.where(mask, got, 0.0), np.where(mask, e, 0.0), 'fault-throws', tol = 1.0e-6, mode = mode, simple = simple)


def v_interpolated(ctx, raw, g, cp):
    c = pick_cell(ctx, raw)
    if raw.cell_undefined is not None and raw.cell_undefined[c]:
        return

    def tri(f):
        r = np.zeros(3)
        for kp in range(2):
            for jp in range(2):
                for ip in range(2):
                    w = (f[0] if kp else 1 - f[0]) * (f[1] if jp else 1 - f[1]) * (f[2] if ip else 1 - f[2])
                    r += w * cp[c][kp, jp, ip]
        return r

    f = [ctx.choice([0.0, 1.0, ctx.uniform(0, 1)]) for _ in range(3)]
    ctx.close(g.interpolated_point(c, f), tri(f), 'interpolated-point', tol = 1.0e-6, frac = f)
    fs = [np.sort(ctx.rng.random(ctx.integer(1, 3))) for _ in range(3)]
    e = np.array([[[tri((a, b, d)) for d in fs[2]] for b in fs[1]] for a in fs[0]])
    ctx.close(g.interpolated_points(c, fs), e, 'interpolated-points', tol = 1.0e-6)


def v_poly_line(ctx, raw, g, cp):
    c = pick_cell(ctx, raw)
    ref = ctx.choice(['top', 'base'])
    got = g.poly_line_for_cell(c, vertical_ref = ref)
    if raw.cell_undefined is not None and raw.cell_undefined[c]:
        return
    kp = 0 if ref == 'top' else 1
    q = cp[c][kp]
    got = np.array(got)
    ctx.close(got, np.array([q[0, 0], q[0, 1], q[1, 1], q[1, 0]]), 'poly-line', tol = 1.0e-9)


def v_point_areally(ctx, raw, g, cp):
    tol = 0.001
    with np.errstate(invalid = 'ignore'):
        dj = np.any(np.abs(cp[:, :, :, :, 1] - cp[:, :, :, :, 0]) > tol, axis = -1)
        di = np.any(np.abs(cp[:, :, :, :, :, 1] - cp[:, :, :, :, :, 0]) > tol, axis = -1)
    layer = ~np.any(dj | di, axis = -1)  # (nk, nj, ni, kp)
    layer |= np.any(np.isnan(cp), axis = (4, 5, 6))
    e = np.all(layer, axis = -1)
    ctx.equal(np.asarray(g.point_areally()), e, 'point-areally')


def v_pixel_map(ctx, raw, g, cp):
    lo = np.nanmin(raw.points[..., :2], axis = (0, 1))
    hi = np.nanmax(raw.points[..., :2], axis = (0, 1))
    span = np.maximum(hi - lo, 1.0)
    w, h = ctx.integer(1, 12), ctx.integer(1, 12)
    whole = ctx.flag(0.5)
    if whole:
        # whole grid inside pixel rectangle with a margin
        dx, dy = span[0] / max(w - 3, 1) * 1.1, span[1] / max(h - 3, 1) * 1.1
        origin = lo - 1.2 * np.array((dx, dy))
        w, h = w + 5, h + 5
    else:
        dx, dy = span[0] / w * ctx.uniform(0.3, 1.2), span[1] / h * ctx.uniform(0.3, 1.2)
        origin = lo + span * np.array([ctx.uniform(-0.3, 0.6), ctx.uniform(-0.3, 0.6)])
    ref = ctx.choice(['top', 'base'])
    kp = 0 if ref == 'top' else 1
    k = ctx.integer(0, raw.nk - 1)
    allk = ctx.flag(0.4)
    o = tuple(origin) if ctx.flag() else tuple(origin) + (0.0,)
    pm = g.pixel_maps(o, w, h, dx, dy = dy, k0 = None if allk else k, vertical_ref = ref)
    ctx.check(pm.shape == (((raw.nk,) if allk else ()) + (h, w, 2)), 'pixel-shape', shape = pm.shape)
    if allk:
        pm = pm[k]
    margin = 1.0e-6 * max(dx, dy, span.max())
    polys = {}
    for j in range(raw.nj):
        for i in range(raw.ni):
            q = cp[k, j, i, kp, :, :, :2]
            if not np.any(np.isnan(q)):
                polys[j, i] = np.array([q[0, 0], q[0, 1], q[1, 1], q[1, 0]])
    hits = 0
    for row in range(h):
        for col in range(w):
            x, y = origin[0] + (col + 0.5) * dx, origin[1] + (row + 0.5) * dy
            sure = [c for c, p in polys.items() if inside(p, x, y, margin)]
            maybe = [c for c, p in polys.items() if inside(p, x, y, -margin)]
            got = tuple(int(v) for v in pm[row, col])
            hits += got[0] >= 0
            if got == (-1, -1):
                ctx.check(not sure, 'pixel-missed', pixel = (row, col), cells = sure, whole = whole)
            else:
                ctx.check(got in maybe, 'pixel-wrong', pixel = (row, col), got = got, cells = maybe)
    ctx.observe('pixels', w * h)
    ctx.observe('pixels in cells', hits)


def v_find_xy(ctx, raw, g, cp):
    """Any cell reported for a plan point holds that point; regular unfaulted layers find the cell."""
    if raw.cell_undefined is not None:
        return
    k = ctx.integer(0, raw.nk - 1)
    ref = ctx.choice(['top', 'base'])
    kp = 0 if ref == 'top' else 1
    j, i = ctx.integer(0, raw.nj - 1), ctx.integer(0, raw.ni - 1)
    q = cp[k, j, i, kp, :, :, :2]
    a, b = ctx.uniform(0.05, 0.95), ctx.uniform(0.05, 0.95)
    p = (1 - a) * ((1 - b) * q[0, 0] + b * q[0, 1]) + a * ((1 - b) * q[1, 0] + b * q[1, 1])
    r = g.find_cell_for_point_xy(p[0], p[1], k0 = k, vertical_ref = ref)
    if r[0] is not None:
        s = cp[k, r[0], r[1], kp, :, :, :2]
        ctx.check(inside(np.array([s[0, 0], s[0, 1], s[1, 1], s[1, 0]]), p[0], p[1], -1.0e-6), 'find-xy-wrong', got = r,
                  expected = (j, i))
    elif raw.kind == 'box' and not raw.split:
        ctx.fail('find-xy-missed', 'cell of regular layer not found', cell = (k, j, i), xy = p)
    r = g.find_cell_for_point_xy(1.0e7, 1.0e7, k0 = k, vertical_ref = ref)
    ctx.check(r == (None, None), 'find-xy-outside', got = r)


def v_edge_directions(ctx, raw, g, cp):
    """Consistent grids pass the check of edge directions."""
    if raw.cell_undefined is not None:
        return
    top, base = cp[0, :, :, 0, :, :, :2], cp[-1, :, :, 1, :, :, :2]
    dj = [s[:, :, 1, :] - s[:, :, 0, :] for s in (top, base)]
    di = [s[:, :, :, 1] - s[:, :, :, 0] for s in (top, base)]
    ok = np.all(np.sum(dj[0] * dj[1], axis = -1) >= 0.0) and np.all(np.sum(di[0] * di[1], axis = -1) >= 0.0)
    for s in range(2):
        ok = ok and np.all(np.sum(dj[s][1:] * dj[s][:-1], axis = -1) >= 0.0)
        ok = ok and np.all(np.sum(di[s][:, 1:] * di[s][:, :-1], axis = -1) >= 0.0)
    ctx.equal(bool(g.check_top_and_base_cell_edge_directions()), bool(ok), 'edge-directions')


def v_column(ctx, raw, g, cp):
    """Sizes and indices."""
    ctx.equal(tuple(int(x) for x in g.extract_extent_kji()), raw.extent, 'extent')
    ctx.equal(g.nk_plus_k_gaps, raw.nk + raw.n_gaps, 'nk-plus-gaps')
    n, after, idx = g.extract_k_gaps()
    ctx.check((n or 0) == raw.n_gaps, 'k-gaps')
    if raw.n_gaps:
        ctx.equal(np.asarray(after, dtype = bool), raw.gap_after, 'gap-after')
    ctx.equal(np.asarray(idx), raw.raw_k, 'raw-index')


def v_actual_pillar_shape(ctx, raw, g, cp):
    if raw.cell_undefined is not None:
        return
    got = g.actual_pillar_shape()
    p = raw.points
    d = p - p[:1]
    if np.all(np.abs(d[..., :2]) < 1.0e-9):
        ctx.check(got == 'vertical', 'pillar-shape', got = got, expected = 'vertical')
    else:
        # distance in plan from straight line between end points at the same z
        dz = p[-1, :, 2] - p[0, :, 2]
        if np.any(np.abs(dz) < 1.0e-3):
            return
        f = (p[..., 2] - p[0, :, 2]) / dz
        line = p[0] + f[..., np.newaxis] * (p[-1] - p[0])
        off = np.sum(np.abs(line - p)[..., :2], axis = -1).max()
        if off < 1.0e-6:
            ctx.check(got in ('straight', 'vertical'), 'pillar-shape', got = got, expected = 'straight')
        elif off > 0.5:
            ctx.check(got == 'curved', 'pillar-shape', got = got, expected = 'curved', off = off)


def gcs_pairs(gcs):
    return {frozenset(int(c) for c in p) for p in np.asarray(gcs.cell_index_pairs)}


def kelp_pairs(raw, kelp_0, kelp_1, axis = 'K'):
    """Pairs of cells either side of a curtain of faces, which extends the whole way along axis."""
    at = np.moveaxis(np.arange(raw.nk * raw.nj * raw.ni).reshape(raw.nk, raw.nj, raw.ni), 'KJI'.index(axis), 0)
    return ({frozenset((int(a[j, i]), int(a[j + 1, i]))) for j, i in kelp_0 for a in at} | {frozenset((int(a[j, i]), int(a[j, i + 1]))) for j, i in kelp_1 for a in at})


def check_face_sets(ctx, raw, g, exp, code, axis = 'K'):
    """Face set dictionary and connection sets of grid against {name: (j kelp, i kelp)}."""
    have = {str(k): (sorted(tuple(int(y) for y in x) for x in v[0]), sorted(tuple(int(y) for y in x) for x in v[1])) for k, v in g.face_set_dict.items()}
    ctx.equal(have, {k: (sorted(v[0]), sorted(v[1])) for k, v in exp.items()}, code, 'face set dictionary')
    ctx.equal([x.title for x in g.face_set_gcs_list], list(exp), code, 'titles of connection sets')
    for gcs, (j, i) in zip(g.face_set_gcs_list, exp.values()):
        ctx.equal(gcs.number_of_grids(), 1, code, 'grids')
        if j or i:
            ctx.equal(gcs_pairs(gcs), kelp_pairs(raw, j, i, axis), code, 'cells either side')
            ctx.equal(gcs.count, raw.extent['KJI'.index(axis)] * (len(j) + len(i)), code, 'count')
            ctx.equal(gcs.list_of_feature_names(strip = False), [gcs.title], code, 'feature name')


def i_throws(ctx):
    """Throws at faulted i faces."""
    face_sets(ctx, probe = True)


def face_sets(ctx, probe = False):
    """Column faces found at faults, listed in a table or traced along lines of pillars become the curtains of faces they name."""
    import pandas as pd
    raw, g, how = make(ctx)
    op = 'throws' if probe else ctx.choice(['faults', 'throws', 'table', 'pillars'])
    ctx.observe(op)
    ctx.sig(raw.describe(), how, op)
    f = raw.pfc
    sj = np.any(f[:-1, :, 1, :] != f[1:, :, 0, :], axis = -1)
    si = np.any(f[:, :-1, :, 1] != f[:, 1:, :, 0], axis = -1)
    if op == 'throws':
        if ctx.flag():
            g.find_faults()
        got = g.fault_throws()
        again = g.fault_throws()
        if not raw.split:
            ctx.check(got is None and again is None, 'throws', 'throws of unfaulted grid')
            return
        cp = raw.to_cp()
        ej = np.where(sj, np.mean(cp[:, 1:, :, :, 0, :, 2] - cp[:, :-1, :, :, 1, :, 2], axis = (-2, -1)), 0.0)
        ei = np.where(si, np.mean(cp[:, :, 1:, :, :, 0, 2] - cp[:, :, :-1, :, :, 1, 2], axis = (-2, -1)), 0.0)
        ctx.close(got[0], ej, 'throws', tol = 1.0e-6)
        if probe:
            ctx.close(got[1], ei, 'i-throws', tol = 1.0e-6)
        else:  # values at faulted i faces: see known finding
            ctx.check(np.all(got[1][:, ~si] == 0.0), 'throws', 'throw at i face which is not faulted')
        ctx.check(got[0] is again[0] and got[1] is again[1] and g.fault_throw_j is got[0], 'throws', 'kept throws')
        return
    if op == 'faults':
        before = ctx.flag(0.4)
        if before:
            g.find_faults()
        for _ in range(ctx.integer(1, 2)):
            g.find_faults(set_face_sets = True, create_organizing_objects_where_needed = True)
        if not raw.split:
            ctx.check(g.fault_dict is None and not g.face_set_dict and not g.face_set_gcs_list, 'faults', 'faults in unfaulted grid')
            return
        ctx.equal(g.fault_id_j > 0, sj, 'faults', 'faulted j faces')
        ctx.equal(g.fault_id_i > 0, si, 'faults', 'faulted i faces')
        # ids: neighbours in a row share an id
        if raw.ni > 1 and raw.nj > 1:
            both = sj[:, 1:] & sj[:, :-1]
            ctx.check(np.all(g.fault_id_j[:, 1:][both] == g.fault_id_j[:, :-1][both]), 'fault-ids', 'neighbouring j faces')
            both = si[1:] & si[:-1]
            ctx.check(np.all(g.fault_id_i[1:][both] == g.fault_id_i[:-1][both]), 'fault-ids', 'neighbouring i faces')
        exp = {}
        for n in sorted(set(g.fault_id_j[sj].tolist()) | set(g.fault_id_i[si].tolist())):
            exp['fault_%d' % n] = ([(int(a), int(b)) for a, b in zip(*np.where(g.fault_id_j == n))], [(int(a), int(b)) for a, b in zip(*np.where(g.fault_id_i == n))])
        ctx.observe('faults', len(exp))
        check_face_sets(ctx, raw, g, exp, 'faults')
    elif op == 'table':
        rows, exp = [], {}
        for name in ctx.subset(['f1', 'east', 'Z 9'], 1):
            kj, ki = [], []
            for _ in range(ctx.integer(1, 3)):
                ax = ctx.integer(1, 2)
                minus = ctx.flag()
                lo = np.array([0, ctx.integer(0, raw.nj - 1), ctx.integer(0, raw.ni - 1)])
                hi = np.array([raw.nk - 1, ctx.integer(lo[1], raw.nj - 1), ctx.integer(lo[2], raw.ni - 1)])
                letter = ('KJI' if ctx.flag() else 'ZYX')[ax]
                face = letter + ('-' if minus else ctx.choice(['', '+']))
                rows.append((name, lo[2] + 1, hi[2] + 1, lo[1] + 1, hi[1] + 1, 1, raw.nk + ctx.choice([0, 0, 5]), face.lower() if ctx.flag(0.2) else face))
                for j in range(lo[1], hi[1] + 1):
                    for i in range(lo[2], hi[2] + 1):
                        c = [j, i]
                        c[ax - 1] -= minus
                        if 0 <= c[ax - 1] < (raw.nj, raw.ni)[ax - 1] - 1:
                            (kj if ax == 1 else ki).append(tuple(int(x) for x in c))
            if ctx.flag(0.2):
                rows.append((name, 1, 1, 1, 1, 1, raw.nk, 'K+'))  # not part of a curtain
            exp[name] = (sorted(set(kj)), sorted(set(ki)))
        df = pd.DataFrame(rows, columns = ['name', 'i1', 'i2', 'j1', 'j2', 'k1', 'k2', 'face'])
        for _ in range(2):
            g.make_face_set_from_dataframe(df)
        if ctx.flag():
            g.set_face_set_gcs_list_from_dict(None, True)
        else:
            g.set_face_set_gcs_list_from_dict({k: (v[0], v[1]) for k, v in g.face_set_dict.items()}, True)
        check_face_sets(ctx, raw, g, exp, 'table')
    else:
        axis = 'K' if raw.split or np.any(raw.gap_after) or raw.cell_undefined is not None else ctx.choice(['K', 'J', 'I'])
        n0, n1 = {'K': (raw.nj, raw.ni), 'J': (raw.nk, raw.ni), 'I': (raw.nk, raw.nj)}[axis]
        ctx.observe('along ' + axis)
        lists = []
        for _ in range(ctx.integer(1, 3)):
            p = [(ctx.integer(0, n0), ctx.integer(0, n1)) for _ in range(ctx.integer(1, 4))]
            lists.append([np.array(x) for x in p])
        if ctx.flag(0.3):
            g.clear_face_sets()
        plus = ctx.flag()
        ref = ctx.integer(0, {'K': raw.nk, 'J': raw.nj, 'I': raw.ni}[axis] - 1)
        if axis == 'K':
            kw, flat = {}, None
        else:
            kw = {'axis': axis, 'projection': 'xz' if axis == 'J' else 'yz'}
            flat = raw.points.reshape(raw.nk + 1, raw.nj + 1, raw.ni + 1, 3)
            flat = flat[:, ref + plus] if axis == 'J' else flat[:, :, ref + plus]
            flat = flat[..., [0, 2] if kw['projection'] == 'xz' else [1, 2]]
            for x in (np.diff(flat[..., 1], axis = 0), np.diff(flat[..., 0], axis = 1)):
                if not (np.all(x > 1.0e-3) or np.all(x < -1.0e-3)):
                    raise Skip  # section seen folded, with pillars together or with layers pinched out
        try:
            d, full = g.make_face_sets_from_pillar_lists(lists, 'trace', ref_slice0 = ref, plus_face = plus, **kw)
        except AssertionError as e:
            if axis == 'K' or str(e) != 'failed to move':
                raise
            raise Skip  # refused for a few strongly sheared sections
        long = [x for x in lists if len(x) > 1]
        names = ['trace' + ('_line_%d' % (n + 1) if len(lists) > 1 else '') for n in range(len(long))]
        ctx.equal((list(d), list(full)), (names, names), 'pillars', 'names')
        exp = {}
        for name, line in zip(names, long):
            path = [tuple(int(y) for y in x) for x in full[name]]
            ctx.equal(path[0], tuple(int(y) for y in line[0]), 'pillars', 'start of trace')
            ctx.equal(path[-1], tuple(int(y) for y in line[-1]), 'pillars', 'end of trace')
            at = 0
            for x in line:  # visited in order
                x = tuple(int(y) for y in x)
                ctx.check(x in path[at:], 'pillars', 'pillar not on trace', pillar = x, path = path)
                at += path[at:].index(x)
            k0, k1 = set(), set()
            for (j0, i0), (j1, i1) in zip(path, path[1:]):
                ctx.equal(abs(j1 - j0) + abs(i1 - i0), 1, 'pillars', 'step of trace')
                if j0 == j1:
                    if 0 < j0 < n0:
                        k0.add((j0 - 1, min(i0, i1)))
                elif 0 < i0 < n1:
                    k1.add((min(j0, j1), i0 - 1))
            exp[name] = (sorted(k0), sorted(k1))
        ctx.observe('traced', len(exp))
        g.set_face_set_gcs_list_from_dict(None, True)
        check_face_sets(ctx, raw, g, exp, 'pillars', axis)


VIEWS = [
    v_corner_points, v_corner_points_cell, v_point, v_points_ref, v_centre, v_face_centre_all, v_split_horizon,
    v_split_horizons, v_horizon, v_unsplit, v_x_section, v_x_section_rotated, v_find_x_sect, v_z_depths, v_coord_lines,
    v_pillars, v_nearest_pillar, v_boxes, v_split_faces, v_fault_throws, v_interpolated, v_poly_line, v_point_areally,
    v_pixel_map, v_find_xy, v_edge_directions, v_column, v_actual_pillar_shape
]


def run_views(ctx, raw, g, how, n):
    cp = raw.to_cp()
    before = g.points_ref(masked = False).copy() if ctx.flag(0.5) else None
    order = [ctx.choice(VIEWS) for _ in range(n)]
    for v in order:
        ctx.log(v.__name__)
        v(ctx, raw, g, cp)
        ctx.observe('views')
    for v in (v_corner_points, v_points_ref):
        v(ctx, raw, g, cp)
    if before is not None:
        ctx.close(g.points_ref(masked = False), before, 'points-disturbed', tol = 0.0)
    ctx.sig(raw.describe(), how, [v.__name__ for v in order])


def views(ctx):
    raw, g, how = make(ctx)
    run_views(ctx, raw, g, how, 14)


def views_undefined(ctx):
    raw, g, how = make(ctx, undefined = True)
    run_views(ctx, raw, g, how, 8)


def dynamic(ctx):
    """Geometry replaced from a points property: no view still follows the former geometry."""
    import copy
    import resqpy.grid as grr
    import resqpy.model as rq
    import resqpy.property as rqp
    import resqpy.time_series as rts
    m = gen.model(ctx)
    raw = random_grid(ctx, growth = ctx.flag(0.4), inactive = False, gaps = False)
    uuid = raw.persist(m)
    ts = rts.TimeSeries(m, first_timestamp = '2001-01-01', title = 'dynamic')
    steps = ctx.integer(1, 3)
    for _ in range(1, steps):
        ts.extend_by_days(100)
    ts.create_xml()
    raws, actives, uuids, a_uuids = [], [], [], []
    timed = ctx.flag(0.6)
    for t in range(steps):
        r = copy.deepcopy(raw)
        scale = ctx.rng.uniform(0.7, 1.4, 2)[[0, 0, 1]]
        r.points = r.points * scale + ctx.rng.uniform(-50.0, 50.0, 3)
        if ctx.flag():  # compaction varying areally, the layering remaining in order
            f = 1.0 + 0.2 * np.sin(r.points[:1, :, 0] / 70.0)
            r.points[..., 2] = r.points[:1, :, 2] + (r.points[..., 2] - r.points[:1, :, 2]) * f
        a = ctx.rng.random(raw.extent) < 0.7
        r.inactive = ~a
        kw = dict(time_series_uuid = ts.uuid, time_index = t) if timed else dict(realization = t)
        p = rqp.Property.from_array(m, r.native_points(), 'made up', 'dynamic nodes', uuid, property_kind = 'length', indexable_element = 'nodes',
                                    points = True, **kw)
        b = rqp.Property.from_array(m, a.astype(np.int8), 'made up', 'ACTIVE', uuid, property_kind = 'active', discrete = True,
                                    indexable_element = 'cells', **kw)
        raws.append(r)
        actives.append(a)
        uuids.append(p.uuid)
        a_uuids.append(b.uuid)
    if ctx.flag():
        m.store_epc()
        m.h5_release()
        m = rq.Model(m.epc_file)
    g = grr.Grid(m, uuid = uuid)
    inactive = None if g.inactive is None else np.array(g.inactive)
    names = []
    for step in range(ctx.integer(1, 3)):
        for v in [ctx.choice(VIEWS) for _ in range(ctx.integer(0, 3))] + CACHING:
            if names:
                v(ctx, raws[t], g, raws[t].to_cp())
            else:
                v(ctx, raw, g, raw.to_cp())
        t = ctx.integer(0, steps - 1)
        set_inactive, set_time = ctx.flag(0.7), ctx.flag(0.7)
        if ctx.flag():
            kw = dict(points_property_uuid = uuids[t], active_property_uuid = a_uuids[t] if set_inactive else None)
        elif timed:
            kw = dict(time_index = t)
        else:
            kw = dict(realization = t)
        before = (g.time_index, g.time_series_uuid)
        g.set_cached_points_from_property(set_inactive = set_inactive, set_grid_time_index = set_time, **kw)
        names.append((t, set_inactive, set_time, sorted(kw)))
        if set_inactive:
            inactive = ~actives[t]
            ctx.equal(bool(g.all_inactive), bool(inactive.all()), 'dynamic-all-inactive')
        got = None if g.inactive is None else np.array(g.inactive)
        ctx.check((got is None or not got.any()) if inactive is None else np.array_equal(got, inactive), 'dynamic-inactive', 'inactive mask', steps = str(names))
        if not set_time:
            ctx.equal((g.time_index, g.time_series_uuid), before, 'dynamic-time', 'time of grid left alone')
        elif timed:
            ctx.equal((g.time_index, str(g.time_series_uuid)), (t, str(ts.uuid)), 'dynamic-time', 'time of grid')
        for v in [ctx.choice(VIEWS) for _ in range(6)] + CACHING:
            ctx.log(v.__name__)
            v(ctx, raws[t], g, raws[t].to_cp())
            ctx.observe('views')
        # measures which might have been cached before
        cp = raws[t].to_cp()
        other = gen.model(ctx, name = f'twin{step}.epc')
        twin = grr.Grid(other, uuid = raws[t].persist(other))
        for name in ('thickness', 'volume', 'pinched_out'):
            a, b = [np.asarray(getattr(x, name)(**({} if name == 'pinched_out' else {'cache_%s_array' % name: True}))) for x in (g, twin)]
            ctx.close(a.astype(float), b.astype(float), 'dynamic-measure', rtol = 1.0e-9, tol = 1.0e-7, measure = name, steps = str(names))
        ctx.observe('geometry_changes')
    # memory released: the stored geometry is read again
    h = grr.Grid(m, uuid = uuid)
    ctx.close(h.points_ref(masked = False), raw.native_points(), 'stored-points', tol = 1.0e-9)
    h.set_cached_points_from_property(points_property_uuid = uuids[0], set_inactive = False, set_grid_time_index = False)
    h.uncache_points()
    for v in [ctx.choice(VIEWS) for _ in range(3)] + [v_points_ref, v_corner_points]:
        v(ctx, raw, h, raw.to_cp())
    ctx.sig(raw.describe(), timed, names)


CACHING = [v_corner_points, v_points_ref, v_centre, v_boxes, v_unsplit]


def regular(ctx):
    """Regular grids offer the same views as the block shaped corner points they define."""
    import resqpy.grid as grr
    m = gen.model(ctx)
    n = tuple(ctx.integer(1, 4) for _ in range(3))
    d = np.array([ctx.uniform(1.0, 100.0) for _ in range(3)])
    origin = tuple(ctx.uniform(-500.0, 500.0) for _ in range(3))
    mesh = ctx.flag(0.5)
    g = grr.RegularGrid(m, extent_kji = n, dxyz = tuple(d), origin = origin, crs_uuid = m.crs_uuid,
                        set_points_cached = ctx.flag(0.5), as_irregular_grid = ctx.flag(0.3))
    cp = np.empty(n + (2, 2, 2, 3))
    for k in range(n[0]):
        for j in range(n[1]):
            for i in range(n[2]):
                for kp in range(2):
                    for jp in range(2):
                        for ip in range(2):
                            cp[k, j, i, kp, jp, ip] = np.array(origin) + d * np.array([i + ip, j + jp, k + kp])
    del mesh
    c = tuple(ctx.integer(0, x - 1) for x in n)
    for what in ctx.rng.permutation(6):
        if what == 0:
            ctx.close(g.corner_points(c), cp[c], 'regular-cell', tol = 1.0e-6)
        elif what == 1:
            ctx.close(g.corner_points(), cp, 'regular-corners', tol = 1.0e-6)
        elif what == 2:
            ctx.close(g.centre_point(c), np.mean(cp[c], axis = (0, 1, 2)), 'regular-centre', tol = 1.0e-6)
        elif what == 3:
            ctx.close(g.centre_point(), np.mean(cp, axis = (3, 4, 5)), 'regular-centres', tol = 1.0e-6)
        elif what == 4:
            box = g.xyz_box(lazy = ctx.flag(), local = True)
            e = np.array([np.min(cp, axis = (0, 1, 2, 3, 4, 5)), np.max(cp, axis = (0, 1, 2, 3, 4, 5))])
            ctx.close(box, e, 'regular-box', tol = 1.0e-6)
        else:
            p = g.points_ref(masked = False)
            ctx.check(p is not None and p.shape == (n[0] + 1, n[1] + 1, n[2] + 1, 3), 'regular-points-shape')
            ctx.close(p[:-1, :-1, :-1], cp[:, :, :, 0, 0, 0], 'regular-points', tol = 1.0e-6)
            ctx.close(p[1:, 1:, 1:], cp[:, :, :, 1, 1, 1], 'regular-points', tol = 1.0e-6)
    ctx.sig('regular', n)


SCENARIOS = [Scenario(views, 500), Scenario(views_undefined, 200), Scenario(regular, 120), Scenario(dynamic, 60), Scenario(face_sets, 160),
             Scenario(i_throws, 40, probe = 'C14-fault-throw-i')]
