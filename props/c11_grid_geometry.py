"""C11: irregular grid geometry through a dataset, and the reporting of undefined geometry."""

import numpy as np

from props.spec import spec
from rv import gen
from rv.core import Scenario, Skip
from rv.gridgen import random_grid, make_undefined

PROP = spec('C11')


def splits_of(g):
    """Canonical description of extra pillars: list of (primary, tuple of columns)."""
    if not g.has_split_coordinate_lines:
        return []
    out = []
    s = 0
    for p, e in zip(np.asarray(g.split_pillar_indices_cached).tolist(), np.asarray(g.cols_for_split_pillars_cl).tolist()):
        out.append((p, tuple(np.asarray(g.cols_for_split_pillars).tolist()[s:e])))
        s = e
    return out


def make_straight(ctx, raw):
    """Puts every pillar of a raw grid on a straight line parameterised by z, without horizontal or turning pillars."""
    p = raw.points
    n1 = p.shape[0]
    for q in range(p.shape[1]):
        z = np.sort(p[:, q, 2])
        if not raw_down(raw, p):
            z = z[::-1]
        if z[-1] - z[0] == 0.0:
            z = z + np.linspace(0.0, 1.0, n1)
        p[:, q, 2] = z
    # extra pillars share the line of their primary pillar
    nprim = (raw.nj + 1) * (raw.ni + 1)
    for e, (pind, cols) in enumerate(raw.extras):
        pass
    ends = {}
    for q in range(p.shape[1]):
        prim = q if q < nprim else raw.extras[q - nprim][0]
        if prim not in ends:
            ends[prim] = (p[0, prim].copy(), p[-1, prim].copy())
        a, b = ends[prim]
        f = (p[:, q, 2] - a[2]) / (b[2] - a[2])
        p[:, q, :2] = a[:2] + f[:, np.newaxis] * (b[:2] - a[:2])


def raw_down(raw, p):
    return np.nanmean(p[-1, :, 2] - p[0, :, 2]) >= 0.0


def persist(ctx):
    import resqpy.grid as grr
    import resqpy.model as rq
    import resqpy.crs as rqc
    import resqpy.olio.fine_coarse as fc
    import resqpy.time_series as rts
    m = gen.model(ctx, crs = False)
    zdown = ctx.flag(0.7)
    c = rqc.Crs(m, z_inc_down = zdown, xy_units = ctx.choice(['m', 'ft']), x_offset = 100.0 * ctx.integer(0, 2))
    c.create_xml()
    m.crs_uuid = c.uuid
    undefined = ctx.flag(0.4)
    lines = not undefined and ctx.flag(0.25)
    raw = random_grid(ctx, growth = ctx.flag(0.4), max_n = (5, 5, 5), undefined = undefined, z_inc_down = zdown, pinch = False if lines else None)
    if lines:
        make_straight(ctx, raw)
    title = gen.title(ctx)
    g = raw.build(m, title = title)
    if undefined:
        g.array_cell_geometry_is_defined = None
        g.geometry_defined_for_all_cells_cached = None
        g.geometry_defined_for_all_pillars_cached = None
        g.set_geometry_is_defined()
    elif ctx.flag(0.2):
        g.set_geometry_is_defined()
    inactive = None if raw.inactive is None else raw.inactive.copy()
    if undefined and raw.cell_undefined is not None:
        inactive = raw.cell_undefined | (inactive if inactive is not None else False)
    # optional extras
    ts = None
    if ctx.flag(0.2):
        ts = rts.TimeSeries(m, first_timestamp = '2001-01-01')
        for _ in range(ctx.integer(1, 4)):
            ts.extend_by_days(30)
        ts.create_xml()
        g.time_series_uuid = ts.uuid
        g.time_index = ctx.integer(0, ts.number_of_timestamps() - 1)
    meta = (gen.metadata(ctx) or {}) if ctx.flag(0.4) else {}
    parent = None
    link = None
    if ctx.flag(0.45):
        refine = ctx.flag()
        ratios, pext, origin, props = [], [], [], []
        rt = []
        for a in range(3):
            n = raw.extent[a]
            if refine:
                # this grid fine: split n into coarse slices
                form = ctx.choice(['one', 'const', 'vec'])
                if form == 'const' and n > 1:
                    divs = [d for d in range(1, n + 1) if n % d == 0]
                    d = ctx.choice(divs)
                    vec = [d] * (n // d)
                elif form == 'vec':
                    vec = []
                    left = n
                    while left:
                        v = ctx.integer(1, left)
                        vec.append(v)
                        left -= v
                else:
                    vec = [1] * n
                coarse_n = len(vec)
                other = coarse_n
            else:
                form = ctx.choice(['one', 'const', 'vec'])
                vec = [1] * n if form == 'one' else [ctx.integer(2, 3)] * n if form == 'const' else \
                    [ctx.integer(1, 3) for _ in range(n)]
                other = sum(vec)
            rt.append(vec)
            origin.append(ctx.integer(0, 2))
            pext.append(other + origin[-1] + ctx.integer(0, 2))
        box = np.array([origin, [o + (len(v) if refine else sum(v)) - 1 for o, v in zip(origin, rt)]], dtype = int)
        fine_ext = [sum(v) for v in rt]
        coarse_ext = [len(v) for v in rt]
        w = fc.FineCoarse(fine_ext, coarse_ext, within_coarse_box = box if refine else None, within_fine_box = None if refine else box)
        weights = [None] * 3
        for a in range(3):
            if len(set(rt[a])) == 1 and ctx.flag(0.8):
                w.set_constant_ratio(a)
            else:
                w.set_ratio_vector(a, np.array(rt[a], dtype = int))
            if refine and fine_ext[a] != coarse_ext[a] and ctx.flag(0.4):
                ws = []
                for v in rt[a]:
                    x = ctx.rng.uniform(0.5, 1.5, v)
                    ws.append(x / x.sum())
                w.set_proportions_list_of_vectors(a, ws)
                weights[a] = ws
            else:
                w.set_equal_proportions(a)
        pg = grr.RegularGrid(m, extent_kji = pext, crs_uuid = c.uuid, title = 'parent', dxyz = (10.0, 10.0, 1.0))
        pg.create_xml()
        g.set_parent(pg.uuid, refine, w)
        parent = pg
        link = (refine, rt, box, weights)
    how = ctx.choice(['write_hdf5', 'caches'])
    if lines:
        g.pillar_shape = 'straight'
    if how == 'write_hdf5':
        g.write_hdf5(use_parametric_lines = lines)
    else:
        g.write_hdf5_from_caches(m.h5_file_name(), mode = 'a', use_parametric_lines = lines)
    g.create_xml(use_parametric_lines = lines, extra_metadata = dict(meta))
    uuid = g.uuid
    expect_shape = g.pillar_shape
    ref = raw.native_points()
    ctx.log('raw', raw.describe(), 'lines', lines, 'link', link, 'how', how)
    for cycle in range(ctx.integer(1, 2)):
        if cycle == 0 and ctx.flag(0.2):
            m.store_epc()
        else:
            m.store_epc()
            m = rq.Model(ctx.path('m.epc'))
        if cycle == 0 and ctx.flag(0.2):  # copy to another model
            m.store_epc()
            m2 = rq.new_model(ctx.path('copy.epc'))
            m2.copy_all_parts_from_other_model(m, consolidate = False)
            m2.store_epc()
            m = rq.Model(ctx.path('copy.epc'))
        g2 = grr.any_grid(m, uuid = uuid) if ctx.flag(0.3) else grr.Grid(m, uuid = uuid)
        reads = ['points', 'splits', 'gaps', 'flags', 'inactive', 'cells', 'corner', 'parent', 'pillars']
        for what in [reads[i] for i in ctx.rng.permutation(len(reads))]:
            if what == 'points':
                if ctx.flag(0.3):
                    g2.cache_all_geometry_arrays()
                ctx.close(g2.points_ref(masked = False), ref, 'points', tol = 1.0e-6 if lines else 0.0, raw = raw.describe(),
                          lines = lines)
                mk = g2.points_ref(masked = True)
                ctx.equal(np.ma.getmaskarray(mk), np.isnan(ref), 'points-masked')
            elif what == 'splits':
                g2.cache_all_geometry_arrays()
                ctx.equal(bool(g2.has_split_coordinate_lines), raw.split, 'has-split')
                ctx.equal(splits_of(g2), [(p, tuple(cs)) for p, cs in raw.extras], 'split-pillars')
            elif what == 'gaps':
                ctx.equal(int(g2.k_gaps or 0), raw.n_gaps, 'k-gap-count')
                ctx.equal(np.asarray(g2.k_raw_index_array), raw.raw_k, 'k-raw-index')
                if raw.n_gaps:
                    ctx.equal(np.asarray(g2.k_gap_after_array, bool), raw.gap_after, 'k-gap-after')
                ctx.equal(g2.nk_plus_k_gaps, raw.nk + raw.n_gaps, 'nk-plus-gaps')
            elif what == 'flags':
                ctx.equal(tuple(int(x) for x in g2.extent_kji), raw.extent, 'extent')
                ctx.equal((int(g2.nk), int(g2.nj), int(g2.ni)), raw.extent, 'extent-nk-nj-ni')
                ctx.equal(bool(g2.k_direction_is_down), raw.k_down, 'k-direction')
                ctx.equal(bool(g2.grid_is_right_handed), raw.right_handed, 'handedness')
                ctx.equal(g2.pillar_shape, expect_shape, 'pillar-shape')
                ctx.equal(str(g2.crs_uuid), str(c.uuid), 'crs-uuid')
                ctx.equal(g2.citation_title, title, 'title')
                ctx.equal({k: str(v) for k, v in (g2.extra_metadata or {}).items()}, {k: str(v) for k, v in meta.items()},
                          'extra-metadata')
                ctx.equal(g2.time_index, None if ts is None else g.time_index, 'time-index')
                if ts is not None:
                    ctx.equal(str(g2.time_series_uuid), str(ts.uuid), 'time-series-uuid')
            elif what == 'inactive':
                im = g2.extract_inactive_mask()
                e = np.zeros(raw.extent, bool) if inactive is None else inactive
                ctx.equal(np.asarray(im, bool), e, 'inactive', raw = raw.describe())
                ctx.equal(bool(g2.all_inactive), bool(e.all()), 'all-inactive')
                ctx.equal(int(g2.cell_count(active_only = True)), int((~e).sum()), 'active-count')
                j, i = ctx.integer(0, raw.nj - 1), ctx.integer(0, raw.ni - 1)
                ctx.equal(bool(g2.column_is_inactive((j, i))), bool(e[:, j, i].all()), 'column-inactive')
            elif what == 'cells':
                check_cells(ctx, g2, raw)
            elif what == 'pillars':
                check_pillars(ctx, g2, raw)
            elif what == 'corner':
                k, j, i = [ctx.integer(0, n - 1) for n in raw.extent]
                if raw.cell_undefined is None or not raw.cell_undefined[k, j, i]:
                    ctx.close(g2.corner_points((k, j, i)), raw.to_cp()[k, j, i], 'corner-points', tol = 1.0e-6)
            elif what == 'parent':
                p = g2.extract_parent()
                if link is None:
                    ctx.check(p is None, 'spurious-parent')
                else:
                    check_link(ctx, g2, p, parent, link, raw)
    ctx.observe('undefined', int(undefined))
    ctx.observe('parametric-lines', int(lines))
    ctx.observe('parent-links', int(link is not None))
    ctx.sig(raw.describe(), undefined, lines, link is None or (link[0], link[1]), how)


def check_link(ctx, g2, p, parent, link, raw):
    import resqpy.olio.uuid as bu
    refine, rt, box, weights = link
    ctx.check(p is not None and bu.matching_uuids(p, parent.uuid), 'parent-uuid')
    w = g2.parent_window
    trivial = all(max(v) == 1 for v in rt)
    if not trivial:
        ctx.equal(bool(g2.is_refinement), refine, 'is-refinement')
        ctx.equal(tuple(int(x) for x in w.fine_extent_kji), tuple(sum(v) for v in rt), 'window-fine-extent')
        ctx.equal(tuple(int(x) for x in w.coarse_extent_kji), tuple(len(v) for v in rt), 'window-coarse-extent')
        b = w.within_coarse_box if refine else w.within_fine_box
        ctx.check(b is not None, 'window-box')
        ctx.equal(np.asarray(b), box, 'window-box')
        for a in range(3):
            ctx.equal([int(w.ratio(a, c)) for c in range(len(rt[a]))], list(rt[a]), 'window-ratios', axis = a, refine = refine)
            for c in range(len(rt[a])):
                e = weights[a][c] if weights[a] is not None else np.full(rt[a][c], 1.0 / rt[a][c])
                ctx.close(np.asarray(w.proportion(a, c)), e, 'window-proportions', tol = 1e-9)


def expected_cells(raw, points):
    return ~np.any(np.isnan(raw.to_cp(points)), axis = (3, 4, 5, 6))


def check_cells(ctx, g, raw, exp = None, tag = ''):
    if exp is None:
        exp = np.ones(raw.extent, bool) if raw.cell_undefined is None else ~raw.cell_undefined
    order = ['one', 'one-nocache', 'ref', 'all', 'all-nocache', 'count']
    for what in [order[i] for i in ctx.rng.permutation(len(order))][:4]:
        if what.startswith('one'):
            for _ in range(4):
                kji = tuple(ctx.integer(0, n - 1) for n in raw.extent)
                got = g.cell_geometry_is_defined(cell_kji0 = kji, cache_array = what == 'one')
                ctx.equal(bool(got), bool(exp[kji]), tag + 'cell-defined', message = str(kji), raw = raw.describe())
        elif what == 'ref':
            r = g.cell_geometry_is_defined_ref()
            r = np.ones(raw.extent, bool) if r is None else np.asarray(r, bool)
            ctx.equal(r, exp, tag + 'cells-defined-array', raw = raw.describe(), style = getattr(raw, 'undefined_style', None))
        elif what.startswith('all'):
            ctx.equal(bool(g.geometry_defined_for_all_cells(cache_array = what == 'all')), bool(exp.all()), tag + 'all-cells-defined',
                      message = what)
        else:
            ctx.equal(int(g.cell_count(geometry_defined_only = True)), int(exp.sum()), tag + 'count-defined')


def primary_defined(raw, points):
    n = (raw.nj + 1) * (raw.ni + 1)
    p = points.reshape((points.shape[0], -1, 3))[:, :n]
    return ~np.all(np.any(np.isnan(p), axis = -1), axis = 0).reshape((raw.nj + 1, raw.ni + 1))


def check_pillars(ctx, g, raw, points = None, tag = ''):
    points = raw.points if points is None else points
    exp = primary_defined(raw, points)
    extras_ok = True
    order = ['one', 'ref', 'all', 'all-nocache', 'raw']
    for what in [order[i] for i in ctx.rng.permutation(len(order))]:
        if what == 'one':
            for _ in range(4):
                ji = (ctx.integer(0, raw.nj), ctx.integer(0, raw.ni))
                got = g.pillar_geometry_is_defined(ji, cache_array = ctx.flag())
                ctx.equal(bool(got), bool(exp[ji]), tag + 'pillar-defined', message = str(ji), raw = raw.describe())
        elif what == 'ref':
            r = g.pillar_geometry_is_defined_ref()
            r = np.ones(exp.shape, bool) if r is None else np.asarray(r, bool)
            ctx.equal(r, exp, tag + 'pillars-defined-array')
        elif what.startswith('all'):
            n = (raw.nj + 1) * (raw.ni + 1)
            p = points.reshape((points.shape[0], -1, 3))[:, n:]
            if p.size and np.any(np.all(np.any(np.isnan(p), axis = -1), axis = 0)) and exp.all():
                continue  # only an extra pillar is undefined: the flag is about all pillars, the array about primaries
            got = g.geometry_defined_for_all_pillars(cache_array = what == 'all')
            ctx.equal(bool(got), bool(exp.all()), tag + 'all-pillars-defined', message = what)
        else:
            q = points if raw.split else points.reshape((points.shape[0], raw.nj + 1, raw.ni + 1, 3))
            for _ in range(6):
                idx = tuple(ctx.integer(0, n - 1) for n in q.shape[:-1])
                got = g.point_raw(index = idx, cache_array = ctx.flag())
                if np.any(np.isnan(q[idx])):
                    ctx.check(got is None or np.any(np.isnan(got)), tag + 'undefined-point-reported')
                else:
                    ctx.check(got is not None, tag + 'defined-point-not-reported', message = str(idx), raw = raw.describe())
                    ctx.close(got, q[idx], tag + 'point', tol = 1.0e-6)


def set_defined(ctx):
    """set_geometry_is_defined with its options, on a grid in memory."""
    m = gen.model(ctx)
    raw = random_grid(ctx, max_n = (4, 6, 6), undefined = True, k_down = True)
    raw.cell_undefined_orig = raw.cell_undefined
    g = raw.build(m)
    g.array_cell_geometry_is_defined = None
    g.geometry_defined_for_all_cells_cached = None
    g.geometry_defined_for_all_pillars_cached = None
    old_inactive = np.zeros(raw.extent, bool) if raw.inactive is None else raw.inactive.copy()
    pts = raw.points.copy()
    kw = {}
    if ctx.flag(0.25):
        kw['treat_as_nan'] = -999.25
        sel = np.isnan(g.points_cached).any(axis = -1) & (ctx.rng.random(g.points_cached.shape[:-1]) < 0.5)
        g.points_cached[sel] = ctx.choice([-999.25, -999.25])
    mode = ctx.choice(['none', 'none', 'partial', 'nullify', 'all', 'all-nullify'])
    if mode in ('partial',):
        kw['complete_partial_pillars'] = True
    if mode in ('nullify', 'all-nullify'):
        kw['nullify_partial_pillars'] = True
    if mode.startswith('all'):
        kw['complete_all'] = True
    was = expected_cells(raw, pts)
    if mode.startswith('all') and not was.any():
        raise Skip('nothing to extrapolate from')
    if mode in ('nullify', 'all-nullify'):
        q = pts.copy()
        q[:, np.any(np.isnan(q), axis = (0, 2))] = np.nan
        if not expected_cells(raw, q).any():
            raise Skip('nothing left after nullifying')
    ctx.log('raw', raw.describe(), raw.undefined_style, 'mode', mode)
    g.set_geometry_is_defined(**kw)
    got = g.points_ref(masked = False).reshape(pts.shape)
    nan = np.isnan(pts).any(axis = -1)
    partial = nan.any(axis = 0) & ~nan.all(axis = 0)
    exp = pts.copy()
    if mode == 'none':
        ctx.close(got, exp, 'points-changed', tol = 0.0)
    elif mode == 'nullify':
        exp[:, partial] = np.nan
        ctx.close(got, exp, 'nullified-points', tol = 0.0)
    else:
        keep = ~nan
        if mode == 'all-nullify':
            keep[:, partial] = False
        ctx.close(got[keep], pts[keep], 'defined-points-changed', tol = 0.0, mode = mode, raw = raw.describe(),
                  style = raw.undefined_style)
        if mode == 'partial':
            ctx.check(not np.any(np.isnan(got[:, partial])), 'partial-pillar-not-completed')
            ctx.check(np.all(np.isnan(got[:, nan.all(axis = 0)])), 'undefined-pillar-changed')
            # generated points lie between (or beyond, at the value of) the neighbouring defined points on the pillar
            for q in np.where(partial)[0]:
                d = np.where(~nan[:, q])[0]
                for k in np.where(nan[:, q])[0]:
                    lo, hi = d[d < k], d[d > k]
                    if len(lo) and len(hi):
                        a, b = lo[-1], hi[0]
                        f = (k - a) / (b - a)
                        e = pts[a, q] + f * (pts[b, q] - pts[a, q])
                    else:
                        e = pts[lo[-1], q] if len(lo) else pts[hi[0], q]
                    ctx.close(got[k, q], e, 'partial-pillar-interpolation', tol = 1.0e-6)
        else:
            ctx.check(not np.any(np.isnan(got)), 'completed-all-has-nan')
    now = expected_cells(raw, got)
    check_cells(ctx, g, raw, now, tag = mode + '-')
    check_pillars(ctx, g, raw, got, tag = mode + '-')
    # cells using generated points are inactive; inactive cells stay so
    e = old_inactive | ~was
    if mode in ('nullify', 'all-nullify'):
        q = pts.copy()
        q[:, partial] = np.nan
        e |= ~expected_cells(raw, q)
    im = np.zeros(raw.extent, bool) if getattr(g, 'inactive', None) is None else np.asarray(g.inactive, bool)
    ctx.equal(im, e, 'inactive-after-set', mode = mode, raw = raw.describe())
    ctx.observe('mode-' + mode)
    ctx.sig(raw.describe(), raw.undefined_style, mode, sorted(kw))


def areal_dots(ctx):
    """Cells with no areal extent have their points discarded when asked for."""
    m = gen.model(ctx)
    raw = random_grid(ctx, max_n = (4, 5, 5), min_n = (1, 3, 3), faults = False, kind = ctx.choice(['box', 'sheared']),
                      inactive = False, pinch = False, k_down = True)
    nk, nj, ni = raw.extent
    # collapse a set of cells areally: make pillars' points coincide in xy for chosen raw layers
    p = raw.points.reshape((-1, nj + 1, ni + 1, 3))
    k = ctx.integer(0, nk - 1)
    j, i = ctx.integer(0, nj - 1), ctx.integer(0, ni - 1)
    rows = [raw.raw_k[k], raw.raw_k[k] + 1]
    for r in rows:
        p[r, j:j + 2, i:i + 2, :2] = p[r, j, i, :2]
        p[r, j:j + 2, i:i + 2, 2] = p[r, j, i, 2]
    raw.points = p.reshape(raw.points.shape)
    g = raw.build(m)
    dots = np.zeros(raw.extent, bool)
    cp = raw.to_cp()
    dots = np.all(np.abs(cp - cp[:, :, :, :, :1, :1]) < 1e-9, axis = (3, 4, 5, 6))
    ctx.check(dots[k, j, i], 'generator')
    ctx.equal(np.asarray(g.point_areally()), dots, 'point-areally')
    g.set_geometry_is_defined(treat_dots_as_nan = True)
    got = g.points_ref(masked = False).reshape((-1, nj + 1, ni + 1, 3))
    want = np.zeros(got.shape[:-1], bool)
    for kk, jj, ii in np.argwhere(dots):
        for r in (raw.raw_k[kk], raw.raw_k[kk] + 1):
            want[r, jj:jj + 2, ii:ii + 2] = True
    exp = p.copy()
    exp[want] = np.nan
    ctx.close(got, exp, 'dot-points', tol = 0.0, dots = np.argwhere(dots), gaps = raw.raw_k)
    check_cells(ctx, g, raw, expected_cells(raw, exp.reshape(raw.points.shape)), tag = 'dots-')
    ctx.sig(raw.extent, k, j, i, raw.n_gaps)


def k_direction(ctx):
    """Direction of k from the points, and pillar shape from the points."""
    import resqpy.crs as rqc
    m = gen.model(ctx, crs = False)
    zdown = ctx.flag()
    c = rqc.Crs(m, z_inc_down = zdown)
    c.create_xml()
    m.crs_uuid = c.uuid
    raw = random_grid(ctx, max_n = (4, 3, 3), z_inc_down = zdown, pinch = False, undefined = False)
    g = raw.build(m)
    g.k_direction_is_down = None
    ctx.equal(bool(g.set_k_direction_from_points()), raw.k_down, 'k-direction-from-points')
    ctx.equal(bool(g.k_direction_is_down), raw.k_down, 'k-direction-attribute')
    if not np.any(np.isnan(raw.points)):
        p = raw.points
        # straightness by distance of points from the line between pillar ends
        a, b = p[0], p[-1]
        vertical = np.all(np.abs(p[..., :2] - a[..., :2]) < 1.0e-9)
        d = b - a
        f = np.einsum('kqx,qx->kq', p - a, d) / np.maximum(np.sum(d * d, axis = -1), 1e-30)
        off = np.abs(p - (a + f[..., np.newaxis] * d)).max()
        got = g.actual_pillar_shape(patch_metadata = ctx.flag())
        if vertical:
            ctx.equal(got, 'vertical', 'pillar-shape-vertical')
        elif off < 1.0e-7:
            ctx.check(got in ('straight', 'vertical'), 'pillar-shape-straight', got = got)
        elif off > 0.5:
            ctx.equal(got, 'curved', 'pillar-shape-curved')
    ctx.sig(raw.describe(), zdown)


def inactive_sources(ctx):
    """Which cells are inactive follows from undefined geometry together with the stored flags."""
    import resqpy.grid as grr
    import resqpy.model as rq
    import resqpy.property as rqp
    import resqpy.time_series as rts
    m = gen.model(ctx)
    raw = random_grid(ctx, undefined = ctx.flag(0.6), inactive = False)
    g = raw.build(m, crs_uuid = m.crs_uuid, title = 'grid')
    if raw.cell_undefined is not None:
        g.array_cell_geometry_is_defined = None
        g.geometry_defined_for_all_cells_cached = None
        g.geometry_defined_for_all_pillars_cached = None
        g.set_geometry_is_defined()
    exp = np.zeros(raw.extent, bool) if raw.cell_undefined is None else raw.cell_undefined.copy()
    ts = rts.TimeSeries(m, first_timestamp = '2001-01-01')
    ts.extend_by_days(30)
    ts.create_xml()
    timed = ctx.flag(0.3)
    if timed:
        g.time_series_uuid, g.time_index = ts.uuid, ctx.integer(0, 1)
    g.write_hdf5()
    g.create_xml(write_active = False)
    how = ctx.choice(['none', 'active', 'active', 'legacy', 'several'])
    mask = ctx.rng.random(raw.extent) < ctx.choice([0.2, 0.6, 1.0])

    def active(a, **kw):
        rqp.Property.from_array(m, (~a).astype(np.int8), 'made up', 'ACTIVE', g.uuid, property_kind = 'active', discrete = True, indexable_element = 'cells', **kw)

    if how == 'active':
        active(mask)
        exp |= mask
    elif how == 'legacy':
        rqp.Property.from_array(m, mask.astype(np.int8), 'made up', 'INACTIVE', g.uuid, property_kind = 'code', facet_type = 'what', facet = 'inactive', discrete = True, indexable_element = 'cells')
        exp |= mask
    elif how == 'several':
        masks = [ctx.rng.random(raw.extent) < 0.4 for _ in range(2)]
        for x in ctx.rng.permutation(3):
            if x < 2:
                active(masks[x], time_series_uuid = ts.uuid, time_index = int(x))
            elif not timed:
                active(mask)
        exp |= masks[g.time_index] if timed else mask
    m.store_epc()
    m.h5_release()
    g2 = grr.any_grid(rq.Model(m.epc_file), uuid = g.uuid)
    got = np.zeros(raw.extent, bool) if g2.inactive is None else np.asarray(g2.inactive, bool)
    info = dict(how = how, timed = timed, undefined = raw.cell_undefined is not None)
    ctx.check(np.array_equal(got, exp), 'inactive-sources', 'as opened', got = got.astype(int), exp = exp.astype(int), **info)
    ctx.check(np.array_equal(np.asarray(g2.extract_inactive_mask(), bool), exp), 'inactive-sources', 'extracted', **info)
    ctx.equal(bool(g2.all_inactive), bool(exp.all()), 'all-inactive')
    ctx.equal(int(g2.cell_count(active_only = True)), int((~exp).sum()), 'active-count')
    ctx.sig(raw.extent, how, timed, int(exp.sum()))
    ctx.observe('inactive by ' + how)


SCENARIOS = [
    Scenario(persist, 320),
    Scenario(inactive_sources, 60),
    Scenario(set_defined, 240),
    Scenario(areal_dots, 60),
    Scenario(k_direction, 80),
]
