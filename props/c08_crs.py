"""C08: coordinate transforms."""

import numpy as np

from rv.core import Scenario, Skip
from rv import gen
from props.spec import spec

PROP = spec('C08')


def _points(ctx, scale = 20000.0):
    shape = ctx.choice([(1,), (7,), (2, 3), (2, 2, 2)])
    p = ctx.rng.uniform(-scale, scale, size = shape + (3,))
    if ctx.flag(0.2):
        p[...] = np.round(p)
    return p


def _tol(*arrays):
    return 1.0e-6 + 1.0e-9 * max(float(np.max(np.abs(a))) for a in arrays)


def _pair(ctx, n = 2, time = None):
    import resqpy.crs as rqc
    if time is None:
        time = ctx.flag(0.2)
    kws = [gen.crs_kwargs(ctx, time = time) for _ in range(n)]
    if ctx.flag(0.3):  # near copies differing in one aspect
        for i in range(1, n):
            kws[i] = dict(kws[0])
            k = ctx.choice(['z_inc_down', 'axis_order', 'x_offset', 'y_offset', 'z_offset', 'rotation', 'z_units', 'xy_units'] +
                           (['time_units', 'time_units'] if time else []))
            kws[i][k] = {
                'z_inc_down': not kws[0]['z_inc_down'],
                'axis_order': ctx.choice(list(gen.AXIS_ORDERS)),
                'x_offset': kws[0].get('x_offset', 0.0) + 100.0,
                'y_offset': kws[0].get('y_offset', 0.0) - ctx.choice([0.01, 50.0]),
                'z_offset': kws[0].get('z_offset', 0.0) - ctx.choice([0.01, 12.5]),
                'time_units': 's' if kws[0].get('time_units') == 'ms' else 'ms',
                'rotation': kws[0].get('rotation', 0.0) + 1.0,
                'z_units': ctx.choice(['m', 'ft']),
                'xy_units': ctx.choice(['m', 'ft'])
            }[k]
    m = gen.model(ctx, crs = False)
    cs = [rqc.Crs(m, title = f'crs {i}', **kw) for i, kw in enumerate(kws)]
    if ctx.flag(0.5):  # as stored in xml
        for i, c in enumerate(cs):
            c.create_xml(reuse = False)
            cs[i] = rqc.Crs(m, uuid = c.uuid)
    return m, kws, cs


def conversion(ctx):
    m, kws, cs = _pair(ctx)
    oa, ob = [gen.CrsOracle(kw) for kw in kws]
    a, b = cs
    p = _points(ctx)
    ctx.sig(kws[0], kws[1], p.shape)
    expected = oa.convert_to(ob, p)
    tol = _tol(p, expected)
    for o, c in ((oa, a), (ob, b)):
        ctx.check(c.is_right_handed_xyz() == o.handed(), 'handedness', 'xyz handedness', kws = kws)
    got = a.convert_array_to(b, p.copy())
    ctx.close(got, expected, 'array-to', tol = tol, kws = kws)
    q = p.copy()
    b.convert_array_from(a, q)
    ctx.close(q, expected, 'array-from-in-situ', tol = tol, kws = kws)
    q = p.copy()
    a.convert_array_to(b, q)
    ctx.close(q, expected, 'array-to-in-situ', tol = tol, kws = kws)
    fp, fe = p.reshape(-1, 3), expected.reshape(-1, 3)
    form = ctx.choice([tuple, list, np.array])
    for i in range(min(3, len(fp))):
        g = a.convert_to(b, form(fp[i]))
        ctx.check(isinstance(g, tuple) and len(g) == 3, 'tuple-form', 'convert_to returns tuple', got = g)
        ctx.close(g, fe[i], 'scalar-to', tol = tol, kws = kws)
        ctx.close(b.convert_from(a, form(fp[i])), fe[i], 'scalar-from', tol = tol, kws = kws)
        ctx.close(a.convert_from(b, b.convert_from(a, form(fp[i]))), fp[i], 'inverse', tol = tol * 100, kws = kws)
    back = b.convert_array_to(a, expected.copy())
    ctx.close(back, p, 'array-inverse', tol = tol * 100, kws = kws)
    ctx.close(a.convert_array_to(a, p.copy()), p, 'identity-array', tol = 0.0)
    ctx.close(a.convert_to(a, fp[0]), fp[0], 'identity', tol = 0.0)
    ctx.observe('points', p.size // 3)


def via_third(ctx):
    m, kws, cs = _pair(ctx, n = 3)
    p = _points(ctx)
    ctx.sig(kws)
    direct = cs[0].convert_array_to(cs[2], p.copy())
    via = cs[1].convert_array_to(cs[2], cs[0].convert_array_to(cs[1], p.copy()))
    ctx.close(via, direct, 'via-third', tol = 100 * _tol(p, direct) + 1.0e-8 * 1.0e6, kws = kws)
    ctx.observe('points', p.size // 3)


def global_frame(ctx):
    """local <-> implicit parent frame, with any axis order and z direction for the parent."""
    m, kws, cs = _pair(ctx, n = 1)
    c, kw = cs[0], kws[0]
    o = gen.CrsOracle(kw)
    g_order = ctx.choice(list(gen.AXIS_ORDERS))
    g_down = ctx.flag()
    p = _points(ctx)
    ctx.sig(kw, g_order, g_down)
    t = o.to_true(p)
    axes = np.array(gen.AXIS_ORDERS[g_order], dtype = float)
    g = np.empty(p.shape)
    g[..., :2] = t[..., :2] @ axes.T
    g[..., 2] = -t[..., 2] if g_down else t[..., 2]
    tol = _tol(p, g)
    q = p.copy()
    c.local_to_global_array(q, global_z_inc_down = g_down, global_axis_order = g_order)
    ctx.close(q, g, 'local-to-global-array', tol = tol, kw = kw, order = g_order)
    c.global_to_local_array(q, global_z_inc_down = g_down, global_axis_order = g_order)
    ctx.close(q, p, 'global-to-local-array', tol = tol, kw = kw, order = g_order)
    fp, fg = p.reshape(-1, 3), g.reshape(-1, 3)
    for i in range(min(3, len(fp))):
        ctx.close(c.local_to_global(tuple(fp[i]), global_z_inc_down = g_down, global_axis_order = g_order),
                  fg[i], 'local-to-global', tol = tol, kw = kw, order = g_order)
        ctx.close(c.global_to_local(tuple(fg[i]), global_z_inc_down = g_down, global_axis_order = g_order),
                  fp[i], 'global-to-local', tol = tol, kw = kw, order = g_order)


def equivalence(ctx):
    """is_equivalent implies the same frame; same definition implies equivalent; array conversion honours it."""
    import resqpy.crs as rqc
    m = gen.model(ctx, crs = False)
    kw = gen.crs_kwargs(ctx, time = ctx.flag(0.2))
    a = rqc.Crs(m, title = 'a', **kw)
    b = rqc.Crs(m, title = ctx.choice(['a', 'b']), **kw)
    ctx.check(a.is_equivalent(b) and b.is_equivalent(a), 'same-not-equivalent', kw = kw)
    ctx.check(a == b, 'same-not-equal', kw = kw)
    kw2 = dict(kw)
    k = ctx.choice(['z_inc_down', 'axis_order', 'x_offset', 'y_offset', 'z_offset', 'rotation', 'rotation_units', 'z_units',
                    'xy_units', 'epsg'] + (['time_units'] * 3 if 'time_units' in kw else []))
    if k == 'epsg':
        c = rqc.Crs(m, title = 'c', epsg_code = '23030', **kw)
        d = rqc.Crs(m, title = 'd', epsg_code = '23031', **kw)
        ctx.check(not c.is_equivalent(d) and not d.is_equivalent(c), 'different-epsg-equivalent')
        ctx.check(c.is_equivalent(rqc.Crs(m, title = 'e', epsg_code = '23030', **kw)), 'same-epsg-not-equivalent')
        ctx.check(c.has_same_epsg_code(d) is False and c.has_same_epsg_code(a), 'epsg-flag')
        ctx.sig(k, kw)
        return
    d = ctx.choice([0.01, 0.5, 1.0, 30.0, 100.0])
    kw2[k] = {
        'z_inc_down': not kw['z_inc_down'],
        'axis_order': ctx.choice([o for o in gen.AXIS_ORDERS if o != kw['axis_order']]),
        'x_offset': kw.get('x_offset', 0.0) + d,
        'y_offset': kw.get('y_offset', 0.0) - d,
        'z_offset': kw.get('z_offset', 0.0) + d,
        'rotation': kw.get('rotation', 0.0) + d,
        'rotation_units': ctx.choice([u for u in gen.ANGLE_DEG if u != kw.get('rotation_units', 'dega')]),
        'z_units': 'yd',
        'time_units': 's' if kw.get('time_units') == 'ms' else 'ms',
        'xy_units': 'yd'
    }[k]
    ctx.sig(k, kw, kw2)
    e = rqc.Crs(m, title = 'a', **kw2)
    oa, oe = gen.CrsOracle(kw), gen.CrsOracle(kw2)
    p = _points(ctx)
    exp = oa.convert_to(oe, p)
    differs = np.max(np.abs(exp - p)) > 1.0
    if differs:
        ctx.check(not a.is_equivalent(e), 'different-reported-equivalent', f'differs in {k}', kw = kw, kw2 = kw2)
        ctx.check(not e.is_equivalent(a), 'different-reported-equivalent', f'differs in {k}', kw = kw, kw2 = kw2)
    ctx.check(a.is_equivalent(e) == e.is_equivalent(a), 'asymmetric', kw = kw, kw2 = kw2)
    if not a.resqml_type != e.resqml_type:
        ctx.close(a.convert_array_to(e, p.copy()), exp, 'array-after-equivalence', tol = 0.01 + _tol(p, exp), kw = kw, kw2 = kw2)
    # depth and time frames are not interchangeable
    kt = {x: y for x, y in kw.items() if x != 'time_units'}
    if 'time_units' not in kw:
        kt['time_units'] = 'ms'
    t = rqc.Crs(m, title = 't', **kt)
    ctx.check(not a.is_equivalent(t), 'time-depth-equivalent')
    ctx.raises((AssertionError, ValueError), lambda: a.convert_to(t, (1.0, 2.0, 3.0)), 'time-depth-converted')
    ctx.raises((AssertionError, ValueError), lambda: t.convert_array_from(a, p.copy()), 'time-depth-converted')


def objects(ctx):
    """change_crs of point sets and surfaces and grid local/global conversion."""
    import resqpy.surface as rqs
    import resqpy.grid as grr
    m, kws, cs = _pair(ctx, time = False)
    for i, c in enumerate(cs):
        if c.root is None:
            c.create_xml(reuse = False)
    oa, ob = [gen.CrsOracle(kw) for kw in kws]
    kind = ctx.choice(['points', 'surface', 'grid'])
    ctx.sig(kind, kws)
    if kind == 'points':
        ps = rqs.PointSet(m, crs_uuid = cs[0].uuid, title = 'ps')
        patches = [ctx.rng.uniform(-3000, 3000, size = (ctx.integer(1, 6), 3)) for _ in range(ctx.integer(1, 3))]
        for q in patches:
            ps.add_patch(q.copy())
        p = np.concatenate(patches)
        exp = oa.convert_to(ob, p)
        ps.change_crs(cs[1])
        ctx.close(ps.full_array_ref(), exp, 'pointset', tol = 1e-4 + _tol(p, exp), kws = kws)
        ctx.check(str(ps.crs_uuid) == str(cs[1].uuid), 'pointset-crs-uuid')
    elif kind == 'surface':
        p = ctx.rng.uniform(-3000, 3000, size = (ctx.integer(4, 9), 3))
        t = np.array([(i, i + 1, i + 2) for i in range(len(p) - 2)])
        s = rqs.Surface(m, crs_uuid = cs[0].uuid, title = 's')
        s.set_from_triangles_and_points(t, p.copy())
        exp = oa.convert_to(ob, p)
        s.change_crs(cs[1])
        tt, pp = s.triangles_and_points()
        ctx.close(pp, exp, 'surface', tol = 1e-4 + _tol(p, exp), kws = kws)
        ctx.equal(tt, t, 'surface-triangles')
        ctx.check(str(s.crs_uuid) == str(cs[1].uuid), 'surface-crs-uuid')
    else:
        _grid_frame(ctx, m, dict(kws[0], rotation = 0.0), kws[0])


def _grid_frame(ctx, m, kw, kw_rotated = None):
    import resqpy.crs as rqc
    import resqpy.grid as grr
    # the grid form uses the axes of the crs as they are, so only compared for one axis order
    kw = dict(kw, axis_order = 'easting northing', z_units = ctx.choice(['m', 'ft']))
    c = rqc.Crs(m, title = 'grid crs', **kw)
    c.create_xml(reuse = False)
    o = gen.CrsOracle(kw)
    g = grr.RegularGrid(m, extent_kji = (2, 2, 2), dxyz = (10.0, 10.0, 5.0), crs_uuid = c.uuid, title = 'g')
    p = _points(ctx)
    exp = o.to_true(p)
    if kw['z_inc_down']:
        exp[..., 2] = -exp[..., 2]
    gu = ctx.choice([None, 'm', 'ft'])
    if gu is not None:
        exp *= np.array([o.xyf, o.xyf, o.zf]) / gen.LENGTH_M[gu]
    tol = 1e-4 + _tol(p, exp)
    args = dict(global_xy_units = gu, global_z_units = gu, global_z_increasing_downward = kw['z_inc_down'])
    q = p.copy()
    g.local_to_global_crs(q, crs_uuid = c.uuid, **args)
    ctx.close(q, exp, 'grid-local-to-global', tol = tol, kw = kw)
    g.global_to_local_crs(q, crs_uuid = c.uuid, **args)
    ctx.close(q, p, 'grid-global-to-local', tol = tol, kw = kw)
    if kw_rotated is not None:
        # with rotation as well: the two directions undo each other, and distances survive when units do
        cr = rqc.Crs(m, title = 'rotated', **dict(kw_rotated, axis_order = 'easting northing', z_units = kw_rotated['xy_units']))
        cr.create_xml(reuse = False)
        args['global_z_increasing_downward'] = ctx.choice([None, True, False])
        q = p.copy()
        g.local_to_global_crs(q, crs_uuid = cr.uuid, **args)
        fp, fq = p.reshape(-1, 3), q.reshape(-1, 3)
        f = 1.0 if gu is None else gen.LENGTH_M[kw_rotated['xy_units']] / gen.LENGTH_M[gu]
        ctx.close(np.linalg.norm(fq - fq[0], axis = -1), np.linalg.norm(fp - fp[0], axis = -1) * f, 'grid-rotation-rigid',
                  tol = 1e-3, rtol = 1e-6)
        g.global_to_local_crs(q, crs_uuid = cr.uuid, **args)
        ctx.close(q, p, 'grid-rotated-round-trip', tol = tol + 1e-3, kw = kw_rotated)


def grid_rotation_probe(ctx):
    m = gen.model(ctx, crs = False)
    _grid_frame(ctx, m, {'rotation': 30.0, 'rotation_units': 'dega', 'xy_units': 'm', 'z_inc_down': True})


SCENARIOS = [
    Scenario(conversion, 300),
    Scenario(via_third, 100),
    Scenario(global_frame, 200),
    Scenario(equivalence, 250),
    Scenario(objects, 200),
    Scenario(grid_rotation_probe, 2, probe = 'C08-grid-rotation'),
]
