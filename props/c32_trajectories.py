"""C32: well paths interpolate, convert and persist consistently."""

import numpy as np

from props.spec import spec
from rv import gen, gridgen, objects
from rv.core import Scenario, Skip

PROP = spec('C32')

KINDS = ['vertical', 'slant', 'horizontal', 'build', 'wrap', 'mixed', 'upward', 'plateau']
GX, GW = np.polynomial.legendre.leggauss(24)


def angles(ctx, kind, n):
    """Inclinations and azimuths in degrees."""
    r = ctx.rng
    if kind == 'vertical':
        return np.zeros(n), r.uniform(0.0, 360.0, n) if ctx.flag() else np.full(n, float(ctx.integer(0, 359)))
    if kind == 'slant':
        return np.full(n, ctx.uniform(1.0, 80.0)), np.full(n, ctx.uniform(0.0, 360.0))
    if kind == 'horizontal':
        return np.full(n, 90.0), ctx.uniform(0.0, 360.0) + np.cumsum(r.uniform(-30.0, 30.0, n))
    if kind == 'build':
        return np.linspace(0.0, ctx.uniform(30.0, 95.0), n), np.full(n, float(ctx.integer(0, 359)))
    if kind == 'wrap':
        inc = np.full(n, ctx.uniform(5.0, 60.0)) if ctx.flag() else r.uniform(0.0, 60.0, n)
        return inc, np.where(r.random(n) < 0.5, 0.0, 360.0)
    if kind == 'upward':
        return r.uniform(85.0, 150.0, n), ctx.uniform(0.0, 360.0) + np.cumsum(r.uniform(-20.0, 20.0, n))
    if kind == 'plateau':
        inc = np.repeat(r.uniform(0.0, 90.0, n), 2)[:n]
        az = np.repeat(ctx.uniform(0.0, 300.0) + r.uniform(0.0, 60.0, n), 2)[:n]
        return inc, az
    return np.clip(np.cumsum(r.uniform(-20.0, 30.0, n)), 0.0, 120.0), ctx.uniform(0.0, 360.0) + np.cumsum(r.uniform(-40.0, 40.0, n))


def arc(t1, t2):
    """Mean direction along the great circle arc from one unit tangent to another, by quadrature."""
    c = float(np.clip(np.dot(t1, t2), -1.0, 1.0))
    s = float(np.linalg.norm(np.cross(t1, t2)))
    th = np.arctan2(s, c)
    if th < 1.0e-9:
        return 0.5 * (t1 + t2)
    u = (t2 - c * t1) / s
    a = 0.5 * th * (GX + 1.0)
    return 0.5 * (GW @ (np.cos(a)[:, None] * t1 + np.sin(a)[:, None] * u))


def crs_of(ctx, m, same_units = None):
    import resqpy.crs as rqc
    kw = dict(z_inc_down = ctx.flag(0.6), xy_units = ctx.choice(['m', 'ft']))
    kw['z_units'] = kw['xy_units'] if same_units or ctx.flag(0.6) else ctx.choice(['m', 'ft'])
    if ctx.flag(0.3):
        kw.update(x_offset = float(ctx.integer(0, 5000)), y_offset = float(ctx.integer(0, 5000)))
    crs = rqc.Crs(m, title = 'crs', **kw)
    crs.create_xml()
    return crs, kw


def minimum_curvature(mds, inc, az, first, md_uom, kw):
    """Control points in the crs, metres internally."""
    i, a = np.radians(inc), np.radians(az)
    t = np.stack((np.sin(i) * np.sin(a), np.sin(i) * np.cos(a), np.cos(i)), axis = 1)  # east, north, down
    f = gen.LENGTH_M[md_uom]
    scale = np.array([f / gen.LENGTH_M[kw['xy_units']]] * 2 + [f / gen.LENGTH_M[kw['z_units']] * (1.0 if kw['z_inc_down'] else -1.0)])
    p = [np.array(first, dtype = float)]
    for k in range(1, len(mds)):
        p.append(p[-1] + (mds[k] - mds[k - 1]) * arc(t[k - 1], t[k]) * scale)
    return np.array(p)


def survey_path(ctx):
    """Minimum curvature from a deviation survey, through every way to make one."""
    import pandas as pd
    import resqpy.model as rq
    import resqpy.well as rqw
    m = gen.model(ctx, crs = False)
    epc = m.epc_file
    crs, kw = crs_of(ctx, m)
    n = ctx.integer(2, 9)
    kind = ctx.choice(KINDS)
    inc, az = angles(ctx, kind, n)
    if kind != 'wrap' and ctx.flag(0.7):
        az = az % 360.0
    if ctx.flag(0.3):
        inc, az = np.round(inc), np.round(az)
    md_uom = ctx.choice(['m', 'ft'])
    rad = ctx.flag(0.4)
    s = np.pi / 180.0 if rad else 1.0
    mds = np.cumsum(ctx.rng.uniform(5.0, 300.0, n))
    if ctx.flag():
        mds -= mds[0]
    first = tuple(ctx.uniform(-1000.0, 1000.0) for _ in range(3))
    datum = rqw.MdDatum(m, crs_uuid = crs.uuid, location = first, md_reference = 'kelly bushing', title = 'KB')
    datum.create_xml()
    title = gen.title(ctx) or 'well'
    how = ctx.choice(['arrays', 'frame', 'csv', 'space'])
    auom = 'rad' if rad else ctx.choice(['dega', 'deg', 'degrees'])
    ctx.log(dict(kind = kind, n = n, md_uom = md_uom, rad = rad, how = how, kw = kw, stored = None))
    if how == 'arrays':
        sv = rqw.DeviationSurvey(m, title = title, md_datum = datum, md_uom = md_uom, angle_uom = auom, measured_depths = mds, azimuths = az * s,
                                 inclinations = inc * s, first_station = first, is_final = ctx.flag())
    else:
        cols = ctx.choice([('MD', 'AZIM_GN', 'INCL', 'X', 'Y', 'Z'), ('depth', 'azi', 'deviation', 'e', 'n', 'tvd')])
        data = [mds, az * s, inc * s] + [np.concatenate(([v], ctx.rng.uniform(-9.0, 9.0, n - 1))) for v in first]
        order = list(ctx.rng.permutation(6))
        df = pd.DataFrame({cols[k]: data[k] for k in order})
        names = dict(zip(('md_col', 'azimuth_col', 'inclination_col', 'x_col', 'y_col', 'z_col'), cols))
        if cols[0] == 'MD' and ctx.flag():
            names = {}
        args = dict(md_datum = datum, md_uom = md_uom, angle_uom = auom, title = title, **names)
        if how == 'frame':
            if ctx.flag():
                df.index = np.arange(n) + 7
            sv = rqw.DeviationSurvey.from_data_frame(m, df, **args)
        else:
            f = ctx.path('survey.txt')
            cc = ctx.choice(['#', '!'])
            with open(f, 'w') as fp:
                fp.write(f'{cc} a survey, with comments\n')
                fp.write(df.to_csv(index = False, sep = ',' if how == 'csv' else ' '))
                fp.write(f'{cc} the end\n')
            sv = rqw.DeviationSurvey.from_ascii_file(m, f, comment_character = cc, space_separated_instead_of_csv = how == 'space', **args)
    stored = ctx.flag(0.7)

    def survey_is(d, code):
        ctx.equal(d.station_count, n, code, 'station count')
        ctx.equal(d.md_uom, md_uom, code, 'md units')
        ctx.equal(d.angles_in_degrees, not rad, code, 'angle units')
        ctx.close(d.measured_depths, mds, code, tol = 1.0e-9)
        ctx.close(d.azimuths, az * s, code, tol = 1.0e-9)
        ctx.close(d.inclinations, inc * s, code, tol = 1.0e-9)
        ctx.close(d.first_station, first, code, tol = 1.0e-6)
        ctx.equal(bool(d.is_final), bool(sv.is_final), code, 'whether final')
        ctx.equal(d.title, title.strip(), code, 'title')
        ctx.check(d.md_datum is not None and d.md_datum.is_equivalent(datum), code, 'survey has another datum')

    survey_is(sv, 'survey')
    if stored:
        sv.write_hdf5()
        sv.create_xml()
    exp = minimum_curvature(mds, inc, az, first, md_uom, kw)

    def path_is(t, code):
        ctx.equal(t.knot_count, n, code, 'knot count')
        ctx.close(t.measured_depths, mds, code, tol = 1.0e-9)
        ctx.close(t.control_points, exp, code, tol = 1.0e-4, rtol = 1.0e-6)
        ctx.close((t.start_md, t.finish_md), (mds[0], mds[-1]), code, tol = 1.0e-9)
        ctx.equal(t.md_uom, md_uom, code, 'md units')
        ctx.equal(str(t.crs_uuid), str(crs.uuid), code, 'crs of the path')
        ctx.check(t.md_datum.is_equivalent(datum), code, 'path has another datum')
        for k in range(n):
            if t.measured_depths[k] > t.start_md:
                ctx.close(t.xyz_for_md(t.measured_depths[k]), t.control_points[k], code, tol = 1.0e-6, rtol = 1.0e-9)

    tkw = dict(well_name = 'W') if ctx.flag() or not stored else {}
    t = rqw.Trajectory(m, deviation_survey = sv, set_tangent_vectors = ctx.flag(), **tkw)
    ctx.equal(t.title, 'W' if tkw else title.strip(), 'path-title', 'title of the path')
    path_is(t, 'minimum-curvature')
    survey_is(sv, 'survey-untouched')
    if not stored:
        t2 = rqw.Trajectory(m, well_name = 'other', mds = np.array([0.0, 1.0]), control_points = np.zeros((2, 3)), length_uom = 'm', md_datum = datum)
        t2.compute_from_deviation_survey(survey = sv, set_tangent_vectors = False)
        path_is(t2, 'recompute')
    else:
        t.write_hdf5()
        t.create_xml()
        m.store_epc()
        m2 = rq.Model(epc)
        t2 = rqw.Trajectory(m2, uuid = t.uuid)
        path_is(t2, 'path-reload')
        ctx.close(t2.tangent_vectors, t.tangent_vectors, 'path-reload', tol = 1.0e-9) if t.tangent_vectors is not None else None
        survey_is(rqw.DeviationSurvey(m2, uuid = sv.uuid), 'survey-reload')
        ctx.check(t2.deviation_survey is not None, 'survey-reload', 'path lost its survey')
        survey_is(t2.deviation_survey, 'survey-reload')
        t3 = rqw.Trajectory(m2, deviation_survey = t2.deviation_survey, well_name = 'again')
        path_is(t3, 'path-from-reloaded-survey')
    ctx.observe('paths from surveys')
    ctx.observe('stations', n)
    ctx.sig('survey', kind, md_uom, rad, how, kw['z_inc_down'], kw['xy_units'] == kw['z_units'], stored)


def knots(ctx, kind, n, down):
    r = ctx.rng
    d = r.uniform(5.0, 80.0, (n - 1, 3))
    if kind == 'vertical':
        d[:, :2] = 0.0
    elif kind == 'horizontal':
        d[:, 2] = 0.0
    elif kind == 'upward':
        d[:, 2] = -d[:, 2]
    elif kind == 'straight up':
        d[:, :2] = 0.0
        d[:, 2] = -d[:, 2]
    elif kind == 'mixed':
        d = r.uniform(-40.0, 80.0, (n - 1, 3))
    if not down:
        d[:, 2] = -d[:, 2]
    p = np.concatenate((np.zeros((1, 3)), np.cumsum(d, axis = 0))) + r.uniform(-500.0, 500.0, 3)
    return p


def tangent_oracle(p, weight):
    v = np.diff(p, axis = 0)
    ln = np.linalg.norm(v, axis = 1)
    w = v / (ln ** {'linear': 1, 'square': 2, 'cube': 3}[weight])[:, None]
    t = np.concatenate((v[:1], w[:-1] + w[1:], v[-1:]))
    return t / np.linalg.norm(t, axis = 1)[:, None]


def make_path(ctx, m, crs, kw, kind, n, p, mds, uom, datum):
    """The trajectory, by one of the ways to make it from known control points."""
    import pandas as pd
    import resqpy.well as rqw
    how = ctx.choice(['arrays', 'lists', 'frame', 'csv', 'space', 'wells csv'])
    tv = ctx.flag()
    args = dict(md_datum = datum, length_uom = uom, well_name = 'Well A', set_tangent_vectors = tv)
    if ctx.flag(0.3):
        args['md_domain'] = ctx.choice(['driller', 'logger'])
    if how == 'arrays':
        t = rqw.Trajectory(m, mds = mds, control_points = p, **args)
    elif how == 'lists':
        t = rqw.Trajectory(m, mds = list(mds), control_points = [tuple(x) for x in p] if ctx.flag() else p.tolist(), **args)
    else:
        df = pd.DataFrame({'X': p[:, 0], 'MD': mds, 'Z': p[:, 2], 'Y': p[:, 1]})
        if how == 'frame':
            if ctx.flag():
                df.index = np.arange(n) * 2 + 5
            t = rqw.Trajectory(m, data_frame = df, **args)
        else:
            f = ctx.path('path.txt')
            if how == 'wells csv':
                other = df.copy() * 1.5
                df['WELL_NAME'] = 'Well A'
                other['WELL_NAME'] = 'Well B'
                df = pd.concat([other, df]) if ctx.flag() else pd.concat([df, other])
                if ctx.flag(0.4):
                    df = df.sort_values('MD', kind = 'stable')
            with open(f, 'w') as fp:
                fp.write('# a comment\n' + df.to_csv(index = False, sep = ' ' if how == 'space' else ','))
            t = rqw.Trajectory(m, ascii_trajectory_file = f, survey_file_space_separated = how == 'space', **args)
    return t, how, args


def queries(ctx):
    """Positions, directions, inclinations, data frames, text files and reloading of paths with known control points."""
    import resqpy.model as rq
    import resqpy.well as rqw
    m = gen.model(ctx, crs = False)
    epc = m.epc_file
    crs, kw = crs_of(ctx, m)
    kind = ctx.choice(['vertical', 'horizontal', 'upward', 'straight up', 'slanted', 'mixed', 'mixed'])
    n = ctx.integer(2, 10)
    p = knots(ctx, kind, n, kw['z_inc_down'])
    uom = ctx.choice(['m', 'ft'])
    mds = np.concatenate(([0.0], np.cumsum(np.linalg.norm(np.diff(p, axis = 0), axis = 1)))) * ctx.choice([1.0, 1.0, 1.1])
    start = ctx.choice([0.0, ctx.uniform(1.0, 900.0)])
    mds += start
    loc = tuple(p[0]) if start == 0.0 else tuple(p[0] + ctx.rng.uniform(-50.0, 50.0, 3))
    datum = rqw.MdDatum(m, crs_uuid = crs.uuid, location = loc, title = 'd')
    datum.create_xml()
    t, how, args = make_path(ctx, m, crs, kw, kind, n, p, mds, uom, datum)
    ctx.log(dict(kind = kind, n = n, how = how, kw = kw, start = start))

    def ask(t, code):
        ctx.equal(t.knot_count, n, code, 'knot count')
        ctx.close(t.control_points, p, code, tol = 1.0e-6)
        ctx.close(t.measured_depths, mds, code, tol = 1.0e-6)
        ctx.close((t.start_md, t.finish_md), (mds[0], mds[-1]), code, tol = 1.0e-6)
        ctx.equal((t.md_uom, t.md_domain or None, t.title), (uom, args.get('md_domain'), 'Well A'), code, 'units, domain and title')
        ctx.equal(str(t.crs_uuid), str(crs.uuid), code, 'crs')
        md_all = np.array(t.measured_depths)
        for k in range(n):
            got = t.xyz_for_md(float(md_all[k]))
            ctx.check(got is not None, 'position-at-knot', 'no position at a knot')
            ctx.close(got, p[k] if k or not start else p[0], 'position-at-knot', tol = 1.0e-5)
        for _ in range(6):
            md = ctx.uniform(float(md_all[0]), float(md_all[-1]))
            ctx.close(t.xyz_for_md(md), [np.interp(md, mds, p[:, a]) for a in range(3)], 'position', tol = 1.0e-5)
            ctx.observe('positions')
        if start:
            f = ctx.uniform(0.0, 1.0)
            ctx.close(t.xyz_for_md(f * start), np.array(loc) + f * (p[0] - np.array(loc)), 'position-above', tol = 1.0e-5)
        ctx.check(t.xyz_for_md(float(md_all[-1]) + 0.1) is None and t.xyz_for_md(-0.1) is None, 'position-outside', 'position outside the path')
        v = np.diff(p, axis = 0)
        v = v * np.array([gen.LENGTH_M[kw['xy_units']]] * 2 + [gen.LENGTH_M[kw['z_units']] * (1.0 if kw['z_inc_down'] else -1.0)])
        ctx.close(t.inclinations(), np.degrees(np.arctan2(np.hypot(v[:, 0], v[:, 1]), v[:, 2])), 'inclination', tol = 1.0e-5)
        ctx.close(t.control_points, p, 'inclination', tol = 1.0e-6)
        cols = ctx.choice([{}, dict(md_col = 'depth', x_col = 'a', y_col = 'b', z_col = 'c'), dict(md_col = None)])
        df = t.dataframe(**cols)
        names = [cols.get('md_col', 'MD'), cols.get('x_col', 'X'), cols.get('y_col', 'Y'), cols.get('z_col', 'Z')]
        ctx.equal(list(df.columns), [c for c in names if c], 'dataframe', 'columns')
        ctx.close(df[names[1:]].values, p, 'dataframe', tol = 1.0e-6)
        if names[0]:
            ctx.close(df[names[0]].values, mds, 'dataframe', tol = 1.0e-6)

    ask(t, 'path')
    if args['set_tangent_vectors']:
        ctx.close(t.tangent_vectors, tangent_oracle(p, 'cube'), 'tangents', tol = 1.0e-6)
    else:
        ctx.check(t.tangent_vectors is None, 'tangents', 'tangents set though not requested')
    w = ctx.choice(['linear', 'square', 'cube'])
    if kind != 'mixed' or n > 2:
        force = ctx.flag()
        got = t.set_tangents(force = force, weight = w)
        ctx.close(got, tangent_oracle(p, w if force or not args['set_tangent_vectors'] else 'cube'), 'tangents', tol = 1.0e-6)
        ctx.check(got is t.tangent_vectors or np.array_equal(got, t.tangent_vectors), 'tangents', 'tangents not kept')
    f = ctx.path('out.txt')
    space = ctx.flag()
    t.write_to_ascii_file(f, space_separated_instead_of_csv = space)
    again = rqw.Trajectory(m, ascii_trajectory_file = f, survey_file_space_separated = space, **args)
    ask(again, 'text-file')
    t.write_hdf5()
    t.create_xml()
    m.store_epc()
    m2 = rq.Model(epc)
    t2 = rqw.Trajectory(m2, uuid = t.uuid)
    ask(t2, 'reload')
    ctx.close(t2.tangent_vectors, t.tangent_vectors, 'reload', tol = 1.0e-9) if t.tangent_vectors is not None else None
    ctx.check(t2.md_datum.is_equivalent(datum) and tuple(t2.md_datum.location) == tuple(np.array(loc)) or np.allclose(t2.md_datum.location, loc),
              'reload', 'datum changed')
    ctx.observe('paths')
    ctx.sig('queries', kind, how, kw['z_inc_down'], kw['xy_units'] == kw['z_units'], bool(start))


def bezier(p, t, k, u, ln):
    """Cubic Hermite curve point, written as a Bezier curve."""
    b = [p[k], p[k] + t[k] * ln / 3.0, p[k + 1] - t[k + 1] * ln / 3.0, p[k + 1]]
    while len(b) > 1:
        b = [(1.0 - u) * x + u * y for x, y in zip(b[:-1], b[1:])]
    return b[0]


def splined(ctx):
    """Splined trajectories pass through the knots of their source in order."""
    import resqpy.well as rqw
    m = gen.model(ctx, crs = False)
    epc = m.epc_file
    crs, kw = crs_of(ctx, m, same_units = True)
    kind = ctx.choice(['vertical', 'horizontal', 'upward', 'slanted', 'mixed'])
    n = ctx.integer(2, 7)
    p = knots(ctx, kind, n, kw['z_inc_down'])
    uom = kw['xy_units']
    start = ctx.choice([0.0, 10.0])
    mds = start + np.concatenate(([0.0], np.cumsum(np.linalg.norm(np.diff(p, axis = 0), axis = 1))))
    datum = rqw.MdDatum(m, crs_uuid = crs.uuid, location = tuple(p[0]))
    t = rqw.Trajectory(m, mds = mds, control_points = p, md_datum = datum, length_uom = uom, well_name = 'w', set_tangent_vectors = ctx.flag())
    had = None if t.tangent_vectors is None else t.tangent_vectors.copy()
    use, keep = ctx.flag(), ctx.flag()
    sub = ctx.integer(1, 4)
    seg = ctx.choice([None, ctx.uniform(5.0, 60.0)])
    deg = ctx.choice([None, 5.0, ctx.uniform(2.0, 40.0)])
    ctx.log(dict(kind = kind, n = n, use = use, sub = sub, seg = seg, deg = deg))
    s = t.splined_trajectory('smooth', min_subdivisions = sub, max_segment_length = seg, max_degrees_per_knot = deg, use_tangents_if_present = use,
                             store_tangents_if_calculated = keep)
    tv = had if had is not None and use else tangent_oracle(p, 'square')
    ctx.close(t.control_points, p, 'spline-source', tol = 0.0)
    if had is not None and (use or not keep):
        ctx.close(t.tangent_vectors, had, 'spline-source', tol = 0.0)
    elif keep:
        ctx.close(t.tangent_vectors, tv, 'spline-source', tol = 1.0e-9)
    else:
        ctx.check(t.tangent_vectors is None, 'spline-source', 'tangents kept though not requested')
    c = s.control_points
    ctx.check(c.shape == (s.knot_count, 3) and s.measured_depths.shape == (s.knot_count,), 'spline', 'counts of the spline differ')
    at = []
    for k in range(n):  # the knots, in order
        hits = [i for i in range(at[-1] + 1 if at else 0, len(c)) if np.allclose(c[i], p[k], rtol = 0.0, atol = 1.0e-9)]
        ctx.check(hits, 'spline', 'a knot is missing from the spline', knot = k)
        at.append(hits[0])
    ctx.check(at[0] == 0 and at[-1] == len(c) - 1, 'spline', 'the spline starts or ends elsewhere')
    for k in range(n - 1):
        ln = float(np.linalg.norm(p[k + 1] - p[k]))
        d = at[k + 1] - at[k]
        ctx.check(d >= sub, 'spline-subdivisions', 'fewer subdivisions than requested', got = d, sub = sub)
        if seg:
            ctx.check(d >= ln / seg - 1.0e-9, 'spline-subdivisions', 'segments longer than requested', got = d, length = ln, seg = seg)
        if deg:
            v = (p[k + 1] - p[k]) / ln
            turn = sum(np.degrees(np.arctan2(np.linalg.norm(np.cross(v, x)), np.dot(v, x))) for x in (tv[k], tv[k + 1]))
            ctx.check(d >= turn / deg - 1.0e-6, 'spline-subdivisions', 'knots turn more than requested', got = d, turn = turn, deg = deg)
        for i in range(1, d):
            ctx.close(c[at[k] + i], bezier(p, tv, k, i / d, ln), 'spline-curve', tol = 1.0e-6)
            ctx.observe('spline points')
    exp = s.start_md + np.concatenate(([0.0], np.cumsum(np.linalg.norm(np.diff(c, axis = 0), axis = 1))))
    ctx.close(s.measured_depths, exp, 'spline-mds', tol = 1.0e-6)
    ctx.close((s.start_md, s.finish_md), (start, exp[-1]), 'spline-mds', tol = 1.0e-6)
    ctx.equal((s.md_uom, str(s.crs_uuid), s.title), (uom, str(crs.uuid), 'smooth'), 'spline', 'units, crs and title')
    ctx.sig('spline', kind, n, use, had is not None, seg is None, deg is None)


def from_cells(ctx):
    """Paths through the centres of listed cells, also when listed by a well specification file."""
    import resqpy.well as rqw
    m = gen.model(ctx, crs = False)
    epc = m.epc_file
    crs, kw = crs_of(ctx, m, same_units = True)
    raw = gridgen.random_grid(ctx)
    g = raw.build(m, crs_uuid = crs.uuid)
    cp = raw.to_cp(raw.points)
    nk, nj, ni = cp.shape[:3]
    n = ctx.integer(1, 5)
    cells = np.array([(ctx.integer(0, nk - 1), ctx.integer(0, nj - 1), ctx.integer(0, ni - 1)) for _ in range(n)])
    _, ix = np.unique(cells, axis = 0, return_index = True)
    cells = cells[np.sort(ix)]
    centres = np.array([cp[tuple(c)].reshape(8, 3).mean(axis = 0) for c in cells])
    if np.isnan(centres).any() or (len(cells) > 1 and np.linalg.norm(np.diff(centres, axis = 0), axis = 1).min() < 0.1):
        raise Skip('degenerate')
    if abs(centres[0, 2]) < 0.1 or abs(centres[-1, 2]) < 0.1:
        raise Skip('end points coincide')
    mode = ctx.choice(['none', 'linear', 'square', 'cube'])
    uom = kw['xy_units']
    a = rqw.Trajectory(m, grid = g, cell_kji0_list = cells if ctx.flag() else cells.tolist(), spline_mode = mode, length_uom = uom, well_name = 'PROD',
                       crs_uuid = crs.uuid)
    f = ctx.path('wells.dat')
    order = list(ctx.rng.permutation(3))
    cols = [('IW', cells[:, 2] + 1), ('JW', cells[:, 1] + 1), ('L', cells[:, 0] + 1)]
    with open(f, 'w') as fp:
        for w in ctx.choice([['PROD'], ['OTHER', 'PROD'], ['PROD', 'OTHER']]):
            fp.write(f'WELLSPEC {w}\n' + ' '.join(cols[k][0] for k in order) + ' RADW\n')
            for r in range(len(cells)):
                fp.write(' '.join(str(1 if w == 'OTHER' else cols[k][1][r]) for k in order) + ' 0.3\n')
            fp.write('\n')
    b = rqw.Trajectory(m, grid = g, wellspec_file = f, spline_mode = mode, length_uom = uom, well_name = 'PROD', crs_uuid = crs.uuid)
    for t, code in ((a, 'cell-list'), (b, 'wellspec')):
        c = t.control_points
        ctx.check(c is not None, code, 'no path')
        at = -1
        for x in centres:
            hits = [i for i in range(at + 1, len(c)) if np.allclose(c[i], x, rtol = 1.0e-6, atol = 1.0e-5)]
            ctx.check(hits, code, 'the path misses the centre of a listed cell')
            at = hits[0]
        ctx.close(c[0], [centres[0][0], centres[0][1], 0.0], code, tol = 1.0e-5)
        ctx.close(c[-1, :2], centres[-1][:2], code, tol = 1.0e-5)
        if mode == 'none':
            ctx.equal(len(c), len(cells) + 2, code, 'knot count')
        ctx.equal(t.knot_count, len(c), code, 'knot count')
        ctx.close(t.measured_depths, np.concatenate(([0.0], np.cumsum(np.linalg.norm(np.diff(c, axis = 0), axis = 1)))), code, tol = 1.0e-5)
        ctx.close((t.start_md, t.finish_md), (0.0, t.measured_depths[-1]), code, tol = 1.0e-6)
        ctx.equal((t.md_uom, str(t.crs_uuid)), (uom, str(crs.uuid)), code, 'units and crs')
    ctx.observe('paths through cells', 2)
    ctx.sig('cells', n, mode, nk, nj, ni)


def ascii_wells(ctx):
    """A table of several wells makes one datum, feature, interpretation and path for each."""
    import pandas as pd
    import resqpy.model as rq
    import resqpy.organize as rqo
    import resqpy.well as rqw
    m = gen.model(ctx, crs = False)
    epc = m.epc_file
    crs, kw = crs_of(ctx, m)
    names = ctx.choice([['A1'], ['A1', 'A10'], ['W 1', 'W 2', 'w 1'], ['P-1', 'I-2', 'X']])
    space = ctx.flag(0.4) and not any(' ' in w for w in names)
    cols = ctx.choice([dict(), dict(well_col = 'HOLE', md_col = 'D', x_col = 'E', y_col = 'N', z_col = 'TVD')])
    c = [cols.get(k, d) for k, d in (('well_col', 'WELL'), ('md_col', 'MD'), ('x_col', 'X'), ('y_col', 'Y'), ('z_col', 'Z'))]
    truth, dfs = {}, []
    for w in names:
        n = ctx.integer(2, 6)
        p = knots(ctx, 'mixed', n, kw['z_inc_down'])
        mds = ctx.choice([0.0, ctx.uniform(1.0, 100.0)]) + np.concatenate(([0.0], np.cumsum(ctx.rng.uniform(5.0, 90.0, n - 1))))
        truth[w] = (mds, p)
        dfs.append(pd.DataFrame({c[0]: [w] * n, c[1]: mds, c[2]: p[:, 0], c[3]: p[:, 1], c[4]: p[:, 2]}))
    df = pd.concat(dfs)
    if ctx.flag(0.4):
        df = df.sort_values(c[1], kind = 'stable')
    f = ctx.path('wells.txt')
    with open(f, 'w') as fp:
        fp.write('# table\n' + df.to_csv(index = False, sep = ' ' if space else ','))
    uom, dom, drilled = ctx.choice(['m', 'ft']), ctx.choice([None, 'driller', 'logger']), ctx.flag()
    before = len(m.parts())
    fl, il, tl, dl = rqw.add_wells_from_ascii_file(m, crs.uuid if ctx.flag() else None, f, space_separated_instead_of_csv = space, length_uom = uom,
                                                   md_domain = dom, drilled = drilled, **cols)
    for x in (fl, il, tl, dl):
        ctx.equal(len(x), len(names), 'wells-lists', 'one object per well')
    m.store_epc()
    m2 = rq.Model(epc)
    ctx.equal(len(m2.parts()), before + 4 * len(names) + (0 if m2.h5_uuid() is None or before > 1 else 1), 'wells-parts',
              'number of parts') if before > 1 else None
    ctx.equal(sorted(t.title for t in tl), sorted(names), 'wells-lists', 'titles of the paths')
    for q in range(len(names)):
        w = tl[q].title
        mds, p = truth[w]
        for t, code in ((tl[q], 'wells'), (rqw.Trajectory(m2, uuid = tl[q].uuid), 'wells-reload')):
            ctx.close(t.control_points, p, code, tol = 1.0e-6)
            ctx.close(t.measured_depths, mds, code, tol = 1.0e-6)
            ctx.equal((t.md_uom, t.md_domain or None, str(t.crs_uuid)), (uom, dom, str(crs.uuid)), code, 'units, domain and crs')
            ctx.close(t.md_datum.location, p[0] if mds[0] == 0.0 else (p[0][0], p[0][1], 0.0), code, tol = 1.0e-6)
            ctx.check(t.wellbore_interpretation is not None and str(t.wellbore_interpretation.uuid) == str(il[q].uuid), code,
                      'path not related to its interpretation')
            wi = t.wellbore_interpretation
            ctx.equal(bool(wi.is_drilled), drilled, code, 'drilled')
            ctx.equal(str(wi.feature_uuid if wi.feature_uuid is not None else wi.wellbore_feature.uuid) if hasattr(wi, 'feature_uuid') else
                      str(wi.wellbore_feature.uuid), str(fl[q].uuid), code, 'feature of the well')
        ctx.equal(rqo.WellboreFeature(m2, uuid = fl[q].uuid).feature_name, w, 'wells-reload', 'feature name')
        ctx.equal(str(dl[q].uuid), str(tl[q].md_datum.uuid), 'wells', 'datum of the well')
    ctx.observe('wells read', len(names))
    ctx.sig('ascii', len(names), space, uom, dom, drilled)


def datum(ctx):
    """Datums: stored values, equivalence, and objects making their own datum from a location."""
    import resqpy.model as rq
    import resqpy.well as rqw
    m = gen.model(ctx, crs = False)
    epc = m.epc_file
    crs, kw = crs_of(ctx, m)
    other, _ = crs_of(ctx, m)
    refs = list(rqw._md_datum.valid_md_reference_list)
    ref = ctx.choice(refs)
    loc = tuple(ctx.uniform(-1000.0, 1000.0) * ctx.choice([1.0, 1000.0]) for _ in range(3))
    d = rqw.MdDatum(m, crs_uuid = crs.uuid, location = loc, md_reference = ref, title = 'a')
    d.create_xml()
    p = np.array([loc, (loc[0] + 5.0, loc[1] - 2.0, loc[2] + 100.0)])
    t = rqw.Trajectory(m, mds = np.array([0.0, 101.0]), control_points = p, md_datum = None, crs_uuid = crs.uuid, length_uom = 'm', well_name = 'x')
    ctx.check(t.md_datum is not None, 'own-datum', 'no datum')
    ctx.close(t.md_datum.location, loc, 'own-datum', tol = 1.0e-9)
    t.write_hdf5()
    if ctx.flag():
        t.md_datum = None
        t.create_xml(md_datum_xyz = loc)
    else:
        t.create_xml()
    sv = rqw.DeviationSurvey(m, title = 's', measured_depths = np.array([0.0, 10.0]), azimuths = np.zeros(2), inclinations = np.array([0.0, 1.0]),
                             first_station = loc, md_datum = d)
    sv.write_hdf5()
    sv.create_xml()
    m.store_epc()
    m2 = rq.Model(epc)
    d2 = rqw.MdDatum(m2, uuid = d.uuid)
    ctx.close(d2.location, loc, 'datum-reload', tol = 1.0e-6)
    ctx.equal((d2.md_reference, str(d2.crs_uuid), d2.title), (ref, str(crs.uuid), 'a'), 'datum-reload', 'datum changed')
    t2 = rqw.Trajectory(m2, uuid = t.uuid)
    ctx.close(t2.md_datum.location, loc, 'datum-reload', tol = 1.0e-6)
    ctx.equal(str(t2.md_datum.crs_uuid), str(crs.uuid), 'datum-reload', 'crs of the datum')
    ctx.close(rqw.DeviationSurvey(m2, uuid = sv.uuid).md_datum.location, loc, 'datum-reload', tol = 1.0e-6)
    same = rqw.MdDatum(m2, crs_uuid = crs.uuid, location = loc, md_reference = ref, title = 'b')
    ctx.check(d2.is_equivalent(same) and same.is_equivalent(d2) and same == d2, 'equivalence', 'equal datums differ')
    moved = list(loc)
    moved[ctx.integer(0, 2)] += ctx.choice([-1.0, 1.0]) * (1.0 + 0.001 * max(abs(v) for v in loc))
    if str(other.uuid) == str(crs.uuid):
        raise Skip('same crs')
    for x, what in ((rqw.MdDatum(m2, crs_uuid = crs.uuid, location = tuple(moved), md_reference = ref), 'location'),
                    (rqw.MdDatum(m2, crs_uuid = crs.uuid, location = loc, md_reference = ctx.choice([r for r in refs if r != ref])), 'reference'),
                    (rqw.MdDatum(m2, crs_uuid = other.uuid, location = loc, md_reference = ref), 'crs')):
        ctx.check(not d2.is_equivalent(x) and not x.is_equivalent(d2), 'equivalence', 'different datums taken for equal', what = what)
    ctx.observe('datums', 5)
    ctx.sig('datum', ref, kw['z_inc_down'])


SCENARIOS = [
    Scenario(survey_path, 50),
    Scenario(queries, 40),
    Scenario(splined, 30),
    Scenario(from_cells, 30),
    Scenario(ascii_wells, 20),
    Scenario(datum, 20),
]
