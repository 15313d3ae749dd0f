"""C34: wellbore frames, markers and logs keep depths aligned with their data."""

import numpy as np

from props.spec import spec
from rv import gen
from rv.core import Scenario, Skip

PROP = spec('C34')

UNITS = ['m', 'ft', '%', 'Euc', 'g/cm3', 'gAPI', 'mD', 'psi', 'degC', 'us/ft', 'ohm.m']
KINDS = {
    'fault': 'GeologicBoundaryKind', 'geobody': 'GeologicBoundaryKind', 'horizon': 'GeologicBoundaryKind', 'gas down to': 'FluidMarker',
    'gas up to': 'FluidMarker', 'oil down to': 'FluidMarker', 'oil up to': 'FluidMarker', 'water down to': 'FluidMarker',
    'water up to': 'FluidMarker', 'free water contact': 'FluidContact', 'gas oil contact': 'FluidContact',
    'gas water contact': 'FluidContact', 'seal': 'FluidContact', 'water oil contact': 'FluidContact'}


def well(ctx, m, name = 'W1', n = None):
    """Stored trajectory of straight segments, with its knots."""
    import resqpy.crs as rqc
    import resqpy.well as rqw
    crs = rqc.Crs(m, title = 'crs', z_inc_down = ctx.flag(0.7), xy_units = 'm', z_units = 'm')
    crs.create_xml()
    n = n or ctx.integer(2, 5)
    step = ctx.rng.uniform(50.0, 400.0, n)
    d = ctx.rng.normal(size = (n, 3)) * np.array([0.4, 0.4, 0.1]) + np.array([0.0, 0.0, 1.0 if crs.z_inc_down else -1.0])
    d /= np.linalg.norm(d, axis = 1)[:, None]
    xyz = np.concatenate((np.zeros((1, 3)), np.cumsum(d * step[:, None], axis = 0)))
    xyz += np.array([ctx.uniform(-500.0, 500.0), ctx.uniform(-500.0, 500.0), ctx.choice([0.0, 100.0])])
    mds = ctx.choice([0.0, 25.0]) + np.concatenate(([0.0], np.cumsum(step)))
    datum = rqw.MdDatum(m, crs_uuid = crs.uuid, location = tuple(xyz[0]), md_reference = 'kelly bushing')
    datum.create_xml()
    import pandas as pd
    df = pd.DataFrame(dict(MD = mds, X = xyz[:, 0], Y = xyz[:, 1], Z = xyz[:, 2]))
    t = rqw.Trajectory(m, well_name = name, md_datum = datum, data_frame = df, length_uom = 'm')
    t.write_hdf5()
    t.create_xml()
    return t, crs, mds, xyz


def depths(ctx, lo, hi, n):
    style = ctx.choice(['random', 'even', 'clustered', 'integer'])
    if style == 'even':
        return np.linspace(lo, hi, n)
    if style == 'integer' and int(hi) - int(lo) > n + 1:
        return np.sort(ctx.rng.choice(np.arange(int(lo) + 1, int(hi)), size = n, replace = False)).astype(float)
    if style == 'clustered':
        a = lo + (hi - lo) * np.sort(ctx.rng.random(n))**3
        return np.unique(np.round(a, 4)) if len(np.unique(np.round(a, 4))) == n else np.linspace(lo, hi, n)
    return np.sort(ctx.rng.uniform(lo, hi, n))


def logs(ctx):
    """Curves of a frame, in memory, from the dataset and through LAS."""
    import lasio
    import resqpy.model as rq
    import resqpy.organize as rqo
    import resqpy.property as rqp
    import resqpy.well as rqw
    m = gen.model(ctx, crs = False)
    t, crs, k_md, _ = well(ctx, m)
    n = ctx.choice([2, 3, 7, 40, 200])
    mds = depths(ctx, float(k_md[0]), float(k_md[-1]), n)
    given = ctx.choice(['interp', 'create', 'none'])
    interp = None
    if given == 'interp':
        f = rqo.WellboreFeature(m, feature_name = 'feature')
        f.create_xml()
        interp = rqo.WellboreInterpretation(m, title = 'wi', wellbore_feature = f)
        interp.create_xml()
    md = gen.metadata(ctx, 0.3)
    if ctx.flag(0.3):  # another frame on the same well
        o = rqw.WellboreFrame(m, trajectory = t, mds = depths(ctx, float(k_md[0]), float(k_md[-1]), 4), title = 'other')
        o.write_hdf5()
        o.create_xml()
        o.extract_log_collection().add_log('Z9', np.arange(4.0), 'm')
    form = ctx.choice(['array', 'list', 'tuple'])
    fr = rqw.WellboreFrame(m, trajectory = t, mds = {'array': mds.copy(), 'list': mds.tolist(), 'tuple': tuple(mds)}[form], represented_interp = interp,
                           title = 'frame', extra_metadata = md or None)
    if given == 'create':
        fr.create_feature_and_interpretation()
    fr.write_hdf5()
    fr.create_xml()
    title = {'interp': 'wi', 'create': 'frame'}.get(given)
    curves = {}
    ctx.sig(n, given, form)
    lc = fr.extract_log_collection() if ctx.flag() else rqp.WellLogCollection(frame = fr)
    names = ctx.subset(['GR', 'NPHI', 'porosity', 'RHOB 2', 'facies', 'depth', 'Sw_1', 'KLOGH'], ctx.integer(0, 5))
    writer = ctx.flag(0.6)
    for name in names:
        discrete = ctx.flag(0.3)
        a = ctx.rng.integers(0, 20, n) if discrete else ctx.rng.normal(size = n) * 10.0**ctx.integer(-3, 5)
        if not discrete and ctx.flag(0.3):
            a[ctx.rng.random(n) < 0.3] = np.nan
        unit = 'Euc' if discrete else ctx.choice(UNITS)
        r = ctx.choice([None, None, 0, 3])
        got = lc.add_log(name, a.tolist() if ctx.flag(0.3) else a.copy(), unit, discrete = discrete, realization = r, write = writer,
                         source_info = 'made')
        if writer:
            ctx.equal(len(got), 1, 'add-log', 'uuids returned')
        else:
            ctx.check(got is None, 'add-log', 'nothing returned when not written')
        curves[name] = (a, unit, discrete, r)
    if not writer and names:
        lc.write_hdf5_for_imported_list()
        lc.create_xml_for_imported_list_and_add_parts_to_model()
    ctx.raises(ValueError, lambda: lc.add_log('bad', np.zeros(n + 1), 'm'), 'length-mismatch')
    side = None
    if ctx.flag(0.5):
        side = ctx.rng.random(n - 1)
        rqp.Property.from_array(m, side, 'made', 'interval thing', fr.uuid, property_kind = 'length', uom = 'm', indexable_element = 'intervals')
    if ctx.flag(0.5):
        compare_logs(ctx, fr.extract_log_collection(refresh = True), curves, mds, 'refreshed-')
    m.store_epc()
    m2 = rq.Model(m.epc_file)
    fr2 = rqw.WellboreFrame(m2, uuid = fr.uuid)
    ctx.equal(fr2.node_mds, mds, 'mds')
    ctx.equal(fr2.node_count, n, 'count')
    ctx.equal(str(fr2.trajectory.uuid), str(t.uuid), 'trajectory')
    ctx.equal(str(fr2.extract_crs_uuid()), str(crs.uuid), 'crs')
    ctx.equal(None if fr2.wellbore_interpretation is None else fr2.wellbore_interpretation.title, title, 'interpretation')
    lc2 = ctx.choice([fr2.extract_log_collection, lambda: fr2.logs, lambda: rqp.WellLogCollection(frame = fr2)])()
    compare_logs(ctx, lc2, curves, mds, '')
    for r in (0, 3):
        e = sorted(k for k, c in curves.items() if c[3] == r)
        s = rqp.WellLogCollection(frame = fr2, realization = r)
        ctx.equal(sorted(x.title for x in s.iter_logs()), e, 'realization')
    pc = fr2.extract_property_collection()
    e = sorted(list(curves) + (['interval thing'] if side is not None else []))
    ctx.equal(sorted(pc.titles()), e, 'all-properties')
    if side is not None:
        ctx.equal(pc.single_array_ref(citation_title = 'interval thing'), side, 'interval-values')
    if title is None or not curves:
        return
    las = lc2.to_las()
    path = ctx.path('out.las')
    with open(path, 'w') as f:
        las.write(f, version = ctx.choice([1.2, 2.0]), fmt = '%.9g')
    ctx.observe('las')
    back = lasio.read(path)
    ctx.equal(str(back.well['WELL'].value), title, 'las-well')
    keys = [c.mnemonic for c in back.curves]
    ctx.equal(keys[0], 'MD', 'las-first')
    ctx.equal(back.curves[0].unit, 'm', 'las-md-unit')
    ctx.close(back.curves[0].data, mds, 'las-mds', rtol = 1.0e-8, tol = 1.0e-7)
    ctx.equal(sorted(k.lower() for k in keys[1:]), sorted(k.lower() for k in curves), 'las-curves')
    for k, (a, unit, _, _) in curves.items():
        c = [x for x in back.curves if x.mnemonic.lower() == k.lower()][0]
        ctx.close(np.array(c.data, dtype = float), a.astype(float), 'las-values', rtol = 1.0e-8, tol = 1.0e-12)
        ctx.equal(c.unit, '' if curves[k][2] else unit, 'las-unit')


def from_las(ctx):
    """Curves of a LAS file added to a trajectory have the depths, values and units of the file."""
    import lasio
    import resqpy.model as rq
    import resqpy.organize as rqo
    import resqpy.property as rqp
    import resqpy.well as rqw
    import resqpy.well.well_object_funcs as rqwo
    m = gen.model(ctx, crs = False)
    t, crs, k_md, _ = well(ctx, m)
    feature = rqo.WellboreFeature(m, feature_name = 'well of file')
    feature.create_xml()
    interp = rqo.WellboreInterpretation(m, title = 'well of file', wellbore_feature = feature)
    interp.create_xml()
    t.wellbore_interpretation = interp
    n = ctx.choice([2, 5, 30])
    mds = depths(ctx, float(k_md[0]), float(k_md[-1]), n)
    du = ctx.choice(['m', 'M', 'ft', 'FT'])
    f = 1.0 if du.lower() == 'm' else 0.3048
    las = lasio.LASFile()
    las.well['WELL'] = lasio.HeaderItem('WELL', value = t.wellbore_interpretation.title)
    las.append_curve('DEPT', mds / f, unit = du)
    curves = {}
    for name in ctx.subset(['GR', 'NPHI', 'PORO', 'RHOB', 'DT', 'SW'], ctx.integer(1, 4)):
        a = ctx.rng.normal(size = n) * 10.0**ctx.integer(-3, 4)
        if ctx.flag(0.4):
            a[ctx.rng.random(n) < 0.3] = np.nan
        unit = ctx.choice(UNITS)
        las.append_curve(name, a, unit = unit)
        curves[name] = (a, unit, False, None)
    path = ctx.path('in.las')
    with open(path, 'w') as fp:
        las.write(fp, version = 2.0, fmt = '%.12g')
    r = ctx.choice([None, None, 2])
    curves = {k: (a, u, d, r) for k, (a, u, d, _) in curves.items()}
    before = set(str(u) for u in m.uuids())
    ctx.sig(n, du, len(curves), r)
    lc, fr = rqwo.add_las_to_trajectory(lasio.read(path), t, realization = r, check_well_name = ctx.flag())
    m.store_epc()
    m2 = rq.Model(m.epc_file)
    fr2 = rqw.WellboreFrame(m2, uuid = fr.uuid)
    for x in (fr, fr2):
        ctx.close(x.node_mds, mds, 'las-in-mds', rtol = 1.0e-9, tol = 1.0e-6, unit = du, md_uom = t.md_uom)
        ctx.equal(str(x.trajectory.uuid), str(t.uuid), 'las-in-trajectory')
        ctx.equal(x.wellbore_interpretation.title, t.wellbore_interpretation.title, 'las-in-interpretation')
    ctx.equal(len(set(str(u) for u in m2.uuids(obj_type = 'ContinuousProperty')) - before), len(curves), 'las-in-count')
    for c in (lc, fr2.extract_log_collection()):
        ctx.equal(sorted(x.title for x in c.iter_logs()), sorted(curves), 'las-in-titles')
        for x in c.iter_logs():
            a, unit, _, _ = curves[x.title]
            ctx.close(np.asarray(x.values(), dtype = float), a, 'las-in-values', rtol = 1.0e-9, tol = 1.0e-12)
            p = rqp.Property(m2, uuid = x.uuid)
            ctx.equal(p.realization(), r, 'las-in-realization')
    ctx.observe('las curves added', len(curves))

def compare_logs(ctx, lc, curves, mds, code):
    ctx.observe(code + 'curves', len(curves))
    got = {x.title: x for x in lc.iter_logs()}
    ctx.equal(sorted(got), sorted(curves), code + 'titles')
    for k, (a, unit, discrete, r) in curves.items():
        v = got[k].values()
        ctx.close(np.array(v, dtype = float), a.astype(float), code + 'values', tol = 0.0)
        ctx.equal(got[k].uom, 'Euc' if discrete and got[k].uom is not None else (None if discrete else unit), code + 'unit')
        p = lc.part_for_uuid(got[k].uuid) if hasattr(lc, 'part_for_uuid') else lc.model.part_for_uuid(got[k].uuid)
        ctx.equal(bool(lc.continuous_for_part(p)), not discrete, code + 'continuous')
        ctx.equal(lc.realization_for_part(p), r, code + 'realization-of')
        ctx.equal(lc.indexable_for_part(p), 'nodes', code + 'indexable')
    df = lc.to_df()
    ctx.equal(np.array(df.index, dtype = float) if len(curves) else mds, mds, code + 'df-index')
    ctx.equal(sorted(df.columns), sorted(curves), code + 'df-columns')
    for k, c in curves.items():
        ctx.close(np.array(df[k], dtype = float), c[0].astype(float), code + 'df-values', tol = 0.0)
    df = lc.to_df(include_units = True)
    e = sorted(k + (f' ({got[k].uom})' if got[k].uom else '') for k in curves)
    ctx.equal(sorted(df.columns), e, code + 'df-units')


def frame_intervals(ctx):
    """Lookup of intervals by depth."""
    import resqpy.well as rqw
    m = gen.model(ctx, crs = False)
    t, _, k_md, _ = well(ctx, m)
    n = ctx.integer(2, 12)
    mds = depths(ctx, float(k_md[0]), float(k_md[-1]), n)
    fr = rqw.WellboreFrame(m, trajectory = t, mds = mds, title = 'f')
    ctx.sig(n)
    ask = np.concatenate((mds, 0.5 * (mds[1:] + mds[:-1]), ctx.rng.uniform(mds[0] - 50.0, mds[-1] + 50.0, 20), [mds[0] - 1.0e-9, mds[-1] + 1.0e-9]))
    for d in ask:
        i, f = fr.interval_for_md(d)
        ctx.observe('lookups')
        if d < mds[0]:
            ctx.equal((i, f), (-1, 0.0), 'above')
        elif d > mds[-1]:
            ctx.equal((i, f), (-1, 1.0), 'below')
        else:
            ctx.check(0 <= i < n - 1 and mds[i] <= d <= mds[i + 1], 'interval', 'depth within interval', d = d, i = i)
            ctx.close(mds[i] + f * (mds[i + 1] - mds[i]), d, 'fraction', tol = 1.0e-7)


def interpretations(ctx, m):
    """Boundary interpretations by kind."""
    import resqpy.organize as rqo
    out = {'fault': [], 'horizon': [], 'geobody': []}
    for kind in out:
        for i in range(ctx.integer(0, 3)):
            name = f'{kind} {i}'
            if kind == 'fault':
                f = rqo.TectonicBoundaryFeature(m, kind = 'fault', feature_name = 'feature of ' + name)
                f.create_xml()
                o = rqo.FaultInterpretation(m, title = name, tectonic_boundary_feature = f, is_normal = True)
            else:
                f = rqo.GeneticBoundaryFeature(m, kind = kind if kind == 'horizon' else 'geobody boundary', feature_name = 'feature of ' + name)
                f.create_xml()
                if kind == 'horizon':
                    o = rqo.HorizonInterpretation(m, title = name, genetic_boundary_feature = f)
                else:
                    o = rqo.GeobodyBoundaryInterpretation(m, title = name, genetic_boundary_feature = f)
            o.create_xml()
            out[kind].append((name, o.uuid))
    return out


def along(k_md, xyz, md):
    return np.array([np.interp(md, k_md, xyz[:, a]) for a in range(3)]).T


def markers(ctx):
    """Marker frames made directly or from a table."""
    import pandas as pd
    import resqpy.model as rq
    import resqpy.well as rqw
    m = gen.model(ctx, crs = False)
    t, crs, k_md, xyz = well(ctx, m)
    known = interpretations(ctx, m)
    n = ctx.integer(1, 8)
    mds = depths(ctx, float(k_md[0]), float(k_md[-1]), n)
    if ctx.flag(0.3):  # markers listed in some order other than depth
        mds = ctx.rng.permutation(mds)
    rows = []
    table = ctx.flag()
    with_interp = ctx.flag(0.85)
    creating = ctx.flag(0.7)
    for i in range(n):
        typ = ctx.choice(list(KINDS)) if ctx.flag() else ctx.choice(['fault', 'horizon', 'geobody'])
        name = uuid = None
        if typ in known and with_interp:
            if known[typ]:
                name, uuid = ctx.choice(known[typ])
            if table and creating and (name is None or ctx.flag(0.2)):
                name, uuid = f'new {typ} {ctx.integer(0, 2)}', None
            if table and name is None:
                raise Skip('no such interpretation')
        rows.append([typ, f'm{i}', name, uuid])
    ctx.sig(n, table, with_interp, [r[0] for r in rows])
    if table:
        cols = ctx.choice([{}, dict(md_col = 'depth', boundary_feature_type_col = 'kind', marker_citation_title_col = 'name', interp_citation_title_col = 'i')])
        g = lambda k, d: cols.get(k, d)
        d = {g('md_col', 'MD'): mds, g('boundary_feature_type_col', 'Boundary_Feature_Type'): [ctx.choice([r[0], r[0].capitalize()]) for r in rows],
             g('marker_citation_title_col', 'Marker_Citation_Title'): [r[1] for r in rows]}
        if with_interp:
            d[g('interp_citation_title_col', 'Interp_Citation_Title')] = [r[2] for r in rows]
        index = ctx.choice([None, list(np.arange(n) * 10 + 5), [f'r{i}' for i in range(n)]])
        ctx.observe('table')
        fr = rqw.WellboreMarkerFrame.from_dataframe(m, t.uuid, pd.DataFrame(d, index = index), create_organizing_objects_where_needed = creating,
                                                    title = 'frame', **cols)
    else:
        fr = rqw.WellboreMarkerFrame(m, trajectory_uuid = t.uuid, title = 'frame')
        fr.node_count, fr.node_mds = n, mds.copy()
        fr.marker_list = [rqw.WellboreMarker(m, fr, i, marker_type = r[0], interpretation_uuid = ctx.choice([r[3], None if r[3] is None else str(r[3])]),
                                             title = r[1], originator = None if i % 2 else f'geologist {i}', extra_metadata = dict(row = str(i))) for i, r in enumerate(rows)]
    if table and with_interp:  # those made on demand
        for kind, typ in (('fault', 'FaultInterpretation'), ('horizon', 'HorizonInterpretation'), ('geobody', 'GeobodyBoundaryInterpretation')):
            names = sorted(set(r[2] for r in rows if r[0] == kind and r[3] is None))
            for name in names:
                u = m.uuids(obj_type = typ, title = name)
                ctx.equal(len(u), 1, 'made-once', f'interpretation for {kind} {name}')
                for r in rows:
                    if r[0] == kind and r[2] == name:
                        r[3] = u[0]
            ctx.equal(len(m.uuids(obj_type = typ)), len(known[kind]) + len(names), 'interpretations', kind)
    check_markers(ctx, fr, rows, mds, k_md, xyz, m, 'fresh-')
    fr.write_hdf5()
    fr.create_xml()
    m.store_epc()
    m2 = rq.Model(m.epc_file)
    fr2 = rqw.WellboreMarkerFrame(m2, uuid = fr.uuid)
    check_markers(ctx, fr2, rows, mds, k_md, xyz, m2, '')
    related = {str(u) for u in m2.uuids(related_uuid = fr.uuid)}
    for r in rows:
        if r[3] is not None:
            ctx.check(str(r[3]) in related, 'related', 'interpretation related to the frame')
    # the marker refers to the interpretation by its own type
    root = m2.root(uuid = fr.uuid)
    for node in root:
        if str(node.tag).split('}')[-1] != 'WellboreMarker':
            continue
        kind, ref = None, None
        for ch in node:
            tag = str(ch.tag).split('}')[-1]
            if tag in ('GeologicBoundaryKind', 'FluidMarker', 'FluidContact'):
                kind = tag
                ctx.equal(tag, KINDS[ch.text], 'boundary-tag')
            if tag == 'Interpretation':
                ref = {str(x.tag).split('}')[-1]: x.text for x in ch}
        ctx.check(kind is not None, 'boundary-tag', 'kind stored')
        if ref is not None:
            ctx.check(ref['ContentType'].endswith(m2.type_of_uuid(ref['UUID'], strip_obj = False)), 'content-type', 'of the interpretation', **ref)


def check_markers(ctx, fr, rows, mds, k_md, xyz, m, code):
    n = len(rows)
    ctx.equal(np.array(fr.node_mds), mds, code + 'mds')
    ctx.equal((fr.node_count, len(fr.marker_list)), (n, n), code + 'count')
    for i, (typ, name, interp, uuid) in enumerate(rows):
        ctx.observe('markers')
        k = fr.find_marker_from_index(i)
        ctx.check(k is fr.marker_list[i], code + 'from-index', 'marker by index')
        ctx.equal(k.marker_type, typ, code + 'type')
        ctx.equal(k.title, name, code + 'title')
        ctx.equal(k.marker_index, i, code + 'index')
        if k.extra_metadata and 'row' in k.extra_metadata and i % 2 == 0:
            ctx.equal(k.originator, f'geologist {i}', code + 'originator')
            ctx.equal(k.extra_metadata['row'], str(i), code + 'metadata')
        ctx.check(k.wellbore_frame is fr or k.wellbore_frame is None, code + 'frame', 'marker refers to its frame')
        ctx.equal(None if k.interpretation_uuid is None else str(k.interpretation_uuid), None if uuid is None else str(uuid), code + 'interpretation')
        if uuid is not None:
            e = min(j for j, r in enumerate(rows) if r[3] is not None and str(r[3]) == str(uuid))
            ctx.equal(fr.find_marker_index_from_interp(uuid if ctx.flag() else str(uuid)), e, code + 'from-interp')
    ctx.check(fr.find_marker_from_index(n) is None, code + 'beyond', 'no marker beyond the last')
    import resqpy.olio.uuid as bu
    ctx.check(fr.find_marker_index_from_interp(bu.new_uuid()) is None, code + 'unknown', 'no marker for another interpretation')
    df = fr.dataframe()
    ctx.equal(np.array(df['MD'], dtype = float), mds, code + 'df-md')
    ctx.close(np.array(df[['X', 'Y', 'Z']], dtype = float), along(k_md, xyz, mds), code + 'df-xyz', tol = 1.0e-6)
    ctx.equal(list(df['Boundary_Feature_Type']), [r[0] for r in rows], code + 'df-type')
    ctx.equal(list(df['Marker_Citation_Title']), [r[1] for r in rows], code + 'df-title')
    ctx.equal([None if x is None or x != x else x for x in df['Interp_Citation_Title']],
              [None if r[3] is None else r[2] for r in rows], code + 'df-interp')


def blocked(ctx, m, t, k_md, cells = None):
    """Blocked well with given intervals, some of them outside cells."""
    import resqpy.grid as grr
    import resqpy.well as rqw
    n = ctx.integer(1, 8)
    g = grr.RegularGrid(m, extent_kji = (n, 2, 3), dxyz = (100.0, 100.0, 20.0), as_irregular_grid = True, title = 'g', crs_uuid = t.crs_uuid)
    g.create_xml()
    g.write_hdf5()
    g.create_xml()
    mask = ctx.rng.random(n + ctx.integer(0, 3)) < 0.75
    while np.count_nonzero(mask) > n:
        mask[int(np.argmax(mask))] = False
    if not np.any(mask):
        mask[0] = True
    node = depths(ctx, float(k_md[0]) + 10.0, float(k_md[-1]) - 5.0, len(mask) + 1)
    count = int(np.count_nonzero(mask))
    bw = rqw.BlockedWell(m, well_name = t.title)
    bw.trajectory = t
    bw.grid_list = [g]
    bw.node_count, bw.node_mds, bw.cell_count = len(node), node, count
    bw.grid_indices = np.where(mask, 0, -1)
    kji = np.stack((np.arange(count), ctx.rng.integers(0, 2, count), ctx.rng.integers(0, 3, count)), axis = 1)
    bw.cell_indices = np.array([(k * 2 + j) * 3 + i for k, j, i in kji])
    bw.face_pair_indices = np.array([((0, 0), (0, 1))] * count)
    bw.write_hdf5()
    bw.create_xml()
    return bw, g, node, mask, kji


def overlaps(node, mask, mds):
    """For each cell, (interval, part of interval, part of cell) of every overlap."""
    out = []
    for a, b, use in zip(node[:-1], node[1:], mask):
        if not use:
            continue
        l = []
        for i, (c, d) in enumerate(zip(mds[:-1], mds[1:])):
            x = min(b, d) - max(a, c)
            if x > 0.0:
                l.append((i, x / (d - c), x / (b - a)))
        out.append(l)
    return out


def upscale(ctx):
    """Frame intervals and their properties put onto the cells of a blocked well."""
    import resqpy.model as rq
    import resqpy.property as rqp
    import resqpy.time_series as rqts
    import resqpy.well as rqw
    m = gen.model(ctx, crs = False)
    t, crs, k_md, _ = well(ctx, m)
    bw, g, node, mask, _ = blocked(ctx, m, t, k_md)
    n = ctx.integer(2, 9)
    where = ctx.choice(['whole', 'part', 'narrow', 'above', 'below'])
    lo, hi = float(k_md[0]), float(k_md[-1])
    span = {'whole': (lo, hi), 'part': (lo + 0.2 * (hi - lo), lo + 0.8 * (hi - lo)), 'narrow': (lo + 0.4 * (hi - lo), lo + 0.5 * (hi - lo)),
            'above': (lo, lo + 0.4 * (hi - lo)), 'below': (lo + 0.6 * (hi - lo), hi)}[where]
    mds = depths(ctx, *span, n)
    if ctx.flag(0.6):  # some depths in common
        j = ctx.rng.random(n) < 0.6
        mds[j] = node[ctx.rng.integers(0, len(node), int(np.count_nonzero(j)))]
        mds = np.unique(mds)
        n = len(mds)
    if n < 2 or np.min(np.diff(mds)) < 1.0e-3 or np.min(np.diff(np.unique(np.concatenate((mds, node))))) < 1.0e-4:
        raise Skip('short')
    fr = rqw.WellboreFrame(m, trajectory = t, mds = mds, title = 'fr')
    fr.write_hdf5()
    fr.create_xml()
    e = overlaps(node, mask, mds)
    ctx.sig(where, n, int(mask.sum()), len(mask))
    got = bw.frame_contributions_list(fr)
    ctx.equal(len(got), len(e), 'contribution-cells')
    for c, (x, y) in enumerate(zip(got, e)):
        x = [q for q in x if q[1] > 1.0e-9]
        ctx.equal([int(q[0]) for q in x], [q[0] for q in y], 'contributing', f'cell {c}')
        ctx.close([q[1] for q in x], [q[1] for q in y], 'of-interval', tol = 1.0e-7)
        ctx.close([q[2] for q in x], [q[2] for q in y], 'of-cell', tol = 1.0e-7)
        ctx.observe('overlaps', len(y))
    # properties
    r = ctx.choice([None, None, 2])
    nt = ctx.integer(1, 3)
    ts = rqts.TimeSeries(m, first_timestamp = '2020-01-01', yearly = nt, title = 'ts')
    ts.create_xml()
    have = {}

    def put(title, kind, a, **kw):
        rqp.Property.from_array(m, a, 'made', title, fr.uuid, property_kind = kind, indexable_element = 'intervals', realization = r, **kw)

    active = ctx.rng.random(n - 1) < ctx.choice([0.0, 0.5, 0.8, 1.0])
    put('ACT', 'active', active.astype(int), discrete = True, null_value = -1)
    if ctx.flag(0.7):
        a = ctx.rng.uniform(0.05, 0.2, n - 1)
        a[ctx.rng.random(n - 1) < 0.3] = np.nan
        put('RADW', 'wellbore radius', a, uom = 'm')
        have['wellbore radius'] = a
    dynamic = ctx.flag()
    for kind, title, uom in (('permeability length', 'KH', 'mD.m'), ('skin', 'SKIN', 'Euc')):
        if ctx.flag(0.7):
            have[kind] = []
            for i in range(nt if dynamic else 1):
                a = ctx.rng.uniform(0.0, 50.0, n - 1)
                a[ctx.rng.random(n - 1) < 0.3] = np.nan
                put(title, kind, a, uom = uom, **(dict(time_index = i, time_series_uuid = ts.uuid) if dynamic else {}))
                have[kind].append((i if dynamic else None, a))
    if ctx.flag(0.6):
        have['well connection open'] = []
        for i in range(nt):
            a = active & (ctx.rng.random(n - 1) < 0.7)
            put('OPEN', 'well connection open', a.astype(int), discrete = True, null_value = -1, time_index = i, time_series_uuid = ts.uuid)
            have['well connection open'].append((i, a))
    if ctx.flag(0.3):
        put('other', 'porosity', ctx.rng.random(n - 1), uom = 'm3/m3')
    m.store_epc()
    m = rq.Model(m.epc_file)
    bw = rqw.BlockedWell(m, uuid = bw.uuid)
    kw = dict(frame_uuid = fr.uuid if ctx.flag(0.7) else None, realization = r)
    kinds = None
    if ctx.flag(0.4):
        kinds = ctx.subset(['active'] + list(have), ctx.integer(0, len(have) + 1))
        kw['property_kinds_list'] = kinds
    for k in ('set_length', 'set_perforation_fraction'):
        if ctx.flag():
            kw[k] = ctx.flag()
    if ctx.flag():
        kw['set_frame_interval'] = ctx.flag(0.7)
    uuids = bw.add_properties_from_wellbore_frame(**kw)
    used = lambda k: kinds is None or k in kinds
    set_length = kw.get('set_length') or False
    pperf = kw.get('set_perforation_fraction')
    if pperf is None:
        pperf = not set_length and not (used('permeability length') and 'permeability length' in have)
    expect = {}
    cell = lambda f: np.array([f(l) for l in e])
    if used('active'):
        expect['ACT', None] = ('active', cell(lambda l: any(active[i] for i, _, _ in l)).astype(float), None)
    frac = cell(lambda l: sum(p for i, _, p in l if active[i]) + 0.0)
    lengths = np.diff(node)[mask]
    if set_length:
        expect['LENGTH', None] = ('length', frac * lengths, 'm')
    if pperf:
        expect['PPERF', None] = ('perforation fraction', frac, 'm/m')

    def dominant(l):
        l = sorted((p, -i) for i, _, p in l if active[i])
        return -l[-1][1] if l else -1

    if kw.get('set_frame_interval'):
        expect['wellbore frame interval', None] = ('wellbore frame interval', cell(dominant).astype(float), None)
    if 'wellbore radius' in have and used('wellbore radius'):
        a = have['wellbore radius']
        f = lambda l: max([a[i] for i, _, _ in l if a[i] == a[i]], default = np.nan)
        expect['RADW', None] = ('wellbore radius', cell(f), 'm')
    if used('permeability length'):
        for i, a in have.get('permeability length', []):
            expect['KH', i] = ('permeability length', cell(lambda l: sum(a[x] * fr_ for x, fr_, _ in l if a[x] == a[x]) + 0.0), 'mD.m')
    if used('skin'):

        def skin(l):
            q = [(a[x], p) for x, _, p in l if a[x] == a[x]]
            return sum(v * p for v, p in q) / sum(p for _, p in q) if q else np.nan

        for i, a in have.get('skin', []):
            expect['SKIN', i] = ('skin', cell(skin), 'Euc')
    if used('well connection open'):
        for i, a in have.get('well connection open', []):
            expect['OPEN', i] = ('well connection open', cell(lambda l: any(a[x] for x, _, _ in l)).astype(float), None)
    m.store_epc()
    m2 = rq.Model(m.epc_file)
    bw2 = rqw.BlockedWell(m2, uuid = bw.uuid)
    pc = bw2.extract_property_collection()
    got = {(pc.citation_title_for_part(p), pc.time_index_for_part(p)): p for p in pc.parts()}
    ctx.equal(sorted(map(str, got)), sorted(map(str, expect)), 'properties-made')
    ctx.equal(sorted(map(str, uuids)), sorted(str(pc.uuid_for_part(p)) for p in pc.parts()), 'uuids')
    for k, (kind, a, uom) in expect.items():
        p = got[k]
        v = np.array(pc.cached_part_array_ref(p), dtype = float)
        if k[0] == 'wellbore frame interval' and np.any(v != a):  # equal claims may go either way
            for c in np.nonzero(v != a)[0]:
                w = {i: q for i, _, q in e[c] if active[i]}
                ctx.check(int(v[c]) in w and abs(w[int(v[c])] - max(w.values())) < 1.0e-6, 'dominant', 'active interval with most of the cell')
        else:
            ctx.close(v, a, 'upscaled', tol = 1.0e-6, title = k[0], intervals = e)
        ctx.equal(pc.property_kind_for_part(p), kind, 'upscaled-kind')
        ctx.equal(pc.realization_for_part(p), r, 'upscaled-realization')
        ctx.equal(pc.indexable_for_part(p), 'cells', 'upscaled-indexable')
        if uom:
            ctx.equal(pc.uom_for_part(p), uom, 'upscaled-uom', k[0])
        if k[1] is not None:
            ctx.equal(str(pc.time_series_uuid_for_part(p)), str(ts.uuid), 'upscaled-series')
        ctx.observe('upscaled')
    if kw.get('set_frame_interval'):
        u = pc.uuid_for_part(got['wellbore frame interval', None])
        ctx.check(str(fr.uuid) in {str(x) for x in m2.uuids(related_uuid = u)}, 'interval-related', 'frame related to the interval property')


def cell_logs(ctx):
    """Logs of blocked wells from a cell I/O file and as a table."""
    import resqpy.model as rq
    import resqpy.property as rqp
    import resqpy.well as rqw
    from resqpy.well.well_object_funcs import add_logs_from_cellio
    m = gen.model(ctx, crs = False)
    t, crs, k_md, _ = well(ctx, m, name = ctx.choice(['W1', 'Well-2']))
    bw, g, node, mask, kji = blocked(ctx, m, t, k_md)
    n = int(mask.sum())
    m.store_epc()
    m = rq.Model(m.epc_file)
    bw = rqw.BlockedWell(m, uuid = bw.uuid)
    cols = {}
    kinds = ctx.subset(['PERM', 'PORO', 'FACIES', 'ZONES', 'Sw'], ctx.integer(1, 5))
    tables = {}
    for c in kinds:
        if c in ('FACIES', 'ZONES'):
            cols[c] = ctx.rng.integers(1, 4, n)
            tables[c] = {1: 'sand', 2: 'shale', 3: 'silt', 12: 'coal'} if ctx.flag() else {0: 'a', 1: 'b', 2: 'c', 3: 'd'}
        else:
            cols[c] = np.round(ctx.rng.uniform(-5.0, 900.0, n), 4)
    path = ctx.path('cellio.dat')

    def block(f, name, kji, cols):
        f.write(f'{name} 100.0 200.0\n{9 + len(cols)}\n')
        for c in ['i_index', 'j_index', 'k_index', 'x_in', 'y_in', 'z_in', 'x_out', 'y_out', 'z_out']:
            f.write(f'{c} unit1 scale1\n')
        for c in cols:
            if c in tables:
                f.write(f'{c} DISC ' + ' '.join(f'{k} {v}' for k, v in tables[c].items()) + '\n')
            else:
                f.write(f'{c} unit1 scale1\n')
        for r, (k, j, i) in enumerate(kji):
            f.write(f'{i + 1} {j + 1} {k + 1} 1.0 2.0 3.0 1.5 2.5 4.0 ' + ' '.join(f'{cols[c][r]}' for c in cols) + '\n')
        f.write('\n')

    with open(path, 'w') as f:
        f.write('1.0\nUndefined\n')
        if ctx.flag():
            block(f, 'ANOTHER', kji[:1], {c: v[:1] for c, v in cols.items()})
        block(f, t.title if ctx.flag() else t.title.upper(), kji, cols)
        if ctx.flag():
            block(f, 'ANOTHER2', kji[:1], {c: v[:1] for c, v in cols.items()})
    ctx.sig(n, len(mask), kinds)
    add_logs_from_cellio(bw, path)
    m.store_epc()
    m2 = rq.Model(m.epc_file)
    bw2 = rqw.BlockedWell(m2, uuid = bw.uuid)
    pc = rqp.WellIntervalPropertyCollection(frame = bw2)
    got = {x.name: x for x in pc.logs()}
    e = {f'cellio.{t.title}.{c}': c for c in kinds}
    ctx.equal(sorted(got), sorted(e), 'cellio-titles')
    for name, c in e.items():
        v = np.array(got[name].values(), dtype = float)
        p = got[name].part
        ctx.observe('curves')
        ctx.equal(bool(pc.continuous_for_part(p)), c not in tables, 'cellio-continuous')
        where = pc.indexable_for_part(p)
        if where == 'intervals':
            full = np.full(len(mask), np.nan if c not in tables else -1.0)
            full[mask] = cols[c]
            ctx.close(v, full, 'cellio-values', tol = 1.0e-9, rtol = 1.0e-7)
        else:
            ctx.close(v, cols[c].astype(float), 'cellio-values', tol = 1.0e-9, rtol = 1.0e-7)
        if c == 'FACIES':
            l = pc.string_lookup_for_part(p)
            ctx.equal({int(k): v for k, v in l.str_dict.items()} if isinstance(l.str_dict, dict) else l.str_dict, tables[c], 'cellio-lookup')
    if all(pc.indexable_for_part(x.part) == 'cells' for x in got.values()):
        df = pc.to_pandas(include_units = ctx.flag())
        ctx.equal(np.array(df.index, dtype = int), np.array(bw.cell_indices), 'table-index')
        ctx.equal(sorted(df.columns), sorted(e), 'table-columns')
        for name, c in e.items():
            ctx.close(np.array(df[name], dtype = float), cols[c].astype(float), 'table-values', tol = 1.0e-9, rtol = 1.0e-7)


SCENARIOS = [
    Scenario(logs, 60),
    Scenario(from_las, 30),
    Scenario(frame_intervals, 30),
    Scenario(markers, 80),
    Scenario(upscale, 120),
    Scenario(cell_logs, 40),
]
