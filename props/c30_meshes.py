"""C30: meshes, tri-meshes and point sets keep their points and derived views."""

import numpy as np

from props.spec import spec
from rv import gen, objects
from rv.core import Scenario, Skip

PROP = spec('C30')

H = np.sqrt(0.75)


# meshes


def lattice(org, d, nj, ni):
    """Closed form points of a regular mesh."""
    jj, ii = np.meshgrid(np.arange(nj), np.arange(ni), indexing = 'ij')
    return np.array(org, dtype = float) + ii[..., None] * d[0] + jj[..., None] * d[1]


def reg_geometry(ctx, least = 2):
    nj, ni = ctx.integer(least, 7), ctx.integer(least, 7)
    style = ctx.choice(['aligned', 'rotated', 'skewed', 'sloping', 'negative', 'swapped'])
    a, b = ctx.uniform(5.0, 120.0), ctx.uniform(5.0, 120.0)
    if ctx.flag(0.3):
        a, b = float(ctx.integer(1, 50)), float(ctx.integer(1, 50))
    d = np.array([[a, 0.0, 0.0], [0.0, b, 0.0]])
    if style == 'rotated':
        t = ctx.uniform(0.0, 2.0 * np.pi)
        d = d @ np.array([[np.cos(t), np.sin(t), 0.0], [-np.sin(t), np.cos(t), 0.0], [0.0, 0.0, 1.0]])
    elif style == 'skewed':
        d[0, 1], d[1, 0] = ctx.uniform(-4.0, 4.0), ctx.uniform(-4.0, 4.0)
    elif style == 'sloping':
        d[0, 2], d[1, 2] = ctx.uniform(-2.0, 2.0), ctx.uniform(-2.0, 2.0)
    elif style == 'negative':
        d *= ctx.rng.choice([-1.0, 1.0], (2, 1))
    elif style == 'swapped':
        d = d[::-1].copy()
    org = tuple(ctx.uniform(-5.0e5, 5.0e5) for _ in range(3))
    return nj, ni, org, d, style


def z_array(ctx, shape, holes = 0.0):
    z = ctx.rng.uniform(900.0, 1100.0, shape)
    if holes:
        z[ctx.rng.random(shape) < holes] = np.nan
    return z


def put(obj):
    obj.write_hdf5()
    obj.create_xml()
    return obj


def again(m):
    import resqpy.model as rq
    m.store_epc()
    return rq.Model(m.epc_file)


def flavour_case(ctx, m, crs, nj, ni, org, d, z, flavour, role = 'map', **kw):
    """A new mesh of the flavour over the lattice, not yet stored."""
    import resqpy.surface as rqs
    kw = dict(kw, surface_role = role, crs_uuid = crs.uuid)
    p = lattice(org, d, nj, ni)
    zz = z.flatten() if ctx.flag(0.2) else z.copy()
    if flavour == 'explicit':
        q = p.copy()
        q[..., 2] = z
        return rqs.Mesh(m, xyz_values = q, **kw), None
    if flavour == 'regular':
        return rqs.Mesh(m, nj = nj, ni = ni, origin = org, dxyz_dij = d.copy(), **kw), None
    if flavour == 'reg&z':
        return rqs.Mesh(m, nj = nj, ni = ni, origin = org, dxyz_dij = d.copy(), z_values = zz, **kw), None
    # reference and z, on a base of some other flavour
    base_flavour = ctx.choice(['regular', 'explicit', 'reg&z', 'ref&z'])
    base, _ = flavour_case(ctx, m, crs, nj, ni, org, d, z_array(ctx, (nj, ni)), base_flavour, title = 'base')
    put(base)
    return rqs.Mesh(m, nj = nj, ni = ni, z_values = zz, z_supporting_mesh_uuid = base.uuid, **kw), base


def flavours(ctx):
    """Every representation of the same mesh gives the same points, in memory and from a dataset."""
    import resqpy.model as rq
    import resqpy.surface as rqs
    m = gen.model(ctx, crs = False)
    b = objects.Builder(ctx, m)
    crs = b.add('crs').obj
    if ctx.flag(0.3):
        b.add(ctx.choice(['fault', 'horizon']))
    nj, ni, org, d, style = reg_geometry(ctx)
    flavour = ctx.choice(['explicit', 'regular', 'reg&z', 'ref&z'])
    z = z_array(ctx, (nj, ni), ctx.choice([0.0, 0.0, 0.2]))
    role = ctx.choice(['map', 'pick'])
    title = gen.title(ctx)
    x = gen.metadata(ctx)
    obj, base = flavour_case(ctx, m, crs, nj, ni, org, d, z, flavour, role, title = title, extra_metadata = dict(x or {}))
    p = lattice(org, d, nj, ni)
    if flavour != 'regular':
        p[..., 2] = z
    r = b.interp(0.5)
    obj.set_represented_interpretation_root(r)
    ctx.close(obj.full_array_ref(), p, 'new-points', tol = 1.0e-6, rtol = 1.0e-12)
    ctx.sig(flavour, style, nj, ni)
    put(obj)
    m2 = again(m)
    for mm, how in ((m, 'same model'), (m2, 'reopened')):
        got = rqs.Mesh(mm, uuid = obj.uuid)
        ctx.equal((got.nj, got.ni, got.surface_role, got.title), (nj, ni, role, title.strip() or 'mesh'), 'basics', how)
        ctx.equal(got.flavour, flavour, 'flavour', how)
        ctx.equal(str(got.crs_uuid), str(crs.uuid), 'crs', how)
        ctx.equal(objects.norm(got.represented_interpretation_root), objects.norm(r), 'interpretation', how)
        for k, v in (x or {}).items():
            ctx.equal(got.extra_metadata.get(k), v, 'extra-metadata', how)
        a = got.full_array_ref()
        ctx.equal(a.shape, (nj, ni, 3), 'shape', how)
        ctx.close(a, p, 'points', tol = 1.0e-6, rtol = 1.0e-12, how = how)
        if flavour in ('explicit', 'reg&z', 'ref&z'):
            ctx.close(a[..., 2], z, 'z-values', tol = 0.0, how = how)
        if flavour in ('regular', 'reg&z'):
            ctx.close(np.array(got.regular_origin), np.array(org), 'origin', tol = 1.0e-6, rtol = 1.0e-12)
            ctx.close(np.array(got.regular_dxyz_dij), d, 'steps', tol = 1.0e-9, rtol = 1.0e-9)
        ctx.check(not got.is_big(), 'is-big', 'small mesh is big')
        rel = mm.uuids(related_uuid = obj.uuid)
        ctx.check(any(str(u) == str(crs.uuid) for u in rel), 'related-crs', 'mesh is not related to its crs', how = how)
        if base is not None:
            ctx.equal(str(got.ref_uuid), str(base.uuid), 'supporting-mesh', how)
            ctx.check(any(str(u) == str(base.uuid) for u in rel), 'related-support', 'mesh is not related to its supporting mesh', how = how)
            ctx.close(got.ref_mesh.full_array_ref()[..., :2], p[..., :2], 'support-points', tol = 1.0e-6)
        if r is not None:
            ctx.check(any(str(u) == r.attrib['uuid'] for u in rel), 'related-interpretation', 'mesh is not related to its interpretation')
        # the supporting mesh keeps its own z values
        if base is not None:
            ctx.close(rqs.Mesh(mm, uuid = base.uuid).full_array_ref(), base.full_array_ref(), 'support-kept', tol = 1.0e-6, rtol = 1.0e-12)
    ctx.observe('meshes reloaded', 2)
    # the mesh travels with what it needs
    if ctx.flag(0.4):
        t = gen.model(ctx, 'other.epc', crs = False)
        t.copy_uuid_from_other_model(m2, obj.uuid)
        t2 = again(t)
        ctx.close(rqs.Mesh(t2, uuid = obj.uuid).full_array_ref(), p, 'copied-points', tol = 1.0e-6, rtol = 1.0e-12)
        ctx.observe('meshes copied')


def equivalents(ctx):
    """Equivalent representations of one mesh give the same points, surfaces and point sets."""
    import resqpy.surface as rqs
    m = gen.model(ctx, crs = False)
    crs = objects.Builder(ctx, m).add('crs').obj
    nj, ni, org, d, style = reg_geometry(ctx)
    planar = ctx.flag(0.3)
    p = lattice(org, d, nj, ni)
    z = p[..., 2].copy() if planar else z_array(ctx, (nj, ni), ctx.choice([0.0, 0.0, 0.15]))
    p[..., 2] = z
    kinds = ['explicit', 'reg&z', 'ref&z'] + (['regular'] if planar else [])
    meshes = [put(flavour_case(ctx, m, crs, nj, ni, org, d, z, k, title = k)[0]) for k in kinds]
    ctx.sig(style, planar, nj, ni, bool(np.any(np.isnan(z))))
    if ctx.flag(0.6):
        m2 = again(m)
        meshes = [rqs.Mesh(m2, uuid = o.uuid) for o in meshes]
    holes = bool(np.any(np.isnan(z)))
    if holes and not np.any(~np.isnan(z)):
        raise Skip('no defined points')
    quad = ctx.flag()
    first = None
    for o in meshes:
        ctx.close(o.full_array_ref(), p, 'points', tol = 1.0e-6, rtol = 1.0e-12, kind = o.flavour)
        try:
            s = o.surface(quad_triangles = quad)
        except AssertionError:
            raise Skip('mesh too thin for triangles')
        t, q = s.triangles_and_points()
        ctx.equal(str(s.crs_uuid), str(crs.uuid), 'surface-crs', o.flavour)
        good = p.reshape(-1, 3)[~np.isnan(z.flatten())]
        ctx.close(q[:len(good)], good, 'surface-points', tol = 1.0e-6, rtol = 1.0e-12, kind = o.flavour)
        if first is None:
            first = (t, q)
        else:
            ctx.equal(t, first[0], 'surface-triangles', o.flavour)
            ctx.close(q, first[1], 'surface-same-points', tol = 1.0e-6, rtol = 1.0e-12)
        ctx.observe('mesh surfaces compared')
        # a triangulation keeps the whole lattice: xy areas of the triangles sum to that of the quads
        tri = q[t][..., :2]
        area = np.abs(np.cross(tri[:, 1] - tri[:, 0], tri[:, 2] - tri[:, 0])) * 0.5
        if not holes:
            cell = abs(np.cross(d[0, :2], d[1, :2]))
            ctx.close(area.sum(), cell * (nj - 1) * (ni - 1), 'surface-area', tol = 1.0e-3, rtol = 1.0e-6)
    # surface to point set keeps every point
    ps = rqs.Surface(m, crs_uuid = crs.uuid, point_set = rqs.PointSet(m, points_array = p, crs_uuid = crs.uuid, title = 'p')) \
        if ctx.flag(0.3) and not holes and not planar and min(nj, ni) > 2 else None
    if ps is not None:
        _, q = ps.triangles_and_points()
        a = np.array(sorted(map(tuple, q)))
        e = np.array(sorted(map(tuple, p.reshape(-1, 3))))
        ctx.close(a, e, 'pointset-surface', tol = 1.0e-6)
        ctx.observe('point set surfaces')


def single_rows(ctx):
    """Regular meshes with a single row or column of nodes, and explicit xy only storage."""
    import resqpy.surface as rqs
    m = gen.model(ctx, crs = False)
    crs = objects.Builder(ctx, m).add('crs').obj
    nj, ni, org, d, style = reg_geometry(ctx, 1)
    if ctx.flag(0.5):
        if ctx.flag():
            nj = 1
        else:
            ni = 1
        flavour = ctx.choice(['regular', 'reg&z'])
        z = z_array(ctx, (nj, ni))
        o, _ = flavour_case(ctx, m, crs, nj, ni, org, d, z, flavour, title = 'row')
        put(o)
        p = lattice(org, d, nj, ni)
        if flavour == 'reg&z':
            p[..., 2] = z
        ctx.sig('row', flavour, nj, ni)
        ctx.close(rqs.Mesh(again(m), uuid = o.uuid).full_array_ref(), p, 'row-points', tol = 1.0e-6, rtol = 1.0e-12)
    else:
        nj, ni = max(nj, 2), max(ni, 2)
        p = lattice(org, d, nj, ni)
        o = rqs.Mesh(m, xyz_values = p, crs_uuid = crs.uuid, title = 'xy')
        o.write_hdf5(use_xy_only = True)
        o.create_xml(use_xy_only = True)
        got = rqs.Mesh(again(m), uuid = o.uuid)
        a = got.full_array_ref()
        ctx.sig('xy', nj, ni)
        ctx.close(a[..., :2], p[..., :2], 'xy-only', tol = 0.0)
        ctx.equal((got.flavour, got.nj, got.ni), ('explicit', nj, ni), 'xy-only-basics', 'extent')
    ctx.observe('unusual meshes')


# text files


def write_rms(path, x0, x1, y0, y1, z, per_line):
    nj, ni = z.shape
    with open(path, 'w') as f:
        f.write(f'-996 {nj} {(x1 - x0) / (ni - 1)} {(y1 - y0) / (nj - 1)}\n')
        f.write(f'{x0!r} {x1!r} {y0!r} {y1!r}\n')
        f.write(f'{ni} 0.0 {x0!r} {y0!r}\n')
        f.write('0 0 0 0 0 0 0\n')
        v = ['9999900.0000' if np.isnan(a) else repr(float(a)) for a in z.flatten()]
        for i in range(0, len(v), per_line):
            f.write(' '.join(v[i:i + per_line]) + '\n')


def write_zmap(path, x0, x1, y0, y1, z, per_line, null = '1.0E+30', plus = False, comments = 1, second_null = False):
    nj, ni = z.shape  # z is in increasing y order; the format starts at the north west corner, going down columns
    with open(path, 'w') as f:
        for c in range(comments):
            f.write(f'! comment {c}, with, commas\n')
        f.write(f'@name HEADER, GRID, {per_line}\n')
        f.write(f'20, {"" if second_null else null}, {null if second_null else ""}, 7, 1\n')
        f.write(f'{nj}, {ni}, {x0!r}, {x1!r}, {y0!r}, {y1!r}\n')
        f.write('0.0, 0.0, 0.0\n@\n')
        if plus:
            f.write('+ some remark\n')
        for i in range(ni):
            v = [null if np.isnan(a) else repr(float(a)) for a in z[::-1, i]]
            for k in range(0, len(v), per_line):
                f.write('  '.join(v[k:k + per_line]) + '\n')


def files(ctx):
    """Meshes and surfaces read from RMS text and zmap files have the points of the file."""
    import resqpy.olio.zmap_reader as zr
    import resqpy.surface as rqs
    m = gen.model(ctx, crs = False)
    crs = objects.Builder(ctx, m).add('crs').obj
    fmt = ctx.choice(['rms', 'roxar', 'zmap'])
    nj, ni = ctx.integer(2, 7), ctx.integer(2, 7)
    x0, y0 = ctx.uniform(-1.0e5, 1.0e5), ctx.uniform(-1.0e5, 1.0e5)
    x1, y1 = x0 + ctx.uniform(10.0, 1000.0), y0 + ctx.uniform(10.0, 1000.0)
    z = z_array(ctx, (nj, ni), ctx.choice([0.0, 0.2]))
    path = ctx.path('mesh.txt')
    per = ctx.integer(1, 8)
    plus = ctx.flag(0.3)
    if fmt == 'zmap':
        write_zmap(path, x0, x1, y0, y1, z, per, ctx.choice(['1.0E+30', '-99999.0', '0.1000000E+31']), plus, ctx.integer(0, 3), ctx.flag(0.3))
    else:
        write_rms(path, x0, x1, y0, y1, z, per)
    p = np.stack(np.meshgrid(np.linspace(x0, x1, ni), np.linspace(y0, y1, nj)) + [z], axis = -1)
    if fmt == 'zmap':
        p = p[::-1]
    fl = ctx.choice(['explicit', 'reg&z', 'explicit', 'regular', 'ref&z'])
    ctx.sig(fmt, fl, nj, ni, plus)
    xx, yy, ff = {'rms': zr.read_roxar_mesh, 'roxar': zr.read_rms_text_mesh, 'zmap': zr.read_zmapplusgrid}[fmt](path)
    ctx.close(np.stack((xx, yy, ff), axis = -1), p, 'reader', tol = 1.0e-6, rtol = 1.0e-12)
    o = rqs.Mesh(m, mesh_file = path, mesh_format = fmt, mesh_flavour = fl, crs_uuid = crs.uuid, title = 'from file')
    if fl == 'regular':  # z values are discarded
        p = p.copy()
        p[..., 2] = 0.0
    ctx.equal((o.nj, o.ni, o.flavour), (nj, ni, fl), 'file-basics', fmt)
    ctx.close(o.full_array_ref(), p, 'file-points', tol = 1.0e-6, rtol = 1.0e-12, flavour = fl)
    put(o)
    ctx.close(rqs.Mesh(again(m), uuid = o.uuid).full_array_ref(), p, 'file-stored', tol = 1.0e-6, rtol = 1.0e-12, flavour = fl)
    ctx.observe('mesh files')
    if fl == 'explicit' and np.any(~np.isnan(z)) and not np.all(np.isnan(z)):
        quad = ctx.flag()
        s = rqs.Surface(m, mesh_file = path, mesh_format = fmt, quad_triangles = quad, crs_uuid = crs.uuid, title = 's')
        e = rqs.Surface(m, mesh = o, quad_triangles = quad, crs_uuid = crs.uuid, title = 'e')
        for a, q in zip(s.triangles_and_points(), e.triangles_and_points()):
            ctx.close(a, q, 'file-surface', tol = 1.0e-6)


def added(ctx):
    """Surface files added to a stored model become surfaces or meshes with the points of the files."""
    import os
    import resqpy.model as rq
    import resqpy.organize as rqo
    import resqpy.rq_import as rqi
    import resqpy.surface as rqs
    m = gen.model(ctx, crs = False)
    b = objects.Builder(ctx, m)
    crs = [b.add('crs').obj for _ in range(ctx.integer(1, 2))]
    m.store_epc()
    before = sorted(str(u) for u in m.uuids())
    n_ext = len(m.uuids(obj_type = 'EpcExternalPartReference'))
    epc = m.epc_file
    fmt = ctx.choice(['rms', 'roxar', 'zmap', 'GOCAD-Tsurf'])
    files, truth = [], []
    for n in range(ctx.integer(1, 3)):
        name = ctx.choice(['top', 'a.b', 'Base 2', 'horizon']) + str(n)
        path = ctx.path(name + ctx.choice(['.txt', '.dat']))
        if fmt == 'GOCAD-Tsurf':
            p = ctx.rng.uniform(-500.0, 500.0, (ctx.integer(3, 9), 3))
            t = np.array([(0, i, i + 1) for i in range(1, len(p) - 1)])
            with open(path, 'w') as f:
                f.write('GOCAD TSurf 1\nTFACE\n')
                for i, x in enumerate(p):
                    f.write(f'VRTX {i + 1} {float(x[0])!r} {float(x[1])!r} {float(x[2])!r}\n')
                for x in t + 1:
                    f.write(f'TRGL {x[0]} {x[1]} {x[2]}\n')
                f.write('END\n')
            truth.append((name, p, t))
        else:
            nj, ni = ctx.integer(2, 6), ctx.integer(2, 6)
            x0, y0 = ctx.uniform(-1.0e4, 1.0e4), ctx.uniform(-1.0e4, 1.0e4)
            x1, y1 = x0 + ctx.uniform(10.0, 1000.0), y0 + ctx.uniform(10.0, 1000.0)
            z = z_array(ctx, (nj, ni), ctx.choice([0.0, 0.0, 0.1]))
            if fmt == 'zmap':
                write_zmap(path, x0, x1, y0, y1, z, 4)
            else:
                write_rms(path, x0, x1, y0, y1, z, 4)
            p = np.stack(np.meshgrid(np.linspace(x0, x1, ni), np.linspace(y0, y1, nj)) + [z], axis = -1)
            truth.append((name, p[::-1] if fmt == 'zmap' else p, None))
        files.append(path)
    cls = 'surface' if fmt == 'GOCAD-Tsurf' else ctx.choice(['surface', 'mesh', 'TriangulatedSetRepresentation', 'obj_Grid2dRepresentation'])
    is_mesh = cls in ('mesh', 'obj_Grid2dRepresentation')
    quad, interp, role = ctx.flag(), ctx.flag(0.7), ctx.choice(['map', 'pick'])
    c = ctx.choice(crs) if len(crs) > 1 or ctx.flag() else None
    ctx.sig(fmt, cls, quad, interp, role, len(files))
    e = [rqs.Surface(m, mesh_file = f, mesh_format = fmt, quad_triangles = quad, crs_uuid = crs[0].uuid, title = 'e') if not is_mesh and fmt != 'GOCAD-Tsurf' else None
         for f in files]
    got = rqi.add_surfaces(epc, crs_uuid = None if c is None else c.uuid, surface_file_format = fmt, rq_class = cls, surface_role = role, quad_triangles = quad,
                           surface_file_list = files, make_horizon_interpretations_and_features = interp)
    for k, mm in enumerate((got, rq.Model(epc))):
        ctx.check(set(before) <= set(str(u) for u in mm.uuids()), 'added-others', 'parts of the original model are missing')
        typ = 'Grid2dRepresentation' if is_mesh else 'TriangulatedSetRepresentation'
        ctx.equal(sorted(mm.titles(obj_type = typ)), sorted(t[0] for t in truth), 'added-titles')
        n = len(truth) if interp else 0
        ctx.equal((len(mm.uuids(obj_type = 'HorizonInterpretation')), len(mm.uuids(obj_type = 'GeneticBoundaryFeature'))), (n, n), 'added-organization')
        count = lambda x: len(x.uuids()) - len(x.uuids(obj_type = 'EpcExternalPartReference'))
        ctx.equal(count(mm), len(before) - n_ext + len(truth) * (3 if interp else 1), 'added-count', 'number of parts')
        for (name, p, t), path, s in zip(truth, files, e):
            o = (rqs.Mesh if is_mesh else rqs.Surface)(mm, uuid = mm.uuid(obj_type = typ, title = name))
            ctx.equal(o.surface_role, role, 'added-role')
            ctx.check((o.extra_metadata or {}).get('source') == path, 'added-source', 'name of the file')
            ctx.check(str(o.crs_uuid) == str((c or crs[0]).uuid), 'added-crs', 'crs of surface')
            if is_mesh:
                ctx.close(o.full_array_ref(), p, 'added-points', tol = 1.0e-6, rtol = 1.0e-12)
            elif t is not None:
                gt, gp = o.triangles_and_points()
                ctx.close(gp[gt], p[t], 'added-points', tol = 1.0e-6)
            else:
                et, ep = s.triangles_and_points()
                gt, gp = o.triangles_and_points()
                ctx.close(gp[gt], ep[et], 'added-points', tol = 1.0e-6)
            if interp:
                ip = rqo.HorizonInterpretation(mm, uuid = o.represented_interpretation_root is not None and
                                               mm.uuid_for_root(o.represented_interpretation_root))
                ctx.equal((ip.domain, ip.genetic_boundary_feature.feature_name, ip.genetic_boundary_feature.kind), ('depth', name, 'horizon'), 'added-organization')
            else:
                ctx.check(o.represented_interpretation_root is None, 'added-organization', 'unexpected interpretation')
    ctx.observe('files added: ' + fmt)

def grid_columns(ctx):
    """A mesh from a column property of a regular grid holds the column centres and the property values."""
    import resqpy.crs as rqc
    import resqpy.grid as grr
    import resqpy.property as rqp
    import resqpy.surface as rqs
    import resqpy.weights_and_measures as wam
    m = gen.model(ctx, crs = False)
    zu = ctx.choice(['m', 'ft'])
    crs = rqc.Crs(m, xy_units = ctx.choice(['m', 'ft']), z_units = zu, z_inc_down = True, title = 'c')
    crs.create_xml()
    ext = tuple(ctx.integer(1, 5) for _ in range(3))
    dx, dy, dz = (ctx.uniform(1.0, 100.0) for _ in range(3))
    org = ctx.choice([(0.0, 0.0, 0.0)] * 2 + [(ctx.uniform(-900.0, 900.0), ctx.uniform(-900.0, 900.0), 100.0)])
    g = grr.RegularGrid(m, extent_kji = ext, dxyz = (dx, dy, dz), origin = org, crs_uuid = crs.uuid, title = 'g', set_points_cached = True,
                        as_irregular_grid = False)
    if org != (0.0, 0.0, 0.0):
        raise Skip('regular grids with an origin: see C16')
    g.create_xml(add_cell_length_properties = True)
    m.store_epc()
    disc = ctx.flag(0.3)
    uom = ctx.choice(['m', 'ft', 'cm', 'Euc', 'mD', zu])
    a = ctx.rng.integers(0, 50, ext[1:]) if disc else ctx.rng.uniform(0.0, 500.0, ext[1:])
    x = gen.metadata(ctx)
    prop = rqp.Property.from_array(m, a, 'c30', 'col', support_uuid = g.uuid, property_kind = 'continuous' if not disc else 'discrete',
                                   indexable_element = 'columns', discrete = disc, uom = None if disc else uom, extra_metadata = dict(x or {}))
    m2 = again(m)
    o = rqs.Mesh.from_regular_grid_column_property(m2, g.uuid, prop.uuid)
    p = lattice((0.5 * dx, 0.5 * dy, 0.0), np.array([[dx, 0.0, 0.0], [0.0, dy, 0.0]]), ext[1], ext[2])
    p[..., 2] = a
    ctx.sig(ext, disc, uom)
    ctx.close(o.full_array_ref(), p, 'column-points', tol = 1.0e-6, rtol = 1.0e-12)
    put(o)
    m3 = again(m2)
    got = rqs.Mesh(m3, uuid = o.uuid)
    ctx.equal((got.flavour, got.title), ('reg&z', 'col'), 'column-basics', 'flavour and title')
    ctx.close(got.full_array_ref(), p, 'column-stored', tol = 1.0e-6, rtol = 1.0e-12)
    c = rqc.Crs(m3, uuid = got.crs_uuid)
    if not disc and uom in wam.valid_uoms(quantity = 'length'):
        ctx.equal((c.z_units, c.xy_units, c.z_inc_down), (uom, crs.xy_units, True), 'column-crs', 'units of mesh crs')
        if uom == zu:
            ctx.equal(str(got.crs_uuid), str(crs.uuid), 'column-crs-kept', 'crs')
    else:
        ctx.equal(str(got.crs_uuid), str(crs.uuid), 'column-crs-kept', 'crs')
        ctx.equal(got.extra_metadata.get('Uom'), 'Euc' if disc else uom, 'column-uom', 'uom')
    c0 = rqc.Crs(m3, uuid = crs.uuid)
    ctx.equal(c0.z_units, zu, 'grid-crs-kept', 'crs of grid')
    ctx.equal(rqp.Property(m3, uuid = prop.uuid).array_ref(), a, 'property-kept', 'array')
    ctx.observe('column property meshes')


# point sets


def point_sets(ctx):
    """Patches, crs changes, trimming and text files of point sets."""
    import resqpy.surface as rqs
    m = gen.model(ctx, crs = False)
    b = objects.Builder(ctx, m)
    crs = b.add('crs').obj
    patches = []
    for _ in range(ctx.integer(1, 4)):
        shape = ctx.choice([(ctx.integer(1, 9),), (ctx.integer(1, 4), ctx.integer(1, 4))])
        patches.append(ctx.rng.uniform(-1.0e4, 1.0e4, shape + (ctx.choice([3, 3, 2]),)))
    full = []
    for a in patches:
        q = np.zeros((a.size // a.shape[-1], 3))
        q[:, :a.shape[-1]] = a.reshape(-1, a.shape[-1])
        full.append(q)
    kept = [a.copy() for a in patches]
    all_p = np.concatenate(full)
    if ctx.flag(0.7):
        ps = rqs.PointSet(m, points_array = patches[0], crs_uuid = crs.uuid, title = gen.title(ctx))
    else:
        ps = rqs.PointSet(m, crs_uuid = crs.uuid, title = gen.title(ctx))
        ps.add_patch(patches[0])
    for a in patches[1:]:
        if ctx.flag(0.3):
            n = sum(len(f) for f in full[:ps.patch_count])
            ctx.close(ps.full_array_ref(), all_p[:n], 'part-way', tol = 0.0)
        ps.add_patch(a)
    ctx.close(ps.full_array_ref(), all_p, 'new-points', tol = 0.0)
    put(ps)
    for a, k in zip(patches, kept):
        ctx.equal(a, k, 'input-kept', 'points array')
    m2 = again(m)
    got = rqs.PointSet(m2, uuid = ps.uuid, load_hdf5 = ctx.flag())
    ctx.equal((got.patch_count, got.title, str(got.crs_uuid)), (len(patches), ps.title, str(crs.uuid)), 'basics', 'point set')
    for i in ctx.rng.permutation(len(full)):
        ctx.equal(got.single_patch_array_ref(int(i)), full[i], 'patch', 'points of a patch')
    ctx.equal(got.full_array_ref(), all_p, 'points', 'points')
    action = ctx.choice(['crs', 'box', 'polygon', 'files', 'extend', 'rectangle', 'crs', 'none'])
    ctx.sig(len(patches), action, len(all_p))
    ctx.observe('point sets reloaded')
    if ctx.flag(0.4) and action not in ('files', 'rectangle'):
        ps = rqs.PointSet(m2, uuid = ps.uuid)  # nothing loaded yet
    else:
        ps = got
    if action == 'crs':
        import resqpy.crs as rqc
        kw1 = gen.crs_kwargs(ctx, extreme = False)
        kw0 = gen.crs_kwargs(ctx, extreme = False)
        c0, c1 = (rqc.Crs(m2, title = t, **k) for t, k in (('c0', kw0), ('c1', kw1)))
        c0.create_xml(reuse = False)
        c1.create_xml(reuse = False)
        q = rqs.PointSet(m2, points_array = full[0], crs_uuid = c0.uuid, title = 'q')
        for a in full[1:]:
            q.add_patch(a)
        put(q)
        if ctx.flag():
            q = rqs.PointSet(m2, uuid = q.uuid)
        if ctx.flag(0.5):
            q.full_array_ref()
        old = q.uuid
        q.change_crs(c1)
        e = gen.CrsOracle(kw0).convert_to(gen.CrsOracle(kw1), all_p)
        scale = np.max(np.abs(e)) + np.max(np.abs(all_p)) + 1.0e5
        ctx.equal(str(q.crs_uuid), str(c1.uuid), 'changed-crs', 'crs uuid')
        ctx.close(q.full_array_ref(), e, 'changed-points', tol = 1.0e-8 * scale + 2.0e-3)
        if str(old) != str(q.uuid):
            put(q)
            m3 = again(m2)
            ctx.close(rqs.PointSet(m3, uuid = q.uuid).full_array_ref(), e, 'changed-stored', tol = 1.0e-8 * scale + 2.0e-3)
            ctx.equal(rqs.PointSet(m3, uuid = old).full_array_ref(), all_p, 'original-kept', 'points before crs change')
    elif action == 'box':
        lo = np.array([ctx.uniform(-1.2e4, 0.0) for _ in range(3)])
        box = np.stack((lo, lo + np.array([ctx.uniform(5.0e3, 2.0e4) for _ in range(3)])))
        keep = np.all((all_p >= box[0]) & (all_p <= box[1]), axis = 1)
        ps.trim_to_xyz_box(box)
        ctx.equal(ps.patch_count, 1, 'box-patches', 'patches')
        ctx.equal(ps.full_array_ref(), all_p[keep], 'box', 'points in box')
        if np.any(keep):
            put(ps)
            ctx.equal(rqs.PointSet(again(m2), uuid = ps.uuid).full_array_ref(), all_p[keep], 'box-stored', 'points in box')
    elif action == 'polygon':
        import resqpy.lines as rql
        n = ctx.integer(3, 7)
        th = np.sort(ctx.rng.uniform(0.0, 2.0 * np.pi, n))
        if np.max(np.diff(np.append(th, th[0] + 2.0 * np.pi))) > 2.9:
            raise Skip('polygon too thin')
        c = ctx.rng.uniform(-3.0e3, 3.0e3, 2)
        v = np.zeros((n, 3))
        v[:, 0], v[:, 1] = c[0] + 8.0e3 * np.cos(th), c[1] + 8.0e3 * np.sin(th)
        if ctx.flag():
            v = v[::-1].copy()
        poly = rql.Polyline(m2, set_coord = v, set_bool = True, set_crs = crs.uuid, title = 'poly')
        e1 = np.roll(v, -1, axis = 0) - v
        side = e1[None, :, 0] * (all_p[:, None, 1] - v[None, :, 1]) - e1[None, :, 1] * (all_p[:, None, 0] - v[None, :, 0])
        keep = np.all(side > 0.0, axis = 1) | np.all(side < 0.0, axis = 1)
        if np.min(np.abs(side)) < 1.0e-3 * 8.0e3:
            raise Skip('point on the edge of the polygon')
        ps.trim_to_xy_polygon(poly)
        ctx.equal(ps.patch_count, 1, 'polygon-patches', 'patches')
        ctx.equal(ps.full_array_ref(), all_p[keep], 'polygon', 'points in polygon')
    elif action == 'extend':
        more = ctx.rng.uniform(0.0, 100.0, (ctx.integer(1, 4), 3))
        e = np.concatenate((all_p, more))
        ps.load_all_patches()
        ps.add_patch(more)
        import resqpy.olio.uuid as bu
        ps.uuid = bu.new_uuid()
        ctx.equal(ps.full_array_ref(), e, 'extended', 'points')
        put(ps)
        ctx.equal(rqs.PointSet(again(m2), uuid = ps.uuid).full_array_ref(), e, 'extended-stored', 'points')
    elif action == 'files':
        for form in ('charisma', 'irap'):
            path = ctx.path(form + '.txt')
            getattr(ps, 'convert_to_' + form)(path)
            trailing = False
            if form == 'irap' and ctx.flag():
                trailing = True
                with open(path, 'a') as f:
                    f.write('999.0 999.0 999.0\n')
            kw = {form + '_file': path}
            keep_999 = trailing and ctx.flag(0.3)
            if keep_999:
                kw['remove_trailing_999'] = False
            o = rqs.PointSet(m2, crs_uuid = crs.uuid, **kw)
            e = np.concatenate((all_p, np.full((1, 3), 999.0))) if keep_999 else all_p
            ctx.close(o.full_array_ref(), e, 'file-' + form, tol = 1.0e-9, rtol = 1.0e-12)
            put(o)
            ctx.close(rqs.PointSet(again(m2), uuid = o.uuid).full_array_ref(), e, 'file-stored-' + form, tol = 1.0e-9, rtol = 1.0e-12)
    elif action == 'rectangle':
        t = np.radians(5.0 * ctx.integer(0, 35))  # bearing of the long side
        l1, l2 = sorted(ctx.rng.uniform(10.0, 1000.0, 2))
        along, across = np.array([np.sin(t), np.cos(t)]), np.array([np.cos(t), -np.sin(t)])
        uv = ctx.rng.uniform(0.0, 1.0, (12, 2))
        uv[:4] = [[0, 0], [0, 1], [1, 0], [1, 1]]
        xy = ctx.rng.uniform(-1000.0, 1000.0, 2) + uv[:, :1] * l2 * along + uv[:, 1:] * l1 * across
        o = rqs.PointSet(m2, points_array = xy, crs_uuid = crs.uuid, title = 'r')
        d1, d2, r = o.minimum_xy_area_rectangle()
        ctx.close(np.array([d1, d2]), np.array([l1, l2]), 'rectangle-sides', tol = 1.0e-6)
        if l2 - l1 > 1.0e-3:
            ctx.close((r - np.degrees(t) + 90.0) % 180.0, 90.0, 'rectangle-bearing', tol = 1.0e-6, got = r, expected = np.degrees(t))


def line_points(ctx):
    """Point sets from polylines and polyline sets keep every vertex and leave the lines alone."""
    import resqpy.crs as rqc
    import resqpy.lines as rql
    import resqpy.surface as rqs
    m = gen.model(ctx, crs = False)
    b = objects.Builder(ctx, m)
    n = ctx.integer(1, 4)
    kws = [gen.crs_kwargs(ctx, extreme = False)]
    if ctx.flag(0.4):
        kws.append(gen.crs_kwargs(ctx, extreme = False))
    crss = [rqc.Crs(m, title = f'c{i}', **k) for i, k in enumerate(kws)]
    for c in crss:
        c.create_xml(reuse = False)
    polys, which, verts = [], [], []
    for i in range(n):
        k = ctx.integer(0, len(crss) - 1)
        v = ctx.rng.uniform(-1000.0, 1000.0, (ctx.integer(2, 6), 3))
        closed = ctx.flag()
        polys.append(rql.Polyline(m, set_coord = v.copy(), set_bool = closed, set_crs = crss[k].uuid, title = f'l{i}'))
        which.append(k)
        verts.append(v)
    if ctx.flag(0.4):
        i = ctx.integer(0, n - 1)
        ps = rqs.PointSet(m, polyline = polys[i], crs_uuid = ctx.choice([None, crss[which[i]].uuid]))
        e = verts[i]
        k0 = which[i]
        ctx.equal(ps.title, polys[i].title, 'line-title', 'title of point set')
    else:
        if len(set(which)) > 1:
            pset = rql.PolylineSet(m, title = 'set')
            pset.polys = polys
            pset.rep_int_root = None
        else:
            pset = rql.PolylineSet(m, polylines = polys, title = 'set')
        ps = rqs.PointSet(m, polyset = pset)
        k0 = which[0]
        o0 = gen.CrsOracle(kws[k0])
        e = np.concatenate([v if k == k0 else gen.CrsOracle(kws[k]).convert_to(o0, v) for v, k in zip(verts, which)])
    ctx.sig(n, len(set(which)), len(e))
    scale = np.max(np.abs(e)) + 1.0e6
    ctx.close(ps.full_array_ref(), e, 'line-points', tol = 1.0e-8 * scale if len(set(which)) > 1 else 0.0)
    ctx.equal(str(ps.crs_uuid), str(crss[k0].uuid), 'line-crs', 'crs')
    for p, v in zip(polys, verts):
        ctx.equal(p.coordinates, v, 'line-kept', 'coordinates of the polyline')
    put(ps)
    ctx.close(rqs.PointSet(again(m), uuid = ps.uuid).full_array_ref(), e, 'line-stored', tol = 1.0e-8 * scale if len(set(which)) > 1 else 0.0)
    ctx.observe('point sets from lines')
    if ctx.flag(0.4):  # random points inside a convex polygon
        k = ctx.integer(3, 8)
        th = 2.0 * np.pi * (np.arange(k) + ctx.rng.uniform(-0.3, 0.3, k)) / k
        v = np.zeros((k, 3))
        v[:, 0], v[:, 1] = 500.0 + 90.0 * np.cos(th), -300.0 + 70.0 * np.sin(th)
        if ctx.flag():
            v = v[::-1].copy()
        poly = rql.Polyline(m, set_coord = v, set_bool = True, set_crs = crss[0].uuid, title = 'convex')
        count = ctx.integer(1, 40)
        ps = rqs.PointSet(m, polyline = poly, random_point_count = count, crs_uuid = crss[0].uuid)
        q = ps.full_array_ref()
        ctx.equal(q.shape, (count, 3), 'random-count', 'number of points')
        e1 = np.roll(v, -1, axis = 0) - v
        side = e1[None, :, 0] * (q[:, None, 1] - v[None, :, 1]) - e1[None, :, 1] * (q[:, None, 0] - v[None, :, 0])
        ctx.check(bool(np.all(np.all(side > -1.0e-6, axis = 1) | np.all(side < 1.0e-6, axis = 1))), 'random-outside', 'random point outside polygon')
        ctx.check(not np.any(q[:, 2]), 'random-z', 'z of random points')


# tri-meshes


class Tri:
    """A tri mesh and its closed form."""

    def __init__(self, ctx, m, crs, holes = 0.0, title = 'tri'):
        import resqpy.surface as rqs
        self.nj, self.ni = ctx.integer(2, 9), ctx.integer(2, 9)
        self.t = ctx.choice([ctx.uniform(0.05, 1.0), ctx.uniform(1.0, 200.0), float(ctx.integer(1, 100)), 1.0])
        self.org = ctx.choice([None, (ctx.uniform(-1.0e3, 1.0e3), ctx.uniform(-1.0e3, 1.0e3), ctx.choice([0.0, 25.0, np.nan]))])
        self.z = z_array(ctx, (self.nj, self.ni), holes)
        self.uom = ctx.choice([None, None, 'm', 'ft'])
        self.role = ctx.choice(['map', 'pick'])
        self.crs = crs
        self.o = rqs.TriMesh(m, t_side = self.t, nj = self.nj, ni = self.ni, origin = self.org, z_values = self.z.copy(), z_uom = self.uom,
                             surface_role = self.role, crs_uuid = crs.uuid, title = title)
        jj, ii = np.meshgrid(np.arange(self.nj), np.arange(self.ni), indexing = 'ij')
        self.off = np.zeros(3) if self.org is None else np.nan_to_num(np.array(self.org))
        self.p = np.stack((self.t * (ii + 0.5 * (jj % 2)), self.t * jj * H, self.z), axis = -1) + self.off

    def triangles(self):
        """Dictionary of (tj, ti) to the set of its three nodes: every equilateral triangle between adjacent rows."""
        r = {}
        for j in range(self.nj - 1):
            odd = j % 2
            for i in range(self.ni - 1):
                # the row without offset is 'a', the other 'b'
                a, b = (j, j + 1) if not odd else (j + 1, j)
                r[(j, 2 * i)] = {(a, i), (a, i + 1), (b, i)}
                r[(j, 2 * i + 1)] = {(b, i), (b, i + 1), (a, i + 1)}
        return r

    def edges(self):
        e = set()
        for s in self.triangles().values():
            s = sorted(s)
            e |= {(s[0], s[1]), (s[0], s[2]), (s[1], s[2])}
        return sorted(e)


def bary(tri, xy):
    a = np.array([[tri[0, 0], tri[1, 0], tri[2, 0]], [tri[0, 1], tri[1, 1], tri[2, 1]], [1.0, 1.0, 1.0]])
    return np.linalg.solve(a, np.array([xy[0], xy[1], 1.0]))


def tri_mesh(ctx):
    """Index, interpolation and crossing queries of a tri mesh agree with its triangles."""
    import resqpy.surface as rqs
    m = gen.model(ctx, crs = False)
    crs = objects.Builder(ctx, m).add('crs').obj
    tm = Tri(ctx, m, crs, ctx.choice([0.0, 0.0, 0.1]))
    o = tm.o
    tol = 1.0e-9 * (1.0e3 + 1.0e4 * tm.t)
    ctx.close(o.full_array_ref(), tm.p, 'points', tol = tol)
    ctx.sig(tm.nj, tm.ni, tm.org is None, tm.t >= 1.0, tm.uom)
    if ctx.flag(0.6):
        put(o)
        m = again(m)
        o = rqs.TriMesh(m, uuid = o.uuid)
        ctx.close(o.full_array_ref(), tm.p, 'stored-points', tol = tol)
        ctx.equal((o.nj, o.ni, o.t_side, o.z_uom, o.surface_role), (tm.nj, tm.ni, tm.t, tm.uom, tm.role), 'stored-basics', 'attributes')
        ctx.check(bool(o.is_compatible_with(tm.o)) and bool(tm.o.is_compatible_with(o)), 'compatible-self', 'not compatible with reloaded self')
    tris = tm.triangles()
    all_n = o.all_tri_nodes()
    tt, pp = o.triangles_and_points()
    ctx.close(pp, tm.p.reshape(-1, 3), 'tap-points', tol = tol)
    ctx.equal(all_n.shape, (tm.nj - 1, 2 * (tm.ni - 1), 3, 2), 'all-shape', 'shape')
    for k, ((j, i), s) in enumerate(tris.items()):
        n = o.tri_nodes_for_tji((j, i))
        ctx.equal({tuple(int(v) for v in q) for q in n}, s, 'nodes', 'nodes of triangle', j = j, i = i)
        ctx.equal({tuple(int(v) for v in q) for q in all_n[j, i]}, s, 'all-nodes', 'nodes of triangle', j = j, i = i)
        x = o.triangle_index_for_tji((j, i))
        ctx.equal(tuple(o.tji_for_triangle_index(x)), (j, i), 'index', 'tji of index')
        ctx.equal({(int(v) // tm.ni, int(v) % tm.ni) for v in tt[x]}, s, 'tap-triangle', 'triangle of surface protocol')
    ctx.equal(len(tt), len(tris), 'triangle-count', 'triangles')
    # points
    w, h = (tm.ni - 0.5) * tm.t, (tm.nj - 1) * H * tm.t
    xy = tm.off[:2] + ctx.rng.uniform(-0.15, 1.15, (24, 2)) * np.array([w, h])
    ks = list(tris)
    arr_tji, arr_tc = o.tji_tc_for_xy_array(xy)
    arr_ji, arr_w = o.ji_and_weights_for_xy_array(xy)
    arr_z = o.interpolated_z_array(xy)
    ctx.equal(o.tji_for_xy_array(xy), arr_tji, 'tji-array', 'tji')
    inside = 0
    for n, q in enumerate(xy):
        found, margin = None, 1.0
        for key in ks:
            nodes = sorted(tris[key])
            wts = bary(np.array([tm.p[a][:2] for a in nodes]), q)
            margin = min(margin, float(np.min(np.abs(wts))))
            if np.all(wts > 0.0):
                found = (key, nodes, wts)
        if margin < 1.0e-7:
            continue  # too close to an edge
        tji, tc = o.tji_tc_for_xy(q)
        if found is None:
            ctx.check(tji is None and o.tji_for_xy(q) is None and o.interpolated_z(q) is None, 'outside', 'point outside has a triangle', xy = q)
            ctx.equal(arr_tji[n], np.array((-1, -1)), 'outside-array', 'tji')
            ctx.check(bool(np.all(np.isnan(arr_tc[n])) and np.isnan(arr_z[n])), 'outside-z', 'value outside')
            continue
        inside += 1
        key, nodes, wts = found
        ctx.equal((tuple(int(v) for v in tji), tuple(int(v) for v in arr_tji[n]), tuple(int(v) for v in o.tji_for_xy(q))), (key, key, key), 'tji', 'triangle', xy = q)
        e = np.array([wts[nodes.index(tuple(int(v) for v in a))] for a in o.tri_nodes_for_tji(tji)])
        ctx.close(np.array(tc), e, 'trilinear', tol = 1.0e-6)
        ctx.close(arr_tc[n], e, 'trilinear-array', tol = 1.0e-6)
        ji, wt = o.ji_and_weights_for_xy(q)
        ctx.equal(ji, o.tri_nodes_for_tji(tji), 'ji', 'nodes')
        ctx.equal(arr_ji[n], o.tri_nodes_for_tji(tji), 'ji-array', 'nodes')
        ctx.close(np.stack((np.array(wt), arr_w[n])), np.stack((e, e)), 'weights', tol = 1.0e-6)
        z = float(sum(a * tm.p[b][2] for a, b in zip(wts, nodes)))
        ctx.close(np.array([o.interpolated_z(q), arr_z[n]]), np.array([z, z]), 'interpolated', tol = 1.0e-3 * tm.t ** 0 , xy = q)
    ctx.observe('points located', inside)
    with_nan = xy.copy()
    with_nan[0, 0] = np.nan
    t2, c2 = o.tji_tc_for_xy_array(with_nan)
    ctx.check(bool(np.all(t2[0] == -1) and np.all(np.isnan(c2[0]))), 'nan-point', 'not a number point has a triangle')
    ctx.equal(t2[1:], arr_tji[1:], 'nan-others', 'other points')
    shaped = o.interpolated_z_array(xy.reshape(4, 6, 2))
    ctx.close(shaped, arr_z.reshape(4, 6), 'shaped-array', tol = 0.0)
    # nodes of the mesh in other triangles
    others = tm.off[:2] + ctx.rng.uniform(-0.2, 1.2, (ctx.integer(1, 4), 3, 2)) * np.array([w, h])
    got = {tuple(int(v) for v in r) for r in o.tri_nodes_in_triangles(others)}
    for k, tri in enumerate(others):
        if abs(np.cross(tri[1] - tri[0], tri[2] - tri[0])) < 1.0e-3 * w * h:
            continue
        for j in range(tm.nj):
            for i in range(tm.ni):
                wts = bary(tri, tm.p[j, i, :2])
                if np.min(np.abs(wts)) < 1.0e-6:
                    continue
                ctx.equal((k, j, i) in got, bool(np.all(wts > 0.0)), 'nodes-in', 'node in triangle', j = j, i = i, k = k)
    ctx.check(all(0 <= j < tm.nj and 0 <= i < tm.ni for _, j, i in got), 'nodes-in-range', 'node out of range')
    # crossings
    edges = tm.edges()

    def expected(values):
        out = []
        for a, c in edges:
            va, vc = values[a], values[c]
            if va * vc < 0.0:
                f = va / (va - vc)
                out.append(tm.p[a] + f * (tm.p[c] - tm.p[a]))
        return np.array(out).reshape(-1, 3)

    def same(got, exp, code, **data):
        got = np.empty((0, 3)) if got is None else np.asarray(got)
        ctx.equal(len(got), len(exp), code + '-count', 'number of crossing points', **data)
        left = list(range(len(exp)))
        for q in got:
            d = [np.nanmax(np.abs(q - exp[k])) + (1.0e9 if not np.array_equal(np.isnan(q), np.isnan(exp[k])) else 0.0) for k in left]
            k = int(np.argmin(d))
            ctx.check(d[k] < 1.0e-6 * (1.0e3 + tm.t), code, 'crossing point not on the mesh', point = q, **data)
            left.pop(k)

    v = tm.z - 1000.0
    zv = ctx.choice([None, 'values'])
    if not np.any(np.isnan(tm.z)):
        if zv is not None:
            same(o.edge_zero_crossings(z_values = v), expected(v), 'zero-crossings')
        else:
            same(o.edge_zero_crossings(), expected(tm.p[..., 2]), 'zero-crossings')
    level = ctx.uniform(880.0, 1120.0)
    if not np.any(np.isnan(tm.z)):
        same(o.axial_edge_crossings(2, level), expected(tm.p[..., 2] - level), 'z-crossings')
    for axis in (0, 1):
        if np.any(np.isnan(tm.z)):
            break
        size = w if axis == 0 else h
        f = ctx.uniform(-0.1, 1.1)
        value = tm.off[axis] + f * size
        if np.min(np.abs(tm.p[..., axis] - value)) < 1.0e-4 * tm.t:
            continue
        same(o.axial_edge_crossings(axis, value), expected(tm.p[..., axis] - value), 'xy'[axis] + '-crossings', value = value, f = f)
    if not np.any(np.isnan(tm.z)) and ctx.flag(0.5):  # along a row of nodes: ends of the row are crossed, and nodes are on the mesh
        j = ctx.integer(0, tm.nj - 1)
        q = o.axial_edge_crossings(1, float(tm.p[j, 0, 1]))
        if q is not None and len(q):
            ctx.check(bool(np.all(np.abs(np.asarray(q)[:, 1] - tm.p[j, 0, 1]) < 1.0e-6 * (1.0e3 + tm.t))), 'row-crossing', 'crossing points off the row')
    ctx.observe('crossing queries')
    # surface
    ex = ctx.flag()
    r = objects.Builder(ctx, o.model).interp(0.4)
    o.set_represented_interpretation_root(r)
    s = rqs.Surface.from_tri_mesh(o, exclude_nans = ex)
    ctx.equal(objects.norm(s.represented_interpretation_root), objects.norm(r), 'surface-interpretation', 'interpretation')
    st, sp = s.triangles_and_points()
    good = ~np.isnan(tm.z)
    if ex and not np.all(good):
        e = sorted(tuple(sorted(tuple(np.round(tm.p[a], 5)) for a in t)) for t in tris.values() if all(good[a] for a in t))
        g = sorted(tuple(sorted(tuple(np.round(sp[a], 5)) for a in t)) for t in st)
        ctx.equal(len(g), len(e), 'surface-triangles', 'number of triangles')
        if len(e):
            ctx.close(np.array(g), np.array(e), 'surface-nan-free', tol = 1.0e-4)
    else:
        ctx.equal(st, tt, 'surface', 'triangles')
        ctx.close(sp, pp, 'surface-points', tol = 0.0)
    ctx.equal((str(s.crs_uuid), s.surface_role, s.title), (str(crs.uuid), tm.role, o.title), 'surface-attributes', 'surface')


def compatibility(ctx):
    """Tri meshes are compatible exactly when their xy points agree."""
    import resqpy.crs as rqc
    import resqpy.surface as rqs
    m = gen.model(ctx, crs = False)
    crs = objects.Builder(ctx, m).add('crs').obj
    tm = Tri(ctx, m, crs)
    o = tm.o
    what = ctx.choice(['same', 'side', 'origin', 'extent', 'zero origin', 'crs', 'equal crs', 'z'])
    kw = dict(t_side = tm.t, nj = tm.nj, ni = tm.ni, origin = tm.org, z_values = None, crs_uuid = crs.uuid)
    exp = True
    if what == 'side':
        kw['t_side'] *= ctx.choice([1.5, 0.9, 1.001])
        exp = False
    elif what == 'origin':
        kw['origin'] = tuple(tm.off[:2] + np.array(ctx.choice([(1.0, 0.0), (0.0, 1.0), (-5.0, 3.0)]))) + (0.0,)
        exp = False
    elif what == 'extent':
        k = ctx.choice(['nj', 'ni'])
        kw[k] += 1
        exp = False
    elif what == 'zero origin':
        o = rqs.TriMesh(m, t_side = tm.t, nj = tm.nj, ni = tm.ni, origin = None, crs_uuid = crs.uuid, title = 'n')
        kw['origin'] = (0.0, 0.0, ctx.choice([0.0, 50.0]))
    elif what == 'z':
        if tm.org is not None:
            kw['origin'] = tuple(tm.off[:2]) + (77.0,)
    elif what in ('crs', 'equal crs'):
        c2 = rqc.Crs(m, uuid = crs.uuid)
        import resqpy.olio.uuid as bu
        c2.uuid = bu.new_uuid()
        if what == 'crs':
            c2.x_offset = (c2.x_offset or 0.0) + 100.0
            exp = False
        c2.create_xml(reuse = False)
        kw['crs_uuid'] = c2.uuid
    other = rqs.TriMesh(m, title = 'other', **kw)
    ctx.sig(what)
    ctx.equal((bool(o.is_compatible_with(other)), bool(other.is_compatible_with(o)), bool(o.is_compatible_with(o)), bool(o.is_compatible_with(None))),
              (exp, exp, True, False), 'compatible', what)
    z = z_array(ctx, (tm.nj, tm.ni))
    x = gen.metadata(ctx)
    n = rqs.TriMesh.from_tri_mesh_and_z_values(tm.o, z, z_uom = ctx.choice([None, 'ft']), title = ctx.choice([None, 'new']), extra_metadata = x)
    e = tm.p.copy()
    e[..., 2] = z
    ctx.close(n.full_array_ref(), e, 'new-z', tol = 1.0e-9 * (1.0e3 + 1.0e4 * tm.t))
    ctx.check(bool(n.is_compatible_with(tm.o)), 'new-z-compatible', 'mesh with new z values is not compatible')
    ctx.close(tm.o.full_array_ref(), tm.p, 'old-kept', tol = 1.0e-9 * (1.0e3 + 1.0e4 * tm.t))
    put(n)
    ctx.close(rqs.TriMesh(again(m), uuid = n.uuid).full_array_ref(), e, 'new-z-stored', tol = 1.0e-9 * (1.0e3 + 1.0e4 * tm.t))
    ctx.observe('compatibility questions')


def stencil(ctx):
    """Applying a stencil is the weighted sum over hexagonal rings."""
    import resqpy.surface as rqs
    m = gen.model(ctx, crs = False)
    crs = objects.Builder(ctx, m).add('crs').obj
    tm = Tri(ctx, m, crs, ctx.choice([0.0, 0.1, 0.4]), title = 'smooth me')
    n = ctx.integer(2, 5)
    flat = ctx.flag()
    how = ctx.choice(['raw', 'normalized', 'constant n', 'constant', 'linear n', 'linear', 'gauss n', 'gauss'])
    S = rqs.TriMeshStencil
    k = np.arange(n)
    sigma = ctx.uniform(1.0, 4.0)
    g = np.exp(-0.5 * (k * sigma / (n - 1)) ** 2)
    norm = None
    if how in ('raw', 'normalized'):
        pat = ctx.rng.uniform(0.1, 2.0, n)
        norm = ctx.choice([1.0, 2.5]) if how == 'normalized' else None
        given = pat.copy()
        st = S(given, normalize = norm, normalize_mode_flat = flat)
        ctx.equal(given, pat, 'pattern-kept', 'input pattern')
    elif how == 'constant n':
        pat, norm, st = np.ones(n), 1.0, S.for_constant_normalized(n, flat)
    elif how == 'constant':
        c = ctx.uniform(0.5, 3.0)
        pat, st = np.full(n, c), S.for_constant_unnormalized(n, c)
    elif how == 'linear n':
        pat, norm, st = (n - k).astype(float), 1.0, S.for_linear_normalized(n, flat)
    elif how == 'linear':
        a, z = ctx.uniform(1.0, 3.0), ctx.uniform(0.0, 0.9)
        pat, st = np.linspace(a, z, n), S.for_linear_unnormalized(n, a, z)
    elif how == 'gauss n':
        pat, norm, st = g.copy(), 1.0, S.for_gaussian_normalized(n, sigma, flat)
    else:
        a = ctx.uniform(1.0, 3.0)
        pat, st = a * g, S.for_gaussian_unnormalized(n, a, sigma)
    ring = np.where(k == 0, 1, 6 * k)
    if norm is not None:
        pat = pat * norm / np.sum(pat * ring) if flat else pat * norm / np.sum(pat) / ring
    ctx.close(st.pattern, pat, 'pattern', tol = 1.0e-12, rtol = 1.0e-9)
    ctx.equal(st.n, n, 'length', 'n')
    handle, border, preserve = ctx.flag(0.6), ctx.choice([np.nan, np.nan, 0.0, 1000.0]), ctx.flag()
    title = ctx.choice([None, 'out'])
    o = st.apply(tm.o, handle_nan = handle, border_value = border, preserve_nan = preserve, title = title)
    got = o.full_array_ref()
    ctx.close(got[..., :2], tm.p[..., :2], 'xy', tol = 1.0e-9 * (1.0e3 + 1.0e4 * tm.t))
    ctx.close(tm.o.full_array_ref(), tm.p, 'input-kept', tol = 1.0e-9 * (1.0e3 + 1.0e4 * tm.t))
    ctx.equal((o.title, o.surface_role, str(o.crs_uuid), o.z_uom), (title or 'smooth me', tm.role, str(crs.uuid), tm.uom), 'attributes', 'new mesh')
    # cube coordinates of the hexagonal lattice
    zin = tm.p[..., 2]

    def axial(j, i):
        q = i - (j - (j & 1)) // 2
        return q, j

    e = np.full((tm.nj, tm.ni), np.nan)
    for j in range(tm.nj):
        for i in range(tm.ni):
            q0, r0 = axial(j, i)
            a = ws = 0.0
            for j2 in range(j - n + 1, j + n):
                for i2 in range(i - 2 * n, i + 2 * n + 1):
                    q, r = axial(j2, i2)
                    d = max(abs(q - q0), abs(r - r0), abs(q + r - q0 - r0))
                    if d >= n:
                        continue
                    v = zin[j2, i2] if 0 <= j2 < tm.nj and 0 <= i2 < tm.ni else border
                    if handle and np.isnan(v):
                        continue
                    a += pat[d] * v
                    ws += pat[d]
            e[j, i] = (a / ws if ws else np.nan) if handle else a
    if preserve and np.any(np.isnan(zin)):
        if not handle:
            pass  # already not a number
        e[np.isnan(zin)] = np.nan
    ctx.sig(how, n, handle, preserve, np.isnan(border))
    ctx.close(got[..., 2], e, 'convolution', tol = 1.0e-6, rtol = 1.0e-9, how = how)
    ctx.observe('stencils applied')


SCENARIOS = [
    Scenario(flavours, 25),
    Scenario(equivalents, 25),
    Scenario(single_rows, 12),
    Scenario(files, 25),
    Scenario(added, 40),
    Scenario(grid_columns, 12),
    Scenario(point_sets, 30),
    Scenario(line_points, 20),
    Scenario(tri_mesh, 25),
    Scenario(compatibility, 20),
    Scenario(stencil, 20),
]
