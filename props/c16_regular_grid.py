"""C16: regular grids against an explicit grid with the same corner points and against closed forms."""

import numpy as np

from props.spec import spec
from rv import gen
from rv.core import Scenario

PROP = spec('C16')


class Block:
    """Definition of a regular grid, with independent evaluation."""

    def __init__(self, ctx, max_n = 4, styles = ('aligned', 'negative', 'rotated', 'sheared', 'leaning')):
        self.extent = tuple(ctx.integer(1, max_n) for _ in range(3))
        self.style = ctx.choice(styles)
        size = np.array([ctx.uniform(1.0, 10.0), ctx.uniform(10.0, 100.0), ctx.uniform(10.0, 100.0)])  # k, j, i
        d = np.zeros((3, 3))
        for a in range(3):
            d[a, 2 - a] = size[a]
        if self.style == 'negative':
            for a in range(3):
                if ctx.flag():
                    d[a] = -d[a]
        elif self.style in ('rotated', 'leaning'):
            t = ctx.uniform(0.1, 6.2)
            r = np.array([[np.cos(t), np.sin(t), 0.0], [-np.sin(t), np.cos(t), 0.0], [0.0, 0.0, 1.0]])
            d = d @ r
            if self.style == 'leaning':  # rotation about a horizontal axis as well
                t = ctx.uniform(-0.4, 0.4)
                d = d @ np.array([[np.cos(t), 0.0, np.sin(t)], [0.0, 1.0, 0.0], [-np.sin(t), 0.0, np.cos(t)]])
        elif self.style == 'sheared':
            d[1, 0], d[2, 1] = ctx.uniform(-5.0, 5.0), ctx.uniform(-5.0, 5.0)
            if ctx.flag():
                d[0, :2] = ctx.uniform(-1.0, 1.0), ctx.uniform(-1.0, 1.0)
            if ctx.flag():
                d[1, 2], d[2, 2] = ctx.uniform(-2.0, 2.0), ctx.uniform(-2.0, 2.0)
        self.d = d
        self.aligned = self.style in ('aligned', 'negative')
        self.orthogonal = self.style != 'sheared'
        self.origin = np.zeros(3)

    def points(self):
        nk, nj, ni = self.extent
        k, j, i = np.meshgrid(np.arange(nk + 1), np.arange(nj + 1), np.arange(ni + 1), indexing = 'ij')
        return self.origin + k[..., None] * self.d[0] + j[..., None] * self.d[1] + i[..., None] * self.d[2]

    def cp(self):
        p = self.points()
        nk, nj, ni = self.extent
        out = np.empty((nk, nj, ni, 2, 2, 2, 3))
        for kp in range(2):
            for jp in range(2):
                for ip in range(2):
                    out[:, :, :, kp, jp, ip] = p[kp:nk + kp, jp:nj + jp, ip:ni + ip]
        return out

    def centres(self):
        return np.mean(self.cp(), axis = (3, 4, 5))


def explicit(ctx, m, b, crs_uuid):
    """Ordinary grid with the same points, loaded from the dataset."""
    import resqpy.crs as rqc
    import resqpy.grid as grr
    if ctx.flag():
        g = grr.RegularGrid(m, extent_kji = b.extent, dxyz_dkji = b.d, origin = b.origin, crs_uuid = crs_uuid, as_irregular_grid = True, title = 'explicit')
        ctx.observe('as_irregular_grid')
    else:
        g = grr.Grid(m, title = 'explicit')
        g.grid_representation = 'IjkGrid'
        g.extent_kji = np.array(b.extent)
        g.nk, g.nj, g.ni = b.extent
        g.k_direction_is_down = True
        g.grid_is_right_handed = False
        g.pillar_shape = 'straight'
        g.has_split_coordinate_lines = False
        g.k_gaps = None
        g.points_cached = b.points()
        g.crs_uuid = crs_uuid
        g.crs = rqc.Crs(m, uuid = crs_uuid)
        g.geometry_defined_for_all_pillars_cached = True
        g.geometry_defined_for_all_cells_cached = True
    g.write_hdf5()
    g.create_xml(write_geometry = True) if isinstance(g, grr.RegularGrid) else g.create_xml()
    e = grr.any_grid(m, uuid = g.uuid)
    ctx.check(type(e).__name__ == 'Grid', 'explicit-class', got = type(e).__name__)
    return e


def crs_for(ctx, m):
    import resqpy.crs as rqc
    if ctx.flag(0.3):
        kw = {}
    else:
        kw = gen.crs_kwargs(ctx)
        kw['axis_order'] = 'easting northing'
    c = rqc.Crs(m, title = 'block crs', **kw)
    c.create_xml(reuse = False)
    return c


def compare(ctx, r, b, e, crs):
    """Every inquiry of the regular grid, in random order so that cached arrays are in all states."""
    pts, cp, cen = b.points(), b.cp(), b.centres()
    nk, nj, ni = b.extent
    size = float(np.max(np.abs(pts))) + 1.0
    tol = dict(tol = 1.0e-9 * size)

    def cell():
        return tuple(ctx.integer(0, n - 1) for n in b.extent)

    def t_points():
        ctx.close(r.points_ref(masked = False), pts, 'points', **tol)

    def t_point_raw():
        k = tuple(ctx.integer(0, n) for n in b.extent)
        ctx.close(np.array(r.point_raw(index = k, cache_array = ctx.flag())), pts[k], 'point-raw', **tol)

    def t_point():
        k = tuple(ctx.integer(0, n) for n in b.extent)
        c = tuple(min(x, n - 1) for x, n in zip(k, b.extent))
        q = tuple(x - y for x, y in zip(k, c))
        ctx.close(np.array(r.point(cell_kji0 = c, corner_index = q)), cp[c + q], 'point', **tol)

    def t_cp_all():
        ctx.close(r.corner_points(), cp, 'corner-points', **tol)

    def t_cp_cell():
        c = cell()
        ctx.close(r.corner_points(c, cache_cp_array = ctx.flag(0.3)), cp[c], 'cell-corner-points', **tol)

    def t_centre():
        ctx.close(r.centre_point(), cen, 'centre-points', **tol)

    def t_centre_cell():
        c = cell()
        o = ctx.flag(0.7)
        ctx.close(np.array(r.centre_point(c, cache_centre_array = ctx.flag(0.3), use_origin = o)), cen[c] - (0.0 if o else b.origin), 'cell-centre', **tol)

    def t_centre_list():
        cs = np.array([cell() for _ in range(ctx.integer(1, 5))])
        ctx.close(r.centre_point_list(cs), cen[tuple(cs.T)], 'centre-list', **tol)

    def t_volume():
        if not b.orthogonal:
            return
        u = ctx.choice([None, 'm3', 'ft3', 'bbl'])
        c = cell()
        want = np.abs(e.volume(required_uom = u))
        ctx.close(r.volume(required_uom = u), want, 'volume', rtol = 1.0e-6)
        ctx.close(r.volume(c, required_uom = u), abs(float(e.volume(c, required_uom = u))), 'cell-volume', rtol = 1.0e-6)
        if crs.xy_units == crs.z_units and crs.xy_units in ('m', 'ft') and u is None:
            ctx.close(r.volume(), np.full(b.extent, abs(np.linalg.det(b.d))), 'volume-closed-form', rtol = 1.0e-9)

    def t_thickness():
        if abs(b.d[0, 0]) + abs(b.d[0, 1]) > 0.0:  # thickness is the length along the k axis for a regular grid
            ctx.close(r.thickness(), np.full(b.extent, np.linalg.norm(b.d[0])), 'thickness-length', rtol = 1.0e-12)
            return
        ctx.close(r.thickness(), e.thickness(), 'thickness', rtol = 1.0e-9)
        c = cell()
        ctx.close(r.thickness(c), float(e.thickness(c)), 'cell-thickness', rtol = 1.0e-9)
        ctx.close(r.thickness(), np.full(b.extent, abs(b.d[0, 2])), 'thickness-closed-form', rtol = 1.0e-9)

    def t_pinched():
        ctx.equal(r.pinched_out().tolist(), e.pinched_out(tolerance = 1.0e-6).tolist(), 'pinched-out')
        c = cell()
        ctx.equal(bool(r.pinched_out(c)), bool(e.pinched_out(c, tolerance = 1.0e-6)), 'cell-pinched-out')

    def t_box():
        box = np.stack((np.min(pts.reshape(-1, 3), axis = 0), np.max(pts.reshape(-1, 3), axis = 0)))
        ctx.close(r.xyz_box(local = True), box, 'local-box', **tol)
        ctx.close(r.xyz_box(local = True), e.xyz_box(lazy = False, local = True), 'local-box-explicit', **tol)
        ctx.close(r.xyz_box_centre(local = True), np.mean(box, axis = 0), 'local-box-centre', **tol)
        if crs.rotation == 0.0:  # see known finding of C08
            ctx.close(r.xyz_box(local = False), e.xyz_box(lazy = False, local = False), 'global-box', tol = 1.0e-6 * size, rtol = 1.0e-9)

    def t_shape():
        ctx.equal(r.actual_pillar_shape(), e.actual_pillar_shape(), 'pillar-shape')

    def t_axial():
        ctx.close(r.axial_lengths_kji(), np.linalg.norm(b.d, axis = 1), 'axial-lengths', rtol = 1.0e-12)
        if b.aligned:
            ctx.close(np.array(r.aligned_dxyz()), np.array([b.d[2, 0], b.d[1, 1], b.d[0, 2]]), 'aligned-dxyz', rtol = 1.0e-12)
            ctx.close(r.aligned_column_centres(), cen[0, :, :, :2], 'column-centres', **tol)
        ctx.equal(bool(r.is_aligned), b.aligned, 'is-aligned')

    def t_find():
        if not b.aligned:
            return
        for _ in range(3):
            jf, i_f = ctx.uniform(-0.6, nj + 0.6), ctx.uniform(-0.6, ni + 0.6)
            if min(abs(jf - round(jf)), abs(i_f - round(i_f))) < 1.0e-3:
                continue
            xy = b.origin[:2] + jf * b.d[1, :2] + i_f * b.d[2, :2]
            inside = 0 < jf < nj and 0 < i_f < ni
            want = (int(jf), int(i_f)) if inside else (None, None)
            if ctx.flag() or crs.rotation != 0.0:
                ctx.equal(tuple(r.find_cell_for_point_xy(xy[0], xy[1], k0 = ctx.integer(0, nk - 1))), want, 'cell-for-xy')
            else:
                g = np.array([[xy[0], xy[1], 0.0]])
                crs.local_to_global_array(g)
                ctx.equal(tuple(r.find_cell_for_point_xy(g[0, 0], g[0, 1], local_coords = False)), want, 'cell-for-global-xy')
            if inside:
                ctx.equal(tuple(e.find_cell_for_point_xy(xy[0], xy[1])), want, 'cell-for-xy-explicit')

    def t_slice():
        axis = ctx.integer(0, 2)
        s = ctx.integer(0, b.extent[axis])
        want = np.take(pts, s, axis = axis)
        ctx.close(r.slice_points(axis, s, local = True), want, 'slice', axis = axis, **tol)
        g = want.reshape(-1, 3).copy()
        crs.local_to_global_array(g)
        ctx.close(r.slice_points(axis, s, local = False).reshape(-1, 3), g, 'slice-global', axis = axis, tol = 1.0e-9 * (np.max(np.abs(g)) + 1.0))

    def t_face():
        c, axis, side = cell(), ctx.integer(0, 2), ctx.integer(0, 1)
        want = np.mean(np.take(cp[c], side, axis = axis), axis = (0, 1))
        ctx.close(np.array(r.face_centre(c, axis, side)), want, 'face-centre', **tol)
        f = r.face_centres_kji_01(c)
        for a in range(3):
            for s in range(2):
                ctx.close(f[a, s], np.mean(np.take(cp[c], s, axis = a), axis = (0, 1)), 'face-centres', **tol)

    def t_interface():
        c, axis = cell(), ctx.integer(0, 2)
        ctx.close(np.array(r.interface_vector(c, axis)), b.d[axis], 'interface-vector', **tol)
        ctx.close(float(r.interface_length(c, axis)), float(e.interface_length(c, axis)), 'interface-length', **tol)
        ctx.close(np.array(r.interface_lengths_kji(c)), e.interface_lengths_kji(c), 'interface-lengths', **tol)
        if crs.xy_units == crs.z_units:
            ctx.close(float(r.interface_length(c, axis)), float(np.linalg.norm(b.d[axis])), 'interface-length', **tol)
        ctx.close(np.array(r.interface_vectors_kji(c)), b.d, 'interface-vectors', **tol)

    def t_bounding():
        c = cell()
        q = cp[c].reshape(8, 3)
        ctx.close(r.bounding_box(c), np.stack((np.min(q, axis = 0), np.max(q, axis = 0))), 'bounding-box', **tol)

    def t_horizon():
        k, kp = ctx.integer(0, nk - 1), ctx.integer(0, 1)
        ctx.close(r.horizon_points(k, kp = kp), pts[k + kp], 'horizon', **tol)
        ctx.close(r.split_horizon_points(k, kp = kp), np.mean(e.split_horizon_points(k, kp = kp), axis = (), keepdims = False), 'split-horizon', **tol)
        axis = ctx.choice(['I', 'J'])
        s, f = ctx.integer(0, (ni if axis == 'I' else nj) - 1), ctx.flag()
        ctx.close(r.unsplit_x_section_points(axis, s, plus_face = f), e.unsplit_x_section_points(axis, s, plus_face = f), 'x-section', **tol)
        ctx.close(r.split_x_section_points(axis, s, plus_face = f), e.split_x_section_points(axis, s, plus_face = f), 'split-x-section', **tol)
        ctx.close(r.x_section_corner_points(axis, s, plus_face = f), e.x_section_corner_points(axis, s, plus_face = f), 'x-section-corners', **tol)

    def t_interpolated():
        c = cell()
        f = np.array([ctx.uniform(0.0, 1.0) for _ in range(3)])
        want = cp[c][0, 0, 0] + f @ b.d
        ctx.close(np.array(r.interpolated_point(c, tuple(f))), want, 'interpolated-point', **tol)

    def t_counts():
        ctx.equal(int(r.cell_count()), nk * nj * ni, 'cell-count')
        ctx.equal(int(r.cell_count(geometry_defined_only = True)), nk * nj * ni, 'defined-count')
        c = cell()
        ctx.check(r.cell_geometry_is_defined(c) and r.pillar_geometry_is_defined(c[1:]) and r.geometry_defined_for_all_cells() and
                  r.geometry_defined_for_all_pillars(), 'geometry-defined')
        ctx.equal(r.xy_units(), crs.xy_units, 'xy-units')
        ctx.equal(r.z_units(), crs.z_units, 'z-units')
        ctx.equal(bool(r.z_inc_down()), bool(crs.z_inc_down), 'z-inc-down')
        ctx.check(np.all(r.cell_geometry_is_defined_ref()) if r.cell_geometry_is_defined_ref() is not None else True, 'defined-array')

    def t_lines():
        ctx.close(r.coordinate_line_end_points(), e.coordinate_line_end_points(), 'coordinate-lines', **tol)
        ctx.close(r.z_corner_point_depths(), e.z_corner_point_depths(), 'z-corners', **tol)
        ctx.close(r.unsplit_points_ref(), pts, 'unsplit-points', **tol)

    def t_outline():
        c = cell()
        v = ctx.choice(['top', 'base'])
        ctx.close(np.array(r.poly_line_for_cell(c, vertical_ref = v)), np.array(e.poly_line_for_cell(c, vertical_ref = v)), 'cell-outline', **tol)

    tests = [v for k, v in list(locals().items()) if k.startswith('t_')]
    for t in ctx.subset(tests, len(tests)) if ctx.flag(0.8) else tests:
        t()
        ctx.observe(t.__name__)


def shuffled(ctx, x):
    return [x[i] for i in ctx.rng.permutation(len(x))]


def inquiries(ctx):
    """A regular grid in memory and as reloaded answers as the explicit grid does."""
    import resqpy.grid as grr
    m = gen.model(ctx, 'reg.epc', crs = False)
    crs = crs_for(ctx, m)
    b = Block(ctx)
    route = ctx.choice(['dxyz', 'dxyz_dkji', 'mesh']) if b.style == 'aligned' else ctx.choice(['dxyz_dkji', 'mesh'])
    kw = dict(crs_uuid = crs.uuid, title = gen.title(ctx), set_points_cached = ctx.flag(0.3), use_vertical = ctx.flag())
    if route == 'mesh' and (b.d[0, 0] != 0.0 or b.d[0, 1] != 0.0 or b.d[0, 2] < 0.0 or np.any(b.d[1:, 2] != 0.0)):
        route = 'dxyz_dkji'
    if route == 'dxyz':
        r = grr.RegularGrid(m, extent_kji = b.extent, dxyz = (b.d[2, 0], b.d[1, 1], b.d[0, 2]), **kw)
    elif route == 'mesh':
        import resqpy.surface as rqs
        mesh = rqs.Mesh(m, mesh_flavour = 'regular', nj = b.extent[1] + 1, ni = b.extent[2] + 1, origin = tuple(b.origin),
                        dxyz_dij = np.stack((b.d[2], b.d[1])), crs_uuid = crs.uuid, title = 'source')
        if ctx.flag():
            del kw['crs_uuid']
        r = grr.RegularGrid(m, extent_kji = b.extent, mesh = mesh, mesh_dz_dk = b.d[0, 2], **kw)
    else:
        r = grr.RegularGrid(m, extent_kji = b.extent, dxyz_dkji = b.d, **kw)
    ctx.equal(str(r.crs_uuid), str(crs.uuid), 'crs-kept')
    e = explicit(ctx, m, b, crs.uuid)
    compare(ctx, r, b, e, crs)
    ctx.sig(b.extent, b.style, route, kw['set_points_cached'])


def round_trip(ctx):
    """Definition and answers after storing, in each way a regular grid may be stored."""
    import resqpy.grid as grr
    import resqpy.crs as rqc
    import resqpy.model as rq
    import resqpy.property as rqp
    m = gen.model(ctx, 'reg.epc', crs = False)
    crs = crs_for(ctx, m)
    how = ctx.choice(['lattice', 'lattice', 'lengths', 'explicit'])
    styles = {'lattice': ('aligned', 'negative'), 'lengths': ('aligned',)}.get(how, ('aligned', 'negative', 'rotated', 'sheared', 'leaning'))
    b = Block(ctx, styles = styles)
    if how == 'explicit':
        b.origin = np.array([ctx.uniform(-1.0e4, 1.0e4) for _ in range(3)])
    x = gen.metadata(ctx) or {}
    t = gen.title(ctx)
    r = grr.RegularGrid(m, extent_kji = b.extent, dxyz_dkji = b.d, origin = tuple(b.origin), crs_uuid = crs.uuid, title = t, extra_metadata = x,
                        as_irregular_grid = how == 'explicit', set_points_cached = ctx.flag(0.3))
    if ctx.flag(0.3):
        r.points_ref(masked = False)
    if how == 'explicit':
        r.make_regular_points_cached()
        r.write_hdf5()
        r.create_xml(write_geometry = True, extra_metadata = dict(x))
    elif how == 'lattice':
        r.create_xml(add_cell_length_properties = ctx.flag(), expand_const_arrays = False, extra_metadata = dict(x))
    else:
        r.create_xml(use_lattice = False, write_geometry = False, add_cell_length_properties = True, extra_metadata = dict(x))
    a = ctx.rng.normal(size = b.extent)
    p = rqp.Property.from_array(m, a, 'test', 'values', r.uuid, property_kind = 'porosity', uom = 'm3/m3')
    col = rqp.Property.from_array(m, a[0], 'test', 'column values', r.uuid, property_kind = 'porosity', uom = 'm3/m3', indexable_element = 'columns')
    m.store_epc()
    m.h5_release()
    m = rq.Model(m.epc_file)
    g = grr.any_grid(m, uuid = r.uuid)
    ctx.check(type(g).__name__ == ('Grid' if how == 'explicit' else 'RegularGrid'), 'reloaded-class', how = how, got = type(g).__name__)
    ctx.equal(tuple(int(n) for n in g.extent_kji), b.extent, 'reloaded-extent')
    ctx.equal(g.title, t, 'reloaded-title')
    ctx.equal(str(g.crs_uuid), str(crs.uuid), 'reloaded-crs')
    ctx.check(all(str(g.extra_metadata.get(k)) == str(v) for k, v in x.items()), 'reloaded-metadata', got = g.extra_metadata, want = x)
    c2 = rqc.Crs(m, uuid = crs.uuid)
    e = explicit(ctx, m, b, crs.uuid)
    if how == 'explicit':
        ctx.close(g.points_ref(masked = False), b.points(), 'reloaded-points', rtol = 1.0e-12, tol = 1.0e-9)
        ctx.close(g.centre_point(), b.centres(), 'reloaded-centres', tol = 1.0e-6)
        ctx.close(g.corner_points(), b.cp(), 'reloaded-corner-points', tol = 1.0e-8)
    else:
        ctx.close(g.block_dxyz_dkji, b.d, 'reloaded-steps', rtol = 1.0e-12)
        ctx.close(g.block_origin, b.origin, 'reloaded-origin')
        compare(ctx, g, b, e, c2)
    pc = g.extract_property_collection()
    parts = [q for q in pc.parts() if pc.citation_title_for_part(q) == 'values']
    ctx.equal(len(parts), 1, 'property-parts')
    ctx.close(pc.cached_part_array_ref(parts[0]), a, 'property-array', rtol = 1.0e-12)
    ctx.close(rqp.Property(m, uuid = col.uuid).array_ref(), a[0], 'column-property', rtol = 1.0e-12)
    if how == 'lengths' or any(pc.citation_title_for_part(q) == 'DX' for q in pc.parts()):
        for axis, (name, facet) in enumerate((('DZ', 'K'), ('DY', 'J'), ('DX', 'I'))):
            q = [q for q in pc.parts() if pc.citation_title_for_part(q) == name]
            ctx.equal(len(q), 1, 'length-property')
            ctx.equal(pc.facet_for_part(q[0]), facet, 'length-facet')
            ctx.close(pc.constant_value_for_part(q[0]), float(np.linalg.norm(b.d[axis])), 'length-value', rtol = 1.0e-9)
            ctx.close(pc.cached_part_array_ref(q[0]), np.full(b.extent, np.linalg.norm(b.d[axis])), 'length-array', rtol = 1.0e-9)
        ctx.observe('length_properties')
    if how == 'lattice' and ctx.flag(0.4):  # a copy in another dataset
        m2 = gen.model(ctx, 'other.epc', crs = False)
        m2.copy_uuid_from_other_model(m, r.uuid)
        g2 = grr.any_grid(m2, uuid = r.uuid)
        ctx.close(g2.points_ref(masked = False), b.points(), 'copied-points', tol = 1.0e-6)
        ctx.equal(str(g2.crs_uuid), str(crs.uuid), 'copied-crs')
    ctx.observe('stored_' + how)
    ctx.sig(b.extent, b.style, how)


def _origin_grid(ctx, irregular):
    import resqpy.crs as rqc
    import resqpy.grid as grr
    m = gen.model(ctx, 'probe.epc', crs = False)
    c = rqc.Crs(m, title = 'plain')
    c.create_xml()
    return grr.RegularGrid(m, extent_kji = (1, 1, 1), dxyz = (10.0, 10.0, 10.0), origin = (100.0, 200.0, 300.0), crs_uuid = c.uuid,
                           as_irregular_grid = irregular)


def origin_probe(ctx):
    """Origin of a regular grid is applied both to points and to the crs, until the grid is reloaded."""
    g = _origin_grid(ctx, False)
    ctx.close(g.xyz_box(local = False)[0], np.array([100.0, 200.0, 300.0]), 'origin-applied-twice', tol = 1.0e-6)


def slice_probe(ctx):
    """slice_points() leaves out the origin, where the crs does not hold it."""
    g = _origin_grid(ctx, True)
    ctx.close(g.slice_points(0, 0, local = True)[0, 0], np.array([100.0, 200.0, 300.0]), 'origin-missing-from-slice', tol = 1.0e-6)


SCENARIOS = [
    Scenario(inquiries, quick = 300, name = 'inquiries'),
    Scenario(round_trip, quick = 200, name = 'round_trip'),
    Scenario(origin_probe, 2, probe = 'C16-regular-origin'),
    Scenario(slice_probe, 2, probe = 'C16-slice-origin'),
]
