"""C13: cell volumes, centres, thicknesses and lengths against independent evaluation from corner points."""

import numpy as np

from props.spec import spec
from rv import gen
from rv.core import Scenario, Skip
from rv.gridgen import random_grid

PROP = spec('C13')

GP = (0.5 - 0.5 / np.sqrt(3.0), 0.5 + 0.5 / np.sqrt(3.0))


def exact_volumes(cp):
    """Signed volume (positive where i, j, k vectors are right handed in the numbers), bilinear faces; cp (..., 2, 2, 2, 3)."""
    v = np.zeros(cp.shape[:-4])
    for a in GP:
        for b in GP:
            for c in GP:
                wk, wj, wi = np.array([1 - a, a]), np.array([1 - b, b]), np.array([1 - c, c])
                dk = np.einsum('...kjix,k,j,i->...x', cp, np.array([-1.0, 1.0]), wj, wi)
                dj = np.einsum('...kjix,k,j,i->...x', cp, wk, np.array([-1.0, 1.0]), wi)
                di = np.einsum('...kjix,k,j,i->...x', cp, wk, wj, np.array([-1.0, 1.0]))
                v += np.sum(di * np.cross(dj, dk), axis = -1) / 8.0
    return v


def make(ctx, undefined = False, axis_ok = False, **kw):
    import resqpy.crs as rqc
    import resqpy.grid as grr
    import resqpy.model as rq
    m = gen.model(ctx, crs = False)
    xyu = ctx.choice(['m', 'm', 'ft', 'ft[US]', 'km'])
    zu = xyu if ctx.flag(0.6) else ctx.choice(['m', 'ft', 'cm'])
    zdown = ctx.flag(0.7)
    off = (ctx.integer(-5000, 5000) / 2.0, ctx.integer(-5000, 5000) / 2.0, 0.0) if ctx.flag(0.3) else (0.0, 0.0, 0.0)
    c = rqc.Crs(m, xy_units = xyu, z_units = zu, z_inc_down = zdown, x_offset = off[0], y_offset = off[1], z_offset = off[2])
    c.create_xml()
    m.crs_uuid = c.uuid
    raw = random_grid(ctx, growth = ctx.flag(0.4), undefined = undefined, z_inc_down = zdown, **kw)
    raw.xyu, raw.zu = xyu, zu
    uuid = raw.persist(m)
    if ctx.flag(0.4):
        m.store_epc()
        m = rq.Model(ctx.path('m.epc'))
    g = grr.Grid(m, uuid = uuid)
    return m, raw, g


def vol_factor(raw, uom):
    """Factor from crs xy xy z to unit."""
    si = gen.LENGTH_M[raw.xyu]**2 * gen.LENGTH_M[raw.zu]
    return si / VOL_SI[uom]


VOL_SI = {'m3': 1.0, 'ft3': 0.3048**3, 'bbl': 0.158987294928, 'km3': 1.0e9, 'cm3': 1.0e-6, '1000 m3': 1.0e3}


def default_vol_uom(raw):
    return {'m': 'm3', 'ft': 'ft3', 'ft[US]': 'ft3', 'km': 'km3', 'cm': 'cm3'}[raw.zu]


def volumes(ctx):
    m, raw, g = make(ctx, max_n = (4, 4, 4))
    cp = raw.to_cp()
    sv = exact_volumes(cp) * (1.0 if raw.det > 0 else -1.0)
    ctx.check(np.all(sv > -1.0e-3 * np.max(np.abs(sv))) or raw.pinched or raw.kind == 'curved', 'generator')
    scale = np.max(np.abs(cp[..., :2]))**2 * np.max(np.abs(cp[..., 2])) * 1.0e-13 + 1.0e-7
    prev = []
    n = ctx.integer(2, 5)
    hist = []
    for _ in range(n):
        uom = ctx.choice([None, None, 'm3', 'ft3', 'bbl', '1000 m3'])
        f = vol_factor(raw, uom or default_vol_uom(raw))
        kw = {}
        if ctx.flag(0.3):
            kw['cache_cp_array'] = ctx.flag()
        if ctx.flag(0.3):
            kw['cache_centre_array'] = ctx.flag()
        form = ctx.choice(['all', 'cell', 'cell-nocache'])
        hist.append((form, uom, sorted(kw)))
        ctx.log(form, uom, kw)
        if form == 'all':
            v = g.volume(required_uom = uom, **kw)
            ctx.close(v, sv * f, 'volume-all', tol = scale * f, rtol = 1.0e-6, uom = uom)
            prev.append((v, v.copy(), uom))
        else:
            c = (ctx.integer(0, raw.nk - 1), ctx.integer(0, raw.nj - 1), ctx.integer(0, raw.ni - 1))
            v = g.volume(cell_kji0 = c if ctx.flag() else list(c), required_uom = uom, cache_volume_array = form == 'cell', **kw)
            ctx.close(v, sv[c] * f, 'volume-cell', tol = scale * f, rtol = 1.0e-6, uom = uom, cell = c)
    for v, w, uom in prev:
        ctx.equal(v, w, 'volume-changed', 'array of volumes changed after it was returned', uom = uom)
    # a column of any grid: volumes of layers sum to that of the stack when there are no gaps
    if not raw.n_gaps and not raw.pinched and raw.kind in ('box', 'sheared'):
        whole = np.empty((raw.nj, raw.ni, 2, 2, 2, 3))
        whole[:, :, 0], whole[:, :, 1] = cp[0, :, :, 0], cp[-1, :, :, 1]
        ctx.close(np.sum(g.volume(), axis = 0),
                  exact_volumes(whole) * np.sign(raw.det) * vol_factor(raw, default_vol_uom(raw)), 'volume-stack',
                  tol = 1.0e-5, rtol = 1.0e-5)
    ctx.observe('cells', cp.shape[0] * cp.shape[1] * cp.shape[2])
    ctx.sig(raw.describe(), raw.xyu, raw.zu, hist)


def volume_functions(ctx):
    """Functions of olio.volume over arbitrary hexahedra, pyramids and tetrahedra."""
    import resqpy.olio.volume as vol
    n = [ctx.integer(1, 3) for _ in range(3)]
    base = np.zeros((2, 2, 2, 3))
    for k in range(2):
        for j in range(2):
            for i in range(2):
                base[k, j, i] = (i, j, k)
    scale = 10.0**ctx.uniform(-2, 3)
    noise = ctx.uniform(0.0, 0.4)
    mtx = np.linalg.qr(ctx.rng.normal(size = (3, 3)))[0] @ np.diag(ctx.rng.uniform(0.2, 3.0, 3))
    cp = (base + ctx.rng.uniform(-noise, noise, tuple(n) + (2, 2, 2, 3))) @ mtx.T * scale + ctx.rng.uniform(-10, 10, 3) * scale
    sv = exact_volumes(cp)
    s = np.sign(np.linalg.det(mtx))
    tol = 1.0e-9 * scale**3 * 100
    off = bool(s < 0)
    ctx.close(vol.tetra_volumes(cp, off_hand = off), sv * s, 'tetra-volumes', tol = tol)
    ctx.close(vol.tetra_volumes(cp, off_hand = not off), -sv * s, 'tetra-volumes-neg', tol = tol)
    centres = np.mean(cp, axis = (3, 4, 5)) + ctx.rng.uniform(-0.05, 0.05, tuple(n) + (3,)) * scale
    ctx.close(vol.tetra_volumes(cp, centres = centres, off_hand = off), sv * s, 'tetra-volumes-centres', tol = tol)
    ctx.close(vol.tetra_volumes_slow(cp, off_hand = off), sv * s, 'tetra-volumes-slow', tol = tol)
    ctx.close(vol.tetra_volumes_slow(cp, centres = centres, off_hand = off), sv * s, 'tetra-volumes-slow-centres', tol = tol)
    c = tuple(ctx.integer(0, x - 1) for x in n)
    ctx.close(vol.tetra_cell_volume(cp[c], off_hand = off), sv[c] * s, 'tetra-cell-volume', tol = tol)
    ctx.close(vol.tetra_cell_volume(cp[c], centre = centres[c], off_hand = off), sv[c] * s, 'tetra-cell-volume-centre', tol = tol)
    # pyramids with one face as base
    q = cp[c]
    a, b, d, e = q[0, 0, 0], q[0, 0, 1], q[0, 1, 1], q[0, 1, 0]
    apex = np.mean(q[1], axis = (0, 1))
    pv = 0.0
    for x in GP:
        for y in GP:
            p = (1 - y) * ((1 - x) * a + x * b) + y * ((1 - x) * e + x * d)
            du = (1 - y) * (b - a) + y * (d - e)
            dv = (1 - x) * (e - a) + x * (d - b)
            pv += np.dot(p - apex, np.cross(du, dv)) / 12.0
    got = vol.pyramid_volume(tuple(apex), tuple(a), tuple(b), tuple(d), tuple(e), crs_is_right_handed = True)
    # as seen from the apex the base is a, b, d, e: clockwise for a left handed system
    ctx.close(abs(got), abs(pv), 'pyramid-volume', tol = tol)
    ctx.close(vol.pyramid_volume(apex, a, b, d, e), -got, 'pyramid-hand', tol = tol)
    ctx.close(vol.pyramid_volume(apex, a, e, d, b), got, 'pyramid-reversed', tol = tol)
    ctx.close(vol.pyramid_volume(apex, b, d, e, a), -got, 'pyramid-rotated', tol = tol)
    tv = abs(np.linalg.det(np.array([b - a, d - a, apex - a]))) / 6.0
    for o in ((a, b, d, apex), (apex, d, a, b), (b, apex, a, d)):
        ctx.close(vol.tetrahedron_volume(*[tuple(x) for x in o]), tv, 'tetrahedron-volume', tol = tol)
    # unit pyramid with known sense: clockwise viewed from apex in left handed (z down) system is positive
    sq = [(0.0, 0.0, 1.0), (1.0, 0.0, 1.0), (1.0, 1.0, 1.0), (0.0, 1.0, 1.0)]
    r = vol.pyramid_volume((0.5, 0.5, 0.0), *sq)
    ctx.close(abs(r), 1.0 / 3.0, 'pyramid-unit', tol = 1.0e-12)
    ctx.sig(n, noise, off)


def thicknesses(ctx):
    und = ctx.flag(0.25)
    m, raw, g = make(ctx, undefined = und, max_n = (4, 4, 4))
    cp = raw.to_cp()
    t = np.abs(np.mean(cp[:, :, :, 1, :, :, 2] - cp[:, :, :, 0, :, :, 2], axis = (3, 4)))
    hist = []
    for _ in range(ctx.integer(2, 5)):
        form = ctx.choice(['all', 'cell', 'cell-nocache', 'pinch-all', 'pinch-cell', 'corner'])
        hist.append(form)
        c = (ctx.integer(0, raw.nk - 1), ctx.integer(0, raw.nj - 1), ctx.integer(0, raw.ni - 1))
        kw = {}
        if ctx.flag(0.3):
            kw['cache_cp_array'] = ctx.flag()
        if ctx.flag(0.3):
            kw['cache_resqml_array'] = ctx.flag()
        ctx.log(form, kw)
        if form == 'all':
            ctx.close(g.thickness(**kw), t, 'thickness-all', tol = 1.0e-6)
        elif form in ('cell', 'cell-nocache'):
            got = g.thickness(c, cache_thickness_array = form == 'cell', **kw)
            if np.isnan(t[c]) and got is None:
                continue
            ctx.close(got, t[c], 'thickness-cell', tol = 1.0e-6, cell = c)
        elif form == 'corner':
            ctx.close(g.corner_points(), cp, 'corner-points', tol = 1.0e-9)
        else:
            sure = ~(t > 0.001)
            near = np.abs(t - 0.001) < 1.0e-5
            if form == 'pinch-all':
                got = np.asarray(g.pinched_out())
                ctx.check(np.all((got == sure) | near), 'pinched-out-all', got = got, expected = sure)
            else:
                got = g.pinched_out(c, cache_pinchout_array = ctx.choice([None, True]))
                if got is None or near[c] or np.isnan(t[c]):
                    continue
                ctx.check(bool(got) == bool(sure[c]), 'pinched-out-cell', cell = c, got = got)
    ctx.sig(raw.describe(), und, hist)


def interfaces(ctx):
    m, raw, g = make(ctx, max_n = (3, 3, 3))
    cp = raw.to_cp()
    fc = np.empty((3, 2) + raw.extent + (3,))
    for ax in range(3):
        for p in range(2):
            fc[ax, p] = np.mean(np.take(cp, p, axis = 3 + ax), axis = (3, 4))
    vecs = fc[:, 1] - fc[:, 0]
    true = vecs * np.array([1.0, 1.0, gen.LENGTH_M[raw.zu] / gen.LENGTH_M[raw.xyu]])
    hist = []
    for _ in range(6):
        c = (ctx.integer(0, raw.nk - 1), ctx.integer(0, raw.nj - 1), ctx.integer(0, raw.ni - 1))
        ax = ctx.integer(0, 2)
        uom = ctx.choice([None, 'm', 'ft', 'km'])
        f = 1.0 if uom is None else gen.LENGTH_M[raw.xyu] / gen.LENGTH_M[uom]
        form = ctx.integer(0, 6)
        hist.append(form)
        ctx.log(form, c, ax, uom)
        idx = (slice(None),) + c
        if form == 0:
            ctx.close(g.interface_vector(c, ax), vecs[(ax,) + c], 'interface-vector', tol = 1.0e-6)
        elif form == 1:
            ctx.close(g.interface_vector(None, ax), vecs[ax], 'interface-vectors-all', tol = 1.0e-6)
        elif form == 2:
            ctx.close(g.interface_vectors_kji(c), vecs[idx], 'interface-vectors-kji', tol = 1.0e-6)
        elif form == 3:
            got = g.interface_length(c, ax, required_uom = uom)
            ctx.close(got, np.linalg.norm(true[(ax,) + c]) * f, 'interface-length', tol = 1.0e-6 * f, rtol = 1.0e-6, axis = ax, uom = uom)
        elif form == 4:
            got = g.interface_lengths_kji(c, required_uom = uom)
            ctx.close(got, np.linalg.norm(true[idx], axis = -1) * f, 'interface-lengths', tol = 1.0e-6 * f, rtol = 1.0e-6, uom = uom)
        elif form == 5:
            ctx.close(g.centre_point(c), np.mean(cp[c], axis = (0, 1, 2)), 'centre', tol = 1.0e-6)
        else:
            ctx.close(g.centre_point(), np.mean(cp, axis = (3, 4, 5)), 'centres', tol = 1.0e-6)
    ctx.sig(raw.describe(), raw.xyu, raw.zu, hist)


def properties(ctx):
    """Volumes and thicknesses found in a property collection are used, with unit conversion."""
    import resqpy.property as rqp
    m, raw, g = make(ctx, max_n = (3, 3, 3), inactive = False)
    pc = rqp.GridPropertyCollection()
    pc.set_support(support = g)
    a = ctx.rng.uniform(1.0, 100.0, raw.extent)
    b = ctx.rng.uniform(1.0, 100.0, raw.extent)
    vu = ctx.choice(['m3', 'ft3', 'bbl'])
    vf = ctx.flag()
    pc.add_cached_array_to_imported_list(a, 'src', 'BRV', False, vu, property_kind = 'rock volume',
                                         facet_type = 'netgross' if vf else None, facet = 'gross' if vf else None)
    tk = ctx.choice(['gross', 'length', 'plain'])
    kw = {'gross': dict(property_kind = 'thickness', facet_type = 'netgross', facet = 'gross'),
          'length': dict(property_kind = 'cell length', facet_type = 'direction', facet = 'K'),
          'plain': dict(property_kind = 'thickness')}[tk]
    pc.add_cached_array_to_imported_list(b, 'src', 'DZ', False, 'm', **kw)
    noise = ctx.flag()
    if noise:
        pc.add_cached_array_to_imported_list(a * 0.5, 'src', 'NRV', False, vu, property_kind = 'rock volume',
                                             facet_type = 'netgross', facet = 'net')
        pc.add_cached_array_to_imported_list(b * 0.5, 'src', 'NT', False, 'm', property_kind = 'thickness',
                                             facet_type = 'netgross', facet = 'net')
        pc.add_cached_array_to_imported_list(b * 2.0, 'src', 'DX', False, 'm', property_kind = 'cell length',
                                             facet_type = 'direction', facet = 'I')
    pc.write_hdf5_for_imported_list()
    pc.create_xml_for_imported_list_and_add_parts_to_model()
    pc = rqp.GridPropertyCollection(grid = g)
    single = not noise or vf
    cell = (ctx.integer(0, raw.nk - 1), ctx.integer(0, raw.nj - 1), ctx.integer(0, raw.ni - 1))
    uom = ctx.choice([None, 'm3', 'ft3', 'bbl'])
    f = VOL_SI[vu] / VOL_SI[uom or default_vol_uom(raw)]
    form = ctx.choice(['all', 'cell', 'cell-nocache', 'both'])
    for w in ctx.rng.permutation(2):
        if w == 0 and single:
            # repeated so that a cached array is met too
            for _ in range(2):
                if form != 'all':
                    got = g.volume(cell, property_collection = pc, required_uom = uom, cache_volume_array = form != 'cell-nocache')
                    ctx.close(got, a[cell] * f, 'property-volume-cell', rtol = 1.0e-6, uom = (vu, uom), form = form)
                if form in ('all', 'both'):
                    got = g.volume(property_collection = pc, required_uom = uom)
                    ctx.close(got, a * f, 'property-volume', rtol = 1.0e-6, uom = (vu, uom))
            if ctx.flag(0.4):
                u2 = ctx.choice(['m3', 'ft3', 'bbl'])
                f2 = VOL_SI[vu] / VOL_SI[u2]
                ctx.close(g.volume(property_collection = pc, required_uom = u2), a * f2, 'property-volume', rtol = 1.0e-6, uom = (vu, u2))
            # the property itself is undisturbed
            p = pc.selective_parts_list(property_kind = 'rock volume', citation_title = 'BRV')[0]
            ctx.close(pc.cached_part_array_ref(p), a, 'property-array-disturbed', rtol = 1.0e-12)
        if w == 1 and (tk != 'plain' or not noise):
            if form != 'all':
                got = g.thickness(cell, property_collection = pc, cache_thickness_array = form != 'cell-nocache')
                ctx.close(got, b[cell], 'property-thickness-cell', rtol = 1.0e-9, kind = tk)
            if form in ('all', 'both'):
                ctx.close(g.thickness(property_collection = pc), b, 'property-thickness', rtol = 1.0e-9, kind = tk)
    ctx.sig(raw.extent, vu, uom, tk, noise, form)


SCENARIOS = [
    Scenario(volumes, 400),
    Scenario(volume_functions, 300),
    Scenario(thicknesses, 300),
    Scenario(interfaces, 250),
    Scenario(properties, 150)
]
