"""C17: transmissibilities against closed forms, an independent half cell calculation and metamorphic relations."""

import numpy as np

from props.spec import spec
from props import c18_juxtaposition as jx
from rv import gen
from rv.core import Scenario, Skip
from rv.gridgen import random_grid, make_undefined

PROP = spec('C17')

DARCY = {'m': 8.527017e-5, 'ft': 1.127116e-3, 'ft[US]': 1.127116e-3}


def tri_areas(a, b, c):
    """Unsigned areas of triangles projected along x, y and z."""
    return 0.5 * np.abs(np.cross(b - a, c - a))


def half_cell(cp, perm, ntg, darcy):
    """Half cell values by the documented (NEWTRAN) method, from corner points; two arrays, one for each diagonal of the faces.

    perm is a list of k, j, i arrays
    """
    out = np.full((2,) + cp.shape[:3] + (3, 2), np.nan)
    for axis in range(3):
        faces = np.moveaxis(cp, 3 + axis, 3)  # (nk, nj, ni, 2 sides, 2, 2, 3)
        h = 0.5 * np.abs(np.mean(faces[:, :, :, 1], axis = (3, 4)) - np.mean(faces[:, :, :, 0], axis = (3, 4)))
        hh = np.sum(h * h, axis = -1)
        hh = np.where(hh < 1.0e-12, np.nan, hh)
        for s in range(2):
            q = faces[:, :, :, s]
            q00, q01, q10, q11 = q[..., 0, 0, :], q[..., 0, 1, :], q[..., 1, 0, :], q[..., 1, 1, :]
            areas = (tri_areas(q00, q01, q11) + tri_areas(q00, q11, q10), tri_areas(q01, q00, q10) + tri_areas(q01, q10, q11))
            for d in range(2):
                v = perm[axis] * np.sum(h * areas[d], axis = -1) / hh
                if axis != 0 and ntg is not None:
                    v = v * ntg
                out[d, ..., axis, s] = v * darcy
    return out


def perms(ctx, extent, zeros = None):
    p = [10.0**ctx.rng.uniform(0.0, 3.0, extent) for _ in range(3)]
    if ctx.flag(0.3) if zeros is None else zeros:
        for a in p:
            a[ctx.rng.random(extent) < 0.25] = 0.0
    if ctx.flag(0.2):
        p[ctx.integer(0, 2)][ctx.rng.random(extent) < 0.15] = np.nan
    if ctx.flag(0.2):
        p[1] = p[0].copy()
    ntg = None
    if ctx.flag(0.5):
        ntg = ctx.rng.uniform(0.2, 1.0, extent)
        if ctx.flag(0.3):
            ntg[ctx.rng.random(extent) < 0.2] = 0.0
    return p, ntg


def add_perms(ctx, m, uuid, p, ntg, realization = None):
    """Adds permeability and net to gross properties for a grid."""
    import resqpy.property as rqp
    for a, d in zip(p, 'KJI'):
        rqp.Property.from_array(m, a, 'test', 'KX' + d if realization is None else f'K{d}_{realization}', uuid,
                                property_kind = 'rock permeability', facet_type = 'direction', facet = d, uom = 'mD',
                                realization = realization)
    if ntg is not None:
        rqp.Property.from_array(m, ntg, 'test', 'NTG', uuid, property_kind = 'net to gross ratio', uom = 'm3/m3',
                                realization = realization)


def harmonic(a, b, extra = 0.0):
    """Zero where either does not conduct."""
    dead = ~((a >= 1.0e-6) & (b >= 1.0e-6))
    with np.errstate(all = 'ignore'):
        t = 1.0 / (1.0 / a + extra + 1.0 / b)
    return np.where(dead, 0.0, t)


def neighbour_tr(raw, half, mult = None, absolute = None):
    """Three face arrays from half cell values by definition, looping over pairs of cells."""
    out = []
    for axis in range(3):
        shape = list(raw.extent)
        shape[axis] += 1
        t = np.zeros(shape)
        a, b = [slice(None)] * 3, [slice(None)] * 3
        a[axis], b[axis] = slice(None, -1), slice(1, None)
        inner = [slice(None)] * 3
        inner[axis] = slice(1, -1)
        inner = tuple(inner)
        extra = 0.0
        stop = np.zeros(t[inner].shape, dtype = bool)
        if absolute is not None and absolute[axis] is not None:
            x = absolute[axis][inner]
            free = np.isnan(x) | np.isinf(x)
            stop |= ~free & (x <= 0.0)
            with np.errstate(all = 'ignore'):
                extra = np.where(free, 0.0, 1.0 / x)
        v = harmonic(half[tuple(a)][..., axis, 1], half[tuple(b)][..., axis, 0], extra)
        v = np.where(stop, 0.0, v)
        if mult is not None and mult[axis] is not None:
            x = mult[axis][inner]
            v = np.where(np.isnan(x), 0.0, v * x)
        t[inner] = v
        if axis == 0:
            for k in range(raw.nk - 1):
                if raw.gap_after[k]:
                    t[k + 1] = 0.0
        elif raw.split:
            for j in range(raw.nj - (axis == 1)):
                for i in range(raw.ni - (axis == 2)):
                    if axis == 1 and np.any(raw.pfc[j, i, 1] != raw.pfc[j + 1, i, 0]):
                        t[:, j + 1, i] = 0.0
                    if axis == 2 and np.any(raw.pfc[j, i, :, 1] != raw.pfc[j, i + 1, :, 0]):
                        t[:, j, i + 1] = 0.0
        out.append(t)
    return out


def crs_model(ctx):
    import resqpy.crs as rqc
    m = gen.model(ctx, crs = False)
    u = ctx.choice(['m', 'm', 'ft', 'ft[US]'])
    c = rqc.Crs(m, xy_units = u, z_units = u, z_inc_down = True)
    c.create_xml()
    m.crs_uuid = c.uuid
    return m, u


def fresh(m, uuid):
    """The grid loaded anew, with nothing cached."""
    import resqpy.grid as grr
    g = grr.any_grid(m, uuid = uuid)
    return g


def check_tr(ctx, got, expect, code, rtol = 1.0e-6, skip = None, **data):
    ctx.equal(len(got), 3, code + '-triple')
    for axis in range(3):
        ctx.equal(np.shape(got[axis]), expect[axis].shape, code + '-shape', axis = axis)
        g = np.array(got[axis])
        e = expect[axis]
        if skip is not None:
            g, e = np.where(skip[axis], 0.0, g), np.where(skip[axis], 0.0, e)
        ctx.close(g, e, code, tol = 1.0e-12, rtol = rtol, axis = axis, **data)
        ctx.check(not np.any(np.isnan(got[axis])) and np.all(np.asarray(got[axis]) >= 0.0), code + '-sign', 'negative or nan', axis = axis)


def box_grids(ctx):
    """Regular grids and their irregular equivalents at any orientation against area times permeability over distance."""
    import resqpy.grid as grr
    import resqpy.olio.transmission as rqtr
    m, u = crs_model(ctx)
    ext = tuple(ctx.integer(1, 4) for _ in range(3))
    d = np.array([ctx.uniform(5.0, 300.0), ctx.uniform(5.0, 300.0), ctx.uniform(0.5, 30.0)])  # x, y, z
    origin = (ctx.uniform(-1.0e5, 1.0e5), ctx.uniform(-1.0e5, 1.0e5), ctx.uniform(0.0, 4.0e3)) if ctx.flag(0.7) else (0.0, 0.0, 0.0)
    if ctx.flag(0.3):
        d, origin = np.round(d), tuple(np.round(origin))
    turn = ctx.choice(['none', 'swap', 'plan', 'any'])
    axes = np.diag(d[::-1])[:, ::-1]  # k, j, i rows
    if turn == 'swap':
        axes = axes * np.array([ctx.choice([1.0, -1.0]) for _ in range(3)])[:, np.newaxis]
    elif turn == 'plan':
        a = ctx.uniform(0.0, 2.0 * np.pi) if ctx.flag(0.7) else ctx.choice([0.25, 0.5, 0.75, 1.0]) * np.pi
        axes = axes @ np.array([[np.cos(a), -np.sin(a), 0.0], [np.sin(a), np.cos(a), 0.0], [0.0, 0.0, 1.0]])
    elif turn == 'any':
        axes = axes @ np.linalg.qr(ctx.rng.normal(size = (3, 3)))[0]
    p, ntg = perms(ctx, ext)
    darcy = None if ctx.flag(0.6) else 10.0**ctx.uniform(-6, 1)
    dc = DARCY[u] if darcy is None else darcy
    length = d[::-1]
    area = np.array([length[1] * length[2], length[2] * length[0], length[0] * length[1]])
    half = np.empty(ext + (3,))
    for axis in range(3):
        half[..., axis] = dc * p[axis] * area[axis] / (0.5 * length[axis])
        if axis and ntg is not None:
            half[..., axis] *= ntg
    reg = grr.RegularGrid(m, extent_kji = ext, dxyz_dkji = axes, origin = origin, crs_uuid = m.crs_uuid, title = 'regular')
    if reg.is_aligned:
        reg.create_xml(add_cell_length_properties = False)
    kw = dict(perm_k = p[0], perm_j = p[1], perm_i = p[2], darcy_constant = darcy)
    ones = np.ones(ext)
    given = ntg if ntg is not None else ones if ctx.flag() else 1.0
    got = rqtr.half_cell_t(reg, ntg = given, **kw)
    ctx.close(got, half, 'regular-half', rtol = 1.0e-9)
    # linear in the unit constant
    c = ctx.uniform(0.1, 10.0)
    got2 = rqtr.half_cell_t(reg, ntg = given, **dict(kw, darcy_constant = dc * c))
    ctx.close(got2, half * c, 'regular-darcy', rtol = 1.0e-9)
    # an equivalent irregular grid
    lattice = np.stack(np.meshgrid(*[np.arange(n + 1.0) for n in ext], indexing = 'ij'), axis = -1)
    raw = random_grid(ctx, n = ext, kind = 'box', faults = False, gaps = False, pinch = False, inactive = False)
    raw.points = (lattice @ axes + np.array(origin)).reshape((ext[0] + 1, -1, 3))
    raw.k_down = axes[0, 2] >= 0.0
    det = np.linalg.det(axes[::-1])
    raw.right_handed = det < 0.0
    uuid = raw.persist(m, title = 'irregular')
    g = fresh(m, uuid)
    got = rqtr.half_cell_t(g, ntg = given, **kw)
    scale = np.max(np.abs(np.concatenate((origin, (axes * np.array(ext)[:, None]).flatten()))))
    rt = 1.0e-7 + 100.0 * np.finfo(float).eps * scale / np.min(d)
    ctx.close(got, np.stack((half, half), axis = -1), 'box-half', rtol = rt, turn = turn)
    # between cells
    if darcy is None:
        full = np.stack((half, half), axis = -1)
        expect = neighbour_tr(raw, full)
        for axis in range(3):
            # the closed form: area over the sum of distance over permeability
            a, b = [slice(None)] * 3, [slice(None)] * 3
            a[axis], b[axis] = slice(None, -1), slice(1, None)
            n = ntg if ntg is not None and axis else ones
            ka, kb = (p[axis] * n)[tuple(a)], (p[axis] * n)[tuple(b)]
            with np.errstate(all = 'ignore'):
                t = dc * area[axis] / (0.5 * length[axis] / ka + 0.5 * length[axis] / kb)
            inner = [slice(None)] * 3
            inner[axis] = slice(1, -1)
            ctx.close(expect[axis][tuple(inner)], np.where((ka > 0) & (kb > 0), t, 0.0), 'oracle', rtol = 1.0e-9)
        r = None if ctx.flag(0.6) else ctx.integer(0, 5)
        for uu in (uuid, reg.uuid) if reg.is_aligned else (uuid,):
            add_perms(ctx, m, uu, p, ntg, realization = r)
            if r is not None and ctx.flag():
                add_perms(ctx, m, uu, [x * 3.0 + 1.0 for x in p], ntg, realization = r + 1)
            gg = fresh(m, uu)
            args = {} if r is None else {'realization': r}
            if ctx.flag(0.4):
                args['use_tr_properties'] = ctx.flag()
            for _ in range(ctx.integer(1, 2)):
                tr = gg.transmissibility(**args)
                check_tr(ctx, tr, expect, 'box-tr', rtol = rt, form = 'irregular' if uu == uuid else 'regular', args = args)
            h2 = gg.half_cell_transmissibility(**({} if r is None else {'realization': r}))
            ctx.close(h2, full, 'box-half-method', rtol = rt, form = 'irregular' if uu == uuid else 'regular')
    ctx.observe('cells', int(np.prod(ext)))
    ctx.sig(ext, turn, u, darcy is None, ntg is None, [int(np.sum(~(x > 0))) for x in p])


def general_raw(ctx, **kw):
    raw = random_grid(ctx, growth = ctx.flag(0.4), max_n = (4, 4, 4), inactive = False, **kw)
    if ctx.flag(0.15):
        make_undefined(ctx, raw)
    return raw


def within(ctx, got, pair, code, rt = 1.0e-6, **data):
    """Each value equals that for one or other diagonal."""
    lo, hi = np.fmin(pair[0], pair[1]), np.fmax(pair[0], pair[1])
    ctx.equal(np.isnan(got), np.isnan(pair[0]), code + '-nan', **data)
    ok = np.isnan(lo) | (np.abs(got - pair[0]) <= rt * np.abs(hi) + 1.0e-12) | (np.abs(got - pair[1]) <= rt * np.abs(hi) + 1.0e-12)
    ctx.check(np.all(ok), code, 'values differ', at = np.argwhere(~ok)[:3].tolist(), got = got[~ok][:3], want = pair[0][~ok][:3],
              alt = pair[1][~ok][:3], **data)


def general(ctx):
    """Half cell values and combinations for irregular, faulted and gapped grids."""
    import resqpy.olio.transmission as rqtr
    m, u = crs_model(ctx)
    raw = general_raw(ctx)
    cp = raw.to_cp()
    p, ntg = perms(ctx, raw.extent)
    uuid = raw.persist(m)
    g = fresh(m, uuid)
    darcy = None if ctx.flag() else 10.0**ctx.uniform(-6, 1)
    pair = half_cell(cp, p, ntg, DARCY[u] if darcy is None else darcy)
    given = ntg if ntg is not None else 1.0
    got = rqtr.half_cell_t(g, perm_k = p[0], perm_j = p[1], perm_i = p[2], ntg = given, darcy_constant = darcy)
    ctx.equal(got.shape, raw.extent + (3, 2), 'half-shape')
    ctx.check(not np.any(got < 0.0), 'half-negative')
    within(ctx, got, pair, 'half')
    # linear in permeability
    c = 10.0**ctx.uniform(-1.0, 2.0)
    which = ctx.integer(0, 2)
    q = [x * c if a == which else x for a, x in enumerate(p)]
    got2 = rqtr.half_cell_t(g, perm_k = q[0], perm_j = q[1], perm_i = q[2], ntg = given, darcy_constant = darcy)
    scaled = got.copy()
    scaled[..., which, :] *= c
    ctx.close(got2, scaled, 'half-linear', rtol = 1.0e-9, axis = which)
    add_perms(ctx, m, uuid, p, ntg)
    g = fresh(m, uuid)
    tr = [np.array(x) for x in g.transmissibility(**({'use_tr_properties': ctx.flag()} if ctx.flag(0.3) else {}))]
    dc = DARCY[u]
    half = rqtr.half_cell_t(fresh(m, uuid), perm_k = p[0], perm_j = p[1], perm_i = p[2], ntg = given, darcy_constant = dc)
    expect = neighbour_tr(raw, half)
    check_tr(ctx, tr, expect, 'tr')
    # symmetric in the pair: the same grid with layers listed in the opposite order
    rev = RawReversed(raw)
    m2, _ = crs_model_like(ctx, u)
    uuid2 = rev.persist(m2)
    add_perms(ctx, m2, uuid2, [x[::-1] for x in p], None if ntg is None else ntg[::-1])
    tr2 = fresh(m2, uuid2).transmissibility()
    # the choice of diagonal alters with the listing for faces which are not planar
    planar = raw.kind in ('box', 'sheared') and not raw.pinched
    for axis in range(3):
        ctx.close(np.asarray(tr2[axis])[::-1], tr[axis], 'tr-reversed', tol = 1.0e-9, rtol = 1.0e-6 if planar or axis == 0 else 0.5,
                  axis = axis)
    # linear in permeability between cells
    m3, _ = crs_model_like(ctx, u)
    uuid3 = raw.persist(m3)
    add_perms(ctx, m3, uuid3, [x * 8.0 for x in p], ntg)
    tr3 = fresh(m3, uuid3).transmissibility()
    check_tr(ctx, tr3, [x * 8.0 for x in tr], 'tr-linear', skip = [(x < 2.0e-6) for x in tr])
    ctx.observe('faces', sum(int(np.count_nonzero(x)) for x in tr))
    ctx.sig(raw.describe(), u, ntg is None, [int(np.count_nonzero(x)) for x in tr])


def RawReversed(raw):
    import copy
    r = copy.copy(raw)
    r.points = raw.points[::-1].copy()
    r.gap_after = raw.gap_after[::-1].copy()
    r.raw_k = np.arange(raw.nk) + np.concatenate(([0], np.cumsum(r.gap_after))).astype(int)[:raw.nk]
    r.k_down = not raw.k_down
    r.right_handed = not raw.right_handed
    r.det = -raw.det
    if raw.cell_undefined is not None:
        r.cell_undefined = raw.cell_undefined[::-1].copy()
    return r


def crs_model_like(ctx, u):
    import resqpy.crs as rqc
    crs_model_like.n = getattr(crs_model_like, 'n', 0) + 1
    import resqpy.model as rq
    m = rq.new_model(ctx.path(f'alike{crs_model_like.n}.epc'))
    c = rqc.Crs(m, xy_units = u, z_units = u, z_inc_down = True)
    c.create_xml()
    m.crs_uuid = c.uuid
    return m, u


def modifiers(ctx):
    """Transmissibility properties and multipliers held as properties."""
    import resqpy.property as rqp
    m, u = crs_model(ctx)
    raw = general_raw(ctx, pinch = False)
    p, ntg = perms(ctx, raw.extent)
    uuid = raw.persist(m)
    add_perms(ctx, m, uuid, p, ntg)
    half = np.array(fresh(m, uuid).half_cell_transmissibility(use_property = False))
    within(ctx, half, half_cell(raw.to_cp(), p, ntg, DARCY[u]), 'half-method')
    nk, nj, ni = raw.extent
    shapes = [(nk + 1, nj, ni), (nk, nj + 1, ni), (nk, nj, ni + 1)]
    mode = ctx.choice(['faces multiplier', 'faces multiplier', 'faces per cell multiplier', 'absolute', 'stored', 'stored half', 'none'])
    form = ctx.choice(['directional', 'composite', 'some'])
    args = {}
    if ctx.flag(0.4):
        args['use_tr_properties'] = ctx.flag() if not mode.startswith('stored') else True

    def put(a, title, kind, **kw):
        rqp.Property.from_array(m, a, 'test', title, uuid, property_kind = kind, **kw)

    def faces_arrays(low, high, nan = 0.1, inf = 0.0, zero = 0.1):
        out = []
        for s in shapes:
            a = ctx.rng.uniform(low, high, s)
            r = ctx.rng.random(s)
            a[r < nan] = np.nan
            a[(r >= nan) & (r < nan + inf)] = np.inf
            a[(r >= nan + inf) & (r < nan + inf + zero)] = 0.0
            out.append(a)
        return out

    def put_faces(arrays, title, kind, uom, kinds = None):
        """Stores in the chosen form and returns the list in force."""
        use = [True] * 3
        if form == 'composite':
            put(np.concatenate([a.flatten() for a in arrays]), title, kind, indexable_element = 'faces', uom = uom)
        else:
            if form == 'some':
                use = [ctx.flag() for _ in range(3)]
                use[ctx.integer(0, 2)] = True
            for axis in range(3):
                if use[axis]:
                    put(arrays[axis], title + 'KJI'[axis], kinds[axis] if kinds else kind, indexable_element = 'faces',
                        facet_type = 'direction', facet = 'KJI'[axis], uom = uom)
        return [a if on else None for a, on in zip(arrays, use)]

    if mode == 'faces multiplier':
        mult = put_faces(faces_arrays(0.0, 3.0), 'TMULT', 'transmissibility multiplier', 'Euc')
        expect = neighbour_tr(raw, half, mult = mult)
    elif mode == 'faces per cell multiplier':
        a = ctx.rng.uniform(0.0, 2.0, raw.extent + (3, 2))
        a[ctx.rng.random(a.shape) < 0.1] = np.nan
        pc = rqp.GridPropertyCollection()
        pc.set_grid(fresh(m, uuid))
        put(pc.discombobulated_face_array(a), 'TMULTC', 'transmissibility multiplier', indexable_element = 'faces per cell', uom = 'Euc')
        expect = neighbour_tr(raw, np.where(np.isnan(a), half, half * a))
    elif mode == 'absolute':
        if form == 'composite':
            form = 'directional'
        absolute = put_faces(faces_arrays(0.01, 5.0, nan = 0.2, inf = 0.2), 'TABS', 'fault transmissibility', 'm3.cP/(d.kPa)',
                             kinds = ['mat transmissibility' if ctx.flag() else 'fault transmissibility'] + ['fault transmissibility'] * 2)
        expect = neighbour_tr(raw, half, absolute = absolute)
    elif mode == 'stored':
        arrays = faces_arrays(0.0, 4.0, nan = 0.0)
        kept = put_faces(arrays, 'TRANS', 'transmissibility', 'm3.cP/(d.kPa)')
        expect = neighbour_tr(raw, half)
        expect = [a if a is not None else b for a, b in zip(kept, expect)]
    elif mode == 'stored half':
        a = ctx.rng.uniform(0.0, 2.0, raw.extent + (3, 2))
        pc = rqp.GridPropertyCollection()
        pc.set_grid(fresh(m, uuid))
        put(pc.discombobulated_face_array(a), 'HALFT', 'transmissibility', indexable_element = 'faces per cell', uom = 'm3.cP/(d.kPa)')
        expect = neighbour_tr(raw, a)
        g = fresh(m, uuid)
        ctx.close(g.half_cell_transmissibility(), a, 'stored-half')
        ctx.close(fresh(m, uuid).half_cell_transmissibility(use_property = False), half, 'stored-half-ignored', rtol = 1.0e-9)
        # the native order of faces of a cell: top, base, -J, +I, +J, -I
        native = rqp.GridPropertyCollection(grid = fresh(m, uuid)).single_array_ref(property_kind = 'transmissibility', indexable = 'faces per cell')
        for n, (axis, s) in enumerate(((0, 0), (0, 1), (1, 0), (2, 1), (1, 1), (2, 0))):
            ctx.close(native[..., n], a[..., axis, s], 'native-order', n = n)
    else:
        expect = neighbour_tr(raw, half)
    if mode in ('faces multiplier', 'faces per cell multiplier', 'absolute'):
        args['modifier_mode'] = mode
    g = fresh(m, uuid)
    plain = neighbour_tr(raw, half) if 'modifier_mode' in args else None
    if plain is not None and ctx.flag(0.4):  # what is kept from one call must not show in the next
        check_tr(ctx, g.transmissibility(), plain, 'plain-first', mode = mode)
    for _ in range(ctx.integer(1, 2)):
        tr = g.transmissibility(**args)
        check_tr(ctx, tr, expect, 'modified', mode = mode, form = form, args = args)
    if plain is not None and ctx.flag(0.4):
        check_tr(ctx, g.transmissibility(), plain, 'plain-after', mode = mode)
        ctx.observe('plain after modified')
    ctx.observe('faces', sum(int(np.count_nonzero(x)) for x in expect))
    ctx.sig(raw.describe(), mode, form, sorted(args.items()))


def connections(ctx):
    """Transmissibility of the connections across faults, pinch-outs and gaps."""
    import resqpy.fault as rqf
    import resqpy.property as rqp
    m, u = crs_model(ctx)
    kind = ctx.choice(['fault', 'fault', 'fault', 'pinch', 'gap'])
    if kind == 'fault':
        raw = jx.straight(ctx, faults = True, max_n = (4, 3, 3), min_n = (1, 2, 2), gaps = None if ctx.flag(0.2) else False)
        fr = jx.expected_faults(raw)
    else:
        raw = random_grid(ctx, max_n = (6, 3, 3), min_n = (3, 1, 1), pinch = False, gaps = kind == 'gap')
        if kind == 'pinch':
            jx.collapse(ctx, raw)
        else:
            steps = np.diff(raw.points, axis = 0)
            for k in np.argwhere(raw.gap_after).flatten():
                steps[raw.raw_k[k] + 1, ctx.rng.random(raw.points.shape[1]) < 0.7] = 0.0
            raw.points = np.concatenate((raw.points[:1], raw.points[:1] + np.cumsum(steps, axis = 0)))
    p, ntg = perms(ctx, raw.extent)
    inactive, raw.inactive = raw.inactive, None
    uuid = raw.persist(m)
    raw.inactive = inactive
    add_perms(ctx, m, uuid, p, ntg)
    g = fresh(m, uuid)
    if inactive is not None:
        g.extract_inactive_mask()
        g.inactive = inactive.copy()
        g.all_inactive = bool(np.all(inactive))
    pair = half_cell(raw.to_cp(), p, ntg, DARCY[u])
    method = {'fault': g.fault_connection_set, 'pinch': g.pinchout_connection_set, 'gap': g.k_gap_connection_set}[kind]
    hist = []
    n = 0
    seen = None
    for _ in range(ctx.integer(1, 4)):
        skip = ctx.flag()
        compute = ctx.flag(0.8)
        add = ctx.flag(0.2)
        hist.append((skip, compute, add))
        ctx.log(kind, skip, compute, add)
        s, tr = method(skip_inactive = skip, compute_transmissibility = compute, add_to_model = add)
        if s is None:
            ctx.check(tr is None, 'connection-none')
            continue
        if not compute and tr is None:
            continue
        ents = jx.entries(s)
        ctx.equal(np.shape(tr), (len(ents),), 'connection-shape', hist = hist)
        fa = g.fgcs_fractional_area if kind == 'fault' else np.ones((len(ents), 2))
        lo, hi, rough = combine(ents, fa, pair)
        bad = ~((tr >= lo * (1 - 1.0e-6) - 1.0e-12) & (tr <= hi * (1 + 1.0e-6) + 1.0e-12)) & ~rough
        ctx.check(not np.any(bad), 'connection-tr', 'transmissibility of connections', got = tr[bad][:4], want = lo[bad][:4],
                  pairs = [ents[i] for i in np.argwhere(bad).flatten()[:4]], hist = hist)
        ctx.check(not np.any(np.isnan(tr)) and np.all(tr >= 0.0), 'connection-sign', 'nan or negative', tr = tr)
        n = len(ents)
        seen = (s, ents, fa, add)
        ctx.observe('connections', n)
        if kind == 'fault':
            # shared area: exact overlap from both sides
            jx.check_faults(ctx, raw, ents, fa, fr, skip, code = 'shared-area')
            # order of the pair makes no difference
            s2 = rqf.GridConnectionSet(m, grid = g)
            s2.grid_list, s2.count = [g], s.count
            s2.grid_index_pairs = s.grid_index_pairs.copy()
            s2.cell_index_pairs, s2.face_index_pairs = s.cell_index_pairs[:, ::-1].copy(), s.face_index_pairs[:, ::-1].copy()
            s2.feature_indices, s2.feature_list = s.feature_indices.copy(), list(s.feature_list)
            ctx.close(s2.tr_property_array(fa[:, ::-1]), tr, 'connection-symmetric', rtol = 1.0e-9)
    if seen is not None and ctx.flag(0.6):
        s, ents, fa, add = seen
        base = s.tr_property_array(fa)
        mult = ctx.rng.uniform(0.0, 2.0, len(ents))
        if ctx.flag(0.6):
            if m.uuid(uuid = s.uuid) is None:
                s.write_hdf5()
                s.create_xml()
            rqp.Property.from_array(m, mult, 'test', 'TMULT', s.uuid, property_kind = 'transmissibility multiplier', uom = 'Euc',
                                    indexable_element = 'faces')
            s = rqf.GridConnectionSet(m, uuid = s.uuid)
            s.cache_arrays()
            got = s.tr_property_array(fa, apply_multipliers = True)
            ctx.close(got, base * mult, 'connection-multiplier', rtol = 1.0e-9)
            ctx.close(s.tr_property_array(fa), base, 'connection-unmultiplied', rtol = 1.0e-9)
    ctx.sig(raw.describe(), kind, n, hist)


def combine(ents, fa, pair):
    """Bounds (for the two diagonals) of connection values and a mask of those too close to a threshold to say."""
    lo, hi, rough = np.zeros(len(ents)), np.zeros(len(ents)), np.zeros(len(ents), dtype = bool)
    for e, ((cm, (am, pm)), (cp_, (ap, pp))) in enumerate(ents):
        vals = []
        for a in range(2):
            for b in range(2):
                hm, hp = pair[a][cm + (am, pm)], pair[b][cp_ + (ap, pp)]
                for x in (hm, hp):
                    rough[e] |= 0.5e-5 < x < 2.0e-5
                for f in fa[e]:
                    rough[e] |= 0.5e-4 < f < 2.0e-4
                if not (hm >= 1.0e-5 and hp >= 1.0e-5) or fa[e][0] < 1.0e-4 or fa[e][1] < 1.0e-4:
                    vals.append(0.0)
                else:
                    vals.append(1.0 / (1.0 / (hm * fa[e][0]) + 1.0 / (hp * fa[e][1])))
        lo[e], hi[e] = min(vals), max(vals)
    return lo, hi, rough


def triangles(ctx):
    """The functions of triangles: projected areas and the precursor for prisms."""
    import resqpy.olio.transmission as rqtr
    n = ctx.integer(1, 20)
    scale = 10.0**ctx.uniform(-1, 3)
    off = ctx.rng.uniform(-1, 1, 3) * 10.0**ctx.uniform(0, 5)
    a, b, c = (ctx.rng.normal(size = (n, 3)) * scale + off for _ in range(3))
    if ctx.flag(0.5):  # parallel to an axis plane, so collapsed in two of the projections
        k = ctx.integer(0, 2)
        b[:, k] = a[:, k]
        c[:, k] = a[:, k]
    got = rqtr.projected_tri_area(a, b, c)
    ctx.close(got, tri_areas(a, b, c), 'projected-area', tol = 1.0e-5 * scale * scale, rtol = 1.0e-6)
    npt = ctx.integer(3, 12)
    pts = ctx.rng.uniform(-1, 1, (npt, ctx.choice([2, 3]))) * scale
    t = np.array([ctx.rng.permutation(npt)[:3] for _ in range(ctx.integer(1, 10))])
    nl, fl = rqtr.half_cell_t_2d_triangular_precursor(pts, t)
    for i, tri in enumerate(t):
        q = pts[tri][:, :2]
        for v in range(3):
            e0, e1 = q[(v + 1) % 3], q[(v + 2) % 3]
            mid = 0.5 * (e0 + e1) - np.mean(q, axis = 0)
            length = np.hypot(*mid)
            ctx.close(fl[i, v], length, 'flow-length', rtol = 1.0e-9)
            cross = abs(mid[0] * (e1 - e0)[1] - mid[1] * (e1 - e0)[0]) / length
            ctx.close(nl[i, v], cross, 'normal-length', rtol = 1.0e-7, tol = 1.0e-7 * scale)
    ctx.observe('triangles', n + len(t))
    ctx.sig(n, len(t), npt)


def prism_grid(ctx, m, nk):
    """A vertical prism grid over a small triangulation; returns it with the horizontal layout."""
    import resqpy.surface as rqs
    import resqpy.unstructured as rug
    from scipy.spatial import Delaunay
    npt = ctx.integer(4, 8)
    xy = ctx.rng.uniform(0.0, 1000.0, (npt, 2))
    d = Delaunay(xy)
    t = d.simplices
    q = xy[t]
    areas = 0.5 * np.abs((q[:, 1, 0] - q[:, 0, 0]) * (q[:, 2, 1] - q[:, 0, 1]) - (q[:, 2, 0] - q[:, 0, 0]) * (q[:, 1, 1] - q[:, 0, 1]))
    if np.min(areas) < 5000.0 or len(np.unique(t)) < npt:
        raise Skip('slivers')
    z = 1000.0 + np.cumsum(ctx.rng.uniform(3.0, 30.0, nk + 1))
    flat = ctx.flag(0.6)
    surfs = []
    zz = []
    for k in range(nk + 1):
        p = np.column_stack((xy, np.full(npt, z[k]) + (0.0 if flat else 1.0) * ctx.rng.uniform(-1.4, 1.4, npt)))
        zz.append(p[:, 2])
        s = rqs.Surface(m, crs_uuid = m.crs_uuid, title = f's{k}')
        s.set_from_triangles_and_points(t, p)
        surfs.append(s)
    v = rug.VerticalPrismGrid.from_surfaces(m, surfs, title = 'vpg')
    return v, xy, t, np.array(zz), areas, flat


def prisms(ctx):
    import resqpy.olio.transmission as rqtr
    import resqpy.property as rqp
    m, u = crs_model(ctx)
    nk = ctx.integer(2, 4)
    v, xy, t, zz, areas, flat = prism_grid(ctx, m, nk)
    n = len(t)
    # columns follow the triangles of the first surface; use the grid's own account of nodes for the order
    ctx.equal(np.sort(v.triangulation(), axis = 1), np.sort(t, axis = 1), 'prism-columns')
    tri = v.triangulation()
    cells = nk * n
    triple = 10.0**ctx.rng.uniform(0, 3, (cells, 3))
    pk = 10.0**ctx.rng.uniform(-1, 2, cells) if ctx.flag(0.7) else None
    ntg = ctx.rng.uniform(0.1, 1.0, cells) if ctx.flag() else None
    darcy = None if ctx.flag() else 10.0**ctx.uniform(-5, 0)
    dc = DARCY[u] if darcy is None else darcy
    got = rqtr.half_cell_t_vertical_prism(v, triple_perm_horizontal = triple, perm_k = pk, ntg = ntg, darcy_constant = darcy)
    ctx.equal(got.shape, (cells, 5), 'prism-shape')

    def expected(triple, pk, ntg, dc):
        e = np.empty((cells, 5))
        fpc = v.faces_per_cell.reshape((-1, 5))
        for c in range(cells):
            k, col = divmod(c, n)
            th = np.mean(zz[k + 1][tri[col]] - zz[k][tri[col]])
            perm_k = np.mean(triple[c]) if pk is None else pk[c]
            e[c, :2] = dc * perm_k * areas[col] / (0.5 * th)
            centre = np.mean(xy[tri[col]], axis = 0)
            for f in range(3):
                # the nodes of the face as recorded for the grid give its edge in plan
                nodes = np.unique(v.node_indices_for_face(fpc[c, 2 + f]) % len(xy))
                ctx.equal(len(nodes), 2, 'prism-face-nodes')
                a, b = xy[nodes[0]], xy[nodes[1]]
                mid = 0.5 * (a + b) - centre
                d = np.hypot(*mid)
                w = abs(mid[0] * (b - a)[1] - mid[1] * (b - a)[0]) / d
                e[c, 2 + f] = dc * triple[c, f] * w * th / d * (1.0 if ntg is None else ntg[c])
        return e

    e = expected(triple, pk, ntg, dc)
    ctx.close(got[:, :2], e[:, :2], 'prism-vertical', rtol = 1.0e-6)
    if flat:
        ctx.close(got[:, 2:], e[:, 2:], 'prism-horizontal', rtol = 1.0e-6)
    else:
        ctx.close(got[:, 2:], e[:, 2:], 'prism-horizontal-dipping', rtol = 0.8)
    c = ctx.uniform(0.1, 9.0)
    got2 = rqtr.half_cell_t_vertical_prism(v, triple_perm_horizontal = triple * c, perm_k = None if pk is None else pk * c, ntg = ntg,
                                           darcy_constant = darcy)
    ctx.close(got2, got * c, 'prism-linear', rtol = 1.0e-9)
    # by way of properties
    if ctx.flag(0.6):
        v.write_hdf5()
        v.create_xml()
        style = ctx.choice(['triple', 'single', 'horizontal'])
        kw = dict(property_kind = 'rock permeability', uom = 'mD')
        h = triple[:, 0]
        if style == 'triple':
            rqp.Property.from_array(m, triple, 'test', 'PERM', v.uuid, count = 3, **kw)
        elif style == 'single':
            rqp.Property.from_array(m, h, 'test', 'PERM', v.uuid, **kw)
        else:
            rqp.Property.from_array(m, h, 'test', 'PERMH', v.uuid, facet_type = 'direction', facet = 'horizontal', **kw)
        used_k = None
        if style != 'single' and (style == 'horizontal' or ctx.flag()):
            used_k = 10.0**ctx.rng.uniform(-1, 2, cells)
            rqp.Property.from_array(m, used_k, 'test', 'PERMK', v.uuid, facet_type = 'direction', facet = 'K', **kw)
        if ntg is not None:
            rqp.Property.from_array(m, ntg, 'test', 'NTG', v.uuid, property_kind = 'net to gross ratio', uom = 'm3/m3')
        import resqpy.unstructured as rug
        w = rug.VerticalPrismGrid(m, uuid = v.uuid)
        w.extract_property_collection()
        got = w.half_cell_transmissibility()
        e = expected(triple if style == 'triple' else np.repeat(h, 3).reshape((-1, 3)), used_k, ntg, DARCY[u])
        ctx.close(got[:, :2], e[:, :2], 'prism-property-vertical', rtol = 1.0e-6, style = style)
        ctx.close(got[:, 2:], e[:, 2:], 'prism-property-horizontal', rtol = 1.0e-6 if flat else 0.8, style = style)
        if ctx.flag():
            stored = ctx.rng.uniform(0.1, 3.0, (cells, 5))
            rqp.Property.from_array(m, stored.flatten(), 'test', 'HALFT', v.uuid, property_kind = 'transmissibility',
                                    indexable_element = 'faces per cell', uom = 'm3.cP/(d.kPa)')
            w = rug.VerticalPrismGrid(m, uuid = v.uuid)
            w.extract_property_collection()
            ctx.close(w.half_cell_transmissibility(), stored, 'prism-stored')
    # directional permeability: bounded by the pair, exact when isotropic, and turning the axes swaps them
    k1, k2 = 10.0**ctx.rng.uniform(0, 3, cells), 10.0**ctx.rng.uniform(0, 3, cells)
    az = ctx.uniform(0.0, 360.0) if ctx.flag() else ctx.rng.uniform(0.0, 360.0, cells)
    k3 = v.triple_horizontal_permeability(k1, k2, az)
    ctx.equal(k3.shape, (cells, 3), 'triple-shape')
    ctx.check(np.all(k3 >= np.minimum(k1, k2)[:, None] * (1 - 1e-9)) and np.all(k3 <= np.maximum(k1, k2)[:, None] * (1 + 1e-9)), 'triple-bounds')
    ctx.close(v.triple_horizontal_permeability(k2, k1, az + 90.0), k3, 'triple-turn', rtol = 1.0e-6)
    if flat:
        for c in range(cells):
            col = c % n
            centre = np.mean(xy[tri[col]], axis = 0)
            for f in range(3):
                nodes = np.unique(v.node_indices_for_face(v.faces_per_cell.reshape((-1, 5))[c, 2 + f]) % len(xy))
                d = 0.5 * (xy[nodes[0]] + xy[nodes[1]]) - centre
                ang = np.degrees(np.arctan2(d[0], d[1])) - (az if isinstance(az, float) else az[c])
                r = np.radians(ang)
                ctx.close(k3[c, f], np.sqrt((k1[c] * np.cos(r))**2 + (k2[c] * np.sin(r))**2), 'triple-value', rtol = 1.0e-6, face = f)
    ctx.observe('cells', cells)
    ctx.sig(n, nk, flat, u, ntg is None, pk is None)


SCENARIOS = [
    Scenario(box_grids, quick = 120, name = 'box_grids'),
    Scenario(general, quick = 120, name = 'general'),
    Scenario(modifiers, quick = 120, name = 'modifiers'),
    Scenario(connections, quick = 120, name = 'connections'),
    Scenario(triangles, quick = 60, name = 'triangles'),
    Scenario(prisms, quick = 60, name = 'prisms'),
]
