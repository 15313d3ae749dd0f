"""C12: grids built from corner point arrays and corner point files, against the arrays supplied."""

import numpy as np

from props.spec import spec
from rv import gen
from rv.core import Scenario, Skip
from rv.gridgen import random_grid

PROP = spec('C12')


def crs_for(ctx, m, zdown = True, xyu = 'm', zu = 'm'):
    import resqpy.crs as rqc
    c = rqc.Crs(m, xy_units = xyu, z_units = zu, z_inc_down = zdown)
    c.create_xml()
    m.crs_uuid = c.uuid
    return c


def raw_for(ctx, **kw):
    raw = random_grid(ctx, growth = ctx.flag(0.4), **kw)
    # throws between tolerance and nothing would be ambiguous: the generator gives continuous throws, so widen tiny ones
    return raw


def corner_masks(cp, raw, ctx, style):
    """Returns (cp supplied, active mask or None, undefined cells, inactive cells) for a style of undefined geometry."""
    ext = cp.shape[:3]
    if style == 'none':
        return cp, None, np.zeros(ext, bool), np.zeros(ext, bool)
    inactive = ctx.rng.random(ext) < ctx.choice([0.15, 0.4])
    if ctx.flag(0.3):
        inactive |= (ctx.rng.random(ext[1:]) < 0.4)[np.newaxis]
    if ctx.flag(0.3):
        inactive |= (ctx.rng.random((ext[0], 1, 1)) < 0.4)
    if inactive.all():
        inactive[ctx.integer(0, ext[0] - 1), ctx.integer(0, ext[1] - 1), ctx.integer(0, ext[2] - 1)] = False
    if style == 'inactive':
        return cp, ~inactive, np.zeros(ext, bool), inactive
    cp = cp.copy()
    if style == 'dead':  # inactive cells collapsed to a common place
        cp[inactive] = 0.0
    elif style == 'nan':  # inactive cells without geometry
        cp[inactive] = np.nan
    return cp, ~inactive, inactive, inactive


def from_array(ctx):
    import resqpy.grid as grr
    import resqpy.model as rq
    import resqpy.rq_import as rqi
    style = ctx.choice(['none', 'none', 'inactive', 'dead', 'nan'])
    m = gen.model(ctx, crs = False)
    zdown = ctx.flag(0.7)
    c = crs_for(ctx, m, zdown)
    raw = random_grid(ctx, max_n = (5, 4, 4), z_inc_down = zdown, k_down = True, inactive = False)
    cp = raw.to_cp()
    jitter = 0.0
    max_z_void = ctx.choice([0.1, 0.1, 0.5, 0.01])
    if ctx.flag(0.3) and raw.nk > 1:  # small voids everywhere
        jitter = max_z_void * 0.9
        cp[:, :, :, 0] += ctx.rng.uniform(-0.5, 0.5, cp[:, :, :, 0].shape) * jitter * 0.5
        cp[:, :, :, 1] += ctx.rng.uniform(-0.5, 0.5, cp[:, :, :, 1].shape) * jitter * 0.5
    supplied, active, undefined, inactive = corner_masks(cp, raw, ctx, style)
    kw = {}
    if style == 'none':
        if ctx.flag(0.3):
            kw['treat_as_nan'] = 'none'
        if ctx.flag(0.2):
            active = np.ones(raw.extent, bool)
    elif style == 'inactive':
        kw['treat_as_nan'] = ctx.choice(['none', None])
        if kw['treat_as_nan'] is None:
            del kw['treat_as_nan']
    elif style == 'dead':
        kw['treat_as_nan'] = ctx.choice(['dots', 'ij_dots', 'morse', 'inactive'])
        if kw['treat_as_nan'] == 'morse' and ctx.flag(0.3):
            del kw['treat_as_nan']
            kw['geometry_defined_everywhere'] = False
    else:
        kw['treat_as_nan'] = ctx.choice(['inactive', 'inactive', 'dots', 'ij_dots', 'morse'])
    kw['max_z_void'] = max_z_void
    tol = 0.01
    if ctx.flag(0.3):
        tol = ctx.choice([0.001, 0.01, 0.2])
        kw['split_tolerance'] = tol
    if ctx.flag(0.3):
        kw['known_to_be_straight'] = raw.pillar_shape == 'straight'
    hand = ctx.choice(['right', 'left', 'auto'])
    if hand != 'right' or ctx.flag():
        kw['ijk_handedness'] = hand
    keep = supplied.copy()
    given = supplied.copy()
    am = None if active is None else active.copy()
    ctx.log('opts', kw, 'style', style, 'raw', raw.describe(), 'jitter', jitter)
    try:
        g = rqi.grid_from_cp(m, given, c.uuid, active_mask = am, **kw)
    except AssertionError as e:
        if hand == 'auto' and raw.pinched and style in ('dead', 'nan') and 'no extant cell' in str(e):
            raise Skip('no cell to determine handedness from')
        raise
    slack = tol + 0.5 * max_z_void + 1.0e-6
    if jitter == 0.0 and not raw.pinched:
        slack = tol + 1.0e-6 + (0.5 * max_z_void if raw.n_gaps else 0.0)
    want_nan = undefined
    ctx.equal(tuple(int(x) for x in g.extent_kji), raw.extent, 'extent')
    ctx.check(g.crs_uuid is not None and str(g.crs_uuid) == str(c.uuid), 'crs-uuid')
    if active is not None:
        ctx.equal(am, active, 'active-mask-modified')
        ctx.equal(np.asarray(g.inactive), inactive | want_nan, 'inactive')
    else:
        ctx.check(g.inactive is None or not np.any(g.inactive), 'inactive-spurious')
    if hand == 'auto':
        ctx.observe('auto-handedness')
        # sample cell may be degenerate where pinched: only plan view used, and dead cells excluded
        ctx.equal(bool(g.grid_is_right_handed), raw.right_handed, 'auto-handedness', raw = raw.describe())
    else:
        ctx.equal(bool(g.grid_is_right_handed), hand == 'right', 'handedness')
    # gaps
    with np.errstate(all = 'ignore'):
        d = np.abs(keep[1:, :, :, 0] - keep[:-1, :, :, 1])
    d[want_nan[1:] | want_nan[:-1]] = 0.0
    gap_max = d.reshape((raw.nk - 1, -1)).max(axis = 1) if raw.nk > 1 else np.zeros(0)
    if np.any((gap_max > max_z_void * 0.97) & (gap_max < max_z_void * 1.03)):
        raise Skip('void close to limit')
    want_gap = gap_max > max_z_void
    ctx.equal(int(g.k_gaps or 0), int(np.count_nonzero(want_gap)), 'k-gaps', gaps = gap_max)
    if want_gap.any():
        ctx.equal(np.asarray(g.k_gap_after_array, bool), want_gap, 'k-gap-after')
    ctx.equal(np.asarray(g.k_raw_index_array), np.arange(raw.nk) + np.concatenate(([0], np.cumsum(want_gap)))[:raw.nk].astype(int),
              'k-raw-index')

    def compare(gr, tag):
        if hasattr(gr, 'array_corner_points'):
            delattr(gr, 'array_corner_points')
        got = gr.corner_points()
        ctx.check(got is not None and got.shape == keep.shape, tag + '-shape')
        bad = ~(np.abs(got - keep) <= slack)
        bad[want_nan] = False
        if bad.any():
            w = tuple(int(x) for x in np.argwhere(bad)[0])
            ctx.fail(tag, f'corner differs at {w}', got = got[w], expected = keep[w], n_bad = int(bad.sum()), opts = kw,
                     style = style, raw = raw.describe(), jitter = jitter)
        ctx.n_oracle += 1
        defd = gr.cell_geometry_is_defined_ref()
        defd = np.ones(raw.extent, bool) if defd is None else np.asarray(defd, bool)
        # cells lacking geometry are not reported as defined; active cells with geometry are
        ctx.check(not np.any(defd & want_nan), tag + '-undefined-cells-reported-defined')
        ctx.check(np.all(defd[~want_nan & ~inactive]), tag + '-defined-cells-reported-undefined')
        ctx.observe('corners', got.size // 3)

    if ctx.flag(0.7):
        compare(g, 'in-memory')
    if not raw.split and jitter == 0.0 and style in ('none', 'inactive'):
        ctx.check(not g.has_split_coordinate_lines, 'spurious-splits')
    g.write_hdf5()
    g.create_xml(write_active = ctx.flag(), write_geometry = True)
    m.store_epc()
    m2 = rq.Model(ctx.path('m.epc'))
    g2 = grr.Grid(m2, uuid = g.uuid)
    compare(g2, 'reopened')
    ctx.equal(bool(g2.grid_is_right_handed), bool(g.grid_is_right_handed), 'reopened-handedness')
    ctx.equal(g2.pillar_shape, g.pillar_shape, 'reopened-pillar-shape')
    ctx.observe('style-' + style)
    ctx.sig(raw.describe(), style, sorted(kw.items()), jitter > 0)


def unsplit(ctx):
    """split_pillars False: an unfaulted grid results, exact where the source is unfaulted."""
    import resqpy.rq_import as rqi
    m = gen.model(ctx, crs = False)
    c = crs_for(ctx, m)
    raw = random_grid(ctx, max_n = (3, 4, 4), k_down = True)
    cp = raw.to_cp()
    g = rqi.grid_from_cp(m, cp.copy(), c.uuid, split_pillars = False)
    ctx.check(not g.has_split_coordinate_lines, 'unsplit-flag')
    delattr(g, 'array_corner_points')
    got = g.corner_points()
    nk, nj, ni = raw.extent
    if not raw.split:
        ctx.close(got, cp, 'unsplit-corners', tol = 0.061)
    # each corner of the result comes from one of the columns around the pillar
    for _ in range(10):
        k, j, i, kp, jp, ip = [ctx.integer(0, n - 1) for n in (nk, nj, ni, 2, 2, 2)]
        cands = [cp[k, j + jp - a, i + ip - b, kp, a, b] for a in (0, 1) for b in (0, 1)
                 if 0 <= j + jp - a < nj and 0 <= i + ip - b < ni]
        ctx.check(any(np.all(np.abs(got[k, j, i, kp, jp, ip] - x) < 0.061) for x in cands), 'unsplit-pillar-source')
    ctx.sig(raw.describe())


def resequence(ctx):
    import resqpy.olio.grid_functions as gf
    ext = tuple(ctx.integer(1, 4) for _ in range(3))
    a = ctx.rng.uniform(-1000.0, 1000.0, ext + (2, 2, 2, 3))
    if ctx.flag():
        a = a.astype(np.float32)
    if ctx.flag(0.3):
        a[ctx.rng.random(ext) < 0.2] = np.nan
    b = a.copy()
    eight = ctx.flag()
    first = ctx.flag()
    gf.resequence_nexus_corp(b, eight_mode = eight, undo = first)
    e = np.empty_like(a)
    if not eight:
        for jp in range(2):
            for ip in range(2):
                e[:, :, :, :, jp, ip] = a[:, :, :, :, jp, ip if jp == 0 else 1 - ip]
    elif first:  # internal to corp: x of each of 8 corners, then y, then z
        for k, j, i in np.ndindex(ext):
            e[k, j, i] = a[k, j, i].reshape(8, 3).T.reshape(2, 2, 2, 3)
    else:
        for k, j, i in np.ndindex(ext):
            e[k, j, i] = a[k, j, i].reshape(3, 8).T.reshape(2, 2, 2, 3)
    ctx.close(b, e, 'resequence-order', tol = 0.0)
    gf.resequence_nexus_corp(b, eight_mode = eight, undo = not first)
    ctx.close(b, a, 'resequence-inverse', tol = 0.0)
    ctx.sig(ext, eight, first)


L = gen.LENGTH_M


def corp_file(ctx):
    import resqpy.grid as grr
    import resqpy.olio.load_data as ld
    import resqpy.crs as rqc
    m = gen.model(ctx, crs = False)
    xyu = ctx.choice(['m', 'm', 'ft', 'cm'])
    zu = xyu if ctx.flag(0.6) else ctx.choice(['m', 'ft', 'cm'])
    zdown = ctx.flag(0.7)
    off = [ctx.integer(-2000, 2000) / 2.0 if ctx.flag() else 0.0 for _ in range(3)]
    gd = ctx.flag(0.7)
    if gd != zdown:
        off[2] = 0.0  # offset in z is documented as applied after negation
    c = rqc.Crs(m, xy_units = xyu, z_units = zu, z_inc_down = zdown, x_offset = off[0], y_offset = off[1], z_offset = off[2])
    c.create_xml()
    m.crs_uuid = c.uuid
    raw = random_grid(ctx, growth = ctx.flag(0.4), max_n = (4, 4, 4), z_inc_down = zdown)
    uuid = raw.persist(m)
    g = grr.Grid(m, uuid = uuid)
    cp = raw.to_cp()
    kw = {}
    local = ctx.flag()
    if local:
        kw['local_coords'] = True
    exp = cp.copy()
    sx, sz = xyu, zu
    if not local:
        exp = exp + np.array(off)
        gx = ctx.choice([None, None, 'm', 'ft'])
        gz = ctx.choice([None, None, 'm', 'ft'])
        if gx:
            kw['global_xy_units'] = gx
        if gz:
            kw['global_z_units'] = gz
        if not gd or ctx.flag():
            kw['global_z_increasing_downward'] = gd
        if gd != zdown:
            exp[..., 2] = -exp[..., 2]
        exp[..., :2] *= L[xyu] / L[gx or xyu]
        exp[..., 2] *= L[zu] / L[gz or zu]
        sx, sz = gx or xyu, gz or zu
    us = ctx.choice([None, 'METRIC', 'METBAR', 'METKG/CM2', 'ENGLISH', 'LAB'])
    if us:
        kw['nexus_unit_system'] = us
    else:
        us = {'ft': 'ENGLISH', 'cm': 'LAB', 'm': 'METRIC'}[sz]
    tu = {'ENGLISH': 'ft', 'LAB': 'cm'}.get(us, 'm')
    exp[..., :2] *= L[sx] / L[tu]
    exp[..., 2] *= L[sz] / L[tu]
    for f in ('write_nx_ny_nz', 'write_units_keyword', 'write_rh_keyword_if_needed'):
        if ctx.flag(0.2):
            kw[f] = True
    kw['write_corp_keyword'] = ctx.flag()
    if len([f for f in kw if f.startswith('write_') and kw[f]]) or ctx.flag():
        kw['write_corp_keyword'] = True
    fn = ctx.path('g.corp')
    before = g.corner_points().copy() if ctx.flag() else None
    g.write_nexus_corp(fn, **kw)
    if before is not None:
        ctx.close(g.corner_points(), before, 'grid-modified-by-export', tol = 0.0)
    ctx.close(g.points_ref(masked = False), raw.native_points(), 'grid-points-modified-by-export', tol = 1e-9)
    use_binary = ctx.flag(0.3)
    for rep in range(2 if use_binary else 1):
        got = ld.load_corp_array_from_file(fn, np.array(raw.extent), use_binary = use_binary)
        ctx.check(got is not None, 'load-corp')
        scale = np.max(np.abs(exp)) * 1.0e-7
        ctx.close(got, exp, 'corp-file' if rep == 0 else 'corp-file-binary-cache', tol = 0.00051 + scale, opts = kw,
                  crs = (xyu, zu, zdown, off), raw = raw.describe())
    ctx.observe('corners', exp.size // 3)
    ctx.sig(raw.describe(), sorted(kw.items()), xyu, zu, zdown)


def write_plain_corp(ctx, fn, cp, eight = False, header = True):
    """Independent writer of a corp file (normal nexus or EIGHT ordering) with comments and free layout."""
    nk, nj, ni = cp.shape[:3]
    out = []
    if header:
        out.append('! grid made by hand')
        out.append('CORP VALUE')
    for k in range(nk):
        for j in range(nj):
            for i in range(ni):
                c = cp[k, j, i]
                if eight:
                    for x in range(3):
                        out.append(' '.join(f'{c[kp, jp, ip, x]:.4f}' for kp in range(2) for jp in range(2) for ip in range(2)))
                else:
                    for kp in range(2):
                        for jp, ip in ((0, 0), (0, 1), (1, 1), (1, 0)):
                            out.append('  '.join(f'{v:.4f}' for v in c[kp, jp, ip]))
    with open(fn, 'w') as f:
        f.write('\n'.join(out) + '\n')


def import_file(ctx):
    import resqpy.rq_import as rqi
    import resqpy.grid as grr
    import resqpy.model as rq
    auto_extent = ctx.flag(0.15)
    kw = {}
    if auto_extent:
        raw = random_grid(ctx, min_n = (2, 2, 2), max_n = (4, 4, 4), faults = False, gaps = False, pinch = False,
                          kind = 'box', k_down = True, inactive = False)
    else:
        raw = random_grid(ctx, max_n = (4, 4, 4), k_down = True, inactive = ctx.flag(0.3))
        kw['extent_ijk'] = np.array([raw.ni, raw.nj, raw.nk]) if ctx.flag() else (raw.ni, raw.nj, raw.nk)
    cp = np.round(raw.to_cp(), 4)
    fn = ctx.path('in.corp')
    eight = ctx.flag(0.2)
    write_plain_corp(ctx, fn, cp, eight = eight, header = ctx.flag(0.7))
    if eight:
        kw['corp_eight_mode'] = True
    units = ctx.flag(0.5)
    cxy = cz = rxy = rz = 'm'
    if units:
        cxy, rxy = ctx.choice(['m', 'ft']), ctx.choice(['m', 'ft'])
        cz, rz = ctx.choice(['m', 'ft', cxy]), ctx.choice(['m', 'ft', rxy])
        kw.update(corp_xy_units = cxy, corp_z_units = cz, resqml_xy_units = rxy, resqml_z_units = rz)
    cdown = rdown = True
    if ctx.flag(0.4):
        cdown, rdown = ctx.flag(), ctx.flag()
        kw.update(corp_z_inc_down = cdown, resqml_z_inc_down = rdown)
    shift = None
    if ctx.flag(0.4):
        shift = ctx.choice(['centre', 'minimum'])
        kw.update(shift_to_local = True, local_origin_place = shift)
    inactive = np.zeros(raw.extent, bool)
    if raw.inactive is not None:
        inactive = raw.inactive
        af = ctx.path('active.dat')
        with open(af, 'w') as f:
            f.write('\n'.join(' '.join(str(int(not x)) for x in row) for row in inactive.reshape((-1, raw.ni))) + '\n')
        kw['active_mask_file'] = af
    hand = 'right' if raw.right_handed else 'left'
    kw['ijk_handedness'] = hand
    if ctx.flag(0.3):
        kw['grid_title'] = 'my grid'
    if ctx.flag(0.2):
        kw['use_binary'] = True
    exp = cp.copy()
    exp[..., :2] *= L[cxy] / L[rxy]
    exp[..., 2] *= L[cz] / L[rz]
    if cdown != rdown:
        exp[..., 2] = -exp[..., 2]
    root = ctx.path('imp')
    ctx.log('kw', kw, raw.describe())
    mode_a = ctx.flag(0.15)
    for rep in range(2 if kw.get('use_binary') else 1):
        m = rqi.import_nexus(root, corp_file = fn, **kw)
        ctx.check(m is not None, 'no-model')
        if ctx.flag():
            m = rq.Model(root + '.epc')
        g = grr.Grid(m, uuid = m.uuid(obj_type = 'IjkGridRepresentation'))
        ctx.equal(g.title, kw.get('grid_title', 'ROOT'), 'grid-title')
        if hasattr(g, 'array_corner_points'):
            delattr(g, 'array_corner_points')
        ctx.equal(g.crs.xy_units, rxy, 'crs-xy-units')
        ctx.equal(g.crs.z_units, rz, 'crs-z-units')
        ctx.equal(g.crs.z_inc_down, rdown, 'crs-z-inc-down')
        off = np.array([g.crs.x_offset, g.crs.y_offset, g.crs.z_offset])
        ctx.check((shift is not None) or np.all(off == 0.0), 'unexpected-origin')
        if shift == 'centre':
            ctx.close(off, np.mean(exp, axis = (0, 1, 2, 3, 4, 5)), 'local-origin-centre', tol = 0.01)
        elif shift == 'minimum':
            ctx.close(off, np.min(exp, axis = (0, 1, 2, 3, 4, 5)) - 1.0, 'local-origin-minimum', tol = 0.01)
        got = g.corner_points() + off
        ctx.close(got, exp, 'imported-corners', tol = 0.065, kw = kw, raw = raw.describe())
        ctx.equal(bool(g.grid_is_right_handed), raw.right_handed, 'imported-handedness')
        im = g.extract_inactive_mask()
        im = np.zeros(raw.extent, bool) if im is None else np.asarray(im)
        ctx.equal(im, inactive, 'imported-inactive')
    ctx.observe('corners', exp.size // 3)
    ctx.sig(raw.describe(), sorted((k, str(v)[:20]) for k, v in kw.items() if k != 'active_mask_file'))


def column_split_distance(ctx):
    """Distance in columns to the nearest column on a split face."""
    import resqpy.olio.grid_functions as gf
    import resqpy.grid as grr
    m = gen.model(ctx)
    raw = random_grid(ctx, growth = ctx.flag(0.4), max_n = (2, 6, 6), faults = True, gaps = False)
    g = grr.Grid(m, uuid = raw.persist(m))
    got = gf.columns_to_nearest_split_face(g)
    if not raw.split:
        ctx.check(got is None, 'split-distance-unsplit')
        ctx.sig('none')
        return
    nj, ni = raw.nj, raw.ni
    p = raw.pfc
    fj = np.zeros((nj + 1, ni), bool)
    fi = np.zeros((nj, ni + 1), bool)
    fj[1:-1] = np.any(p[:-1, :, 1, :] != p[1:, :, 0, :], axis = -1)
    fi[:, 1:-1] = np.any(p[:, :-1, :, 1] != p[:, 1:, :, 0], axis = -1)
    at = fj[:-1] | fj[1:] | fi[:, :-1] | fi[:, 1:]
    ctx.check(at.any(), 'generator')
    exp = np.empty((nj, ni), int)
    js, is_ = np.where(at)
    for j in range(nj):
        for i in range(ni):
            exp[j, i] = np.min(np.abs(js - j) + np.abs(is_ - i))
    ctx.equal(np.asarray(got), exp, 'split-distance', raw = raw.describe())
    ctx.sig(raw.describe())


SCENARIOS = [
    Scenario(from_array, 500),
    Scenario(unsplit, 60),
    Scenario(resequence, 100),
    Scenario(corp_file, 160),
    Scenario(import_file, 160),
    Scenario(column_split_distance, 60),
]
