"""C23: grids derived from grids, against corner points and property values predicted from the source."""

import os

import numpy as np

from props.c16_regular_grid import Block
from props.c14_grid_views import unsplit_expected
from props.c24_fine_coarse import ratio_vector
from props.spec import spec
from rv import files, gen
from rv.core import Scenario, Skip
from rv.gridgen import random_grid

PROP = spec('C23')

KINDS = {
    'continuous': [('porosity', 'm3/m3'), ('saturation', 'm3/m3'), ('depth', 'm'), ('pressure', 'bar'), ('rock permeability', 'mD'), ('thickness', 'm')],
    'discrete': [('index', None), ('region initialization', None), ('fault block', None)],
    'categorical': [('facies', None), ('rock type', None)],
    'bool': [('index', None)],
    'points': [('length', None)]
}


class Inherit:
    """A property of the source grid: definition and values."""


class Setup:
    """A stored model holding a source grid (and perhaps another) with some properties."""

    def __init__(self, ctx, regular = 0.2, n_props = None, simple_props = False, cells_only = False, crs = None, undefined = 0.0, raw = None, **kw):
        import resqpy.crs as rqc
        import resqpy.grid as grr
        import resqpy.model as rq
        self.ctx = ctx
        self.epc = ctx.path('source.epc')
        m = rq.new_model(self.epc)
        self.crs_kw = gen.crs_kwargs(ctx) if crs is None else dict(crs)
        self.crs_kw.setdefault('z_inc_down', True)
        c = rqc.Crs(m, title = 'source crs', **self.crs_kw)
        c.create_xml()
        if ctx.flag(0.3):
            rqc.Crs(m, title = 'another crs', x_offset = 5.0).create_xml()
        self.raw = self.block = None
        if raw is None and regular and ctx.flag(regular):
            b = self.block = Block(ctx, styles = ('aligned',))
            if ctx.flag(0.3):
                b.d[0, 2] = -b.d[0, 2]
            g = grr.RegularGrid(m, extent_kji = b.extent, dxyz_dkji = b.d, crs_uuid = c.uuid, title = 'source')
            g.create_xml(add_cell_length_properties = False)
            self.cp, self.extent, self.inactive, self.split, self.gaps = b.cp(), b.extent, None, False, 0
        else:
            r = self.raw = raw or random_grid(ctx, z_inc_down = self.crs_kw['z_inc_down'], undefined = bool(undefined) and ctx.flag(undefined), **kw)
            g = r.build(m, crs_uuid = c.uuid, title = 'source')
            g.write_hdf5()
            g.create_xml()
            self.cp, self.extent, self.inactive, self.split, self.gaps = r.to_cp(), r.extent, r.inactive, r.split, r.n_gaps
            bad = np.any(np.isnan(self.cp), axis = (3, 4, 5, 6))
            if np.any(bad):  # cells without geometry are presented as inactive
                self.inactive = bad if self.inactive is None else self.inactive | bad
        self.uuid = g.uuid
        self.second = None
        self.k_down, self.right = g.k_direction_is_down, g.grid_is_right_handed
        self.props = []
        n = ctx.integer(0, 4) if n_props is None else n_props
        for i in range(n):
            self.add_property(m, i, simple_props, cells_only)
        self.model = m
        self.has_gcs = False

    def close(self):
        self.model.store_epc()
        self.model.h5_release()
        self.model = None
        self.before = files.contents(self.epc)

    def add_property(self, m, i, simple, cells_only):
        import resqpy.property as rqp
        import resqpy.time_series as rqts
        ctx = self.ctx
        p = Inherit()
        p.style = ctx.choice(['continuous', 'continuous', 'discrete'] if simple else ['continuous', 'continuous', 'discrete', 'categorical', 'bool', 'points'])
        p.kind, p.uom = ctx.choice(KINDS[p.style])
        p.ie = 'cells' if cells_only or ctx.flag(0.7) else ctx.choice(['columns', 'layers', 'column edges'])
        nk, nj, ni = self.extent
        shape = {'cells': (nk, nj, ni), 'columns': (nj, ni), 'layers': (nk,), 'column edges': (nj * (ni + 1) + (nj + 1) * ni,)}[p.ie]
        p.count = 1 if simple or ctx.flag(0.8) else 2
        full = shape + ((p.count,) if p.count > 1 else ()) + ((3,) if p.style == 'points' else ())
        p.null = None
        if p.style in ('continuous', 'points'):
            x = ctx.rng.uniform(0.1, 0.9, full)
            if ctx.flag(0.2) and not simple:
                x[ctx.rng.random(full) < 0.2] = np.nan
        elif p.style == 'bool':
            x = ctx.rng.random(full) < 0.5
        else:
            x = ctx.rng.integers(0, 4, full)
            if p.style == 'discrete' and ctx.flag(0.5):
                p.null = ctx.choice([-1, -99, 3])
                x[ctx.rng.random(full) < 0.2] = p.null
        p.const = None
        if p.style in ('continuous', 'discrete') and p.count == 1 and ctx.flag(0.15):
            p.const = 0.25 if p.style == 'continuous' else 2
            x = np.full(full, p.const)
        p.array = x
        p.title = f'prop {i}'
        p.realization = ctx.choice([None, None, None, 0, 1])
        p.facet = ctx.choice([(None, None), (None, None), ('direction', 'I'), ('what', 'oil')]) if p.style != 'points' else (None, None)
        p.ts = p.ti = p.lookup = None
        if ctx.flag(0.2):
            ts = rqts.TimeSeries(m, first_timestamp = '2001-01-01Z', title = f'series {i}')
            ts.add_timestamp('2002-01-01Z')
            ts.create_xml()
            p.ts, p.ti = ts.uuid, ctx.integer(0, 1)
        if p.style == 'categorical':
            lk = rqp.StringLookup(m, int_to_str_dict = {j: f'facies {j}' for j in range(5)}, title = f'lookup {i}')
            lk.create_xml()
            p.lookup = lk.uuid
        kw = {'points': True} if p.style == 'points' else {}
        o = rqp.Property.from_array(m, None if p.const is not None else x.copy(), 'source data', p.title, self.uuid, property_kind = p.kind, uom = p.uom,
                                    indexable_element = p.ie, count = p.count, discrete = p.style in ('discrete', 'categorical', 'bool'),
                                    facet_type = p.facet[0], facet = p.facet[1], realization = p.realization, time_index = p.ti, time_series_uuid = p.ts,
                                    string_lookup_uuid = p.lookup, null_value = p.null, const_value = p.const, **kw)
        p.uuid = o.uuid
        self.props.append(p)
        return p

    def args(self, fn_new = True, must_load = False):
        """Chooses how the source is given and where the result goes; returns arguments."""
        import resqpy.grid as grr
        import resqpy.model as rq
        ctx = self.ctx
        a = {}
        self.new = fn_new and ctx.flag(0.4)
        if self.new:
            a['new_epc_file'] = ctx.path('derived.epc')
        a['epc_file'] = self.epc if not self.new or ctx.flag() else None
        self.source = None
        if a['epc_file'] is None or must_load or self.second is not None or ctx.flag(0.6):
            m = rq.Model(self.epc)
            self.source = grr.any_grid(m, uuid = self.uuid, find_properties = ctx.flag(0.7))
            if ctx.flag(0.2):
                self.source.corner_points(cache_cp_array = True)
            if ctx.flag(0.2):
                self.source.centre_point(cache_centre_array = True)
        a['source_grid'] = self.source
        self.title = ctx.choice([None, 'derived grid', "a title with 'quotes' & more"])
        if self.title:
            a['new_grid_title'] = self.title
        return a

    def inheritance(self, a):
        """Chooses inheritance of properties; returns list of those expected to be inherited."""
        ctx = self.ctx
        self.inherit = ctx.flag(0.6)
        if not self.inherit:
            return []
        a['inherit_properties'] = True
        r = None
        if ctx.flag(0.3):
            r = a['inherit_realization'] = ctx.choice([0, 1])
        al = False
        if ctx.flag(0.4):
            al = a['inherit_all_realizations'] = True
        return [p for p in self.props if (p.realization == r or (al and r is None))]

    def result(self, grid, cp, props = (), inactive = 'same', tol = 1.0e-6, transform = None, skip_ie = (), handed = True, active = 'given'):
        """Checks what has been stored, along with the grid object returned."""
        import resqpy.crs as rqc
        import resqpy.grid as grr
        import resqpy.model as rq
        ctx = self.ctx
        ctx.check(grid is not None, 'no-result')
        ext = cp.shape[:3]
        after = files.contents(self.epc)
        files.kept(ctx, self.before, after, 'source-content', superset = not self.new)
        if self.source is not None:
            self.source_unchanged()
        epc = ctx.path('derived.epc') if self.new else self.epc
        ctx.check(os.path.exists(epc), 'no-result', 'no file for result')
        m = rq.Model(epc)
        roots = m.uuids(obj_type = 'IjkGridRepresentation')
        ctx.check(any(str(u) == str(grid.uuid) for u in roots), 'no-result', 'derived grid is not in the dataset', uuids = roots)
        if self.new:
            ctx.equal(len(roots), 1, 'only-result', 'number of grids in new dataset')
        m = rq.Model(epc)
        for where, g in (('returned', grid), ('stored', grr.any_grid(m, uuid = grid.uuid))):
            ctx.equal(tuple(int(n) for n in g.extent_kji), tuple(ext), 'extent', where)
            ctx.close(g.corner_points(), cp, 'geometry', tol = tol, message = where)
            ctx.equal(g.k_direction_is_down, self.k_down, 'k-direction', where)
            if handed:
                ctx.equal(bool(g.grid_is_right_handed), bool(self.right), 'handedness', where)
            if isinstance(inactive, np.ndarray) or inactive is None:
                e = np.zeros(ext, dtype = bool) if inactive is None else inactive
                got = np.zeros(ext, dtype = bool) if g.inactive is None else g.inactive
                if where == 'stored' or active == 'given':
                    ctx.equal(np.asarray(got, dtype = bool), e, 'inactive', where)
            crs = rqc.Crs(g.model, uuid = g.crs_uuid)
            self.same_crs(crs)
        g2 = grr.any_grid(m, uuid = grid.uuid)
        if self.title:
            ctx.equal(g2.title, self.title, 'title')
        if transform is not None:
            self.inherited(m, g2, props, transform, skip_ie)
        return m, g2

    def same_crs(self, crs):
        ctx = self.ctx
        for k, v in self.crs_kw.items():
            got = getattr(crs, k)
            if isinstance(v, float):
                ctx.close(got, v, 'crs', tol = 1.0e-3, message = k)
            else:
                ctx.equal(got, v, 'crs', k)
        ctx.check(crs.root is not None, 'crs', 'crs is not in the model')

    def source_unchanged(self):
        ctx, g = self.ctx, self.source
        ctx.close(g.corner_points(), self.cp, 'source-grid', tol = 1.0e-6, message = 'source grid object')
        ctx.equal(tuple(int(n) for n in g.extent_kji), tuple(self.extent), 'source-grid')
        ctx.equal(str(g.uuid), str(self.uuid), 'source-grid')
        if self.inactive is not None:
            ctx.equal(g.inactive, self.inactive, 'source-grid')

    def inherited(self, m, g2, exp, transform, skip_ie):
        import resqpy.property as rqp
        ctx = self.ctx
        pc = rqp.GridPropertyCollection(grid = g2)
        got = {}
        for part in pc.parts():
            t = pc.citation_title_for_part(part)
            if t.startswith('prop '):
                ctx.check(t not in got, 'inherited', 'property inherited twice', title = t)
                got[t] = part
        exp = [p for p in exp if p.ie not in skip_ie and transform(p) is not None]
        ctx.equal(sorted(got), sorted(p.title for p in exp), 'inherited', 'titles of inherited properties', props = [(p.ie, p.style, p.count, p.realization) for p in self.props])
        for p in exp:
            part = got[p.title]
            x = transform(p)
            what = dict(title = p.title, style = p.style, ie = p.ie, count = p.count, const = p.const)
            ctx.equal(pc.indexable_for_part(part), p.ie, 'inherited-element', **what)
            a = pc.cached_part_array_ref(part)
            ctx.check(tuple(a.shape) == tuple(x.shape), 'inherited-shape', got = a.shape, expected = x.shape, **what)
            ctx.close(a.astype(float), x.astype(float), 'inherited-values', tol = 1.0e-5, rtol = 1.0e-6, **what)
            ctx.equal(pc.property_kind_for_part(part), p.kind, 'inherited-metadata', 'kind', **what)
            ctx.equal(pc.uom_for_part(part), p.uom, 'inherited-metadata', 'uom', **what)
            ctx.equal(pc.count_for_part(part), p.count, 'inherited-metadata', 'count', **what)
            ctx.equal(bool(pc.continuous_for_part(part)), p.style in ('continuous', 'points'), 'inherited-metadata', 'continuous', **what)
            ctx.equal(pc.realization_for_part(part), p.realization, 'inherited-metadata', 'realization', **what)
            ctx.equal((pc.facet_type_for_part(part), pc.facet_for_part(part)), p.facet, 'inherited-metadata', 'facet', **what)
            ctx.equal(pc.time_index_for_part(part), p.ti, 'inherited-metadata', 'time index', **what)
            ctx.equal(str(pc.time_series_uuid_for_part(part)), str(p.ts), 'inherited-metadata', 'time series', **what)
            if p.ts is not None:
                ctx.check(m.part(uuid = p.ts) is not None, 'inherited-metadata', 'time series is not in the dataset')
            ctx.equal(bool(pc.points_for_part(part)), p.style == 'points', 'inherited-metadata', 'points', **what)
            if p.style == 'discrete' and p.const is None:
                ctx.equal(pc.null_value_for_part(part), -1 if p.null is None else p.null, 'inherited-metadata', 'null value', **what)
            if p.style == 'categorical':
                ctx.check(pc.part_is_categorical(part), 'inherited-metadata', 'categorical', **what)
                ctx.equal(str(pc.string_lookup_uuid_for_part(part)), str(p.lookup), 'inherited-metadata', 'lookup', **what)
                ctx.check(m.part(uuid = p.lookup) is not None, 'inherited-metadata', 'string lookup is not in the dataset')
            ctx.observe('inherited ' + p.style)


SAME_UNITS = {'xy_units': 'm', 'z_units': 'm'}


def as_is(p):
    return p.array


# functions which keep the layout of cells


def extract_box(ctx):
    import resqpy.derived_model as rqdm
    tall = ctx.flag(0.4)
    s = Setup(ctx, undefined = 0.2, regular = 0.0 if tall else 0.2, growth = ctx.flag(),
              **(dict(gaps = True, min_n = (4, 1, 1), max_n = (8, 3, 3)) if tall else {}))
    s.close()
    lo = [ctx.integer(0, n - 1) for n in s.extent]
    if tall:
        lo[0] = ctx.integer(0, 2)
    hi = [ctx.integer(a, n - 1) for a, n in zip(lo, s.extent)]
    if tall and ctx.flag(0.7):
        hi[0] = s.extent[0] - ctx.integer(1, 2)
        hi[0] = max(hi[0], lo[0])
    if ctx.flag(0.15):
        lo, hi = [0, 0, 0], [n - 1 for n in s.extent]
    box = np.array((lo, hi), dtype = int)
    sl = tuple(slice(a, b + 1) for a, b in zip(lo, hi))
    a = s.args()
    exp = s.inheritance(a)
    ina = None if s.inactive is None else s.inactive[sl]
    if ctx.flag(0.3):
        extra = a['box_inactive'] = ctx.rng.random(tuple(box[1] - box[0] + 1)) < 0.4
        ina = extra if ina is None else ina | extra
        extra = extra.copy()
    pw = ctx.choice([None, None, True, False])
    if pw is not None:
        a['set_parent_window'] = pw
    if s.new and pw:
        a.pop('set_parent_window')
        pw = None

    def cut(p):
        x = p.array
        if p.ie == 'cells':
            return x[sl]
        return x[sl[1:]] if p.ie == 'columns' else x[sl[0]] if p.ie == 'layers' else None

    box0 = box.copy()
    g = rqdm.extract_box(box = box, **a)
    ctx.sig('box', s.extent, box.tolist(), s.split, s.gaps, s.new, len(exp))
    ctx.equal(box, box0, 'argument', 'box changed')
    m, g2 = s.result(g, s.cp[sl], exp, inactive = ina, transform = cut)
    if (pw or pw is None and not s.new):
        ctx.check(g2.parent_window is not None and g2.is_refinement, 'parent-window', 'missing')
        ctx.equal(str(g2.parent_grid_uuid), str(s.uuid), 'parent-window')
        ctx.equal(np.array(g2.parent_window.within_coarse_box), box, 'parent-window')
        ctx.equal(tuple(g2.parent_window.fine_extent_kji), tuple(g2.parent_window.coarse_extent_kji), 'parent-window')
    else:
        ctx.check(g2.parent_window is None, 'parent-window', 'unexpected')


def well_box(ctx):
    """Box of cells around a well: geometry, activity and, if asked for, the well itself."""
    import resqpy.crs as rqc
    import resqpy.derived_model as rqdm
    import resqpy.grid as grr
    import resqpy.model as rq
    import resqpy.well as rqw
    from props import c29_intersections as c29
    s = Setup(ctx, regular = 0.3, gaps = False, pinch = False, n_props = ctx.integer(0, 2))
    nk, nj, ni = s.extent
    mode = ctx.choice(['trajectory', 'trajectory', 'blocked', 'column', 'column', 'column xy'])
    centres = s.cp.mean(axis = (3, 4, 5))
    lo_k, hi_k = 0, nk - 1
    a = {}
    if ctx.flag(0.4):
        lo_k = a['min_k0'] = ctx.integer(0, nk - 1)
    if ctx.flag(0.4):
        hi_k = a['max_k0'] = ctx.integer(lo_k, nk - 1)
    flat = s.cp.reshape((-1, 3))
    lo, hi = flat.min(axis = 0), flat.max(axis = 0)
    span = hi - lo
    well_uuid = None
    m = s.model
    col = None
    if mode in ('trajectory', 'blocked'):
        n = ctx.integer(1, 3)
        xy = lo[:2] + ctx.rng.uniform(0.15, 0.85, (n + 1, 2)) * span[:2]
        if ctx.flag():
            xy[:] = xy[0]
        top_first = lo[2] if s.crs_kw['z_inc_down'] else hi[2]
        z = np.linspace(lo[2] - 7.0, hi[2] + (5.0 if ctx.flag(0.7) else -0.4 * span[2]), n + 1)
        if not s.crs_kw['z_inc_down']:
            z = -z + lo[2] + hi[2]
        path = np.concatenate((xy, z[:, np.newaxis]), axis = 1)
        crs_uuid, cps = m.uuid(obj_type = 'LocalDepth3dCrs', title = 'source crs'), path
        if mode == 'trajectory' and ctx.flag(0.3):
            kw = gen.crs_kwargs(ctx)
            crs = rqc.Crs(m, title = 'well crs', **kw)
            crs.create_xml()
            crs_uuid, cps = crs.uuid, gen.CrsOracle(s.crs_kw).convert_to(gen.CrsOracle(kw), path)
        dat = rqw.MdDatum(m, crs_uuid = crs_uuid, location = tuple(cps[0]), md_reference = 'kelly bushing')
        dat.create_xml()
        mds = np.concatenate(([0.0], np.cumsum(np.linalg.norm(np.diff(path, axis = 0), axis = 1))))
        t = rqw.Trajectory(m, md_datum = dat, crs_uuid = crs_uuid, mds = mds, control_points = cps, length_uom = 'm', well_name = 'the well')
        t.write_hdf5()
        t.create_xml()
        well_uuid = t.uuid
        # crossings of horizons
        heal = c29.healed_cp(s.raw) if s.raw is not None else s.cp
        cross = {}
        for h in range(nk + 1):
            q = heal[h, :, :, 0] if h < nk else heal[nk - 1, :, :, 1]
            cross[h] = [(x[3], divmod(x[2] // 4, ni)) for x in c29.cross(path, c29.fans(q.reshape((-1, 2, 2, 3))).reshape((-1, 3, 3)))]
        if mode == 'trajectory':
            a['trajectory_uuid'] = t.uuid
        else:
            g = grr.any_grid(m, uuid = s.uuid)
            bw = rqw.BlockedWell(m, grid = g, trajectory = t)
            if not bw.cell_count:
                raise Skip('well misses grid')
            bw.write_hdf5()
            bw.create_xml(title = 'blocked')
            cells = [tuple(int(x) for x in np.unravel_index(c, s.extent)) for c in np.asarray(bw.cell_indices)]
            if not any(lo_k <= c[0] <= hi_k for c in cells) or max(c[0] for c in cells) < lo_k or min(c[0] for c in cells) > hi_k:
                raise Skip('no cells in layers')
            a['blocked_well_uuid'] = well_uuid = bw.uuid
    else:
        col = (ctx.integer(0, nj - 1), ctx.integer(0, ni - 1))
        if mode == 'column':
            a['column_ji0'] = col
        else:
            f = s.cp[0, col[0], col[1], 0].mean(axis = (0, 1))
            a['column_xy'] = (float(f[0]), float(f[1]))
        if ctx.flag(0.4):
            a['well_name'] = 'named well'
    s.close()
    b = s.args()
    exp = s.inheritance(b)
    a.update(b)
    r = 0.0
    if ctx.flag(0.7):
        r = a['radius'] = ctx.uniform(0.0, 0.6) * float(max(span[:2]))
    shape = ctx.choice(['tube', 'prism', 'box'])
    if shape != 'tube' or ctx.flag():
        a['active_cells_shape'] = shape
    if s.new and ctx.flag():
        a['inherit_well'] = True
    if mode in ('trajectory', 'blocked') and a.get('epc_file') is None:
        a['trajectory_epc'] = s.epc

    # those which must, and those which may, be included
    d = np.full(s.extent, False)
    must, may = d.copy(), d.copy()

    def near(k, p, at = r):
        return np.sum((centres[k, :, :, :2] - p[:2])**2, axis = -1) <= at * at

    def add(k, p, c, ks, others):
        """Well passes p in column c, on or in cells of layers ks."""
        for x in ks:
            if lo_k <= x <= hi_k:
                must[(x,) + tuple(c)] = may[(x,) + tuple(c)] = True
                if r > 0.0:
                    must[x] |= near(x, p, r * (1.0 - 1.0e-9))
        if r > 0.0:
            reach = np.any([near(y, p, r * (1.0 + 1.0e-9)) for y in others if 0 <= y < nk], axis = 0)
            for x in others:
                if lo_k <= x <= hi_k:
                    may[x] |= reach
        for x in others:
            if lo_k <= x <= hi_k:
                may[(x,) + tuple(c)] = True

    if mode == 'trajectory':
        for h, l in cross.items():
            if lo_k <= h <= hi_k + 1:
                for p, c in l:
                    add(h, p, c, (h - 1, h), (h - 1, h))
    elif mode == 'blocked':
        for c in cells:
            if lo_k <= c[0] <= hi_k:
                add(c[0], centres[c], c[1:], (c[0],), (c[0] - 1, c[0]))
    else:
        for k in range(lo_k, hi_k + 1):
            add(k, centres[k, col[0], col[1]], col, (k,), (k - 1, k))
    if not np.any(must):
        raise Skip('well misses layers')
    if mode == 'blocked' and not np.array_equal(np.any(must, axis = 0), np.any(may, axis = 0)) or not np.array_equal(np.any(must, axis = 0), np.any(may, axis = 0)):
        raise Skip('extent of box depends on detail')
    cols = np.any(must, axis = 0)
    js, is_ = np.where(np.any(cols, axis = 1))[0], np.where(np.any(cols, axis = 0))[0]
    box = np.array([[lo_k, js[0], is_[0]], [hi_k, js[-1], is_[-1]]])
    sl = tuple(slice(x, y + 1) for x, y in zip(box[0], box[1]))
    base = np.zeros(s.extent, dtype = bool) if s.inactive is None else s.inactive
    if col is not None and np.all(base[(slice(lo_k, hi_k + 1),) + col]):
        a.pop('inherit_well', None)  # blocked well for a column skips inactive cells
    g, got_box = rqdm.extract_box_for_well(**a)
    ctx.sig('well box', s.extent, mode, round(r, -1), shape, s.new, box.tolist())
    ctx.check(g is not None, 'well-box-none', 'no grid returned', mode = mode)
    ctx.equal(np.array(got_box), box, 'well-box', mode)
    if shape == 'box':
        ina = base[sl]
    elif shape == 'prism':
        ina = (base | ~cols)[sl]
    else:
        ina = None
        got = np.zeros(tuple(box[1] - box[0] + 1), dtype = bool) if g.inactive is None else np.asarray(g.inactive)
        ctx.check(not np.any(got & ~base[sl] & must[sl]), 'well-box-active', 'cell by the well is inactive', mode = mode, radius = r)
        ctx.check(not np.any(~got & (base | ~may)[sl]), 'well-box-active', 'cell away from the well is active', mode = mode, radius = r)
        ina = got

    def cut(p):
        x = p.array
        if p.ie == 'cells':
            return x[sl]
        return x[sl[1:]] if p.ie == 'columns' else x[sl[0]] if p.ie == 'layers' else None

    m2, g2 = s.result(g, s.cp[sl], exp, inactive = ina, transform = cut)
    if not s.title:
        ctx.check(g2.title.startswith('local grid extracted'), 'title', g2.title)
    if a.get('inherit_well'):
        if mode == 'trajectory':
            t2 = rqw.Trajectory(m2, uuid = well_uuid)
            ctx.close(t2.control_points, cps, 'well-box-well', tol = 1.0e-6)
            ctx.close(t2.measured_depths, mds, 'well-box-well', tol = 1.0e-6)
        elif mode == 'blocked':
            t2 = rqw.Trajectory(m2, uuid = t.uuid)
            ctx.close(t2.control_points, cps, 'well-box-well', tol = 1.0e-6)
        else:
            u = m2.uuids(obj_type = 'BlockedWellboreRepresentation')
            ctx.equal(len(u), 1, 'well-box-well', 'blocked well for column')
            bw = rqw.BlockedWell(m2, uuid = u[0])
            e = [(k, col[0] - box[0, 1], col[1] - box[0, 2]) for k in range(hi_k - lo_k + 1) if not base[(k + lo_k,) + col]]
            ctx.equal([tuple(int(v) for v in x) for x in bw.cell_indices_for_grid_uuid(g2.uuid)], [tuple(int(v) for v in x) for x in e], 'well-box-well', 'cells of column')
            ctx.check(bw.title == a.get('well_name', 'well for global column %d, %d' % (col[1] + 1, col[0] + 1)), 'well-box-well', 'title', title = bw.title)
    ctx.observe('boxes around ' + mode)


def named_throws(ctx):
    """Throws of named faults scaled, each by its own factor."""
    import resqpy.derived_model as rqdm
    import resqpy.fault as rqf
    import resqpy.grid as grr
    import resqpy.model as rq
    s = Setup(ctx, regular = 0, faults = True, gaps = False, crs = dict(gen.crs_kwargs(ctx), axis_order = 'easting northing'), kind = ctx.choice(['box', 'tapered', 'sheared']), min_n = (1, 2, 2), max_n = (3, 5, 5))
    if not s.split:
        raise Skip('unfaulted')
    r = s.raw
    m = s.model
    g0 = grr.any_grid(m, uuid = s.uuid)
    sj = np.any(r.pfc[:-1, :, 1, :] != r.pfc[1:, :, 0, :], axis = -1)
    si = np.any(r.pfc[:, :-1, :, 1] != r.pfc[:, 1:, :, 0], axis = -1)
    # share out the split column faces between named faults
    names = ['alpha', 'beta', 'gamma'][:ctx.integer(1, 3)]
    if ctx.flag() or len(names) == 1:
        who_j, who_i = ctx.rng.integers(0, len(names), sj.shape), ctx.rng.integers(0, len(names), si.shape)
        if ctx.flag():  # in runs
            who_j[:] = who_j[:, :1] if who_j.size else who_j
            who_i[:] = who_i[:1] if who_i.size else who_i
    else:
        who_j, who_i = np.zeros(sj.shape, dtype = int), np.ones(si.shape, dtype = int)
    gcs = None
    for n, name in enumerate(names):
        jm, im = sj & (who_j == n), si & (who_i == n)
        if not (np.any(jm) or np.any(im)):
            continue
        one = rqf.GridConnectionSet(m, grid = g0)
        one.set_pairs_from_face_masks(None, np.broadcast_to(jm, (r.nk,) + jm.shape).copy(), np.broadcast_to(im, (r.nk,) + im.shape).copy(), name, True, k_sides = None, j_sides = None, i_sides = None)
        if gcs is None:
            gcs = one
        else:
            gcs.append(one)
    gcs.write_hdf5()
    gcs.create_xml(title = 'faults')
    s.close()
    a = s.args()
    exp = s.inheritance(a)
    default = ctx.choice([None, None, 1.0, 0.5, 2.0])
    scale = {n: ctx.choice([0.0, 0.5, 1.0, 2.0, ctx.uniform(0.1, 3.0)]) for n in names if ctx.flag(0.8)}
    if ctx.flag(0.3):
        scale['not there'] = 5.0
    k = ctx.integer(0, r.nk - 1)
    face = ctx.choice(['top', 'base'])
    kr = k + (1 if face == 'base' else 0)
    a['ref_k0'], a['ref_k_faces'] = k, face
    prim = (r.nj + 1) * (r.ni + 1)
    u = unsplit_expected(r)[kr].reshape((-1, 3))
    off = np.zeros(r.points.shape[1:])
    count = np.bincount([p for p, _ in r.extras], minlength = prim)
    at = np.arange(prim + len(r.extras))
    for e, (p, _) in enumerate(r.extras):
        at[prim + e] = p
        if default is not None:
            off[p] = (r.points[kr, p] - u[p]) * (default - 1.0)
            off[prim + e] = (r.points[kr, prim + e] - u[p]) * (default - 1.0)
    # factors wanted at each pillar
    want = {}
    for n, name in enumerate(names):
        if name not in scale:
            continue
        for mask, axis in ((sj & (who_j == n), 0), (si & (who_i == n), 1)):
            for j, i in zip(*np.where(mask)):
                for x in range(2):
                    pa, pb = (r.pfc[j, i, 1, x], r.pfc[j + 1, i, 0, x]) if axis == 0 else (r.pfc[j, i, x, 1], r.pfc[j, i + 1, x, 0])
                    want.setdefault(int(at[pa]), set()).add((scale[name], int(min(pa, pb)), int(max(pa, pb))))
    for p, l in want.items():
        l = {x for x in l if x[1] != x[2]} or l
        if len({x[0] for x in l}) > 1 or count[p] > 1 or len(l) > 1:
            raise Skip('meeting of faults')
        f, pa, pb = next(iter(l))
        mid = 0.5 * (r.points[kr, pa] + r.points[kr, pb])
        for q in {pa, pb}:
            off[q] = (r.points[kr, q] - mid) * (f - 1.0)
    m = s.source.model if s.source is not None else rq.Model(s.epc)
    cs = rqf.GridConnectionSet(m, uuid = gcs.uuid)
    if ctx.flag(0.3):
        a['inherit_gcs'] = False
    g = rqdm.fault_throw_scaling(scaling_factor = default, connection_set = cs, scaling_dict = scale, **a)
    new = r.to_cp(r.points + off)
    ctx.sig('named throws', s.extent, len(r.extras), s.new, names, kr, default)
    m2, g2 = s.result(g, new, exp, inactive = s.inactive, transform = as_is)
    l = [rqf.GridConnectionSet(m2, uuid = x) for x in m2.uuids(obj_type = 'GridConnectionSetRepresentation')]
    l = [x for x in l if str(x.grid_list[0].uuid) == str(g2.uuid)]
    ctx.equal(len(l), 1 if a.get('inherit_gcs', True) else 0, 'inherited-gcs', 'connection sets for the new grid')
    if l:
        x = l[0]
        x.cache_arrays()
        cs.cache_arrays()
        ctx.equal(x.title, 'faults', 'inherited-gcs')
        ctx.equal(np.asarray(x.cell_index_pairs), np.asarray(cs.cell_index_pairs), 'inherited-gcs')
        ctx.equal(np.asarray(x.face_index_pairs), np.asarray(cs.face_index_pairs), 'inherited-gcs')
        ctx.equal(np.asarray(x.feature_indices), np.asarray(cs.feature_indices), 'inherited-gcs')
        ctx.equal([x.fault_name_for_feature_index(i) for i in range(len(x.feature_list))], [cs.fault_name_for_feature_index(i) for i in range(len(cs.feature_list))], 'inherited-gcs')
    ctx.observe('named faults', len(want))


def copied(ctx):
    """In memory copy, to the same or another model."""
    import resqpy.crs as rqc
    import resqpy.grid as grr
    import resqpy.model as rq
    from resqpy.derived_model._copy_grid import copy_grid
    s = Setup(ctx, undefined = 0.2, n_props = 0)
    s.close()
    m = rq.Model(s.epc)
    src = grr.any_grid(m, uuid = s.uuid)
    n0 = len(m.parts())
    how = ctx.choice(['none', 'same', 'other', 'other', 'again'])
    t = {'none': None, 'same': m}.get(how) if how in ('none', 'same') else rq.Model(s.epc) if how == 'again' else rq.new_model(ctx.path('derived.epc'))
    g = copy_grid(src, t)
    ctx.sig('copy', s.extent, s.split, s.gaps, how)
    ctx.equal(len(m.parts()), n0, 'source-model', 'parts of source model')
    t = t or m
    ctx.check(g.model is t, 'model')
    ctx.check(str(g.uuid) != str(s.uuid), 'identity', 'copy has uuid of source')
    ctx.close(g.corner_points(), s.cp, 'geometry', tol = 1.0e-9)
    for a in ('points_cached', 'inactive', 'array_cell_geometry_is_defined', 'k_gap_after_array', 'split_pillar_indices_cached'):
        x, y = getattr(g, a, None), getattr(src, a, None)
        if isinstance(x, np.ndarray) and isinstance(y, np.ndarray) and x.size:
            ctx.check(not np.shares_memory(x, y), 'independent', 'array shared between copy and source: ' + a)
            ctx.equal(np.nan_to_num(x), np.nan_to_num(y), 'attributes', a)
    if s.inactive is not None:
        ctx.equal(g.inactive, s.inactive, 'inactive')
    ctx.equal(g.k_direction_is_down, src.k_direction_is_down, 'attributes')
    ctx.equal(g.grid_is_right_handed, src.grid_is_right_handed, 'attributes')
    ctx.equal(g.k_gaps, src.k_gaps, 'attributes')
    ctx.check(t.part_for_uuid(g.crs_uuid) is not None, 'crs', 'crs of copy is not in its model')
    ctx.check(g.crs is not None and g.crs.model is t, 'crs', 'crs of copy')
    s.same_crs(g.crs)
    g.points_cached += 1.0
    ctx.close(src.corner_points(), s.cp, 'independent', tol = 1.0e-9, message = 'source after moving copy')
    g.points_cached -= 1.0
    g.write_hdf5()
    g.create_xml(title = 'copy')
    t.store_epc()
    t.h5_release()
    files.kept(ctx, s.before, files.contents(s.epc), 'source-content', superset = how != 'other')
    t2 = rq.Model(t.epc_file)
    g2 = grr.any_grid(t2, uuid = g.uuid)
    ctx.close(g2.corner_points(), s.cp, 'geometry', tol = 1.0e-9)
    if s.inactive is not None:
        ctx.equal(g2.inactive, s.inactive, 'inactive', 'stored')


def displacement(ctx, s, g2, old, new):
    """Displacement of cell centres as three properties."""
    import resqpy.property as rqp
    pc = rqp.GridPropertyCollection(grid = g2)
    d = np.mean(new, axis = (3, 4, 5)) - np.mean(old, axis = (3, 4, 5))
    for axis, t in enumerate(('DX_DISPLACEMENT', 'DY_DISPLACEMENT', 'DZ_DISPLACEMENT')):
        parts = [p for p in pc.parts() if pc.citation_title_for_part(p) == t]
        ctx.equal(len(parts), 1, 'displacement', t)
        ctx.close(pc.cached_part_array_ref(parts[0]), d[..., axis], 'displacement', tol = 2.0e-3, message = t)
        ctx.equal(pc.uom_for_part(parts[0]), s.crs_kw.get('xy_units' if axis < 2 else 'z_units', 'm'), 'displacement', t)


def tilted(ctx):
    import resqpy.derived_model as rqdm
    s = Setup(ctx, regular = 0, undefined = 0.15)
    s.close()
    a = s.args()
    exp = s.inheritance(a)
    pivot = ctx.choice([tuple, list, np.array])([ctx.uniform(-500, 500), ctx.uniform(-500, 500), ctx.uniform(500, 1500)])
    az, dip = ctx.choice([0.0, 90.0, ctx.uniform(-180.0, 360.0)]), ctx.choice([0.0, 10.0, 30.0, ctx.uniform(-60.0, 60.0)])
    store = a['store_displacement'] = ctx.flag() and s.raw.cell_undefined is None
    g = rqdm.tilted_grid(pivot_xyz = pivot, azimuth = az, dip = dip, **a)
    # rotation about the horizontal axis orthogonal to azimuth, moving points on the azimuth side towards greater z
    t, d = np.radians(az), np.radians(dip)
    h = np.array([np.sin(t), np.cos(t), 0.0])
    v = s.cp - np.array(pivot)
    along, z = v @ h, v[..., 2]
    new = v + (along * (np.cos(d) - 1.0) - z * np.sin(d) * -1.0 * -1.0)[..., None] * h
    new[..., 2] = z * np.cos(d) + along * np.sin(d)
    new = new + np.array(pivot)
    ctx.sig('tilt', s.extent, s.split, s.gaps, s.new, store, len(exp))
    m, g2 = s.result(g, new, exp, inactive = s.inactive, transform = as_is, tol = 1.0e-5)
    if store:
        displacement(ctx, s, g2, s.cp, new)


def unsplit(ctx):
    import resqpy.derived_model as rqdm
    s = Setup(ctx, regular = 0, faults = True, gaps = False)
    if not s.split:
        raise Skip('unfaulted')
    s.close()
    a = s.args()
    exp = s.inheritance(a)
    g = rqdm.unsplit_grid(**a)
    u = unsplit_expected(s.raw)
    nk, nj, ni = s.extent
    cp = np.empty_like(s.cp)
    for kp in range(2):
        for jp in range(2):
            for ip in range(2):
                cp[:, :, :, kp, jp, ip] = u[kp:nk + kp, jp:nj + jp, ip:ni + ip]
    ctx.sig('unsplit', s.extent, len(s.raw.extras), s.new, len(exp))
    m, g2 = s.result(g, cp, exp, inactive = s.inactive, transform = as_is)
    ctx.check(not g2.has_split_coordinate_lines, 'unsplit')


def depth_adjusted(ctx):
    import resqpy.derived_model as rqdm
    crs = gen.crs_kwargs(ctx)
    crs['axis_order'] = 'easting northing'
    s = Setup(ctx, regular = 0, crs = crs)
    s.close()
    a = s.args()
    exp = s.inheritance(a)
    r = s.raw
    k_ref = ctx.integer(0, r.nk - 1) if ctx.flag() else 0
    ref = r.points[0 if k_ref == 0 else r.raw_k[k_ref]]
    local = ctx.flag(0.7) or crs.get('rotation', 0.0) != 0.0
    centre = ref[ctx.integer(0, len(ref) - 1), :2] + ctx.rng.uniform(-30.0, 30.0, 2)
    radius = ctx.uniform(60.0, 400.0)
    shift = ctx.uniform(-20.0, 20.0)
    shape = ctx.choice(['linear', 'quadratic'])
    given = centre if local else centre + np.array([crs.get('x_offset', 0.0), crs.get('y_offset', 0.0)])
    store = a['store_displacement'] = ctx.flag(0.4)
    d = np.linalg.norm(ref[:, :2] - centre, axis = 1) / radius
    f = np.where(d >= 1.0, 0.0, 1.0 - d) if shape == 'linear' else np.where(d >= 1.0, 0.0, np.where(d >= 0.5, 2.0 * (1.0 - d)**2, 1.0 - 2.0 * d * d))
    if np.all(d > 0.999):
        raise Skip('nothing within radius')
    if k_ref != 0 or ctx.flag():
        a['ref_k0'] = k_ref
    if s.gaps and k_ref:
        raise Skip('reference layer below gap')
    g = rqdm.local_depth_adjustment(centre_x = given[0], centre_y = given[1], radius = radius, centre_shift = shift, use_local_coords = local,
                                    decay_shape = shape, **a)
    pts = r.points.copy()
    pts[..., 2] += f * (shift if s.crs_kw['z_inc_down'] else -shift)
    new = r.to_cp(pts)
    ctx.sig('depth', s.extent, s.split, s.gaps, s.new, shape, local, len(exp))
    m, g2 = s.result(g, new, exp, inactive = s.inactive, transform = as_is)
    if store:
        displacement(ctx, s, g2, s.cp, new)


def interpolated(ctx):
    import resqpy.derived_model as rqdm
    import resqpy.grid as grr
    import resqpy.model as rq
    crs = gen.crs_kwargs(ctx)
    s = Setup(ctx, regular = 0, crs = crs, gaps = False, pinch = False, kind = 'random', right_handed = True, k_down = True, min_n = (1, 2, 2))
    r = s.raw
    compat = ctx.choice(['shift', 'shift', 'other', 'refault'])
    if compat == 'shift':  # same structure
        q = random_grid(ctx, n = (1, 1, 1))
        q.__dict__.update(r.__dict__)
        q.points = r.points + ctx.rng.uniform(-3.0, 3.0, r.points.shape)
        q.inactive = None if ctx.flag() else ctx.rng.random(r.extent) < 0.3
    else:
        q = random_grid(ctx, n = r.extent, gaps = False, pinch = False, kind = 'random', right_handed = True, k_down = True, z_inc_down = crs['z_inc_down'],
                        faults = True if compat == 'refault' else None)
    if ctx.flag():
        q.pillar_shape = r.pillar_shape
    if q.pillar_shape != r.pillar_shape:
        q.pillar_shape = r.pillar_shape
    gb = q.build(s.model, crs_uuid = s.model.uuid(obj_type = 'LocalDepth3dCrs', title = 'source crs'), title = 'second')
    gb.write_hdf5()
    gb.create_xml()
    s.second = gb.uuid
    s.close()
    a = s.args(must_load = True)
    a.pop('source_grid')
    exp = s.inheritance(a)
    m = s.source.model if ctx.flag() else rq.Model(s.epc)
    gb = grr.any_grid(m, uuid = s.second)
    w = ctx.choice([0.0, 1.0, 0.5, ctx.uniform(0.0, 1.0)])
    if w != 0.5 or ctx.flag():
        a['a_to_b_0_to_1'] = w
    g = rqdm.interpolated_grid(grid_a = s.source, grid_b = gb, **a)
    cp_b = q.to_cp()
    ctx.sig('interpolated', s.extent, r.split, q.split, compat, s.new, round(w, 1))
    ina = None if s.inactive is None or q.inactive is None else s.inactive & q.inactive
    exact = (not r.split and not q.split) or compat == 'shift'
    s.result(g, s.cp * (1.0 - w) + cp_b * w, exp, inactive = ina, transform = as_is, tol = 1.0e-6 if exact else 0.0101)
    ctx.close(gb.corner_points(), cp_b, 'source-grid', tol = 1.0e-6, message = 'second source grid')


def throws(ctx):
    import resqpy.derived_model as rqdm
    import resqpy.fault as rqf
    s = Setup(ctx, growth = ctx.flag(0.7), regular = 0, faults = True, gaps = False, crs = dict(gen.crs_kwargs(ctx), axis_order = 'easting northing'), kind = ctx.choice(['box', 'tapered', 'sheared']))
    if not s.split:
        raise Skip('unfaulted')
    s.close()
    a = s.args()
    exp = s.inheritance(a)
    r = s.raw
    k = ctx.integer(0, r.nk - 1)
    face = ctx.choice(['top', 'base'])
    f = ctx.choice([0.0, 0.5, 1.0, 2.0, ctx.uniform(0.1, 3.0)])
    store = a['store_displacement'] = ctx.flag(0.4)
    if k or face == 'base' or ctx.flag():
        a['ref_k0'], a['ref_k_faces'] = k, face
    kr = k + (1 if face == 'base' else 0)
    fn = rqdm.global_fault_throw_scaling if ctx.flag() else rqdm.fault_throw_scaling
    g = fn(scaling_factor = f, **a)
    prim = (r.nj + 1) * (r.ni + 1)
    u = unsplit_expected(r)[kr].reshape((-1, 3))
    off = np.zeros(r.points.shape[1:])
    for e, (p, _) in enumerate(r.extras):
        off[p] = (r.points[kr, p] - u[p]) * (f - 1.0)
        off[prim + e] = (r.points[kr, prim + e] - u[p]) * (f - 1.0)
    new = r.to_cp(r.points + off)
    ctx.sig('throws', s.extent, len(r.extras), s.new, round(f, 1), kr)
    m, g2 = s.result(g, new, exp, inactive = s.inactive, transform = as_is)
    if store:
        displacement(ctx, s, g2, s.cp, new)


def throws_smoothed(ctx):
    """Neighbouring pillars follow by a decaying amount along their own lines, further ones stay put."""
    import resqpy.derived_model as rqdm
    s = Setup(ctx, regular = 0, faults = True, gaps = False, min_n = (1, 2, 2), max_n = (3, 5, 5), crs = dict(SAME_UNITS), n_props = 0,
              kind = ctx.choice(['box', 'sheared', 'tapered']), pinch = False, growth = ctx.flag())
    if not s.split:
        raise Skip('unfaulted')
    s.close()
    a = s.args()
    r = s.raw
    f, n = ctx.uniform(0.2, 2.5), ctx.integer(1, 3)
    g = rqdm.global_fault_throw_scaling(scaling_factor = f, cell_range = n, **a)
    prim = (r.nj + 1) * (r.ni + 1)
    u = unsplit_expected(r)[0].reshape((-1, 3))
    off = np.zeros(r.points.shape[1:])
    depth = np.full(prim, 99)
    for e, (p, _) in enumerate(r.extras):
        off[p] = (r.points[0, p] - u[p]) * (f - 1.0)
        off[prim + e] = (r.points[0, prim + e] - u[p]) * (f - 1.0)
        depth[p] = 0
    # steps away from the nearest split pillar
    shape = (r.nj + 1, r.ni + 1)
    for _ in range(prim):
        for p in range(prim):
            j, i = divmod(p, shape[1])
            for dj, di in ((0, 1), (1, 0), (0, -1), (-1, 0)):
                if 0 <= j + dj < shape[0] and 0 <= i + di < shape[1]:
                    depth[p] = min(depth[p], depth[(j + dj) * shape[1] + i + di] + 1)
    got = g.points_cached
    moved = got - r.points
    ctx.close(moved, np.broadcast_to(moved[0], moved.shape), 'geometry', tol = 1.0e-6, message = 'same shift for all layers')
    fixed = np.concatenate((depth == 0, np.ones(len(r.extras), dtype = bool)))
    ctx.close(moved[0][fixed], off[fixed], 'geometry', tol = 1.0e-6, message = 'split pillars')
    ctx.close(moved[0][:prim][depth > n], np.zeros((int(np.sum(depth > n)), 3)), 'geometry', tol = 1.0e-9, message = 'pillars beyond range')
    # mean of the shifts of the nearer neighbours, as seen by the columns between, reduced and taken along the pillar
    inst = {(p, c): prim + e for e, (p, cols) in enumerate(r.extras) for c in cols}
    want = off.copy()
    for d in range(1, n + 1):
        c = (2.0**(n - d + 1) - 1.0) / (2.0**(n - d + 2) - 1.0)
        for p in np.nonzero(depth == d)[0]:
            j, i = divmod(int(p), shape[1])
            part = []
            for dj, di in ((0, 1), (1, 0), (0, -1), (-1, 0)):
                y, x = j + dj, i + di
                if not (0 <= y < shape[0] and 0 <= x < shape[1]) or depth[y * shape[1] + x] >= d:
                    continue
                q = y * shape[1] + x
                for cj in {min(j, y), max(j, y) - 1} if dj else {j - 1, j}:
                    for ci in {min(i, x), max(i, x) - 1} if di else {i - 1, i}:
                        if 0 <= cj < r.nj and 0 <= ci < r.ni:
                            part.append(want[inst.get((q, cj * r.ni + ci), q), 2])
            z = c * np.mean(part)
            line = r.points[-1, p] - r.points[0, p]
            want[p] = (*(line[:2] * z / line[2]), z)
    near = (depth > 0) & (depth <= n)
    ctx.close(moved[0][:prim][near], want[:prim][near], 'geometry', tol = 1.0e-6, message = 'decay of shift away from fault')
    ctx.sig('smoothed', s.extent, len(r.extras), n)
    s.result(g, s.raw.to_cp(got), [], inactive = s.inactive)


def draped(ctx):
    import resqpy.derived_model as rqdm
    import resqpy.model as rq
    import resqpy.surface as rqs
    crs = dict(gen.crs_kwargs(ctx), axis_order = 'easting northing')
    crs['z_units'] = crs.get('xy_units', 'm')
    s = Setup(ctx, regular = 0, gaps = False, crs = crs, kind = ctx.choice(['box', 'tapered', 'sheared']), pinch = False)
    r = s.raw
    own = ctx.flag(0.35)
    # surface: a plane over an area beyond the grid
    lo, hi = np.min(r.points, axis = (0, 1)), np.max(r.points, axis = (0, 1))
    ext = 0.8 * max(hi[:2] - lo[:2]) + 200.0
    gx, gy = ctx.uniform(-0.05, 0.05), ctx.uniform(-0.05, 0.05)
    z0 = ctx.uniform(lo[2] - 50.0, hi[2] + 50.0)
    if own:
        gx = gy = 0.0
    c0 = 0.5 * (lo + hi)

    def plane(x, y):
        return z0 + gx * (x - c0[0]) + gy * (y - c0[1])

    k = ctx.integer(0, r.nk - 1)
    face = ctx.choice(['top', 'base'])
    kr = k + (1 if face == 'base' else 0)
    u = unsplit_expected(r).reshape((r.nk + 1, -1, 3))
    factor = None
    surf = None
    if not own:
        m = s.model if ctx.flag() else gen.model(ctx, 'surface.epc', crs = False)
        if m is s.model:
            cu = m.uuid(obj_type = 'LocalDepth3dCrs', title = 'source crs')
        else:
            import resqpy.crs as rqc
            other = ctx.flag()
            kw = dict(crs)
            if other:
                kw['x_offset'] = kw.get('x_offset', 0.0) + 64.0
                kw['z_offset'] = kw.get('z_offset', 0.0) + 16.0
            c = rqc.Crs(m, title = 'crs of surface', **kw)
            c.create_xml()
            cu = c.uuid
        xs, ys = [np.linspace(c0[a] - ext, c0[a] + ext, ctx.integer(2, 4)) for a in range(2)]
        x, y = np.meshgrid(xs, ys)
        p = np.stack((x, y, plane(x, y)), axis = -1).reshape(-1, 3)
        nx = len(xs)
        t = []
        for j in range(len(ys) - 1):
            for i in range(nx - 1):
                b = j * nx + i
                t += [(b, b + 1, b + nx), (b + 1, b + nx + 1, b + nx)]
        sp = p.copy()
        if m is not s.model:
            o1, o2 = gen.CrsOracle(crs), gen.CrsOracle(kw)
            sp = o1.convert_to(o2, p)
        surf = rqs.Surface(m, crs_uuid = cu, title = 'drape surface')
        surf.set_from_triangles_and_points(np.array(t), sp)
        surf.write_hdf5()
        surf.create_xml()
        m.store_epc()
        m.h5_release()
        line, v = u[0], u[-1] - u[0]
        # plane: z - gx x - gy y = const
        nrm = np.array([-gx, -gy, 1.0])
        q0 = np.array([c0[0], c0[1], z0])
        tt = ((q0 - line) @ nrm) / (v @ nrm)
        pick = line + tt[:, None] * v
    else:
        factor = ctx.choice([0.5, 2.0, ctx.uniform(0.1, 3.0)])
        if s.raw.kind != 'box' or r.split:
            raise Skip('pillars not vertical')
        pick = u[kr].copy()
        zmin = pick[:, 2].min() if crs['z_inc_down'] else pick[:, 2].max()
        pick[:, 2] = zmin + factor * (pick[:, 2] - zmin)
    s.close()
    a = s.args()
    exp = s.inheritance(a)
    if k or face == 'base' or ctx.flag():
        a['ref_k0'], a['ref_k_faces'] = k, face
    store = a['store_displacement'] = ctx.flag(0.3)
    if own:
        a['scaling_factor'] = factor
        a['quad_triangles'] = ctx.flag()
        a['border'] = ctx.uniform(5.0, 50.0)
    else:
        a['surface'] = rqs.Surface(rq.Model(m.epc_file), uuid = surf.uuid)
        if ctx.flag():
            a['surface'].triangles_and_points()
    g = rqdm.drape_to_surface(**a)
    move = pick - u[kr]
    prim = (r.nj + 1) * (r.ni + 1)
    off = np.concatenate((move, np.array([move[p] for p, _ in r.extras]).reshape((-1, 3))))
    assert len(off) == r.points.shape[1]
    new = r.to_cp(r.points + off)
    ctx.sig('drape', s.extent, s.split, kr, own, s.new, store)
    m2, g2 = s.result(g, new, exp, inactive = s.inactive, transform = as_is, tol = 1.0e-4)
    if store:
        displacement(ctx, s, g2, s.cp, new)
    if not own:
        ctx.close(a['surface'].triangles_and_points()[1], sp, 'surface', tol = 1.0e-6, message = 'surface has been changed')


# functions which change the layout of cells


def mapping(ctx, coarse = None, fine = None):
    """A FineCoarse for the given coarse or fine extent; returns with ratios and proportions."""
    import resqpy.olio.fine_coarse as rqfc
    kinds, ratios = [], []
    for axis in range(3):
        if coarse is not None:
            n = coarse[axis]
            f, r = ratio_vector(ctx, n)
            r = [min(x, 3) for x in r]
        else:
            n = fine[axis]
            d = [x for x in range(1, n + 1) if n % x == 0]
            f = ctx.choice(['constant', 'vector'])
            if f == 'constant':
                x = ctx.choice(d)
                r = [x] * (n // x)
            else:
                r = []
                while sum(r) < n:
                    r.append(ctx.integer(1, min(3, n - sum(r))))
        kinds.append(f)
        ratios.append(r)
    fe, ce = tuple(sum(r) for r in ratios), tuple(len(r) for r in ratios)
    fc = rqfc.FineCoarse(fe, ce)
    for axis in range(3):
        if kinds[axis] == 'constant':
            fc.set_constant_ratio(axis)
        else:
            fc.set_ratio_vector(axis, np.array(ratios[axis]))
    prop = [[np.full(x, 1.0 / x) for x in r] for r in ratios]
    for axis in range(3):
        if coarse is not None and ctx.flag(0.3):
            v = [ctx.rng.integers(1, 5, x) for x in ratios[axis]]
            fc.set_proportions_list_of_vectors(axis, v)
            prop[axis] = [x / float(np.sum(x)) for x in v]
        elif ctx.flag():
            fc.set_equal_proportions(axis)
    return fc, ratios, prop


def trilinear(c, f):
    """Point of a hexahedral cell with corners c (2, 2, 2, 3) at fractions f of (k, j, i)."""
    out = np.zeros(3)
    for kp in range(2):
        for jp in range(2):
            for ip in range(2):
                out = out + c[kp, jp, ip] * (f[0] if kp else 1.0 - f[0]) * (f[1] if jp else 1.0 - f[1]) * (f[2] if ip else 1.0 - f[2])
    return out


def refined_cp(cp, ratios, prop):
    ext = tuple(sum(r) for r in ratios)
    out = np.empty(ext + (2, 2, 2, 3))
    edges = [[np.concatenate(([0.0], np.cumsum(p))) for p in prop[a]] for a in range(3)]
    where = []
    for a in range(3):
        where.append([(c, edges[a][c][x], edges[a][c][x + 1]) for c, r in enumerate(ratios[a]) for x in range(r)])
    for k, (ck, k0, k1) in enumerate(where[0]):
        for j, (cj, j0, j1) in enumerate(where[1]):
            for i, (ci, i0, i1) in enumerate(where[2]):
                c = cp[ck, cj, ci]
                for kp in range(2):
                    for jp in range(2):
                        for ip in range(2):
                            out[k, j, i, kp, jp, ip] = trilinear(c, ((k0, k1)[kp], (j0, j1)[jp], (i0, i1)[ip]))
    return out, [[w[0] for w in x] for x in where]


def check_parent(ctx, g2, uuid, ratios, prop = None, box = None, refinement = True):
    """Stored relationship of a grid to the one it was derived from."""
    pw = g2.parent_window
    ctx.check(pw is not None, 'parent-window', 'missing')
    ctx.equal(str(g2.parent_grid_uuid), str(uuid), 'parent-window', 'grid')
    if any(x != 1 for r in ratios for x in r):
        ctx.equal(bool(g2.is_refinement), refinement, 'parent-window', 'direction')
    for axis in range(3):
        ctx.equal([int(pw.ratio(axis, c)) for c in range(len(ratios[axis]))], [int(x) for x in ratios[axis]], 'parent-window', 'ratios')
        if prop is not None:
            for c in range(len(ratios[axis])):
                ctx.close(np.array(pw.proportion(axis, c)), np.array(prop[axis][c]), 'parent-window', tol = 1.0e-6)
    if box is not None:
        ctx.equal(np.array(pw.within_coarse_box if g2.is_refinement else pw.within_fine_box), np.array(box), 'parent-window', 'box')
    ctx.observe('parent windows')


def refined_box(ctx):
    """A box is extracted then refined, the result relating to the original grid."""
    import resqpy.derived_model as rqdm
    s = Setup(ctx, regular = 0, faults = False, gaps = False, n_props = 0, min_n = (2, 2, 2), max_n = (4, 4, 4))
    s.close()
    lo = np.array([ctx.integer(0, n - 1) for n in s.extent])
    hi = np.array([ctx.integer(int(l), n - 1) for l, n in zip(lo, s.extent)])
    box = np.stack((lo, hi))
    sl = tuple(slice(x, y + 1) for x, y in zip(lo, hi))
    import resqpy.model as rq
    import resqpy.grid as grr
    rqdm.extract_box(s.epc, box = box, new_grid_title = 'part', source_grid = grr.any_grid(rq.Model(s.epc), uuid = s.uuid))
    m = rq.Model(s.epc)
    part_uuid = m.uuid(obj_type = 'IjkGridRepresentation', title = 'part')
    part = grr.any_grid(m, uuid = part_uuid)
    ext = tuple(int(x) for x in hi - lo + 1)
    fc, ratios, prop = mapping(ctx, coarse = ext)
    how = ctx.choice(['grandparent', 'grandparent', 'parent', True, None, False])
    cp, _ = refined_cp(s.cp[sl], ratios, prop)
    g = rqdm.refined_grid(s.epc, part, fc, set_parent_window = how, new_grid_title = 'finer')
    ctx.sig('refined box', s.extent, ext, tuple(map(tuple, ratios)), how)
    m2 = rq.Model(s.epc)
    g2 = grr.any_grid(m2, uuid = g.uuid)
    ctx.equal(tuple(int(x) for x in g2.extent_kji), cp.shape[:3], 'extent')
    ctx.close(g2.corner_points(), cp, 'geometry', tol = 1.0e-6)
    if how is False:
        ctx.check(g2.parent_window is None, 'parent-window', 'unexpected')
    elif how == 'grandparent':
        check_parent(ctx, g2, s.uuid, ratios, prop, box = box)
    else:
        check_parent(ctx, g2, part_uuid, ratios, prop)


def coarsened_box(ctx):
    """A box is extracted then coarsened, the result relating to the original grid."""
    import resqpy.derived_model as rqdm
    import resqpy.model as rq
    import resqpy.grid as grr
    s = Setup(ctx, regular = 0, faults = False, gaps = False, pinch = False, n_props = 0, min_n = (2, 2, 2), max_n = (6, 6, 6),
              kind = ctx.choice(['box', 'sheared', 'tapered']))
    s.close()
    lo = np.array([ctx.integer(0, n - 1) for n in s.extent])
    hi = np.array([ctx.integer(int(l), n - 1) for l, n in zip(lo, s.extent)])
    box = np.stack((lo, hi))
    sl = tuple(slice(x, y + 1) for x, y in zip(lo, hi))
    rqdm.extract_box(s.epc, box = box, new_grid_title = 'part', source_grid = grr.any_grid(rq.Model(s.epc), uuid = s.uuid))
    m = rq.Model(s.epc)
    part_uuid = m.uuid(obj_type = 'IjkGridRepresentation', title = 'part')
    part = grr.any_grid(m, uuid = part_uuid)
    ext = tuple(int(x) for x in hi - lo + 1)
    fc, ratios, _ = mapping(ctx, fine = ext)
    how = ctx.choice(['grandparent', 'grandparent', 'parent', True, None, False])
    cp = coarse_cp(s.cp[sl], ratios)[0]
    g = rqdm.coarsened_grid(s.epc, part, fc, set_parent_window = how, new_grid_title = 'coarser')
    ctx.sig('coarsened box', s.extent, ext, tuple(map(tuple, ratios)), how)
    g2 = grr.any_grid(rq.Model(s.epc), uuid = g.uuid)
    ctx.equal(tuple(int(x) for x in g2.extent_kji), cp.shape[:3], 'extent')
    ctx.close(g2.corner_points(), cp, 'geometry', tol = 1.0e-6)
    if how is False:
        ctx.check(g2.parent_window is None, 'parent-window', 'unexpected')
    elif how == 'grandparent':
        check_parent(ctx, g2, s.uuid, ratios, refinement = False, box = box)
    else:
        check_parent(ctx, g2, part_uuid, ratios, refinement = False)


def refined(ctx):
    import resqpy.derived_model as rqdm
    s = Setup(ctx, max_n = (3, 3, 3), simple_props = ctx.flag(0.3))
    if s.gaps and s.split:
        raise Skip('gaps and faults')
    s.close()
    fc, ratios, prop = mapping(ctx, coarse = s.extent)
    a = s.args()
    if s.new and a['epc_file'] is None and ctx.flag():
        pass
    if s.source is None and ctx.flag(0.3):
        a['source_grid_uuid'] = s.uuid
    if not s.new and ctx.flag():
        a['set_parent_window'] = ctx.choice([True, 'parent', False])
    exp = s.inheritance(a)
    cp, where = refined_cp(s.cp, ratios, prop)

    def sample(p):
        if p.ie != 'cells' or p.count > 1 or p.style == 'points':
            return None
        return p.array[np.ix_(*where)]

    g = rqdm.refined_grid(fine_coarse = fc, **a)
    ctx.sig('refined', s.extent, tuple(map(tuple, ratios)), s.split, s.gaps, s.new, len(exp))
    tol = 0.03 if s.split else 1.0e-6
    ina = 'unspecified'
    if s.inherit and a.get('inherit_realization') is None:
        ina = None if s.inactive is None else s.inactive[np.ix_(*where)]
    _, g2 = s.result(g, cp, exp, inactive = ina, transform = sample, tol = tol, active = 'stored')
    if not s.new:
        if a.get('set_parent_window') is False:
            ctx.check(g2.parent_window is None, 'parent-window', 'unexpected')
        else:
            check_parent(ctx, g2, s.uuid, ratios, prop)


def coarse_cp(cp, ratios):
    ext = tuple(len(r) for r in ratios)
    out = np.empty(ext + (2, 2, 2, 3))
    lo = [np.concatenate(([0], np.cumsum(r)))[:-1] for r in ratios]
    hi = [np.cumsum(r) - 1 for r in ratios]
    for kp in range(2):
        for jp in range(2):
            for ip in range(2):
                out[:, :, :, kp, jp, ip] = cp[np.ix_((lo, hi)[kp][0], (lo, hi)[jp][1], (lo, hi)[ip][2])][:, :, :, kp, jp, ip]
    return out, lo, hi


def coarsened(ctx):
    import resqpy.derived_model as rqdm
    s = Setup(ctx, regular = 0, faults = False, gaps = False, pinch = False, max_n = (5, 5, 5), kind = ctx.choice(['box', 'sheared', 'tapered']),
              simple_props = True, crs = dict(SAME_UNITS, z_inc_down = ctx.flag()))
    s.close()
    fc, ratios, _ = mapping(ctx, fine = s.extent)
    a = s.args()
    exp = s.inheritance(a)
    cp, lo, hi = coarse_cp(s.cp, ratios)
    g = rqdm.coarsened_grid(fine_coarse = fc, **a)
    fv = np.abs(exact(s.cp))

    def mean(x, w):
        out = np.empty(tuple(len(r) for r in ratios))
        for c in np.ndindex(*out.shape):
            b = tuple(slice(lo[n][c[n]], hi[n][c[n]] + 1) for n in range(3))
            out[c] = np.sum(x[b] * w[b]) / np.sum(w[b])
        return out

    active = [p for p in exp if p.ie == 'cells']
    poro = [p for p in active if p.kind == 'porosity' and p.style == 'continuous']

    def combine(p):
        if p.ie != 'cells':
            return None
        if p.style != 'continuous':
            return p.array[np.ix_(*lo)]
        if p.kind == 'saturation' and poro:
            q = poro[-1]
            return mean(p.array, fv * q.array)
        return mean(p.array, fv)

    ctx.sig('coarsened', s.extent, tuple(map(tuple, ratios)), s.new, len(exp))
    if len(poro) > 1:
        exp = [p for p in exp if p.kind != 'saturation']
    ina = 'unspecified'
    m, g2 = s.result(g, cp, exp if len(poro) < 2 else (), inactive = ina, transform = combine if len(poro) < 2 else None)
    if not s.new:
        check_parent(ctx, g2, s.uuid, ratios, refinement = False)


def upscaling(ctx):
    """Petrophysical properties upscaled with a coarsened grid conserve what they stand for; cell lengths follow refinement."""
    import resqpy.derived_model as rqdm
    import resqpy.grid as grr
    import resqpy.model as rq
    import resqpy.property as rqp
    s = Setup(ctx, regular = 0, faults = False, gaps = False, pinch = False, max_n = (5, 5, 5), kind = 'box', n_props = 0,
              crs = dict(SAME_UNITS, z_inc_down = ctx.flag()))
    r = ctx.choice([None, None, 3])
    rng = ctx.rng
    u = lambda lo, hi: rng.uniform(lo, hi, size = s.extent)
    vol = np.abs(exact(s.cp))
    given = {}
    todo = [('RV', 'rock volume', None, None, u(1.0, 9.0)), ('NTG', 'net to gross ratio', None, None, u(0.1, 1.0)), ('PORO', 'porosity', None, None, u(0.05, 0.3)),
            ('SW', 'saturation', 'what', 'water', u(0.0, 1.0)), ('SO', 'saturation', 'what', 'oil', u(0.0, 1.0))]
    todo += [('PERM' + c, 'rock permeability', 'direction', c, u(0.1, 900.0)) for c in 'IJK']
    todo += [('D' + c, 'cell length', 'direction', c, u(0.5, 4.0)) for c in 'KJI']
    todo += [('P', 'pressure', None, None, u(100.0, 300.0))]
    uoms = {'rock volume': 'm3', 'net to gross ratio': 'm3/m3', 'porosity': 'm3/m3', 'saturation': 'm3/m3', 'rock permeability': 'mD', 'cell length': 'm', 'pressure': 'bar'}
    used = ctx.subset(todo, ctx.integer(2, len(todo)))
    zero = ctx.flag(0.3)
    for t, kind, ft, f, x in used:
        if t in ('NTG', 'PORO') and zero:
            x[rng.random(s.extent) < 0.3] = 0.0
        rqp.Property.from_array(s.model, x.copy(), 'source', t, s.uuid, property_kind = kind, uom = uoms[kind], facet_type = ft, facet = f, indexable_element = 'cells',
                                realization = r)
        given[t] = x
        # same property for another realization: not to be mixed in
        if ctx.flag(0.2):
            rqp.Property.from_array(s.model, x * 0.5, 'source', t, s.uuid, property_kind = kind, uom = uoms[kind], facet_type = ft, facet = f, indexable_element = 'cells',
                                    realization = 7)
            ctx.observe('upscaling: another realization')
    s.close()
    refine = ctx.flag(0.3)
    fc, ratios, prop = mapping(ctx, coarse = s.extent) if refine else mapping(ctx, fine = s.extent)
    ctx.sig(s.extent, tuple(map(tuple, ratios)), tuple(sorted(given)), refine, r)
    f = rqdm.refined_grid if refine else rqdm.coarsened_grid
    g = f(s.epc, None, fc, inherit_properties = True, inherit_realization = r, new_grid_title = 'scaled')
    m = rq.Model(s.epc)
    g = grr.any_grid(m, uuid = g.uuid)
    pc = g.extract_property_collection()
    got = {}
    for part in pc.parts():
        t = pc.citation_title_for_part(part)
        if pc.property_kind_for_part(part) == 'active':
            continue
        ctx.check(t not in got, 'upscaling-parts', 'property inherited more than once', title = t)
        got[t] = pc.cached_part_array_ref(part)
        ctx.equal(pc.realization_for_part(part), r, 'upscaling-parts', 'realization')
    ctx.equal(sorted(got), sorted(given), 'upscaling-parts', 'properties inherited')
    if refine:
        where = [np.repeat(np.arange(len(x)), x) for x in ratios]
        for t, x in given.items():
            e = x[np.ix_(*where)]
            if t in ('DK', 'DJ', 'DI'):
                axis = 'KJI'.index(t[1])
                w = np.concatenate(prop[axis])
                e = e * w.reshape(tuple(-1 if a == axis else 1 for a in range(3)))
                lo = np.concatenate(([0], np.cumsum(ratios[axis])))[:-1]
                ctx.close(np.take(np.add.reduceat(got[t], lo, axis = axis), np.arange(len(lo)), axis = axis), x[np.ix_(*[np.arange(n) if a == axis else where[a]
                          for a, n in enumerate(s.extent)])], 'upscaling-length', rtol = 1.0e-6, what = 'lengths of fine cells add up')
            ctx.close(got[t], e, 'upscaling-refined', rtol = 1.0e-6, title = t)
        return
    lo = [np.concatenate(([0], np.cumsum(x)))[:-1] for x in ratios]

    def total(x):
        for a in range(3):
            x = np.add.reduceat(x, lo[a], axis = a)
        return x

    rv = given.get('RV', vol)
    nrv = rv * given.get('NTG', 1.0)
    pv = nrv * given.get('PORO', 1.0)
    crv = total(rv)
    for t, x in given.items():
        if t == 'RV':
            ctx.close(got[t], crv, 'upscaling-volume', rtol = 1.0e-6)
            continue
        if t[0] == 'D':
            axis = 'KJI'.index(t[1])
            e = total(x)
            for a in range(3):
                if a != axis:
                    e = e / np.array(ratios[a]).reshape(tuple(-1 if b == a else 1 for b in range(3)))
            ctx.close(got[t], e, 'upscaling-length', rtol = 1.0e-6, title = t)
            continue
        w = rv if t in ('NTG', 'P') else nrv if t == 'PORO' or t[:4] == 'PERM' else pv
        tw = total(w)
        e = np.where(tw > 0.0, total(x * w) / np.where(tw > 0.0, tw, 1.0), 0.0)
        ctx.close(got[t], e, 'upscaling-mean', rtol = 1.0e-5, tol = 1.0e-9, title = t)
        ctx.observe('upscaling: ' + t[:4])
    if 'PORO' in got and 'SW' in got:
        c = crv * got.get('NTG', 1.0) * got['PORO'] * got['SW']
        ctx.close(np.sum(c), np.sum(pv * given['SW']), 'upscaling-in-place', rtol = 1.0e-5, what = 'water in place')

def exact(cp):
    from props.c13_cell_measures import exact_volumes
    return exact_volumes(cp)


def there_and_back(ctx):
    """Refining then coarsening gives the original grid."""
    import resqpy.derived_model as rqdm
    import resqpy.grid as grr
    import resqpy.model as rq
    s = Setup(ctx, regular = 0, faults = False, gaps = False, max_n = (3, 3, 3), n_props = ctx.integer(0, 2), simple_props = True, cells_only = True,
              crs = dict(SAME_UNITS), pinch = False, kind = ctx.choice(['box', 'sheared', 'tapered', 'random']))
    s.close()
    fc, ratios, prop = mapping(ctx, coarse = s.extent)
    inherit = ctx.flag()
    fine = rqdm.refined_grid(s.epc, None, fc, inherit_properties = inherit, inherit_all_realizations = True, new_grid_title = 'fine')
    m = rq.Model(s.epc)
    fine = grr.any_grid(m, uuid = fine.uuid)
    g = rqdm.coarsened_grid(s.epc, fine, fc, inherit_properties = inherit, inherit_all_realizations = True, new_grid_title = 'coarse again')
    s.new, s.source, s.title, s.inherit = False, None, 'coarse again', inherit
    ctx.sig('back', s.extent, tuple(map(tuple, ratios)), inherit)
    s.result(g, s.cp, s.props if inherit else (), inactive = 'unspecified', transform = as_is)


def zonal(ctx):
    import resqpy.derived_model as rqdm
    import resqpy.property as rqp
    s = Setup(ctx, regular = 0.15, gaps = False, max_n = (6, 3, 3), growth = ctx.flag(), n_props = ctx.integer(0, 1))
    nk = s.extent[0]
    how = ctx.choice(['single', 'single all', 'list', 'title', 'uuid', 'dominant'])
    k0, k1 = 0, nk - 1
    if how != 'single all' and ctx.flag():
        k0 = ctx.integer(0, nk - 1)
        k1 = ctx.integer(k0, nk - 1)
    # zones: consecutive groups of layers
    cuts = sorted(ctx.subset(range(1, nk), ctx.integer(0, nk - 1))) if nk > 1 else []
    names = [int(x) for x in ctx.rng.permutation(20)[:len(cuts) + 1]]
    zone = np.array([names[int(np.sum(np.array(cuts) <= k))] if cuts else names[0] for k in range(nk)])
    a = {}
    if how in ('title', 'uuid', 'dominant'):
        z = np.empty(s.extent, dtype = int)
        z[:] = zone[:, None, None]
        nmin = s.extent[1] * s.extent[2]
        if how == 'dominant' and nmin > 2:
            for k in range(nk):
                z[k].flat[ctx.integer(0, nmin - 1)] = names[ctx.integer(0, len(names) - 1)]
        elif s.inactive is not None and how != 'dominant':
            z[s.inactive] = ctx.integer(0, 50)  # inactive cells are not considered
            for k in range(nk):
                if np.all(s.inactive[k]):
                    raise Skip('layer without active cells')
        o = rqp.Property.from_array(s.model, z, 'zones', 'zone by cell', s.uuid, property_kind = 'zone' if ctx.flag() else 'discrete', indexable_element = 'cells',
                                    discrete = True)
        if how == 'dominant' and s.inactive is not None:
            raise Skip('masked dominance')
    s.close()
    a.update(s.args())
    if how in ('title', 'dominant'):
        a['zone_title'] = 'zone by cell'
    elif how == 'uuid':
        a['zone_uuid'] = ctx.choice([o.uuid, str(o.uuid)])
        if ctx.flag(0.3):
            a['zone_title'] = 'zone by cell'
    if how == 'dominant':
        a['use_dominant_zone'] = True
    if (k0, k1) != (0, nk - 1):
        a['k0_min'], a['k0_max'] = k0, k1
    ranges = []
    if how in ('single', 'single all'):
        ranges = [(k0, k1)]
    else:
        for k in range(k0, k1 + 1):
            if ranges and zone[k] == zone[ranges[-1][0]]:
                ranges[-1] = (ranges[-1][0], k)
            else:
                ranges.append((k, k))
    if how == 'list':
        a['zone_layer_range_list'] = [(x, y, int(zone[x])) for x, y in ranges]
    lf = ctx.flag(0.7)
    if not lf:
        a['inactive_laissez_faire'] = False
    if how in ('single', 'single all') and ctx.flag():
        g = rqdm.single_layer_grid(**a)
    else:
        g = rqdm.zonal_grid(**a)
    nz = len(ranges)
    cp = np.empty((nz,) + s.cp.shape[1:])
    ina = None if s.inactive is None else np.zeros((nz,) + s.extent[1:], dtype = bool)
    for i, (x, y) in enumerate(ranges):
        cp[i, :, :, 0], cp[i, :, :, 1] = s.cp[x, :, :, 0], s.cp[y, :, :, 1]
        if ina is not None:
            ina[i] = np.all(s.inactive[x:y + 1], axis = 0) if lf else np.any(s.inactive[x:y + 1], axis = 0)
    ctx.sig('zonal', s.extent, ranges, how, s.split, s.new, lf)
    s.result(g, cp, (), inactive = ina)


def layer_ranges(ctx):
    import resqpy.derived_model as rqdm
    from resqpy.derived_model._zone_layer_ranges_from_array import zone_layer_ranges_from_array as f
    nk = ctx.integer(1, 8)
    shape = (nk, ctx.integer(1, 4), ctx.integer(1, 4))
    cuts = sorted(ctx.subset(range(1, nk), ctx.integer(0, nk - 1))) if nk > 1 else []
    names = [int(x) for x in ctx.rng.permutation(30)[:len(cuts) + 1] - 5]
    zone = np.array([names[sum(c <= k for c in cuts)] for k in range(nk)])
    z = np.empty(shape, dtype = int)
    z[:] = zone[:, None, None]
    k0, k1 = 0, nk - 1
    kw = {}
    if ctx.flag():
        k0 = ctx.integer(0, nk - 1)
        k1 = ctx.integer(k0, nk - 1)
        kw = {'min_k0': k0, 'max_k0': k1}
    how = ctx.choice(['plain', 'masked', 'dominant', 'bad'])
    arg = z.copy()
    n = shape[1] * shape[2]
    if how == 'masked':
        mask = ctx.rng.random(shape) < 0.4
        mask[:, 0, 0] = False
        arg[mask] = ctx.rng.integers(-10, 40, int(np.sum(mask)))
        arg = np.ma.masked_array(arg, mask)
    elif how == 'dominant':
        for k in range(nk):
            idx = ctx.rng.permutation(n)[:max(0, (n - 1) // 2)]
            arg[k].flat[idx] = ctx.choice(names)
        kw['use_dominant_zone'] = True
    elif how == 'bad':
        if n < 2 or len(names) < 2:
            raise Skip('single value')
        k = ctx.integer(k0, k1)
        arg[k].flat[ctx.integer(0, n - 1)] = ctx.choice([x for x in names if x != zone[k]])
        ctx.sig('ranges', shape, how)
        ctx.raises(AssertionError, lambda: f(arg, **kw), 'mixed-layer', 'more than one zone in a layer')
        return
    exp = []
    for k in range(k0, k1 + 1):
        if exp and exp[-1][2] == zone[k]:
            exp[-1] = (exp[-1][0], k, exp[-1][2])
        else:
            exp.append((k, k, int(zone[k])))
    got = f(arg, **kw)
    ctx.sig('ranges', shape, cuts, how, k0, k1)
    ctx.equal([tuple(int(v) for v in x) for x in got], exp, 'ranges')


def added_faults(ctx):
    """New curtain faults given as pillar lists."""
    import resqpy.derived_model as rqdm
    s = Setup(ctx, regular = 0.15, gaps = None, crs = dict(SAME_UNITS, z_inc_down = ctx.flag()), kind = ctx.choice(['box', 'tapered', 'sheared']), min_n = (1, 2, 2), pinch = False, max_n = (3, 5, 5))
    nk, nj, ni = s.extent
    if min(nj, ni) < 2:
        raise Skip('too small')
    s.close()
    a = s.args()
    exp = s.inheritance(a)
    a.pop('new_grid_title', None)
    s.title = None
    # pillar path: monotone staircase
    dj, di = ctx.choice([(0, 1), (0, -1), (1, 0), (-1, 0)]), ctx.choice([(0, 1), (0, -1), (1, 0), (-1, 0)])
    if dj[0] * di[0] + dj[1] * di[1]:
        di = dj
    at = (ctx.integer(0, nj), ctx.integer(0, ni))
    path = [at]
    for _ in range(ctx.integer(1, 8)):
        d = ctx.choice([dj, dj, di])
        nxt = (at[0] + d[0], at[1] + d[1])
        if not (0 <= nxt[0] <= nj and 0 <= nxt[1] <= ni):
            break
        # remain internal except for the ends
        if len(path) > 1 and (at[0] in (0, nj) or at[1] in (0, ni)):
            break
        at = nxt
        path.append(at)
    inner = lambda p: 0 < p[0] < nj and 0 < p[1] < ni
    if len(path) < 2 or not all(inner(p) for p in path[1:-1]) or (len(path) == 2 and not any(inner(p) for p in path)):
        raise Skip('path along edge')
    left, right = ctx.uniform(-5.0, 5.0), ctx.uniform(-5.0, 5.0)
    arg = {'new fault': list(path)}
    lr = {'new fault': (left, right)} if ctx.flag(0.8) else None
    if lr is None:
        left, right = 0.5, -0.5
    a['create_gcs'] = ctx.flag()
    g = rqdm.add_faults(full_pillar_list_dict = arg, left_right_throw_dict = lr, **a)
    cp = s.cp.copy()
    # columns around each pillar, by side of the line
    for n, (pj, pi) in enumerate(path):
        end = n in (0, len(path) - 1)
        if end and inner((pj, pi)):
            continue
        before = path[n - 1] if n else None
        after = path[n + 1] if n < len(path) - 1 else None
        e = (pj - before[0], pi - before[1]) if before else (after[0] - pj, after[1] - pi)
        x = (after[0] - pj, after[1] - pi) if after else e
        for jp in range(2):
            for ip in range(2):
                j, i = pj - jp, pi - ip
                if not (0 <= j < nj and 0 <= i < ni):
                    continue
                # centre of column relative to the pillar in index space, with i to the right and j downwards as seen from above
                c = (0.5 - jp, 0.5 - ip)
                side = right_of(c, e, x)
                # unit vector of the pillar used by this column
                q0, q1 = s.cp[0, j, i, 0, jp, ip], s.cp[-1, j, i, 1, jp, ip]
                v = (q1 - q0) / np.linalg.norm(q1 - q0)
                cp[:, j, i, :, jp, ip] += (right if side else left) * v
    ctx.sig('faults', s.extent, path, s.split, s.gaps, s.new)
    m, g2 = s.result(g, cp, exp, inactive = s.inactive, transform = as_is, tol = 1.0e-5)
    if a['create_gcs']:
        gcs = m.uuids(obj_type = 'GridConnectionSetRepresentation')
        ctx.equal(len(gcs), 1, 'gcs', 'grid connection sets')


def right_of(c, e, x):
    """Whether index space position c is to the right of a path arriving in direction e and leaving in direction x (j, i).

    with i increasing to the right of the page and j increasing down the page
    """
    cross = lambda a, b: a[1] * b[0] - a[0] * b[1]  # positive: b is clockwise from a, as seen on the page
    a_side, b_side = cross(e, c) > 0.0, cross(x, c) > 0.0
    turn = cross(e, x)
    if turn > 0:  # turns right: right side is the intersection
        return a_side and b_side
    if turn < 0:
        return a_side or b_side
    return a_side


def single_cell(ctx):
    import resqpy.derived_model as rqdm
    import resqpy.model as rq
    p = ctx.rng.uniform(-1000.0, 1000.0, tuple(ctx.integer(1, 4) for _ in range(ctx.integer(0, 3))) + (3,)) if ctx.flag(0.9) else np.array([[0.0, 0, 0], [1.0, 2.0, 3.0]])
    p = p.reshape((-1, 3)) if p.ndim == 1 else p
    if p.size < 6:
        raise Skip('single point')
    if ctx.flag(0.3) and p.size > 9:
        p.reshape((-1, 3))[ctx.integer(0, p.size // 3 - 1)] = np.nan
    q = p.copy()
    xy, z = ctx.choice(['m', 'ft']), ctx.choice(['m', 'ft'])
    down = ctx.flag()
    rqdm.add_single_cell_grid(p, new_grid_title = 'box', new_epc_file = ctx.path('one.epc'), xy_units = xy, z_units = z, z_inc_down = down)
    ctx.sig('single', p.ndim, xy, z, down)
    ctx.equal(np.nan_to_num(p), np.nan_to_num(q), 'argument')
    g = rq.Model(ctx.path('one.epc')).grid()
    ctx.equal(tuple(g.extent_kji), (1, 1, 1), 'extent')
    f = p.reshape((-1, 3))
    cp = g.corner_points()
    lo, hi = np.nanmin(f, axis = 0), np.nanmax(f, axis = 0)
    ctx.close(cp.reshape((-1, 3)).min(axis = 0), lo, 'geometry', tol = 1.0e-3)
    ctx.close(cp.reshape((-1, 3)).max(axis = 0), hi, 'geometry', tol = 1.0e-3)
    for x in np.ndindex(2, 2, 2):
        e = [hi[0] if x[2] else lo[0], hi[1] if x[1] else lo[1], hi[2] if x[0] else lo[2]]
        ctx.close(cp[0, 0, 0][x], e, 'geometry', tol = 1.0e-3)
    ctx.equal((g.xy_units(), g.z_units(), bool(g.crs.z_inc_down)), (xy, z, down), 'crs')
    ctx.check(not os.path.exists(ctx.path('one.temp.db')), 'scratch', 'temporary file left')


def zone_property(ctx):
    import resqpy.derived_model as rqdm
    import resqpy.model as rq
    import resqpy.property as rqp
    s = Setup(ctx, n_props = 0, max_n = (5, 3, 3))
    nk = s.extent[0]
    how = ctx.choice(['vector', 'cells'])
    cuts = sorted(ctx.subset(range(1, nk), ctx.integer(0, nk - 1))) if nk > 1 else []
    zone = np.array([3 + sum(c <= k for c in cuts) for k in range(nk)])
    a = {}
    if how == 'vector':
        zone = ctx.rng.integers(-1, 5, nk)
        a['zone_by_layer_vector'] = ctx.choice([list, tuple, np.array])(zone.tolist())
    else:
        z = np.empty(s.extent, dtype = int)
        z[:] = zone[:, None, None]
        o = rqp.Property.from_array(s.model, z, 'zones', 'zone by cell', s.uuid, property_kind = 'discrete', indexable_element = 'cells', discrete = True)
        a['zone_by_cell_property_uuid'] = o.uuid
    s.close()
    local = ctx.flag()
    t = ctx.choice(['ZONE', 'my zones'])
    if t != 'ZONE':
        a['title'] = t
    r = ctx.choice([None, 4])
    x = {'where': 'here'} if ctx.flag() else {}
    got, u = rqdm.add_zone_by_layer_property(s.epc, grid_uuid = s.uuid if ctx.flag() else None, use_local_property_kind = local, realization = r, extra_metadata = x, **a)
    ctx.sig('zone property', nk, how, local, r)
    ctx.equal(np.asarray(got), zone, 'zones', 'returned')
    files.kept(ctx, s.before, files.contents(s.epc), 'source-content', True)
    p = rqp.Property(rq.Model(s.epc), uuid = u)
    ctx.equal(p.array_ref(), zone, 'zones', 'stored')
    ctx.equal((p.title, p.indexable_element(), p.realization(), bool(p.is_continuous())), (t, 'layers', r, False), 'zone-metadata')
    ctx.equal(str(p.collection.support_uuid), str(s.uuid), 'zone-metadata')
    ctx.equal(p.property_kind(), 'zone' if local else t, 'zone-metadata')
    for k, v in x.items():
        ctx.equal((p.extra_metadata or {}).get(k), v, 'zone-metadata')


def added_property(ctx):
    """One array added to a stored model as a property of its grid."""
    import resqpy.derived_model as rqdm
    import resqpy.grid as grr
    import resqpy.model as rq
    import resqpy.property as rqp
    s = Setup(ctx, n_props = ctx.integer(0, 2))
    nk, nj, ni = s.extent
    style = ctx.choice(['continuous', 'discrete', 'points', 'const', 'const expanded', 'edges', 'edges resqml'])
    ie = 'cells' if style in ('const expanded',) else ctx.choice(['cells', 'cells', 'columns', 'layers'])
    shape = {'cells': s.extent, 'columns': (nj, ni), 'layers': (nk,)}[ie]
    count = ctx.choice([1, 1, 2]) if style in ('continuous', 'discrete') else 1
    full = tuple(shape) + ((count,) if count > 1 else ())
    a = {}
    if style == 'continuous':
        x = ctx.rng.uniform(0.0, 1.0, full)
    elif style == 'discrete':
        x = ctx.rng.integers(-3, 2**33 if ctx.flag(0.2) else 100, full)
        if x.max() > 2**31:
            a['use_int32'] = False
        elif ctx.flag():
            a['use_int32'] = ctx.flag()
        a['discrete'] = True
        if ctx.flag():
            a['null_value'] = -1
    elif style == 'points':
        x = ctx.rng.uniform(0.0, 1.0, full + (3,))
        a['points'] = True
    elif style.startswith('const'):
        v = ctx.choice([0.5, 3, 0.0])
        a['const_value'], a['discrete'] = v, isinstance(v, int)
        a['expand_const_arrays'] = style == 'const expanded'
        x = np.full(full, v)
    else:
        ie = 'edges per column'
        x = ctx.rng.uniform(0.0, 1.0, (nj, ni, 2, 2) if style == 'edges' else (nj, ni, 4))
    disc = a.get('discrete', False)
    kind, uom = ctx.choice([('facies', None), ('index', None)]) if disc else ('length', None) if style == 'points' else ctx.choice([('porosity', 'm3/m3'), ('depth', 'ft')])
    if uom:
        a['uom'] = uom
    a['title'] = ctx.choice(['added', 'KX', gen.title(ctx)])
    if ctx.flag(0.3):
        a['realization'] = ctx.integer(0, 5)
    if ctx.flag(0.3) and style != 'points':
        a['facet_type'], a['facet'] = ctx.choice([('direction', 'J'), ('what', 'gas')])
    extra = a['extra_metadata'] = {'k': 'v 1'} if ctx.flag() else {}
    if count > 1:
        a['count_per_element'] = count
    ts = None
    if ctx.flag(0.2):
        import resqpy.time_series as rqts
        t = rqts.TimeSeries(s.model, first_timestamp = '2001-01-01Z', title = 'series')
        t.add_timestamp('2002-01-01Z')
        t.create_xml()
        ts = a['time_series_uuid'] = t.uuid
        a['time_index'] = ctx.integer(0, 1)
    s.close()
    new = ctx.flag(0.3) and ts is None
    if new:
        a['new_epc_file'] = ctx.path('derived.epc')
    arr = None if style.startswith('const') else x.copy()
    a['source_info'] = 'somewhere'
    gu = ctx.choice([None, s.uuid, str(s.uuid)])
    if style.startswith('edges'):
        u = rqdm.add_edges_per_column_property_array(s.epc, arr, kind, grid_uuid = gu, **a)
    else:
        u = rqdm.add_one_grid_property_array(s.epc, arr, kind, grid_uuid = gu, indexable_element = ie, **a)
    ctx.sig('add property', s.extent, style, ie, count, new)
    if arr is not None:
        ctx.equal(arr, x, 'argument')
    files.kept(ctx, s.before, files.contents(s.epc), 'source-content', not new)
    m = rq.Model(ctx.path('derived.epc') if new else s.epc)
    ctx.check(u is not None and m.part(uuid = u) is not None, 'added', 'property missing from dataset')
    p = rqp.Property(m, uuid = u)
    e = x
    if style == 'edges':  # clockwise order: I-, J+, I+, J- in resqml
        e = rqp.reformat_column_edges_to_resqml_format(x)
        back = rqp.reformat_column_edges_from_resqml_format(e)
        ctx.equal(back, x, 'edges', 'reformatting both ways')
        ctx.check(np.array_equal(np.sort(e, axis = 2), np.sort(x.reshape((nj, ni, 4)), axis = 2)), 'edges')
    g = p.array_ref()
    ctx.close(g.astype(float), e.astype(float), 'added-values', tol = 0.0)
    ctx.equal((p.title, p.indexable_element(), p.property_kind(), p.uom(), p.count(), p.realization(), p.facet(), p.time_index()),
              (a['title'].strip(), ie, kind, uom, count, a.get('realization'), a.get('facet'), a.get('time_index')), 'added-metadata')
    ctx.equal(bool(p.is_continuous()), not disc, 'added-metadata')
    ctx.equal(str(p.time_series_uuid()), str(ts), 'added-metadata')
    if style == 'discrete':
        ctx.equal(p.null_value(), a.get('null_value', -1), 'added-metadata')
    for k, v in extra.items():
        ctx.equal((p.extra_metadata or {}).get(k), v, 'added-metadata')
    sup = p.collection.support_uuid
    grid = grr.any_grid(m, uuid = sup)
    ctx.close(grid.corner_points(), s.cp, 'geometry', tol = 1.0e-6)
    if not new:
        ctx.equal(str(sup), str(s.uuid), 'added-metadata')


SCENARIOS = [
    Scenario(extract_box, 80),
    Scenario(well_box, 60),
    Scenario(named_throws, 40),
    Scenario(refined_box, 25),
    Scenario(coarsened_box, 25),
    Scenario(copied, 40),
    Scenario(tilted, 30),
    Scenario(unsplit, 30),
    Scenario(depth_adjusted, 40),
    Scenario(interpolated, 40),
    Scenario(throws, 40),
    Scenario(throws_smoothed, 25),
    Scenario(draped, 40),
    Scenario(refined, 50),
    Scenario(coarsened, 50),
    Scenario(upscaling, 30),
    Scenario(there_and_back, 30),
    Scenario(zonal, 60),
    Scenario(layer_ranges, 100),
    Scenario(added_faults, 60),
    Scenario(single_cell, 15),
    Scenario(zone_property, 25),
    Scenario(added_property, 50),
]
