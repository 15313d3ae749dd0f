"""Builders of objects of every class, with an account of what each one should present.

Each builder returns an Item: the object as made, a function to load it again, the attributes by which it is compared and the
values known from how it was made (a dictionary of attribute name to value).
"""

import uuid as pyuuid

import numpy as np

from rv import gen
from rv.core import Skip
from rv.gridgen import random_grid


class Item:

    def __init__(self, kind, obj, load, attrs, truth, prepare = None):
        self.kind, self.obj, self.load, self.attrs, self.truth, self.prepare = kind, obj, load, attrs, truth, prepare
        self.uuid = str(obj.uuid)

    def view(self, o):
        """Normalised attributes of an object."""
        if self.prepare:
            self.prepare(o)
        return {a: norm(value(o, a)) for a in self.attrs}


def value(o, a):
    if callable(a):
        return a(o)
    if a.startswith('()'):
        return getattr(o, a[2:])()
    return getattr(o, a)


def norm(v):
    if v is None or isinstance(v, (bool, str, int)):
        return v
    if isinstance(v, (float, np.floating)):
        return float(v)
    if isinstance(v, (np.bool_,)):
        return bool(v)
    if isinstance(v, np.integer):
        return int(v)
    if isinstance(v, np.ndarray):
        return v
    if isinstance(v, pyuuid.UUID):
        return str(v)
    if isinstance(v, dict):
        return {str(norm(k)): norm(x) for k, x in v.items()}
    if isinstance(v, (list, tuple, set)):
        v = [norm(x) for x in v]
        return v
    if hasattr(v, 'uuid') and v.uuid is not None:
        return ('object', type(v).__name__, str(v.uuid))
    if hasattr(v, 'tag'):  # xml
        return ('node', v.attrib.get('uuid'))
    return str(v)


def alike(a, b, tol = 0.0):
    """Equality of normalised values; float arrays within a relative tolerance."""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if a is None or b is None:
            return False
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return False
        if a.dtype.kind == 'f' or b.dtype.kind == 'f':
            return np.allclose(a.astype(float), b.astype(float), rtol = tol, atol = tol, equal_nan = True)
        return bool(np.all(a == b))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(alike(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(alike(a[k], b[k], tol) for k in a)
    if isinstance(a, float) or isinstance(b, float):
        try:
            return a == b or abs(a - b) <= tol * max(abs(a), abs(b)) or (a != a and b != b)
        except TypeError:
            return False
    return a == b


class Builder:
    """Makes objects in a model, which is complete and storable after each one."""

    KINDS = [
        'crs', 'timecrs', 'boundary', 'geobody', 'wellfeature', 'tectonic', 'genetic', 'fluid', 'frontier', 'unitfeature',
        'organization', 'earth', 'fault', 'horizon', 'geobodyinterp', 'geobodyboundary', 'wellinterp', 'generic', 'rockfluid',
        'boundaryinterp', 'stratunit', 'stratunitinterp', 'unitinterp', 'rank', 'column', 'series', 'geoseries', 'kind', 'lookup',
        'datum', 'survey', 'trajectory', 'surveytrajectory', 'frame', 'markers', 'blocked', 'polyline', 'polyset', 'points', 'surface',
        'mesh', 'trimesh', 'grid', 'regular', 'hexa', 'tetra', 'prism', 'vertical', 'pyramid', 'polyhedral', 'gcs', 'property',
        'catproperty', 'pointsproperty'
    ]

    def __init__(self, ctx, m, double = True):
        self.ctx, self.m = ctx, m
        self.items = []
        self.n = 0

    # support

    def ids(self, obj_type):
        return self.m.uuids(obj_type = obj_type)

    def some(self, obj_type, make = None):
        u = self.ids(obj_type)
        if not u or (make and self.ctx.flag(0.15)):
            if make is None:
                return None
            self.add(make)
            u = self.ids(obj_type)
        return self.ctx.choice(u)

    def interp(self, p = 0.4):
        """Root of some interpretation of a boundary, or None."""
        if not self.ctx.flag(p):
            return None
        u = self.some(*self.ctx.choice([('FaultInterpretation', 'fault'), ('HorizonInterpretation', 'horizon')]))
        return self.m.root(uuid = u)

    def well_interp(self, p = 0.5):
        import resqpy.organize as rqo
        if not self.ctx.flag(p):
            return None
        return rqo.WellboreInterpretation(self.m, uuid = self.some('WellboreInterpretation', 'wellinterp'))

    def crs(self, standard = False):
        if standard:  # some functions need the usual order of axes
            import resqpy.crs as rqc
            ok = [u for u in self.ids('LocalDepth3dCrs') if rqc.Crs(self.m, uuid = u).axis_order == 'easting northing']
            if not ok:
                c = rqc.Crs(self.m, title = 'standard', z_inc_down = self.ctx.flag())
                c.create_xml()
                ok = [c.uuid]
            return self.ctx.choice(ok)
        return self.some('LocalDepth3dCrs', 'crs')

    def add(self, kind = None):
        kind = kind or self.ctx.choice(self.KINDS)
        self.n += 1
        item = getattr(self, 'mk_' + kind)()
        if item is None:
            return None
        item.kind = kind
        self.items.append(item)
        self.ctx.log('made', kind, item.uuid)
        return item

    def common(self):
        """Title, originator and extra metadata as arguments and the values to expect."""
        ctx = self.ctx
        t = gen.title(ctx)
        o = ctx.choice([None, None, 'A. N. Other', 'ünï <x>'])
        x = gen.metadata(ctx)
        if x:
            x.pop('source', None)  # used by properties
        truth = {'title': t, extras: dict(x or {})}
        if o is not None:
            truth['originator'] = o
        return t, o, x, truth

    def item(self, kind, obj, cls, attrs, truth, prepare = None, **load_kw):
        m_load = lambda m, u: cls(m, uuid = u, **load_kw)
        attrs = list(attrs)
        for a in ('title', 'originator', extras, 'uuid'):
            if a not in attrs:
                attrs.append(a)
        return Item(kind, obj, m_load, attrs, truth, prepare)

    # features, interpretations

    def feature(self, cls, attrs = (), **kw):
        t, o, x, truth = self.common()
        del truth['title']
        truth['feature_name'] = t
        truth.update({k: v for k, v in kw.items()})
        obj = cls(self.m, feature_name = t, originator = o, extra_metadata = x, **kw)
        obj.create_xml(reuse = False)
        return self.item('', obj, cls, ['feature_name'] + [k for k in kw], truth)

    def mk_boundary(self):
        import resqpy.organize as rqo
        return self.feature(rqo.BoundaryFeature)

    def mk_geobody(self):
        import resqpy.organize as rqo
        return self.feature(rqo.GeobodyFeature)

    def mk_wellfeature(self):
        import resqpy.organize as rqo
        return self.feature(rqo.WellboreFeature)

    def mk_frontier(self):
        import resqpy.organize as rqo
        return self.feature(rqo.FrontierFeature)

    def mk_unitfeature(self):
        import resqpy.organize as rqo
        return self.feature(rqo.GeologicUnitFeature)

    def mk_tectonic(self):
        import resqpy.organize as rqo
        return self.feature(rqo.TectonicBoundaryFeature, kind = self.ctx.choice(['fault', 'fracture']))

    def mk_genetic(self):
        import resqpy.organize as rqo
        kw = {'kind': self.ctx.choice(['horizon', 'horizon', 'geobody boundary'])}
        return self.feature(rqo.GeneticBoundaryFeature, **kw)

    def mk_fluid(self):
        import resqpy.organize as rqo
        return self.feature(rqo.FluidBoundaryFeature,
                            kind = self.ctx.choice(['free water contact', 'gas oil contact', 'gas water contact', 'seal', 'water oil contact']))

    def mk_organization(self):
        import resqpy.organize as rqo
        return self.feature(rqo.OrganizationFeature, organization_kind = self.ctx.choice(['earth model', 'fluid', 'stratigraphic', 'structural']))

    def interpretation(self, cls, argument, feature_cls, feature_type, feature_kind, attr = None, alias = {}, check = None, **kw):
        ctx = self.ctx
        u = None
        cand = [v for v in self.ids(feature_type) if check is None or check(feature_cls(self.m, uuid = v))]
        if not cand or ctx.flag(0.2):
            for _ in range(20):
                i = self.add(feature_kind)
                if check is None or check(i.obj):
                    break
            cand.append(i.obj.uuid)
        u = ctx.choice(cand)
        f = feature_cls(self.m, uuid = u)
        t, o, x, truth = self.common()
        kw = {k: v for k, v in kw.items() if v is not None}
        kw['domain'] = ctx.choice(['depth', 'time', 'mixed'])
        obj = cls(self.m, title = t, originator = o, extra_metadata = x, **{argument: f}, **kw)
        obj.create_xml(reuse = False)
        kw = {alias.get(k, k): v for k, v in kw.items()}
        truth.update(kw)
        truth[attr or argument] = ('object', feature_cls.__name__, str(u))
        return self.item('', obj, cls, [attr or argument] + list(kw), truth)

    def mk_earth(self):
        import resqpy.organize as rqo
        return self.interpretation(rqo.EarthModelInterpretation, 'organization_feature', rqo.OrganizationFeature, 'OrganizationFeature',
                                   'organization', check = lambda f: f.organization_kind == 'earth model')

    def mk_fault(self):
        import resqpy.organize as rqo
        ctx = self.ctx
        listric = ctx.choice([None, True, False])
        # resqpy requires a fault without indication of being listric to be normal, and the indication otherwise
        normal = True if listric is None else False
        return self.interpretation(rqo.FaultInterpretation, 'tectonic_boundary_feature', rqo.TectonicBoundaryFeature,
                                   'TectonicBoundaryFeature', 'tectonic', check = lambda f: f.kind == 'fault',
                                   is_normal = normal, is_listric = listric,
                                   maximum_throw = ctx.choice([None, 12.5]), mean_azimuth = ctx.choice([None, 123.25]),
                                   mean_dip = ctx.choice([None, 67.5]))

    def mk_horizon(self):
        import resqpy.organize as rqo
        ctx = self.ctx
        return self.interpretation(rqo.HorizonInterpretation, 'genetic_boundary_feature', rqo.GeneticBoundaryFeature,
                                   'GeneticBoundaryFeature', 'genetic', check = lambda f: f.kind == 'horizon',
                                   boundary_relation_list = ctx.choice([None, ['conformable'], ['unconformable below and above']]),
                                   sequence_stratigraphy_surface = ctx.choice([None, 'flooding', 'maximum flooding']))

    def mk_geobodyboundary(self):
        import resqpy.organize as rqo
        ctx = self.ctx
        return self.interpretation(rqo.GeobodyBoundaryInterpretation, 'genetic_boundary_feature', rqo.GeneticBoundaryFeature,
                                   'GeneticBoundaryFeature', 'genetic', check = lambda f: f.kind == 'geobody boundary',
                                   boundary_relation_list = ctx.choice([None, ['conformable'], ['unconformable below and above']]))

    def mk_geobodyinterp(self):
        import resqpy.organize as rqo
        ctx = self.ctx
        return self.interpretation(rqo.GeobodyInterpretation, 'geobody_feature', rqo.GeobodyFeature, 'GeobodyFeature', 'geobody',
                                   composition = ctx.choice([None, 'intrusive clay ', 'organic'][:1] + ['organic']),
                                   material_implacement = ctx.choice([None, 'autochtonous', 'allochtonous']),
                                   geobody_shape = ctx.choice([None, 'dyke', 'sill', 'channel']), alias = {'material_implacement': 'implacement'})

    def mk_wellinterp(self):
        import resqpy.organize as rqo
        return self.interpretation(rqo.WellboreInterpretation, 'wellbore_feature', rqo.WellboreFeature, 'WellboreFeature', 'wellfeature',
                                   is_drilled = self.ctx.flag())

    def mk_boundaryinterp(self):
        import resqpy.organize as rqo
        return self.interpretation(rqo.BoundaryFeatureInterpretation, 'boundary_feature', rqo.BoundaryFeature, 'BoundaryFeature', 'boundary')

    def mk_generic(self):
        import resqpy.organize as rqo
        u = self.some('BoundaryFeature', 'boundary')
        t, o, x, truth = self.common()
        dom = self.ctx.choice(['depth', 'time', 'mixed'])
        obj = rqo.GenericInterpretation(self.m, title = t, feature_uuid = u, domain = dom, originator = o, extra_metadata = x)
        obj.create_xml(reuse = False)
        truth.update({'feature_uuid': str(u), 'domain': dom})
        return self.item('', obj, rqo.GenericInterpretation, ['feature_uuid', 'domain'], truth)

    def mk_rockfluid(self):
        import resqpy.organize as rqo
        a, b = self.some('BoundaryFeature', 'boundary'), self.some('BoundaryFeature', 'boundary')
        t, o, x, truth = self.common()
        phase = self.ctx.choice(['aquifer', 'gas cap', 'oil column', 'seal'])
        obj = rqo.RockFluidUnitFeature(self.m, phase = phase, feature_name = t, top_boundary_feature = rqo.BoundaryFeature(self.m, uuid = a),
                                       base_boundary_feature = rqo.BoundaryFeature(self.m, uuid = b), originator = o, extra_metadata = x)
        obj.create_xml(reuse = False)
        del truth['title']
        truth.update(feature_name = t, phase = phase, top_boundary_feature = ('object', 'BoundaryFeature', str(a)),
                     base_boundary_feature = ('object', 'BoundaryFeature', str(b)))
        return self.item('', obj, rqo.RockFluidUnitFeature, ['feature_name', 'phase', 'top_boundary_feature', 'base_boundary_feature'], truth)

    # strata

    def mk_stratunit(self):
        import resqpy.strata as rqst
        t, o, x, truth = self.common()
        ends = self.ids('StratigraphicUnitFeature') + self.ids('BoundaryFeature')
        a, b = [self.ctx.choice(ends) if ends and self.ctx.flag(0.3) else None for _ in range(2)]
        obj = rqst.StratigraphicUnitFeature(self.m, top_unit_uuid = a, bottom_unit_uuid = b, title = t, originator = o, extra_metadata = x)
        obj.create_xml(reuse = False)
        truth.update(top_unit_uuid = norm(a), bottom_unit_uuid = norm(b))
        return self.item('', obj, rqst.StratigraphicUnitFeature, ['top_unit_uuid', 'bottom_unit_uuid'], truth)

    def strat_interp(self, cls, feature_cls, feature_type, feature_kind, argument, extra):
        u = self.some(feature_type, feature_kind)
        t, _, x, truth = self.common()
        truth.pop('originator', None)
        kw = {k: v for k, v in extra.items() if v is not None}
        kw['domain'] = self.ctx.choice(['depth', 'time', 'mixed'])
        obj = cls(self.m, title = t, extra_metadata = x, **{argument: feature_cls(self.m, uuid = u)}, **kw)
        obj.create_xml(reuse = False)
        truth.update(kw)
        name = 'geologic_unit_feature' if hasattr(obj, 'geologic_unit_feature') else argument
        truth[name] = ('object', type(getattr(obj, name)).__name__, str(u))
        return self.item('', obj, cls, [name] + list(kw), truth)

    def mk_stratunitinterp(self):
        import resqpy.strata as rqst
        c = self.ctx
        extra = dict(composition = c.choice([None, 'organic', 'sandstone', 'carbonate'][:2]), material_implacement = c.choice([None, 'allochtonous']),
                     deposition_mode = c.choice([None, 'parallel to top', 'proportional between top and bottom']))
        if c.flag():
            extra.update(min_thickness = 1.5, max_thickness = 22.25, thickness_uom = c.choice(['m', 'ft']))
        return self.strat_interp(rqst.StratigraphicUnitInterpretation, rqst.StratigraphicUnitFeature, 'StratigraphicUnitFeature', 'stratunit',
                                 'stratigraphic_unit_feature', extra)

    def mk_unitinterp(self):
        import resqpy.organize as rqo
        import resqpy.strata as rqst
        c = self.ctx
        return self.strat_interp(rqst.GeologicUnitInterpretation, rqo.GeologicUnitFeature, 'GeologicUnitFeature', 'unitfeature',
                                 'geologic_unit_feature', dict(composition = c.choice([None, 'organic']),
                                                               material_implacement = c.choice([None, 'autochtonous'])))

    def mk_rank(self):
        import resqpy.strata as rqst
        c = self.ctx
        e = [v for v in self.ids('OrganizationFeature')]
        if not e:
            self.add('organization')
            e = self.ids('OrganizationFeature')
        e = c.choice(e)
        units = [self.some('StratigraphicUnitInterpretation', 'stratunitinterp') for _ in range(c.integer(1, 4))]
        units = list(dict.fromkeys(units))
        t, _, x, truth = self.common()
        truth.pop('originator', None)
        obj = rqst.StratigraphicColumnRank(self.m, domain = c.choice(['depth', 'time', 'mixed']), rank_index = c.integer(0, 4),
                                           earth_model_feature_uuid = e, strata_uuid_list = units, title = t, extra_metadata = x)
        obj.set_contacts_from_horizons if False else None
        obj.create_xml(reuse = False)
        truth.update(domain = obj.domain, index = obj.index, feature_uuid = str(e))
        truth[strata_of] = [[i, str(u)] for i, u in enumerate(units)]
        return self.item('', obj, rqst.StratigraphicColumnRank, ['domain', 'index', 'feature_uuid', strata_of], truth)

    def mk_column(self):
        import resqpy.strata as rqst
        ranks = [self.some('StratigraphicColumnRankInterpretation', 'rank')]
        t, _, x, truth = self.common()
        truth.pop('originator', None)
        obj = rqst.StratigraphicColumn(self.m, rank_uuid_list = ranks, title = t, extra_metadata = x)
        obj.create_xml(reuse = False)
        truth[ranks_of] = [str(u) for u in ranks]
        return self.item('', obj, rqst.StratigraphicColumn, [ranks_of], truth)

    # small parts

    def mk_crs(self):
        import resqpy.crs as rqc
        t, o, x, truth = self.common()
        kw = gen.crs_kwargs(self.ctx)
        kw['epsg_code'] = self.ctx.choice([None, '32631'])
        obj = rqc.Crs(self.m, title = t, originator = o, extra_metadata = x, **kw)
        obj.create_xml(reuse = False)
        truth.update({k: v for k, v in kw.items() if k not in ('rotation',)})
        return self.item('', obj, rqc.Crs, ['x_offset', 'y_offset', 'z_offset', 'rotation', 'rotation_units', 'xy_units', 'z_units', 'z_inc_down',
                                            'axis_order', 'time_units', 'epsg_code'], truth)

    def mk_timecrs(self):
        import resqpy.crs as rqc
        t, o, x, truth = self.common()
        kw = gen.crs_kwargs(self.ctx)
        kw['time_units'] = self.ctx.choice(['s', 'ms'])
        obj = rqc.Crs(self.m, title = t, originator = o, extra_metadata = x, **kw)
        obj.create_xml(reuse = False)
        truth.update({k: v for k, v in kw.items() if k not in ('rotation',)})
        return self.item('', obj, rqc.Crs, ['x_offset', 'y_offset', 'z_offset', 'rotation', 'rotation_units', 'xy_units', 'z_units', 'z_inc_down',
                                            'axis_order', 'time_units'], truth)

    def mk_series(self):
        import resqpy.time_series as rqts
        t, o, x, truth = self.common()
        stamps = [f'{1990 + i}-0{1 + int(self.ctx.integer(0, 8))}-1{self.ctx.integer(0, 9)}' for i in range(self.ctx.integer(1, 5))]
        if self.ctx.flag():
            stamps = [s + 'T10:20:3%dZ' % self.ctx.integer(0, 9) for s in stamps]
        else:
            stamps = [s + 'Z' for s in stamps]
        obj = rqts.TimeSeries(self.m, first_timestamp = stamps[0], title = t, originator = o, extra_metadata = x)
        for s in stamps[1:]:
            obj.add_timestamp(s)
        obj.create_xml(reuse = False)
        truth['timestamps'] = stamps
        return self.item('', obj, rqts.TimeSeries, ['timestamps', 'timeframe'], truth)

    def mk_geoseries(self):
        import resqpy.time_series as rqts
        t, o, x, truth = self.common()
        ages = sorted([int(a) * 1000 for a in self.ctx.subset(range(10, 400), 3)], reverse = True)
        obj = rqts.GeologicTimeSeries.from_year_list(self.m, ages, title = t)
        obj.extra_metadata = dict(x or {})
        obj.create_xml(reuse = False)
        truth.pop('originator', None)
        truth['timestamps'] = [-a for a in ages]
        it = self.item('', obj, rqts.GeologicTimeSeries, ['timestamps', 'timeframe'], truth)
        it.load = lambda m, u: rqts.any_time_series(m, u)
        return it

    def mk_kind(self):
        import resqpy.property as rqp
        t, o, x, truth = self.common()
        t = truth['title'] = f'{t} {self.n}'
        kw = dict(is_abstract = self.ctx.flag(), example_uom = self.ctx.choice(['m', 'ft', 'mD']),
                  parent_property_kind = self.ctx.choice(['continuous', 'length', 'discrete']))
        obj = rqp.PropertyKind(self.m, title = t, originator = o, extra_metadata = x, **kw)
        obj.create_xml(reuse = False)
        kw['parent_kind'] = kw.pop('parent_property_kind')
        truth.update(kw)
        return self.item('', obj, rqp.PropertyKind, list(kw) + ['naming_system'], truth)

    def mk_lookup(self):
        import resqpy.property as rqp
        t, o, x, truth = self.common()
        keys = self.ctx.subset(range(-3, 12), self.ctx.integer(1, 5))
        d = {int(k): gen.title(self.ctx) + str(k) for k in keys}
        obj = rqp.StringLookup(self.m, int_to_str_dict = d, title = t, originator = o, extra_metadata = x)
        obj.create_xml(reuse = False)
        truth[lookup_of] = {str(k): v for k, v in d.items()}
        return self.item('', obj, rqp.StringLookup, [lookup_of], truth)

    # wells

    def mk_datum(self):
        import resqpy.well as rqw
        t, o, x, truth = self.common()
        c = self.crs()
        loc = tuple(self.ctx.uniform(-1.0e5, 1.0e5) for _ in range(3))
        ref = self.ctx.choice(rqw._md_datum.valid_md_reference_list)
        obj = rqw.MdDatum(self.m, crs_uuid = c, location = loc, md_reference = ref, title = t, originator = o, extra_metadata = x)
        obj.create_xml()
        truth.update(location = list(loc), md_reference = ref, crs_uuid = str(c))
        return self.item('', obj, rqw.MdDatum, ['location', 'md_reference', 'crs_uuid'], truth)

    def datum_obj(self):
        import resqpy.well as rqw
        return rqw.MdDatum(self.m, uuid = self.some('MdDatum', 'datum'))

    def path(self, n):
        mds = np.cumsum(self.ctx.rng.uniform(10.0, 500.0, n)) - 10.0 * self.ctx.integer(0, 1)
        xyz = np.cumsum(self.ctx.rng.uniform(-20.0, 50.0, (n, 3)), axis = 0) + self.ctx.rng.uniform(0.0, 1000.0, 3)
        return mds, xyz

    def mk_survey(self):
        import resqpy.well as rqw
        t, o, x, truth = self.common()
        d = self.datum_obj()
        n = self.ctx.integer(1, 6)
        mds, _ = self.path(n)
        rad = self.ctx.flag(0.3)
        s = np.pi / 180.0 if rad else 1.0
        az, inc = self.ctx.rng.uniform(0.0, 360.0, n) * s, self.ctx.rng.uniform(0.0, 120.0, n) * s
        kw = dict(md_uom = self.ctx.choice(['m', 'ft']), angle_uom = 'rad' if rad else 'dega', measured_depths = mds, azimuths = az,
                  inclinations = inc, first_station = tuple(self.ctx.uniform(0.0, 1000.0) for _ in range(3)), is_final = self.ctx.flag())
        wi = self.well_interp()
        obj = rqw.DeviationSurvey(self.m, title = t, md_datum = d, represented_interp = wi, originator = o, extra_metadata = x, **kw)
        obj.write_hdf5()
        obj.create_xml()
        truth.update(kw)
        del truth['angle_uom']
        truth['first_station'] = list(kw['first_station'])
        truth['angles_in_degrees'] = not rad
        truth['station_count'] = n
        truth['md_datum'] = norm(d)
        truth['wellbore_interpretation'] = norm(wi)
        return self.item('', obj, rqw.DeviationSurvey, [k for k in truth if k not in ('title', 'originator', extras)], truth)

    def mk_surveytrajectory(self):
        """A trajectory derived from a deviation survey."""
        import resqpy.well as rqw
        t, o, x, truth = self.common()
        ok = [u for u in self.ids('DeviationSurveyRepresentation') if rqw.DeviationSurvey(self.m, uuid = u).station_count > 1]
        if not ok:
            return None
        s = rqw.DeviationSurvey(self.m, uuid = self.ctx.choice(ok))
        obj = rqw.Trajectory(self.m, deviation_survey = s, md_datum = s.md_datum, length_uom = s.md_uom, well_name = t, originator = o, extra_metadata = x,
                             set_tangent_vectors = self.ctx.flag())
        obj.write_hdf5()
        obj.create_xml(title = t)
        truth.update(deviation_survey = norm(s), measured_depths = s.measured_depths.copy(), knot_count = s.station_count, md_datum = norm(s.md_datum))
        return self.item('', obj, rqw.Trajectory, ['control_points', 'tangent_vectors', 'md_uom', 'start_md', 'finish_md', 'line_kind_index'] +
                         [k for k in truth if k not in ('title', 'originator', extras)], truth)

    def mk_trajectory(self):
        import resqpy.well as rqw
        t, o, x, truth = self.common()
        d = self.datum_obj()
        n = self.ctx.integer(2, 7)
        mds, xyz = self.path(n)
        wi = self.well_interp()
        kw = dict(length_uom = self.ctx.choice(['m', 'ft']), md_domain = self.ctx.choice([None, 'driller', 'logger']))
        obj = rqw.Trajectory(self.m, md_datum = d, crs_uuid = d.crs_uuid if self.ctx.flag() else None, mds = mds, control_points = xyz, well_name = t,
                             represented_interp = wi, set_tangent_vectors = self.ctx.flag(), originator = o, extra_metadata = x, **kw)
        obj.write_hdf5()
        obj.create_xml(title = t)
        truth.update(md_uom = kw['length_uom'], measured_depths = mds, control_points = xyz, knot_count = n, md_datum = norm(d), crs_uuid = str(d.crs_uuid),
                     wellbore_interpretation = norm(wi), start_md = float(mds[0]), finish_md = float(mds[-1]))
        if kw['md_domain']:
            truth['md_domain'] = kw['md_domain']
        return self.item('', obj, rqw.Trajectory, ['tangent_vectors', 'line_kind_index', 'deviation_survey'] +
                         [k for k in truth if k not in ('title', 'originator', extras)], truth)

    def trajectory_obj(self):
        import resqpy.well as rqw
        return rqw.Trajectory(self.m, uuid = self.some('WellboreTrajectoryRepresentation', 'trajectory'))

    def mk_frame(self):
        import resqpy.well as rqw
        t, o, x, truth = self.common()
        tr = self.trajectory_obj()
        mds = np.sort(self.ctx.rng.uniform(tr.start_md, tr.finish_md, self.ctx.integer(2, 9)))
        wi = self.well_interp()
        obj = rqw.WellboreFrame(self.m, trajectory = tr, mds = mds if self.ctx.flag() else list(mds), represented_interp = wi, title = t, originator = o,
                                extra_metadata = x)
        obj.write_hdf5()
        obj.create_xml()
        truth.update(node_mds = mds, node_count = len(mds), trajectory = norm(tr), trajectory_uuid = str(tr.uuid), wellbore_interpretation = norm(wi))
        return self.item('', obj, rqw.WellboreFrame, [k for k in truth if k not in ('title', 'originator', extras)], truth)

    def mk_markers(self):
        import resqpy.well as rqw
        t, o, x, truth = self.common()
        tr = self.trajectory_obj()
        n = self.ctx.integer(1, 5)
        mds = np.sort(self.ctx.rng.uniform(tr.start_md, tr.finish_md, n))
        obj = rqw.WellboreMarkerFrame(self.m, trajectory_uuid = tr.uuid, title = t, originator = o, extra_metadata = x)
        obj.node_count = n
        obj.node_mds = mds
        obj.marker_list = []
        for i in range(n):
            typ = self.ctx.choice(['fault', 'horizon', 'gas down to', 'oil up to', 'gas oil contact', 'seal', 'geobody'])
            iu = None
            if typ in ('fault', 'horizon') and self.ctx.flag(0.8):
                iu = self.some({'fault': 'FaultInterpretation', 'horizon': 'HorizonInterpretation'}[typ], typ)
            obj.marker_list.append(rqw.WellboreMarker(self.m, obj, i, marker_type = typ, interpretation_uuid = iu, title = gen.title(self.ctx),
                                                      originator = self.ctx.choice([None, 'me']), extra_metadata = gen.metadata(self.ctx)))
        obj.write_hdf5()
        obj.create_xml()
        truth.update(node_mds = mds, node_count = n, trajectory = norm(tr), trajectory_uuid = str(tr.uuid))
        truth[markers_of] = markers_of(obj)
        return self.item('', obj, rqw.WellboreMarkerFrame, [k for k in truth if k not in ('title', 'originator', extras)], truth)

    def mk_blocked(self):
        import resqpy.grid as grr
        import resqpy.well as rqw
        t, o, x, truth = self.common()
        g = self.some('IjkGridRepresentation', 'regular')
        g = grr.any_grid(self.m, uuid = g)
        if not isinstance(g, grr.RegularGrid) or not g.is_aligned:
            i = self.add('regular')
            g = grr.any_grid(self.m, uuid = i.uuid)
            if not g.is_aligned:
                return None
        col = (self.ctx.integer(0, g.nj - 1), self.ctx.integer(0, g.ni - 1))
        obj = rqw.BlockedWell(self.m, grid = g, column_ji0 = col, well_name = t, originator = o, extra_metadata = x,
                              represented_interp = self.well_interp(0.3))
        if not obj.cell_count:
            return None
        obj.write_hdf5()
        obj.create_xml()
        truth.update(cell_count = g.nk, node_count = g.nk + 1)
        truth['()cell_indices_kji0'] = np.array([(k,) + col for k in range(g.nk)])
        truth['()grid_uuid_list'] = [str(g.uuid)]
        return self.item('', obj, rqw.BlockedWell, ['node_mds', 'cell_indices', 'grid_indices', 'face_pair_indices', 'trajectory', 'wellbore_interpretation',
                                                    '()compressed_grid_indices', '()face_pair_array'] +
                         [k for k in truth if k not in ('title', 'originator', extras)], truth)

    # lines, points, surfaces

    def mk_polyline(self):
        import resqpy.lines as rql
        t, o, x, truth = self.common()
        c = self.crs()
        xyz = self.ctx.rng.uniform(-1.0e4, 1.0e4, (self.ctx.integer(2, 8), 3))
        closed = self.ctx.flag()
        r = self.interp()
        obj = rql.Polyline(self.m, set_coord = xyz, is_closed = closed, set_crs = c, title = t, rep_int_root = r, originator = o, extra_metadata = x)
        obj.write_hdf5()
        obj.create_xml()
        truth.update(isclosed = closed, coordinates = xyz, crs_uuid = str(c), rep_int_uuid = None if r is None else r.attrib['uuid'])
        return self.item('', obj, rql.Polyline, ['isclosed', 'coordinates', 'crs_uuid', 'rep_int_uuid'], truth)

    def mk_polyset(self):
        import resqpy.lines as rql
        t, o, x, truth = self.common()
        c = self.crs()
        r = self.interp(0.3)
        style = self.ctx.choice(['open', 'closed', 'mixed'])
        lines, data = [], []
        for i in range(self.ctx.integer(1, 5)):
            xyz = self.ctx.rng.uniform(-1.0e4, 1.0e4, (self.ctx.integer(2, 6), 3))
            closed = {'open': False, 'closed': True}.get(style, self.ctx.flag())
            lines.append(rql.Polyline(self.m, set_coord = xyz, is_closed = closed, set_crs = c, title = f'line {i}', rep_int_root = r))
            data.append([closed, xyz])
        obj = rql.PolylineSet(self.m, polylines = lines, title = t, originator = o, extra_metadata = x)
        if r is not None:
            obj.set_interpretation_root(r)
        obj.write_hdf5()
        obj.create_xml()
        truth.update({lines_of: data, 'crs_uuid': str(c), 'rep_int_root': norm(r), 'count_perpol': np.array([len(d[1]) for d in data]),
                      'coordinates': np.concatenate([d[1] for d in data])})
        return self.item('', obj, rql.PolylineSet, [k for k in truth if k not in ('title', 'originator', extras)], truth)

    def mk_points(self):
        import resqpy.surface as rqs
        t, o, x, truth = self.common()
        c = self.crs()
        sets = [self.ctx.rng.uniform(-1.0e4, 1.0e4, (self.ctx.integer(1, 6), 3)) for _ in range(self.ctx.integer(1, 3))]
        obj = rqs.PointSet(self.m, crs_uuid = c, points_array = sets[0], title = t, originator = o, extra_metadata = x)
        for s in sets[1:]:
            obj.add_patch(s)
        r = self.interp(0.3)
        obj.set_represented_interpretation_root(r)
        obj.write_hdf5()
        obj.create_xml()
        truth.update({'()full_array_ref': np.concatenate(sets), 'crs_uuid': str(c), 'patch_count': len(sets), 'represented_interpretation_root': norm(r),
                      patches_of: sets})
        return self.item('', obj, rqs.PointSet, [k for k in truth if k not in ('title', 'originator', extras)], truth)

    def mk_surface(self):
        import resqpy.surface as rqs
        t, o, x, truth = self.common()
        c = self.crs()
        patches = []
        for _ in range(self.ctx.integer(1, 3)):
            p = self.ctx.rng.uniform(-1.0e4, 1.0e4, (self.ctx.integer(3, 7), 3))
            tri = np.array([self.ctx.rng.permutation(len(p))[:3] for _ in range(self.ctx.integer(1, 6))])
            patches.append((tri, p))
        role = self.ctx.choice(['map', 'pick'])
        obj = rqs.Surface(self.m, crs_uuid = c, title = t, surface_role = role, originator = o, extra_metadata = x or {})
        if len(patches) == 1:
            obj.set_from_triangles_and_points(*patches[0])
        else:
            obj.set_multi_patch_from_triangles_and_points(patches)
        r = self.interp(0.4)
        obj.set_represented_interpretation_root(r)
        obj.write_hdf5()
        obj.create_xml()
        off = np.cumsum([0] + [len(p) for _, p in patches])
        truth.update({'()triangles_and_points': [np.concatenate([tr + off[i] for i, (tr, _) in enumerate(patches)]), np.concatenate([p for _, p in patches])],
                      'crs_uuid': str(c), 'surface_role': role, 'represented_interpretation_uuid': None if r is None else r.attrib['uuid'],
                      '()number_of_patches': len(patches), surface_patches: [[a, b] for a, b in patches]})
        return self.item('', obj, rqs.Surface, [k for k in truth if k not in ('title', 'originator', extras)], truth)

    def mk_mesh(self):
        import resqpy.surface as rqs
        ctx = self.ctx
        t, o, x, truth = self.common()
        c = self.crs()
        nj, ni = ctx.integer(2, 5), ctx.integer(2, 5)
        style = ctx.choice(['explicit', 'regular', 'reg&z', 'ref&z'])
        z = ctx.rng.uniform(900.0, 1000.0, (nj, ni))
        org = tuple(ctx.uniform(-1.0e4, 1.0e4) for _ in range(3))
        d = np.array([[ctx.uniform(10, 100), ctx.uniform(-5, 5), ctx.uniform(-1, 1)], [ctx.uniform(-5, 5), ctx.uniform(10, 100), ctx.uniform(-1, 1)]])
        jj, ii = np.meshgrid(np.arange(nj), np.arange(ni), indexing = 'ij')
        flat = np.array(org) + ii[..., None] * d[0] + jj[..., None] * d[1]
        role = ctx.choice(['map', 'pick'])
        kw = dict(title = t, surface_role = role, crs_uuid = c, originator = o, extra_metadata = x)
        if style == 'explicit':
            flat[..., 2] = z
            obj = rqs.Mesh(self.m, xyz_values = flat.copy(), **kw)
        elif style == 'regular':
            obj = rqs.Mesh(self.m, mesh_flavour = 'regular', nj = nj, ni = ni, origin = org, dxyz_dij = d, **kw)
        elif style == 'reg&z':
            obj = rqs.Mesh(self.m, mesh_flavour = 'reg&z', nj = nj, ni = ni, origin = org, dxyz_dij = d, z_values = z, **kw)
            flat[..., 2] = z
        else:
            base = rqs.Mesh(self.m, mesh_flavour = 'regular', nj = nj, ni = ni, origin = org, dxyz_dij = d, title = 'base', crs_uuid = c)
            base.write_hdf5()
            base.create_xml()
            obj = rqs.Mesh(self.m, mesh_flavour = 'ref&z', nj = nj, ni = ni, z_values = z, z_supporting_mesh_uuid = base.uuid, **kw)
            flat[..., 2] = z
        r = self.interp(0.3)
        obj.set_represented_interpretation_root(r)
        obj.write_hdf5()
        obj.create_xml()
        truth.update({'flavour': style, '()full_array_ref': flat, 'nj': nj, 'ni': ni, 'crs_uuid': str(c), 'surface_role': role,
                      'represented_interpretation_root': norm(r)})
        return self.item('', obj, rqs.Mesh, [k for k in truth if k not in ('title', 'originator', extras)], truth)

    def mk_trimesh(self):
        import resqpy.surface as rqs
        ctx = self.ctx
        t, o, x, truth = self.common()
        c = self.crs()
        nj, ni = ctx.integer(2, 5), ctx.integer(2, 5)
        z = ctx.rng.uniform(900.0, 1000.0, (nj, ni))
        org = (ctx.uniform(-1.0e3, 1.0e3), ctx.uniform(-1.0e3, 1.0e3), 0.0) if ctx.flag() else None
        side = ctx.uniform(1.0, 100.0)
        uom = ctx.choice([None, 'm', 'ft'])
        obj = rqs.TriMesh(self.m, t_side = side, nj = nj, ni = ni, origin = org, z_values = z, z_uom = uom, crs_uuid = c, title = t, originator = o,
                          extra_metadata = dict(x or {}))
        obj.write_hdf5()
        obj.create_xml()
        jj, ii = np.meshgrid(np.arange(nj), np.arange(ni), indexing = 'ij')
        xyz = np.stack((side * (ii + 0.5 * (jj % 2)), side * jj * np.sqrt(0.75), z), axis = -1)
        if org is not None:
            xyz += np.array(org)
        del truth[extras]
        truth.update({'t_side': side, 'nj': nj, 'ni': ni, 'z_uom': uom, 'crs_uuid': str(c), 'flavour': 'explicit'})
        it = self.item('', obj, rqs.TriMesh, [k for k in truth if k not in ('title', 'originator')] + ['()full_array_ref', 'origin'], truth)
        it.expect_close = {'()full_array_ref': xyz}
        return it

    # grids

    def mk_grid(self):
        import resqpy.grid as grr
        ctx = self.ctx
        c = self.crs()
        raw = random_grid(ctx, max_n = (3, 3, 3))
        t, o, x, truth = self.common()
        g = raw.build(self.m, title = t, crs_uuid = c)
        g.originator = o
        g.extra_metadata = dict(x or {})
        g.write_hdf5()
        g.create_xml()
        truth.pop('originator', None)
        truth.update({'extent_kji': list(raw.extent), 'crs_uuid': str(c), points_of: raw.points, 'k_gaps': int(np.sum(raw.gap_after)) or None,
                      'has_split_coordinate_lines': bool(raw.split)})
        truth[inactive_of] = None if raw.inactive is None or not np.any(raw.inactive) else raw.inactive

        it = self.item('', g, grr.Grid, [k for k in truth if k not in ('title', 'originator', extras)] +
                       ['nk', 'nj', 'ni', 'grid_is_right_handed', 'k_direction_is_down', 'pillar_shape', gap_array], truth)
        it.load = lambda m, u: grr.Grid(m, uuid = u)
        return it

    def mk_regular(self):
        import resqpy.grid as grr
        ctx = self.ctx
        c = self.crs()
        t, o, x, truth = self.common()
        ext = tuple(ctx.integer(1, 4) for _ in range(3))
        d = (ctx.uniform(10, 100), ctx.uniform(10, 100), ctx.uniform(1, 10))
        org = (0.0, 0.0, 0.0)  # other origins are dealt with by C16
        obj = grr.RegularGrid(self.m, extent_kji = ext, dxyz = d, origin = org, crs_uuid = c, title = t, originator = o, extra_metadata = x or {})
        obj.create_xml(add_cell_length_properties = False)
        truth.pop('originator', None)
        truth.update({'extent_kji': list(ext), 'crs_uuid': str(c), 'block_origin': np.array(org)})
        it = self.item('', obj, grr.RegularGrid, [k for k in truth if k not in ('title', 'originator', extras)] + ['block_dxyz_dkji', points_of], truth)
        it.load = lambda m, u: grr.any_grid(m, uuid = u)
        it.expect_close = {'block_dxyz_dkji': np.diag(d)[::-1]}
        return it

    def unstructured(self, obj, cls, truth, t, o, x, written = False, **more):
        if written:
            truth.pop('originator', None)
            truth[extras] = {}
            o, x = obj.originator, {}
        obj.title, obj.originator, obj.extra_metadata = t, o, dict(obj.extra_metadata or {}, **(x or {}))
        inactive = None
        if not written and self.ctx.flag(0.3):
            inactive = self.ctx.rng.random(obj.cell_count) < 0.4
            obj.inactive = inactive
        if inactive is not None and np.all(inactive):
            obj.all_inactive = True
        if not written:
            obj.write_hdf5()
            obj.create_xml()
        truth.update(more)
        truth[u_inactive] = None if inactive is None or not np.any(inactive) else inactive
        it = self.item('', obj, cls, ['cell_count', 'cell_shape', 'node_count', 'face_count', 'crs_uuid', 'faces_per_cell', 'faces_per_cell_cl', 'nodes_per_face',
                                      'nodes_per_face_cl', 'cell_face_is_right_handed', '()points_ref', u_inactive], truth,
                       prepare = lambda g: g.cache_all_geometry_arrays())
        return it

    def mk_hexa(self):
        import resqpy.grid as grr
        import resqpy.unstructured as rug
        t, o, x, truth = self.common()
        raw = random_grid(self.ctx, max_n = (2, 2, 2), faults = False, gaps = False, pinch = False, inactive = False)
        c = self.crs(standard = True)
        g = raw.build(self.m, title = 'source of hexa', crs_uuid = c)
        g.write_hdf5()
        g.create_xml()
        obj = rug.HexaGrid.from_unsplit_grid(self.m, g.uuid, inherit_properties = False, title = t)
        return self.unstructured(obj, rug.HexaGrid, truth, t, o, x, written = True, cell_count = int(np.prod(raw.extent)), cell_shape = 'hexahedral', crs_uuid = str(c))

    def mk_tetra(self):
        import resqpy.unstructured as rug
        t, o, x, truth = self.common()
        u = [v for v in self.ids('UnstructuredGridRepresentation') if rug.UnstructuredGrid(self.m, uuid = v, find_properties = False).cell_shape == 'hexahedral']
        if not u:
            self.add('hexa')
            u = [self.items[-1].uuid]
        h = rug.HexaGrid(self.m, uuid = self.ctx.choice(u), find_properties = False)
        try:
            obj = rug.TetraGrid.from_unstructured_cell(h, self.ctx.integer(0, h.cell_count - 1), title = t)
        except AssertionError:  # badly distorted faces are refused
            return None
        return self.unstructured(obj, rug.TetraGrid, truth, t, o, x, cell_shape = 'tetrahedral')

    def prisms(self, cls, n):
        """Sets up prisms in a row: triangle extruded along z, each sharing a triangular face with the next."""
        c = self.crs()
        g = cls(self.m)
        g.set_cell_count(n)
        tri = self.ctx.rng.uniform(0.0, 100.0, (3, 2))
        z = np.cumsum(self.ctx.rng.uniform(1.0, 10.0, n + 1))
        g.points_cached = np.array([[p[0], p[1], zz] for zz in z for p in tri])
        g.node_count = 3 * (n + 1)
        nodes, cl = [], []
        faces = []
        for k in range(n + 1):
            faces.append([3 * k, 3 * k + 1, 3 * k + 2])
        for k in range(n):
            for a in range(3):
                b = (a + 1) % 3
                faces.append([3 * k + a, 3 * k + b, 3 * k + 3 + b, 3 * k + 3 + a])
        g.face_count = len(faces)
        g.nodes_per_face = np.array([i for f in faces for i in f])
        g.nodes_per_face_cl = np.cumsum([len(f) for f in faces])
        g.faces_per_cell = np.array([i for k in range(n) for i in [k, k + 1] + [n + 1 + 3 * k + a for a in range(3)]])
        g.faces_per_cell_cl = 5 * (np.arange(n) + 1)
        g.cell_face_is_right_handed = self.ctx.rng.random(5 * n) < 0.5
        g.crs_uuid = c
        g.crs_is_right_handed = True
        return g, c

    def mk_prism(self):
        import resqpy.unstructured as rug
        t, o, x, truth = self.common()
        n = self.ctx.integer(1, 3)
        g, c = self.prisms(rug.PrismGrid, n)
        more = dict(cell_count = n, faces_per_cell = g.faces_per_cell.copy(), nodes_per_face = g.nodes_per_face.copy(), nodes_per_face_cl = g.nodes_per_face_cl.copy(),
                    cell_face_is_right_handed = g.cell_face_is_right_handed.copy(), crs_uuid = str(c), cell_shape = 'prisms')
        more['()points_ref'] = g.points_cached.copy()
        del more['cell_shape']
        return self.unstructured(g, rug.PrismGrid, truth, t, o, x, **more)

    def mk_polyhedral(self):
        import resqpy.unstructured as rug
        t, o, x, truth = self.common()
        n = self.ctx.integer(1, 3)
        g, c = self.prisms(rug.UnstructuredGrid, n)
        more = dict(cell_count = n, faces_per_cell = g.faces_per_cell.copy(), nodes_per_face = g.nodes_per_face.copy(), nodes_per_face_cl = g.nodes_per_face_cl.copy(),
                    cell_face_is_right_handed = g.cell_face_is_right_handed.copy(), crs_uuid = str(c), cell_shape = 'polyhedral')
        more['()points_ref'] = g.points_cached.copy()
        return self.unstructured(g, rug.UnstructuredGrid, truth, t, o, x, **more)

    def mk_pyramid(self):
        import resqpy.unstructured as rug
        t, o, x, truth = self.common()
        c = self.crs()
        g = rug.PyramidGrid(self.m)
        g.set_cell_count(1)
        g.node_count, g.face_count = 5, 5
        g.points_cached = np.array([[0, 0, 0], [10, 0, 0], [10, 10, 0], [0, 10, 0], [5, 5, self.ctx.uniform(3, 9)]], dtype = float)
        faces = [[0, 1, 2, 3], [0, 1, 4], [1, 2, 4], [2, 3, 4], [3, 0, 4]]
        g.nodes_per_face = np.array([i for f in faces for i in f])
        g.nodes_per_face_cl = np.cumsum([len(f) for f in faces])
        g.faces_per_cell = np.arange(5)
        g.faces_per_cell_cl = np.array([5])
        g.cell_face_is_right_handed = self.ctx.rng.random(5) < 0.5
        g.crs_uuid = c
        g.crs_is_right_handed = True
        more = dict(cell_count = 1, nodes_per_face = g.nodes_per_face.copy(), cell_face_is_right_handed = g.cell_face_is_right_handed.copy(), crs_uuid = str(c))
        more['()points_ref'] = g.points_cached.copy()
        return self.unstructured(g, rug.PyramidGrid, truth, t, o, x, **more)

    def mk_vertical(self):
        import resqpy.surface as rqs
        import resqpy.unstructured as rug
        t, o, x, truth = self.common()
        c = self.crs()
        nk = self.ctx.integer(2, 3)
        xy = np.array([[0.0, 0.0], [100.0, 0.0], [0.0, 100.0], [100.0, 100.0]]) + self.ctx.rng.uniform(-10, 10, (4, 2))
        tri = np.array([[0, 1, 2], [1, 3, 2]])
        surfs = []
        for k in range(nk + 1):
            s = rqs.Surface(self.m, crs_uuid = c, title = f'layer {k}')
            s.set_from_triangles_and_points(tri, np.column_stack((xy, np.full(4, 10.0 * k) + self.ctx.rng.uniform(0, 5, 4))))
            surfs.append(s)
        g = rug.VerticalPrismGrid.from_surfaces(self.m, surfs, title = t)
        it = self.unstructured(g, rug.VerticalPrismGrid, truth, t, o, x, cell_count = 2 * nk, crs_uuid = str(c))
        it.attrs.append('nk')
        it.truth['nk'] = nk
        return it

    def mk_gcs(self):
        import resqpy.fault as rqf
        import resqpy.grid as grr
        t, o, x, truth = self.common()
        for _ in range(3):
            g = grr.any_grid(self.m, uuid = self.some('IjkGridRepresentation', 'regular'))
            if g.extent_kji[1] > 1 or g.extent_kji[2] > 1:
                break
        else:
            return None
        kw = {}
        for axis, name in ((0, 'k_faces'), (1, 'j_faces'), (2, 'i_faces')):
            shape = list(g.extent_kji)
            shape[axis] -= 1
            kw[name] = self.ctx.rng.random(shape) < 0.5 if min(shape) > 0 and self.ctx.flag(0.7) else None
        count = sum(int(np.sum(v)) for v in kw.values() if v is not None)
        if count == 0:
            return None
        name = self.ctx.choice(['Alpha', 'beta fault']) + str(self.n)
        obj = rqf.GridConnectionSet(self.m, grid = g, feature_name = name, create_organizing_objects_where_needed = True, title = t, originator = o, extra_metadata = x,
                                    create_transmissibility_multiplier_property = False, **kw)
        obj.write_hdf5()
        obj.create_xml()
        del truth[extras]
        truth.pop('originator', None)
        truth.update({'count': count})
        truth[gcs_grids] = [str(g.uuid)]
        return self.item('', obj, rqf.GridConnectionSet, [k for k in truth if k not in ('title', 'originator', extras)] +
                         ['cell_index_pairs', 'face_index_pairs', 'feature_indices', gcs_features], truth, prepare = lambda s: s.cache_arrays())

    def mk_property(self):
        import resqpy.property as rqp
        ctx = self.ctx
        t, _, x, truth = self.common()
        truth.pop('originator', None)
        truth['title'] = t
        support, shapes = self.support()
        ie = ctx.choice(list(shapes))
        shape = shapes[ie]
        count = ctx.choice([1, 1, 1, 2, 3])
        full = tuple(shape) + ((count,) if count > 1 else ())
        discrete = ctx.flag(0.35)
        a = ctx.rng.integers(-5, 100, full) if discrete else ctx.rng.normal(size = full) * 10.0**ctx.integer(-3, 6)
        const = ctx.flag(0.15) and count == 1
        kw = dict(property_kind = ctx.choice(['discrete', 'index']) if discrete else ctx.choice(['porosity', 'length', 'thickness', 'depth', 'continuous']),
                  indexable_element = ie, discrete = discrete, realization = ctx.choice([None, 0, 3, 12]))
        if not discrete:
            kw['uom'] = {'porosity': 'm3/m3', 'continuous': 'Euc'}.get(kw['property_kind'], ctx.choice(['m', 'ft']))
        if ctx.flag(0.3):
            kw.update(facet_type = 'direction', facet = ctx.choice(['I', 'K', 'vertical']))
        ts = self.some('TimeSeries') if ctx.flag(0.3) else None
        if ts is not None:
            import resqpy.time_series as rqts
            s = rqts.any_time_series(self.m, ts)
            kw.update(time_series_uuid = ts, time_index = ctx.integer(0, len(s.timestamps) - 1))
        if discrete and ctx.flag():
            kw['null_value'] = ctx.choice([-1, -999])
        args = dict(kw)
        if const:
            v = a.flatten()[0]
            v = int(v) if discrete else float(v)
            args.update(const_value = v)
            a = np.full(full, v)
        obj = rqp.Property.from_array(self.m, None if const else a, 'c01', t, support_uuid = support, count = count, extra_metadata = dict(x or {}),
                                      find_local_property_kind = False, **args)
        truth.update({'()property_kind': kw['property_kind'], '()indexable_element': ie, '()is_continuous': not discrete, '()realization': kw['realization'],
                      '()count': count, '()facet': kw.get('facet'), '()facet_type': kw.get('facet_type'), '()time_series_uuid': norm(ts),
                      '()time_index': kw.get('time_index'), '()constant_value': args.get('const_value'), '()is_points': False,
                      'support_uuid': None, '()is_categorical': False, '()string_lookup_uuid': None})
        del truth['support_uuid']
        truth[p_support] = str(support)
        if not discrete:
            truth['()uom'] = kw['uom']
        if 'null_value' in kw and not const:
            truth['()null_value'] = kw['null_value']
        it = self.item('', obj, rqp.Property, [k for k in truth if k not in ('title', 'originator', extras)] +
                       ['()minimum_value', '()maximum_value', '()local_property_kind_uuid', p_array], truth)
        it.expect_close = {p_array: a}
        return it

    def support(self):
        """A supporting object and shapes for indexable elements."""
        import resqpy.grid as grr
        import resqpy.unstructured as rug
        import resqpy.well as rqw
        ctx = self.ctx
        k = ctx.choice(['grid', 'grid', 'unstructured', 'frame', 'points', 'surface'])
        if k == 'unstructured' and self.ids('UnstructuredGridRepresentation'):
            g = rug.UnstructuredGrid(self.m, uuid = self.some('UnstructuredGridRepresentation'), find_properties = False)
            return g.uuid, {'cells': (g.cell_count,), 'faces': (g.face_count,), 'nodes': (g.node_count,)}
        if k == 'frame':
            f = rqw.WellboreFrame(self.m, uuid = self.some('WellboreFrameRepresentation', 'frame'))
            return f.uuid, {'nodes': (f.node_count,), 'intervals': (f.node_count - 1,)}
        if k == 'points':
            import resqpy.surface as rqs
            p = rqs.PointSet(self.m, uuid = self.some('PointSetRepresentation', 'points'))
            return p.uuid, {'nodes': (len(p.full_array_ref()),)}
        if k == 'surface':
            import resqpy.surface as rqs
            p = rqs.Surface(self.m, uuid = self.some('TriangulatedSetRepresentation', 'surface'))
            tt, pp = p.triangles_and_points()
            return p.uuid, {'nodes': (len(pp),), 'faces': (len(tt),)}
        g = grr.any_grid(self.m, uuid = self.some('IjkGridRepresentation', 'regular'), find_properties = False)
        nk, nj, ni = g.extent_kji
        return g.uuid, {'cells': (nk, nj, ni), 'columns': (nj, ni), 'layers': (nk,)}

    def mk_catproperty(self):
        import resqpy.property as rqp
        ctx = self.ctx
        t, _, x, truth = self.common()
        truth.pop('originator', None)
        support, shapes = self.support()
        ie = ctx.choice(list(shapes))
        lu = self.some('StringTableLookup', 'lookup')
        keys = sorted(rqp.StringLookup(self.m, uuid = lu).str_dict) if rqp.StringLookup(self.m, uuid = lu).stored_as_list is False else None
        a = ctx.rng.integers(0, 4, shapes[ie])
        obj = rqp.Property.from_array(self.m, a, 'c01', t, support_uuid = support, property_kind = 'facies', indexable_element = ie, discrete = True,
                                      string_lookup_uuid = lu, null_value = -1, extra_metadata = dict(x or {}))
        truth.update({'()indexable_element': ie, '()is_continuous': False, '()is_categorical': True, '()string_lookup_uuid': str(lu), '()null_value': -1,
                      p_support: str(support), p_array: a})
        return self.item('', obj, rqp.Property, [k for k in truth if k not in ('title', 'originator', extras)] +
                         ['()minimum_value', '()maximum_value', '()local_property_kind_uuid', '()property_kind'], truth)

    def mk_pointsproperty(self):
        import resqpy.property as rqp
        ctx = self.ctx
        t, _, x, truth = self.common()
        truth.pop('originator', None)
        support, shapes = self.support()
        ie = ctx.choice(list(shapes))
        a = ctx.rng.normal(size = tuple(shapes[ie]) + (3,)) * 100.0
        obj = rqp.Property.from_array(self.m, a, 'c01', t, support_uuid = support, property_kind = 'length', indexable_element = ie, points = True,
                                      uom = 'm', extra_metadata = dict(x or {}))
        truth.update({'()indexable_element': ie, '()is_points': True, p_support: str(support)})
        it = self.item('', obj, rqp.Property, [k for k in truth if k not in ('title', 'originator', extras)] + [p_array, '()count', '()is_categorical'], truth)
        it.expect_close = {p_array: a}
        return it


# derived attributes


def extras(o):
    return {str(k): str(v) for k, v in (getattr(o, 'extra_metadata', None) or {}).items()}


def strata_of(o):
    return [[i, str(u.uuid)] for i, u in o.units]


def ranks_of(o):
    return [str(r.uuid) for r in o.ranks]


def lookup_of(o):
    return {str(k): v for k, v in dict(enumerate(o.str_list) if o.stored_as_list else o.str_dict).items() if v is not None and v != ''}


def markers_of(o):
    return [[m.marker_index, m.marker_type, norm(m.interpretation_uuid), m.title, dict(m.extra_metadata or {}), str(m.uuid)] for m in o.marker_list]


def lines_of(o):
    return [[p.isclosed, p.coordinates] for p in o.polys]


def patches_of(o):
    return [o.single_patch_array_ref(i) for i in range(o.patch_count)]


def surface_patches(o):
    return [list(o.triangles_and_points(patch = i)) for i in range(o.number_of_patches())]


def points_of(o):
    p = o.points_ref(masked = False)
    return p if p.ndim == 3 else p.reshape((p.shape[0], -1, 3))


def inactive_of(o):
    i = o.extract_inactive_mask()
    return i if i is not None and np.any(i) else None


def u_inactive(o):
    i = o.inactive
    return i if i is not None and np.any(i) else None


def gap_array(o):
    return None if not o.k_gaps else o.k_gap_after_array


def gcs_grids(o):
    return [str(g.uuid) for g in o.grid_list]


def gcs_features(o):
    return [[str(f[1]), str(f[2]) if len(f) > 2 else None][:1] for f in (o.feature_list or [])]


def p_support(o):
    return norm(o.collection.support_uuid)


def p_array(o):
    return o.array_ref()
