"""Random properties, with an account of what each should present, and comparison of that with what the library presents."""

import numpy as np

from rv import gen
from rv.core import Skip

SUPPORTS = ['grid', 'grid', 'regular', 'unstructured', 'frame', 'markers', 'blocked', 'mesh', 'surface', 'polyline', 'polyset', 'points', 'gcs']

TYPES = {
    'grid': 'IjkGridRepresentation', 'regular': 'IjkGridRepresentation', 'unstructured': 'UnstructuredGridRepresentation',
    'frame': 'WellboreFrameRepresentation', 'markers': 'WellboreMarkerFrameRepresentation', 'blocked': 'BlockedWellboreRepresentation',
    'mesh': 'Grid2dRepresentation', 'surface': 'TriangulatedSetRepresentation', 'polyline': 'PolylineRepresentation',
    'polyset': 'PolylineSetRepresentation', 'points': 'PointSetRepresentation', 'gcs': 'GridConnectionSetRepresentation'
}

DEFAULT = {
    'grid': 'cells', 'regular': 'cells', 'unstructured': 'cells', 'frame': 'nodes', 'markers': 'nodes', 'blocked': 'cells', 'mesh': 'cells',
    'surface': 'triangles', 'polyline': 'intervals', 'polyset': 'intervals', 'points': 'nodes', 'gcs': 'faces'
}


class Support:
    """A representation in a model with the shape of an array for each of its indexable elements."""

    def __init__(self, kind, uuid, shapes, directed = None):
        self.kind, self.uuid, self.shapes, self.directed = kind, uuid, shapes, directed or {}

    @property
    def default(self):
        return DEFAULT[self.kind]


def support(ctx, b, kind = None):
    """Makes a supporting representation with the builder b."""
    kind = kind or ctx.choice(SUPPORTS)
    make = {'unstructured': ctx.choice(['hexa', 'tetra', 'prism', 'pyramid', 'polyhedral'])}.get(kind, kind)
    item = b.add(make)
    if item is None:
        raise Skip('no ' + kind)
    o = item.obj
    directed = {}
    if kind in ('grid', 'regular'):
        nk, nj, ni = (int(n) for n in o.extent_kji)
        shapes = {
            'cells': (nk, nj, ni), 'columns': (nj, ni), 'layers': (nk,), 'column edges': (nj * (ni + 1) + (nj + 1) * ni,),
            'edges per column': (nj, ni, 4), 'faces per cell': (nk, nj, ni, 6), 'nodes per cell': (nk, nj, ni, 2, 2, 2),
            'J0': (nk, ni), 'I0': (nk, nj),
            'faces': ((nk + 1) * nj * ni + nk * (nj + 1) * ni + nk * nj * (ni + 1),)
        }
        if not getattr(o, 'k_gaps', None):
            if kind == 'regular' or not o.has_split_coordinate_lines:
                shapes['nodes'] = (nk + 1, nj + 1, ni + 1)
            else:
                shapes['nodes'] = (nk + 1, (nj + 1) * (ni + 1) + int(o.split_pillars_count))
        directed = {'faces': {'I': (nk, nj, ni + 1), 'J': (nk, nj + 1, ni), 'K': (nk + 1, nj, ni)}}
    elif kind == 'unstructured':
        shapes = {'cells': (int(o.cell_count),), 'faces': (int(o.face_count),), 'nodes': (int(o.node_count),),
                  'faces per cell': (len(o.faces_per_cell),)}
    elif kind in ('frame', 'markers'):
        n = len(o.node_mds)
        shapes = {'nodes': (n,)}
        if n > 1:
            shapes['intervals'] = (n - 1,)
    elif kind == 'blocked':
        n = len(o.node_mds)
        shapes = {'cells': (int(np.count_nonzero(np.asarray(o.grid_indices) >= 0)),), 'intervals': (n - 1,), 'nodes': (n,)}
    elif kind == 'mesh':
        nj, ni = int(o.nj), int(o.ni)
        shapes = {'nodes': (nj, ni), 'cells': (nj - 1, ni - 1), 'columns': (nj - 1, ni - 1)}
    elif kind == 'surface':
        t, p = o.triangles_and_points()
        shapes = {'triangles': (len(t),), 'faces': (len(t),), 'nodes': (len(p),)}
    elif kind == 'polyline':
        n = len(o.coordinates)
        shapes = {'nodes': (n,), 'intervals': (n if o.isclosed else n - 1,)}
    elif kind == 'polyset':
        n = [len(q.coordinates) for q in o.polys]
        shapes = {'nodes': (sum(n),), 'intervals': (sum(k if q.isclosed else k - 1 for k, q in zip(n, o.polys)),)}
    elif kind == 'points':
        shapes = {'nodes': (sum(len(o.single_patch_array_ref(i)) for i in range(o.patch_count)),)}
    else:
        shapes = {'faces': (int(o.count),)}
    return Support(kind, o.uuid, {k: v for k, v in shapes.items() if all(v)}, directed)


class Pool:
    """Time series, lookup tables and kinds of a model."""

    def __init__(self, ctx, b):
        self.ctx, self.b = ctx, b
        self.series, self.lookups, self.kinds = [], [], []

    def a_series(self):
        if not self.series or self.ctx.flag(0.15):
            i = self.b.add('series')
            self.series.append((i.obj.uuid, len(i.obj.timestamps)))
        return self.ctx.choice(self.series)

    def a_lookup(self):
        if not self.lookups or self.ctx.flag(0.15):
            i = self.b.add('lookup')
            self.lookups.append((i.obj.uuid, i.truth))
        return self.ctx.choice(self.lookups)[0]

    def a_kind(self):
        if not self.kinds or self.ctx.flag(0.3):
            i = self.b.add('kind')
            self.kinds.append((i.obj.uuid, i.truth['title']))
        return self.ctx.choice(self.kinds)


class Prop:
    """One property: the arguments by which it is made and what it should present."""

    def __init__(self):
        self.args, self.truth, self.array, self.h5 = {}, {}, None, {}


FACETS = [('direction', 'I'), ('direction', 'J'), ('direction', 'K'), ('direction', 'IJ'), ('what', 'oil'), ('what', 'gas'), ('netgross', 'net'),
          ('netgross', 'gross'), ('conditions', 'reservoir'), ('statistics', 'mean'), ('qualifier', 'maximum')]


def draw(ctx, pool, sup, style = None, ie = None, recurrent = True):
    """A property for the support; style is one of continuous, discrete, categorical, points, bool."""
    import resqpy.weights_and_measures as wam
    p = Prop()
    a, t = p.args, p.truth
    style = style or ctx.choice(['continuous', 'continuous', 'discrete', 'categorical', 'points', 'bool'])
    p.style = style
    explicit = ie is not None or ctx.flag(0.85)
    ie = ie or (ctx.choice(list(sup.shapes)) if explicit else sup.default)
    if ie not in sup.shapes:
        raise Skip('element')
    shape = sup.shapes[ie]
    a['indexable_element'] = ie if explicit else None
    facet = (None, None)
    if style != 'points' and ctx.flag(0.4):
        facet = ctx.choice(FACETS)
        if ie in sup.directed and facet[0] == 'direction':
            if facet[1] not in sup.directed[ie]:
                facet = ('direction', 'J')
            shape = sup.directed[ie][facet[1]]
        a['facet_type'], a['facet'] = facet
    count = ctx.choice([1, 1, 1, 1, 2, 3, 5])
    full = tuple(shape) + ((count,) if count > 1 else ()) + ((3,) if style == 'points' else ())
    a['count'], a['points'], a['discrete'] = count, style == 'points', style in ('discrete', 'categorical', 'bool')
    if not a['points']:
        del a['points']
    if count == 1 and ctx.flag():
        del a['count']
    p.const = style not in ('points', 'categorical') and ctx.flag(0.15)
    null = None
    if style in ('continuous', 'points'):
        x = ctx.rng.normal(size = full) * 10.0**ctx.integer(-6, 8)
        if style == 'continuous':
            how = ctx.choice(['plain', 'plain', 'positive', 'some nan', 'integral', 'all nan', 'zeros', 'float32'])
            if how == 'positive':
                x = np.abs(x) + 1.0e-9
            elif how == 'some nan':
                x[ctx.rng.random(full) < 0.3] = np.nan
            elif how == 'integral':
                x = np.round(x)
            elif how == 'all nan' and ctx.flag(0.3):
                x[:] = np.nan
            elif how == 'zeros':
                x[ctx.rng.random(full) < 0.6] = 0.0
            elif how == 'float32':
                x = x.astype(np.float32)
    elif style == 'bool':
        x = ctx.rng.random(full) < ctx.uniform(0.0, 1.0)
    else:
        lo = ctx.choice([0, 0, -5, -100, 1])
        hi = lo + ctx.choice([1, 3, 40, 60])
        dt = ctx.choice([int, int, np.int32, np.int16, np.int8]) if lo > -128 else int
        x = ctx.rng.integers(lo, hi, full).astype(dt)
        if ctx.flag():
            null = ctx.choice([-1, -1, -99, 0, 7, lo])
            if ctx.flag(0.7):
                x[ctx.rng.random(full) < 0.3] = null
    if p.const:
        v = x.flatten()[0]
        v = bool(v) if style == 'bool' else float(v) if style == 'continuous' else int(v)
        if style != 'bool' and ctx.flag(0.2):
            v = type(v)(0)
        a['const_value'] = v
        x = np.full(full, v)
    p.array = x
    if null is not None:
        a['null_value'] = null
    # kind and units
    how = ctx.choice(['standard', 'standard', 'local', 'named', 'abstract'])
    p.named = None
    kinds = sorted(wam.valid_property_kinds())
    if how == 'local':
        u, name = pool.a_kind()
        a['local_property_kind_uuid'] = u
        if ctx.flag():
            a['property_kind'] = name
        t['property_kind'], t['local_property_kind_uuid'] = name, str(u)
    elif how == 'named':
        name = ctx.choice(['banana', 'Own Kind', 'hardness of stone', 'hardness', 'Own', 'bananas'])
        a['property_kind'] = t['property_kind'] = p.named = name
    elif how == 'abstract':
        a['property_kind'] = t['property_kind'] = {'continuous': 'continuous', 'points': 'length', 'categorical': 'categorical'}.get(style, 'discrete')
    else:
        a['property_kind'] = t['property_kind'] = ctx.choice({
            'points': ['length', 'depth'], 'continuous': ['porosity', 'saturation', 'depth', 'thickness', 'net to gross ratio', 'rock permeability', 'pressure',
                                                          'volume', 'fluid volume', 'rock volume', 'cell length', 'velocity', 'transmissibility'] + kinds[::40]
        }.get(style, ['index', 'region initialization', 'facies', 'zone']))
        if a['property_kind'] not in kinds:
            p.named = a['property_kind']
        if t['property_kind'] == 'permeability rock':
            t['property_kind'] = 'rock permeability'
        t.setdefault('local_property_kind_uuid', None)
        if p.named:
            del t['local_property_kind_uuid']
    p.find_local = how != 'abstract'
    if how == 'abstract':
        t['local_property_kind_uuid'] = None
    if style == 'continuous':
        a['uom'] = t['uom'] = ctx.choice(['m', 'ft', 'mD', 'm3/m3', '%', 'Euc', 'bar', 'psi', 'bbl', 'degC', 'kg/m3'] + ['Bananas', 'm per furlong'] +
                                         sorted(wam.valid_uoms())[::97])
    if ctx.flag(0.4):
        a['realization'] = ctx.choice([0, 0, 1, 5, 17])
    if recurrent and ctx.flag(0.3):
        u, n = pool.a_series()
        a['time_series_uuid'], a['time_index'] = u, ctx.integer(0, n - 1)
    if style == 'categorical':
        a['string_lookup_uuid'] = pool.a_lookup()
    p.title = gen.title(ctx)
    p.extra = (ctx.flag(0.3) and gen.metadata(ctx)) or {}
    p.source = ctx.choice(['from a file', 'test', None])
    p.finish(sup, ie)
    return p


def finish(self, sup, ie):
    a, t = self.args, self.truth
    style = self.style
    t.update({
        'title': self.title, 'indexable': ie, 'count': a.get('count', 1), 'points': style == 'points',
        'continuous': style in ('continuous', 'points'), 'categorical': style == 'categorical', 'facet_type': a.get('facet_type'),
        'facet': a.get('facet'), 'realization': a.get('realization'), 'time_index': a.get('time_index'),
        'time_series_uuid': None if a.get('time_series_uuid') is None else str(a['time_series_uuid']),
        'string_lookup_uuid': None if a.get('string_lookup_uuid') is None else str(a['string_lookup_uuid']),
        'constant_value': a.get('const_value'), 'support_uuid': str(sup.uuid)
    })
    if 'null_value' in a and not self.const:
        t['null_value'] = a['null_value']
    if style in ('continuous', 'points'):
        t['null_value'] = float('nan')
    x = self.array
    t['shape'] = tuple(x.shape)
    self.sup = sup
    if style == 'continuous':
        v = x[~np.isnan(x)]
    elif style == 'discrete':
        v = x if a.get('null_value') is None else x[x != a['null_value']]
    else:
        v = None
    if v is not None:
        t['min'] = None if not v.size else v.min()
        t['max'] = None if not v.size else v.max()
        if style == 'discrete' and not v.size:
            del t['min'], t['max']
    elif style in ('points', 'categorical'):
        t['min'] = t['max'] = None
    if x.dtype == np.int8:  # treated as boolean data for abstract kinds
        t.pop('min', None)
        t.pop('max', None)


Prop.finish = finish

# what the library presents


def of_part(pc, part):
    s = lambda u: None if u is None else str(u)
    return {
        'title': pc.citation_title_for_part(part), 'indexable': pc.indexable_for_part(part), 'count': pc.count_for_part(part),
        'points': bool(pc.points_for_part(part)), 'continuous': bool(pc.continuous_for_part(part)),
        'categorical': bool(pc.part_is_categorical(part)), 'facet_type': pc.facet_type_for_part(part), 'facet': pc.facet_for_part(part),
        'realization': pc.realization_for_part(part), 'time_index': pc.time_index_for_part(part),
        'time_series_uuid': s(pc.time_series_uuid_for_part(part)), 'string_lookup_uuid': s(pc.string_lookup_uuid_for_part(part)),
        'constant_value': pc.constant_value_for_part(part), 'null_value': pc.null_value_for_part(part),
        'min': pc.minimum_value_for_part(part), 'max': pc.maximum_value_for_part(part), 'uom': pc.uom_for_part(part),
        'property_kind': pc.property_kind_for_part(part), 'local_property_kind_uuid': s(pc.local_property_kind_uuid(part)),
        'support_uuid': s(pc.support_uuid_for_part(part)), 'extra': dict(pc.extra_metadata_for_part(part) or {})
    }


def of_property(o):
    s = lambda u: None if u is None else str(u)
    return {
        'title': o.title, 'indexable': o.indexable_element(), 'count': o.count(), 'points': bool(o.is_points()), 'continuous': bool(o.is_continuous()),
        'categorical': bool(o.is_categorical()), 'facet_type': o.facet_type(), 'facet': o.facet(), 'realization': o.realization(),
        'time_index': o.time_index(), 'time_series_uuid': s(o.time_series_uuid()), 'string_lookup_uuid': s(o.string_lookup_uuid()),
        'constant_value': o.constant_value(), 'null_value': o.null_value(), 'min': o.minimum_value(), 'max': o.maximum_value(), 'uom': o.uom(),
        'property_kind': o.property_kind(), 'local_property_kind_uuid': s(o.local_property_kind_uuid()), 'support_uuid': s(o.collection.support_uuid),
        'extra': dict(o.extra_metadata or {})
    }


def near(got, exp):
    if got is None or exp is None or isinstance(exp, (str, bool)):
        return got == exp and type(got) in (type(exp), np.bool_) or (got is None and exp is None)
    try:
        got, exp = float(got), float(exp)
    except (TypeError, ValueError):
        return got == exp
    return got == exp or (got != got and exp != exp) or abs(got - exp) <= 2.0e-7 * abs(exp)


def compare(ctx, p, got, where, skip = ()):
    """Compares presented metadata with the truth."""
    for k, exp in p.truth.items():
        if k in ('shape',) or k in skip:
            continue
        if k == 'extra':
            continue
        g = got[k]
        if k in ('min', 'max') and p.array is not None and p.masked_extremes is not None and near(g, p.masked_extremes[k]):
            continue
        ctx.check(near(g, exp), k.replace('_', '-'), f'{where}: {k} differs', got = g, expected = exp, style = p.style, args = str(p.args)[:600])
    for k, v in p.extra.items():
        if k not in ('source', 'Uom'):
            ctx.check(got['extra'].get(str(k)) == str(v), 'extra', f'{where}: extra metadata differs', key = k, got = got['extra'].get(str(k)), expected = v)
    if p.source and 'source' not in p.extra and 'source' not in skip:
        ctx.check(got['extra'].get('source') == p.source, 'source', f'{where}: source differs', got = got['extra'].get('source'), expected = p.source)


Prop.masked_extremes = None


def same_values(ctx, got, p, where, exact = True, code = 'values', exp = None):
    exp = p.array if exp is None else exp
    if got is None:
        ctx.fail(code, f'{where}: no array', style = p.style)
    ctx.check(tuple(got.shape) == tuple(exp.shape), 'shape', f'{where}: shape of array differs', got = got.shape, expected = exp.shape, style = p.style,
              args = str(p.args)[:600])
    if got.dtype.kind == 'f' or exp.dtype.kind == 'f':
        rtol = 0.0 if exact else p.rtol
        ok = np.allclose(got.astype(float), exp.astype(float), rtol = rtol, atol = 0.0, equal_nan = True)
    else:
        ok = bool(np.all(got.astype(int) == exp.astype(int)))
    ctx.check(ok, code, f'{where}: values of array differ', style = p.style, args = str(p.args)[:600], got = got.flatten()[:8],
              expected = exp.flatten()[:8])


Prop.rtol = 0.0
