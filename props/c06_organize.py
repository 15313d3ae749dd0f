"""C06: organisational objects persist, compare and are reused faithfully."""

import numpy as np

from props.spec import spec
from rv import gen
from rv.core import Scenario, Skip

PROP = spec('C06')

DOMAINS = ['depth', 'time', 'mixed']
RELATIONS = ['conformable', 'unconformable below and above', 'unconformable above', 'unconformable below']
SURFACES = ['flooding', 'ravinement', 'maximum flooding', 'transgressive']
MD_REFS = ['ground level', 'kelly bushing', 'mean sea level', 'derrick floor', 'casing flange', 'crown valve', 'rotary bushing',
           'rotary table', 'sea floor', 'lowest astronomical tide', 'mean higher high water', 'mean high water',
           'mean lower low water', 'mean low water', 'mean tide level', 'kickoff point']


def chrono(ctx, pool):
    return (None, None) if ctx.flag(0.7) else tuple(pool['chrono'][ctx.integer(0, 2)] for _ in range(2))


def ages(ctx):
    return ctx.choice([None, ('2001-03-04T05:06:07Z', None), ('1950-01-01T00:00:00Z', -65000000), ('2000-01-01T00:00:00Z', 0)])


def alter_choice(options):

    def f(ctx, v):
        o = [x for x in options if x != v]
        return o[ctx.integer(0, len(o) - 1)]

    return f


def alter_metadata(ctx, v):
    v = dict(v or {})
    how = ctx.integer(0, 2)
    if how == 0 or not v:
        v['added'] = 'yes'
    elif how == 1:
        k = sorted(v)[0]
        v[k] = v[k] + '!'
    else:
        v.pop(sorted(v)[0])
    return v


def alter_title(ctx, v):
    return ctx.choice([v + 'x', v.swapcase() if v.swapcase() != v else v + '_', 'quite other'])


def relations(ctx, *_):
    return ctx.choice([None, None] + [ctx.subset(RELATIONS, n) for n in (1, 2, 3)])


def alter_relations(ctx, v):
    v = set(v or [])
    r = ctx.choice(RELATIONS)
    w = v ^ {r}
    return [x for x in RELATIONS if x in w] or None


def alter_float(ctx, v):
    return ctx.choice([12.5, 33.25]) if v is None else ctx.choice([None, v * 1.25 + 5.0, v - 7.0])


def throw_list(ctx, pool):
    if ctx.flag(0.6):
        return None
    return [(ctx.choice(['reverse', 'strike-slip', 'normal', 'thrust', 'scissor', 'variable']), chrono(ctx, pool))
            for _ in range(ctx.integer(1, 4))]


ALTER_CHRONO = 'chrono'

# attribute: (generator, alteration or None if not defining, constructor argument or None if set afterwards)
FEATURES = {
    'BoundaryFeature': {},
    'FrontierFeature': {},
    'GeobodyFeature': {},
    'GeologicUnitFeature': {},
    'WellboreFeature': {},
    'FluidBoundaryFeature': {
        'kind': ['free water contact', 'gas oil contact', 'gas water contact', 'seal', 'water oil contact']
    },
    'GeneticBoundaryFeature': {
        'kind': ['horizon', 'geobody boundary'],
        'absolute_age': [None, ('2001-03-04T05:06:07Z', None), ('1950-01-01T00:00:00Z', -65000000), ('2000-01-01T00:00:00Z', 0)]
    },
    'OrganizationFeature': {
        'organization_kind': ['earth model', 'fluid', 'stratigraphic', 'structural']
    },
    'TectonicBoundaryFeature': {
        'kind': ['fault', 'fracture']
    },
}

# class: (feature class, feature argument, {attribute: (constructor argument, options)})
INTERPS = {
    'BoundaryFeatureInterpretation': ('BoundaryFeature', 'boundary_feature', {
        'domain': ('domain', DOMAINS)
    }, 'has_occurred_during'),
    'EarthModelInterpretation': ('OrganizationFeature', 'organization_feature', {
        'domain': ('domain', DOMAINS)
    }, 'has_occurred_during'),
    'FaultInterpretation': ('TectonicBoundaryFeature', 'tectonic_boundary_feature', {
        'domain': ('domain', DOMAINS),
        'is_listric': ('is_listric', [None, True, False]),
        'maximum_throw': ('maximum_throw', [None, 10.0, 1234.5678, 0.1]),
        'mean_azimuth': ('mean_azimuth', [None, 0.0, 47.25, 359.0]),
        'mean_dip': ('mean_dip', [None, 90.0, 61.125, 12.0]),
    }, 'main_has_occurred_during'),
    'GenericInterpretation': (None, 'feature_uuid', {
        'domain': ('domain', DOMAINS)
    }, 'has_occurred_during'),
    'GeobodyBoundaryInterpretation': ('GeneticBoundaryFeature', 'genetic_boundary_feature', {
        'domain': ('domain', DOMAINS),
        'boundary_relation_list': ('boundary_relation_list', None)
    }, 'has_occurred_during'),
    'GeobodyInterpretation': ('GeobodyFeature', 'geobody_feature', {
        'domain': ('domain', DOMAINS),
        'composition': ('composition', [None, 'organic', 'carbonate', 'evaporite salt', 'other chemichal rock', 'intrusive clay']),
        'implacement': ('material_implacement', [None, 'autochtonous', 'allochtonous']),
        'geobody_shape': ('geobody_shape', [None, 'dyke', 'silt', 'sill', 'channel', 'wedge'])
    }, 'has_occurred_during'),
    'HorizonInterpretation': ('GeneticBoundaryFeature', 'genetic_boundary_feature', {
        'domain': ('domain', DOMAINS),
        'boundary_relation_list': ('boundary_relation_list', None),
        'sequence_stratigraphy_surface': ('sequence_stratigraphy_surface', [None] + SURFACES)
    }, 'has_occurred_during'),
    'WellboreInterpretation': ('WellboreFeature', 'wellbore_feature', {
        'domain': ('domain', DOMAINS),
        'is_drilled': ('is_drilled', [True, False])
    }, None),
}

KINDS = list(FEATURES) + list(INTERPS) + ['RockFluidUnitFeature', 'PropertyKind', 'StringLookup', 'MdDatum', 'Crs']
MODULES = {'PropertyKind': 'resqpy.property', 'StringLookup': 'resqpy.property', 'MdDatum': 'resqpy.well', 'Crs': 'resqpy.crs'}
TYPES = {'StringLookup': 'StringTableLookup', 'GenericInterpretation': 'GenericFeatureInterpretation', 'Crs': 'LocalDepth3dCrs'}


def cls(kind):
    import importlib
    return getattr(importlib.import_module(MODULES.get(kind, 'resqpy.organize')), kind)


def pool_for(ctx, m):
    """Supporting parts, always present in the model."""
    import resqpy.organize as rqo
    import resqpy.crs as rqc
    pool = {'chrono': [], 'crs': []}
    for i in range(3):
        f = rqo.GeologicUnitFeature(m, feature_name = f'chrono unit {i}', extra_metadata = {'pool': 'chrono'})
        f.create_xml(reuse = False)
        pool['chrono'].append(str(f.uuid))
    for i in range(2):
        c = rqc.Crs(m, x_offset = 1000.0 * (i + 1), title = f'pool crs {i}')
        c.create_xml(reuse = False)
        pool['crs'].append(c.uuid)
    return pool


def small_title(ctx):
    return ctx.choice(['alpha', 'Alpha', 'a < b & "c"', 'β layer'])


def small_meta(ctx):
    return ctx.choice([{}, {}, {'source': 'abc'}, {'source': 'abc', 'n': '2'}])


def draw(ctx, kind, pool, small = False):
    """Random attributes (a dictionary with tuple/str/None/bool/float values, and nested ones for features)."""
    a = {'title': small_title(ctx) if small else gen.title(ctx), 'extra_metadata': small_meta(ctx) if small else (gen.metadata(ctx) or {})}
    if kind in FEATURES:
        for k, options in FEATURES[kind].items():
            a[k] = ctx.choice(options)
    elif kind in INTERPS:
        fc, farg, attrs, chron = INTERPS[kind]
        if fc is None:
            fc = ctx.choice(['BoundaryFeature', 'FrontierFeature', 'GeologicUnitFeature', 'TectonicBoundaryFeature'])
        a['feature'] = (fc, draw(ctx, fc, pool, small))
        for k, (_, options) in attrs.items():
            a[k] = relations(ctx) if options is None else ctx.choice(options)
        if chron:
            a['chrono'] = chrono(ctx, pool)
        if kind == 'FaultInterpretation':
            a['throws'] = throw_list(ctx, pool)
        if kind in ('HorizonInterpretation',):
            a['feature'][1]['kind'] = 'horizon'
        if kind != 'GeobodyInterpretation' and ctx.flag(0.2):
            a['title'] = None  # defaults to name of feature
    elif kind == 'RockFluidUnitFeature':
        a['phase'] = ctx.choice(['aquifer', 'gas cap', 'oil column', 'seal'])
        a['top'] = ('BoundaryFeature', draw(ctx, 'BoundaryFeature', pool, small))
        a['base'] = ('BoundaryFeature', draw(ctx, 'BoundaryFeature', pool, small))
    elif kind == 'PropertyKind':
        a['is_abstract'] = ctx.flag(0.3)
        a['example_uom'] = ctx.choice(['m', 'Euc', 'mD', 'kg/m3'])
        a['naming_system'] = ctx.choice(['urn:resqml:bp.com:resqpy', 'urn:other:namer'])
        a['parent_kind'] = ctx.choice(['continuous', 'discrete', 'length', 'permeability rock'])
    elif kind == 'StringLookup':
        n = ctx.integer(1, 6)
        keys = [int(x) for x in ctx.rng.permutation(ctx.choice([[0, 1, 2, 3, 4, 5], [-3, -1, 0, 7, 60, 1000], [1, 2, 3, 5, 8, 13]]))[:n]]
        a['str_dict'] = {k: ctx.choice(['sand', 'shale', 'Salt & pepper', 'ü', 'x y', '12', 'None']) for k in keys}
        a['extra_metadata'] = {}
    elif kind == 'MdDatum':
        a['md_reference'] = ctx.choice(MD_REFS)
        a['location'] = tuple(float(x) for x in np.round(ctx.rng.uniform(-1.0e5, 1.0e6, 3), ctx.integer(0, 5)))
        a['crs'] = ctx.integer(0, 1)
    elif kind == 'Crs':
        a.update(gen.crs_kwargs(ctx))
        if small:
            for k in ('x_offset', 'y_offset', 'z_offset', 'rotation', 'rotation_units'):
                a.pop(k, None)
            a['x_offset'] = ctx.choice([0.0, 12.5])
            a['xy_units'] = a['z_units'] = ctx.choice(['m', 'ft'])
            a['axis_order'] = 'easting northing'
    return a


def effective_title(kind, a):
    return a['feature'][1]['title'] if a['title'] is None else a['title']


def make(ctx, m, kind, a, pool, reuse = None):
    """Returns a new object with the given attributes, its xml not created; features are created as parts."""
    c = cls(kind)
    em = dict(a['extra_metadata']) or None
    if kind in FEATURES:
        return c(m, feature_name = a['title'], extra_metadata = em, **{k: a[k] for k in FEATURES[kind]})
    if kind in INTERPS:
        fc, farg, attrs, chron = INTERPS[kind]
        kw = {arg: a[k] for k, (arg, _) in attrs.items()}
        f = make(ctx, m, a['feature'][0], a['feature'][1], pool)
        f.create_xml(reuse = True if reuse is None else reuse)
        if kind == 'FaultInterpretation':
            kw['is_normal'] = a['is_listric'] is None
        kw[farg] = f.uuid if farg == 'feature_uuid' else f
        o = c(m, title = a['title'], extra_metadata = em, **kw)
        if chron and a['chrono'] != (None, None):
            setattr(o, chron, a['chrono'])
        if kind == 'FaultInterpretation' and a['throws']:
            o.throw_interpretation_list = list(a['throws'])
        return o
    if kind == 'RockFluidUnitFeature':
        fs = []
        for k in ('top', 'base'):
            f = make(ctx, m, a[k][0], a[k][1], pool)
            f.create_xml(reuse = True if reuse is None else reuse)
            fs.append(f)
        return c(m, feature_name = a['title'], phase = a['phase'], top_boundary_feature = fs[0], base_boundary_feature = fs[1],
                 extra_metadata = em)
    if kind == 'PropertyKind':
        return c(m, title = a['title'], is_abstract = a['is_abstract'], example_uom = a['example_uom'],
                 naming_system = a['naming_system'], parent_property_kind = a['parent_kind'], extra_metadata = em)
    if kind == 'StringLookup':
        return c(m, int_to_str_dict = dict(a['str_dict']), title = a['title'])
    if kind == 'MdDatum':
        return c(m, crs_uuid = pool['crs'][a['crs']], location = a['location'], md_reference = a['md_reference'], title = a['title'],
                 extra_metadata = em)
    if kind == 'Crs':
        return c(m, title = a['title'], extra_metadata = em, **{k: v for k, v in a.items() if k not in ('title', 'extra_metadata')})
    raise AssertionError(kind)


def compare(ctx, o, kind, a, pool, tag = ''):
    ctx.equal(o.title, effective_title(kind, a), tag + 'title', kind = kind)
    ctx.equal({k: v for k, v in (o.extra_metadata or {}).items()}, a['extra_metadata'], tag + 'extra-metadata', kind = kind)
    if kind in FEATURES:
        for k in FEATURES[kind]:
            ctx.equal(getattr(o, k), a[k], tag + kind + '-' + k)
        ctx.equal(o.feature_name, a['title'], tag + 'feature-name')
    elif kind in INTERPS:
        fc, farg, attrs, chron = INTERPS[kind]
        for k in attrs:
            ctx.equal(getattr(o, k), a[k], tag + kind + '-' + k, attributes = str(a))
        if chron:
            got = getattr(o, chron)
            ctx.equal(tuple(None if x is None else str(x) for x in got), a['chrono'], tag + kind + '-has-occurred-during')
        if farg == 'feature_uuid':
            f = cls(a['feature'][0])(o.model, uuid = o.feature_uuid)
        else:
            f = getattr(o, farg)
        compare(ctx, f, a['feature'][0], a['feature'][1], pool, tag + 'feature-')
        if kind == 'FaultInterpretation':
            ctx.equal(bool(o.is_normal), a['is_listric'] is None, tag + 'fault-is-normal')
            t = o.throw_interpretation_list
            ctx.equal([(k, tuple(None if x is None else str(x) for x in p)) for k, p in (t or [])], list(a['throws'] or []),
                      tag + 'fault-throws')
    elif kind == 'RockFluidUnitFeature':
        ctx.equal(o.phase, a['phase'], tag + 'phase')
        compare(ctx, o.top_boundary_feature, *a['top'], pool, tag + 'top-')
        compare(ctx, o.base_boundary_feature, *a['base'], pool, tag + 'base-')
    elif kind == 'PropertyKind':
        for k in ('is_abstract', 'example_uom', 'naming_system', 'parent_kind'):
            ctx.equal(getattr(o, k), a[k], tag + 'property-kind-' + k)
    elif kind == 'StringLookup':
        check_lookup(ctx, o, a['str_dict'], tag)
    elif kind == 'MdDatum':
        ctx.equal(o.md_reference, a['md_reference'], tag + 'md-reference')
        ctx.close(np.array(o.location), np.array(a['location']), tag + 'md-location', tol = 1.0e-6)
        ctx.equal(str(o.crs_uuid), str(pool['crs'][a['crs']]), tag + 'md-crs')
    elif kind == 'Crs':
        for k, v in a.items():
            if k not in ('title', 'extra_metadata'):
                got = getattr(o, k)
                if isinstance(v, float):
                    ctx.close(got, v, tag + 'crs-' + k, tol = 1.0e-6)
                else:
                    ctx.equal(got, v, tag + 'crs-' + k)


def check_lookup(ctx, o, d, tag = ''):
    ctx.equal(dict(o.as_dict()), d, tag + 'lookup-dict')
    for k in list(d) + [min(d) - 1, max(d) + 1, (min(d) + max(d)) // 2, 0, -1]:
        ctx.equal(o.get_string(k), d.get(k), tag + 'lookup-string', key = k, table = d)
    for v in set(d.values()) | {'absent'}:
        got = o.get_index_for_string(v)
        if v not in d.values():
            ctx.check(got is None, tag + 'lookup-absent-string', got = got)
        else:
            ctx.check(got is not None and d.get(int(got)) == v, tag + 'lookup-index', got = got, value = v, table = d)
    ctx.equal([x for x in o.get_list() if x is not None], [d[k] for k in sorted(d)], tag + 'lookup-list')


def persist(ctx):
    import resqpy.model as rq
    m = gen.model(ctx)
    pool = pool_for(ctx, m)
    made = []
    for kind in ctx.subset(KINDS, ctx.integer(2, 6)):
        for _ in range(ctx.integer(1, 2)):
            a = draw(ctx, kind, pool)
            o = make(ctx, m, kind, a, pool, reuse = False)
            kw = {}
            org = None
            if ctx.flag(0.4):
                org = kw['originator'] = ctx.choice(['me', 'A. N. Other', 'é & co'])
            if kind != 'MdDatum':
                kw['reuse'] = False
            before = o.uuid
            root = o.create_xml(**kw)
            ctx.check(root is not None and o.root is root, 'root-not-added', kind = kind)
            ctx.check(o.uuid is before or str(o.uuid) == str(before), 'uuid-changed-without-reuse')
            ctx.log(kind, a)
            compare(ctx, o, kind, a, pool, 'created-')
            made.append((kind, a, o.uuid, org))
    for cycle in range(ctx.integer(1, 2)):
        m.store_epc()
        if ctx.flag(0.25):
            m2 = rq.new_model(ctx.path(f'copy{cycle}.epc'))
            m2.copy_all_parts_from_other_model(m, consolidate = False)
            m2.store_epc()
            m = m2
        m = rq.Model(m.epc_file)
        for kind, a, uuid, org in [made[i] for i in ctx.rng.permutation(len(made))]:
            o = cls(kind)(m, uuid = uuid)
            compare(ctx, o, kind, a, pool)
            ctx.check(o == cls(kind)(m, uuid = uuid), 'not-reflexive', kind = kind)
            if org is not None:
                ctx.equal(o.originator, org, 'originator', kind = kind)
            ctx.equal(m.type_of_uuid(uuid, strip_obj = True), TYPES.get(kind, kind), 'part-type')
            if kind in INTERPS:
                rel = [str(u) for u in m.uuids(related_uuid = uuid)]
                fu = str(m.uuid_for_root(m.referenced_node(next(n for n in o.root if n.tag.endswith('InterpretedFeature')))))
                ctx.check(fu in rel, 'feature-not-related', kind = kind)
    ctx.observe('objects', len(made))
    ctx.sig(sorted((k, str(sorted(a, key = str)), str(a)) for k, a, _, _ in made))


def mutations(ctx, kind, a, pool):
    """List of (attribute changed, altered attributes) such that the objects are not equivalent."""
    out = []

    def add(k, v):
        b = dict(a)
        b[k] = v
        out.append((k, b))

    add('title', alter_title(ctx, effective_title(kind, a)))
    if kind not in ('StringLookup', 'MdDatum'):
        add('extra_metadata', alter_metadata(ctx, a['extra_metadata']))
    if kind in FEATURES:
        for k, options in FEATURES[kind].items():
            add(k, alter_choice(options)(ctx, a[k]))
    elif kind in INTERPS:
        fc, farg, attrs, chron = INTERPS[kind]
        for k, (_, options) in attrs.items():
            if options is None:
                add(k, alter_relations(ctx, a[k]))
            else:
                add(k, alter_choice(options)(ctx, a[k]))
        if chron:
            pairs = [(None, None)] + [(x, y) for x in pool['chrono'] for y in pool['chrono']]
            add('chrono', alter_choice(pairs)(ctx, a['chrono']))
        if kind == 'FaultInterpretation':
            t = list(a['throws'] or [])
            add('throws', t + [('normal', (None, None))] if ctx.flag() or not t else t[:-1] or None)
        sub = ctx.choice(mutations(ctx, a['feature'][0], a['feature'][1], pool))[1]
        if kind == 'HorizonInterpretation' and sub['kind'] != 'horizon':
            pass
        else:
            b = dict(a)
            b['title'] = effective_title(kind, a)  # keep the title of the interpretation
            b['feature'] = (a['feature'][0], sub)
            out.append(('feature', b))
    elif kind == 'RockFluidUnitFeature':
        add('phase', alter_choice(['aquifer', 'gas cap', 'oil column', 'seal'])(ctx, a['phase']))
        for k in ('top', 'base'):
            add(k, (a[k][0], ctx.choice(mutations(ctx, a[k][0], a[k][1], pool))[1]))
    elif kind == 'PropertyKind':
        add('is_abstract', not a['is_abstract'])
        add('example_uom', alter_choice(['m', 'Euc', 'mD', 'kg/m3'])(ctx, a['example_uom']))
        add('naming_system', 'urn:yet:another')
        add('parent_kind', alter_choice(['continuous', 'discrete', 'length', 'permeability rock'])(ctx, a['parent_kind']))
    elif kind == 'StringLookup':
        d = dict(a['str_dict'])
        how = ctx.integer(0, 2)
        k = sorted(d)[ctx.integer(0, len(d) - 1)]
        if how == 0:
            d[k] = d[k] + 'z'
        elif how == 1:
            d[2000] = 'new'
        elif len(d) > 1:
            d.pop(k)
        else:
            d[-9] = 'low'
        add('str_dict', d)
    elif kind == 'MdDatum':
        out.clear()
        add('md_reference', alter_choice(MD_REFS)(ctx, a['md_reference']))
        l = list(a['location'])
        i = ctx.integer(0, 2)
        l[i] = l[i] + ctx.choice([-1.0, 1.0]) * (50.0 + abs(l[i]) * 0.01)
        add('location', tuple(l))
        add('crs', 1 - a['crs'])
    elif kind == 'Crs':
        out.clear()
        for k, v in a.items():
            if k in ('x_offset', 'y_offset'):
                add(k, v + ctx.choice([-50.0, 50.0]))
            elif k == 'z_inc_down':
                add(k, not v)
            elif k == 'axis_order':
                add(k, alter_choice(list(gen.AXIS_ORDERS))(ctx, v))
            elif k in ('xy_units', 'z_units'):
                add(k, alter_choice(['m', 'ft', 'ft[US]', 'km'])(ctx, v))
    return out


def equivalence(ctx):
    """Equivalence of pairs with equal attributes and with one attribute differing, in memory or stored."""
    import resqpy.model as rq
    m = gen.model(ctx)
    pool = pool_for(ctx, m)
    kind = ctx.choice(KINDS)
    a = draw(ctx, kind, pool)

    def instance(attrs, model):
        o = make(ctx, model, kind, attrs, pool, reuse = ctx.flag())
        if ctx.flag():
            o.create_xml(**({} if kind == 'MdDatum' else {'reuse': False}))
        return o

    x, y = instance(a, m), instance(a, m)
    if kind == 'GenericInterpretation':  # identity of the feature matters: share it
        y.feature_uuid = x.feature_uuid
    ctx.check(x == x and not (x != x), 'not-reflexive', kind = kind)
    ctx.check((x == y) and (y == x), 'equal-attributes-not-equivalent', kind = kind, attributes = str(a),
              stored = (x.root is not None, y.root is not None), got = (x == y, y == x))
    ctx.check(x.is_equivalent(y) and y.is_equivalent(x) and not (x != y), 'equal-attributes-not-equivalent', kind = kind)
    ctx.check(not x.is_equivalent(None), 'equivalent-to-none', kind = kind)
    stored = x.root is not None and ctx.flag(0.4)
    if stored:
        m.store_epc()
        x = cls(kind)(rq.Model(m.epc_file), uuid = x.uuid)
        x2 = x
        ctx.check((x2 == y) and (y == x2), 'stored-not-equivalent', kind = kind, attributes = str(a))
    for k, b in mutations(ctx, kind, a, pool):
        z = instance(b, m)
        if kind == 'GenericInterpretation' and k != 'feature':
            z.feature_uuid = x.feature_uuid
        ctx.check(not (x == z) and not (z == x), 'differing-attribute-equivalent', kind = kind, attribute = k, a = str(a), b = str(b),
                  got = (x == z, z == x))
        ctx.check(x != z and z != x, 'differing-attribute-not-unequal', kind = kind, attribute = k)
        if k == 'extra_metadata' and kind in list(FEATURES) + list(INTERPS):
            ctx.check(x.is_equivalent(z, check_extra_metadata = False), 'metadata-considered-despite-request', kind = kind)
        ctx.observe('mutants')
    # objects of other classes with the same title are not equivalent
    other = ctx.choice([f for f in FEATURES if f != kind and not FEATURES[f]])
    if kind in list(FEATURES) + list(INTERPS) + ['RockFluidUnitFeature']:
        w = cls(other)(m, feature_name = effective_title(kind, a), extra_metadata = dict(a['extra_metadata']) or None)
        ctx.check(not (x == w) and not (w == x), 'other-class-equivalent', kind = kind, other = other)
    ctx.sig(kind, stored, str(a))


def freeze(v):
    if isinstance(v, dict):
        return tuple(sorted((k, freeze(w)) for k, w in v.items()))
    if isinstance(v, (list, tuple)):
        return tuple(freeze(w) for w in v)
    return v


def key_for(kind, a):
    b = dict(a)
    b['title'] = effective_title(kind, a)
    if b.get('boundary_relation_list'):
        b['boundary_relation_list'] = tuple(sorted(b['boundary_relation_list']))
    if kind == 'Crs':
        b.pop('title')
    if kind == 'FaultInterpretation':
        b['throws'] = b['throws'] or None
    return freeze(b)


def reuse(ctx):
    """A history of creations, with and without reuse, against a shadow of what exists."""
    import resqpy.model as rq
    m = gen.model(ctx, crs = False)
    pool = pool_for(ctx, m)
    kinds = [k for k in KINDS if k not in ('MdDatum',)]
    # features made implicitly for other kinds must not be confused with those of the shadow
    alone = list(FEATURES) + ['PropertyKind', 'StringLookup', 'Crs']
    kinds = [k for k in kinds if k in alone] if ctx.flag(0.5) else  \
        [k for k in kinds if k not in FEATURES]
    kinds = ctx.subset(kinds, ctx.integer(1, 3))
    bases = {k: [draw(ctx, k, pool, small = True) for _ in range(3)] for k in kinds}
    shadow = {k: {} for k in kinds}  # key: list of uuids
    features = {}
    steps = ctx.integer(6, 14)
    for step in range(steps):
        if ctx.flag(0.1):
            m.store_epc()
            m = rq.Model(m.epc_file)
        kind = ctx.choice(kinds)
        base = ctx.choice(bases[kind])
        if ctx.flag(0.35):
            mu = [b for k, b in mutations(ctx, kind, base, pool)]
            a = ctx.choice(mu)
            bases[kind].append(a)
        else:
            a = base
        if kind == 'Crs' and a['title'] != base['title']:
            continue
        key = key_for(kind, a)
        o = make(ctx, m, kind, a, pool, reuse = True)
        ident = None
        if kind == 'GenericInterpretation':
            key = (key, str(o.feature_uuid))
        known = shadow[kind].get(key, [])
        t = TYPES.get(kind, kind)
        n = len(m.uuids(obj_type = t))
        first = str(o.uuid)
        use = ctx.flag(0.75)
        root = o.create_xml(reuse = use)
        after = [str(u) for u in m.uuids(obj_type = t)]
        ctx.log(step, kind, 'reuse', use, 'known', len(known), a)
        if use and known:
            ctx.equal(len(after), n, 'reuse-duplicated', kind = kind, attributes = str(a))
            ctx.check(str(o.uuid) in known, 'reuse-wrong-object', kind = kind, attributes = str(a))
            ctx.observe('reused')
        else:
            ctx.equal(len(after), n + 1, 'creation-count', kind = kind, attributes = str(a), use = use)
            ctx.equal(str(o.uuid), first, 'new-object-uuid-changed', kind = kind)
            ctx.check(first in after, 'new-object-missing')
            shadow[kind].setdefault(key, []).append(first)
            ctx.observe('created')
        ctx.check(root is not None and root is m.root(uuid = o.uuid), 'create-xml-root', kind = kind)
        if kind != 'Crs':
            compare(ctx, cls(kind)(m, uuid = o.uuid), kind, a, pool, 'reused-') if not a.get('boundary_relation_list') else None
        # creating again does nothing
        if ctx.flag(0.3):
            n = len(m.uuids())
            o.create_xml(reuse = True)
            ctx.equal(len(m.uuids()), n, 'second-create-xml-added', kind = kind)
    ctx.sig(kinds, steps, sorted(len(v) for k in kinds for v in shadow[k].values()))


def lookup_edits(ctx):
    """String lookup under a history of changes."""
    import resqpy.model as rq
    import resqpy.property as rqp
    m = gen.model(ctx, crs = False)
    d = {}
    if ctx.flag(0.7):
        d = draw(ctx, 'StringLookup', None)['str_dict']
    o = rqp.StringLookup(m, int_to_str_dict = dict(d) if d else None, title = 'table')
    for _ in range(ctx.integer(1, 12)):
        k = ctx.choice([ctx.integer(-5, 12), ctx.integer(0, 60), 100, 1000])
        if d and ctx.flag(0.4):
            k = sorted(d)[ctx.integer(0, len(d) - 1)]
        v = ctx.choice(['a', 'b', 'sand', 'ü <&>'])
        o.set_string(k, v)
        d[k] = v
        check_lookup(ctx, o, d, 'edited-')
    o.create_xml()
    m.store_epc()
    o = rqp.StringLookup(rq.Model(m.epc_file), uuid = o.uuid)
    check_lookup(ctx, o, d, 'stored-')
    ctx.sig(d)


SCENARIOS = [
    Scenario(persist, 160),
    Scenario(equivalence, 300),
    Scenario(reuse, 160),
    Scenario(lookup_edits, 60),
]
