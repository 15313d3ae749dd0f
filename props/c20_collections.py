"""C20: selecting from, inheriting between and assembling over property collections, against a brute force account of the members."""

import numpy as np

from props.spec import spec
from rv import gen, objects, props
from rv.core import Scenario, Skip

PROP = spec('C20')

KINDS = ['porosity', 'net to gross ratio', 'rock permeability', 'saturation', 'Own Kind', 'pressure']
DISCRETE_KINDS = ['index', 'facies', 'region initialization', 'Own Count']
FACETS = [(None, None), (None, None), ('direction', 'I'), ('direction', 'J'), ('direction', 'K'), ('what', 'oil'), ('what', 'gas'), ('netgross', 'net')]
TITLES = ['SW', 'SWAT', 'Perm X', 'perm x', 'X', 'X perm', 'POR', 'ERR P']
UOMS = ['m3/m3', '%', 'mD', 'm', 'ft']


def members(ctx, b, pool, sups, n, **fixed):
    """Adds n properties with attributes from a small alphabet; returns list of dictionaries."""
    import resqpy.property as rqp
    out = []
    for i in range(n):
        sup = ctx.choice(sups)
        a = {'support_uuid': str(sup.uuid)}
        style = fixed.get('style') or ctx.choice(['continuous', 'continuous', 'discrete', 'categorical', 'points'])
        a['style'] = style
        a['indexable'] = fixed.get('indexable') or (sup.default if ctx.flag(0.6) else ctx.choice(list(sup.shapes)))
        a['property_kind'] = fixed.get('kind') or ('length' if style == 'points' else ctx.choice(KINDS if style == 'continuous' else DISCRETE_KINDS))
        ft, f = (None, None) if style == 'points' else ctx.choice(FACETS)
        if a['indexable'] == 'faces' and sup.kind in ('grid', 'regular'):
            ft, f = None, None  # a direction would change the shape
        a['facet_type'], a['facet'] = ft, f
        a['citation_title'] = fixed.get('title') or ctx.choice(TITLES)
        a['count'] = fixed.get('count') or ctx.choice([1, 1, 1, 2, 3])
        a['continuous'], a['points'] = style in ('continuous', 'points'), style == 'points'
        a['categorical'] = style == 'categorical'
        a['uom'] = ctx.choice(UOMS) if style == 'continuous' else None
        a['realization'] = ctx.choice([None, 0, 1, 2])
        a['time_series_uuid'], a['time_index'] = None, None
        if ctx.flag(0.4):
            u, steps = pool.a_series()
            a['time_series_uuid'], a['time_index'] = str(u), ctx.integer(0, min(steps - 1, 2))
        a['string_lookup_uuid'] = str(pool.a_lookup()) if style == 'categorical' else None
        a['const_value'] = None
        a['extra'] = {}
        if ctx.flag(0.3):
            a['extra'] = {k: ctx.choice(['1', '2']) for k in ctx.subset(['well', 'phase', 'step'])}
        out.append(store(ctx, b.m, sup, a))
    return out


def store(ctx, m, sup, a, array = None):
    import resqpy.property as rqp
    shape = tuple(sup.shapes[a['indexable']]) + ((a['count'],) if a['count'] > 1 else ()) + ((3,) if a['points'] else ())
    if array is not None:
        x = array
    elif a['continuous']:
        x = ctx.rng.normal(size = shape)
    else:
        x = ctx.rng.integers(0, 5, shape)
    if a['style'] in ('continuous', 'discrete') and array is None and ctx.flag(0.2):
        a['const_value'] = ctx.choice([0, 1, 2]) if a['style'] == 'discrete' else ctx.choice([0.0, 0.5, 1.0])
        x = np.full(shape, a['const_value'])
    a['array'] = x
    o = rqp.Property.from_array(m,
                                None if a['const_value'] is not None else x,
                                source_info = None,
                                keyword = a['citation_title'],
                                support_uuid = sup.uuid,
                                property_kind = a['property_kind'],
                                indexable_element = a['indexable'],
                                facet_type = a['facet_type'],
                                facet = a['facet'],
                                discrete = not a['continuous'],
                                uom = a['uom'],
                                null_value = a.get('null_value'),
                                time_series_uuid = a['time_series_uuid'],
                                time_index = a['time_index'],
                                realization = a['realization'],
                                count = a['count'],
                                points = a['points'],
                                string_lookup_uuid = a['string_lookup_uuid'],
                                const_value = a['const_value'],
                                extra_metadata = dict(a['extra']))
    a['uuid'] = str(o.uuid)
    a['part'] = m.part_for_uuid(o.uuid)
    return a


def setup(ctx, kinds = None, n_sup = 1, **kw):
    m = gen.model(ctx)
    b = objects.Builder(ctx, m)
    sups = []
    for _ in range(n_sup):
        for t in range(6):
            s = props.support(ctx, b, kinds and ctx.choice(kinds))
            if max(np.prod(v) for v in s.shapes.values()) < 4000:
                break
        else:
            raise Skip('large support')
        if all(str(s.uuid) != str(t.uuid) for t in sups):
            sups.append(s)
    return m, b, props.Pool(ctx, b), sups


def same_kind(a, b):
    perm = ('rock permeability', 'permeability rock', 'permeability')
    return a == b or (a in perm[:2] and b in perm[:2])


def passes(a, sel):
    for k, v in sel.items():
        if k in ('title_mode', 'multiple_handling'):
            continue
        if k == 'extra':
            if any(a['extra'].get(x) != y for x, y in v.items()):
                return False
            continue
        if k == 'related_uuid':
            if v not in (a['support_uuid'], a['time_series_uuid'], a['string_lookup_uuid']):
                return False
            continue
        g = a['citation_title' if k == 'title' else k]
        if k in ('title', 'citation_title'):
            mode = sel.get('title_mode') or 'is'
            ok = {'is': g == v, 'starts': g.startswith(v), 'ends': g.endswith(v), 'contains': v in g, 'is not': g != v,
                  'does not start': not g.startswith(v), 'does not end': not g.endswith(v), 'does not contain': v not in g}[mode]
            if not ok:
                return False
        elif isinstance(v, str) and v == '*':
            if g is None:
                return False
        elif isinstance(v, str) and v == 'none':
            if g is not None:
                return False
        elif k == 'property_kind':
            if not same_kind(g, v):
                return False
        elif g is None or g != v:
            return False
    return True


KEYS = ['realization', 'support_uuid', 'continuous', 'points', 'count', 'indexable', 'property_kind', 'facet', 'citation_title', 'time_series_uuid',
        'time_index', 'uom', 'string_lookup_uuid', 'categorical', 'related_uuid', 'const_value']
STARS = ['support_uuid', 'property_kind', 'realization', 'facet', 'time_series_uuid', 'time_index', 'uom', 'string_lookup_uuid', 'const_value', 'facet_type']


def selection(ctx, mem, keys, stars = True):
    """Random selection arguments, usually satisfied by some member."""
    a = ctx.choice(mem)
    sel = {}
    for k in ctx.subset(keys, ctx.choice([0, 1, 1, 2, 2, 3, 4])):
        if k == 'related_uuid':
            v = ctx.choice([x for x in (a['support_uuid'], a['time_series_uuid'], a['string_lookup_uuid']) if x])
        elif k == 'extra':
            v = {x: y for x, y in a['extra'].items() if ctx.flag(0.8)}
            if ctx.flag(0.2):
                v['phase'] = '2'
            if not v:
                continue
        elif k == 'citation_title':
            mode = ctx.choice([None, 'is', 'starts', 'ends', 'contains', 'is not', 'does not start', 'does not end', 'does not contain'])
            v = a['citation_title']
            if mode not in (None, 'is', 'is not'):
                v = ctx.choice([v, v[:1], v[-1:], v[:2], v[-2:], v[1:] or v])
            if mode is not None:
                sel['title_mode'] = mode
        else:
            v = (a if ctx.flag(0.85) else ctx.choice(mem))[k]
            if stars and k in STARS and ctx.flag(0.2):
                v = ctx.choice(['*', 'none'])
            if v is None:
                continue
        if k == 'facet':
            sel['facet_type'] = a['facet_type'] if v not in ('*', 'none') else v
            if sel['facet_type'] is None:
                del sel['facet_type']
                continue
        if k.endswith('_uuid') and v not in ('*', 'none') and ctx.flag():
            import resqpy.olio.uuid as bu
            sel['~' + k] = bu.uuid_from_string(v)
        sel[k] = v
    native = {k: sel.pop('~' + k) for k in list(sel) if '~' + k in sel}
    return sel, {**sel, **native}


def select(ctx):
    """Selections by attributes return exactly the matching members."""
    import resqpy.property as rqp
    m, b, pool, sups = setup(ctx, n_sup = ctx.choice([1, 1, 1, 2]))
    mem = members(ctx, b, pool, sups, ctx.integer(4, 14))
    model = m
    if ctx.flag(0.4):
        import resqpy.model as rq
        m.store_epc()
        m.h5_release()
        model = rq.Model(m.epc_file)
    if len(sups) == 1:
        pc = rqp.PropertyCollection(model_support(model, sups[0].uuid)) if ctx.flag(0.8) else None
    else:
        pc = None
    if pc is None:
        pc = rqp.PropertyCollection()
        pc.set_support(support_uuid = sups[0].uuid, model = model)
        pc.add_parts_list_to_dict([a['part'] for a in mem])
    other_props = [p for p in pc.parts() if p not in [a['part'] for a in mem]]
    pc.remove_parts_list_from_dict(other_props)  # those made with the support itself
    ctx.equal(sorted(pc.parts()), sorted(a['part'] for a in mem), 'members', 'collection for the support')
    ctx.equal(pc.number_of_parts(), len(mem), 'members', 'number of parts')
    by = {a['part']: a for a in mem}
    for p in pc.parts():
        ctx.equal(str(pc.support_uuid_for_part(p)), by[p]['support_uuid'], 'support', 'support of member')
    ctx.sig(len(mem), len(sups), sups[0].kind)
    for k in range(ctx.integer(6, 16)):
        how = ctx.choice(['parts', 'singleton', 'version', 'inherit', 'array', 'version', 'model'])
        keys = list(KEYS)
        if how in ('version', 'inherit'):
            keys += ['extra', 'extra', 'uuid']
        elif how in ('singleton', 'array'):
            keys.append('uuid')
        if how == 'array':
            keys.remove('const_value')
        if len(sups) > 1:
            keys.remove('support_uuid')
        sel, args = selection(ctx, mem, keys)
        if how == 'inherit' and sel.get('support_uuid') in ('*', 'none'):
            continue
        exp = [a['part'] for a in mem if passes(a, sel)]
        if how == 'model':
            sel, args = {}, {}
            a = ctx.choice(mem)
            obj_type = {'continuous': 'ContinuousProperty', 'discrete': 'DiscreteProperty', 'categorical': 'Categorical', 'points': 'PointsProperty'}[a['style']]
            if ctx.flag():
                args['property_kind'] = sel['property_kind'] = a['property_kind']
            if ctx.flag(0.7) and a['style'] != 'points':
                args['facet_type'], args['facet'] = (a['facet_type'] or 'none', a['facet'] or 'none')
                if a['facet'] and ctx.flag(0.2):
                    args['facet'] = '*'
            if ctx.flag(0.4):
                args['related_uuid'] = sel['related_uuid'] = a['support_uuid']
            sel.update({k: v for k, v in args.items() if k.startswith('facet')})
            exp = [x['part'] for x in mem if passes(x, sel) and x['style'] == a['style']]
            parts = model.parts()
            ctx.rng.shuffle(parts)
            ctx.observe('model selection')
            got = rqp.property_parts(model, obj_type, parts_list = [p for p in parts if p in by], **args)
            ctx.equal(sorted(got), sorted(exp), 'property-parts', 'property parts of model', args = args, obj_type = obj_type)
            if len(exp) < 2:
                g = rqp.property_part(model, obj_type, parts_list = [p for p in parts if p in by], **args)
                ctx.equal(g, exp[0] if exp else None, 'property-parts', 'property part of model', args = args)
            else:
                ctx.raises(AssertionError, lambda: rqp.property_part(model, obj_type, parts_list = list(by), **args), 'property-parts-multiple')
            continue
        ctx.observe(f'{how} of ' + ('many' if len(exp) > 1 else str(len(exp))))
        if how == 'parts':
            if 'citation_title' in args and ctx.flag():
                args['title'] = args.pop('citation_title')
            ctx.equal(pc.selective_parts_list(**args), exp_order(pc, exp), 'selection', 'selective_parts_list', args = str(args))
        elif how == 'version':
            if 'citation_title' in args and ctx.flag():
                args['title'] = args.pop('citation_title')
            v = rqp.selective_version_of_collection(pc, **args)
            ctx.equal(v.parts(), exp_order(pc, exp), 'selection', 'selective version', args = str(args))
            for p in ctx.subset(exp, min(2, len(exp))):
                ctx.equal(v.uuid_for_part(p), pc.uuid_for_part(p), 'selection-metadata', 'uuid in view')
                ctx.equal(v.citation_title_for_part(p), by[p]['citation_title'], 'selection-metadata', 'title in view')
                ctx.equal(v.uom_for_part(p), by[p]['uom'], 'selection-metadata', 'uom in view')
        elif how == 'inherit':
            v = rqp.PropertyCollection()
            mode = args.pop('title_mode', None)
            if 'citation_title' in args:
                args['citation_title_match_mode'] = mode
            v.inherit_parts_selectively_from_other_collection(pc, **args)
            ctx.equal(v.parts(), exp_order(pc, exp), 'selection', 'inherited selection', args = str(args))
            if exp:
                ctx.raises(AssertionError, lambda: v.inherit_parts_selectively_from_other_collection(pc, **args), 'clash')
                v.inherit_parts_selectively_from_other_collection(pc, ignore_clashes = True, **args)
                ctx.equal(v.parts(), exp_order(pc, exp), 'selection', 'inherited again', args = str(args))
            v.inherit_parts_from_other_collection(pc, ignore_clashes = True)
            ctx.equal(sorted(v.parts()), sorted(by), 'selection', 'inherited all')
        elif how == 'singleton':
            mh = ctx.choice(['exception', 'none', 'first', 'oldest', 'newest'])
            if len(exp) > 1 and mh == 'exception':
                ctx.raises(AssertionError, lambda: pc.singleton(**args), 'singleton-multiple')
            else:
                g = pc.singleton(multiple_handling = mh, **args)
                if not exp or (len(exp) > 1 and mh == 'none'):
                    ctx.check(g is None, 'singleton', 'singleton should be None', got = g, args = str(args), n = len(exp))
                else:
                    ctx.check(g in exp, 'singleton', 'singleton is not a matching member', got = g, args = str(args), exp = exp)
                    if mh == 'first':
                        ctx.equal(g, exp_order(pc, exp)[0], 'singleton', 'first')
        else:
            if len(exp) == 1:
                if len(sups) > 1 and by[exp[0]]['const_value'] is not None:
                    continue  # shape of a constant array needs a single support for the collection
                x = pc.single_array_ref(**args)
                ctx.close(np.asarray(x, dtype = float), np.asarray(by[exp[0]]['array'], dtype = float), 'single-array', rtol = 1.0e-6)
            elif not exp:
                ctx.check(pc.single_array_ref(**args) is None, 'single-array', 'array for no match', args = str(args))
            else:
                ctx.raises(AssertionError, lambda: pc.single_array_ref(**args), 'single-array-multiple')
    # lists over the whole collection
    for got, key in ((pc.property_kind_list(), 'property_kind'), (pc.facet_list(), 'facet'), (pc.facet_type_list(), 'facet_type'),
                     (pc.realization_list(), 'realization'), (pc.time_index_list(), 'time_index'), (pc.uom_list(), 'uom'),
                     (pc.unique_indexable_element_list(sort_list = True), 'indexable'), ([str(u) for u in pc.time_series_uuid_list()], 'time_series_uuid'),
                     ([str(u) for u in pc.string_lookup_uuid_list()], 'string_lookup_uuid')):
        exp = sorted({a[key] for a in mem if a[key] is not None})
        ctx.equal(sorted(got) if key.endswith('uuid') else list(got), exp, 'lists', 'unique list', key = key)
    ctx.equal([str(u) for u in pc.uuids()], [by[p]['uuid'] for p in pc.parts()], 'lists', 'uuids')
    ctx.equal(pc.titles(), [by[p]['citation_title'] for p in pc.parts()], 'lists', 'titles')
    ctx.equal(bool(pc.all_continuous()), all(a['continuous'] for a in mem), 'flags', 'all continuous')
    ctx.equal(bool(pc.all_discrete()), not any(a['continuous'] for a in mem), 'flags', 'all discrete')
    ctx.equal(bool(pc.all_count_one()), all(a['count'] == 1 for a in mem), 'flags', 'all count one')
    flags(ctx, pc, mem)
    if len(sups) == 1:
        keys_check(ctx, model, sups[0], mem, pc, other_props)
        sets_check(ctx, model, sups[0], mem, pc)
    series_check(ctx, pc, mem)


def exp_order(pc, exp):
    return [p for p in pc.parts() if p in exp]


def model_support(model, uuid):
    from rv import zoo
    import resqpy.property as rqp
    pc = rqp.PropertyCollection()
    pc.set_support(support_uuid = uuid, model = model)
    return pc.support


def flags(ctx, pc, mem):
    ctx.equal(bool(pc.establish_has_single_property_kind()), len({a['property_kind'] for a in mem}) < 2, 'flags', 'single property kind')
    ctx.equal(bool(pc.has_single_property_kind()), len({a['property_kind'] for a in mem}) < 2, 'flags', 'single property kind')
    ctx.equal(bool(pc.establish_has_single_indexable_element()), len({a['indexable'] for a in mem}) < 2, 'flags', 'single indexable element')
    ctx.equal(bool(pc.establish_has_multiple_realizations()), len({a['realization'] for a in mem if a['realization'] is not None}) > 1, 'flags',
              'multiple realizations')
    uoms = [a['uom'] for a in mem]
    if None not in uoms or len(set(uoms)) == 1:
        ctx.equal(bool(pc.establish_has_single_uom()), len(set(uoms)) < 2, 'flags', 'single uom')
    one = all(a['time_index'] is not None for a in mem) and len({(a['time_index'], a['time_series_uuid']) for a in mem}) == 1
    ctx.equal(pc.establish_time_set_kind(), 'single time' if one else 'not a time set', 'flags', 'time set kind')


def keys_check(ctx, model, sup, mem, pc, others):
    """Attribute access to a property set."""
    import resqpy.property as rqp
    mode = ctx.choice(['pk', 'title'])
    ie = ctx.choice([None, sup.default])
    handling = ctx.choice(['ignore', 'warn', 'exception'])

    def key(a):
        k = a['property_kind' if mode == 'pk' else 'citation_title']
        if mode == 'pk':
            if ie is not None and a['indexable'] != ie:
                k += '_' + a['indexable']
            if a['facet'] is not None:
                k += '_' + a['facet']
        k = k.replace(' ', '_')
        if a['time_index'] is not None:
            k += f'_t{a["time_index"]}'
        if a['realization'] is not None:
            k += f'_r{a["realization"]}'
        return k

    support = model_support(model, sup.uuid)
    by = {a['part']: a for a in mem}
    others = [p for p in rqp.PropertyCollection(support).parts() if p not in by]
    keys = [key(a) for a in mem]
    make = lambda: rqp.AttributePropertySet(support = support, key_mode = mode, indexable = ie, multiple_handling = handling)
    if handling == 'exception' and len(set(keys)) < len(keys):
        ctx.raises(KeyError, make, 'aps-duplicate')
        return
    if others and handling == 'exception':
        return
    aps = make()
    ctx.equal(len(aps), len(mem) + len(others), 'aps', 'number of members')
    ctx.equal(sorted(aps.keys()) if not others else sorted(set(keys) & set(aps.keys())), sorted(keys) if not others else sorted(set(keys)), 'aps', 'keys')
    if others:
        return
    for k in sorted(set(keys)):
        o = getattr(aps, k)
        first = [p for p in aps.parts() if key(by[p]) == k][0]
        a = by[first]
        ctx.equal(o.part, first, 'aps', 'part for key', key = k)
        ctx.equal(o.key, k, 'aps', 'key')
        s = lambda u: None if u is None else str(u)
        got = dict(uuid = s(o.uuid), property_kind = o.property_kind, facet_type = o.facet_type, facet = o.facet, indexable = o.indexable_element,
                   continuous = o.is_continuous, categorical = o.is_categorical, points = o.is_points, count = o.count, uom = o.uom,
                   realization = o.realization, time_index = o.time_index, citation_title = o.title, const_value = o.constant_value,
                   support_uuid = s(o.support_uuid), string_lookup_uuid = s(o.string_lookup_uuid), time_series_uuid = s(o.time_series_uuid))
        for x, g in got.items():
            ctx.equal(g, a[x], 'aps-attribute', 'attribute', name = x, key = k)
        ctx.equal(bool(o.is_discrete), a['style'] == 'discrete', 'aps-attribute', 'is discrete')
        ctx.close(np.asarray(o.values, dtype = float), np.asarray(a['array'], dtype = float), 'aps-values', rtol = 1.0e-6)
        v = o.values
        v[...] = 0
        ctx.close(np.asarray(o.array_ref, dtype = float), np.asarray(a['array'], dtype = float), 'aps-values', rtol = 1.0e-6)
        ctx.equal((o.citation_title, o.indexable), (a['citation_title'], a['indexable']), 'aps-attribute', 'synonyms')
        ctx.equal({x: y for x, y in (o.extra_metadata or {}).items() if x != 'source'}, a['extra'], 'aps-attribute', 'extra metadata')
        ctx.equal(o.extra, o.extra_metadata, 'aps-attribute', 'extra')
        ctx.equal(o.source, (o.extra_metadata or {}).get('source'), 'aps-attribute', 'source')
        ctx.equal(str(o.node.attrib['uuid']), a['uuid'], 'aps-attribute', 'node')
        ctx.check(a['style'] == 'discrete' or a['style'] == 'categorical' or o.null_value is None or np.isnan(o.null_value), 'aps-attribute', 'null value of real valued property')
        if a['style'] in ('continuous', 'discrete') and a['array'].size:
            x = np.asarray(a['array'], dtype = float)
            for b, e in ((o.min_value, np.nanmin(x)), (o.max_value, np.nanmax(x))):
                ctx.check(b is None or abs(b - e) <= 1.0e-6 * (1.0 + abs(e)), 'aps-range', 'minimum or maximum', got = b, expect = e)
        text = a['property_kind'] + ('' if a['facet'] is None else ': ' + a['facet'])
        text += '' if a['time_index'] is None else f'; timestep: {a["time_index"]}'
        ctx.equal(aps.part_str(first, include_citation_title = False), text, 'part-text')
        ctx.equal(aps.part_str(first), f'{text} ({a["citation_title"]})' if a['citation_title'] else text, 'part-text')
        ctx.equal(aps.title_for_part(first), a['citation_title'], 'part-text', 'title')
        ctx.equal(aps.part_filename(first), a['property_kind'].replace(' ', '_') + ('' if a['facet'] is None else '_' + a['facet']) +
                  ('' if a['time_index'] is None else f'_ts_{a["time_index"]}'), 'part-text', 'file name')
    if len(set(keys)) == len(keys):
        ctx.equal(sorted(o.part for o in aps.properties()), sorted(by), 'aps', 'properties')
        ctx.equal(sorted((k, o.part) for k, o in aps.items()), sorted((key(a), a['part']) for a in mem), 'aps', 'items')
    if sup.kind in ('grid', 'regular') and mem:
        ctx.equal(str(aps.grid_for_part(aps.parts()[0]).uuid), str(sup.uuid), 'aps', 'grid of property')


def sets_check(ctx, model, sup, mem, pc):
    """A property set holds the members it was made from."""
    import resqpy.property as rqp
    some = ctx.subset([a['part'] for a in mem])
    if not some:
        return
    c = rqp.PropertyCollection()
    c.set_support(support_uuid = sup.uuid, model = model)
    c.add_parts_list_to_dict(some)
    shadow = [a for a in mem if a['part'] in some]
    node = c.create_property_set_xml(title = 'a set')
    again = rqp.PropertyCollection(support = model_support(model, sup.uuid), property_set_root = node)
    ctx.equal(sorted(again.parts()), sorted(some), 'property-set', 'members of property set')
    ctx.equal(again.has_single_property_kind(), len({a['property_kind'] for a in shadow}) < 2, 'property-set', 'single property kind')
    ctx.equal(again.has_multiple_realizations(), len({a['realization'] for a in shadow if a['realization'] is not None}) > 1, 'property-set', 'realizations')
    one = all(a['time_index'] is not None for a in shadow) and len({(a['time_index'], a['time_series_uuid']) for a in shadow}) == 1
    ctx.equal(again.time_set_kind(), 'single time' if one else 'not a time set', 'property-set', 'time set kind')
    members_ = model.parts(obj_type = 'PropertySet')
    ctx.check(len(members_) >= 1, 'property-set', 'property set not in model')
    for p in some:
        rel = model.parts(parts_list = [p], related_uuid = node.attrib['uuid'])
        ctx.equal(rel, [p], 'property-set', 'relationship with member')


def series_check(ctx, pc, mem):
    """Similar members over time, facet or realization."""
    import resqpy.property as rqp
    a = ctx.choice(mem)
    same = lambda keys: [x['part'] for x in mem if all(x[k] == a[k] or (k == 'property_kind' and same_kind(x[k], a[k])) for k in keys)]
    base = ['support_uuid', 'continuous', 'points', 'indexable', 'property_kind', 'citation_title']
    # an attribute which the example does not have does not constrain
    has = lambda keys: [k for k in keys if a[k] is not None]
    v = rqp.PropertyCollection()
    v.inherit_similar_parts_for_realizations_from_other_collection(pc, a['part'])
    ctx.equal(v.parts(), exp_order(pc, same(base + has(['facet_type', 'facet', 'time_series_uuid', 'time_index']))), 'similar-realizations',
              'members inherited over realizations', example = str({k: q for k, q in a.items() if k != 'array'}))
    if a['style'] != 'points':
        v = rqp.PropertyCollection()
        v.inherit_similar_parts_for_facets_from_other_collection(pc, a['part'])
        ctx.equal(v.parts(), exp_order(pc, same(base + has(['realization', 'time_series_uuid', 'time_index']))), 'similar-facets',
                  'members inherited over facets')
    if a['time_series_uuid'] is not None:
        v = rqp.PropertyCollection()
        v.inherit_similar_parts_for_time_series_from_other_collection(pc, a['part'])
        exp = exp_order(pc, same(base + has(['realization', 'facet_type', 'facet', 'time_series_uuid'])))
        ctx.equal(v.parts(), exp, 'similar-time', 'members inherited over time')
        v = rqp.property_over_time_series_from_collection(pc, a['part'])
        ctx.equal(v.parts(), exp, 'similar-time', 'members of view over time')


def assemble(ctx):
    """Arrays assembled over facets, realizations or time indices."""
    import resqpy.property as rqp
    m, b, pool, sups = setup(ctx)
    sup = sups[0]
    over = ctx.choice(['facet', 'realization', 'time_index'])
    style = ctx.choice(['continuous', 'discrete'] + ['points'] * (over != 'facet'))
    ie = ctx.choice(list(sup.shapes))
    a0 = {'support_uuid': str(sup.uuid), 'style': style, 'indexable': ie, 'property_kind': {'continuous': 'saturation', 'discrete': 'index', 'points': 'length'}[style],
          'facet_type': None, 'facet': None, 'citation_title': 'x', 'count': 1, 'continuous': style != 'discrete', 'points': style == 'points',
          'categorical': False, 'uom': 'm3/m3' if style == 'continuous' else None, 'realization': None, 'time_series_uuid': None, 'time_index': None,
          'string_lookup_uuid': None, 'const_value': None, 'extra': {}}
    n = ctx.integer(1, 6)
    series, steps = pool.a_series()
    if over == 'facet':
        values = [str(f) for f in ctx.subset(['oil', 'gas', 'water', 'condensate', 'total', 'salt'], n)]
    elif over == 'realization':
        values = [int(v) for v in ctx.subset(list(range(0, ctx.choice([12, 12, 70]))), n)]
    else:
        values = [int(v) for v in ctx.subset(list(range(0, steps)), min(n, steps))]
    ctx.rng.shuffle(values)
    arrays = {}
    for v in values:
        a = dict(a0, **{over: v})
        if over == 'facet':
            a['facet_type'] = 'what'
        if over == 'time_index':
            a['time_series_uuid'] = str(series)
        arrays[v] = store(ctx, m, sup, a)['array']
    if ctx.flag(0.3):
        import resqpy.model as rq
        m.store_epc()
        m.h5_release()
        m = rq.Model(m.epc_file)
    pc = rqp.PropertyCollection(model_support(m, sup.uuid))
    pc.remove_parts_list_from_dict([p for p in pc.parts() if pc.citation_title_for_part(p) != 'x' or pc.element_for_part(p, 0 if over == 'realization' else
                                                                                             9 if over == 'facet' else 12) is None])
    ctx.equal(pc.number_of_parts(), len(values), 'members', 'collection for assembly')
    ctx.sig(over, style, ie, sup.kind, len(values))
    kw = {}
    if ctx.flag(0.4):
        kw['use_32_bit'] = ctx.flag()
    if ctx.flag(0.3):
        kw['indexable_element'] = ie
    rtol = 1.0e-6
    for _ in range(2):
        if over == 'facet':
            keys = sorted(values)
            x = pc.facets_array_ref(**kw)
            ctx.equal(pc.facet_list(), keys, 'assembled', 'facet list')
            exp = np.stack([arrays[k] for k in keys])
        else:
            f = pc.realizations_array_ref if over == 'realization' else pc.time_series_array_ref
            fill = ctx.flag()
            if not ctx.flag(0.4) or not fill:
                kw['fill_missing'] = fill
            else:
                kw.pop('fill_missing', None)
                fill = True
            value = ctx.choice([None, -7, 5])
            kw['fill_value'] = value
            if value is None and ctx.flag():
                del kw['fill_value']
            x = f(**kw)
            if fill:
                blank = value if value is not None else np.nan if a0['continuous'] else -1
                exp = np.stack([arrays[k] if k in arrays else np.full(arrays[values[0]].shape, blank) for k in range(max(values) + 1)])
            else:
                exp = np.stack([arrays[k] for k in sorted(values)])
        ctx.equal(tuple(x.shape), tuple(exp.shape), 'assembled-shape', 'shape', over = over, kw = kw)
        ctx.equal(x.dtype.kind, 'f' if a0['continuous'] else 'i', 'assembled-type', 'type')
        ctx.equal(x.dtype.itemsize, 4 if kw.get('use_32_bit') else 8, 'assembled-type', 'size')
        ctx.close(x.astype(float), exp.astype(float), 'assembled-values', rtol = rtol, over = over, kw = str(kw))
        ctx.observe(f'{over} {style}')
    ctx.equal(pc.number_of_parts(), len(values), 'members', 'collection after assembly')
    # distinct numbers for the members of a coherent collection
    pc.assign_realization_numbers()
    ctx.equal([pc.realization_for_part(p) for p in pc.parts()], list(range(len(values))), 'assigned', 'realization numbers')
    ctx.equal(bool(pc.has_multiple_realizations()), len(values) > 1, 'assigned', 'multiple realizations')
    x = pc.realizations_array_ref()
    for i, p in enumerate(pc.parts()):
        ctx.close(x[i], pc.cached_part_array_ref(p).astype(float), 'assigned-values')


def normalize(ctx):
    """Normalised arrays."""
    import resqpy.property as rqp
    m, b, pool, sups = setup(ctx, ['grid', 'regular', 'unstructured', 'frame', 'mesh', 'surface', 'points'])
    sup = sups[0]
    style = ctx.choice(['continuous', 'continuous', 'discrete', 'bool'])
    ie = sup.default if ctx.flag(0.6) else ctx.choice(list(sup.shapes))
    shape = sup.shapes[ie]
    null = None
    if style == 'continuous':
        how = ctx.choice(['plain', 'positive', 'negative', 'nan', 'constant', 'tiny', 'all nan', 'with zero'])
        x = ctx.rng.normal(size = shape) * 10.0**ctx.integer(-2, 4)
        if how in ('positive', 'with zero', 'tiny'):
            x = np.abs(x) + 1.0e-3
        if how == 'tiny':
            x *= 1.0e-6
        if how == 'negative':
            x = -np.abs(x) - 1.0e-3
        if how == 'with zero':
            x[ctx.rng.random(shape) < 0.3] = 0.0
        if how == 'nan':
            x[ctx.rng.random(shape) < 0.3] = np.nan
        if how == 'constant':
            x[...] = ctx.uniform(-5.0, 5.0)
        if how == 'all nan':
            x[...] = np.nan
    elif style == 'bool':
        how = 'bool'
        x = ctx.rng.random(shape) < 0.5
    else:
        how = 'int'
        x = ctx.rng.integers(-3 if ctx.flag() else 0, ctx.choice([1, 4, 30]), shape)
    x = np.array(x)
    a = {'support_uuid': str(sup.uuid), 'style': style if style != 'bool' else 'plain', 'indexable': ie, 'property_kind': 'Own Kind', 'facet_type': None,
         'facet': None, 'citation_title': 'x', 'count': 1, 'continuous': style == 'continuous', 'points': False, 'categorical': False,
         'uom': 'Euc' if style == 'continuous' else None, 'realization': None, 'time_series_uuid': None, 'time_index': None, 'string_lookup_uuid': None,
         'const_value': None, 'extra': {}}
    a = store(ctx, m, sup, a, array = x)
    support = model_support(m, sup.uuid)
    inactive = None
    if sup.kind in ('grid', 'regular'):
        inactive = ctx.choice([None, support.inactive])
        if ctx.flag(0.7):
            inactive = ctx.rng.random(support.extent_kji) < ctx.choice([0.3, 0.6])
        if inactive is not None and np.all(inactive):
            inactive = None
        support.inactive = inactive
        support.all_inactive = False
    else:
        inactive = getattr(support, 'inactive', None)
    pc = rqp.PropertyCollection(support)
    part = a['part']
    masked = ctx.flag(0.4)
    mask = np.zeros(shape, dtype = bool)
    if masked and inactive is not None and tuple(inactive.shape) == tuple(shape):
        mask = np.asarray(inactive, dtype = bool)
    use_log = ctx.flag(0.3)
    cycle = ctx.choice([None, None, 2, 3, 5]) if style == 'discrete' else ctx.choice([None, None, 3]) if style == 'continuous' else None
    fix = None if use_log else ctx.choice([None, None, None, 0.0, 1.0, 0.5, 0.25])
    trust = ctx.flag(0.3)
    ctx.sig(style, how, ie, sup.kind, masked, use_log, cycle, fix, trust)
    n, lo, hi = pc.normalized_part_array(part, masked = masked, use_logarithm = use_log, discrete_cycle = cycle, trust_min_max = trust, fix_zero_at = fix)
    live = ~mask & ~np.isnan(x.astype(float))
    ctx.close(np.asarray(pc.cached_part_array_ref(part)).astype(float), x.astype(float), 'unchanged', rtol = 1.0e-6)
    data = dict(style = style, how = how, masked = masked, use_log = use_log, cycle = cycle, fix = fix, trust = trust)
    if not live.any():
        ctx.check(n is None or trust, 'normalized-nothing', 'normalised array of nothing', **data)
        return
    v = x.astype(float)
    stored = v.astype(np.float32).astype(float) if False else v
    whole = ~np.isnan(v) if trust else live
    e_lo, e_hi = v[whole].min(), v[whole].max()
    if cycle is not None and style == 'discrete':
        v = np.mod(x, cycle).astype(float)
        e_lo, e_hi = 0.0, cycle - 1.0
    exp = v.copy()
    if use_log:
        if e_lo <= 0.0:
            exp = np.where(exp < 0.0001, 0.0001, exp)
        with np.errstate(all = 'ignore'):
            exp = np.log10(exp)
        e_lo, e_hi = np.nanmin(exp[live]), np.nanmax(exp[live])
    if fix is not None:
        if fix == 0.0:
            if e_hi <= 0.0:
                return
            exp = np.maximum(exp, 0.0) if e_lo < 0.0 else exp
            e_lo = 0.0
        elif fix == 1.0:
            if e_lo >= 0.0:
                return
            exp = np.minimum(exp, 0.0)
            e_hi = 0.0
        else:
            half = max(e_hi / (1.0 - fix), -e_lo / fix)
            e_lo, e_hi = -half * fix, half * (1.0 - fix)
            if half <= 0.0:
                return
    e = np.full(shape, 0.5) if e_hi == e_lo else (exp - e_lo) / (e_hi - e_lo)
    ctx.check(n is not None, 'normalized', 'no normalised array', **data)
    ctx.close(float(lo), float(e_lo), 'normalized-range', tol = 1.0e-7 * max(abs(e_lo), abs(e_hi), 1.0e-30), **data)
    ctx.close(float(hi), float(e_hi), 'normalized-range', tol = 1.0e-7 * max(abs(e_lo), abs(e_hi), 1.0e-30), **data)
    ctx.equal(tuple(n.shape), tuple(shape), 'normalized', 'shape')
    if masked and mask.any():
        ctx.check(np.ma.isMaskedArray(n) and np.array_equal(np.ma.getmaskarray(n), mask), 'normalized-mask', 'mask of normalised array', **data,
                  masked_count = int(np.ma.getmaskarray(n).sum()), expected = int(mask.sum()))
    g = np.ma.getdata(n)
    ctx.close(g[live], e[live], 'normalized-values', tol = 1.0e-6, **data)
    isnan = np.isnan(x.astype(float)) & ~mask
    ctx.check(bool(np.all(np.isnan(g[isnan]))), 'normalized-nan', 'NaN values kept', **data)


def faces(ctx):
    """Re-ordering of faces per cell arrays."""
    import resqpy.property as rqp
    pc = rqp.GridPropertyCollection()
    shape = tuple(int(n) for n in ctx.rng.integers(1, 4, ctx.integer(0, 3)))
    ctx.sig(shape)
    x = ctx.rng.integers(0, 1000, shape + (3, 2)).astype(ctx.choice([float, int, bool, np.float32]))
    r = pc.discombobulated_face_array(x)
    # order: top, base, J-, I+, J+, I-
    order = [(0, 0), (0, 1), (1, 0), (2, 1), (1, 1), (2, 0)]
    ctx.equal(r.dtype, x.dtype, 'faces', 'dtype')
    ctx.check(np.array_equal(r, np.stack([x[..., a, p] for a, p in order], axis = -1)), 'faces', 'resqml order of faces')
    ctx.check(np.array_equal(pc.combobulated_face_array(r), x), 'faces', 'logical order of faces')
    e = ctx.rng.integers(0, 1000, tuple(int(n) for n in ctx.rng.integers(1, 5, 2)) + (2, 2))
    f = rqp.reformat_column_edges_to_resqml_format(e)
    # edges: I-, J+, I+, J-   (axis 0: J, axis 1: I)
    ctx.check(np.array_equal(f, np.stack([e[:, :, 1, 0], e[:, :, 0, 1], e[:, :, 1, 1], e[:, :, 0, 0]], axis = -1)), 'edges', 'resqml order of edges')
    ctx.check(np.array_equal(rqp.reformat_column_edges_from_resqml_format(f), e), 'edges', 'logical order of edges')


def static(ctx):
    """Basic static properties of a grid."""
    import resqpy.property as rqp
    m, b, pool, sups = setup(ctx, ['grid', 'regular'])
    sup = sups[0]
    shape = sup.shapes['cells']
    reals = [None] if ctx.flag() else [0, 3]
    mem = {}
    base = {'support_uuid': str(sup.uuid), 'style': 'plain', 'indexable': 'cells', 'count': 1, 'continuous': True, 'points': False, 'categorical': False,
            'time_series_uuid': None, 'time_index': None, 'string_lookup_uuid': None, 'const_value': None, 'extra': {}}
    faceted = ctx.flag(0.6)
    have = ctx.subset(['ntg', 'poro', 'i', 'j', 'k']) if ctx.flag(0.8) else ['ntg', 'poro', 'i', 'j', 'k']
    whole = faceted and ctx.flag(0.2)  # one array for several directions
    for r in reals:
        for h in have:
            a = dict(base, realization = r, facet_type = None, facet = None)
            if h in ('ntg', 'poro'):
                a.update(property_kind = {'ntg': 'net to gross ratio', 'poro': 'porosity'}[h], uom = 'm3/m3', citation_title = h.upper())
            else:
                a.update(property_kind = 'rock permeability', uom = 'mD', citation_title = 'perm ' + h if faceted else ctx.choice(
                    {'i': ['KI', 'PERMI', 'KX', 'PERMX'], 'j': ['KJ', 'PERMJ', 'KY', 'PERMY'], 'k': ['KK', 'PERMK', 'KZ', 'PERMZ']}[h]))
                if faceted:
                    a.update(facet_type = 'direction', facet = h.upper())
                    if whole and h == 'i' and 'j' not in have:
                        a['facet'] = 'IJ'
            mem[r, h] = store(ctx, m, sup, a, array = ctx.rng.random(shape) + 0.01)
    pc = rqp.GridPropertyCollection(model_support(m, sup.uuid))
    pc.remove_parts_list_from_dict([p for p in pc.parts() if p not in [a['part'] for a in mem.values()]])
    r = ctx.choice(reals)
    share = ctx.flag()
    mode = ctx.choice([None, None, 'none', 'shared', 'ratio', 'ntg', 'ntg squared'])
    ratio = ctx.choice([1.0, 0.1])
    ctx.sig(*have, faceted, whole, share, mode)
    perms = [h for h in have if h in 'ijk']
    p = lambda h: mem[r, h]['part'] if (r, h) in mem else None
    exp = {h: p(h) for h in ('ntg', 'poro', 'i', 'j', 'k')}
    made = False
    if len(perms) == 1:
        only = p(perms[0])
        if share:
            exp['i'] = exp['j'] = exp['k'] = only
        elif not faceted:
            exp.update(i = only, j = None, k = None)  # direction is not looked for in the title
        elif mem[r, perms[0]]['facet'] == 'IJ':
            exp['j'] = only
    elif perms:
        if mem[r, 'i']['facet'] == 'IJ' if (r, 'i') in mem else False:
            exp['j'] = exp['i']
        if share:
            exp['j'] = exp['j'] or exp['i']
            exp['i'] = exp['i'] or exp['j']
        if exp['k'] is None:
            if mode == 'shared' and share:
                exp['k'] = exp['i']
            elif mode in ('ratio', 'ntg', 'ntg squared') and exp['i'] is not None:
                made = True
    if made and len(reals) > 1:
        return
    got = dict(zip(('ntg', 'poro', 'i', 'j', 'k'), pc.basic_static_property_parts(realization = r, share_perm_parts = share, perm_k_mode = mode, perm_k_ratio = ratio)))
    for h in exp:
        if h == 'k' and made:
            x = mem[r, 'i']['array']
            if exp['j'] is not None and exp['j'] != exp['i']:
                x = np.sqrt(x * mem[r, 'j']['array'])
            x = x * ratio
            if mode != 'ratio' and exp['ntg'] is not None:
                x = x * mem[r, 'ntg']['array']**(1 if mode == 'ntg' else 2)
            ctx.check(got['k'] is not None, 'static', 'no vertical permeability made', mode = mode)
            ctx.close(pc.cached_part_array_ref(got['k']), x, 'static-k', rtol = 1.0e-6, mode = mode)
            ctx.equal(pc.facet_for_part(got['k']), 'K', 'static', 'direction of new permeability')
        else:
            ctx.equal(got[h], exp[h], 'static', 'part', which = h, have = have, share = share, mode = mode, faceted = faceted)
    u = pc.basic_static_property_uuids(realization = r, share_perm_parts = share)
    d = pc.basic_static_property_uuids_dict(realization = r, share_perm_parts = share)
    q = pc.basic_static_property_parts_dict(realization = r, share_perm_parts = share)
    ctx.equal([str(x) for x in u], [str(d[k]) for k in ('NTG', 'PORO', 'PERMI', 'PERMJ', 'PERMK')], 'static', 'uuids')
    ctx.equal([None if x is None else str(m.uuid_for_part(x)) for x in q.values()], [None if x is None else str(x) for x in u], 'static', 'parts and uuids')


def imported(ctx):
    """The list of imported arrays moves between collections without loss."""
    import resqpy.property as rqp
    m, b, pool, sups = setup(ctx, ['grid', 'regular', 'frame', 'mesh', 'points', 'surface'])
    sup = sups[0]
    support = model_support(m, sup.uuid)
    a, c = rqp.PropertyCollection(), rqp.PropertyCollection()
    for q in (a, c):
        q.set_support(support = support)
    style = 'continuous'
    truth = {}
    for q in (a, c, a, c):
        for k in range(ctx.integer(0, 3)):
            ie = ctx.choice(list(sup.shapes))
            if ie == 'faces' and sup.kind in ('grid', 'regular'):
                continue
            x = ctx.rng.normal(size = sup.shapes[ie])
            t = f't{len(truth)}'
            u = q.add_cached_array_to_imported_list(x.copy(), 'test', t, uom = 'm', property_kind = 'length', indexable_element = ie)
            truth[t] = (str(u), ie, x)
    n_a, n_c = a.number_of_imports(), c.number_of_imports()
    ctx.equal(n_a + n_c, len(truth), 'imports', 'number of imports')
    ctx.sig(n_a, n_c, sup.kind)
    copy = ctx.flag()
    a.inherit_imported_list_from_other_collection(c, copy_cached_arrays = copy)
    ctx.equal(a.number_of_imports(), len(truth), 'imports', 'number of imports after inheriting')
    ctx.equal(c.number_of_imports(), n_c, 'imports', 'number of imports of source')
    if not copy:
        for u, ie, x in truth.values():
            pass
    if truth:
        if copy:
            a.write_hdf5_for_imported_list()
        else:
            c.write_hdf5_for_imported_list()
            inherited = [e for e in a.imported_list if not hasattr(a, 'c_' + str(e[0]))]
            own = [e for e in a.imported_list if hasattr(a, 'c_' + str(e[0]))]
            ctx.equal((len(inherited), len(own)), (n_c, n_a), 'imports', 'arrays copied')
            a.imported_list = own
            a.write_hdf5_for_imported_list()
            a.imported_list = own + inherited
        uuids = a.create_xml_for_imported_list_and_add_parts_to_model()
        ctx.equal(sorted(str(u) for u in uuids), sorted(u for u, _, _ in truth.values()), 'imports', 'uuids of properties made')
        ctx.equal(a.number_of_imports(), 0, 'imports', 'list is cleared')
    ctx.equal(a.number_of_parts(), len(truth), 'imports', 'number of parts')
    for t, (u, ie, x) in truth.items():
        p = rqp.Property(m, uuid = u)
        ctx.equal((p.title, p.indexable_element()), (t, ie), 'imports', 'metadata')
        ctx.close(p.array_ref(), x, 'import-values')


SCENARIOS = [
    Scenario(select, 160, name = 'select'),
    Scenario(assemble, 160, name = 'assemble'),
    Scenario(normalize, 200, name = 'normalize'),
    Scenario(faces, 60, name = 'faces'),
    Scenario(static, 80, name = 'static'),
    Scenario(imported, 60, name = 'imported'),
]
