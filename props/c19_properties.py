"""C19: properties present the arrays and metadata with which they were made, at once and after the dataset is reopened."""

import numpy as np

from rv.core import Scenario, Skip
from rv import gen, props
from rv.objects import Builder
from props.spec import spec

PROP = spec('C19')


def extremes(p, inactive):
    """Extremes over active cells, which are acceptable as well as those over all the cells."""
    if inactive is None or p.style != 'discrete' or p.array is None or inactive.shape != p.array.shape:
        return
    n = p.args.get('null_value')
    inactive = np.asarray(inactive, dtype = bool)
    v = p.array[~inactive & ((p.array != n) if n is not None else True)]
    if v.size:
        p.masked_extremes = {'min': v.min(), 'max': v.max()}
    else:
        p.truth.pop('min', None)
        p.truth.pop('max', None)


def begin(ctx, kinds = None):
    m = gen.model(ctx)
    b = Builder(ctx, m)
    sup = props.support(ctx, b, kinds and ctx.choice(kinds))
    return m, b, props.Pool(ctx, b), sup


def inactive_of(m, sup):
    if sup.kind not in ('grid', 'regular', 'unstructured'):
        return None
    import resqpy.property as rqp
    pc = rqp.PropertyCollection()
    pc.set_support(support_uuid = sup.uuid, model = m)
    i = getattr(pc.support, 'inactive', None)
    return i if i is not None and np.shape(i) else None


def h5_options(ctx, p):
    o = {}
    if ctx.flag(0.3):
        o['chunks'] = ctx.choice(['auto', 'all', 'slice'])
    if ctx.flag(0.3):
        o['compression'] = ctx.choice(['gzip', 'lzf'])
    if p.const:
        o['expand_const_arrays'] = ctx.flag()
    elif p.style == 'continuous' and ctx.flag(0.25):
        o['dtype'] = ctx.choice([np.float32, np.float64])
        if o['dtype'] == np.float32 and p.array.dtype != np.float32:
            p.rtol = 1.0e-6
    elif p.style == 'discrete' and ctx.flag(0.25):
        o['dtype'] = ctx.choice([np.int32, np.int64, np.int16])
    elif p.style == 'bool' and ctx.flag(0.4):
        o['use_pack'] = True
    return o


def expanded(p, o):
    """A constant array which has been written in full is no longer constant."""
    if p.const and o.get('expand_const_arrays'):
        p.truth['constant_value'] = None


def read(p, q):
    """The array, through one of the classes."""
    if p.packed or p.style == 'bool' and not p.const and p.as_bool:
        return q(dtype = bool)
    return q()


props.Prop.packed = False
props.Prop.as_bool = False


def one(ctx):
    """A property made from an array."""
    import resqpy.property as rqp
    import resqpy.model as rq
    m, b, pool, sup = begin(ctx)
    made = []
    inactive = inactive_of(m, sup)
    for _ in range(ctx.integer(1, 4)):
        p = props.draw(ctx, pool, sup)
        o = h5_options(ctx, p)
        expanded(p, o)
        extremes(p, inactive)
        p.packed, p.as_bool = bool(o.get('use_pack')) and p.truth['constant_value'] is None, ctx.flag()
        prop = rqp.Property.from_array(m, None if p.const else p.array.copy(), p.source, p.title, sup.uuid, find_local_property_kind = p.find_local,
                                       extra_metadata = dict(p.extra), **p.args, **o)
        made.append((p, prop.uuid, o))
        where = f'new property for {sup.kind}'
        props.compare(ctx, p, props.of_property(prop), where, skip = ('source',))
        props.same_values(ctx, read(p, prop.array_ref), p, where, exact = not p.rtol)
        ctx.observe('made')
        ctx.sig(sup.kind, p.truth['indexable'], p.style, p.const, min(p.truth['count'], 2),
                p.args.get('facet_type'), '+'.join(sorted(o)))
    m.store_epc()
    m.h5_release()
    m2 = rq.Model(m.epc_file)
    pc = rqp.PropertyCollection()
    pc.set_support(support_uuid = sup.uuid, model = m2)
    pc = rqp.PropertyCollection(support = pc.support)
    for p, u, o in made:
        where = f'property for {sup.kind} after reopening'
        q = rqp.Property(m2, uuid = u)
        props.compare(ctx, p, props.of_property(q), where)
        props.same_values(ctx, read(p, q.array_ref), p, where, exact = not p.rtol)
        ctx.equal(q.resqml_type, {'continuous': 'ContinuousProperty', 'points': 'PointsProperty', 'categorical': 'CategoricalProperty'}.get(
            p.style, 'DiscreteProperty'), 'class')
        part = m2.part(uuid = u)
        ctx.check(part in pc.parts(), 'membership', 'property is missing from the collection of its support')
        props.compare(ctx, p, props.of_part(pc, part), 'collection after reopening')
        check_array(ctx, pc, part, p)
        if p.style == 'categorical':
            lu = rqp.StringLookup(m2, uuid = p.truth['string_lookup_uuid'])
            got = q.string_lookup()
            ctx.check(got is not None and got.is_equivalent(lu), 'lookup', 'string lookup of property differs')
            ctx.equal(str(pc.string_lookup_for_part(part).uuid), str(lu.uuid), 'lookup')
        if p.named:
            k = rqp.PropertyKind(m2, uuid = q.local_property_kind_uuid())
            ctx.equal(k.title, p.named, 'local-kind', 'title of local property kind')
        m2.h5_release()
        ctx.observe('reloaded')
    ctx.equal(pc.number_of_parts(), len([u for u in m2.uuids() if (m2.type_of_part(m2.part(uuid = u)) or '').endswith('Property') and str(
        m2.supporting_representation_for_part(m2.part(uuid = u))) == str(sup.uuid)]), 'members', 'number of members of the collection')
    named = {}
    for p, u, o in made:
        if p.named:
            named.setdefault(p.named, set()).add(str(rqp.Property(m2, uuid = u).local_property_kind_uuid()))
    for n, s in named.items():
        ctx.check(len(s) == 1, 'local-kind', 'properties of one kind refer to different local kinds', name = n)


def check_array(ctx, pc, part, p):
    """Ways of reading the array of a part of a collection."""
    shape = tuple(p.array.shape)
    how = ctx.choice(['first', 'after'])
    if how == 'first' and not p.packed:
        s, t = pc.shape_and_type_of_part(part)
        ctx.equal(tuple(int(n) for n in s), shape, 'reported-shape', 'shape reported for part')
        if p.style in ('continuous', 'points'):
            ctx.check(np.dtype(t).kind == 'f', 'reported-type', 'type reported for part', got = str(t), style = p.style)
        else:
            ctx.check(np.dtype(t).kind in 'iub', 'reported-type', 'type reported for part', got = str(t), style = p.style)
    a = read(p, lambda **kw: pc.cached_part_array_ref(part, **kw))
    props.same_values(ctx, a, p, 'collection', exact = not p.rtol)
    ctx.check(a.dtype.kind == ('f' if p.style in ('continuous', 'points') else 'b' if p.packed else a.dtype.kind), 'dtype', 'type of array',
              got = str(a.dtype), style = p.style)
    if p.style in ('discrete', 'categorical'):
        ctx.check(a.dtype.kind in 'iu', 'dtype', 'type of array', got = str(a.dtype), style = p.style)
    ctx.check(pc.cached_part_array_ref(part) is a, 'cached', 'second request does not return the cached array')
    # masks
    null = ctx.flag()
    ma = pc.cached_part_array_ref(part, masked = True, exclude_null = null)
    exp = np.zeros(shape, dtype = bool)
    ina = getattr(pc.support, 'inactive', None)
    if ina is not None:
        if p.style == 'points' and ina.shape + (3,) == shape:
            exp |= np.asarray(ina, dtype = bool)[..., None]
        elif p.style != 'points' and ina.shape == shape:
            exp |= np.asarray(ina, dtype = bool)
    got = np.ma.getmaskarray(ma)
    if null and p.style in ('discrete', 'categorical', 'bool'):
        n = pc.null_value_for_part(part)
        if n is not None:
            exp |= a == n
    elif null and p.style == 'continuous':
        got, exp = got & ~np.isnan(a), exp & ~np.isnan(a)
    ctx.check(np.array_equal(got, exp), 'mask', 'mask of array differs', null = null, style = p.style, support = p.sup.kind, got = got, expected = exp, ina = ina, args = str(p.args))
    pc.uncache_part_array(part)
    if p.truth['constant_value'] is None and not p.packed:
        sl = tuple(slice(lo, ctx.integer(lo + 1, n)) for n in shape for lo in [ctx.integer(0, n - 1)])
        x = pc.h5_slice(part, sl)
        props.same_values(ctx, x, p, 'slice', exact = not p.rtol, code = 'slice', exp = p.array[sl])


def shared(ctx, pool):
    """Attributes given once for a whole imported list, for members without their own."""
    d = {}
    if ctx.flag(0.3):
        u, n = pool.a_series()
        d['time_series_uuid'], d['steps'] = u, n
        if n > 1 and ctx.flag():
            # a reduced series, for steps of some longer one
            d['selected_time_indices_list'] = sorted(int(i) for i in ctx.subset(list(range(3 * n)), n))
    if ctx.flag(0.3):
        d['string_lookup_uuid'] = pool.a_lookup()
    if ctx.flag(0.3):
        d['property_kind_uuid'] = pool.a_kind()
    return d


def share(ctx, p, d):
    a, t = p.args, p.truth
    if 'time_series_uuid' in d:
        sel = d.get('selected_time_indices_list')
        if sel is not None:
            a.pop('time_series_uuid', None)
        if 'time_series_uuid' not in a:
            a.pop('time_index', None)
            if ctx.flag(0.7):
                i = ctx.integer(0, d['steps'] - 1)
                a['time_index'] = i if sel is None else sel[i]
                t['time_index'], t['time_series_uuid'] = i, str(d['time_series_uuid'])
            else:
                t['time_index'] = t['time_series_uuid'] = None
            p.timed = True
    if 'string_lookup_uuid' in d and p.style == 'categorical' and ctx.flag():
        del a['string_lookup_uuid']
        t['string_lookup_uuid'] = str(d['string_lookup_uuid'])
    if 'property_kind_uuid' in d and 'local_property_kind_uuid' not in a:
        a['property_kind'], p.named = None, None
        t['property_kind'], t['local_property_kind_uuid'] = d['property_kind_uuid'][1], str(d['property_kind_uuid'][0])
        t.pop('min', None)
        t.pop('max', None)


def imported(ctx, m, pc, pool, sup, n, inactive = None, d = None, **kw):
    """Adds arrays to the imported list of a collection."""
    out = []
    for _ in range(n):
        p = props.draw(ctx, pool, sup, **kw)
        if d:
            if 'string_lookup_uuid' in d and p.style in ('discrete', 'bool'):
                p = props.draw(ctx, pool, sup, style = ctx.choice(['categorical', 'continuous']), **kw)
            share(ctx, p, d)
        p.extra = {}
        extremes(p, inactive)
        u = pc.add_cached_array_to_imported_list(None if p.const else p.array.copy(), p.source, p.title, **p.args)
        out.append((p, u))
    return out


def collection(ctx):
    """Arrays gathered in the imported lists of collections and written together."""
    import resqpy.property as rqp
    import resqpy.model as rq
    m, b, pool, sup = begin(ctx)
    inactive = inactive_of(m, sup)
    pc = rqp.PropertyCollection()
    pc.set_support(support_uuid = sup.uuid, model = m)
    d = shared(ctx, pool)
    made = imported(ctx, m, pc, pool, sup, ctx.integer(1, 5), inactive, d)
    if ctx.flag(0.4):
        other = rqp.PropertyCollection()
        other.set_support(support_uuid = sup.uuid, model = m)
        for p, u in imported(ctx, m, other, pool, sup, ctx.integer(1, 3), inactive, d):
            if ctx.flag(0.2) and not p.const:
                pass
            made.append((p, u))
        pc.inherit_imported_list_from_other_collection(other)
        ctx.observe('inherited lists')
    ctx.equal(pc.number_of_imports(), len(made), 'imports')
    find = all(p.find_local for p, _ in made)
    if not find:
        for p, _ in made:
            if p.named:
                raise Skip('mixed kinds')
    expand, pack = ctx.flag(0.3), ctx.flag(0.3)
    extra = (ctx.flag(0.3) and gen.metadata(ctx)) or {}
    for p, _ in made:
        p.extra = extra
        if not find:
            p.truth.pop('property_kind', None) if p.truth.get('property_kind') in ('continuous', 'discrete', 'categorical') and False else None
        if p.const and expand:
            p.truth['constant_value'] = None
        p.packed, p.as_bool = pack and p.style == 'bool' and not (p.const and not expand), ctx.flag()
    pc.write_hdf5_for_imported_list(expand_const_arrays = expand, use_pack = pack)
    uuids = pc.create_xml_for_imported_list_and_add_parts_to_model(expand_const_arrays = expand, find_local_property_kinds = find,
                                                                   extra_metadata = dict(extra),
                                                                   **{k: v[0] if k == 'property_kind_uuid' else v for k, v in d.items() if k != 'steps'})
    if d:
        ctx.observe('shared attributes')
    ctx.equal([str(u) for u in uuids], [str(u) for _, u in made], 'uuids', 'uuids of properties made from imported list')
    ctx.equal(pc.number_of_imports(), 0, 'imports', 'imported list is not cleared')
    ctx.equal(pc.number_of_parts(), len(made), 'members')
    for p, u in made:
        part = m.part(uuid = u)
        props.compare(ctx, p, props.of_part(pc, part), 'collection')
        props.same_values(ctx, read(p, lambda **kw: pc.cached_part_array_ref(part, **kw)), p, 'collection', exact = not p.rtol)
    overwrite(ctx, pc, m, made)
    # similar
    if ctx.flag(0.7):
        made += similar(ctx, m, pc, pool, sup, made)
    m.store_epc()
    m.h5_release()
    m2 = rq.Model(m.epc_file)
    pc2 = rqp.PropertyCollection()
    pc2.set_support(support_uuid = sup.uuid, model = m2)
    for p, u in made:
        part = m2.part(uuid = u)
        pc2.add_part_to_dict(part)
        props.compare(ctx, p, props.of_part(pc2, part), 'collection after reopening')
        check_array(ctx, pc2, part, p)
        pc2.uncache_part_array(part)
        ctx.observe('reloaded')
    m2.h5_release()
    ctx.sig(sup.kind, len(made), expand, pack, find)


def overwrite(ctx, pc, m, made):
    """Overwriting part of an array in the file."""
    made = [e for e in made if e[0].truth['constant_value'] is None and not e[0].packed]
    if not made or ctx.flag(0.6):
        return
    p, u = ctx.choice(made)
    part = m.part(uuid = u)
    sl = tuple(slice(lo, ctx.integer(lo + 1, n)) for n in p.array.shape for lo in [ctx.integer(0, n - 1)])
    x = p.array[sl]
    new = x[::-1].copy()
    update = ctx.flag()
    if ctx.flag():
        pc.uncache_part_array(part)
    pc.h5_overwrite_slice(part, sl, new, update_cache = update)
    p.array = p.array.copy()
    p.array[sl] = new
    props.same_values(ctx, pc.cached_part_array_ref(part), p, 'after overwriting a slice', code = 'overwrite')
    if p.style == 'continuous' and ctx.flag() and p.truth.get('min') is not None:
        lo, hi = float(np.nanmin(p.array)) - 1.0, float(np.nanmax(p.array)) + 2.0
        pc.patch_min_max_for_part(part, lo, hi, model = m)
        p.truth['min'], p.truth['max'] = lo, hi
        ctx.equal((pc.minimum_value_for_part(part), pc.maximum_value_for_part(part)), (lo, hi), 'patched-extremes')
    m.h5_release()
    ctx.observe('overwritten')


def similar(ctx, m, pc, pool, sup, made):
    """A property made by analogy with another."""
    p, u = ctx.choice(made)
    q = props.Prop()
    q.style, q.title, q.source, q.extra, q.const, q.named, q.find_local = p.style, p.title, p.source, {}, False, None, p.find_local
    q.args = dict(p.args)
    q.args.pop('const_value', None)
    kw = {}
    t = p.truth
    for k in ('time_series_uuid', 'time_index', 'string_lookup_uuid'):
        # perhaps given for a whole list
        if t.get(k) is not None:
            q.args[k] = t[k]
    q.truth = {k: t[k] for k in ('property_kind', 'local_property_kind_uuid', 'uom') if k in t}
    q.rtol = 0.0
    q.array = p.array
    q.args.setdefault('null_value', None)
    if p.const or q.args['null_value'] is None:
        q.args.pop('null_value')
    if ctx.flag(0.3) and p.style != 'bool':
        q.const = p.style not in ('points', 'categorical')
    if q.const:
        q.args['const_value'] = kw['const_value'] = 3.5 if p.style == 'continuous' else 4
        q.array = np.full(t['shape'], q.args['const_value'])
    else:
        q.array = np.flip(p.array).copy()
        if p.array.size != 1:
            q.array = q.array.reshape(t['shape'])
    for k, v in (('title', 'other ' + p.title), ('realization', ctx.choice([0, 3, 4])), ('source_info', 'by analogy'), ('uom', 'psi'),
                 ('time_index', None), ('facet', None), ('property_kind', 'thickness'), ('string_lookup_uuid', None), ('null_value', -77)):
        if not ctx.flag(0.3):
            continue
        if k == 'uom':
            if p.style == 'continuous':
                kw['uom'] = q.args['uom'] = q.truth['uom'] = v
        elif k == 'title':
            kw[ctx.choice(['title', 'keyword'])] = q.title = v
        elif k == 'source_info':
            kw[k] = q.source = v
        elif k == 'time_index':
            if p.args.get('time_series_uuid') is not None:
                n = {str(s): c for s, c in pool.series}[str(p.args['time_series_uuid'])]
                kw[k] = q.args[k] = ctx.integer(0, n - 1)
            elif ctx.flag():
                s, n = pool.a_series()
                kw.update(time_series_uuid = s, time_index = n - 1)
                q.args.update(time_series_uuid = s, time_index = n - 1)
        elif k == 'facet':
            if p.style != 'points' and not (t['indexable'] in sup.directed):
                if p.args.get('facet') is not None and ctx.flag():
                    kw.update(facet = 'none', facet_type = 'none')
                    q.args.pop('facet')
                    q.args.pop('facet_type')
                else:
                    kw.update(facet_type = 'what', facet = 'oil')
                    q.args.update(facet_type = 'what', facet = 'oil')
        elif k == 'property_kind':
            if p.style == 'continuous' and t.get('local_property_kind_uuid', 0) is None:
                kw[k] = q.truth[k] = v
        elif k == 'string_lookup_uuid':
            if p.style == 'categorical':
                kw[k] = q.args[k] = pool.a_lookup()
        elif k == 'null_value':
            if p.style == 'discrete':
                kw[k] = q.args[k] = v
        else:
            kw[k] = q.args[k] = v
    q.finish(sup, t['indexable'])
    extremes(q, inactive_of(m, sup))
    if q.style == 'discrete' and 'null_value' not in q.args:
        q.truth.pop('min', None)
        q.truth.pop('max', None)
    q.packed = False
    uu = pc.add_similar_to_imported_list(u, None if q.const else q.array.copy(), **kw)
    pc.write_hdf5_for_imported_list()
    pc.create_xml_for_imported_list_and_add_parts_to_model(find_local_property_kinds = q.find_local)
    part = m.part(uuid = uu)
    props.compare(ctx, q, props.of_part(pc, part), 'similar property')
    ctx.observe('similar')
    return [(q, uu)]


def sampled(ctx):
    """Properties of one support made by sampling those of another."""
    import resqpy.property as rqp
    import resqpy.model as rq
    m, b, pool, sup = begin(ctx, ['points', 'frame', 'polyline', 'surface', 'regular'])
    ie = ctx.choice([e for e in sup.shapes if e in ('nodes', 'cells', 'intervals', 'faces')])
    sup2 = None
    for _ in range(4):
        s = props.support(ctx, b, sup.kind)
        if ie in s.shapes:
            sup2 = s
            break
    if sup2 is None:
        raise Skip('no second support')
    made = []
    for _ in range(ctx.integer(1, 3)):
        p = props.draw(ctx, pool, sup, ie = ie)
        if ie in sup.directed:
            raise Skip('directed')
        prop = rqp.Property.from_array(m, None if p.const else p.array.copy(), p.source, p.title, sup.uuid, find_local_property_kind = p.find_local, **p.args)
        made.append((p, prop))
    src = rqp.PropertyCollection()
    src.set_support(support_uuid = sup.uuid, model = m)
    for p, prop in made:
        src.add_part_to_dict(prop.part)
    pc = rqp.PropertyCollection()
    pc.set_support(support_uuid = sup2.uuid, model = m)
    n, n2 = int(np.prod(sup.shapes[ie])), int(np.prod(sup2.shapes[ie]))
    idx = ctx.rng.integers(0, n, n2)
    pc.add_to_imported_list_sampling_other_collection(src, idx)
    pc.write_hdf5_for_imported_list()
    uuids = pc.create_xml_for_imported_list_and_add_parts_to_model(find_local_property_kinds = all(p.find_local for p, _ in made))
    ctx.equal(len(uuids), len(made), 'members')
    for (p, prop), u in zip(made, uuids):
        per = p.truth['shape'][len(sup.shapes[ie]):]
        q = props.Prop()
        q.__dict__.update(p.__dict__)
        q.truth = {k: p.truth[k] for k in ('property_kind', 'local_property_kind_uuid', 'uom') if k in p.truth}
        if p.named or not all(p.find_local for p, _ in made):
            q.truth.pop('local_property_kind_uuid', None)
        q.extra, q.source = {}, None
        q.array = p.array.reshape((n,) + per)[idx].reshape(tuple(sup2.shapes[ie]) + per)
        q.args = {k: v for k, v in p.args.items() if k != 'indexable_element'}
        q.finish(sup2, ie)
        if 'null_value' not in q.args:
            q.truth.pop('min', None)
            q.truth.pop('max', None)
        q.masked_extremes = None
        extremes(q, inactive_of(m, sup2))
        part = m.part(uuid = u)
        props.compare(ctx, q, props.of_part(pc, part), 'sampled property')
        props.same_values(ctx, pc.cached_part_array_ref(part), q, 'sampled property')
    ctx.observe('sampled', len(made))
    ctx.sig(sup.kind, ie, len(made))


def misfit(ctx):
    """An array of the wrong shape is refused."""
    import resqpy.property as rqp
    m, b, pool, sup = begin(ctx)
    p = props.draw(ctx, pool, sup)
    if p.const:
        raise Skip('constant')
    s = list(p.array.shape)
    ax = ctx.integer(0, len(s) - 1)
    how = ctx.choice(['longer', 'extra', 'count'])
    if how == 'longer':
        s[ax] += ctx.integer(1, 2)
    elif how == 'extra':
        s.insert(ctx.integer(0, len(s)), 2)
    else:
        p.args['count'] = p.args.get('count', 1) + 1
    x = np.resize(p.array, s)
    before = set(map(str, m.uuids(obj_type = p.style if False else None)))
    ctx.raises((AssertionError, ValueError), lambda: rqp.Property.from_array(m, x, 'x', p.title, sup.uuid, find_local_property_kind = p.find_local,
                                                                             **p.args), 'misfit')
    ctx.observe('refused')
    after = [u for u in m.uuids() if str(u) not in before and (m.type_of_part(m.part(uuid = u)) or '').endswith('Property')]
    ctx.check(not after, 'misfit-added', 'a refused array leaves a property in the model')
    ctx.sig(sup.kind, how, p.style)


SCENARIOS = [
    Scenario(one, 240),
    Scenario(collection, 200),
    Scenario(sampled, 80),
    Scenario(misfit, 60),
]
