"""C07: stratigraphic columns keep unit order, contacts and attributes."""

import numpy as np

from props.spec import spec
from rv import gen
from rv.core import Scenario

PROP = spec('C07')

COMPOSITIONS = [
    'intrusive clay', 'organic', 'intrusive mud', 'evaporite salt', 'evaporite non salt', 'sedimentary siliclastic', 'carbonate',
    'magmatic intrusive granitoid', 'magmatic intrusive pyroclastic', 'magmatic extrusive lava flow', 'other chemichal rock',
    'sedimentary turbidite'
]
DEPOSITION = [
    'proportional between top and bottom', 'parallel to bottom', 'parallel to top', 'parallel to another boundary'
]
IMPLACEMENT = ['autochtonous', 'allochtonous']
DOMAINS = ['depth', 'time', 'mixed']
VERBS = ['splits', 'interrupts', 'contains', 'erodes', 'stops at', 'crosses', 'includes']
SIDES = ['footwall', 'hanging wall', 'north', 'south', 'east', 'west', 'younger', 'older', 'both']
MODES = ['baselap', 'erosion', 'extended', 'proportional']
RELS = [
    'frontier feature to frontier feature', 'genetic boundary to frontier feature', 'genetic boundary to genetic boundary',
    'genetic boundary to tectonic boundary', 'stratigraphic unit to frontier feature', 'stratigraphic unit to stratigraphic unit',
    'tectonic boundary to frontier feature', 'tectonic boundary to genetic boundary', 'tectonic boundary to tectonic boundary'
]
UOMS = ['m', 'ft', 'cm', 'km']


def s(u):
    return None if u is None else str(u)


def draw_feature(ctx, chrono):
    return {'title': gen.title(ctx), 'meta': gen.metadata(ctx) or {}, 'top': ctx.choice([None] + chrono),
            'bottom': ctx.choice([None] + chrono)}


def make_feature(m, a, generic = False):
    import resqpy.strata as rqs
    if generic:
        import resqpy.organize as rqo
        return rqo.GeologicUnitFeature(m, feature_name = a['title'], extra_metadata = dict(a['meta']) or None)
    return rqs.StratigraphicUnitFeature(m, title = a['title'], top_unit_uuid = a['top'], bottom_unit_uuid = a['bottom'],
                                        extra_metadata = dict(a['meta']) or None)


def draw_unit(ctx, chrono):
    a = {'title': None if ctx.flag(0.2) else gen.title(ctx), 'meta': gen.metadata(ctx) or {}, 'domain': ctx.choice(DOMAINS),
         'composition': ctx.choice([None] + COMPOSITIONS), 'implacement': ctx.choice([None] + IMPLACEMENT),
         'mode': ctx.choice([None] + DEPOSITION), 'min': None, 'max': None, 'uom': None, 'feature': draw_feature(ctx, chrono),
         'hod': (None, None) if ctx.flag(0.7) else (ctx.choice(chrono), ctx.choice(chrono))}
    if ctx.flag(0.6):
        a['uom'] = ctx.choice(UOMS)
        lo = ctx.choice([0.0, 1.25, 3.0])
        a['min'] = ctx.choice([None, lo])
        a['max'] = lo + ctx.choice([0.0, 2.5, 1000.125]) if a['min'] is None or ctx.flag(0.6) else None
    return a


def unit_title(a):
    return a['feature']['title'] if a['title'] is None else a['title']


def make_unit(ctx, m, a, reuse = False, generic = False):
    import resqpy.strata as rqs
    f = make_feature(m, a['feature'], generic)
    f.create_xml(reuse = reuse)
    c = a['composition']
    if c in ('intrusive clay', 'intrusive mud') and ctx.flag():
        c += ' '
    if generic:
        u = rqs.GeologicUnitInterpretation(m, title = a['title'], domain = a['domain'], geologic_unit_feature = f, composition = c,
                                           material_implacement = a['implacement'], extra_metadata = dict(a['meta']) or None)
    else:
        u = rqs.StratigraphicUnitInterpretation(m, title = a['title'], domain = a['domain'], stratigraphic_unit_feature = f,
                                                composition = c, material_implacement = a['implacement'],
                                                deposition_mode = a['mode'], min_thickness = a['min'], max_thickness = a['max'],
                                                thickness_uom = a['uom'], extra_metadata = dict(a['meta']) or None)
    u.has_occurred_during = a['hod']
    return u


def compare_feature(ctx, f, a, tag):
    ctx.equal(f.title, a['title'], tag + 'feature-title')
    ctx.equal(f.extra_metadata or {}, a['meta'], tag + 'feature-metadata')
    ctx.equal((s(f.top_unit_uuid), s(f.bottom_unit_uuid)), (a['top'], a['bottom']), tag + 'feature-top-bottom')


def compare_unit(ctx, u, a, tag = '', generic = False):
    ctx.equal(u.title, unit_title(a), tag + 'unit-title')
    ctx.equal(u.extra_metadata or {}, a['meta'], tag + 'unit-metadata')
    ctx.equal((u.domain, u.composition, u.material_implacement), (a['domain'], a['composition'], a['implacement']), tag + 'unit-attributes')
    ctx.equal(tuple(s(x) for x in u.has_occurred_during), a['hod'], tag + 'unit-occurred')
    if not generic:
        ctx.equal((u.deposition_mode, u.min_thickness, u.max_thickness), (a['mode'], a['min'], a['max']), tag + 'unit-thickness')
        if a['min'] is not None or a['max'] is not None:
            ctx.equal(u.thickness_uom, a['uom'], tag + 'unit-uom')
        compare_feature(ctx, u.stratigraphic_unit_feature, a['feature'], tag)


def contact_key(c):
    return (c.index, c.contact_relationship, c.verb, s(c.subject_uuid), s(c.direct_object_uuid), c.subject_contact_side,
            c.subject_contact_mode, c.direct_object_contact_side, c.direct_object_contact_mode, s(c.part_of_uuid))


def base(ctx, crs = False):
    import resqpy.organize as rqo
    m = gen.model(ctx, crs = crs)
    chrono = []
    for i in range(3):
        f = rqo.GeologicUnitFeature(m, feature_name = f'chrono {i}')
        f.create_xml()
        chrono.append(str(f.uuid))
    ef = rqo.OrganizationFeature(m, feature_name = 'earth', organization_kind = 'earth model')
    ef.create_xml()
    return m, chrono, ef


def columns(ctx):
    import resqpy.organize as rqo
    import resqpy.model as rq
    import resqpy.strata as rqs
    import resqpy.grid as grr
    m, chrono, ef = base(ctx, crs = True)
    attrs = []
    uuids = []
    for _ in range(ctx.integer(1, 9)):
        a = draw_unit(ctx, chrono)
        u = make_unit(ctx, m, a)
        u.create_xml(reuse = False)
        compare_unit(ctx, u, a, 'created-')
        attrs.append(a)
        uuids.append(str(u.uuid))
    horizons = []
    for i in range(len(uuids)):
        gbf = rqo.GeneticBoundaryFeature(m, kind = 'horizon', feature_name = f'h{i}')
        gbf.create_xml()
        h = rqo.HorizonInterpretation(m, title = f'h{i}', genetic_boundary_feature = gbf)
        h.create_xml(reuse = False)
        horizons.append(str(h.uuid))
    n_ranks = ctx.integer(1, 3)
    expected = []
    ranks = []
    indices = [int(x) for x in np.sort(ctx.rng.permutation(6)[:n_ranks])]
    for r in range(n_ranks):
        ids = [int(x) for x in ctx.rng.permutation(len(uuids))[:ctx.integer(1, len(uuids))]]
        dom = ctx.choice(DOMAINS)
        meta = gen.metadata(ctx) or {}
        t = gen.title(ctx)
        direct = ctx.flag(0.7)
        index = indices[r] if n_ranks > 1 or ctx.flag() else None
        rank = rqs.StratigraphicColumnRank(m, domain = dom, rank_index = index, earth_model_feature_uuid = ef.uuid,
                                           strata_uuid_list = [uuids[i] for i in ids] if direct else None, title = t,
                                           extra_metadata = dict(meta) or None)
        unit_index = list(range(len(ids)))
        if not direct:
            if ctx.flag():
                rank.set_units([uuids[i] for i in ids])
            else:  # arbitrary increasing index values, in shuffled order
                unit_index = sorted(int(x) for x in ctx.rng.permutation(30)[:len(ids)])
                pairs = [(k, rqs.StratigraphicUnitInterpretation(m, uuid = uuids[i])) for k, i in zip(unit_index, ids)]
                rank.units = [pairs[int(x)] for x in ctx.rng.permutation(len(pairs))]
        contacts = []
        how = ctx.integer(0, 2)
        in_order = [int(k) for k, _ in rank.units] == unit_index
        if how == 1 and in_order:
            om, ym = ctx.choice([None] + MODES), ctx.choice([None] + MODES)
            hs = [horizons[int(x)] for x in ctx.rng.permutation(len(horizons))[:len(ids) - 1]]
            rank.set_contacts_from_horizons(hs, older_contact_mode = om, younger_contact_mode = ym)
            for k in range(len(ids) - 1):
                contacts.append((k, 'stratigraphic unit to stratigraphic unit', 'stops at', uuids[ids[k]], uuids[ids[k + 1]], 'older', om,
                                 'younger', ym, hs[k]))
        elif how == 2:
            nc = ctx.integer(1, 4)
            ci = sorted(int(x) for x in ctx.rng.permutation(20)[:nc])
            for k in ci:
                contacts.append((k, ctx.choice(RELS), ctx.choice(VERBS), ctx.choice(uuids + horizons), ctx.choice(uuids + horizons),
                                 ctx.choice([None] + SIDES), ctx.choice([None] + MODES), ctx.choice([None] + SIDES),
                                 ctx.choice([None] + MODES), ctx.choice([None] + horizons)))
            for x in ctx.rng.permutation(nc):
                k, rel, verb, su, do, ss, sm, ds, dm, po = contacts[int(x)]
                rank.contacts.append(
                    rqs.BinaryContactInterpretation(m, index = k, contact_relationship = rel, verb = verb, subject_uuid = su,
                                                    direct_object_uuid = do, subject_contact_side = ss, subject_contact_mode = sm,
                                                    direct_object_contact_side = ds, direct_object_contact_mode = dm,
                                                    part_of_uuid = po))
        hod = (None, None) if ctx.flag(0.7) else (ctx.choice(chrono), ctx.choice(chrono))
        rank.has_occurred_during = hod
        if in_order:
            check_rank(ctx, rank, attrs, uuids, ids, unit_index, 'created-')
        rank.create_xml()
        expected.append((str(rank.uuid), dom, index or 0, ids, unit_index, contacts, hod, meta, t))
        ranks.append(rank)
    col = None
    if ctx.flag(0.85):
        t = gen.title(ctx)
        meta = gen.metadata(ctx) or {}
        order = [int(x) for x in ctx.rng.permutation(n_ranks)]
        if ctx.flag():
            c = rqs.StratigraphicColumn(m, rank_uuid_list = [ranks[i].uuid for i in order], title = t, extra_metadata = dict(meta) or None)
        else:
            c = rqs.StratigraphicColumn(m, title = t, extra_metadata = dict(meta) or None)
            for i in order:
                c.add_rank(ranks[i])
        ctx.equal([str(r.uuid) for r in c.iter_ranks()], [e[0] for e in expected], 'created-rank-order')
        c.create_xml()
        col = (str(c.uuid), t, meta)
    grid = None
    if ctx.flag(0.4):
        nk = ctx.integer(1, 5)
        g = grr.RegularGrid(m, extent_kji = (nk, 2, 2), crs_uuid = m.crs_uuid, set_points_cached = True, as_irregular_grid = True)
        e = ctx.choice(expected)
        g.stratigraphic_column_rank_uuid = e[0]
        g.stratigraphic_units = np.sort(ctx.rng.integers(0, len(e[3]), nk))[::-1].astype(int)
        g.write_hdf5()
        g.create_xml()
        grid = (g.uuid, e[0], g.stratigraphic_units.copy())
    for cycle in range(ctx.integer(1, 2)):
        m.store_epc()
        if ctx.flag(0.25):
            m2 = rq.new_model(ctx.path(f'copy_{cycle}.epc'))
            m2.copy_all_parts_from_other_model(m, consolidate = False)
            m2.store_epc()
            m = m2
        m = rq.Model(m.epc_file)
        for i, a in enumerate(attrs):
            compare_unit(ctx, rqs.StratigraphicUnitInterpretation(m, uuid = uuids[i]), a)
        for uuid, dom, index, ids, unit_index, contacts, hod, meta, t in expected:
            r = rqs.StratigraphicColumnRank(m, uuid = uuid)
            ctx.equal((r.domain, r.index, r.title, r.extra_metadata or {}), (dom, index, t, meta), 'rank-attributes')
            ctx.equal(tuple(s(x) for x in r.has_occurred_during), hod, 'rank-occurred')
            ctx.equal(s(r.feature_uuid), str(ef.uuid), 'rank-feature')
            check_rank(ctx, r, attrs, uuids, ids, unit_index)
            ctx.equal([contact_key(c) for c in r.iter_contacts()], contacts, 'contacts')
            rel = {str(u) for u in m.uuids(related_uuid = uuid)}
            want = {uuids[i] for i in ids} | {c[-1] for c in contacts if c[-1]} | {str(ef.uuid)}
            ctx.check(want <= rel, 'rank-relationships', missing = len(want - rel))
        if col is not None:
            c = rqs.StratigraphicColumn(m, uuid = col[0])
            ctx.equal((c.title, c.extra_metadata or {}), col[1:], 'column-attributes')
            ctx.equal([str(r.uuid) for r in c.iter_ranks()], [e[0] for e in expected], 'rank-order')
            for r, e in zip(c.iter_ranks(), expected):
                check_rank(ctx, r, attrs, uuids, e[3], e[4], 'column-')
        if grid is not None:
            g = grr.Grid(m, uuid = grid[0])
            g.extract_stratigraphy() if hasattr(g, 'extract_stratigraphy') else None
            ctx.equal(s(g.stratigraphic_column_rank_uuid), grid[1], 'grid-rank')
            ctx.equal(np.asarray(g.stratigraphic_units, int), grid[2], 'grid-units')
    ctx.observe('units', len(uuids))
    ctx.observe('contacts', sum(len(e[5]) for e in expected))
    ctx.sig(len(uuids), [(e[2], e[4], len(e[5])) for e in expected], col is not None, grid is not None)


def check_rank(ctx, r, attrs, uuids, ids, unit_index, tag = ''):
    ctx.equal([str(u.uuid) for u in r.iter_units()], [uuids[i] for i in ids], tag + 'unit-order')
    ctx.equal([i for i, _ in r.units], unit_index, tag + 'unit-indices')
    for k, i in zip(unit_index, ids):
        ctx.equal(str(r.unit_for_unit_index(k).uuid), uuids[i], tag + 'unit-for-index')
        compare_unit(ctx, r.unit_for_unit_index(k), attrs[i], tag + 'rank-')
    for k in (max(unit_index) + 1, -1, min(unit_index) - 1):
        if k not in unit_index:
            ctx.check(r.unit_for_unit_index(k) is None, tag + 'unit-for-absent-index')


def other(ctx, options, v):
    return ctx.choice([o for o in options if o != v])


def feature_mutants(ctx, a, chrono):
    return [('feature-title', dict(a, title = a['title'] + '~')), ('feature-meta', dict(a, meta = dict(a['meta'], extra = 'x'))),
            ('feature-top', dict(a, top = other(ctx, [None] + chrono, a['top']))),
            ('feature-bottom', dict(a, bottom = other(ctx, [None] + chrono, a['bottom'])))]


def unit_mutants(ctx, a, chrono, generic):
    a = dict(a, title = unit_title(a))
    out = [('title', dict(a, title = a['title'] + '~')), ('meta', dict(a, meta = dict(a['meta'], extra = 'x'))),
           ('domain', dict(a, domain = other(ctx, DOMAINS, a['domain']))),
           ('composition', dict(a, composition = other(ctx, [None] + COMPOSITIONS, a['composition']))),
           ('implacement', dict(a, implacement = other(ctx, [None] + IMPLACEMENT, a['implacement']))),
           ('hod', dict(a, hod = other(ctx, [(None, None), (chrono[0], chrono[1]), (chrono[1], chrono[0]), (chrono[2], chrono[2])], a['hod'])))]
    k, f = ctx.choice(feature_mutants(ctx, a['feature'], chrono)[:2 if generic else 4])
    out.append((k, dict(a, feature = f)))
    if not generic and a['mode'] is not None:
        out.append(('mode', dict(a, mode = other(ctx, DEPOSITION, a['mode']))))
    return out


def equivalence(ctx):
    """Equivalence of features, unit interpretations and columns; creation with reuse."""
    import resqpy.model as rq
    import resqpy.strata as rqs
    m, chrono, ef = base(ctx)
    kind = ctx.choice(['feature', 'unit', 'unit', 'generic', 'column'])
    if kind == 'column':
        return column_equivalence(ctx, m, chrono, ef)
    generic = kind == 'generic'
    a = draw_feature(ctx, chrono) if kind == 'feature' else draw_unit(ctx, chrono)

    def instance(b, store = None):
        if kind == 'feature':
            o = make_feature(m, b)
        else:
            o = make_unit(ctx, m, b, reuse = ctx.flag(), generic = generic)
        if ctx.flag() if store is None else store:
            o.create_xml(reuse = False)
        return o

    x, y = instance(a), instance(a)
    ctx.check(x == x and x.is_equivalent(x), 'not-reflexive', kind = kind)
    ctx.check(x == y and y == x and not (x != y), 'equal-attributes-not-equivalent', kind = kind, attributes = str(a),
              stored = (x.root is not None, y.root is not None))
    ctx.check(not x.is_equivalent(None), 'equivalent-to-none')
    if x.root is not None and ctx.flag(0.5):
        m.store_epc()
        x = type(x)(rq.Model(m.epc_file), uuid = x.uuid)
        ctx.check(x == y and y == x, 'stored-not-equivalent', kind = kind, attributes = str(a))
    for k, b in (feature_mutants(ctx, a, chrono) if kind == 'feature' else unit_mutants(ctx, a, chrono, generic)):
        z = instance(b)
        ctx.check(not (x == z) and not (z == x) and x != z, 'differing-attribute-equivalent', kind = kind, attribute = k,
                  a = str(a), b = str(b))
        if k == 'meta':
            ctx.check(x.is_equivalent(z, check_extra_metadata = False), 'metadata-considered-despite-request', kind = kind)
        ctx.observe('mutants')
    # reuse
    w = instance(a, store = True)
    t = w.resqml_type
    n = len(m.uuids(obj_type = t))
    v = instance(a, store = False)
    n2 = len(m.uuids(obj_type = t))
    v.create_xml(reuse = True)
    ctx.equal(len(m.uuids(obj_type = t)), n2, 'reuse-duplicated', kind = kind, attributes = str(a))
    ctx.check(str(v.uuid) in [str(u) for u in m.uuids(obj_type = t)], 'reuse-uuid')
    ctx.sig(kind, str(a))


def column_equivalence(ctx, m, chrono, ef):
    import resqpy.strata as rqs
    us = []
    for _ in range(4):
        u = make_unit(ctx, m, draw_unit(ctx, chrono))
        u.create_xml(reuse = False)
        us.append(u.uuid)
    ranks = []
    for i in range(3):
        r = rqs.StratigraphicColumnRank(m, rank_index = i, earth_model_feature_uuid = ef.uuid,
                                        strata_uuid_list = [us[int(k)] for k in ctx.rng.permutation(4)[:3]], title = f'rank {i}')
        r.create_xml(reuse = False)
        ranks.append(r.uuid)
    meta = gen.metadata(ctx)
    sel = sorted(ctx.subset(list(range(3)), ctx.integer(1, 3)))

    def col(ids, em = meta):
        return rqs.StratigraphicColumn(m, rank_uuid_list = [ranks[i] for i in ids], title = 'col', extra_metadata = dict(em or {}) or None)

    x, y = col(sel), col([sel[int(k)] for k in ctx.rng.permutation(len(sel))])
    ctx.check(x == y and y == x and x.is_equivalent(x), 'column-not-equivalent')
    for ids in ([0], [0, 1], [1, 2], [0, 1, 2], [2]):
        if ids != sel:
            z = col(ids)
            ctx.check(not (x == z) and not (z == x), 'differing-columns-equivalent', a = sel, b = ids)
    z = col(sel, dict(meta or {}, extra = '1'))
    ctx.check(not (x == z) and not (z == x), 'column-metadata-ignored')
    ctx.check(x.is_equivalent(z, check_extra_metadata = False), 'column-metadata-considered')
    x.create_xml()
    y.create_xml()
    ctx.equal(str(x.uuid), str(y.uuid), 'column-reuse')
    ctx.equal(len(m.uuids(obj_type = 'StratigraphicColumn')), 1, 'column-reuse-count')
    z.create_xml()
    ctx.equal(len(m.uuids(obj_type = 'StratigraphicColumn')), 2, 'column-distinct-count')
    ctx.sig('column', sel)


SCENARIOS = [
    Scenario(columns, 120),
    Scenario(equivalence, 200),
]
