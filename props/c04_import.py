"""C04: copying parts between models preserves content and completes references."""

import os
import hashlib

import h5py
import numpy as np

from props.spec import spec
from rv import gen, zoo
from rv.core import Scenario

PROP = spec('C04')

KINDS = zoo.Maker.KINDS + ['points2', 'points2', 'polyset', 'gcs', 'fault', 'kind', 'horizoninterp', 'bodyinterp', 'fluid', 'timecrs']


class Maker(zoo.Maker):

    def add(self, m, kind):
        import resqpy.crs as rqc
        import resqpy.fault as rqf
        import resqpy.grid as grr
        import resqpy.lines as rql
        import resqpy.organize as rqo
        import resqpy.surface as rqs
        ctx = self.ctx

        def one(obj_type):
            u = m.uuids(obj_type = obj_type)
            return ctx.choice(u) if u else None

        if kind in ('points2', 'polyset'):
            c = one('LocalDepth3dCrs')
            if c is None:
                return None
            if kind == 'points2':
                o = rqs.PointSet(m, crs_uuid = c, points_array = ctx.rng.random((ctx.integer(1, 4), 3)), title = 'patchy')
                for _ in range(ctx.integer(1, 3)):
                    o.add_patch(ctx.rng.random((ctx.integer(1, 4), 3)))
                o.write_hdf5()
                o.create_xml()
                return o
            lines = [rql.Polyline(m, set_coord = ctx.rng.random((ctx.integer(2, 4), 3)), set_bool = False, set_crs = c, title = f'l{i}')
                     for i in range(ctx.integer(1, 3))]
            o = rql.PolylineSet(m, polylines = lines, title = 'lines')
            o.write_hdf5()
            o.create_xml()
            return o
        if kind == 'gcs':
            g = one('IjkGridRepresentation')
            if g is None:
                return None
            grid = grr.any_grid(m, uuid = g)
            o = rqf.GridConnectionSet.from_faces_indices(grid,
                                                         np.zeros((0, 3), dtype = int),
                                                         np.array([[0, 0, 0], [0, 0, 1]]),
                                                         np.array([[0, 0, 0]]),
                                                         feature_name = ctx.choice(['f one', 'f two']),
                                                         title = 'gcs')
            o.write_hdf5()
            o.create_xml()
            return o
        if kind == 'horizoninterp':
            u = one('GeneticBoundaryFeature')
            if u is None:
                return None
            o = rqo.HorizonInterpretation(m, title = 'hor', genetic_boundary_feature = rqo.GeneticBoundaryFeature(m, uuid = u))
            o.create_xml(reuse = False)
            return o
        if kind == 'bodyinterp':
            u = one('GeobodyFeature')
            if u is None:
                return None
            o = rqo.GeobodyInterpretation(m, title = 'body', geobody_feature = rqo.GeobodyFeature(m, uuid = u))
            o.create_xml(reuse = False)
            return o
        if kind == 'fluid':
            o = rqo.FluidBoundaryFeature(m, kind = ctx.choice(['water oil contact', 'gas oil contact']), feature_name = 'contact')
            o.create_xml(reuse = False)
            return o
        if kind == 'timecrs':
            o = rqc.Crs(m, time_units = 's', x_offset = float(self.n % 3), title = 'time crs')
            o.create_xml(reuse = False)
            return o
        return super().add(m, kind)


# XML and hdf5 fingerprints, independent of the library's own equality


def ref_nodes(root):
    return [n for n in root.iter() if isinstance(n.tag, str) and zoo.xml_type(n) == zoo.NS_REF]


def is_h5_ref(n):
    return 'EpcExternalPart' in zoo.child(n, 'ContentType').text


def ref_uuid(n):
    return zoo.child(n, 'UUID').text.strip().lower()


def short_type(n):
    return zoo.xml_type(n).split('}')[-1].split(':')[-1] if zoo.xml_type(n) else ''


def canonical(root, drop = (), cut_type = None):
    """Content of xml as nested tuples, with reference uuids removed."""
    if isinstance(root.tag, str) and zoo.xml_type(root) == zoo.NS_REF:
        return ('ref', zoo.local(root.tag), zoo.child(root, 'ContentType').text)
    kids = tuple(canonical(c, drop, cut_type) for c in root
                 if isinstance(c.tag, str) and zoo.local(c.tag) not in drop and (cut_type is None or short_type(c) != cut_type))
    attrs = tuple(sorted((k, v.split('}')[-1].split(':')[-1] if k.endswith('}type') else v) for k, v in root.attrib.items()))
    return (zoo.local(root.tag), attrs, (root.text or '').strip(), kids)


def arrays(m, root):
    """Content of all hdf5 arrays mentioned in xml, read with h5py from the default h5 file of the model."""
    paths = [n.text for n in root.iter() if isinstance(n.tag, str) and zoo.local(n.tag) == 'PathInHdfFile']
    out = {}
    if paths:
        m.h5_release()
        with h5py.File(m.h5_file_name(), 'r') as f:
            for p in paths:
                assert p in f, f'missing {p}'
                a = f[p]
                out[p] = (str(a.dtype), a.shape, a[()].tobytes())
    return out


def snapshot(m):
    """Serialised xml of every part (held objects), by uuid."""
    from lxml import etree
    return {str(m.uuid_for_part(n)): etree.tostring(m.root_for_part(n)) for n in m.list_of_parts()}


def digest(path):
    with open(path, 'rb') as f:
        return hashlib.md5(f.read()).hexdigest()


def obj_for(m, uuid):
    """Resqpy object for those classes which support equivalence."""
    import resqpy.crs as rqc
    import resqpy.organize as rqo
    import resqpy.property as rqp
    import resqpy.time_series as rqts
    t = m.type_of_uuid(uuid, strip_obj = True)
    if t.endswith('Feature') or t.endswith('Interpretation'):
        return getattr(rqo, t)(m, uuid = uuid)
    cls = {'LocalDepth3dCrs': rqc.Crs, 'LocalTime3dCrs': rqc.Crs, 'TimeSeries': rqts.TimeSeries, 'StringTableLookup': rqp.StringLookup,
           'PropertyKind': rqp.PropertyKind}.get(t)
    return None if cls is None else cls(m, uuid = uuid)


def build_pair(ctx):
    """Two models built from overlapping scripts, so that each holds equivalents of some parts of the other."""
    import resqpy.model as rq
    n = ctx.integer(6, 26)
    steps = [(ctx.choice(['crs', 'tectonic', 'grid', 'wellfeature'] if i < 4 else KINDS), ctx.integer(0, 10**6)) for i in range(n)]
    share = ctx.choice([0.0, 0.3, 0.6, 1.0])
    rng = ctx.rng
    models = []
    perturb = [ctx.flag(1 - share) for _ in steps]
    names = ['source.epc', 'target.epc']
    if ctx.flag(0.3):  # files of the same name in different directories
        names[1] = 'other/source.epc'
        os.makedirs(ctx.path('other'), exist_ok = True)
    for which in range(2):
        m = gen.model(ctx, name = names[which], crs = False)
        for i, (kind, seed) in enumerate(steps):
            if which == 1 and perturb[i]:
                if seed % 3:
                    continue
                seed += 1  # a similar but different object
            ctx.rng = np.random.default_rng(seed)
            mk = Maker(ctx)
            mk.n = i
            mk.add(m, kind)
        ctx.rng = rng
        models.append(m)
    s, t = models
    uu = [str(u) for u in s.uuids()]
    for _ in range(ctx.integer(0, 4)):
        if len(uu) > 1:
            a, b = [uu[int(i)] for i in ctx.rng.permutation(len(uu))[:2]]
            s.create_reciprocal_relationship_uuids(a, 'sourceObject', b, 'destinationObject')
    s.store_epc()
    t.store_epc()
    if ctx.flag():
        s = rq.Model(s.epc_file)
    if ctx.flag():
        t = rq.Model(t.epc_file)
    return s, t


class Watch:
    """Monitors a target model as parts are copied into it from a source model."""

    def __init__(self, ctx, s, t):
        self.ctx, self.s, self.t = ctx, s, t
        self.s_snap = snapshot(s)
        self.s_files = (digest(s.epc_file), digest(s.h5_file_name()))
        self.t_before = snapshot(t)
        self.t_own = dict(self.t_before)
        self.t_arrays = {u: arrays(t, t.root(uuid = u)) for u in self.t_before}
        self.phi = {}
        self.realization = {}
        self.cut = {}

    def closure(self, uuid, through):
        """Source uuids needed for a part; does not go beyond parts for which through() is false."""
        need, todo = set(), [uuid]
        while todo:
            u = todo.pop()
            if u in need:
                continue
            need.add(u)
            if through(u):
                todo += list(zoo.refs_in(self.s.root(uuid = u))[0])
        return need

    def after(self, uuid, consolidate, result, realization = None, cut = (), all_parts = False):
        ctx, s, t = self.ctx, self.s, self.t
        snap = snapshot(t)
        for u, x in self.t_before.items():
            ctx.check(u in snap, 'resident-part-lost', uuid = u)
            ctx.check(snap[u] == x, 'resident-part-changed', uuid = u, type = t.type_of_uuid(u))
        new = [u for u in snap if u not in self.t_before]
        requested = [uuid] if uuid is not None else [u for u in self.s_snap]
        if uuid is not None:
            ctx.check(result is not None and result in snap, 'copy-result-not-in-target', result = result)
            if not consolidate:
                ctx.equal(result, uuid, 'copied-under-another-uuid')
        needed = set()
        for r in requested:
            needed |= self.closure(r, lambda u: True)
        ctx.check(set(new) <= needed, 'unneeded-part-copied', extra = [t.type_of_uuid(u) for u in set(new) - needed])
        cut = set(cut)
        for u in new:
            self.compare(u, realization, cut)
            self.realization[u] = realization
        for r in requested:
            self.resolve(r, consolidate, uuid is not None)
        # completeness of all references, symmetric catalogue of relationships
        for u in snap:
            root = t.root(uuid = u)
            refs, h5 = zoo.refs_in(root)
            for v in refs:
                ctx.check(v in snap, 'dangling-reference', part = t.type_of_uuid(u), consolidate = consolidate)
                ctx.check(v in [str(x) for x in t.uuids(related_uuid = u, related_mode = 0)], 'reference-not-catalogued', part = t.type_of_uuid(u))
                ctx.check(u in [str(x) for x in t.uuids(related_uuid = v, related_mode = 1)], 'reference-not-catalogued', part = t.type_of_uuid(u))
            for e in h5:
                ctx.check(any(str(t.uuid_for_part(p)) == e for p in t.external_parts_list()), 'dangling-hdf5-reference', part = t.type_of_uuid(u))
        if consolidate:  # nothing new is equivalent to something that was there before
            old = [(t.type_of_uuid(u), obj_for(t, u)) for u in self.t_before]
            for u in new:
                a = obj_for(t, u)
                if a is None:
                    continue
                for typ, b in old:
                    if typ == t.type_of_uuid(u):
                        ctx.check(not (a == b), 'equivalent-part-duplicated', type = typ, title = a.title)
                        ctx.observe('equivalence_comparisons')
        # soft relationships with parts that are present
        for u in new:
            want = {str(v) for v in s.uuids(related_uuid = u)} & set(snap)
            got = {str(v) for v in t.uuids(related_uuid = u)}
            ctx.check(want <= got | {v for v in want if v in cut}, 'relationship-not-copied', type = t.type_of_uuid(u))
        self.source_unchanged()
        self.t_before = snap
        ctx.observe('copies')
        ctx.observe('parts_copied', len(new))
        return new

    def source_unchanged(self):
        ctx, s = self.ctx, self.s
        ctx.check(snapshot(s) == self.s_snap, 'source-xml-changed')
        s.h5_release()
        ctx.check((digest(s.epc_file), digest(s.h5_file_name())) == self.s_files, 'source-files-changed')

    def same_thing(self, u, v):
        """Reference to source part u may be redirected to target part v."""
        if u == v:
            return True
        a, b = obj_for(self.s, u), obj_for(self.t, v)
        self.ctx.observe('redirected_references')
        return a is not None and b is not None and type(a) is type(b) and a == b

    def compare(self, u, realization, cut):
        ctx, s, t = self.ctx, self.s, self.t
        ctx.check(u in self.s_snap, 'unknown-uuid-in-target', uuid = u)
        a, b = s.root(uuid = u), t.root(uuid = u)
        ctx.equal(t.type_of_uuid(u), s.type_of_uuid(u), 'type-changed')
        ctx.equal(t.title(uuid = u), s.title(uuid = u), 'title-changed')
        is_prop = s.type_of_uuid(u).endswith('Property')
        drop = ('RealizationIndex',) if is_prop and realization is not None else ()
        if not cut & zoo.refs_in(a)[0]:
            ctx.check(canonical(a, drop) == canonical(b, drop), 'xml-content-changed', type = s.type_of_uuid(u))
            for ra, rb in zip(ref_nodes(a), ref_nodes(b)):
                if is_h5_ref(ra):
                    continue
                ctx.check(self.same_thing(ref_uuid(ra), ref_uuid(rb)), 'reference-redirected-wrongly', type = s.type_of_uuid(u),
                          tag = zoo.local(ra.tag))
        else:
            ctx.check(not cut & zoo.refs_in(b)[0], 'reference-not-cut', type = s.type_of_uuid(u))
            left = [ref_uuid(n) for n in ref_nodes(a) if not is_h5_ref(n) and ref_uuid(n) not in cut]
            kept = [ref_uuid(n) for n in ref_nodes(b) if not is_h5_ref(n)]
            ctx.check(len(left) == len(kept) and all(self.same_thing(x, y) for x, y in zip(left, kept)), 'wrong-reference-cut')
        if is_prop and realization is not None:
            n = zoo.child(b, 'RealizationIndex')
            ctx.equal(None if n is None else n.text, str(realization), 'realization')
        ctx.equal(arrays(t, b), arrays(s, a), 'arrays-changed', type = s.type_of_uuid(u))
        ctx.observe('parts_compared')

    def resolve(self, u, consolidate, asked):
        """The part asked for is present, as itself or as an equivalent."""
        ctx, t = self.ctx, self.t
        if t.part_for_uuid(u) is not None:
            return
        ctx.check(consolidate, 'part-not-copied', type = self.s.type_of_uuid(u))
        a = obj_for(self.s, u)
        ctx.check(a is not None, 'part-not-copied', type = self.s.type_of_uuid(u))
        ctx.check(any(a == obj_for(t, v) for v in t.uuids(obj_type = self.s.type_of_uuid(u))), 'part-not-copied-nor-equivalent',
                  type = self.s.type_of_uuid(u))

    def end(self):
        """Stores and reopens the target."""
        import resqpy.model as rq
        ctx, t = self.ctx, self.t
        def rels(m):
            return {str(u): {str(v) for v in m.uuids(related_uuid = u)} for u in m.uuids()}
        before = (rels(t), {u: canonical(t.root(uuid = u)) for u in map(str, t.uuids())})
        t.store_epc()
        r = rq.Model(t.epc_file)
        after = (rels(r), {u: canonical(r.root(uuid = u)) for u in map(str, r.uuids())})
        ctx.check(before[1] == after[1], 'stored-content-differs')
        ctx.equal({k: sorted(v) for k, v in after[0].items()}, {k: sorted(v) for k, v in before[0].items()}, 'stored-relationships-differ')
        for u in self.t_own:
            ctx.equal(arrays(r, r.root(uuid = u)), self.t_arrays[u], 'resident-arrays-changed')
        self.source_unchanged()


def copying(ctx):
    s, t = build_pair(ctx)
    w = Watch(ctx, s, t)
    consolidate = ctx.flag(0.7)
    seen = []
    for step in range(ctx.integer(1, 6)):
        u = ctx.choice([str(x) for x in s.uuids()])
        op = ctx.choice(['uuid', 'uuid', 'part', 'again', 'all', 'realization', 'remove'])
        sets = [str(x) for x in s.uuids(obj_type = 'PropertySet')]
        if op == 'realization' and sets and ctx.flag():  # the number is also for the members of the set
            u = ctx.choice(sets)
        if ctx.flag(0.1):
            consolidate = not consolidate
        kw = {}
        if op == 'realization':
            kw['realization'] = ctx.integer(0, 9)
        if op == 'remove':  # a copied or resident part that nothing refers to
            free = [x for x in map(str, t.uuids()) if not t.uuids(related_uuid = x, related_mode = 1)]
            if not free:
                continue
            x = ctx.choice(free)
            if t.consolidation is not None and bu_int(x) in t.consolidation.map.values():
                continue
            t.remove_part(t.part_for_uuid(x))
            w.t_before = snapshot(t)
            w.t_own.pop(x, None)
            continue
        if op == 'all':
            if ctx.flag(0.3):
                kw['realization'] = ctx.integer(0, 9)
            t.copy_all_parts_from_other_model(s, consolidate = consolidate, **kw)
            new = w.after(None, consolidate, None, **kw)
            t.copy_all_parts_from_other_model(s, consolidate = consolidate)
            ctx.equal(sorted(snapshot(t)), sorted(w.t_before), 'copying-twice-added')
        else:
            if op == 'again' and seen:
                u = ctx.choice(seen)
            if op == 'part':
                r = t.copy_part_from_other_model(s, s.part_for_uuid(u), consolidate = consolidate, **kw)
                r = None if r is None else str(t.uuid_for_part(r))
            else:
                r = t.copy_uuid_from_other_model(s, u, consolidate = consolidate, **kw)
                r = None if r is None else str(r)
            new = w.after(u, consolidate, r, **kw)
            if t.part_for_uuid(u) is None:
                ctx.check(w.same_thing(u, r), 'result-not-equivalent')
            r2 = t.copy_uuid_from_other_model(s, u, consolidate = consolidate, **kw)
            ctx.check(str(r2) == r and set(snapshot(t)) == set(w.t_before), 'copying-twice-added')
            seen.append(u)
        ctx.log(step, op, consolidate, len(new))
        if consolidate and t.consolidation is not None:
            t.consolidation.check_map_integrity()
    w.end()
    ctx.sig(sorted(w.t_before)[:0], len(w.t_before), sorted({t.type_of_uuid(u) for u in w.t_before}))


def bu_int(u):
    import resqpy.olio.uuid as bu
    return bu.uuid_as_int(u)


def cutting(ctx):
    """Cutting references to listed uuids, or nodes of listed types, affects the copy only."""
    s, t = build_pair(ctx)
    w = Watch(ctx, s, t)
    with_refs = [u for u in map(str, s.uuids()) if zoo.refs_in(s.root(uuid = u))[0]]
    if not with_refs:
        ctx.sig('none')
        return
    import resqpy.olio.uuid as bu
    u = ctx.choice(with_refs)
    if ctx.flag(0.7):
        refs = sorted(zoo.refs_in(s.root(uuid = u))[0])
        cut = ctx.subset(refs) or [refs[0]]
        r = t.copy_uuid_from_other_model(s, u, consolidate = False, cut_refs_to_uuids = [bu.uuid_from_string(c) for c in cut])
        w.after(u, False, str(r), cut = cut)
        ctx.sig(s.type_of_uuid(u), len(refs), len(cut))
    else:
        kids = sorted({zoo.local(c.tag) for c in s.root(uuid = u) if isinstance(c.tag, str)} - {'Citation'})
        # types of nodes making up references (to objects or hdf5 data) are not sensibly cut
        types = sorted({short_type(c) for c in s.root(uuid = u) if isinstance(c.tag, str)} -
                       {'Citation', 'Hdf5Dataset', 'string', '', 'DataObjectReference', 'UuidString', 'DescriptionString', 'NameString', 'ContentType'})
        if not types:
            ctx.sig('none')
            return
        typ = ctx.choice(types)
        # references may be cut by the same call
        direct = [c for c in s.root(uuid = u) if isinstance(c.tag, str) and short_type(c) == 'DataObjectReference' and not is_h5_ref(c)]
        gone = ctx.choice(direct) if direct and ctx.flag(0.7) else None
        kw = {}
        if gone is not None:
            kw['cut_refs_to_uuids'] = [bu.uuid_from_string(ref_uuid(gone))]
        r = t.copy_uuid_from_other_model(s, u, consolidate = False, cut_node_types = [typ], **kw)
        a, b = s.root(uuid = u), t.root(uuid = u)
        same = lambda c: gone is not None and short_type(c) == 'DataObjectReference' and not is_h5_ref(c) and ref_uuid(c) == ref_uuid(gone)
        if gone is not None and any(same(d) for c in a for d in c.iter() if d is not c and isinstance(d.tag, str)):
            ctx.sig('nested')
            return
        keep = [canonical(c, cut_type = typ) for c in a if short_type(c) != typ and not same(c)]
        ctx.check([canonical(c) for c in b] == keep, 'node-type-not-cut', typ = typ, type = s.type_of_uuid(u))
        w.source_unchanged()
        ctx.sig(s.type_of_uuid(u), typ, kids)


def forced(ctx):
    """Forced copying places a part with its references redirected as the consolidation says."""
    import resqpy.olio.consolidation as cons
    s, t = build_pair(ctx)
    w = Watch(ctx, s, t)
    with_refs = [u for u in map(str, s.uuids()) if zoo.refs_in(s.root(uuid = u))[0]]
    if not with_refs:
        ctx.sig('none')
        return
    u = ctx.choice(with_refs)
    refs = sorted(zoo.refs_in(s.root(uuid = u))[0])
    t.consolidation = cons.Consolidation(t)
    phi = {}
    for r in refs:
        same = [str(x) for x in t.uuids(obj_type = s.type_of_uuid(r)) if str(x) not in phi and str(x) != r]
        if same and ctx.flag(0.7):
            phi[r] = ctx.choice(same)
            how = ctx.integer(0, 2)
            if how == 0:
                t.consolidation.force_uuid_equivalence(r, phi[r])
            elif how == 1:
                t.consolidation.force_uuid_int_equivalence(bu_int(r), bu_int(phi[r]))
            else:
                t.consolidation.force_part_equivalence(s.part_for_uuid(r), t.part_for_uuid(phi[r]))
        else:
            t.copy_uuid_from_other_model(s, r, consolidate = False)
            phi[r] = r
    if any(t.part_for_uuid(r) is not None and phi[r] != r for r in refs):
        ctx.sig('skip')
        return  # also resident: which of the two is used is not specified
    w.t_before = snapshot(t)
    r = t.copy_uuid_from_other_model(s, u, force = True, consolidate = True)
    ctx.equal(str(r), u, 'forced-result')
    a, b = s.root(uuid = u), t.root(uuid = u)
    ctx.check(canonical(a) == canonical(b), 'forced-content')
    ctx.equal([ref_uuid(n) for n in ref_nodes(b) if not is_h5_ref(n)], [phi[ref_uuid(n)] for n in ref_nodes(a) if not is_h5_ref(n)],
              'forced-references', type = s.type_of_uuid(u))
    ctx.equal(arrays(t, b), arrays(s, a), 'forced-arrays')
    ctx.equal(sorted(set(snapshot(t)) - set(w.t_before)), [u], 'forced-extra-parts')
    for v in phi.values():
        ctx.check(u in [str(x) for x in t.uuids(related_uuid = v, related_mode = 1)], 'forced-reference-not-catalogued')
    w.source_unchanged()
    ctx.sig(s.type_of_uuid(u), len(refs), sum(k != v for k, v in phi.items()))


def ordering(ctx):
    """Lists are sorted so that no consolidatable part comes before a part it may refer to."""
    import resqpy.olio.consolidation as cons
    s, _ = build_pair(ctx)
    parts = s.list_of_parts()
    shuffled = [parts[int(i)] for i in ctx.rng.permutation(len(parts))]
    keep = list(shuffled)
    got = cons.sort_parts_list(s, shuffled)
    ctx.equal(shuffled, keep, 'sort-changed-argument')
    ctx.equal(sorted(got), sorted(parts), 'sort-not-permutation')
    uu = [s.uuid_for_part(p) for p in shuffled]
    if ctx.flag():
        uu = [u.int for u in uu]
    by_uuid = [s.part_for_uuid(u) for u in cons.sort_uuids_list(s, uu)]
    ctx.equal(sorted(by_uuid), sorted(parts), 'sort-not-permutation')
    types = {s.type_of_part(p) for p in parts}
    for order in (got, by_uuid):
        pos = {p: i for i, p in enumerate(order)}
        for p in order:
            for v in zoo.refs_in(s.root_for_part(p))[0]:
                q = s.part_for_uuid(v)
                tp, tq = s.type_of_part(p, strip_obj = True), s.type_of_part(q, strip_obj = True)
                if tp != tq and tp.endswith(('Feature', 'Interpretation', 'Representation', 'Property')) and \
                        tq.endswith(('Feature', 'Interpretation', 'Crs', 'Kind', 'Lookup', 'Series')):
                    ctx.check(pos[q] < pos[p], 'referenced-part-sorted-later', part = tp, referenced = tq)
    ctx.sig(len(set(types)))


def ensemble(ctx):
    """Realizations in separate datasets gathered into one."""
    import resqpy.crs as rqc
    import resqpy.derived_model as rqdm
    import resqpy.grid as grr
    import resqpy.model as rq
    import resqpy.property as rqp
    import resqpy.time_series as rqts
    import resqpy.surface as rqs
    n = ctx.integer(2, 3)
    crs_kw = gen.crs_kwargs(ctx)
    ext = [tuple(ctx.integer(1, 3) for _ in range(3))]
    if ctx.flag(0.4):  # a second grid: perhaps of the same shape, when told apart by title
        ext.append(ext[0] if ctx.flag() else tuple(x + 1 for x in ext[0]))
    names = ['first grid', 'second grid'][:len(ext)]
    with_series, with_lookup = ctx.flag(), ctx.flag()
    table = {0: 'zero', 1: 'one', 4: 'four'}
    consolidate = ctx.flag(0.75)
    shared_grids, shared_series, lookup = ctx.flag(0.7), ctx.flag(), ctx.flag()
    epcs, truth, before = [], [], []
    for r in range(n):
        epc = ctx.path('case_%d.epc' % r)
        m = rq.new_model(epc)
        crs = rqc.Crs(m, title = 'shared crs', **crs_kw)
        crs.create_xml()
        ts = None
        if with_series:
            ts = rqts.TimeSeries(m, first_timestamp = '2001-0%d-01Z' % (1 + (r if shared_series and consolidate else 0)), title = 'reports')
            ts.extend_by_days(30)
            ts.extend_by_days(40)
            ts.create_xml()
        sl = None
        if with_lookup:
            sl = rqp.StringLookup(m, int_to_str_dict = table, title = 'facies table')
            sl.create_xml()
        grids = {}
        for x in ctx.rng.permutation(len(ext)):
            g = grr.RegularGrid(m, crs_uuid = crs.uuid, extent_kji = ext[x], dxyz = (10.0, 20.0, 5.0), origin = (0.0, 0.0, 1000.0), as_irregular_grid = True, title = names[x])
            g.write_hdf5()
            g.create_xml(write_geometry = True, add_cell_length_properties = False)
            grids[names[x]] = g
        if ctx.flag():
            ps = rqs.PointSet(m, points_array = ctx.rng.normal(size = (3, 3)), crs_uuid = crs.uuid, title = 'points %d' % r)
            ps.write_hdf5()
            ps.create_xml()
        else:
            ps = None
        for q in range(ctx.integer(1, 4)):
            name = ctx.choice(names)
            kind = ctx.choice(['porosity', 'net to gross ratio', 'fault block', 'facies', 'pressure'])
            if kind == 'facies' and sl is None or kind == 'pressure' and ts is None:
                kind = 'porosity'
            if kind in ('fault block', 'facies'):
                a = ctx.rng.choice([0, 1, 4], ext[names.index(name)]).astype(np.int32)
                kw = dict(discrete = True)
            else:
                a = ctx.rng.random(ext[names.index(name)])
                kw = dict(uom = 'kPa' if kind == 'pressure' else 'm3/m3')
            if kind == 'facies':
                kw['string_lookup_uuid'] = sl.uuid
            if kind == 'pressure':
                kw.update(time_series_uuid = ts.uuid, time_index = ctx.integer(0, 2))
            if ctx.flag(0.2):
                kw['realization'] = ctx.integer(0, 9)
            if ctx.flag(0.3):
                kw['facet_type'], kw['facet'] = 'direction', 'J'
            o = rqp.Property.from_array(m, a, 'made up', 'q%d' % q, grids[name].uuid, property_kind = kind, **kw)
            truth.append((r, name, kind, 'q%d' % q, a, kw, str(o.uuid), str(grids[name].uuid)))
        m.store_epc()
        m.h5_release()
        epcs.append(epc)
        before.append((digest(epc), digest(epc[:-4] + '.h5')))
    out = ctx.path('together.epc')
    rqdm.gather_ensemble(epcs, out, consolidate = consolidate, shared_grids = shared_grids, shared_time_series = shared_series, create_epc_lookup = lookup)
    for r, e in enumerate(epcs):
        ctx.equal((digest(e), digest(e[:-4] + '.h5')), before[r], 'source-changed')
    shared = consolidate and shared_grids
    m = rq.Model(out)
    ctx.sig('ensemble', n, tuple(ext), consolidate, shared, shared_series, len(truth))
    cat = lambda t: m.uuids(obj_type = t)
    ctx.equal(len(cat('IjkGridRepresentation')), len(ext) * (1 if shared else n), 'ensemble-grids', 'number of grids')
    ctx.equal(len(cat('LocalDepth3dCrs')), 1 if consolidate else n, 'ensemble-crs', 'number of crs objects')
    if with_lookup:
        tables = [u for u in cat('StringTableLookup') if m.title(uuid = u) == 'facies table']
        lo = 1 if any(t[2] == 'facies' and t[0] > 0 for t in truth) or not shared else 1
        ctx.check(lo <= len(tables) <= (1 if consolidate else n), 'ensemble-tables', 'number of lookup tables', got = len(tables))
        if not consolidate:
            ctx.equal(len(tables), n, 'ensemble-tables', 'each its own')
    if with_series:
        ctx.equal(len(cat('TimeSeries')), 1 if consolidate else n, 'ensemble-series', 'number of time series')
    seen = {}
    for t in ('ContinuousProperty', 'DiscreteProperty', 'CategoricalProperty'):
        for u in cat(t):
            o = rqp.Property(m, uuid = u)
            seen[str(u)] = o
    ctx.equal(sorted(seen), sorted(t[6] for t in truth), 'ensemble-properties', 'properties present')
    for r, name, kind, title, a, kw, u, gu in truth:
        o = seen[u]
        ctx.equal(o.realization(), r, 'ensemble-realization', title)
        ctx.equal((o.title, o.property_kind(), o.uom(), o.time_index(), o.facet_type(), o.facet()),
                  (title, kind, kw.get('uom'), kw.get('time_index'), kw.get('facet_type'), kw.get('facet')), 'ensemble-attributes')
        ctx.equal(np.asarray(o.array_ref()), a, 'ensemble-values')
        su = o.collection.support_uuid
        ctx.equal(m.title(uuid = su), name, 'ensemble-support', 'supporting grid')
        if shared:
            first = [str(x) for x in cat('IjkGridRepresentation')]
            ctx.check(str(su) in first, 'ensemble-support', 'not a grid present')
        else:
            ctx.equal(str(su), gu, 'ensemble-support', 'grid of the same case')
        if kind == 'facies':
            lk = o.string_lookup()
            ctx.equal({k: lk.get_string(k) for k in table}, table, 'ensemble-lookup')
        if kind == 'pressure':
            ctx.check(any(str(o.time_series_uuid()) == str(x) for x in cat('TimeSeries')), 'ensemble-series', 'time series of a property absent')
        ctx.observe('gathered properties')
    if lookup:
        l = [u for u in cat('StringTableLookup') if m.title(uuid = u) == 'ensemble epc table']
        ctx.equal(len(l), 1, 'ensemble-epc-table')
        lk = rqp.StringLookup(m, uuid = l[0])
        ctx.equal([lk.get_string(r) for r in range(n)], [e for e in epcs], 'ensemble-epc-table', 'paths')


SCENARIOS = [Scenario(copying, 90), Scenario(cutting, 30), Scenario(forced, 30), Scenario(ordering, 6), Scenario(ensemble, 30)]
