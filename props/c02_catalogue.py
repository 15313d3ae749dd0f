"""C02: the part catalogue and relationships stay consistent under any history."""

import os
import shutil
from collections import Counter

from props.spec import spec
from rv import gen, zoo
from rv.core import Scenario

PROP = spec('C02')

COPIED = ['BoundaryFeature', 'GeobodyFeature', 'FaultInterpretation', 'WellboreInterpretation', 'PointSetRepresentation', 'PolylineRepresentation',
          'ContinuousProperty', 'DiscreteProperty', 'WellboreTrajectoryRepresentation', 'OrganizationFeature']


class Shadow:
    """What the catalogue should present."""

    def __init__(self):
        self.parts = {}  # uuid str: dict(name, type, title, refs)
        self.soft = set()  # frozensets of pairs of uuid str
        self.no_rels = set()

    def add(self, uuid, name, typ, title, refs):
        self.parts[uuid] = {'name': name, 'type': typ, 'title': title, 'refs': set(refs)}

    def remove(self, uuid):
        del self.parts[uuid]
        self.soft = {e for e in self.soft if uuid not in e}
        self.no_rels.discard(uuid)

    def referencing(self, uuid):
        return {u for u, p in self.parts.items() if uuid in p['refs']}

    def relations(self, uuid):
        a = set(self.parts[uuid]['refs']) & set(self.parts)
        b = self.referencing(uuid)
        s = {v for e in self.soft if uuid in e for v in e if v != uuid} - a - b
        return a, b, s


def absorb(ctx, m, shadow, obj = None):
    """Adds to the shadow the parts that are new in the model, from their xml."""
    known = {p['name'] for p in shadow.parts.values()}
    new = []
    for name in m.parts():
        if name in known:
            continue
        root = m.root_for_part(name)
        uuid = root.attrib['uuid']
        refs, _ = zoo.refs_in(root)
        shadow.add(uuid, name, name.split('/')[-1][:-41], zoo.title_in(root), refs)
        new.append(uuid)
    return new


def str_set(ints):
    import resqpy.olio.uuid as bu
    return {str(bu.uuid_from_int(i)) for i in (ints or [])}


def verify(ctx, m, shadow, where, thorough = True):
    ext = {str(m.uuid_for_part(p)) for p in m.external_parts_list()}
    names = [p['name'] for p in shadow.parts.values()]
    ctx.equal(m.parts(), names, 'parts-list', where = where)
    ctx.equal([str(u) for u in m.uuids()], list(shadow.parts), 'uuids-list', where = where)
    ctx.equal(m.titles(), [p['title'] or '' for p in shadow.parts.values()], 'titles-list', where = where)
    ctx.equal(m.list_of_parts(), names, 'list-of-parts')
    counts = Counter(p['type'][4:] for p in shadow.parts.values())
    counts['EpcExternalPartReference'] += len(ext)
    got = dict(m.parts_count_by_type())
    got = {k: v for k, v in got.items() if 'xml' not in k.lower() and not k.startswith('application')}
    ctx.equal(got, {k: v for k, v in counts.items() if v}, 'parts-count', where = where)
    ctx.equal(m.number_of_parts(), len(m.list_of_parts(only_objects = False)), 'number-of-parts')
    ctx.check(set(names) <= set(m.list_of_parts(only_objects = False)), 'object-parts-not-in-full-list', where = where)
    for uuid, p in shadow.parts.items():
        name = p['name']
        root = m.root_for_part(name)
        ctx.check(root is not None and root.attrib['uuid'] == uuid, 'root-uuid', where = where, part = name)
        ctx.check(m.root_for_uuid(uuid) is root and m.root(uuid = uuid) is root, 'root-lookup', where = where, part = name)
        ctx.equal((m.part_for_uuid(uuid), m.part(uuid = uuid)), (name, name), 'part-for-uuid', where = where)
        ctx.equal((str(m.uuid_for_part(name)), str(m.uuid_for_root(root)), str(m.uuid(uuid = uuid))), (uuid,) * 3, 'uuid-for-part', where = where)
        ctx.equal((m.type_of_part(name), m.type_of_uuid(uuid), m.type_of_part(name, strip_obj = True), m.type_of_uuid(uuid, strip_obj = True)),
                  (p['type'], p['type'], p['type'][4:], p['type'][4:]), 'type-of-part', where = where)
        t = p['title'] or ''
        ctx.equal((m.title(uuid = uuid), m.citation_title_for_part(name)), (t, t), 'title-of-part', where = where)
        ctx.equal(m.title_for_part(name) or '', t, 'title-for-part')
        ctx.check(m.uuid_is_present(uuid), 'uuid-not-present', where = where)
        ctx.check(name in m.parts_list_of_type(p['type']) and m.parts_list_of_type(p['type'], uuid = uuid) == [name], 'parts-list-of-type')
        a, b, s = shadow.relations(uuid)
        for mode, want in ((None, a | b | s), (0, a), (1, b), (2, s)):
            got = [str(u) for u in m.uuids(related_uuid = uuid, related_mode = mode)]
            ctx.check(len(got) == len(set(got)), 'related-duplicates')
            ctx.equal(sorted(got), sorted(want), 'related-mode-' + str(mode), where = where, part = name)
        for fn, want in ((m.uuids_as_int_related_to_uuid, a | b | s), (m.uuids_as_int_referenced_by_uuid, a),
                         (m.uuids_as_int_referencing_uuid, b), (m.uuids_as_int_softly_related_to_uuid, s)):
            ctx.equal(sorted(str_set(fn(uuid)) - ext), sorted(want), 'related-ints-' + fn.__name__, where = where, part = name)
        refs, _ = zoo.refs_in(root)
        ctx.check(refs & set(shadow.parts) <= str_set(m.uuids_as_int_referenced_by_uuid(uuid)), 'xml-reference-not-related', part = name)
    ctx.observe('catalogue_comparisons', len(shadow.parts))


def verify_file(ctx, path, shadow):
    """Reads the stored epc with lxml only."""
    parts, rels, overrides = zoo.read_epc(path)
    objs = {n: r for n, r in parts.items() if not zoo.is_ext(n)}
    ctx.equal(sorted(objs), sorted(p['name'] for p in shadow.parts.values()), 'stored-part-names')
    over = [n for n, _ in overrides if not n.startswith('docProps')]
    ctx.equal(sorted(over), sorted(n for n in parts), 'stored-content-types')
    for n, ct in overrides:
        if n in parts:
            ctx.check(ct.endswith('type=' + n.split('/')[-1][:-41]), 'stored-content-type', part = n, content_type = ct)
    by_name = {p['name']: u for u, p in shadow.parts.items()}
    targets = {}
    for rn, root in rels.items():
        if rn == '_rels/.rels':
            continue
        pn = rn.replace('_rels/', '')[:-5]
        ctx.check(pn in parts, 'rels-for-absent-part', rels = rn)
        targets[pn] = set()
        for c in root:
            if c.attrib.get('TargetMode') == 'External':
                continue
            t = c.attrib['Target'].lstrip('/')
            ctx.check(t in parts, 'relationship-with-absent-part', source = pn, target = t)
            ctx.check(t not in targets[pn], 'duplicate-relationship', source = pn, target = t)
            targets[pn].add(t)
    for pn, ts in targets.items():
        for t in ts:
            ctx.check(pn in targets.get(t, ()), 'one-sided-relationship', source = pn, target = t)
    for uuid, p in shadow.parts.items():
        root = parts[p['name']]
        ctx.equal(root.attrib['uuid'], uuid, 'stored-uuid')
        ctx.equal(zoo.title_in(root) or '', p['title'] or '', 'stored-title')
        refs, h5 = zoo.refs_in(root)
        ctx.equal(sorted(refs), sorted(p['refs']), 'stored-references', part = p['name'])
        for e in h5:
            ctx.check(any(zoo.is_ext(n) and e in n for n in parts), 'dangling-hdf5-reference', part = p['name'], ext = e)
        if uuid in shadow.no_rels:
            continue
        got = {by_name[t] for t in targets.get(p['name'], set()) if not zoo.is_ext(t)}
        a, b, s = shadow.relations(uuid)
        want = {v for v in a | b | s if v not in shadow.no_rels}
        ctx.equal(sorted(got), sorted(want), 'stored-relationships', part = p['name'])
        ctx.check(not h5 or any(zoo.is_ext(t) for t in targets.get(p['name'], set())), 'stored-hdf5-relationship', part = p['name'])
    ctx.observe('files_examined')


def history(ctx):
    import resqpy.model as rq
    import resqpy.olio.uuid as bu
    m = gen.model(ctx, crs = ctx.flag(0.8))
    shadow = Shadow()
    absorb(ctx, m, shadow)
    maker = zoo.Maker(ctx)
    n_ops = ctx.integer(10, 45)
    done = Counter()
    other = None
    changed = 'yes'
    for step in range(n_ops):
        op = ctx.choice(['add'] * 6 + ['relate'] * 3 + ['copy', 'remove', 'remove', 'patch', 'store', 'import', 'source', 'reopen'])
        uu = list(shadow.parts)
        if op == 'add':
            if maker.add(m) is None:
                continue
            ctx.check(len(absorb(ctx, m, shadow)) == 1, 'add-part-count', parts = m.parts()[-3:])
        elif op == 'relate':
            if len(uu) < 2:
                continue
            a, b = [uu[int(i)] for i in ctx.rng.permutation(len(uu))[:2]]
            if a in shadow.no_rels or b in shadow.no_rels:
                continue
            ra, rb = ('sourceObject', 'destinationObject') if ctx.flag() else ('destinationObject', 'sourceObject')
            if ctx.flag():
                m.create_reciprocal_relationship_uuids(a, ra, b, rb)
            else:
                m.create_reciprocal_relationship(m.root(uuid = a), ra, m.root(uuid = b), rb)
            shadow.soft.add(frozenset((a, b)))
        elif op == 'copy':
            # a copied part has no relationships part, so it must not be one that later parts refer to
            uu = [u for u in uu if shadow.parts[u]['type'][4:] in COPIED]
            if not uu:
                continue
            a = ctx.choice(uu)
            new = bu.new_uuid()
            name = m.copy_part(bu.uuid_from_string(a), new)
            absorb(ctx, m, shadow)
            ctx.check(str(new) in shadow.parts and shadow.parts[str(new)]['name'] == name, 'copied-part-missing')
            p, q = shadow.parts[a], shadow.parts[str(new)]
            ctx.equal((p['type'], p['title'], p['refs']), (q['type'], q['title'], q['refs']), 'copied-part-differs')
            shadow.no_rels.add(str(new))
        elif op == 'remove':
            free = [u for u in uu if not shadow.referencing(u)]
            if not free:
                continue
            a = ctx.choice(free)
            m.remove_part(shadow.parts[a]['name'])
            name = shadow.parts[a]['name']
            shadow.remove(a)
            ctx.check(m.part_for_uuid(a) is None and not m.uuid_is_present(a) and m.root_for_uuid(a) is None, 'removed-part-found')
            ctx.check(m.uuids_as_int_related_to_uuid(a) in (None, set()), 'removed-part-has-relations')
            ctx.check(m.type_of_part(name) is None and m.parts(uuid = a) == [], 'removed-part-found')
        elif op == 'patch':
            if not uu:
                continue
            import copy
            a = ctx.choice(uu)
            root = copy.deepcopy(m.root(uuid = a))
            t = gen.title(ctx)
            zoo.child(zoo.child(root, 'Citation'), 'Title').text = t
            m.patch_root_for_part(shadow.parts[a]['name'], root)
            shadow.parts[a]['title'] = t
        elif op == 'source':
            if not uu:
                continue
            a = ctx.choice(uu)
            v = ctx.choice(['here', 'there', 'a & b'])
            m.set_source_for_part(shadow.parts[a]['name'], v)
            ctx.equal(m.source_for_part(shadow.parts[a]['name']), v, 'source')
        elif op == 'import':
            if other is None:
                other = gen.model(ctx, name = 'other.epc')
                om = zoo.Maker(ctx)
                for _ in range(ctx.integer(3, 10)):
                    om.add(other)
                for _ in range(ctx.integer(0, 3)):
                    ou = other.uuids()
                    if len(ou) > 1:
                        a, b = [ou[int(i)] for i in ctx.rng.permutation(len(ou))[:2]]
                        other.create_reciprocal_relationship_uuids(a, 'sourceObject', b, 'destinationObject')
                if ctx.flag():
                    other.store_epc()
                    other = rq.Model(other.epc_file)
            a = ctx.choice(other.uuids())
            m.copy_uuid_from_other_model(other, a, consolidate = False)
            new = absorb(ctx, m, shadow)
            ctx.check(str(a) in shadow.parts, 'imported-part-missing')
            for u in new:  # soft relationships between parts now present
                for v in other.uuids_as_int_softly_related_to_uuid(u) or []:
                    v = str(bu.uuid_from_int(v))
                    if v in shadow.parts:
                        shadow.soft.add(frozenset((u, v)))
        elif op == 'store':
            if ctx.flag(0.15):
                before = open(m.epc_file, 'rb').read() if os.path.exists(m.epc_file) else None
                old, new = m.epc_file, ctx.path(f'renamed{step}.epc')
                m.h5_release()
                if os.path.exists(old[:-4] + '.h5'):  # by default the hdf5 file goes by the name of the epc
                    shutil.copy(old[:-4] + '.h5', new[:-4] + '.h5')
                m.store_epc(new)
                m.h5_clear_filename_cache()
                ctx.check(os.path.samefile(m.epc_file, new), 'epc-name-after-storing', epc_file = m.epc_file)
                ctx.check(os.path.exists(old) == (before is not None), 'other-file-touched')
                ctx.check(before is None or open(old, 'rb').read() == before, 'other-file-touched')
                ctx.observe('stored_under_other_name')
            elif changed == 'no' and ctx.flag():
                before = open(m.epc_file, 'rb').read(), os.stat(m.epc_file).st_mtime_ns
                m.store_epc(only_if_modified = True)
                ctx.check((open(m.epc_file, 'rb').read(), os.stat(m.epc_file).st_mtime_ns) == before, 'unmodified-stored')
                ctx.observe('unmodified_not_stored')
            elif changed == 'yes' and ctx.flag():
                m.store_epc(only_if_modified = True)
                ctx.observe('modified_stored')
            else:
                m.store_epc()
            verify_file(ctx, m.epc_file, shadow)
            changed = 'no'
            ctx.observe('op_store')
            continue
        elif op == 'reopen':
            m.store_epc(only_if_modified = changed == 'yes' and ctx.flag())
            m = rq.Model(m.epc_file)
            changed = 'no'
        if op in ('add', 'copy', 'remove', 'import'):  # parts added or removed
            changed = 'yes'
        elif op != 'reopen' and changed == 'no':
            changed = 'maybe'
        done[op] += 1
        ctx.log(step, op)
        ctx.observe('op_' + op)
        if ctx.flag(0.5) or op in ('remove', 'copy', 'import', 'reopen'):
            verify(ctx, m, shadow, f'step {step} after {op}')
    verify(ctx, m, shadow, 'end')
    for mode in ('full', 'again'):
        m.store_epc()
        verify_file(ctx, m.epc_file, shadow)
        m = rq.Model(m.epc_file)
        verify(ctx, m, shadow, 'reopened ' + mode)
    nodes, edges = m.as_graph()
    ctx.equal(sorted(str(u) for u in nodes), sorted(shadow.parts), 'graph-nodes')
    want = set()
    for u in shadow.parts:
        a, b, s = shadow.relations(u)
        want |= {frozenset((u, v)) for v in a | b | s}
    ctx.equal(sorted(sorted(str(x) for x in e) for e in edges), sorted(sorted(e) for e in want), 'graph-edges')
    ctx.sig(sorted(done.items()), len(shadow.parts), len(want))


SCENARIOS = [Scenario(history, 160)]
