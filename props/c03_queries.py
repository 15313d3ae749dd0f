"""C03: catalogue queries return exactly the parts that satisfy every filter."""

import copy
import itertools

from props.spec import spec
from rv import gen, zoo
from rv.core import Scenario

PROP = spec('C03')

MODES = ['is', 'starts', 'ends', 'contains', 'is not', 'does not start', 'does not end', 'does not contain']


def title_holds(part_title, title, mode, case):
    a, b = (part_title or '').strip(), title.strip()
    if not case:
        a, b = a.upper(), b.upper()
    base = mode.replace('does not ', '').replace('is not', 'is')
    base = {'start': 'starts', 'end': 'ends', 'contain': 'contains'}.get(base, base)
    held = {'is': a == b, 'starts': a[:len(b)] == b, 'ends': b == '' or a[-len(b):] == b, 'contains': a.find(b) >= 0}[base]
    return held if 'not' not in mode else not held


class View:
    """Independent view of the parts of a model, read from the xml."""

    def __init__(self, m, soft):
        self.parts = {}
        for name in m.list_of_parts():
            root = m.root_for_part(name)
            refs, _ = zoo.refs_in(root)
            self.parts[name] = {
                'uuid': root.attrib['uuid'],
                'type': name.split('/')[-1][:-41],
                'title': (zoo.title_in(root) or '').strip(),
                'extra': zoo.extra_in(root),
                'refs': refs,
                'created': zoo.child(zoo.child(root, 'Citation'), 'Creation').text,
                'support': self.support(root),
                'root': root,
                'top': {},
            }
            for c in root:
                if isinstance(c.tag, str):
                    self.parts[name]['top'].setdefault(zoo.local(c.tag), c.text)
        self.soft = soft

    @staticmethod
    def support(root):
        s = zoo.child(root, 'SupportingRepresentation')
        return None if s is None else zoo.child(s, 'UUID').text

    def refs_of(self, uuid):
        return next((p['refs'] for p in self.parts.values() if p['uuid'] == uuid), set())

    def related(self, uuid, mode):
        present = {p['uuid'] for p in self.parts.values()}
        to = self.refs_of(uuid)
        by = {p['uuid'] for p in self.parts.values() if uuid in p['refs']}
        soft = {v for e in self.soft if uuid in e for v in e if v != uuid} - to - by
        return {None: to | by | soft, 0: to, 1: by, 2: soft}[mode] & present

    def filter(self, names, kw):
        out = []
        for n in names:
            p = self.parts[n]
            if kw.get('uuid') is not None and p['uuid'] != str(kw['uuid']):
                continue
            if kw.get('obj_type') and p['type'] not in (kw['obj_type'], 'obj_' + kw['obj_type']):
                continue
            if kw.get('title') and not title_holds(p['title'], kw['title'], kw.get('title_mode', 'is'),
                                                   kw.get('title_case_sensitive', False)):
                continue
            if any(p['top'].get(k) != str(v) for k, v in kw.get('metadata', {}).items()):
                continue
            if any(k not in p['extra'] or p['extra'][k] != v for k, v in kw.get('extra', {}).items()):
                continue
            if kw.get('related_uuid') is not None and p['uuid'] not in self.related(str(kw['related_uuid']), kw.get('related_mode')):
                continue
            if kw.get('epc_subdir'):
                want = kw['epc_subdir'].strip('/').split('/')
                if n.split('/')[:-1][:len(want)] != want:
                    continue
            out.append(n)
        return out


def build(ctx):
    import resqpy.model as rq
    import resqpy.olio.uuid as bu
    m = gen.model(ctx)
    maker = zoo.Maker(ctx)
    for _ in range(ctx.integer(6, 24)):
        maker.add(m)
    soft = set()
    uu = [str(u) for u in m.uuids()]
    for _ in range(ctx.integer(0, 6)):
        a, b = [uu[int(i)] for i in ctx.rng.permutation(len(uu))[:2]]
        m.create_reciprocal_relationship_uuids(a, 'sourceObject', b, 'destinationObject')
        soft.add(frozenset((a, b)))
    # similar titles, odd cases and padding
    stems = [gen.title(ctx) or 'x' for _ in range(2)] + ['Top', 'Base Top', 'Straße', 'İx']
    for n in m.parts():
        if ctx.flag(0.7):
            t = ctx.choice(stems)
            t = ctx.choice([t, t.upper(), t.lower(), t + ' 1', 'the ' + t, ' ' + t + ' ', t[:2], 'x'])
            zoo.child(zoo.child(m.root_for_part(n), 'Citation'), 'Title').text = t
    m.set_modified()
    # extra metadata, some of it similar
    for n in m.parts():
        if ctx.flag(0.4):
            from resqpy.olio import xml_et as rqet
            root = m.root_for_part(n)
            rqet.create_metadata_xml(root, {ctx.choice(['k1', 'k2', 'K1']): ctx.choice(['v', 'V', '1', '1.0', 'a b'])})
    # creation dates, unique unless told otherwise
    order = ctx.rng.permutation(len(m.parts()))
    for i, n in enumerate(m.parts()):
        k = int(order[i])
        zoo.child(zoo.child(m.root_for_part(n), 'Citation'), 'Creation').text = f'20{10 + k % 7}-{1 + k % 12:02d}-{1 + k // 12:02d}T10:{k:02d}:00Z'
    if ctx.flag(0.4):
        m.store_epc()
        m = rq.Model(m.epc_file)
        ctx.observe('reopened')
    # parts in sub-directories (not stored)
    subdirs = []
    if ctx.flag(0.5):
        base = [n for n in m.parts() if 'Feature' in n]
        for _ in range(ctx.integer(1, 5)):
            if not base:
                break
            n = ctx.choice(base)
            d = ctx.choice(['sub', 'sub/inner', 'subway', 'other'])
            root = copy.deepcopy(m.root_for_part(n))
            u = bu.new_uuid()
            root.attrib['uuid'] = str(u)
            zoo.child(zoo.child(root, 'Citation'), 'Creation').text = f'2009-01-01T10:00:{len(subdirs):02d}Z'
            m.add_part(m.type_of_part(n), u, root, add_relationship_part = False, epc_subdir = d)
            subdirs.append(d)
    return m, soft, subdirs


def pick_filters(ctx, m, view, subdirs):
    import resqpy.olio.uuid as bu
    kw = {}
    names = list(view.parts)
    target = view.parts[ctx.choice(names)]  # most filters are drawn towards one part, so that combinations can be satisfied
    pick = lambda: target if ctx.flag(0.7) else view.parts[ctx.choice(names)]
    if ctx.flag(0.4):
        t = pick()['type']
        kw['obj_type'] = t[4:] if ctx.flag() else t
        if ctx.flag(0.05):
            kw['obj_type'] = ctx.choice(['NoSuchThing', 'obj_Grid2dRepresentation'])
    if ctx.flag(0.1):
        u = bu.uuid_from_string(pick()['uuid']) if ctx.flag(0.9) else bu.new_uuid()
        kw['uuid'] = u if ctx.flag() else str(u)
    if ctx.flag(0.5):
        t = (pick()['title'] or 'x')
        how = ctx.integer(0, 5)
        if how == 1:
            t = t[:max(1, len(t) // 2)]
        elif how == 2:
            t = t[len(t) // 2:]
        elif how == 3:
            t = t[1:-1] or t
        elif how == 4:
            t = t.swapcase()
        if not t.strip():
            t = 'top'
        kw['title'] = t
        if ctx.flag(0.8):
            kw['title_mode'] = ctx.choice(MODES)
        if ctx.flag(0.5):
            kw['title_case_sensitive'] = ctx.flag()
    if ctx.flag(0.25):
        top = {k: v for k, v in pick()['top'].items() if v and v.strip() and k not in ('ExtraMetadata',)}
        if top:
            kw['metadata'] = {k: top[k] for k in ctx.subset(sorted(top))[:2]}
            if ctx.flag(0.2):
                kw['metadata'][ctx.choice(['Domain', 'Count', 'Nonesuch'])] = ctx.choice(['depth', 4, 'none'])
    if ctx.flag(0.25):
        e = pick()['extra']
        if e:
            kw['extra'] = {k: e[k] for k in ctx.subset(sorted(e))[:2]}
        else:
            kw['extra'] = {'k1': 'v'}
        if ctx.flag(0.3):
            kw['extra'][ctx.choice(['k1', 'k2', 'K1'])] = ctx.choice(['v', 'V', '1'])
    if ctx.flag(0.3):
        rel = None
        mode = ctx.choice([None, 0, 1, 2])
        cands = [p['uuid'] for p in view.parts.values() if target['uuid'] in view.related(p['uuid'], mode)]
        if cands and ctx.flag(0.8):
            rel = ctx.choice(cands)
        else:
            rel = pick()['uuid'] if ctx.flag(0.9) else str(bu.new_uuid())
        kw['related_uuid'] = rel if ctx.flag() else bu.uuid_from_string(rel)
        if mode is not None or ctx.flag():
            kw['related_mode'] = mode
    if ctx.flag(0.4 if subdirs else 0.05):
        kw['epc_subdir'] = ctx.choice(['sub', '/sub', 'sub/', '/sub/inner', 'sub/inner', 'other', 'way', 'inner', 'su'])
    return kw


def queries(ctx):
    m, soft, subdirs = build(ctx)
    view = View(m, soft)
    ctx.check(set(view.parts) == set(m.parts()), 'parts')
    sizes = set()
    for q in range(ctx.integer(25, 45)):
        kw = pick_filters(ctx, m, view, subdirs)
        names = m.list_of_parts()
        base = None
        if ctx.flag(0.3):
            base = [names[int(i)] for i in ctx.rng.permutation(len(names))[:ctx.integer(0, len(names))]]
            kw['parts_list'] = list(base)
        want = view.filter(names if base is None else base, kw)
        what = {k: str(v) for k, v in kw.items()}
        got = m.parts(**kw)
        ctx.equal(got, want, 'parts-filter', filters = what)
        if base is not None:
            ctx.equal(kw['parts_list'], base, 'input-list-changed')
        sort = ctx.choice([None, 'newest', 'oldest', 'title', 'uuid', 'type'])
        skw = dict(kw)
        if sort is not None or ctx.flag():
            skw['sort_by'] = sort
        key = {'newest': lambda n: view.parts[n]['created'], 'oldest': lambda n: view.parts[n]['created'],
               'title': lambda n: view.parts[n]['title'] or '', 'uuid': lambda n: view.parts[n]['uuid'],
               'type': lambda n: view.parts[n]['type'] + '_' + view.parts[n]['uuid']}.get(sort)
        ordered = want
        if sort == 'type':
            ordered = sorted(want)  # parts in subdirectories group by directory
            if not any('/' in n for n in want):
                ordered = sorted(want, key = key)
        elif key is not None:
            ordered = sorted(want, key = key, reverse = sort == 'newest')
        got = m.parts(**skw)
        ctx.equal(got, ordered, 'parts-sorted', filters = what, sort_by = sort)
        ctx.equal([str(u) for u in m.uuids(**skw)], [view.parts[n]['uuid'] for n in ordered], 'uuids', filters = what, sort_by = sort)
        ctx.equal([(t or '').strip() for t in m.titles(**skw)], [view.parts[n]['title'] or '' for n in ordered], 'titles', filters = what, sort_by = sort)
        roots = m.roots(**skw)
        ctx.check(len(roots) == len(ordered) and all(a is view.parts[n]['root'] for a, n in zip(roots, ordered)), 'roots', filters = what)
        # single item forms
        for mh in (None, 'exception', 'first', 'none', 'oldest', 'newest'):
            hkw = dict(kw)
            if mh is not None:
                hkw['multiple_handling'] = mh
            if len(want) > 1 and mh in (None, 'exception'):
                for f in (m.part, m.uuid, m.title, m.root):
                    ctx.raises(ValueError, lambda: f(**hkw), 'multiple-not-refused')
                continue
            if not want:
                pick = None
            elif len(want) == 1 or mh == 'first':
                pick = want[0]
            elif mh == 'none':
                pick = None
            else:
                pick = (min if mh == 'oldest' else max)(want, key = lambda n: view.parts[n]['created'])
            ctx.equal(m.part(**hkw), pick, 'part-single', filters = what, handling = mh)
            u = m.uuid(**hkw)
            ctx.equal(None if u is None else str(u), None if pick is None else view.parts[pick]['uuid'], 'uuid-single', handling = mh)
            ctx.equal((m.title(**hkw) or '').strip(), (view.parts[pick]['title'] or '') if pick else '', 'title-single', handling = mh)
            r = m.root(**hkw)
            ctx.check(r is (view.parts[pick]['root'] if pick else None), 'root-single', handling = mh)
        sizes.add((tuple(sorted(k for k in kw)), min(len(want), 3)))
        ctx.observe('queries')
        ctx.observe('empty_result' if not want else 'sole_result' if len(want) == 1 else 'many_results')
    # older style queries
    for t in {p['type'] for p in view.parts.values()} | {'obj_Nonesuch'}:
        want = [n for n in view.parts if view.parts[n]['type'] == t]
        ctx.equal(m.parts_list_of_type(t), want, 'parts-list-of-type')
        ctx.equal(m.parts_list_of_type(t[4:]), want, 'parts-list-of-type')
        ctx.equal(m.parts_count_by_type(t), [(t[4:], len(want))] if want else [], 'parts-count-by-type')
    counts = dict(m.parts_count_by_type())
    ctx.equal({k: v for k, v in counts.items() if 'External' not in k},
              {t[4:]: sum(p['type'] == t for p in view.parts.values()) for t in {p['type'] for p in view.parts.values()}}, 'parts-count')
    ctx.equal(dict(m.parts_count_dict()), counts, 'parts-count-dict')
    ctx.equal(list(counts), sorted(counts), 'parts-count-order')
    for n, p in itertools.islice(view.parts.items(), 8):
        ctx.equal(m.part_for_uuid(p['uuid']), n, 'part-for-uuid')
        ctx.check(m.root_for_uuid(p['uuid']) is p['root'], 'root-for-uuid')
        ctx.equal(str(m.uuid_for_part(n)), p['uuid'], 'uuid-for-part')
        ctx.equal(str(m.uuid_for_root(p['root'])), p['uuid'], 'uuid-for-root')
        ctx.equal(m.type_of_part(n), p['type'], 'type-of-part')
        ctx.equal(m.type_of_part(n, strip_obj = True), p['type'][4:], 'type-of-part')
        ctx.equal(m.type_of_uuid(p['uuid'], strip_obj = True), p['type'][4:], 'type-of-uuid')
        ctx.equal((m.title_for_part(n) or '').strip(), p['title'] or '', 'title-for-part')
        ctx.equal(m.citation_title_for_part(n) or '', p['title'] or '', 'title-for-part')
        ctx.equal((m.title_for_root(p['root']) or '').strip(), p['title'] or '', 'title-for-root')
        ctx.equal(m.source_for_part(n), p['extra'].get('source'), 'source-for-part')
        if p['support'] is not None:
            ctx.equal(str(m.supporting_representation_for_part(n)), p['support'], 'supporting-representation')
        ctx.equal(m.parts_list_filtered_by_supporting_uuid(m.list_of_parts(), p['uuid']),
                  [k for k, v in view.parts.items() if v['support'] == p['uuid']], 'filtered-by-supporting')
        ctx.equal(m.parts_list_filtered_by_related_uuid(m.list_of_parts(), p['uuid']) or [],
                  [k for k, v in view.parts.items() if v['uuid'] in view.related(p['uuid'], None)], 'filtered-by-related')
        ctx.equal(m.parts_list_related_to_uuid_of_type(p['uuid'], 'IjkGridRepresentation') or [],
                  [k for k, v in view.parts.items() if v['type'] == 'obj_IjkGridRepresentation' and
                   v['uuid'] in view.related(p['uuid'], None)], 'related-of-type')
    names = m.list_of_parts()
    shuffled = [names[int(i)] for i in ctx.rng.permutation(len(names))]
    ctx.equal(m.sort_parts_list_by_timestamp(shuffled), sorted(names, key = lambda n: view.parts[n]['created'], reverse = True), 'sort-by-timestamp')
    ctx.sig(sorted(sizes), len(view.parts))


SCENARIOS = [Scenario(queries, 70)]
