"""C01: a stored dataset presents the same objects when reopened."""

import os

import numpy as np

from props.spec import spec
from props import c04_import as c4
from rv import gen, zoo
from rv.core import Scenario
from rv.objects import Builder, alike, extras, inactive_of, norm, u_inactive

PROP = spec('C01')


def check_truth(ctx, item, view, when, tol):
    for a, want in item.truth.items():
        if a is extras:  # some classes add to the metadata
            ctx.check(all(view[a].get(k) == v for k, v in want.items()), f'{when}-metadata', kind = item.kind, got = view[a], want = want)
            continue
        if a in (u_inactive, inactive_of) and when == 'lazy':  # needs relations, which are not loaded
            continue
        ctx.check(alike(view[a], norm(want), tol), f'{when}-differs-from-written', 'attribute does not have the value given', kind = item.kind,
                  attribute = name_of(a), got = view[a], want = norm(want))
    for a, want in getattr(item, 'expect_close', {}).items():
        got = view[a]
        ctx.check(got is not None and np.shape(got) == np.shape(want), f'{when}-shape', 'array missing or of another shape', kind = item.kind, attribute = name_of(a))
        ctx.close(got, want, f'{when}-array', tol = 1.0e-6, rtol = 1.0e-6, kind = item.kind, attribute = name_of(a))


def name_of(a):
    return a if isinstance(a, str) else a.__name__


def graph(m):
    """Direct account of relations: referenced, referencing and soft, for each uuid."""
    return {str(u): [sorted(map(str, m.uuids(related_uuid = u, related_mode = k))) for k in range(3)] for u in m.uuids()}


def full_xml(root):
    """Content of xml including references."""
    refs = [(zoo.local(n.tag), zoo.child(n, 'UUID').text, (zoo.child(n, 'Title').text or '') if zoo.child(n, 'Title') is not None else '')
            for n in c4.ref_nodes(root)]
    return c4.canonical(root), refs


def contents(m):
    out = {}
    for p in m.parts():
        u = str(m.uuid_for_part(p))
        root = m.root_for_part(p)
        cit = zoo.child(root, 'Citation')
        out[u] = (m.type_of_uuid(u), m.title(uuid = u), m.citation_title_for_part(p) if hasattr(m, 'citation_title_for_part') else None,
                  [(zoo.local(c.tag), c.text) for c in cit], zoo.extra_in(root), full_xml(root))
    return out


def reopen(ctx, path, mode, k):
    import resqpy.model as rq
    if mode == 'copy':
        new = ctx.path(f'copy{k}.epc')
        return rq.Model(new, copy_from = path), new
    if mode == 'lazy':
        return rq.Model(path, full_load = False), path
    if mode == 'context':
        with rq.ModelContext(path, mode = 'r') as m:
            return m, path
    if mode == 'moved':
        d = ctx.path(f'elsewhere{k}')
        os.mkdir(d)
        new = os.path.join(d, os.path.basename(path))
        os.rename(path, new)
        os.rename(path[:-4] + '.h5', new[:-4] + '.h5')
        return rq.Model(new), new
    return rq.Model(path), path


def dataset(ctx, kinds = None, n = None):
    """Builds, stores and reopens datasets over several cycles."""
    m = gen.model(ctx, 'first.epc', crs = ctx.flag(0.7))
    path = m.epc_file
    items = []
    views = {}
    n = ctx.integer(2, 14) if n is None else n
    cycles = ctx.integer(1, 3)
    modes = []
    all_kinds = []
    for k in range(cycles):
        b = Builder(ctx, m)
        for i in range(n if k == 0 else ctx.integer(0, 4)):
            b.add(ctx.choice(kinds) if kinds else None)
        for it in b.items:
            check_truth(ctx, it, it.view(it.obj), 'made', 1.0e-12)
            views[it.uuid] = it.view(it.obj)
            all_kinds.append(it.kind)
        items += b.items
        if not items:
            return
        if modes and modes[-1] == 'copy' or ctx.flag(0.8) or not modes:
            m.store_epc(**({'only_if_modified': True} if ctx.flag(0.2) else {}))
        elif b.items:
            m.store_epc()
        before, rel = contents(m), graph(m)
        parts = {str(m.uuid_for_part(p)): p for p in m.parts()}
        m.h5_release()
        mode = ctx.choice(['plain', 'plain', 'lazy', 'copy', 'context', 'moved'])
        modes.append(mode)
        m, path = reopen(ctx, path, mode, k)
        if mode != 'lazy':
            after = contents(m)
            ctx.equal(sorted(after), sorted(before), 'parts-present', modes = modes)
            for u in before:
                if before[u] != after[u]:
                    for x, y, what in zip(before[u], after[u], ('type', 'title', 'citation title', 'citation', 'metadata', 'xml')):
                        ctx.check(x == y, 'xml-differs', uuid = u, type = before[u][0], what = what, modes = modes)
            now = graph(m)
            for u in rel:
                ctx.equal(now[u][0], rel[u][0], 'references-differ', type = before[u][0], modes = modes)
                ctx.equal(now[u][1], rel[u][1], 'referencing-differ', type = before[u][0], modes = modes)
                ctx.equal(now[u][2], rel[u][2], 'soft-relations-differ', type = before[u][0], modes = modes)
        ctx.equal({str(m.uuid_for_part(p)): p for p in m.parts()}, parts, 'part-names', modes = modes)
        order = list(ctx.rng.permutation(len(items)))
        for i in order:
            it = items[i]
            o = it.load(m, it.uuid if ctx.flag() else m.uuid(uuid = it.uuid))
            ctx.check(isinstance(o, type(it.obj)), 'class-differs', kind = it.kind, got = type(o).__name__)
            v = it.view(o)
            check_truth(ctx, it, v, 'lazy' if mode == 'lazy' else 'reloaded', 1.0e-6 if it.kind in ('crs', 'timecrs') else 1.0e-12)
            for a, x in views[it.uuid].items():
                tol = 1.0e-6 if it.kind in ('property', 'pointsproperty', 'crs', 'timecrs') else 1.0e-12
                if a == 'originator' and x is None or mode == 'lazy' and a in (u_inactive, inactive_of):
                    continue
                if a is extras:
                    ctx.check(all(v[a].get(kk) == xx for kk, xx in x.items()), 'metadata-differs', kind = it.kind, got = v[a], want = x)
                    continue
                ctx.check(alike(v[a], x, tol), 'attribute-differs', 'attribute after reopening', kind = it.kind, attribute = name_of(a), got = v[a], want = x,
                          modes = modes)
            ctx.observe('objects_compared')
            ctx.observe('kind_' + it.kind)
        if mode == 'lazy':
            m = __import__('resqpy.model', fromlist = ['x']).Model(path)
    m.h5_release()
    ctx.sig(sorted(all_kinds), modes)


def one_kind(ctx):
    """A dataset dominated by a single class, for even coverage of classes."""
    k = Builder.KINDS[ctx.index % len(Builder.KINDS)] if hasattr(ctx, 'index') else ctx.choice(Builder.KINDS)
    dataset(ctx, kinds = [k], n = ctx.integer(1, 4))


SCENARIOS = [
    Scenario(dataset, quick = 220, name = 'dataset'),
    Scenario(one_kind, quick = 275, name = 'one_kind'),
]
