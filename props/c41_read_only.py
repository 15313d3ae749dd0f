"""C41: reading a dataset never alters its files."""

import hashlib
import os
import pickle
import sys

import h5py
import numpy as np

from props.spec import spec
from rv import gen, gridgen, poke
from rv.core import Scenario
from rv.objects import Builder

PROP = spec('C41')


class Watch:
    """Records what is opened, made or removed below a directory, by python code or by h5py."""

    _current = None
    _hooked = False

    def __init__(self, root):
        self.root = os.path.realpath(root)
        self.on = False
        self.h5 = []  # h5py file objects and mode
        self.events = []
        self.reads = 0
        if not Watch._hooked:
            Watch._hooked = True
            sys.addaudithook(Watch._audit)

    def below(self, p):
        try:
            return os.path.realpath(os.fspath(p)).startswith(self.root + os.sep)
        except (TypeError, ValueError):
            return False

    @staticmethod
    def _audit(event, args):
        w = Watch._current
        if w is None or not w.on:
            return
        if event == 'open':
            path, mode, flags = args
            if isinstance(path, (str, bytes)) and w.below(path):
                if flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND):
                    w.events.append(('open', str(path), mode, flags))
                else:
                    w.reads += 1
        elif event in ('os.remove', 'os.rename', 'os.mkdir', 'os.rmdir', 'os.truncate', 'os.chmod', 'os.utime', 'os.link', 'os.symlink', 'shutil.copyfile', 'shutil.move',
                       'shutil.rmtree', 'shutil.copymode'):
            if any(w.below(a) for a in (args[1:] if event == 'shutil.copyfile' else args) if isinstance(a, (str, bytes))):
                w.events.append((event,) + tuple(str(a) for a in args))

    def __enter__(self):
        w = self
        self.plain = plain = h5py.File

        class File(plain):

            def __init__(self, name, mode = 'r', *a, **k):
                if w.on and w.below(name):
                    if mode != 'r':
                        w.events.append(('h5', str(name), mode))
                    w.reads += 1
                plain.__init__(self, name, mode, *a, **k)
                w.h5.append((self, mode))

        h5py.File = File
        Watch._current = self
        self.on = True
        return self

    def __exit__(self, *a):
        h5py.File = self.plain
        self.on = False
        Watch._current = None

    def open_now(self):
        return [(f.filename, mode) for f, mode in self.h5 if f]


def snapshot(root):
    out = {}
    for d, _, names in os.walk(root):
        for n in names:
            p = os.path.join(d, n)
            s = os.stat(p)
            out[os.path.relpath(p, root)] = (hashlib.sha1(open(p, 'rb').read()).hexdigest(), s.st_size, s.st_mtime_ns, s.st_mode, s.st_ino)
        out[os.path.relpath(d, root) + '/'] = None
    return out


def build(ctx, name = 'data.epc'):
    """A stored dataset of many classes; returns its path and the items made."""
    os.makedirs(ctx.path('set'), exist_ok = True)
    m = gen.model(ctx, os.path.join('set', name))
    b = Builder(ctx, m)
    for _ in range(ctx.integer(1, 8)):
        b.add(None)
    if ctx.flag():
        b.add('property')
    if ctx.flag():
        r = gridgen.random_grid(ctx, max_n = (3, 4, 4), min_n = (1, 2, 2))
        r.persist(m)
    m.store_epc()
    m.h5_release()
    return m.epc_file, b.items


def look(ctx, m, items, n):
    """Asks a model for things, in random order; failures to answer are not of interest here."""
    import resqpy.model as rq
    import resqpy.property as rqp
    asked = 0
    for _ in range(n):
        what = ctx.choice(['item', 'item', 'item', 'object', 'model', 'arrays', 'collection', 'query', 'derive'])
        try:
            if what == 'item' and items:
                it = ctx.choice(items)
                it.view(it.load(m, it.uuid))
            elif what == 'object' and items:
                it = ctx.choice(items)
                o = it.load(m, it.uuid)
                qs = poke.queries(o)
                for _ in range(ctx.integer(1, 6)):
                    if qs:
                        answer(o, ctx.choice(qs))
                        asked += 1
                for a in poke.attributes(o):
                    getattr(o, a)
            elif what == 'model':
                answer(m, ctx.choice(poke.queries(m)))
            elif what == 'arrays':
                arrays(ctx, m)
            elif what == 'collection':
                u = ctx.choice([u for u in m.uuids() if m.type_of_uuid(u, strip_obj = True) in SUPPORTS])
                pc = rqp.PropertyCollection()
                pc.set_support(support_uuid = u, model = m)
                for p in pc.parts():
                    pc.cached_part_array_ref(p)
                answer(pc, ctx.choice(poke.queries(pc)))
            elif what == 'query':
                u = ctx.choice(m.uuids())
                m.uuids(related_uuid = u)
                m.parts(title_mode = 'contains', title = 'a', title_case_sensitive = False)
                m.root(uuid = u)
                m.title(uuid = u)
                m.source_for_part(m.part_for_uuid(u))
                m.supporting_representation_for_part(m.part_for_uuid(u))
            elif what == 'derive':
                derive(ctx, m)
            asked += 1
        except Exception:
            ctx.observe('no answer')
            ctx.observe('no answer ' + what)
    return asked


def answer(o, name):
    r = getattr(o, name)()
    if hasattr(r, '__next__'):
        for _ in r:
            pass
    return r


def arrays(ctx, m):
    import resqpy.olio.xml_et as rqet
    nodes = [(p, n) for p in m.parts() for n in m.root_for_part(p).iter() if rqet.stripped_of_prefix(n.tag) == 'PathInHdfFile']
    if not nodes:
        return
    p, n = ctx.choice(nodes)
    up = n.getparent()
    key = m.h5_uuid_and_path_for_node(up.getparent(), tag = rqet.stripped_of_prefix(up.tag))
    if key is None:
        return
    m.h5_array_shape_and_type(key)
    m.h5_array_element(key, cache_array = False, object = None, array_attribute = 'x')
    if ctx.flag():
        m.h5_release()


def derive(ctx, m):
    """Work in memory on what has been read."""
    import resqpy.grid as grr
    import resqpy.surface as rqs
    import resqpy.model as rq
    ks = ['new model', 'unsaved', 'h5 name']
    ks += ['grid'] * bool(m.uuids(obj_type = 'IjkGridRepresentation')) + ['surface'] * bool(m.uuids(obj_type = 'TriangulatedSetRepresentation'))
    k = ctx.choice(ks)
    if k == 'grid':
        g = grr.any_grid(m, uuid = ctx.choice(m.uuids(obj_type = 'IjkGridRepresentation')))
        g.cache_all_geometry_arrays()
        g.corner_points(cache_cp_array = True)
        g.extract_property_collection()
        g.extract_inactive_mask()
    elif k == 'surface':
        s = rqs.Surface(m, uuid = ctx.choice(m.uuids(obj_type = 'TriangulatedSetRepresentation')))
        s.triangles_and_points()
        s.sample_z_at_xy_points(np.zeros((1, 2)))
    elif k == 'new model':
        other = rq.Model(ctx.path(f'new{ctx.integer(0, 10**9)}.epc'), new_epc = True, create_basics = True, create_hdf5_ext = True)
        if ctx.flag():
            other.copy_all_parts_from_other_model(m)
        else:
            other.copy_uuid_from_other_model(m, ctx.choice(m.uuids()))
        other.store_epc()
        other.h5_release()
    elif k == 'unsaved':
        import resqpy.crs as rqc
        c = rqc.Crs(m, title = 'not kept')
        c.create_xml(reuse = ctx.flag())
        if ctx.flag():
            m.remove_part(m.part_for_uuid(ctx.choice(m.uuids())))
    else:
        m.h5_file_name()
        m.h5_access(mode = 'r')
        if ctx.flag():
            m.h5_release()


def verify(ctx, w, root, before, sig):
    ctx.check(not w.events, 'write-access', 'opened for writing or changed', events = w.events[:4], **sig)
    after = snapshot(root)
    ctx.equal(sorted(after), sorted(before), 'files-present', 'files in directory', **sig)
    for n in before:
        if before[n] is not None:
            ctx.equal(after[n][0], before[n][0], 'bytes', 'content of file', file = n, **sig)
            ctx.equal(after[n][1:], before[n][1:], 'status', 'size, time, mode or inode of file', file = n, **sig)
    ctx.observe('reads', w.reads)


def opened(ctx, path, how):
    import resqpy.model as rq
    if how == 'plain':
        return rq.Model(path)
    if how == 'lazy':
        return rq.Model(path, full_load = False)
    if how == 'loaded':
        m = rq.Model()
        m.load_epc(path)
        return m
    if how == 'relative':
        return rq.Model(os.path.relpath(path))
    return rq.Model(epc_file = path, quiet = True)


SUPPORTS = ('IjkGridRepresentation', 'UnstructuredGridRepresentation', 'WellboreFrameRepresentation', 'BlockedWellboreRepresentation', 'PointSetRepresentation',
            'TriangulatedSetRepresentation', 'PolylineRepresentation', 'PolylineSetRepresentation', 'Grid2dRepresentation', 'GridConnectionSetRepresentation',
            'WellboreMarkerFrameRepresentation')
HOW = ['plain', 'plain', 'lazy', 'loaded', 'relative', 'quiet']


def one_reader(ctx):
    """Any sequence of requests through one model."""
    path, items = build(ctx)
    root = os.path.dirname(path)
    before = snapshot(root)
    how = ctx.choice(HOW)
    with Watch(root) as w:
        m = opened(ctx, path, how)
        n = look(ctx, m, items, ctx.integer(1, 12))
        held = w.open_now()
        ctx.check(all(k == 'r' for _, k in held), 'left-for-writing', files = held)
        m.h5_release()
        ctx.equal(w.open_now(), [], 'left-open', 'array files open after release')
        del m
    verify(ctx, w, root, before, {'how': how})
    ctx.sig(how, tuple(sorted(i.kind for i in items)))


def context_manager(ctx):
    """The context manager in read mode discards changes and closes files, even after an exception."""
    import resqpy.model as rq
    path, items = build(ctx)
    root = os.path.dirname(path)
    before = snapshot(root)
    fails = ctx.flag(0.3)
    mode = ctx.choice(['r', 'read', None])
    with Watch(root) as w:
        try:
            with rq.ModelContext(path, **({} if mode is None else {'mode': mode})) as m:
                look(ctx, m, items, ctx.integer(1, 8))
                if ctx.flag():
                    derive(ctx, m)
                m.set_modified()
                if ctx.flag():
                    m.h5_access(mode = 'r') if m.h5_file_name() is not None else None
                if fails:
                    raise KeyError('from within')
        except KeyError:
            pass
        except Exception:
            ctx.observe('no answer')
        ctx.equal(w.open_now(), [], 'left-open', 'array files open after context')
    verify(ctx, w, root, before, {'mode': mode, 'fails': fails})
    if ctx.flag():  # in read/write mode an exception means nothing is stored
        with Watch(root) as w:
            try:
                with rq.ModelContext(path, mode = 'rw') as m:
                    look(ctx, m, items, 2)
                    raise KeyError('from within')
            except KeyError:
                pass
            ctx.equal(w.open_now(), [], 'left-open', 'array files open after context')
        verify(ctx, w, root, before, {'mode': 'rw with exception'})
    ctx.sig(mode, fails, tuple(sorted(i.kind for i in items)))


def view_all(items, m):
    out = {}
    for it in items:
        v = it.view(it.load(m, it.uuid))
        out[it.uuid] = hashlib.sha1(repr(sorted((str(k), repr(x)) for k, x in v.items())).encode()).hexdigest()
    return out


def several_models(ctx):
    """Several models of the same files, used in turn in one process."""
    path, items = build(ctx)
    root = os.path.dirname(path)
    before = snapshot(root)
    with Watch(root) as w:
        first = opened(ctx, path, 'plain')
        ref = view_all(items, first)
        models = [opened(ctx, path, ctx.choice(['plain', 'loaded', 'relative', 'quiet'])) for _ in range(ctx.integer(1, 3))] + [first]
        for _ in range(ctx.integer(2, 8)):
            m = ctx.choice(models)
            if ctx.flag(0.6):
                sub = ctx.subset(items)
                got = view_all(sub, m)
                ctx.check(all(got[k] == ref[k] for k in got), 'readers-differ', kinds = [i.kind for i in sub if got[i.uuid] != ref[i.uuid]])
            else:
                m.h5_release()
        for m in models:
            m.h5_release()
        ctx.equal(w.open_now(), [], 'left-open', 'array files open after release')
        again = view_all(items, opened(ctx, path, 'plain'))
        ctx.check(again == ref, 'later-reader', kinds = [i.kind for i in items if again[i.uuid] != ref[i.uuid]])
    verify(ctx, w, root, before, {'models': len(models)})
    ctx.sig(len(models), tuple(sorted(i.kind for i in items)))


def several_processes(ctx):
    """Readers in different processes at the same time, while another holds the array file open for reading."""
    path, items = build(ctx)
    root = os.path.dirname(path)
    before = snapshot(root)
    m = opened(ctx, path, 'plain')
    ref = view_all(items, m)
    hold = ctx.flag()
    if not hold:
        m.h5_release()
    pipes = []
    n = ctx.integer(2, 4)
    for _ in range(n):
        r, s = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                with Watch(root) as w:
                    o = opened(ctx, path, 'plain')
                    got = view_all(items, o)
                    o.h5_release()
                    res = (got, w.events, w.open_now()[:0])
            except BaseException as e:
                res = (repr(e)[:300], [], [])
            with os.fdopen(s, 'wb') as f:
                f.write(pickle.dumps(res))
            os._exit(0)
        os.close(s)
        pipes.append((pid, r))
    results = []
    for pid, r in pipes:
        with os.fdopen(r, 'rb') as f:
            results.append(pickle.loads(f.read()))
        os.waitpid(pid, 0)
    mine = view_all(items, m)
    m.h5_release()
    for got, events, _ in results:
        ctx.check(not isinstance(got, str), 'reader-failed', got)
        ctx.check(got == ref, 'readers-differ', kinds = [i.kind for i in items if got[i.uuid] != ref[i.uuid]])
        ctx.check(not events, 'write-access', 'opened for writing or changed', events = events[:4])
    ctx.check(mine == ref, 'readers-differ', kinds = [i.kind for i in items if mine[i.uuid] != ref[i.uuid]])
    after = snapshot(root)
    ctx.check(after == before, 'bytes', 'files changed', which = [k for k in after if after[k] != before.get(k)])
    ctx.sig(n, hold, tuple(sorted(i.kind for i in items)))


SCENARIOS = [
    Scenario(one_reader, 220),
    Scenario(context_manager, 120),
    Scenario(several_models, 90),
    Scenario(several_processes, 50),
]
