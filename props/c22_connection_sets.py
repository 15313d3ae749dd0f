"""C22: grid connection sets against a shadow list of (cell face, cell face, feature)."""

import numpy as np
import pandas as pd

from rv.core import Scenario, Skip
from rv import gen, gridgen
from props.spec import spec

PROP = spec('C22')

TYPES = {'fault': 'FaultInterpretation', 'horizon': 'HorizonInterpretation', 'geobody boundary': 'GeobodyBoundaryInterpretation'}
NAMES = ['F1', 'F10', 'alpha', 'beta', 'Gamma', 'F2', 'f3x', 'west']


class Entry(tuple):
    """((cell, (axis, polarity)), (cell, (axis, polarity)), feature name)"""

    @property
    def feature(self):
        return self[2]


def entry(a, b, name):
    return Entry((a, b, name))


def neighbours(cell, axis, name, flip = False):
    other = list(cell)
    other[axis] += 1
    a, b = (tuple(int(c) for c in cell), (axis, 1)), (tuple(int(c) for c in other), (axis, 0))
    return entry(b, a, name) if flip else entry(a, b, name)


def make_grid(ctx, m, title = 'grid', faults = None, max_n = (4, 4, 4)):
    """Adds a stored grid to the model and returns it."""
    import resqpy.grid as grr
    if ctx.flag(0.7) and not faults:
        n = [ctx.integer(1, k) for k in max_n]
        if n == [1, 1, 1]:
            n[ctx.integer(0, 2)] = 2
        g = grr.RegularGrid(m, extent_kji = n, dxyz = (100.0, 50.0, 10.0), title = title, crs_uuid = m.crs_uuid,
                            set_points_cached = ctx.flag())
        g.create_xml(add_cell_length_properties = False)
        return g
    r = gridgen.random_grid(ctx, growth = ctx.flag(0.4), max_n = max_n, min_n = (1, 1, 2), faults = faults, gaps = False, inactive = False)
    return grr.any_grid(m, uuid = r.persist(m, title = title))


def setup(ctx, **kw):
    m = gen.model(ctx)
    g = make_grid(ctx, m, **kw)
    if ctx.flag(0.3):
        make_grid(ctx, m, title = 'another')
    return m, g


def masks(ctx, ext, p = None):
    """Random face masks, not all empty."""
    p = ctx.uniform(0.1, 0.8) if p is None else p
    out = []
    for axis in range(3):
        s = list(ext)
        s[axis] -= 1
        out.append(ctx.rng.random(s) < p if s[axis] > 0 else None)
    if not any(o is not None and o.any() for o in out):
        a = [i for i in range(3) if out[i] is not None][0]
        out[a].flat[0] = True
    return out


def mask_entries(mask, sides, name):
    out = []
    for axis in range(3):
        if mask[axis] is None:
            continue
        for c in np.argwhere(mask[axis]):
            out.append(neighbours(c, axis, name, flip = bool(sides[axis] is not None and sides[axis][tuple(c)])))
    return out


def from_masks(ctx, m, g, name, ftype = 'fault'):
    import resqpy.fault as rqf
    mask = masks(ctx, g.extent_kji)
    drop = [bool(x is not None and ctx.flag(0.2)) for x in mask]
    if any(x is not None and x.any() and not d for x, d in zip(mask, drop)):
        mask = [None if d else x for x, d in zip(mask, drop)]
    sides = [None if x is None or ctx.flag() else ctx.rng.random(x.shape) < 0.5 for x in mask]
    s = rqf.GridConnectionSet(m, grid = g, k_faces = mask[0], j_faces = mask[1], i_faces = mask[2], k_sides = sides[0],
                              j_sides = sides[1], i_sides = sides[2], feature_name = name, feature_type = ftype,
                              create_organizing_objects_where_needed = True, title = 'by mask')
    return s, mask_entries(mask, sides, name), 'mask'


def from_indices(ctx, m, g, name, ftype = 'fault'):
    import resqpy.fault as rqf
    dup = ctx.flag(0.6)
    lists, props, ents = [], [], []
    n = 0
    mask = masks(ctx, g.extent_kji)
    for axis in range(3):
        if mask[axis] is None or not mask[axis].any():
            lists.append(None if ctx.flag() else np.empty((0, 3), dtype = int))
            props.append(None)
            continue
        l = np.argwhere(mask[axis])
        l = l[ctx.rng.permutation(len(l))]
        if ctx.flag(0.6):
            l = np.concatenate((l, l[ctx.rng.integers(0, len(l), ctx.integer(1, 4))]))
            l = l[ctx.rng.permutation(len(l))]
        tags = (np.array([hash(tuple(c)) % 9973 for c in l.tolist()], dtype = float), np.array([c[0] * 100 + c[1] * 10 + c[2] for c in l]))
        lists.append(l)
        props.append([tags[0].copy(), tags[1].copy()] if ctx.flag(0.7) else None)
        e = [neighbours(c, axis, name) for c in l]
        if dup:
            e = sorted(set(e))
        ents += e
        n += len(l)
    s = rqf.GridConnectionSet.from_faces_indices(g, *lists, remove_duplicates = dup, k_properties = props[0],
                                                 j_properties = props[1], i_properties = props[2], feature_name = name,
                                                 feature_type = ftype, title = 'by index')
    for axis in range(3):
        if props[axis] is None:
            continue
        mine = [e[0][0] for e in ents if e[0][1][0] == axis]
        ctx.equal(len(props[axis]), 2, 'index-properties')
        ctx.equal(np.asarray(props[axis][1]).tolist(), [c[0] * 100 + c[1] * 10 + c[2] for c in mine], 'index-properties', axis = axis)
        ctx.equal(np.asarray(props[axis][0]).tolist(), [float(hash(c) % 9973) for c in mine], 'index-properties', axis = axis)
    return s, ents, 'indices'


def from_kelp(ctx, m, g, name, ftype = 'fault'):
    import resqpy.fault as rqf
    ext = g.extent_kji
    ax = ctx.integer(0, 2)
    others = [a for a in range(3) if a != ax]
    strands, ents = [], []
    for a in others:
        shape = [ext[b] - (1 if b == a else 0) for b in others]
        if min(shape) < 1:
            strands.append([])
            continue
        k = ctx.rng.random(shape) < 0.5
        k.flat[ctx.integer(0, k.size - 1)] = True
        strands.append([tuple(int(x) for x in c) for c in np.argwhere(k)])
    for a, strand in zip(others, strands):
        es = []
        for c in strand:
            for d in range(ext[ax]):
                cell = [0, 0, 0]
                cell[ax] = d
                cell[others[0]], cell[others[1]] = c
                es.append(neighbours(cell, a, name))
        ents += sorted(es)
    if not ents:
        return from_masks(ctx, m, g, name, ftype)
    s = rqf.GridConnectionSet(m, grid = g, title = 'by kelp')
    s.set_pairs_from_kelp(strands[0], strands[1], name, True, axis = 'KJI'[ax], feature_type = ftype)
    return s, ents, 'kelp'


def from_arrays(ctx, m, g, names, ftype = 'fault'):
    """Arbitrary pairs, as arise from juxtaposition across faults; several features."""
    import resqpy.fault as rqf
    ext = tuple(int(x) for x in g.extent_kji)
    seed, ents0, _ = from_masks(ctx, m, g, names[0], ftype)
    s = rqf.GridConnectionSet(m, grid = g, title = 'by arrays')
    flist = list(seed.feature_list)
    for nm in names[1:]:
        extra, _, _ = from_masks(ctx, m, g, nm, ftype)
        flist += extra.feature_list
    n = ctx.integer(1, 12)
    ents = []
    for _ in range(n):
        name = ctx.choice(names)
        a = [ctx.integer(0, x - 1) for x in ext]
        axes = [x for x in range(3) if ext[x] > 1]
        ax = ctx.choice(axes)
        a[ax] = ctx.integer(0, ext[ax] - 2)
        b = list(a)
        b[ax] += 1
        if ax != 0:
            b[0] = ctx.integer(0, ext[0] - 1)
        e = ((tuple(a), (ax, 1)), (tuple(b), (ax, 0)))
        if ctx.flag():
            e = (e[1], e[0])
        ents.append(entry(e[0], e[1], name))
    s.count = n
    s.cell_index_pairs = np.array([[np.ravel_multi_index(x[0], ext) for x in e[:2]] for e in ents], dtype = s.cell_index_dtype)
    s.face_index_pairs = np.array([[s.face_index_map[x[1]] for x in e[:2]] for e in ents], dtype = np.int8)
    s.feature_indices = np.array([names.index(e[2]) for e in ents], dtype = np.int32)
    s.feature_list = flist
    return s, ents, 'arrays'


def from_frame(ctx, m, g, names):
    import resqpy.fault as rqf
    ext = [int(x) for x in g.extent_kji]
    base = 1 if ctx.flag(0.7) else 0
    rows, ents = [], {nm: [] for nm in names}
    order = []
    for _ in range(ctx.integer(1, 6)):
        nm = ctx.choice(names)
        ax, pol = ctx.integer(0, 2), ctx.integer(0, 1)
        lo, hi = [], []
        for a in range(3):
            x, y = sorted((ctx.integer(0, ext[a] - 1), ctx.integer(0, ext[a] - 1)))
            lo.append(x)
            hi.append(y)
        hi[ax] = lo[ax]
        mult = ctx.choice([0.0, 0.5, 0.25, 1.0])
        f = 'KJI'[ax] + '-+'[pol]
        if pol == 1 and ctx.flag(0.3):
            f = f[0]
        elif ctx.flag(0.2):
            f = f.lower()
        rows.append((nm, f, lo[2] + base, hi[2] + base, lo[1] + base, hi[1] + base, lo[0] + base, hi[0] + base, mult))
        if lo[ax] + (1 if pol else -1) not in range(ext[ax]):
            continue
        if nm not in order:
            order.append(nm)
        for k in range(lo[0], hi[0] + 1):
            for j in range(lo[1], hi[1] + 1):
                for i in range(lo[2], hi[2] + 1):
                    b = [k, j, i]
                    b[ax] += 1 if pol else -1
                    ents[nm].append((entry(((k, j, i), (ax, pol)), (tuple(b), (ax, 1 - pol)), nm), mult))
    df = pd.DataFrame(rows, columns = ['name', 'face', 'i1', 'i2', 'j1', 'j2', 'k1', 'k2', 'mult'])
    if ctx.flag(0.5):
        df.index = df.index + 7
    flat = [e for nm in order for e in ents[nm]]
    if not flat:
        return None
    tm = None
    if ctx.flag(0.3):
        tm = {ctx.choice(names): 0.5}
    s = rqf.GridConnectionSet(m, grid = g, title = 'by frame')
    prop = ctx.flag(0.6)
    s.set_pairs_from_faces_df(df, create_organizing_objects_where_needed = True, create_mult_prop = prop, fault_tmult_dict = tm,
                              one_based_indexing = base == 1)
    mults = [mu * (tm.get(e[2], 1.0) if tm else 1.0) for e, mu in flat]
    ctx.equal(list(s.list_of_feature_names()), order, 'frame-features')
    return s, [e for e, _ in flat], mults if prop else None, order


def got(s):
    """Content of a connection set by way of its arrays."""
    s.cache_arrays()
    ext = tuple(int(x) for x in s.grid_list[0].extent_kji)
    inv = {int(s.face_index_map[a, p]): (a, p) for a in range(3) for p in range(2)}
    out = []
    for i in range(s.count):
        r = []
        for side in range(2):
            cell = tuple(int(x) for x in np.unravel_index(int(s.cell_index_pairs[i, side]), ext))
            r.append((cell, inv[int(s.face_index_pairs[i, side])]))
        out.append(entry(r[0], r[1], s.feature_list[s.feature_indices[i]][2].split()[0]))
    return out


def same(ctx, s, ents, code, names = None, deep = True):
    """Compares a connection set with the shadow list, through every way of looking at it."""
    s.cache_arrays()
    ctx.equal(int(s.count), len(ents), code + '-count')
    ctx.equal(s.cell_index_pairs.shape, (len(ents), 2), code + '-shape')
    ctx.equal(s.face_index_pairs.shape, (len(ents), 2), code + '-shape')
    ctx.equal(s.feature_indices.shape, (len(ents),), code + '-shape')
    g = got(s)
    ctx.check(g == list(ents), code + '-pairs', 'cell face pairs differ', got = g[:8], exp = list(ents)[:8])
    used = []
    for e in ents:
        if e[2] not in used:
            used.append(e[2])
    fnames = list(s.list_of_feature_names())
    if names is not None:
        ctx.equal(fnames, list(names), code + '-features')
    ctx.check(set(used) <= set(fnames), code + '-features', got = fnames, exp = used)
    ctx.equal(s.number_of_features(), len(fnames), code + '-features')
    if not deep:
        return
    cp, fp = s.list_of_cell_face_pairs_for_feature_index(None)
    ctx.equal(cp.tolist(), [[list(e[0][0]), list(e[1][0])] for e in ents], code + '-list')
    ctx.equal(fp.tolist(), [[list(e[0][1]), list(e[1][1])] for e in ents], code + '-list')
    for fi, nm in enumerate(fnames):
        if fnames.count(nm) > 1:
            continue
        mine = [e for e in ents if e[2] == nm]
        where = [i for i, e in enumerate(ents) if e[2] == nm]
        ctx.equal(s.feature_name_for_feature_index(fi), nm, code + '-feature-name')
        ctx.equal(s.fault_name_for_feature_index(fi, strip = False).split()[0], nm, code + '-feature-name')
        i, u = s.feature_index_and_uuid_for_fault_name(nm)
        ctx.equal(i, fi, code + '-feature-by-name', name = nm, names = fnames)
        ctx.equal(str(u), str(s.feature_list[fi][1]), code + '-feature-by-name')
        ctx.equal(s.indices_for_feature_index(fi).tolist(), where, code + '-feature-indices')
        cp, fp = s.list_of_cell_face_pairs_for_feature_index(fi)
        ctx.equal(cp.tolist(), [[list(e[0][0]), list(e[1][0])] for e in mine], code + '-feature-list')
        ctx.equal(fp.tolist(), [[list(e[0][1]), list(e[1][1])] for e in mine], code + '-feature-list')
        js, is_ = set(), set()
        for e in mine:
            for c, (a, p) in e[:2]:
                col = list(c)
                if a == 0:
                    continue
                col[a] -= 1 - p
                (js if a == 1 else is_).add(tuple(col[1:]))
        kj, ki = s.simplified_sets_of_kelp_for_feature_index(fi)
        ctx.equal(sorted((int(a), int(b)) for a, b in kj), sorted(js), code + '-kelp')
        ctx.equal(sorted((int(a), int(b)) for a, b in ki), sorted(is_), code + '-kelp')
    ci = s.compact_indices()
    ext = tuple(int(x) for x in s.grid_list[0].extent_kji)
    exp = [[6 * int(np.ravel_multi_index(x[0], ext)) + int(s.face_index_map[x[1]]) for x in e[:2]] for e in ents]
    ctx.equal(ci.tolist(), exp, code + '-compact')


def lookups(ctx, s, ents):
    fnames = list(s.list_of_feature_names())
    ext = tuple(int(x) for x in s.grid_list[0].extent_kji)
    for _ in range(6):
        if ents and ctx.flag(0.7):
            cell, (a, p) = ctx.choice(ents)[ctx.integer(0, 1)]
        else:
            cell, a, p = tuple(ctx.integer(0, x - 1) for x in ext), ctx.integer(0, 2), ctx.integer(0, 1)
        which = {e[2] for e in ents if (cell, (a, p)) in e[:2]}
        f = s.feature_index_for_cell_face(np.array(cell), a, p)
        if not which:
            ctx.check(f is None, 'cell-face-feature', got = f, cell = cell, face = (a, p))
        else:
            ctx.check(f is not None and fnames[f] in which, 'cell-face-feature', got = f, exp = which, cell = cell, face = (a, p))


def stored(ctx, m, s, code = 'reload'):
    """Writes to the dataset and returns a new object from a new model."""
    import resqpy.model as rq
    import resqpy.fault as rqf
    s.write_hdf5()
    s.create_xml()
    m.store_epc()
    m2 = rq.Model(m.epc_file)
    t = rqf.GridConnectionSet(m2, uuid = s.uuid, cache_arrays = ctx.flag(), find_properties = ctx.flag())
    ctx.equal(str(t.grid_list[0].uuid), str(s.grid_list[0].uuid), code + '-grid')
    ctx.equal(len(t.grid_list), 1, code + '-grid')
    ctx.equal(t.title, s.title, code + '-title')
    ctx.equal([str(f[1]) for f in t.feature_list], [str(f[1]) for f in s.feature_list], code + '-features')
    return m2, t


def any_set(ctx, m, g, name = None, ftype = 'fault', multi = True):
    name = name or ctx.choice(NAMES)
    how = ctx.choice(['mask', 'indices', 'kelp', 'arrays' if multi else 'mask'])
    if how == 'mask':
        s, e, k = from_masks(ctx, m, g, name, ftype)
    elif how == 'indices':
        s, e, k = from_indices(ctx, m, g, name, ftype)
    elif how == 'kelp':
        s, e, k = from_kelp(ctx, m, g, name, ftype)
    else:
        names = [name] + [n for n in ctx.subset(NAMES, ctx.integer(0, 3)) if n != name]
        s, e, k = from_arrays(ctx, m, g, names, ftype)
        return s, e, k, names
    return s, e, k, [name]


def construct(ctx):
    """Every way of building, and the trip through the dataset."""
    m, g = setup(ctx)
    if ctx.flag(0.3):
        names = ctx.subset(NAMES, ctx.integer(1, 3))
        if ctx.flag():
            from_masks(ctx, m, g, names[0])
        r = from_frame(ctx, m, g, names)
        if r is None:
            ctx.sig('empty')
            return
        s, ents, mults, order = r
        kind = 'frame'
        ftype = 'fault'
        names = order
    else:
        mults = None
        ftype = ctx.choice(list(TYPES))
        s, ents, kind, names = any_set(ctx, m, g, ftype = ftype)
    ctx.equal(str(s.grid_list[0].uuid), str(g.uuid), 'grid')
    for (ot, u, t) in s.feature_list:
        ctx.equal(ot, 'obj_' + TYPES[ftype], 'feature-type')
        ctx.equal(m.type_of_uuid(u, strip_obj = True), TYPES[ftype], 'feature-type')
    same(ctx, s, ents, 'built', names)
    m2, t = stored(ctx, m, s)
    same(ctx, t, ents, 'reloaded', names)
    lookups(ctx, t, ents)
    if mults is not None:
        pc = t.extract_property_collection()
        a = pc.single_array_ref(property_kind = 'transmissibility multiplier')
        ctx.check(a is not None, 'multiplier-property')
        ctx.close(np.asarray(a), np.array(mults), 'multiplier-property')
    # an untouched copy of the faces must survive reworking, as neighbours already have the faces that go with them
    t.rework_face_pairs()
    same(ctx, t, ents, 'reworked', names, deep = False)
    ctx.sig(kind, ftype, tuple(g.extent_kji), len(ents), len(names))


def operations(ctx):
    """Sequences of appending, filtering, taking single features and storing."""
    import resqpy.fault as rqf
    m, g = setup(ctx)
    ext = tuple(int(x) for x in g.extent_kji)
    ftype = ctx.choice(list(TYPES))
    s, ents, kind, names = any_set(ctx, m, g, ftype = ftype)
    names = list(names)
    hist = [kind]
    for _ in range(ctx.integer(2, 5)):
        op = ctx.choice(['append', 'append', 'layers', 'mask', 'single', 'store', 'clean', 'empty-append'])
        hist.append(op)
        before = list(ents)
        if op == 'append':
            t, e2, _, n2 = any_set(ctx, m, g, ftype = ftype)
            u0 = str(s.uuid)
            if ctx.flag(0.3):
                _, t = stored(ctx, m, t)
            s.append(t)
            same(ctx, t, e2, 'appended-source', n2)
            ctx.check(str(s.uuid) != u0, 'append-uuid')
            ents = ents + e2
            names = names + list(n2)
        elif op == 'empty-append':
            d = rqf.GridConnectionSet(m, grid = g)
            d.append(s)
            same(ctx, d, ents, 'appended-to-empty', names)
            t, e2, _, n2 = any_set(ctx, m, g, ftype = ftype)
            d.append(t)
            same(ctx, d, ents + e2, 'appended-to-copy', names + list(n2))
        elif op in ('layers', 'mask'):
            pare, both = ctx.flag(), True
            if op == 'layers':
                lo = ctx.choice([None, 0, ctx.integer(0, ext[0] - 1)])
                hi = ctx.choice([None, ext[0] - 1, ctx.integer(lo or 0, ext[0] - 1)])
                mask = np.zeros(ext, dtype = bool)
                mask[lo or 0:(ext[0] if hi is None else hi + 1)] = True
                trivial = (lo is None or lo == 0) and (hi is None or hi == ext[0] - 1)
                t = s.filtered_by_layer_range(min_k0 = lo, max_k0 = hi, pare_down = pare, return_indices = True)
                t1 = s.filtered_by_layer_range(min_k0 = lo, max_k0 = hi, pare_down = pare)
            else:
                mask = ctx.rng.random(ext) < ctx.uniform(0.3, 0.9)
                both = ctx.flag()
                trivial = False
                t = s.filtered_by_cell_mask(mask, both_cells_required = both, pare_down = pare, return_indices = True)
                t1 = s.filtered_by_cell_mask(mask, both_cells_required = both, pare_down = pare)
            test = all if both else any
            where = [i for i, e in enumerate(ents) if test(mask[x[0]] for x in e[:2])]
            kept = [ents[i] for i in where]
            same(ctx, s, ents, 'filter-source', names, deep = False)
            if not kept:
                ctx.check(t == (None, None) and t1 is None, 'filter-none', got = t)
                continue
            t, ix = t
            ctx.equal(np.asarray(ix).tolist(), where, 'filter-indices')
            n2 = names
            if pare and not trivial and len(set(names)) == len(names):
                n2 = [n for n in names if any(e[2] == n for e in kept)]
            elif pare:
                n2 = None
            same(ctx, t, kept, 'filtered', n2)
            same(ctx, t1, kept, 'filtered', n2, deep = False)
            if ctx.flag(0.6):
                s, ents = t, kept
                names = list(t.list_of_feature_names())
        elif op == 'single':
            fi = ctx.integer(0, len(names) - 1)
            if names.count(names[fi]) > 1:
                continue
            t = s.single_feature(feature_index = fi) if ctx.flag() else s.single_feature(feature_name = names[fi])
            kept = [e for e in ents if e[2] == names[fi]]
            ctx.check(s.single_feature(feature_index = len(names)) is None, 'single-out-of-range')
            ctx.check(s.single_feature(feature_name = 'absent') is None, 'single-out-of-range')
            same(ctx, s, ents, 'single-source', names, deep = False)
            same(ctx, t, kept, 'single', [names[fi]])
            if kept and ctx.flag():
                s, ents, names = t, kept, [names[fi]]
        elif op == 'clean':
            u0 = [str(f[1]) for f in s.feature_list]
            by = [str(s.feature_list[i][1]) for i in s.feature_indices]
            s.clean_feature_list()
            ctx.equal([str(s.feature_list[i][1]) for i in s.feature_indices], by, 'clean-features')
            ctx.check([u for u in u0 if u in by] == [str(f[1]) for f in s.feature_list] or len(set(u0)) < len(u0), 'clean-features')
            ctx.check({str(f[1]) for f in s.feature_list} == set(by), 'clean-features')
            names = list(s.list_of_feature_names())
        elif m.root_for_uuid(s.uuid) is None:
            m, s = stored(ctx, m, s)
            g = s.grid_list[0]
        same(ctx, s, ents, op, names, deep = len(set(names)) == len(names))
    ctx.sig(tuple(hist), ext, len(ents))


def add_prop(ctx, m, s, a, kind, title, discrete = False, uom = 'Euc', **kw):
    import resqpy.property as rqp
    p = rqp.Property.from_array(m, a, source_info = 'test', keyword = title, support_uuid = s.uuid, property_kind = kind,
                                indexable_element = 'faces', discrete = discrete, uom = None if discrete else uom, **kw)
    return p.uuid


def face_slot(x):
    (c, (a, p)) = x
    c = list(c)
    c[a] += p
    return a, tuple(c)


def exp_faces(ext, ents, values, default, lazy = False, keep = None, combine = None):
    """Arrays over faces; later entries and second sides overwrite earlier unless all values agree."""
    out = []
    for a in range(3):
        sh = list(ext)
        sh[a] += 1
        out.append({})
    for side in ((0,) if lazy else (0, 1)):
        for i, e in enumerate(ents):
            if keep is not None and not keep[i]:
                continue
            a, c = face_slot(e[side])
            out[a].setdefault(c, set()).add(values[i])
    return out


def check_faces(ctx, arrays, ext, exp, default, code):
    for a in range(3):
        sh = list(ext)
        sh[a] += 1
        ctx.equal(arrays[a].shape, tuple(sh), code + '-shape')
        for c in np.ndindex(*sh):
            v = arrays[a][c]
            if c in exp[a]:
                ctx.check(any(v == x for x in exp[a][c]), code, axis = a, face = c, got = v, exp = exp[a][c])
            else:
                ctx.check(v == default or (v != v and default != default), code + '-default', axis = a, face = c, got = v)


def face_arrays(ctx):
    """Property values of pairs as arrays over grid faces."""
    import resqpy.fault as rqf
    import resqpy.property as rqp
    m, g = setup(ctx)
    ext = tuple(int(x) for x in g.extent_kji)
    s, ents, kind, names = any_set(ctx, m, g)
    s.write_hdf5()
    s.create_xml()
    n = len(ents)
    discrete = ctx.flag(0.4)
    v = ctx.rng.integers(0, 50, n) if discrete else ctx.rng.integers(1, 400, n) / 8.0
    u = add_prop(ctx, m, s, v, 'discrete' if discrete else 'transmissibility multiplier', 'v', discrete)
    active = None
    if ctx.flag(0.4):
        active = ctx.rng.random(n) < 0.6
        add_prop(ctx, m, s, active.astype(int), 'active', 'act', True)
    baffle = bu = None
    if ctx.flag(0.4):
        baffle = ctx.rng.random(n) < 0.4
        bu = add_prop(ctx, m, s, baffle.astype(int) if ctx.flag() else baffle, 'baffle', 'baf', True, dtype = np.uint8)
    s = rqf.GridConnectionSet(m, uuid = s.uuid)
    for _ in range(3):
        fi = None if ctx.flag() else ctx.integer(0, len(names) - 1)
        lazy, act = ctx.flag(), ctx.flag()
        use_b = bu is not None and ctx.flag(0.7)
        default = ctx.choice([None, 7, 0])
        r = s.grid_face_arrays(u, default_value = default, feature_index = fi, active_only = act, lazy = lazy,
                               baffle_uuid = bu if use_b else None)
        vals = [0 if use_b and baffle[i] else v[i] for i in range(n)]
        keep = [(fi is None or ents[i][2] == names[fi]) and not (act and active is not None and not active[i]) for i in range(n)]
        d = (-1 if discrete else np.nan) if default is None else default
        check_faces(ctx, r, ext, exp_faces(ext, ents, vals, d, lazy, keep), d, 'face-array')
        ctx.check(all(x.dtype == (int if discrete else float) for x in r), 'face-array-dtype')
    same(ctx, s, ents, 'face-array-source', names, deep = False)
    ctx.sig(kind, ext, n, discrete, active is not None, bu is not None)


def combined(ctx):
    """Transmissibility multipliers of several sets merged over faces."""
    import resqpy.fault as rqf
    import resqpy.model as rq
    import resqpy.olio.uuid as bu
    m, g = setup(ctx)
    ext = tuple(int(x) for x in g.extent_kji)
    mode = ctx.choice(['minimum', 'multiply', 'maximum', 'exception'])
    sided = ctx.choice([None, True, False]) if mode != 'multiply' else ctx.choice([None, False])
    act, use_b = ctx.flag(), ctx.flag()
    fill = ctx.choice([1.0, None, 5.0])
    uuids, data, gcs = [], [], []
    real = ctx.choice([None, 0, 2])
    for q in range(ctx.integer(1, 3)):
        # pairs without duplication, so each face has one value in each set
        s, ents, _ = from_masks(ctx, m, g, NAMES[q])
        s.write_hdf5()
        s.create_xml()
        n = len(ents)
        v = ctx.rng.integers(0, 16, n) / 4.0
        if real is not None and ctx.flag():
            add_prop(ctx, m, s, v + 100.0, 'transmissibility multiplier', 'other', realization = 1)
        uuids.append(add_prop(ctx, m, s, v, 'transmissibility multiplier', 'tm', realization = real))
        gcs.append(s.uuid)
        active = baffle = None
        if ctx.flag(0.3):
            active = ctx.rng.random(n) < 0.6
            add_prop(ctx, m, s, active.astype(int), 'active', 'act', True)
        if ctx.flag(0.3):
            baffle = ctx.rng.random(n) < 0.4
            add_prop(ctx, m, s, baffle, 'baffle', 'baf', True, dtype = np.uint8)
        data.append((ents, v, active, baffle))
    lazy = not (sided if sided is not None else mode != 'multiply')
    exp = [{}, {}, {}]
    clash = False
    for ents, v, active, baffle in data:
        vals = [0.0 if use_b and baffle is not None and baffle[i] else v[i] for i in range(len(ents))]
        keep = [not (act and active is not None and not active[i]) for i in range(len(ents))]
        f = exp_faces(ext, ents, vals, None, lazy, keep)
        for a in range(3):
            for c, x in f[a].items():
                x, = x
                if c in exp[a]:
                    clash = True
                    y = exp[a][c]
                    x = min(x, y) if mode == 'minimum' else max(x, y) if mode == 'maximum' else x * y
                exp[a][c] = x
    kw = dict(merge_mode = mode, sided = sided, fill_value = fill, active_only = act, apply_baffles = use_b)
    ctx.sig(mode, sided, ext, len(uuids), clash, fill, act, use_b)
    if mode == 'exception' and clash:
        ctx.raises(ValueError, lambda: rqf.combined_tr_mult_from_gcs_mults(m, uuids, **kw), 'merge-exception')
        ctx.raises(ValueError, lambda: g.combined_tr_mult_properties_from_gcs_mults(gcs, real, **kw), 'merge-exception')
        return
    r = rqf.combined_tr_mult_from_gcs_mults(m, uuids, **kw)
    check_faces(ctx, r, ext, [{c: {x} for c, x in e.items()} for e in exp], np.nan if fill is None else fill, 'combined')
    # the same stored as properties of the grid, perhaps with barriers on internal faces
    import resqpy.property as rqp
    trip = None
    if ctx.flag():
        trip = []
        for a in range(3):
            sh = list(ext)
            sh[a] -= 1
            trip.append(ctx.rng.random(sh) < 0.3)
            for c in zip(*np.nonzero(trip[a])):
                c = [int(x) for x in c]
                c[a] += 1
                exp[a][tuple(c)] = 0.0
    comp = ctx.flag(0.3)
    every = len(m.parts_list_of_type('GridConnectionSetRepresentation')) == len(gcs) and ctx.flag()
    if fill is None:
        kw['fill_value'] = 9.0      # nulls in stored properties are not of interest here
    us = g.combined_tr_mult_properties_from_gcs_mults(None if every else gcs, real, baffle_triplet = trip,
                                                      composite_property = comp, **kw)
    ctx.equal(len(us), 1 if comp else 3, 'multiplier-properties')
    m.store_epc()
    m2 = rq.Model(m.epc_file)
    props = [rqp.Property(m2, uuid = u) for u in us]
    for q, p in enumerate(props):
        ctx.equal(p.property_kind(), 'transmissibility multiplier', 'multiplier-kind')
        ctx.equal(p.indexable_element(), 'faces', 'multiplier-element')
        ctx.equal(p.realization(), real, 'multiplier-realization')
        ctx.check(bu.matching_uuids(p.collection.support_uuid, g.uuid), 'multiplier-support')
        ctx.equal((p.facet_type(), p.facet()), (None, None) if comp else ('direction', 'KJI'[q]), 'multiplier-facet')
    arrays = [p.array_ref() for p in props]
    sh = [tuple(n + (a == b) for b, n in enumerate(ext)) for a in range(3)]
    if comp:
        flat, arrays = arrays[0].flatten(), []
        ctx.equal(flat.size, sum(int(np.prod(x)) for x in sh), 'multiplier-size')
        for x in sh:
            arrays.append(flat[:int(np.prod(x))].reshape(x))
            flat = flat[int(np.prod(x)):]
    check_faces(ctx, arrays, ext, [{c: {x} for c, x in e.items()} for e in exp], kw['fill_value'], 'multiplier')


def columns(ctx):
    """Column maps of the values on K faces."""
    import resqpy.fault as rqf
    import resqpy.property as rqp
    m, g = setup(ctx)
    ext = tuple(int(x) for x in g.extent_kji)
    s, ents, kind, names = any_set(ctx, m, g)
    s.write_hdf5()
    s.create_xml()
    n = len(ents)
    what = ctx.choice(['continuous', 'discrete', 'points'])
    if what == 'continuous':
        v = ctx.rng.integers(1, 400, n) / 8.0
    elif what == 'discrete':
        v = ctx.rng.integers(0, 50, n)
    else:
        v = ctx.rng.integers(1, 400, (n, 3)) / 8.0
    kw = {'points': True} if what == 'points' else {}
    u = add_prop(ctx, m, s, v, 'discrete' if what == 'discrete' else 'length', 'v', what == 'discrete', uom = 'm', **kw)
    mode = ctx.choice(['default', 'mean', 'min', 'max', 'any', 'exception'] if what == 'continuous' else
                      ['default', 'min', 'max', 'any', 'exception'] if what == 'discrete' else ['default', 'mean', 'any'])
    null = ctx.choice([np.nan, -99.0]) if ctx.flag(0.7) else None
    kw = {} if null is None else {'null_value': null}
    per = {}
    for i, e in enumerate(ents):
        if e[0][1][0] == 0 and e[1][1][0] == 0:
            per.setdefault(e[0][0][1:], []).append(v[i])
    many = any(len(x) > 1 for x in per.values())
    title = ctx.choice([None, 'map'])
    ctx.sig(what, mode, ext, len(per), many, null is None)
    fn = lambda: rqf.grid_columns_property_from_gcs_property(m, u, multiple_handling = mode, title = title, **kw)
    if mode == 'exception' and many:
        ctx.raises(ValueError, fn, 'columns-exception')
        return
    r = fn()
    p = rqp.Property(m, uuid = r)
    ctx.equal(p.indexable_element(), 'columns', 'columns-indexable')
    ctx.equal(str(p.collection.support_uuid), str(s.grid_list[0].uuid), 'columns-support')
    ctx.equal(p.title, title or 'v', 'columns-title')
    ctx.equal(p.is_points(), what == 'points', 'columns-class')
    ctx.equal(p.is_continuous(), what != 'discrete', 'columns-class')
    if what == 'continuous':
        ctx.equal(p.uom(), 'm', 'columns-uom')
    a = np.asarray(p.array_ref())
    ctx.equal(a.shape, ext[1:] + ((3,) if what == 'points' else ()), 'columns-shape')
    if null is None or null != null:
        nv = -1 if what == 'discrete' else np.nan
    else:
        nv = null
    if mode == 'default':
        mode = 'any' if what == 'discrete' else 'mean'
    for j, i in np.ndindex(*ext[1:]):
        x = per.get((j, i))
        if x is None:
            ctx.close(a[j, i], np.full(a[j, i].shape, nv), 'columns-null', col = (j, i))
        elif mode == 'any':
            ctx.check(any(np.all(a[j, i] == y) for y in x), 'columns-any', got = a[j, i], exp = x)
        else:
            e = {'mean': lambda q: np.mean(q, axis = 0), 'min': min, 'max': max, 'exception': lambda q: q[0]}[mode](x)
            ctx.close(a[j, i], e, 'columns-value', 1e-9, mode = mode)


def inherit(ctx):
    """Features taken on from another set, and properties taken on for selected pairs."""
    import resqpy.fault as rqf
    import resqpy.property as rqp
    m, g = setup(ctx)
    ext = tuple(int(x) for x in g.extent_kji)
    names = ctx.subset(NAMES, ctx.integer(1, 3)) or ['F1']
    s, ents, kind = from_arrays(ctx, m, g, names)
    # a featured set in which every cell face has just one feature
    if ctx.flag():
        f, fe, _ = from_masks(ctx, m, g, ctx.choice(names + NAMES))
    else:
        f, fe, _ = from_masks(ctx, m, g, ctx.choice(names + NAMES))
        f2, fe2, _ = from_masks(ctx, m, g, ctx.choice(names + NAMES))
        have = {x for e in fe for x in e[:2]}
        keep = [i for i, e in enumerate(fe2) if not (e[0] in have or e[1] in have)]
        if keep:
            f2.cell_index_pairs = f2.cell_index_pairs[keep]
            f2.face_index_pairs = f2.face_index_pairs[keep]
            f2.feature_indices = f2.feature_indices[keep]
            f2.count = len(keep)
            fe2 = [fe2[i] for i in keep]
            f.append(f2)
            fe = fe + fe2
    # a feature listed twice in the featured set would be ambiguous only in name
    face = {}
    for e in fe:
        for x in e[:2]:
            face[x] = e[2]
    if ctx.flag(0.4):
        _, f = stored(ctx, m, f)
        f.model = m
    if ctx.flag(0.4):
        s.write_hdf5()
        s.create_xml()
        s = rqf.GridConnectionSet(m, uuid = s.uuid)
    exp, options = [], []
    for e in ents:
        c = {face[x] for x in e[:2] if x in face}
        options.append(c or {e[2]})
    s.inherit_features(f)
    g2 = got(s)
    ctx.equal([e[:2] for e in g2], [e[:2] for e in ents], 'inherit-pairs')
    for e, c in zip(g2, options):
        ctx.check(e[2] in c, 'inherit-feature', got = e, exp = c)
    for (_, u, t) in s.feature_list:
        ctx.check(m.part_for_uuid(u) is not None, 'inherit-feature-part')
    ctx.sig(ext, len(ents), len(fe), tuple(sorted(map(len, options))), len(s.feature_list))


def inherit_props(ctx):
    """Properties of a filtered set, taken from the set filtered, and of a merged set."""
    import resqpy.fault as rqf
    import resqpy.model as rq
    import resqpy.property as rqp
    m, g = setup(ctx)
    ext = tuple(int(x) for x in g.extent_kji)
    sets = []
    for q in range(ctx.integer(2, 3)):
        s, ents, kind, names = any_set(ctx, m, g, name = NAMES[q], multi = False)
        n = len(ents)
        s.write_hdf5()
        s.create_xml()
        vals = [ctx.rng.integers(1, 400, n) / 8.0, ctx.rng.integers(0, 9, n), ctx.rng.integers(1, 400, (n, 3)) / 8.0]
        us = [
            add_prop(ctx, m, s, vals[0], 'transmissibility multiplier', 'tm'),
            add_prop(ctx, m, s, vals[1], 'code', 'code', True),
            add_prop(ctx, m, s, vals[2], 'length', 'pts', uom = 'm', points = True)
        ]
        sets.append((s, ents, vals, us))
    s, ents, vals, us = sets[0]
    # filtered
    s = rqf.GridConnectionSet(m, uuid = s.uuid, find_properties = True)
    mask = ctx.rng.random(ext) < 0.7
    t, ix = s.filtered_by_cell_mask(mask, both_cells_required = False, return_indices = True)
    if t is not None:
        t.write_hdf5()
        if ctx.flag():
            t.inherit_properties_for_selected_indices(s, ix)
            t.create_xml()
        else:
            t.create_xml(write_new_properties = False)
            t.inherit_properties_for_selected_indices(s, ix)
            t.write_hdf5_and_create_xml_for_new_properties()
        t2 = rqf.GridConnectionSet(m, uuid = t.uuid, find_properties = True)
        pc = t2.extract_property_collection()
        ctx.equal(sorted(pc.titles()), ['code', 'pts', 'tm'], 'inherited-properties')
        for name, v in zip(['tm', 'code', 'pts'], vals):
            a = pc.single_array_ref(citation_title = name)
            ctx.equal(np.asarray(a), v[ix], 'inherited-values', name = name)
            p = pc.singleton(citation_title = name)
            ctx.equal(pc.property_kind_for_part(p), {'tm': 'transmissibility multiplier', 'code': 'code', 'pts': 'length'}[name], 'inherited-kind')
            ctx.equal(pc.indexable_for_part(p), 'faces', 'inherited-indexable')
    # merged
    other = ctx.flag(0.4)
    target = m
    if other:
        m.store_epc()
        target = rq.new_model(ctx.path('other.epc'))
        target.copy_uuid_from_other_model(m, m.crs_uuid)
        target.copy_uuid_from_other_model(m, g.uuid)
    which = ctx.subset([0, 1, 2]) or None
    r = rqf.GridConnectionSet.from_gcs_uuid_list(target, m, [x[0].uuid for x in sets], 'merged',
                                                 None if which is None else [[x[3][w] for x in sets] for w in which])
    alle = [e for x in sets for e in x[1]]
    same(ctx, r, alle, 'merged', [x[0].feature_list[0][2].split()[0] for x in sets])
    target.store_epc()
    m3 = rq.Model(target.epc_file)
    r2 = rqf.GridConnectionSet(m3, uuid = r.uuid, find_properties = True)
    same(ctx, r2, alle, 'merged-reloaded', [x[0].feature_list[0][2].split()[0] for x in sets])
    ctx.equal(r2.title, 'merged', 'merged-title')
    pc = r2.extract_property_collection()
    ctx.equal(pc.number_of_parts(), len(which or []), 'merged-properties')
    for w in which or []:
        a = pc.single_array_ref(citation_title = ['tm', 'code', 'pts'][w])
        ctx.equal(np.asarray(a), np.concatenate([x[2][w] for x in sets]), 'merged-values', which = w)
    for x in sets:
        q = rqf.GridConnectionSet(m, uuid = x[0].uuid)
        same(ctx, q, x[1], 'merge-source', deep = False)
    ctx.sig(ext, tuple(len(x[1]) for x in sets), other, tuple(which or []), t is None)


def edges(ctx):
    """Column edges affected by features over layer ranges, with values."""
    m, g = setup(ctx)
    ext = tuple(int(x) for x in g.extent_kji)
    names = ctx.subset(NAMES, ctx.integer(1, 3)) or ['F1']
    s, ents, kind = from_arrays(ctx, m, g, names)
    s.write_hdf5()
    s.create_xml()
    n = len(ents)
    meta = {}
    pn = {} if ctx.flag(0.6) else {'property_name': 'Seal quality'}
    if ctx.flag():
        import resqpy.olio.xml_et as rqet
        for fi, nm in enumerate(names):
            if ctx.flag(0.7):
                meta[nm] = ctx.integer(1, 40) / 8.0
                rqet.create_metadata_xml(m.root_for_uuid(s.feature_list[fi][1]), {pn.get('property_name', 'Transmissibility multiplier'): str(meta[nm]), 'other': '99.0', **({'Transmissibility multiplier': '77.0'} if pn else {})})
    lo = ctx.integer(0, ext[0] - 1)
    hi = ctx.integer(lo, ext[0] - 1)

    def expected(nm, lo = lo, hi = hi):
        out = {}
        for i, e in enumerate(ents):
            if e[2] == nm and all(lo <= x[0][0] <= hi for x in e[:2]):
                for c, (a, p) in e[:2]:
                    if a:
                        out.setdefault((c[1], c[2], a - 1, p), []).append(i)
        return out

    for fi, nm in enumerate(names):
        r = s.get_column_edge_list_for_feature(fi, min_k = lo, max_k = hi)
        ctx.equal(sorted(tuple(int(v) for v in x) for x in ([] if r is None else r)), sorted(expected(nm)), 'edge-list', feature = nm)
        mask = s.get_column_edge_bool_array_for_feature(fi, min_k = lo, max_k = hi)
        ctx.equal(mask.shape, ext[1:] + (2, 2), 'edge-mask')
        ctx.equal(sorted(tuple(int(v) for v in x) for x in np.argwhere(mask)), sorted(expected(nm)), 'edge-mask', feature = nm)
        v = s.get_property_by_feature_index_list(feature_index_list = [fi], **pn)
        ctx.close(v, [meta.get(nm, np.nan)], 'edge-metadata', nan = True)
        if nm in meta:
            a = s.get_column_edge_float_array_for_feature(fi, mask, **pn)
            ctx.close(a, np.where(mask, meta[nm], np.nan), 'edge-value', nan = True)
    ctx.close(s.get_property_by_feature_index_list(**pn), [meta.get(nm, np.nan) for nm in names], 'edge-metadata', nan = True)
    if len(meta) == len(names):
        cm, ci, cv = s.get_combined_fault_mask_index_value_arrays(min_k = lo, max_k = hi, **pn)
        exp = {}
        for fi, nm in enumerate(names):
            for x in expected(nm):
                exp[x] = fi
        ctx.equal(sorted(tuple(int(v) for v in x) for x in np.argwhere(cm)), sorted(exp), 'edge-combined')
        for x in np.ndindex(*cm.shape):
            ctx.equal(int(ci[x]), exp.get(x, -1), 'edge-combined-index', edge = x)
            v = meta[names[exp[x]]] if x in exp else np.nan
            ctx.check(cv[x] == v or (v != v and cv[x] != cv[x]), 'edge-combined-value', edge = x, got = cv[x], exp = v)
    elif not meta:
        v = ctx.rng.integers(1, 400, n) / 8.0
        add_prop(ctx, m, s, v, pn.get('property_name', 'transmissibility multiplier').lower(), 'tm')
        import resqpy.fault as rqf
        s = rqf.GridConnectionSet(m, uuid = s.uuid)
        for fi, nm in enumerate(names):
            k = ctx.integer(0, ext[0] - 1)
            exp = expected(nm, k, k)
            if not any(e[2] == nm and all(x[0][0] == k for x in e[:2]) for e in ents):
                continue
            mask = s.get_column_edge_bool_array_for_feature(fi, min_k = k, max_k = k)
            a = s.get_column_edge_float_array_for_feature(fi, mask, ref_k = k, **pn)
            ctx.equal(a.shape, mask.shape, 'edge-property')
            for x in np.ndindex(*a.shape):
                if x in exp:
                    ctx.check(a[x] in [v[i] for i in exp[x]], 'edge-property', edge = x, got = a[x])
                else:
                    ctx.check(np.isnan(a[x]), 'edge-property', edge = x, got = a[x])
    ctx.sig(ext, n, len(names), lo, hi, len(meta))


def simulator(ctx):
    """Written in simulator form and read again."""
    import resqpy.fault as rqf
    m, g = setup(ctx)
    ext = tuple(int(x) for x in g.extent_kji)
    names = ctx.subset(NAMES, ctx.integer(1, 3)) or ['F1']
    s, ents = None, []
    mask = masks(ctx, ext)
    for q, nm in enumerate(names):
        mine = [None if x is None else x & (ctx.rng.random(x.shape) < 0.6) for x in mask]
        if not any(x is not None and x.any() for x in mine):
            continue
        t = rqf.GridConnectionSet(m, grid = g, k_faces = mine[0], j_faces = mine[1], i_faces = mine[2], feature_name = nm,
                                  create_organizing_objects_where_needed = True)
        ents += mask_entries(mine, [None] * 3, nm)
        if s is None:
            s = t
        else:
            s.append(t)
    if s is None:
        ctx.sig('empty')
        return
    s.write_hdf5()
    s.create_xml()
    n = len(ents)
    u, v = None, np.ones(n)
    if ctx.flag(0.7):
        v = ctx.rng.choice([0.0, 0.25, 0.5, 1.5], n)
        u = add_prop(ctx, m, s, v, 'transmissibility multiplier', 'tm')
        if ctx.flag():
            s = rqf.GridConnectionSet(m, uuid = s.uuid)
    both, minus = ctx.flag(0.4), ctx.flag(0.4)
    path = ctx.path('mult.inc')
    s.write_simulator(path, include_both_sides = both, use_minus = minus, trans_mult_uuid = u)
    sides = [0, 1] if both else [1] if minus else [0]
    exp = []
    for i, e in enumerate(ents):
        for side in sides:
            exp.append((e[side], e[1 - side], e[2].upper(), float(v[i])))
    t = rqf.GridConnectionSet(m, grid = g, ascii_load_format = 'nexus', ascii_file = path,
                              create_organizing_objects_where_needed = True,
                              create_transmissibility_multiplier_property = True, title = 'from ascii')
    t.write_hdf5()
    t.create_xml()
    a = t.extract_property_collection().single_array_ref(property_kind = 'transmissibility multiplier')
    r = [(e[0], e[1], e[2].upper(), float(a[i])) for i, e in enumerate(got(t))]
    ctx.check(sorted(r) == sorted(exp), 'simulator-rows', got = sorted(set(r) - set(exp))[:4], missing = sorted(set(exp) - set(r))[:4],
              n = (len(r), len(exp)))
    # the tool that makes a set straight from files
    if ctx.flag(0.4) and len(m.parts(obj_type = 'IjkGridRepresentation')) == 1:
        w = rqf.add_connection_set_and_tmults(m, [path] if ctx.flag() else path)
        q = rqf.GridConnectionSet(m, uuid = w)
        ctx.equal(sorted((e[0], e[1], e[2].upper()) for e in got(q)), sorted(x[:3] for x in exp), 'simulator-added')
    ctx.sig(ext, n, len(names), both, minus, u is not None)


def reworked(ctx):
    """Faces deduced again from neighbouring columns."""
    m, g = setup(ctx)
    ext = tuple(int(x) for x in g.extent_kji)
    s, ents, _, names = any_set(ctx, m, g)
    s.cache_arrays()
    n = s.count
    if not n:
        raise Skip('empty')
    # any cells may be connected, by wrongly identified faces
    if ctx.flag():
        s.cell_index_pairs = np.array([ctx.rng.choice(int(np.prod(ext)), 2, replace = False) for _ in range(n)])
    mess = ctx.rng.random(n) < ctx.choice([0.3, 1.0])
    faces = np.array(s.face_index_pairs).copy()
    faces[mess] = ctx.rng.integers(0, 6, (n, 2))[mess]
    s.face_index_pairs = faces.copy()
    before = got(s)
    s.rework_face_pairs()
    exp = []
    for a, b, f in before:
        d = [y - x for x, y in zip(a[0], b[0])]
        if d[1] == 0 and abs(d[2]) == 1:
            a, b = (a[0], (2, 1 if d[2] > 0 else 0)), (b[0], (2, 0 if d[2] > 0 else 1))
            ctx.observe('faces deduced')
        elif d[2] == 0 and abs(d[1]) == 1:
            a, b = (a[0], (1, 1 if d[1] > 0 else 0)), (b[0], (1, 0 if d[1] > 0 else 1))
            ctx.observe('faces deduced')
        exp.append(entry(a, b, f))
    ctx.equal(got(s), exp, 'reworked-faces')
    ctx.sig(ext, n, int(mess.sum()))


def skin(ctx):
    """The skin of a set of cells, and the triangulated surface of a feature."""
    import resqpy.fault as rqf
    m = gen.model(ctx)
    g = make_grid(ctx, m, faults = False)
    ext = tuple(int(x) for x in g.extent_kji)
    mask = ctx.rng.random(ext) < ctx.uniform(0.2, 0.8)
    mask.flat[0] = True
    mask.flat[-1] = False
    ft = ctx.choice(list(TYPES))
    s = rqf.cell_set_skin_connection_set(g, mask, 'skin', feature_type = ft, title = ctx.choice([None, 'a title']))
    ents = []
    for axis in range(3):
        for c in np.ndindex(*ext):
            d = list(c)
            d[axis] += 1
            if d[axis] < ext[axis] and mask[c] != mask[tuple(d)]:
                ents.append(neighbours(c, axis, 'skin'))
    same(ctx, s, ents, 'skin', ['skin'])
    import resqpy.olio.vector_utilities as vec
    cp = g.corner_points()
    sf = s.surface(None if ctx.flag() else 0)
    tri, pts = sf.triangles_and_points()
    ctx.equal(len(tri), 2 * len(ents), 'surface-triangles')
    exp = []
    for e in ents:
        (c, (a, p)) = e[0]
        sl = [slice(None)] * 3
        sl[a] = p
        exp.append({tuple(np.round(x, 5)) for x in cp[c][tuple(sl)].reshape(-1, 3).tolist()})
    for q, e in enumerate(exp):
        t1 = {tuple(np.round(x, 5)) for x in pts[tri[2 * q]].tolist()}
        t2 = {tuple(np.round(x, 5)) for x in pts[tri[2 * q + 1]].tolist()}
        ctx.check(t1 <= e and t2 <= e and t1 | t2 == e, 'surface-faces', face = ents[q], got = (t1, t2), exp = e)
        # the triangles share a diagonal of the face
        if len(e) == 4:
            ctx.equal(len(t1 & t2), 2, 'surface-faces')
    ctx.sig(ext, len(ents), ft)


SCENARIOS = [
    Scenario(construct, 60),
    Scenario(operations, 60),
    Scenario(face_arrays, 40),
    Scenario(combined, 30),
    Scenario(columns, 40),
    Scenario(inherit, 40),
    Scenario(inherit_props, 25),
    Scenario(edges, 40),
    Scenario(simulator, 40),
    Scenario(reworked, 30),
    Scenario(skin, 30),
]
