"""C05: arrays in hdf5 files."""

import os

import numpy as np

from rv.core import Scenario, Skip
from rv import gen
from props.spec import spec

PROP = spec('C05')

DTYPES = ['float64', 'float32', 'int64', 'int32', 'int16', 'int8', 'uint8', 'uint32', 'bool']


def random_array(ctx, dtype = None, min_dim = 1):
    dtype = dtype or ctx.choice(DTYPES)
    rank = ctx.choice([1, 1, 2, 3, 3, 4])
    shape = tuple(ctx.choice([1, 2, 3, 5, 8, 9, 17]) for _ in range(rank))
    if dtype == 'bool':
        return ctx.rng.random(shape) < 0.5
    if dtype.startswith('float'):
        a = (ctx.rng.normal(size = shape) * 10.0**ctx.integer(-6, 9)).astype(dtype)
        if ctx.flag(0.3):
            a[ctx.rng.random(shape) < 0.2] = np.nan
        if ctx.flag(0.1):
            a[ctx.rng.random(shape) < 0.1] = np.inf
        return a
    ii = np.iinfo(dtype)
    lo, hi = max(ii.min, -2**31), min(ii.max, 2**31 - 1)
    a = ctx.rng.integers(lo, hi, size = shape, endpoint = True).astype(dtype)
    return a


def same(ctx, got, exp, code, **kw):
    got = np.asarray(got)
    ctx.check(got.shape == np.asarray(exp).shape and np.array_equal(got, exp, equal_nan = np.asarray(exp).dtype.kind == 'f'), code,
              'array differs from the one written', got = got, expected = exp, **kw)


def kind_of(dtype):
    k = np.dtype(dtype).kind
    return 'i' if k in 'iub' else k


def random_slices(ctx, shape):
    out = []
    for n in shape:
        a = ctx.integer(0, n - 1)
        b = ctx.integer(a + 1, n)
        out.append(ctx.choice([slice(None), slice(a, b), slice(a, a + 1), slice(None, b), slice(a, None), slice(a, b, 2)]))
    return tuple(out)


class Holder:
    pass


def read_back(ctx, model, pair, entry, partial = True):
    """Compares every way of reading an array with the shadow entry (array, stored dtype, packed)."""
    a, stored, packed = entry
    ctx.observe('arrays read')
    shape, dt_ = model.h5_array_shape_and_type(pair)
    if not packed:
        ctx.equal(tuple(shape), a.shape, 'shape', pair = pair)
        ctx.equal(np.dtype(dt_), np.dtype(stored), 'stored-dtype', original = a.dtype)
    h = Holder()
    req = a.shape if packed or ctx.flag(0.3) else None
    want = bool if packed or a.dtype.kind == 'b' else (float if a.dtype.kind == 'f' else 'int64')
    if a.dtype.kind in 'fiu' and ctx.flag(0.3):
        want = a.dtype
    index = tuple(ctx.integer(0, n - 1) for n in a.shape) if ctx.flag() else None
    v = model.h5_array_element(pair, index = index, cache_array = True, object = h, array_attribute = 'arr', dtype = want, required_shape = req)
    same(ctx, h.arr, a, 'whole', dtype = want, packed = packed, stored = stored)
    ctx.equal(h.arr.dtype, np.dtype(want), 'cached-dtype')
    if index is not None:
        same(ctx, v, a[index], 'element-while-caching', index = index)
        same(ctx, model.h5_array_element(pair, index = index, object = h, array_attribute = 'arr', dtype = want), a[index], 'cached-element')
    if packed or not partial:
        return
    index = tuple(ctx.integer(0, n - 1) for n in a.shape)
    ed = {'f': 'float', 'i': 'int', 'u': 'int', 'b': 'bool'}[a.dtype.kind]
    ed = ctx.choice([ed, {'float': float, 'int': int, 'bool': bool}[ed]])
    v = model.h5_array_element(pair, index = index, dtype = ed)
    same(ctx, v, a[index], 'element', index = index)
    ctx.check(isinstance(v, (float, int, bool)), 'element-type', got = type(v))
    sl = random_slices(ctx, a.shape)
    r = model.h5_array_slice(pair, sl)
    same(ctx, r, a[sl], 'slice', slices = sl)
    ctx.equal(r.ndim, a.ndim, 'slice-rank')
    # reshaped access
    if a.ndim > 1 or a.size > 1:
        rs = ctx.choice([(a.size,), (1, a.size), (a.shape[0], a.size // a.shape[0])])
        h = Holder()
        model.h5_array_element(pair, cache_array = True, object = h, array_attribute = 'arr', dtype = a.dtype, required_shape = rs)
        same(ctx, h.arr, a.reshape(rs), 'reshaped')
        ri = tuple(ctx.integer(0, n - 1) for n in rs)
        same(ctx, model.h5_array_element(pair, index = ri, dtype = ed, required_shape = rs), a.reshape(rs)[ri], 'reshaped-element', index = ri,
             stored = a.shape, required = rs)


def registers(ctx):
    """History of register, write, append, overwrite and read on one dataset."""
    import resqpy.model as rq
    import resqpy.olio.uuid as bu
    import resqpy.olio.write_hdf5 as rwh5
    m = gen.model(ctx, crs = False)
    h5_uuid = m.h5_uuid()
    shadow = {}
    ops = []
    old_defaults = (rwh5.global_default_chunks, rwh5.global_default_compression)
    g = (None, None)
    if ctx.flag(0.2):
        g = (ctx.choice([None, 'auto', 'all', 'slice']), ctx.choice([None, 'gzip', 'lzf']))
        rwh5.set_global_default_chunks_and_compression(*g)
    try:
        for step in range(ctx.integer(2, 7)):
            op = ctx.choice(['write', 'write', 'write', 'overwrite', 'overwrite slice', 'read', 'reopen', 'clear'])
            ops.append(op)
            ctx.log(op)
            if op == 'write' or not shadow:
                reg = rwh5.H5Register(m, default_chunks = ctx.choice([None, None, 'auto', 'all', 'slice', 'none']),
                                      default_compression = ctx.choice([None, None, 'gzip', 'lzf', 'none']))
                use32 = ctx.choice([None, True, False])
                if not shadow and ctx.flag(0.3):
                    use32 = ctx.choice([None, True])
                new = {}
                uuid = bu.new_uuid()
                for i in range(ctx.integer(1, 4)):
                    if ctx.flag(0.5):
                        uuid = bu.new_uuid()
                    a = random_array(ctx)
                    if use32 is False and a.dtype == np.int64:
                        a = a * 4000000000
                    kw = {}
                    dtype = None
                    packed = False
                    if a.dtype.kind == 'b' and ctx.flag():
                        dtype = 'pack'
                        packed = True
                    elif ctx.flag(0.4):
                        dtype = a.dtype if ctx.flag() else {'f': 'float64', 'i': 'int64', 'u': 'uint32', 'b': 'uint8'}[a.dtype.kind]
                        if a.dtype == np.int64 and use32 is not False:
                            dtype = None
                    if ctx.flag(0.3):
                        kw['chunks'] = ctx.choice(['auto', 'all', 'slice', 'none', tuple(a.shape)])
                        if packed and isinstance(kw['chunks'], tuple):
                            kw['chunks'] = 'auto'
                    if ctx.flag(0.3):
                        kw['compression'] = ctx.choice(['gzip', 'lzf', 'none'])
                    tail = ctx.choice(['values', 'points', 'patch0/values', 'nested/a/b'])
                    tail = f'{tail}_{i}' if tail != 'nested/a/b' else f'nested/a_{i}/b'
                    expect = a.copy()
                    path = None
                    if ctx.flag(0.15):
                        path = f'/RESQML/{uuid}/elsewhere_{i}'
                        kw['hdf5_internal_path'] = path
                    dress = ctx.choice(['', '/'])
                    copied = ctx.flag(0.3)
                    b = a.copy()
                    reg.register_dataset(uuid, dress + tail + ctx.choice(['', '/']), b, dtype = dtype, copy = copied, **kw)
                    if copied:
                        b[...] = 0  # the registered copy must not be affected
                    stored = expect.dtype if dtype is None else np.dtype('uint8' if packed else dtype)
                    if dtype is None and stored == np.int64 and use32 is not False:
                        stored = np.dtype('int32')
                    if stored.kind == 'b':
                        stored = np.dtype('uint8')
                    new[(h5_uuid, path or f'/RESQML/{uuid}/{tail}')] = (expect, stored, packed)
                    ops.append((str(a.dtype), a.shape, str(dtype), kw.get('chunks'), kw.get('compression')))
                mode = 'a' if (shadow and (m.h5_currently_open_mode == 'w' or ctx.flag(0.92))) or ctx.flag() else 'w'
                if mode == 'w':
                    shadow = {}
                reg.write(mode = mode, use_int32 = use32, release_after = ctx.flag(0.8))
                shadow.update(new)
            elif op == 'overwrite':
                k = ctx.choice(list(shadow))
                a, stored, packed = shadow[k]
                if packed:
                    continue
                b = ctx.rng.permutation(a.flatten()).reshape(a.shape)
                m.h5_overwrite_array(k, b)
                shadow[k] = (b, stored, packed)
            elif op == 'overwrite slice':
                k = ctx.choice(list(shadow))
                a, stored, packed = shadow[k]
                if packed:
                    continue
                sl = random_slices(ctx, a.shape)
                b = a.copy()
                part = np.flip(a[sl])
                b[sl] = part
                m.h5_overwrite_array_slice(k, sl, part)
                shadow[k] = (b, stored, packed)
            elif op == 'read':
                k = ctx.choice(list(shadow))
                read_back(ctx, m, k, shadow[k])
            elif op == 'clear':
                m.h5_clear_filename_cache()
            else:
                m.h5_release()
                m.store_epc()
                m = rq.Model(m.epc_file)
                ctx.check(m.h5_uuid() == h5_uuid, 'h5-uuid')
        for k, e in shadow.items():
            read_back(ctx, m, k, e)
        m.h5_release()
        check_copies(ctx, m, shadow, rwh5, bu)
    finally:
        rwh5.set_global_default_chunks_and_compression(*old_defaults)
    ctx.sig(ops, g)


def raw(fn):
    """All datasets in a file by plain h5py."""
    import h5py
    out = {}
    with h5py.File(fn, 'r') as f:
        f.visititems(lambda n, o: out.__setitem__('/' + n, o[...]) if isinstance(o, h5py.Dataset) else None)
    return out


def check_copies(ctx, m, shadow, rwh5, bu):
    fn = m.h5_file_name()
    before = raw(fn)
    ctx.equal(set(before), {k[1] for k in shadow}, 'datasets', 'datasets in file differ from those written')
    uuids = sorted({p.split('/')[2] for p in before})
    how = ctx.choice(['all', 'include', 'exclude', 'paths', 'change'])
    out = ctx.path('copy.h5')
    if how == 'change':
        old = ctx.choice(uuids)
        new = str(bu.new_uuid())
        rwh5.change_uuid(fn, bu.uuid_from_string(old), bu.uuid_from_string(new))
        after = raw(fn)
        exp = {p.replace(old, new): v for p, v in before.items()}
    else:
        mode = ctx.choice(['w', 'a', 'a'])
        pre = {}
        if mode == 'a' and ctx.flag(0.6):
            import h5py
            with h5py.File(out, 'w') as f:
                u = str(bu.new_uuid())
                f.create_dataset(f'/RESQML/{u}/values', data = np.arange(5))
                pre[f'/RESQML/{u}/values'] = np.arange(5)
                if ctx.flag():  # group already present is not disturbed
                    p = ctx.choice(sorted(before))
                    f.create_dataset(p, data = np.arange(3))
                    pre[p] = np.arange(3)
        some = ctx.subset(uuids)
        if how == 'paths':
            ps = ctx.subset(sorted(before))
            n = rwh5.copy_h5_path_list(fn, out, ps, mode = mode, chunks = ctx.choice([None, None, 'auto']), compression = ctx.choice([None, None, 'gzip', 'lzf']))
            exp = {p: before[p] for p in ps if p not in pre}
            ctx.equal(n, len(exp), 'copy-count')
        else:
            kw = {}
            keep = set(uuids)
            if how == 'include':
                kw['uuid_inclusion_list'] = [bu.uuid_from_string(u) for u in some]
                keep = set(some)
            elif how == 'exclude':
                kw['uuid_exclusion_list'] = [bu.uuid_from_string(u) for u in some]
                keep -= set(some)
            keep -= {p.split('/')[2] for p in pre}
            n = rwh5.copy_h5(fn, out, mode = mode, **kw)
            exp = {p: v for p, v in before.items() if p.split('/')[2] in keep}
            ctx.equal(n, len(keep), 'copy-count')
        exp.update(pre)
        after = raw(out)
        again = raw(fn)
        ctx.equal(set(again), set(before), 'source-changed')
        for p in again:
            same(ctx, again[p], before[p], 'source-changed')
    ctx.equal(set(after), set(exp), 'copied-datasets', how = how)
    for p in exp:
        same(ctx, after[p], exp[p], 'copied-values', how = how, path = p)
        ctx.equal(after[p].dtype, exp[p].dtype, 'copied-dtype')
    ctx.observe('copies')


def two_files(ctx):
    """A model with arrays in several hdf5 files reads each array from its own file, in any order of access."""
    import resqpy.olio.uuid as bu
    import resqpy.olio.write_hdf5 as rwh5
    m = gen.model(ctx, crs = False)
    m.h5_set_default_override(ctx.choice(['dir', 'none']))
    files = [(m.h5_uuid(), m.h5_file_name(file_must_exist = False))]
    for i in range(ctx.integer(1, 2)):
        u = bu.new_uuid()
        fn = ctx.path(f'extra_{i}.h5')
        m.create_hdf5_ext(uuid = u, file_name = fn)
        files.append((u, fn))
    shadow = {}
    ops = []
    for i in range(ctx.integer(3, 8)):
        f = ctx.integer(0, len(files) - 1)
        u, fn = files[f]
        a = random_array(ctx, ctx.choice(['float64', 'int32', 'uint8']))
        reg = rwh5.H5Register(m)
        au = bu.new_uuid()
        reg.register_dataset(au, 'values', a)
        rel = ctx.flag(0.6)
        mode = 'a' if (any(k[0] == u for k in shadow) and (m.h5_currently_open_mode == 'w' or ctx.flag(0.85))) or ctx.flag() else 'w'
        if mode == 'w':  # the file starts afresh
            shadow = {k: v for k, v in shadow.items() if k[0] != u}
        reg.write(file = fn, mode = mode, release_after = rel)
        shadow[(u, f'/RESQML/{au}/values')] = (a, a.dtype, False)
        ops.append((f, mode, rel))
        if ctx.flag():
            k = ctx.choice(list(shadow))
            read_back(ctx, m, k, shadow[k])
    ctx.sig(ops)
    for k in [list(shadow)[i] for i in ctx.rng.permutation(len(shadow))]:
        read_back(ctx, m, k, shadow[k])


SCENARIOS = [Scenario(registers, 400), Scenario(two_files, 120)]
