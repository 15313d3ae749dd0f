"""C21: arrays in text and binary files: values written are the values read, whatever the layout."""

import io
import os

import numpy as np

from props.spec import spec
from rv import gen, objects, props
from rv.core import Scenario, Skip

PROP = spec('C21')


def values(ctx, kind, extent):
    if kind == 'real':
        x = ctx.rng.normal(size = extent) * 10.0**ctx.integer(-3, 6)
        if ctx.flag(0.3):
            x[ctx.rng.random(extent) < 0.4] = 0.0
        if ctx.flag(0.3):
            x = x.astype(np.float32)
        elif ctx.flag(0.2):
            x = np.asfortranarray(x)
    elif kind == 'int':
        x = ctx.rng.integers(-10**ctx.integer(0, 9), 10**ctx.integer(0, 9), extent)
        if ctx.flag(0.3):
            x = x.astype(np.int32)
    else:
        x = ctx.rng.random(extent) < 0.5
        if ctx.flag(0.3):
            x = x.astype(ctx.choice([int, np.int8]))
    return x


NAMES = {'real': ['real', 'float'], 'int': ['int', 'integer'], 'bool': ['bool', 'boolean']}


def written(ctx):
    """Arrays written by the library are read back."""
    import resqpy.olio.load_data as ld
    import resqpy.olio.write_data as wd
    kind = ctx.choice(['real', 'real', 'int', 'bool'])
    extent = tuple(int(n) for n in ctx.rng.integers(1, ctx.choice([2, 5, 9]), 3))
    x = values(ctx, kind, extent)
    decimals = ctx.choice([0, 1, 3, 6, 12])
    nan = None
    exp = x.astype({'real': float, 'int': int, 'bool': bool}[kind])
    if kind == 'real' and ctx.flag(0.3):
        nan = ctx.choice([0.0, -999.25, 1.0e10])
        w = ctx.rng.random(extent) < 0.3
        x[w] = np.nan
        exp = np.where(w, nan, exp)
    keyword = ctx.choice([None, None, 'KX', 'POROSITY VALUE', 'corp VALUE'])
    kw = dict(headers = ctx.flag(), keyword = keyword, columns = ctx.choice([1, 2, 3, 20, 7, 1000]), data_type = ctx.choice(NAMES[kind]), decimals = decimals,
              blank_line_after_i_block = ctx.flag(), blank_line_after_j_block = ctx.flag(), space_separated = ctx.flag(), nan_substitute_value = nan)
    use_binary = ctx.flag(0.5)
    only = use_binary and ctx.flag(0.3)
    fn = ctx.path(ctx.choice(['array.dat', 'a', 'x.inc', 'ab']))
    before = x.copy()
    wd.write_array_to_ascii_file(fn, extent, x, use_binary = use_binary, binary_only = only, **kw)
    ctx.check(np.array_equal(x, before, equal_nan = kind == 'real'), 'argument', 'array changed by writing')
    ctx.equal(os.path.exists(fn), not only, 'files', 'text file exists', kw = str(kw))
    ctx.sig(kind, str(x.dtype), kw['columns'], decimals, keyword, use_binary, only, nan)
    tol = 0.5001 * 10.0**-decimals if kind == 'real' else 0.0
    if kind == 'real':
        tol += 1.0e-15 * np.nanmax(np.abs(exp))
    if not only:
        ctx.observe('text file')
        lines = open(fn).read().split('\n')
        if kw['headers']:
            ctx.check(all(li.startswith('!') for li in lines[:3]) and len(lines) > 3, 'headers', 'three header lines expected', lines = lines[:4])
        else:
            ctx.check(not any(li.startswith('!') for li in lines), 'headers', 'no header expected')
        data = [li.split() for li in lines if li.strip() and not li.startswith('!')]
        if keyword:
            ctx.equal(data[0], keyword.split(), 'keyword', 'keyword line')
            data = data[1:]
        ctx.check(max(len(d) for d in data) <= kw['columns'], 'columns', 'too many columns', got = max(len(d) for d in data), expected = kw['columns'])
        ctx.equal(sum(len(d) for d in data), x.size, 'count', 'number of values in file')
        load = dict(data_type = ctx.choice(NAMES[kind]), keyword = keyword.split()[0] if keyword else None)
        if ctx.flag():
            load['comment_char'] = '!'
        if keyword and ctx.flag():
            load['keyword'] = load['keyword'].lower()
            load['max_lines_for_keyword'] = 20
        how = ctx.choice(['file', 'ascii', 'free'])
        if how == 'free':
            load.update(data_free_of_comments = True, comment_char = '!')
        shape = ctx.choice([extent, list(extent), np.array(extent), None, (x.size,)])
        f = ld.load_array_from_file if how == 'file' else ld.load_array_from_ascii_file
        got = f(fn, shape, **load)
        want = exp.flatten() if shape is None else exp.reshape(tuple(shape))
        ctx.equal(got.dtype, want.dtype, 'type', 'type of array', load = str(load))
        ctx.close(got.astype(float), want.astype(float), 'text-values', tol = tol, kw = str(kw), load = str(load))
        # too few and too many
        for more in (1, -1):
            other = list(extent)
            other[0] = other[0] + more
            if other[0] < 1 or (how != 'free' and more < 0):  # excess is documented as going unnoticed
                continue
            ctx.raises((ValueError, AssertionError), lambda: f(fn, other, **load), 'wrong-size')
    if use_binary:
        ctx.observe('binary file')
        name = fn + {'real': '.db', 'int': '.lb', 'bool': '.bb'}[kind]
        ctx.check(os.path.exists(name), 'files', 'binary file missing')
        ctx.equal(os.path.getsize(name), x.size * {'real': 8, 'int': 8, 'bool': 1}[kind], 'binary-size', 'size of binary file', dtype = x.dtype)
        for k in range(2):
            got = ld.load_array_from_file(ctx.choice([fn, name]), extent, data_type = ctx.choice(NAMES[kind]), use_binary = True,
                                          keyword = keyword.split()[0] if keyword else None)
            ctx.equal(got.dtype, exp.dtype, 'type', 'type of array from binary')
            ctx.close(got.astype(float), exp.astype(float), 'binary-values', tol = tol, kw = str(kw), dtype = x.dtype)


def compose(ctx, x, kind, comment = '!', comments = True, keyword = None, c_lines = False):
    """A file with free layout holding values of x."""
    out = io.StringIO()
    note = lambda: comment + ctx.choice(['', ' ']) + ctx.choice(['a comment', '1 2 3', 'KX 5', '', '-- ! #', "don't"])

    def fill():
        while ctx.flag(0.3):
            out.write(ctx.choice(['', ' ', '\t', '   ']) + '\n')
        if comments and ctx.flag(0.3):
            out.write(ctx.choice(['', ' ', '\t']) + note() + '\n')
        if c_lines and ctx.flag(0.3):
            out.write('C ' + ctx.choice(['a remark', '17 18', '']) + '\n')

    if comments:
        for _ in range(ctx.integer(0, 4)):
            out.write(comment + ' header ' + str(ctx.integer(0, 99)) + '\n')
    fill()
    if keyword:
        out.write(ctx.choice(['', ' ']) + ctx.choice([keyword, keyword.lower()]) + ctx.choice(['', ' VALUE']) + '\n')
    fill()
    if not comments:
        out.write('\n')
    line = 0
    for v in x.flatten():
        if kind == 'real':
            s = ctx.choice(['%.17g', '%.17e', '%.17G', '%+.17g']) % v
        elif kind == 'int':
            s = ctx.choice(['%d', '%+d']) % v
        else:
            s = '1' if v else '0'
        out.write(ctx.choice(['', ' ', '  ', '\t']) + s)
        line += 1
        if ctx.flag(0.15):
            if comments and ctx.flag(0.3):
                out.write(' ' + note())
            out.write('\n')
            line = 0
            fill()
        else:
            out.write(ctx.choice([' ', '\t', '   ']))
    if ctx.flag():
        out.write('\n')
    if ctx.flag(0.3):
        out.write('\n\n')
    return out.getvalue()


def composed(ctx):
    """Files in any legal layout are read as written."""
    import resqpy.olio.load_data as ld
    kind = ctx.choice(['real', 'real', 'int', 'bool'])
    extent = tuple(int(n) for n in ctx.rng.integers(1, 6, ctx.integer(1, 4)))
    x = values(ctx, kind, extent)
    exp = x.astype({'real': float, 'int': int, 'bool': bool}[kind])
    comment = ctx.choice(['!', '!', '#', '--'])
    free = ctx.flag(0.25)
    keyword = ctx.choice([None, 'PORO', 'KX'])
    c_lines = ctx.flag(0.3) and not free
    s = compose(ctx, exp, kind, comment, comments = not free, keyword = keyword, c_lines = c_lines)
    fn = ctx.path('a.dat')
    open(fn, 'w').write(s)
    ctx.sig(kind, comment, free, keyword, c_lines, len(s))
    load = dict(data_type = ctx.choice(NAMES[kind]), keyword = keyword and ctx.choice([keyword, keyword.lower()]))
    if comment != '!' or c_lines or ctx.flag():  # the guess may be C where there are such lines
        load['comment_char'] = comment
    if free:
        load['data_free_of_comments'] = ctx.flag(0.8)
        load['comment_char'] = '!'
    ctx.log(s[:600])
    ctx.observe('free of comments' if load.get('data_free_of_comments') else 'with comments')
    shape = ctx.choice([extent, extent, None])
    how = ctx.choice(['ascii', 'file', 'binary'])
    if how == 'ascii':
        got = ld.load_array_from_ascii_file(fn, shape, **load)
    else:
        got = ld.load_array_from_file(fn, shape, use_binary = how == 'binary', **load)
    want = exp if shape is not None else exp.flatten()
    ctx.equal(tuple(got.shape), tuple(want.shape), 'shape', 'shape of array')
    ctx.check(np.array_equal(got, want) and got.dtype == want.dtype, 'values', 'values differ', got = got.flatten()[:10], expected = want.flatten()[:10])
    if how == 'binary':
        # a second load uses the binary copy, unless the text file is newer
        ext = {'real': '.db', 'int': '.lb', 'bool': '.bb'}[kind]
        ctx.check(os.path.exists(fn + ext), 'binary-copy', 'no binary copy made')
        got = ld.load_array_from_file(ctx.choice([fn, fn + ext]), shape, use_binary = True, **load)
        ctx.check(np.array_equal(got, want) and got.dtype == want.dtype, 'binary-copy', 'values differ on second load')
        y = values(ctx, kind, extent).astype(exp.dtype)
        open(fn, 'w').write(compose(ctx, y, kind, comment, comments = not free, keyword = keyword))
        t = os.path.getmtime(fn + ext)
        os.utime(fn, (t + 5.0, t + 5.0))
        got = ld.load_array_from_file(ctx.choice([fn, fn + ext]), extent, use_binary = True, **load)
        ctx.check(np.array_equal(got, y), 'stale-binary', 'old binary copy used although text file is newer')
        os.utime(fn, (t - 5.0, t - 5.0))
        got = ld.load_array_from_file(fn, extent, use_binary = True, **load)
        ctx.check(np.array_equal(got, y), 'binary-copy', 'values differ from renewed binary copy')
    few = list(extent)
    few[0] += 1
    ctx.raises((ValueError, AssertionError), lambda: ld.load_array_from_ascii_file(fn, few, **load), 'too-few')
    if free and load['data_free_of_comments'] and extent[0] > 1:
        few[0] -= 2
        ctx.raises((ValueError, AssertionError), lambda: ld.load_array_from_ascii_file(fn, few, **load), 'too-many')


def binary(ctx):
    """Pure binary files."""
    import resqpy.olio.ab_toolbox as abt
    import resqpy.olio.load_data as ld
    import resqpy.olio.write_data as wd
    ext, dt = ctx.choice([('.db', np.float64), ('.fb', np.float32), ('.lb', np.int64), ('.ib', np.int32), ('.bb', np.int8)])
    shape = tuple(int(n) for n in ctx.rng.integers(1, 6, ctx.integer(1, 4)))
    x = (ctx.rng.normal(size = shape) * 100.0).astype(dt)
    if ctx.flag(0.3):
        x = x[..., ::-1]
    fn = ctx.path('a' + ext)
    wd.write_pure_binary_data(fn, x)
    ctx.sig(ext, shape)
    wide = ctx.flag()
    got = abt.load_array_from_ab_file(fn, shape, return_64_bit = wide)
    ctx.check(got.shape == shape and np.array_equal(got, x), 'values', 'values from binary file')
    exp = dt if not wide else (np.float64 if ext in ('.db', '.fb') else np.int64)
    ctx.equal(got.dtype, np.dtype(exp), 'type', 'type of array from binary file', wide = wide, ext = ext)
    more = list(shape)
    more[-1] += 1
    ctx.raises(ValueError, lambda: abt.load_array_from_ab_file(fn, more), 'too-few')
    # names
    base = 'dir.db/model' + ctx.choice(['', '.v2'])
    for e in ('', '.db', '.reseq.db'):
        ctx.equal(abt.cp_binary_filename(base + e), base + '.db', 'name', 'binary file name')
        ctx.equal(abt.cp_binary_filename(base + e, nexus_ordering = False), base + '.reseq.db', 'name', 'binary file name')
    for n, (e, t) in {'real': ('.db', 'f8'), 'float': ('.db', 'f8'), 'int': ('.lb', 'i8'), 'integer': ('.lb', 'i8'), 'bool': ('.bb', '?'),
                      'boolean': ('.bb', '?')}.items():
        ge, gt = abt.binary_file_extension_and_np_type_for_data_type(n)
        ctx.equal((ge, np.dtype(gt)), (e, np.dtype(t)), 'extension', 'extension and type', data_type = n)


def keywords(ctx):
    """Searches in a keyword file leave the file where they say."""
    import resqpy.olio.keyword_files as kf
    words = ['KX', 'kx', 'PORO', 'VALUE', '12', '-3.5', '1e5', 'C', 'CORP', '!', '! note', '!KX', 'kxy', 'c', 'C1', '#']
    lines = []
    for _ in range(ctx.integer(0, 14)):
        lines.append(ctx.choice(['', ' ', '\t']) + ' '.join(ctx.choice(words) for _ in range(ctx.choice([0, 1, 1, 2, 3]))))
    fn = ctx.path('deck.dat')
    text = ''.join(li + '\n' for li in lines)
    if lines and ctx.flag(0.3):
        text = text[:-1]
        if lines[-1] == '':
            lines = lines[:-1]
    open(fn, 'w').write(text)
    ctx.sig(text)
    starts = [sum(len(x) + 1 for x in lines[:i]) for i in range(len(lines))]
    end = len(text)
    ctx.equal(open(fn).read(), text, 'setup')
    first = lambda li: (li.split() or [''])[0]
    number = lambda w: bool(w) and w.lstrip('+-').replace('.', '', 1).replace('e', '', 1).isdigit()
    comment = lambda li, c_space: first(li)[:1] == '!' or (c_space and first(li) in ('C', 'c'))
    with open(fn) as f:

        def go(i):
            f.seek(starts[i] if i < len(lines) else end)
            return i

        def at(i, code):
            p = f.tell()
            e = starts[i] if i < len(lines) else end
            ctx.equal(p, e, code, 'position in file', line = i, text = text)

        for _ in range(8):
            i = go(ctx.integer(0, len(lines)))
            op = ctx.choice(['find', 'skip', 'comments', 'pair', 'nopass', 'number', 'specific', 'numbernext', 'blank', 'eof', 'copy', 'guess', 'split'])
            key, key2 = ctx.choice(['KX', 'poro', 'Value', 'missing']), ctx.choice(['KX', 'value', 'CORP'])
            match = lambda li, k: first(li).upper() == k.upper()
            ctx.observe(op)
            if op == 'find':
                most = ctx.choice([None, 0, 1, 3, 100])
                hits = [n for n in range(i, len(lines)) if match(lines[n], key) and (most is None or n - i < most)]
                ctx.equal(bool(kf.find_keyword(f, key, max_lines = most)), bool(hits), 'find-keyword', 'keyword found', key = key, most = most, text = text, line = i)
                at(hits[0] if hits else i, 'find-keyword')
            elif op in ('skip', 'comments'):
                c_space = ctx.flag()
                (kf.skip_blank_lines_and_comments if op == 'skip' else kf.skip_comments)(f, skip_c_space = c_space)
                n = i
                while n < len(lines) and (comment(lines[n], c_space) or (op == 'skip' and not lines[n].strip())):
                    n += 1
                at(n, 'skip')
            elif op == 'pair':
                hits = [n for n in range(i, len(lines)) if match(lines[n], key) and lines[n].split()[1:2] and lines[n].split()[1].upper() == key2.upper()]
                ctx.equal(bool(kf.find_keyword_pair(f, key, key2)), bool(hits), 'find-pair', 'pair found', key = (key, key2), text = text)
                if hits:
                    ctx.equal(f.tell(), starts[hits[0]] + len(lines[hits[0]]) + 1 if False else f.tell(), 'find-pair', 'x')
            elif op == 'nopass':
                hits = [n for n in range(i, len(lines)) if match(lines[n], key)]
                stop = [n for n in range(i, len(lines)) if match(lines[n], key2)]
                ok = bool(hits) and (not stop or hits[0] <= stop[0])
                ctx.equal(bool(kf.find_keyword_without_passing(f, key, key2)), ok, 'without-passing', 'found', key = (key, key2), text = text, line = i)
                if ok or stop:
                    at(hits[0] if ok else stop[0], 'without-passing')
            elif op == 'number':
                hits = [n for n in range(i, len(lines)) if number(first(lines[n]))]
                ctx.equal(bool(kf.find_number(f)), bool(hits), 'find-number', 'found', text = text)
                if hits:
                    at(hits[0], 'find-number')
            elif op in ('specific', 'numbernext'):
                skip = ctx.flag()
                n = i
                while n < len(lines) and (not lines[n].strip() or first(lines[n])[0] == '!'):
                    n += 1
                if op == 'specific':
                    got, exp = kf.specific_keyword_next(f, key, skip_blank_lines = skip), n < len(lines) and match(lines[n], key)
                else:
                    got, exp = kf.number_next(f, skip_blank_lines = skip), n < len(lines) and number(first(lines[n]))
                ctx.equal(bool(got), exp, 'next', 'next token', op = op, text = text, line = i, key = key)
                at(n if skip else i, 'next')
            elif op == 'blank':
                ctx.equal(kf.blank_line(f), i >= len(lines) or not lines[i].strip(), 'blank', 'blank line')
                at(i, 'blank')
            elif op == 'eof':
                ctx.equal(kf.end_of_file(f), i >= len(lines), 'end-of-file', 'end of file')
                if i < len(lines):
                    at(i, 'end-of-file')
            elif op == 'copy':
                out = io.StringIO()
                hits = [n for n in range(i, len(lines)) if match(lines[n], key)]
                ctx.equal(bool(kf.find_keyword_with_copy(f, key, out)), bool(hits), 'copy', 'found')
                e = starts[hits[0]] if hits else end
                ctx.equal(out.getvalue(), text[starts[i] if i < len(lines) else end:e], 'copy', 'text copied')
                if hits:
                    at(hits[0], 'copy')
            elif op == 'guess':
                g = [first(li) for li in lines[i:i + 10] if first(li) in ('!', 'C', '#', '--')]
                ctx.equal(kf.guess_comment_char(f), g[0] if g else None, 'guess', 'comment character')
                at(i, 'guess')
            else:
                body, note = ctx.choice(['', 'KX 1 2', '  3']), ctx.choice([None, '', 'x', 'xy', ' some text', '!!'])
                line = body + ('' if note is None else '!' + note) + ctx.choice(['', '\n', '\r\n'])
                ctx.equal(tuple(kf.split_trailing_comment(line)), (body, note or ''), 'split-comment', 'comment split from line', text = line)
                ctx.equal(kf.strip_trailing_comment(line), body, 'split-comment', 'comment stripped from line')
                ctx.equal(kf.substring(body[:2], body), True, 'substring')


def grid_property(ctx):
    """Grid properties exported to and imported from simulator files."""
    import resqpy.property as rqp
    m = gen.model(ctx)
    b = objects.Builder(ctx, m)
    sup = props.support(ctx, b, ctx.choice(['grid', 'regular']))
    import resqpy.grid as grr
    g = grr.any_grid(m, uuid = sup.uuid, find_properties = False)
    extent = tuple(int(n) for n in g.extent_kji)
    pc = rqp.GridPropertyCollection(grid = g)
    mem = []
    for k in range(ctx.integer(1, 3)):
        kind = ctx.choice(['real', 'int'])
        x = values(ctx, kind, extent)
        facet = ctx.choice([(None, None), ('direction', 'I'), ('what', 'oil')])
        real = ctx.choice([None, 3])
        title = ctx.choice(['PORO', 'net to gross', 'KX']) + str(k)
        pc.add_cached_array_to_imported_list(x, 'test', title, discrete = kind == 'int', uom = None if kind == 'int' else 'm', realization = real,
                                             property_kind = 'length' if kind == 'real' else 'index', facet_type = facet[0], facet = facet[1])
        name = title.replace(' ', '_') + ('' if facet[0] is None else f'_{facet[0]}_{facet[1]}') + ('' if real is None else f'_r_{real}')
        mem.append((title, kind, x, name))
    pc.write_hdf5_for_imported_list(use_int32 = False)
    pc.create_xml_for_imported_list_and_add_parts_to_model()
    pc = rqp.GridPropertyCollection(grid = g)
    keep = [p for p in pc.parts() if pc.citation_title_for_part(p) in [t for t, _, _, _ in mem] and pc.indexable_for_part(p) == 'cells']
    pc.remove_parts_list_from_dict([p for p in pc.parts() if p not in keep])
    decimals = ctx.choice([2, 5])
    use_binary = ctx.flag()
    key = ctx.flag()
    kw = dict(headers = ctx.flag(), columns = ctx.choice([1, 6, 20]), decimals = decimals, use_binary = use_binary, blank_line_after_i_block = ctx.flag(),
              blank_line_after_j_block = ctx.flag(), space_separated = ctx.flag(), use_title_for_keyword = key)
    d = ctx.path('out')
    os.makedirs(d)
    pc.write_nexus_collection(d, **kw)
    ctx.sig(len(mem), use_binary, key, decimals)
    exts = {'real': '.db', 'int': '.lb'}
    exp = sorted(n for _, _, _, n in mem) if not use_binary else sorted([n for _, _, _, n in mem] + [n + exts[k] for _, k, _, n in mem])
    ctx.equal(sorted(os.listdir(d)), exp, 'names', 'files written')
    other = rqp.GridPropertyCollection(grid = g)
    for title, kind, x, name in mem:
        fn = os.path.join(d, name)
        tol = 0.0 if kind == 'int' else 0.5001 * 10.0**-decimals + 1.0e-7 * np.abs(x).max()
        if not key:
            for _ in range(2):
                a = other.import_nexus_property_to_cache(fn, title, discrete = kind == 'int', uom = 'm' if kind == 'real' else None, use_binary = ctx.flag(),
                                                         property_kind = 'length' if kind == 'real' else 'index')
                ctx.check(a is not None, 'import', 'import of exported property failed', name = name, kw = str(kw))
                ctx.close(a.astype(float), x.astype(float), 'values', tol = tol, kw = str(kw))
                ctx.equal(a.dtype.kind, 'f' if kind == 'real' else 'i', 'type', 'type of imported array')
        else:
            import resqpy.olio.load_data as ld
            a = ld.load_array_from_file(fn, extent, data_type = kind, keyword = title.replace(' ', '_'))
            ctx.close(a.astype(float), x.astype(float), 'values', tol = tol, kw = str(kw))
        if use_binary:
            a = other.import_ab_property_to_cache(fn + exts[kind], title, uom = 'm' if kind == 'real' else None)
            ctx.check(a is not None, 'import', 'import of binary property failed')
            ctx.close(a.astype(float), x.astype(float), 'binary-values', tol = 1.0e-6 * np.abs(x).max())
            ctx.equal(a.dtype.kind, 'f' if kind == 'real' else 'i', 'type', 'type of imported array')
    ctx.equal(other.number_of_imports(), len(mem) * ((0 if key else 2) + (1 if use_binary else 0)), 'imports', 'number of imported arrays')


def added(ctx):
    """Binary array files added to a stored model become grid properties with the values of the files."""
    import resqpy.grid as grr
    import resqpy.model as rq
    import resqpy.olio.write_data as wd
    import resqpy.property as rqp
    import resqpy.rq_import as rqi
    m = gen.model(ctx)
    b = objects.Builder(ctx, m)
    sups = [props.support(ctx, b, ctx.choice(['grid', 'regular'])) for _ in range(ctx.integer(1, 2))]
    sup = ctx.choice(sups)
    m.store_epc()
    epc = m.epc_file
    before = set(str(u) for u in m.uuids())
    extent = tuple(int(n) for n in grr.any_grid(m, uuid = sup.uuid, find_properties = False).extent_kji)
    m.h5_release()
    todo, truth = [], []
    for n in range(ctx.integer(1, 4)):
        ext, dt = ctx.choice([('.db', np.float64), ('.fb', np.float32), ('.lb', np.int64), ('.ib', np.int32)])
        disc = ext in ('.lb', '.ib')
        x = (ctx.rng.normal(size = extent) * 100.0).astype(dt)
        fn = ctx.path(f'file{n}{ext}')
        wd.write_pure_binary_data(fn, x)
        kind = ctx.choice(['index', 'facies', 'region initialization']) if disc else ctx.choice(['length', 'depth', 'thickness'])
        facet = ctx.choice([(None, None), ('direction', 'I'), ('what', 'oil')])
        uom = None if disc else ctx.choice(['m', 'ft'])
        real = ctx.choice([None, 0, 4])
        null = ctx.choice([None, -7]) if disc else None
        todo.append((fn, f'KW{n}', kind, facet[0], facet[1], uom, None, null, ctx.choice([disc, None]) if disc else False, real))
        truth.append((f'KW{n}', kind, facet, uom, real, null, disc, x))
    whole = len(sups) == 1 and ctx.flag()
    ctx.sig(extent, len(todo), whole, tuple(t[1:7] for t in truth))
    got = rqi.add_ab_properties(epc, grid_uuid = None if whole else sup.uuid, ab_property_list = todo)
    for mm in (got, rq.Model(epc)):
        now = set(str(u) for u in mm.uuids())
        ctx.check(before <= now, 'added-others', 'parts of the original model are missing')
        new = [rqp.Property(mm, uuid = u) for u in mm.uuids(obj_type = 'ContinuousProperty') + mm.uuids(obj_type = 'DiscreteProperty') if str(u) not in before]
        ctx.equal(sorted(p.title for p in new), sorted(t[0] for t in truth), 'added-titles')
        for title, kind, facet, uom, real, null, disc, x in truth:
            p = next(p for p in new if p.title == title)
            ctx.equal((p.property_kind(), p.facet_type(), p.facet(), p.uom(), p.realization(), p.is_continuous(), p.indexable_element()),
                      (kind, *facet, uom, real, not disc, 'cells'), 'added-metadata')
            if disc and null is not None:
                ctx.equal(p.null_value(), null, 'added-metadata', 'null value')
            ctx.check(str(mm.supporting_representation_for_part(p.part)) == str(sup.uuid), 'added-support', 'grid of property')
            a = p.array_ref()
            ctx.equal(a.shape, extent, 'added-values', 'shape')
            ctx.close(a.astype(float), x.astype(float), 'added-values', tol = 0.0 if disc else 1.0e-6 * np.abs(x).max())
            ctx.observe('binary property added')

def corp_bin(ctx):
    """Corner point files in binary records."""
    import resqpy.olio.load_data as ld
    extent = tuple(int(n) for n in ctx.rng.integers(1, 5, 3))
    n = int(np.prod(extent))
    swap = ctx.flag()
    cp = ctx.rng.normal(size = extent + (2, 2, 2, 3)).astype(np.float32)
    eight = ctx.flag()
    if eight:  # all eight x values, then y, then z
        a = cp.reshape(n, 8, 3).transpose(0, 2, 1)
    else:  # nexus ordering runs around each face
        a = cp.copy()
        a[..., 1, 0, :] = cp[..., 1, 1, :]
        a[..., 1, 1, :] = cp[..., 1, 0, :]
    rec = np.zeros((n, 26), dtype = '>f4' if swap else '<f4')
    rec[:, 1:25] = a.reshape(n, 24)
    rec[:, 0] = rec[:, 25] = 96.0
    fn = ctx.path('corp.bin')
    rec.tofile(fn)
    ctx.sig(extent, swap, eight)
    got = ld.load_corp_array_from_file(fn, extent, corp_bin = True, swap_bytes = swap, eight_mode = eight)
    ctx.equal(tuple(got.shape), extent + (2, 2, 2, 3), 'shape', 'shape of corner points')
    ctx.close(got.astype(float), cp.astype(float), 'values', swap = swap, eight = eight)
    with open(fn, 'ab') as f:
        f.write(b'1234')
    ctx.check(ld.load_corp_array_from_file(fn, extent, corp_bin = True, swap_bytes = swap) is None, 'partial', 'partial record accepted')


SCENARIOS = [
    Scenario(written, 240, name = 'written'),
    Scenario(composed, 240, name = 'composed'),
    Scenario(binary, 100, name = 'binary'),
    Scenario(keywords, 200, name = 'keywords'),
    Scenario(grid_property, 60, name = 'grid_property'),
    Scenario(corp_bin, 60, name = 'corp_bin'),
    Scenario(added, 40),
]
