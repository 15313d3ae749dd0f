"""C36: tables and simulator text files are read as written."""

import datetime
import os

import numpy as np
import pandas as pd

from props.spec import spec
from props import c30_meshes as c30
from rv import gen
from rv.core import Scenario, Skip

PROP = spec('C36')

UOMS = ['m3', 'ft3', 'm', 'Euc', 'psi', 'kPa', 'm3/d', 'degC', 'fraction of all', '%']


def fresh(m):
    import resqpy.model as rq
    m.store_epc()
    m.h5_release()
    return rq.Model(m.epc_file)


def value(ctx):
    k = ctx.integer(0, 9)
    if k == 0:
        return np.nan
    if k == 1:
        return float(ctx.integer(-1000000, 1000000))
    if k == 2:
        return ctx.choice([0.0, -0.0, 1.0e-300, 1.0e300, np.inf, -np.inf, 2.0**53 - 1.0, 1.0 / 3.0])
    return ctx.uniform(-1.0, 1.0) * 10.0**ctx.integer(-9, 12)


def column_names(ctx, n):
    pool = ['COP', 'CWP', 'CWI', 'a name with spaces', 'Größe', 'x<y>&z', '1', "it's", 'COP ', 'cop', 'p/q', 'Δp', 'T_1', 'BHP', 'WCT', 'QOP']
    ctx.rng.shuffle(pool)
    return pool[:n]


def frame(ctx, r, cols, whole = False):
    if whole:
        return pd.DataFrame(ctx.rng.integers(-2000, 2000, size = (r, len(cols))), columns = cols)
    return pd.DataFrame([[value(ctx) for _ in cols] for _ in range(r)], columns = cols)


def same(ctx, got, df, code, **data):
    strip = lambda c: [str(x).strip() for x in c]
    ctx.equal(strip(got.columns), strip(df.columns), code + '-columns')
    ctx.equal(got.shape, df.shape, code + '-shape')
    a, e = got.to_numpy(dtype = float), df.to_numpy(dtype = float)
    ctx.check(np.array_equal(a, e, equal_nan = True), code + '-values', 'values differ', got = a, expected = e, **data)


def series(ctx, m, n):
    import resqpy.time_series as rts
    day = datetime.date(ctx.integer(1970, 2030), ctx.integer(1, 12), ctx.integer(1, 28))
    out = []
    for _ in range(n):
        out.append(day.isoformat())
        day += datetime.timedelta(days = ctx.integer(1, 400))
    ts = rts.time_series_from_list(out)
    ts.set_model(m)
    ts.create_xml()
    return ts, list(ts.timestamps)


def tables(ctx):
    """Several tables (plain, with time series, as realisations) in one dataset each come back as given."""
    import resqpy.olio.dataframe as rqdf
    m = gen.model(ctx, crs = ctx.flag())
    n = ctx.integer(1, 4)
    kept = []
    share = None
    kinds = []
    for t in range(n):
        r, c = ctx.choice([(2, 2), (ctx.integer(2, 8), ctx.integer(2, 6)), (ctx.integer(1, 8), ctx.integer(1, 6))])
        tt = ctx.flag(0.4)
        real = ctx.choice([None, None, 0, 1, 7])
        kw = {}
        if share is not None and ctx.flag(0.4):  # a second table with the same columns may share the lookup tables
            src = share
            cols = list(src.df.columns)
            c = len(cols)
            kw['column_lookup_uuid'] = src.column_lookup_uuid
            if src.uom_lookup_uuid is not None and ctx.flag():
                kw['uom_lookup_uuid'] = src.uom_lookup_uuid
                uoms = list(src.uom_list)
                if ctx.flag():
                    kw['uom_list'] = list(uoms)
            else:
                uoms = None
        else:
            cols = column_names(ctx, c)
            cols = list(dict.fromkeys(x.strip() for x in cols))
            c = len(cols)
            uoms = [ctx.choice(UOMS) for _ in cols] if ctx.flag() else None
            if uoms:
                kw['uom_list'] = list(uoms)
        df = frame(ctx, r, cols, ctx.flag(0.2))
        keep = df.copy()
        title = f'table {t}'
        meta = None
        if tt:
            ts, stamps = series(ctx, m, r)
            o = rqdf.TimeTable(m, df = df, realization = real, title = title, time_series = ts, **kw)
        else:
            stamps = None
            if ctx.flag(0.4):
                meta = {f'key {k}': ctx.choice(['a', 'b & c', '12', 'true']) for k in range(ctx.integer(1, 3))}
                kw['extra_metadata'] = dict(meta)
            o = rqdf.DataFrame(m, df = df, realization = real, title = title, **kw)
        same(ctx, o.dataframe(), keep, 'given')
        o.write_hdf5_and_create_xml()
        same(ctx, df, keep, 'argument')
        share = o
        kinds.append((r, c, tt, real is not None, uoms is not None))
        kept.append((o.mesh.uuid, keep, title, tt, stamps, real, uoms, meta))
    ctx.sig(*sorted(kinds))
    m = fresh(m)
    ctx.equal(len(rqdf.dataframe_parts_in_model(m)), n, 'parts')
    ctx.equal(sorted(rqdf.timetable_parts_in_model(m)), sorted(m.part_for_uuid(u) for u, _, _, tt, *_ in kept if tt), 'parts', 'timetables')
    ctx.equal(sorted(rqdf.dataframe_parts_in_model(m, timetables = False)), sorted(m.part_for_uuid(u) for u, _, _, tt, *_ in kept if not tt), 'parts', 'other tables')
    for u, df, title, tt, stamps, real, uoms, meta in kept:
        cls = rqdf.TimeTable if tt else rqdf.DataFrame
        args = dict(realization = real) if real is not None and ctx.flag() else {}
        o = cls(m, uuid = u, **args)
        for got in (o, (rqdf.timetable_for_title if tt else rqdf.dataframe_for_title)(m, title, **args)):
            same(ctx, got.dataframe(), df, 'table')
            ctx.equal((got.n_rows, got.n_cols, got.title), df.shape + (title,), 'table-basics')
            ctx.equal(got.uom_list, uoms, 'units')
            for k in range(df.shape[1]):
                ctx.equal(got.column_uom(k), uoms[k] if uoms else 'Euc', 'column-unit')
            if tt:
                ctx.equal(list(got.time_series().timestamps), stamps, 'time-series')
            if meta:
                for k, v in meta.items():
                    ctx.equal(got.extra_metadata.get(k), v, 'metadata')
        ctx.observe('tables reloaded')
        if real is None:
            ctx.raises(Exception, lambda: cls(m, uuid = u, realization = 3), 'no-such-realization')
    ctx.check(rqdf.dataframe_for_title(m, 'no such') is None, 'absent', 'table with unknown title found')


def realizations(ctx):
    """Realisations added to a table, in one session or over several, each come back as given."""
    import resqpy.model as rq
    import resqpy.olio.dataframe as rqdf
    m = gen.model(ctx)
    r, c = ctx.integer(2, 6), ctx.integer(2, 6)
    if ctx.flag(0.3):
        c = r
    cols = list(dict.fromkeys(x.strip() for x in column_names(ctx, c)))
    c = len(cols)
    tt = ctx.flag()
    uoms = [ctx.choice(UOMS) for _ in cols] if ctx.flag() else None
    numbers = ctx.subset(list(range(10)), ctx.integer(1, 4))
    ctx.rng.shuffle(numbers)
    ctx.sig(r, c, tt, len(numbers))
    dfs = {}
    u = None
    stamps = None
    for n in numbers:
        df = frame(ctx, r, cols)
        dfs[n] = df
        if u is None:
            kw = {}
            if tt:
                kw['time_series'], stamps = series(ctx, m, r)
            o = (rqdf.TimeTable if tt else rqdf.DataFrame)(m, df = df, realization = n, uom_list = uoms, title = 'ensemble', **kw)
        else:
            o = (rqdf.TimeTable if tt else rqdf.DataFrame)(m, uuid = u, df = df, realization = n)
        o.write_hdf5_and_create_xml()
        u = o.mesh.uuid
        if ctx.flag(0.4):
            m = fresh(m)
    m = fresh(m)
    ctx.equal(len(rqdf.dataframe_parts_in_model(m)), 1, 'ensemble-parts')
    ctx.equal(len(m.parts(obj_type = 'ContinuousProperty')), len(numbers), 'ensemble-parts', 'properties')
    for n, df in dfs.items():
        o = (rqdf.TimeTable if tt else rqdf.DataFrame)(m, uuid = u, realization = n)
        same(ctx, o.dataframe(), df, 'realization', which = n, of = numbers)
        ctx.equal(o.uom_list, uoms, 'realization-units')
        if tt:
            ctx.equal(list(o.time_series().timestamps), stamps, 'realization-time-series')
        ctx.observe('realizations')
    if len(numbers) > 1:
        ctx.raises(Exception, lambda: rqdf.DataFrame(m, uuid = u), 'realization-unspecified')
    other = [n for n in range(10) if n not in dfs]
    ctx.raises(Exception, lambda: rqdf.DataFrame(m, uuid = u, realization = other[0]), 'realization-absent')
    ctx.raises(Exception, lambda: rqdf.DataFrame(m, uuid = u, df = frame(ctx, r, cols), realization = numbers[0]), 'realization-exists')


# relative permeability

COMBOS = {'water-oil': (('Sw', 'So'), 'Krw', 'Kro'), 'gas-oil': (('Sg', 'So'), 'Krg', 'Kro'), 'gas-water': (('Sg', 'Sw'), 'Krg', 'Krw')}


def relperm_frame(ctx, combo, wetting_only = False, digits = 4):
    sats, kr1, kr2 = COMBOS[combo]
    sat = sats[0] if wetting_only else ctx.choice(list(sats))
    n = ctx.integer(2, 9)
    up = lambda a, b: np.round(np.sort(ctx.rng.uniform(a, b, size = n)), digits)
    own, other = ('Kr' + sat[1], kr2 if 'Kr' + sat[1] == kr1 else kr1)
    d = {sat: up(0.0, 1.0), own: up(0.0, 1.0), other: up(0.0, 1.0)[::-1]}
    if len(set(d[sat])) < n:
        raise Skip('repeated saturation')
    order = [own, other]
    ctx.rng.shuffle(order)
    order = [sat] + order
    if ctx.flag(0.7):
        pc = up(0.0, 50.0)
        if ctx.flag():
            pc = pc[::-1].copy()
        hide = ctx.rng.random(n) < ctx.choice([0.0, 0.4])
        if not np.all(hide):
            pc[hide] = np.nan
        d['Pc'] = pc
        order.append('Pc')
    df = pd.DataFrame(d)[order]
    if ctx.flag(0.4):
        df = df.iloc[::-1].reset_index(drop = True)
    return df


def styled(ctx, df):
    how = ctx.choice([str, str.upper, str.lower])
    d = df.copy()
    d.columns = [how(c) for c in d.columns]
    return d


def relperm(ctx):
    """Relative permeability tables: stored, found by their attributes and interpolated."""
    from resqpy.olio.relperm import RelPerm, relperm_parts_in_model
    m = gen.model(ctx)
    kept = []
    for t in range(ctx.integer(1, 4)):
        combo = ctx.choice(list(COMBOS))
        df = relperm_frame(ctx, combo)
        said = ctx.choice([combo, '-'.join(reversed(combo.split('-'))), None])
        if said is None:  # the combination is deduced from the column names
            pass
        low, index = ctx.flag() and combo == 'water-oil', ctx.choice([None, 1, 2, 5])
        uoms = ['Euc'] * 3 + ['psi'] * (df.shape[1] - 3) if ctx.flag() else None
        o = RelPerm(m, df = styled(ctx, df), uom_list = uoms, phase_combo = said, low_sal = low, table_index = index, title = f't{t}')
        ctx.equal(o.phase_combo, said or combo, 'phase-combo')
        same(ctx, o.dataframe(), df, 'relperm-given')
        o.write_hdf5_and_create_xml()
        kept.append((o.mesh.uuid, df, said or combo, low, index, uoms))
    ctx.sig(*[(k[2], k[1].shape, k[3]) for k in kept])
    m = fresh(m)
    part = lambda k: m.part_for_uuid(k[0])
    for u, df, combo, low, index, uoms in kept:
        o = RelPerm(m, uuid = u)
        same(ctx, o.dataframe(), df, 'relperm')
        ctx.equal(o.uom_list, uoms, 'relperm-units')
        ctx.equal((o.phase_combo, str(o.low_sal).lower(), str(o.table_index)), (combo, str(low).lower(), str(index)), 'relperm-attributes')
        check_interpolation(ctx, o, df)
        ctx.observe('relperm tables')
        ctx.equal(sorted(relperm_parts_in_model(m, phase_combo = combo)), sorted(part(k) for k in kept if k[2] == combo), 'relperm-parts', 'combination')
        ctx.equal(sorted(relperm_parts_in_model(m, low_sal = low)), sorted(part(k) for k in kept if k[3] == low), 'relperm-parts', 'salinity')
        if index is not None:
            ctx.equal(sorted(relperm_parts_in_model(m, table_index = index)), sorted(part(k) for k in kept if k[4] == index), 'relperm-parts', 'index')
    ctx.equal(sorted(relperm_parts_in_model(m)), sorted(part(k) for k in kept), 'relperm-parts')
    refuse(ctx, m)


def check_interpolation(ctx, o, df):
    sat = df.columns[0]
    for col in df.columns[1:]:
        d = df[[sat, col]].dropna().sort_values(by = sat)
        x, y = d[sat].to_numpy(), d[col].to_numpy()
        s = ctx.choice([x[0], x[-1], ctx.uniform(x[0], x[-1])])
        i = min(max(int(np.searchsorted(x, s)), 1), len(x) - 1)
        e = y[0] if len(x) == 1 else y[i - 1] + (s - x[i - 1]) / (x[i] - x[i - 1]) * (y[i] - y[i - 1])
        got = o.interpolate_point(s, ctx.choice([col, col, col.upper(), col.lower()]))
        ctx.equal(got[0], s, 'interpolation', 'saturation')
        ctx.close(got[1], e, 'interpolation', tol = 1.0e-9, column = col)
    ctx.raises(ValueError, lambda: o.interpolate_point(df[sat].max() + 0.001, df.columns[1]), 'interpolation-outside')
    ctx.raises(ValueError, lambda: o.interpolate_point(df[sat].min() - 0.001, df.columns[1]), 'interpolation-outside')
    ctx.raises(ValueError, lambda: o.interpolate_point(df[sat].iloc[0], sat), 'interpolation-column')


def refuse(ctx, m):
    """Tables that are not physically acceptable are refused."""
    from resqpy.olio.relperm import RelPerm
    combo = ctx.choice(list(COMBOS))
    df = relperm_frame(ctx, combo)
    kw = dict(phase_combo = combo)
    bad = ctx.choice(['range', 'monotonic', 'missing', 'column', 'saturation', 'combo', 'index', 'pc', 'order'])
    n = len(df)
    c = int(ctx.integer(0, 2))
    if bad == 'range':
        df.iloc[int(np.argmax(df.iloc[:, c].to_numpy())), c] = 1.001
    elif bad == 'monotonic':
        v = df.iloc[:, c].to_numpy().copy()
        if n < 3 or np.max(v) == np.min(v) or np.argmax(v) not in (0, n - 1):
            return
        i = ctx.integer(1, n - 2)
        v[i] = max(v) if max(v) > v[i] and (v[0] < max(v) and v[-1] < max(v)) else (max(v) + 1.0) / 2
        if v[i] <= max(v[0], v[-1]):
            return
        df.iloc[:, c] = v
    elif bad == 'missing':
        df.iloc[ctx.integer(0, n - 1), c] = np.nan
    elif bad == 'column':
        df = df.rename(columns = {df.columns[1]: 'Krx'})
    elif bad == 'saturation':
        other = [s for s in COMBOS[combo][0] if s != df.columns[0]][0]
        df.insert(1, other, 1.0 - df.iloc[:, 0])
    elif bad == 'combo':
        kw['phase_combo'] = ctx.choice(['oil', 'water-water', 'brine-oil', 'water_oil'])
    elif bad == 'index':
        kw['table_index'] = ctx.integer(-3, 0)
    elif bad == 'pc':
        if 'Pc' not in df or n < 3:
            return
        df['Pc'] = 1.0
        df.loc[1, 'Pc'] = 2.0
    else:
        df = df[[df.columns[1], df.columns[0]] + list(df.columns[2:])]
    ctx.raises(Exception, lambda: RelPerm(m, df = df, title = 'bad', **kw), 'relperm-refused-' + bad)
    ctx.observe('unacceptable tables')


NEXUS = {'water-oil': ('WOTABLE', {'Sw': 'SW', 'Krw': 'KRW', 'Kro': 'KROW', 'Pc': 'PCWO'}), 'gas-oil': ('GOTABLE', {'Sg': 'SG', 'Krg': 'KRG', 'Kro': 'KROG', 'Pc': 'PCGO'}),
         'gas-water': ('GWTABLE', {'Sg': 'SG', 'Krg': 'KRG', 'Krw': 'KRWG', 'Pc': 'PCGW'})}


def relperm_text(ctx):
    """Relative permeability tables written as text by the library, or laid out otherwise, are read with the same values."""
    from resqpy.olio.relperm import RelPerm, text_to_relperm_dict
    m = gen.model(ctx)
    n = ctx.integer(1, 4)
    own = ctx.flag()
    fn = ctx.path('rp.dat')
    want, text, low = [], '', []
    for t in range(n):
        combo = ctx.choice(list(COMBOS))
        df = relperm_frame(ctx, combo, wetting_only = own or ctx.flag())
        lo = combo == 'water-oil' and ctx.flag()
        if 'Pc' in df and df['Pc'].isna().all():
            raise Skip('no capillary pressure')
        want.append((combo, df))
        low.append(lo)
        if own:
            text += layout(ctx, combo, df, lo)
        else:
            o = RelPerm(m, df = df.copy(), phase_combo = combo, low_sal = lo, title = f't{t}')
            if ctx.flag():
                o.write_hdf5_and_create_xml()
                m = fresh(m)
                o = RelPerm(m, uuid = o.mesh.uuid)
            o.df_to_text(os.path.dirname(fn), 'rp')
    if own:
        with open(fn, 'w') as f:
            f.write(text)
    else:
        with open(fn) as f:
            text = f.read()
    ctx.sig(own, *[(c, d.shape) for c, d in want])
    heads = [line for line in text.splitlines() if 'TABLE' in line and not line.strip().startswith('!')]
    ctx.equal(['LOW_SAL' in h for h in heads], low, 'low-salinity')
    for got in (text_to_relperm_dict(fn), text_to_relperm_dict(text, is_file = False)):
        ctx.equal(list(got), [f'relperm_table{i + 1}' for i in range(n)], 'text-tables', 'count')
        for (combo, df), g in zip(want, got.values()):
            ctx.equal(g['phase_combo'], combo, 'text-combination')
            ctx.equal(list(g['df'].columns), list(df.columns), 'text-columns')
            ctx.equal(g['df'].shape, df.shape, 'text-shape')
            ctx.close(g['df'].to_numpy(dtype = float), df.to_numpy(), 'text-values', tol = 1.0e-6)
            again = RelPerm(m, df = g['df'].copy(), phase_combo = combo, title = 'again')
            same(ctx, again.dataframe(), g['df'], 'text-again')
            ctx.observe('relperm text tables')


def layout(ctx, combo, df, lo):
    kw, names = NEXUS[combo]
    sep = lambda: ctx.choice([' ', '   ', '\t', ' \t'])
    out = ''
    noise = lambda p = 0.3: (ctx.choice(['! a comment\n', '\n', '   \n', '  ! SW KRW 1 2 3\n']) if ctx.flag(p) else '')
    end = lambda p = 0.3: (ctx.choice(['', ' ', '\t']) + ('! remark 1 2 3' if ctx.flag(p) else '') + '\n')
    out += noise() + (' ' if ctx.flag(0.3) else '') + kw + (' (LOW_SAL)' if lo else '') + end()
    out += noise() + sep().join(names[c] for c in df.columns) + end()
    for row in df.to_numpy():
        out += noise(0.15)
        words = [repr(float(v)) for v in row]
        if words[-1] == 'nan':
            words[-1] = ctx.choice(['NA', ''])
            if 'NA' not in words:
                words.pop()
        out += (' ' if ctx.flag(0.3) else '') + sep().join(words) + end(0.2)
    if len(df.columns) == 4 and not any(len(line.split('!')[0].split()) == 4 for line in out.splitlines()[1:]):
        raise Skip('no line with all columns')
    return out + noise()


# Nexus fault tables


def fault_tables(ctx):
    """Transmissibility multiplier tables are read with all rows, names, grids and faces."""
    import resqpy.olio.read_nexus_fault as rnf
    text, rows = [], []
    n = ctx.integer(0, 6)

    def noise(p):
        if ctx.flag(p):
            text.append(ctx.choice(['! comment 1 2 3\n', '\n', '    \n', 'C comment MULT TX\n', '  ! MULT TX ALL PLUS MULT\n']))

    for t in range(n):
        noise(0.5)
        if ctx.flag(0.3):
            text.append(ctx.choice(['NETWORK stuff\n', 'EQUALS 5\n', 'ARRAYS ROOT\n', 'TOLERANCES\n']))
        key = ctx.choice(['TX', 'TY', 'TZ', 'TI', 'TJ', 'TK'])
        minus = ctx.flag()
        sign = 'MINUS' if minus else ctx.choice(['PLUS', 'PLUS', ''])
        text.append(f"{ctx.choice(['', '  '])}MULT\t{key} ALL {sign} MULT{ctx.choice(['', ' ! remark', ' '])}\n")
        face = {'X': 'I', 'Y': 'J', 'Z': 'K'}.get(key[1], key[1]) + ('-' if minus else '')
        grid, name = 'ROOT', 'NONE'
        head = []
        if ctx.flag(0.7):
            grid = ctx.choice(['ROOT', 'LGR_1', 'G2'])
            head.append(f'GRID {grid}\n')
        if ctx.flag(0.8):
            name = ctx.choice(['F1', 'fault_2', '12', 'Long-Name', 'F1'])
            head.append(f' FNAME {name}{ctx.choice(["", " ! which"])}\n')
        ctx.rng.shuffle(head)
        noise(0.2)
        for h in head:
            text.append(h)
            noise(0.2)
        for _ in range(ctx.choice([1, 1, ctx.integer(1, 8)])):
            lo = [ctx.integer(1, 150) for _ in range(3)]
            hi = [v + ctx.choice([0, 0, ctx.integer(0, 90)]) for v in lo]
            mult = ctx.choice([0.0, 1.0, 0.5, 1.0e-6, ctx.uniform(0.0, 2.0), 3.0])
            ms = ctx.choice([repr(mult), f'{mult:.4e}', f'{mult:.3f}'])
            text.append(' '.join(f'{a}{ctx.choice([" ", "  ", chr(9)])}{b}' for a, b in zip(lo, hi)) + f' {ms}' + ctx.choice(['', '  ', ' ! why']) + '\n')
            rows.append((lo[0], hi[0], lo[1], hi[1], lo[2], hi[2], float(ms), grid, name, face))
            noise(0.15)
        if ctx.flag(0.2):
            text.append(ctx.choice(['STOP\n', 'WELLS\n', 'OTHER 1 2 3 4 5 6 7\n']))
    noise(0.5)
    if text and ctx.flag(0.3):
        text[-1] = text[-1].rstrip('\n')
    ctx.sig(n, len(rows), len(set(r[-1] for r in rows)))
    fn = ctx.path('faults.inc')
    with open(fn, 'w') as f:
        f.writelines(text)
    for df in (rnf.load_nexus_fault_mult_table(fn), rnf.load_nexus_fault_mult_table_from_list(text)):
        if not rows:
            ctx.equal(len(df), 0, 'fault-rows', 'none')
            continue
        ctx.equal(list(df.columns), ['i1', 'i2', 'j1', 'j2', 'k1', 'k2', 'mult', 'grid', 'name', 'face'], 'fault-columns')
        ctx.equal(len(df), len(rows), 'fault-rows', 'number')
        ctx.equal(list(df.index), list(range(len(rows))), 'fault-rows', 'index')
        for got, e in zip(df.itertuples(index = False), rows):
            ctx.equal(tuple(got)[:6] + tuple(got)[7:], e[:6] + e[7:], 'fault-row')
            ctx.close(got[6], e[6], 'fault-multiplier', tol = 0.0, rtol = 1.0e-12)  # pandas does not round to nearest
        ctx.observe('fault rows', len(rows))


# wellspec

COLUMNS = ['IW', 'JW', 'L', 'GRID', 'RADW', 'KHMULT', 'STAT', 'ANGLA', 'ANGLV', 'LENGTH', 'KH', 'SKIN', 'PPERF', 'ANGLE', 'IRELPM', 'RADB', 'WI', 'K', 'LAYER', 'DEPTH',
           'X', 'Y', 'RADBP', 'RADWP', 'MD', 'PARENT', 'MDCON', 'SECT', 'FLOWSECT', 'ZONE', 'GROUP', 'TEMP', 'IPTN', 'D', 'ND', 'DZ']
INTS = ['IW', 'JW', 'L', 'IRELPM', 'LAYER', 'ZONE', 'IPTN']
TEXTS = ['GRID', 'STAT', 'PARENT', 'SECT', 'FLOWSECT', 'GROUP', 'ND']


def entry(ctx, col, nulls):
    """Returns a word for a wellspec table and the value it stands for."""
    if col in ('IW', 'JW', 'L'):
        v = ctx.integer(1, 4)
        return str(v), v
    if col == 'STAT':
        v = ctx.choice(['ON', 'OFF', 'ON', 'OFF', 'on', 'off'])
        return v, int(v.upper() == 'ON')
    if nulls and ctx.flag(0.4):
        return 'NA', np.nan
    if col in INTS:
        v = ctx.integer(1, 90)
        return str(v), v
    if col == 'GRID':
        v = ctx.choice(['ROOT', 'LGR1'])
        return v, v
    if col in TEXTS:
        v = ctx.choice(['1', 'a', 'B2'])
        return v, v
    if col == 'DEPTH' and ctx.flag(0.2):
        return '#', '#'
    v = ctx.choice([0.0, ctx.uniform(-500.0, 5000.0), float(ctx.integer(0, 99))])
    w = ctx.choice([repr(v), f'{v:.3f}', f'{v:.5E}'])
    return w, float(w)


def equal_frames(ctx, got, cols, rows, code, **data):
    ctx.check(got is not None, code, 'no table', **data)
    ctx.equal(list(got.columns), cols, code + '-columns')
    ctx.equal(len(got), len(rows), code + '-rows')
    for g, e in zip(got.itertuples(index = False), rows):
        for c, a, b in zip(cols, g, e):
            if isinstance(b, (str, type(None))) or isinstance(a, str):
                ctx.equal(a, b, code + '-' + 'text', c)
            elif isinstance(b, float) and np.isnan(b):
                ctx.check(pd.isna(a), code + '-null', 'null expected', got = a, column = c)
            else:
                ctx.check(float(a) == float(b), code + '-value', 'value differs', got = a, expected = b, column = c, **data)


def wellspec(ctx):
    """Well specification files in any layout: all wells, dates, columns, rows, null markers and duplicates."""
    import resqpy.olio.wellspec_keywords as wk
    names = [f'W{i}' for i in range(ctx.integer(1, 4))] + ['w0']
    usa = ctx.flag(0.3)
    text = []
    tables = []  # (well, date, columns, rows)
    date = None
    day = datetime.date(1990, 1, 1)
    dates = []

    def noise(p):
        while ctx.flag(p):
            text.append(ctx.choice(['! comment\n', '\n', '   \n', 'C comment\n', ' ! IW JW L\n', 'c other comment\n']))

    for _ in range(ctx.integer(1, 6)):
        noise(0.3)
        if ctx.flag(0.5):
            day += datetime.timedelta(days = ctx.integer(1, 500))
            date = day.isoformat()
            ds = day.strftime('%m/%d/%Y' if usa else '%d/%m/%Y')
            text.append(f"{ctx.choice(['TIME', 'time', '  TIME'])} {ds}{ctx.choice(['', '(12:30:00)', ' ! when'])}\n")
            noise(0.3)
        if ctx.flag(0.2):
            text.append(ctx.choice(['METRIC\n', 'ENGLISH\n', 'WELLMOD W0 KHMULT CON 0.5\n', 'INCLUDE other.inc\n']))
        w = ctx.choice(names)
        text.append(f"{ctx.choice(['WELLSPEC', 'wellspec', ' WELLSPEC'])} {w}{ctx.choice(['', ' ! well', ' '])}\n")
        noise(0.2)
        cols = ['IW', 'JW', 'L'] + ctx.subset([c for c in COLUMNS if c not in ('IW', 'JW', 'L')], ctx.integer(0, 8))
        if ctx.flag(0.3):
            ctx.rng.shuffle(cols)
        low = ctx.flag(0.2)
        text.append('  '.join(c.lower() if low else c for c in cols) + ctx.choice(['', ' ! columns', '  ']) + '\n')
        nulls = {c: ctx.choice([0, 0, 1, 2]) for c in cols}
        rows = []
        for _ in range(ctx.integer(1, 6)):
            noise(0.15)
            words, vals = zip(*[('NA', np.nan) if nulls[c] == 2 and c not in ('IW', 'JW', 'L', 'STAT') else entry(ctx, c, nulls[c] == 1) for c in cols])
            text.append(ctx.choice(['', '  ']) + ctx.choice([' ', '  ', '\t']).join(words) + ctx.choice(['', ' ! what', '  ']) + '\n')
            rows.append(vals)
        tables.append((w, date, cols, rows))
        if date:
            dates.append(date)
        noise(0.3)
    if ctx.flag(0.3):
        text.append('TIME ' + (day + datetime.timedelta(days = 9)).strftime('%m/%d/%Y' if usa else '%d/%m/%Y') + '\n')
    if ctx.flag(0.3):
        text[-1] = text[-1].rstrip('\n')
    fn = ctx.path('wells.dat')
    with open(fn, 'w') as f:
        f.writelines(text)
    wells = list(dict.fromkeys(t[0] for t in tables))
    select = ctx.flag(0.4)
    pick = None
    kw = dict(usa_date_format = usa)
    if select:
        pick = ctx.subset(COLUMNS, ctx.integer(1, 6))
        ctx.rng.shuffle(pick)
        pick = [str(p) for p in pick if p != 'STAT' or all('STAT' in t[2] for t in tables)] or ['GRID']
        kw['column_list'] = pick
    last, dup, nullc = ctx.flag(), ctx.flag(), ctx.flag(0.7)
    ctx.sig(len(tables), len(wells), select, last, dup, nullc, len(set(dates)))
    only = ctx.choice(wells) if ctx.flag(0.3) else None
    r = wk.load_wellspecs(fn, well = only, keep_duplicate_cells = dup, keep_null_columns = nullc, last_data_only = last, return_dates_list = True, **kw)
    got, listed = r
    ctx.equal(listed, sorted(set(dates)), 'dates')
    exp = {}
    for w in ([only] if only else wells):
        mine = [t for t in tables if t[0] == w]
        parts = [view(t, pick, dup) for t in (mine[-1:] if last else mine)]
        if any(p is None for p in parts):
            parts = [p for p in parts if p is not None]
        if not parts:
            continue
        cols = list(dict.fromkeys(c for p in parts for c in p[0] + ([] if last else ['DATE'])))
        rows = []
        for c, rr, d in parts:
            for row in rr:
                v = dict(zip(c, row))
                v['DATE'] = d
                rows.append([v.get(k, np.nan) for k in cols])
        if not nullc:
            if not dup and any(view(t, pick, True) and len(view(t, pick, True)[1]) != len(view(t, pick, False)[1]) for t in mine):
                raise Skip('nulls once duplicates are gone')
            keep = [i for i, c in enumerate(cols) if not all(x is None or (isinstance(x, float) and np.isnan(x)) for x in [row[i] for row in rows])]
            cols = [cols[i] for i in keep]
            rows = [[row[i] for i in keep] for row in rows]
        exp[w] = (cols, rows)
    ctx.equal(list(got), list(exp), 'wells')
    for w, (cols, rows) in exp.items():
        equal_frames(ctx, got[w], cols, rows, 'wellspec', well = w)
        ctx.observe('wellspec tables')
    ctx.equal(wk.load_wellspecs(fn, column_list = None, usa_date_format = usa), {w: None for w in wells}, 'well-names')
    p = wk.get_well_pointers(fn, usa_date_format = usa)
    ctx.equal({w: [d for _, d in v] for w, v in p.items()}, {w: [t[1] for t in tables if t[0] == w] for w in wells}, 'well-dates')
    if dates or date:
        first = datetime.date(1989, 1, 1)
        p = wk.get_well_pointers(fn, usa_date_format = usa, no_date_replacement = first)
        ctx.equal({w: [d for _, d in v] for w, v in p.items()}, {w: [t[1] or first.isoformat() for t in tables if t[0] == w] for w in wells}, 'well-dates', 'first')


def view(table, pick, dup):
    """Columns, rows and date expected for one table of a file; None if there is nothing but nulls."""
    _, date, cols, rows = table
    if pick is not None:
        sel = []
        for row in rows:
            v = dict(zip(cols, row))
            sel.append(tuple(v[c] if c in v else ('ROOT' if c == 'GRID' else np.nan) for c in pick))
        if all(pd.isna(x) for row in sel for x in row):
            return None
        cols, rows = list(pick), sel
    if not dup and all(c in cols for c in ('IW', 'JW', 'L')):
        at = [cols.index(c) for c in ('IW', 'JW', 'L')]
        keys = [tuple(row[i] for i in at) for row in rows]
        rows = [row for n, row in enumerate(rows) if keys[n] not in keys[n + 1:] or all(pd.isna(k) for k in keys[n]) and keys[n] not in keys[n + 1:]]
    return cols, rows, date


def keywords(ctx):
    """Searching for keywords in a text file leaves the file at the right place."""
    import resqpy.olio.keyword_files as kf
    pool = ['ALPHA 1 2\n', 'beta x\n', '  Gamma\n', '\n', '   \n', '! comment\n', 'C comment\n', '12 13\n', ' -1.5e3 a\n', 'alphabet\n', 'ALPHA beta\n', 'NOT ALPHA\n', '# hash\n',
            'word ! trailing\n', '1E5!x\n']
    lines = [ctx.choice(pool) for _ in range(ctx.integer(0, 12))]
    if lines and ctx.flag(0.3):
        lines[-1] = lines[-1].rstrip('\n') or 'last'
    fn = ctx.path('k.txt')
    with open(fn, 'w') as f:
        f.writelines(lines)
    start = ctx.integer(0, len(lines))
    starts = np.cumsum([0] + [len(x) for x in lines])
    rest = lines[start:]
    words = [x.split() for x in rest]
    key = ctx.choice(['alpha', 'ALPHA', 'Beta', 'gamma', 'delta'])
    comment = lambda w: len(w) > 0 and (w[0][0] == '!' or w[0] in ('C', 'c'))
    first = lambda ok: next((i for i, w in enumerate(words) if ok(w)), None)
    is_key = lambda w, k = key: len(w) > 0 and w[0].upper() == k.upper()
    number = lambda w: len(w) > 0 and _number(w[0])
    with open(fn) as f:

        def go(fun, found, miss, code, *args, **kw):
            f.seek(int(starts[start]))
            r = fun(f, *args, **kw)
            at = starts[start + found] if found is not None else (None if miss == 'anywhere' else miss)
            if at is not None:
                ctx.equal(f.tell(), int(at), code, 'position')
            return r

        here = starts[start]
        i = first(is_key)
        ctx.equal(go(kf.find_keyword, i, here, 'find'  , key), i is not None, 'find-keyword', key)
        lim = ctx.integer(0, 6)
        j = i if i is not None and i < lim else None
        ctx.equal(go(kf.find_keyword, j, here, 'find-limit', key, max_lines = lim), j is not None, 'find-keyword-limit', key)
        stop = ctx.choice(['beta', 'gamma', 'word'])
        s = first(lambda w: is_key(w, stop))
        if i is not None and (s is None or i <= s):
            ctx.equal(go(kf.find_keyword_without_passing, i, here, 'no-pass', key, stop), True, 'find-without-passing')
        else:
            ctx.equal(go(kf.find_keyword_without_passing, s, 'anywhere', 'no-pass', key, stop), False, 'find-without-passing')
        n = first(number)
        ctx.equal(go(kf.find_number, n, 'anywhere', 'number'), n is not None, 'find-number')
        pair = first(lambda w: len(w) > 1 and w[0].upper() == 'ALPHA' and w[1].upper() == 'BETA')
        ctx.equal(go(kf.find_keyword_pair, pair, 'anywhere', 'pair', 'alpha', 'beta'), pair is not None, 'find-pair')
        b = first(lambda w: len(w) > 0 and not comment(w))
        go(kf.skip_blank_lines_and_comments, b, starts[-1], 'skip')
        b = first(lambda w: not comment(w))
        go(kf.skip_comments, b, starts[-1], 'skip-comments')
        nb = first(lambda w: len(w) > 0 and w[0][0] != '!')
        f.seek(int(here))
        ctx.equal(kf.specific_keyword_next(f, key), nb is not None and is_key(words[nb]), 'keyword-next')
        f.seek(int(here))
        ctx.equal(kf.number_next(f), nb is not None and number(words[nb]), 'number-next')
        f.seek(int(here))
        ctx.equal(kf.end_of_file(f), len(rest) == 0, 'end-of-file')
        f.seek(int(here))
        ctx.equal(kf.blank_line(f), len(rest) == 0 or len(words[0]) == 0, 'blank-line')
        ctx.equal(f.tell(), int(here), 'blank-line', 'position')
        f.seek(int(here))
        with open(ctx.path('copy.txt'), 'w') as out:
            ctx.equal(kf.find_keyword_with_copy(f, key, out), i is not None, 'find-with-copy')
        with open(ctx.path('copy.txt')) as c:
            ctx.equal(c.read(), ''.join(rest[:i] if i is not None else rest), 'find-with-copy', 'copied')
    for x in lines:
        t = x.rstrip('\n')
        a, _, z = t.partition('!')
        ctx.equal(kf.split_trailing_comment(x), (a, z), 'trailing-comment')
        ctx.equal(kf.strip_trailing_comment(x), a, 'trailing-comment', 'strip')
    ctx.sig(tuple(lines), key)
    ctx.observe('keyword searches')


def _number(w):
    try:
        float(w)
        return True
    except ValueError:
        return False


def accepted(ctx):
    """Value checks of well specification columns follow the stated limits."""
    import resqpy.olio.wellspec_keywords as wk
    limits = {'ANGLA': (-360.0, 360.0, True), 'ANGLV': (0.0, 180.0, True), 'PPERF': (0.0, 1.0, True), 'ANGLE': (0.0, 360.0, True), 'RADW': (0.0, np.inf, False), 'RADB': (0.0, np.inf, False),
              'RADWP': (0.0, np.inf, False), 'RADBP': (0.0, np.inf, False), 'WI': (0.0, np.inf, True), 'LENGTH': (0.0, np.inf, True), 'KH': (0.0, np.inf, True), 'KHMULT': (0.0, np.inf, True), 'K': (0.0, np.inf, True), 'DZ': (0.0, np.inf, True)}
    for key, (lo, hi, closed) in limits.items():
        for v in (lo, hi, lo - 1.0e-3, hi + 1.0e-3, ctx.uniform(-500.0, 500.0)):
            if np.isinf(v):
                continue
            e = (lo <= v <= hi) if closed else (v > lo)
            k = ctx.choice([key, key.lower()])
            ctx.equal(wk.check_value(k, ctx.choice([v, repr(v)])), bool(e), 'acceptable', key)
        ctx.equal(wk.check_value(key, 'x'), False, 'acceptable', key)
    for key in ('IW', 'JW', 'L', 'LAYER', 'IRELPM', 'ZONE', 'IPTN'):
        v = ctx.integer(-3, 3)
        ctx.equal(wk.check_value(key, ctx.choice([v, str(v)])), v > 0, 'acceptable', key)
    for v, e in (('ON', True), ('off', True), ('SHUT', False), ('', False)):
        ctx.equal(wk.check_value('STAT', v), e, 'acceptable', 'STAT')
    ctx.equal(wk.check_value('NOSUCH', 1), False, 'acceptable', 'unknown')
    ctx.sig(ctx.integer(0, 10**9))


SCENARIOS = [
    Scenario(tables, 60),
    Scenario(realizations, 40),
    Scenario(relperm, 60),
    Scenario(relperm_text, 80),
    Scenario(fault_tables, 150),
    Scenario(wellspec, 200),
    Scenario(keywords, 200),
    Scenario(accepted, 20),
    Scenario(c30.files, 60, name = 'mesh_files'),
]
