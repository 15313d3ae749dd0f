"""C10: time series."""

import bisect
import datetime as dt

import numpy as np

from rv.core import Scenario, Skip
from rv import gen
from props.spec import spec

PROP = spec('C10')


def fmt(ctx, d, style = None):
    """One of the iso forms for a datetime."""
    styles = ['full']
    if (d.hour, d.minute, d.second, d.microsecond) == (0, 0, 0, 0):
        styles += ['date', 'date', 'plain']
    else:
        styles += ['plain']
    s = style or ctx.choice(styles)
    if s == 'date' and (d.hour, d.minute, d.second, d.microsecond) == (0, 0, 0, 0):
        return d.date().isoformat()
    if s == 'plain':
        return d.isoformat()
    return d.isoformat() + 'Z'


def random_times(ctx, n, fractional = False):
    base = dt.datetime(ctx.choice([1900, 1969, 1999, 2000, 2019, 2023, 2024]), ctx.integer(1, 12), ctx.choice([1, 28, 15]))
    if ctx.flag(0.3):
        base = base.replace(day = 28, month = 2)
    out = [base]
    kind = ctx.choice(['day', 'mixed', 'second', 'month'])
    while len(out) < n:
        if kind == 'day':
            d = dt.timedelta(days = ctx.integer(1, 40))
        elif kind == 'second':
            d = dt.timedelta(seconds = ctx.integer(1, 200000))
        elif kind == 'month':
            d = dt.timedelta(days = ctx.choice([28, 29, 30, 31, 365, 366]))
        else:
            d = dt.timedelta(days = ctx.integer(0, 3), seconds = ctx.integer(1, 86399))
        if fractional and ctx.flag(0.4):
            d += dt.timedelta(microseconds = ctx.choice([500000, 1, 250000]))
        out.append(out[-1] + d)
    return out, kind


def parse(s):
    return dt.datetime.fromisoformat(s[:-1] if s.endswith('Z') else s)


def lookups(ctx):
    import resqpy.time_series as rts
    m = gen.model(ctx, crs = False)
    n = ctx.choice([1, 2, 3, 5, 12])
    times, kind = random_times(ctx, n, fractional = ctx.flag(0.3))
    style = ctx.choice([None, 'full', 'date'])
    stamps = [fmt(ctx, t, style) for t in times]
    ctx.sig(kind, n, style, stamps[0])
    ts = rts.TimeSeries(m, first_timestamp = stamps[0], title = 'ts')
    how = ctx.choice(['append', 'insert', 'list'])
    if how == 'append' or n == 1:
        for s in stamps[1:]:
            ts.add_timestamp(s)
    elif how == 'insert':
        ts.timestamps = []
        for i in ctx.rng.permutation(n):
            ts.add_timestamp(stamps[i], allow_insertion = True)
    else:
        if any(t.microsecond for t in times):
            times = [t.replace(microsecond = 0) for t in times]
            times = sorted(set(times))
            n = len(times)
            stamps = [fmt(ctx, t, 'full') for t in times]
        ts = rts.time_series_from_list([stamps[i] for i in ctx.rng.permutation(n)], parent_model = m, title = 'ts')
        stamps = list(ts.timestamps)
    ctx.equal([parse(s) for s in ts.timestamps], times, 'order', f'series built by {how} must be in time order')
    if how == 'append':
        ctx.raises(AssertionError, lambda: ts.add_timestamp(fmt(ctx, times[-1] - dt.timedelta(seconds = ctx.choice([0, 1, 1000])))), 'out-of-order-accepted')
    ctx.equal(ts.datetimes(), times, 'datetimes')
    if ctx.flag(0.5):
        ts.create_xml(reuse = False)
        ts2 = rts.TimeSeries(m, uuid = ts.uuid)
        ctx.equal(list(ts2.timestamps), list(ts.timestamps), 'stored-timestamps')
        ts = ts2
    ctx.equal(ts.number_of_timestamps(), n, 'count')
    ctx.equal(list(ts.iter_timestamps()), stamps, 'iter')
    ctx.equal(ts.last_timestamp(), stamps[-1], 'last')
    for _ in range(12):
        # query around a random stamp: exact, just before, just after, mid
        i = ctx.integer(0, n - 1)
        q = times[i] + ctx.choice([dt.timedelta(0), dt.timedelta(seconds = 1), dt.timedelta(seconds = -1), dt.timedelta(days = -1), dt.timedelta(days = 1)])
        if i + 1 < n and ctx.flag(0.4):
            q = times[i] + (times[i + 1] - times[i]) * ctx.choice([0.25, 0.5, 0.75])
            q = q.replace(microsecond = 0)
        if ctx.flag(0.1):
            q = q.replace(hour = 0, minute = 0, second = 0, microsecond = 0)
        qs = fmt(ctx, q)
        e = bisect.bisect_right(times, q) - 1
        ctx.equal(ts.index_for_timestamp_not_later_than(qs), None if e < 0 else e, 'not-later', q = qs, stamps = stamps)
        e = bisect.bisect_left(times, q)
        ctx.equal(ts.index_for_timestamp_not_earlier_than(qs), None if e == n else e, 'not-earlier', q = qs, stamps = stamps)
        g = ts.index_for_timestamp_closest_to(qs)
        best = min(abs(t - q) for t in times)
        ctx.check(g is not None and abs(times[g] - q) == best, 'closest', 'timestamp found is not the closest', q = qs, got = g, stamps = stamps)
        ctx.equal(ts.index_for_timestamp(stamps[i]), i, 'exact')
    ctx.check(ts.index_for_timestamp('1066-10-14T00:00:00Z') is None, 'exact-missing')
    for i in range(-n - 1, n + 2):
        ctx.equal(ts.timestamp(i), stamps[i] if -n <= i < n else None, 'by-index')
    ctx.observe('queries', 36)


def durations(ctx):
    import resqpy.time_series as rts
    m = gen.model(ctx, crs = False)
    n = ctx.choice([2, 3, 6, 10])
    times, kind = random_times(ctx, n, fractional = ctx.flag(0.2))
    stamps = [fmt(ctx, t) for t in times]
    ctx.sig(kind, n, stamps)
    ts = rts.TimeSeries(m, first_timestamp = stamps[0])
    for s in stamps[1:]:
        ts.add_timestamp(s)
    for _ in range(8):
        i, j = ctx.integer(-1, n), ctx.integer(-1, n)
        ok = 0 <= i <= j < n
        d = ts.duration_between_timestamps(i, j)
        ctx.equal(None if d is None else d.duration, times[j] - times[i] if ok else None, 'between')
        ctx.equal(ts.days_between_timestamps(i, j), (times[j] - times[i]).days if ok else None, 'days-between')
    for i in range(n):
        ctx.equal(ts.duration_since_start(i).duration, times[i] - times[0], 'since-start')
        ctx.equal(ts.days_since_start(i), (times[i] - times[0]).days, 'days-since-start')
        d = ts.step_duration(i)
        ctx.equal(None if d is None else d.duration, times[i] - times[i - 1] if i else None, 'step')
        ctx.equal(ts.step_days(i), (times[i] - times[i - 1]).days if i else None, 'step-days')
    ctx.check(ts.duration_since_start(-1) is None and ts.step_duration(n) is None and ts.duration_since_start(n) is None, 'out-of-range')
    # arithmetic of durations
    kw = {'days': ctx.integer(0, 800), 'hours': ctx.integer(0, 30), 'minutes': ctx.integer(0, 90), 'seconds': ctx.integer(0, 4000)}
    kw = {k: v for k, v in kw.items() if ctx.flag(0.7)}
    dur = rts.TimeDuration(**kw)
    delta = dt.timedelta(**kw)
    ctx.equal(dur.duration, delta, 'duration')
    i = ctx.integer(0, n - 1)
    ctx.equal(parse(dur.timestamp_after_duration(stamps[i])), times[i] + delta, 'after')
    ctx.equal(parse(dur.timestamp_before_duration(stamps[i])), times[i] - delta, 'before')
    ctx.equal(dur.timestamp_before_duration(dur.timestamp_after_duration(stamps[i])), times[i].isoformat() + 'Z', 'after-then-before')
    j = ctx.integer(0, n - 1)
    ctx.equal(rts.TimeDuration(earlier_timestamp = stamps[i], later_timestamp = stamps[j]).duration, times[j] - times[i], 'from-pair')
    ts.extend_by_duration(dur)
    ctx.equal(parse(ts.last_timestamp()), times[-1] + delta, 'extend-duration')
    k = ctx.choice([0, 1, 31, 366, 0.5])
    ts.extend_by_days(k)
    ctx.equal(parse(ts.last_timestamp()), times[-1] + delta + dt.timedelta(days = k), 'extend-days')
    ctx.equal(ts.number_of_timestamps(), n + 2, 'extended-count')
    # regular construction
    d, mo, q, y = [ctx.integer(0, 4) for _ in range(4)]
    r = rts.TimeSeries(m, first_timestamp = stamps[0], daily = d, monthly = mo, quarterly = q, yearly = y)
    exp = [times[0]]
    for step, c in ((1, d), (30, mo), (90, q), (365, y)):
        for _ in range(c):
            exp.append(exp[-1] + dt.timedelta(days = step))
    ctx.equal([parse(s) for s in r.timestamps], exp, 'regular')
    # selection and presentation
    idx = ctx.subset(range(n), ctx.integer(1, n))
    sel = rts.selected_time_series(ts, [idx[k] for k in ctx.rng.permutation(len(idx))], title = 'sel')
    ctx.equal(list(sel.timestamps), [stamps[k] for k in idx], 'selected')
    t, s = times[i], stamps[i]
    ctx.equal(rts.colloquial_date(s), t.strftime('%d/%m/%Y'), 'colloquial')
    ctx.equal(rts.colloquial_date(s, usa_date_format = True), t.strftime('%m/%d/%Y'), 'colloquial-us')
    c = rts.cleaned_timestamp(s)
    ctx.equal(parse(c), t.replace(microsecond = 0), 'cleaned')
    sp = rts.simplified_timestamp(s)
    whole = t.replace(microsecond = 0)
    ctx.equal(sp, whole.isoformat(' ') if (whole.hour, whole.minute, whole.second) != (0, 0, 0) else whole.date().isoformat(), 'simplified')
    for bad in ('2020-13-01', '2020-02-30T00:00:00Z', 'tomorrow'):
        ctx.raises(ValueError, lambda: rts.check_timestamp(bad), 'bad-timestamp-accepted')
    rts.check_timestamp(s)


def persistence(ctx):
    """Human and geologic series through a stored dataset; equivalence, reuse and merging."""
    import resqpy.model as rq
    import resqpy.time_series as rts
    m = gen.model(ctx, crs = False)
    made = []
    geo = ctx.flag(0.4)
    for i in range(ctx.integer(1, 3)):
        n = ctx.integer(1, 8)
        em = gen.metadata(ctx)
        if geo:
            years = sorted(set(ctx.choice([-1, 1]) * int(y) for y in ctx.rng.integers(0, 500000, size = n) * ctx.choice([1, 1000])))
            shuffled = [years[k] for k in ctx.rng.permutation(len(years))]
            if ctx.flag(0.4):
                em = {}
                ts = rts.time_series_from_list(shuffled, parent_model = m, title = gen.title(ctx))
                ctx.check(isinstance(ts, rts.GeologicTimeSeries), 'geologic-from-list')
            else:
                ts = rts.GeologicTimeSeries.from_year_list(m, shuffled, title = gen.title(ctx), extra_metadata = dict(em or {}))
            for k in range(len(years)):
                stamp = ts.timestamp(k)
                ctx.check(isinstance(stamp, str) and stamp.endswith(' Ma'), 'geologic-string', stamp = str(stamp))
                ctx.check(abs(abs(float(stamp[:-3])) * 1.0e6 - abs(ts.timestamp(k, as_string = False))) <= 1.0e6, 'geologic-string', stamp = stamp)
            exp = sorted(-abs(y) for y in years)
        else:
            times, _ = random_times(ctx, n, fractional = ctx.flag(0.2) and i == 0)
            exp = [fmt(ctx, t) for t in times]
            ts = rts.TimeSeries(m, first_timestamp = exp[0], title = gen.title(ctx), extra_metadata = em)
            for s in exp[1:]:
                ts.add_timestamp(s)
        ctx.equal(list(ts.timestamps), exp, 'timestamps', 'timestamps in memory')
        ts.create_xml(reuse = False)
        made.append((ts.uuid, exp, ts.title, em))
    ctx.sig(geo, [(e, t) for _, e, t, _ in made])
    m.store_epc()
    m = rq.Model(m.epc_file)
    cls = rts.GeologicTimeSeries if geo else rts.TimeSeries
    other = rts.TimeSeries if geo else rts.GeologicTimeSeries
    loaded = []
    for uuid, exp, title, em in made:
        ctx.equal(rts.timeframe_for_time_series_uuid(m, uuid), 'geologic' if geo else 'human', 'timeframe')
        ts = ctx.choice([lambda: rts.any_time_series(m, uuid), lambda: cls(m, uuid = uuid)])()
        ctx.check(isinstance(ts, cls), 'class')
        ctx.equal(list(ts.timestamps), exp, 'timestamps')
        ctx.equal(ts.title, title, 'title')
        for k, v in (em or {}).items():
            ctx.equal(ts.extra_metadata.get(k), v, 'metadata')
        if geo:
            ctx.equal([ts.timestamp(i, as_string = False) for i in range(len(exp))], exp, 'geologic-int')
            for i, y in enumerate(exp):
                ctx.equal(ts.index_for_timestamp(y), exp.index(y), 'geologic-index')
                s = ts.timestamp(i)
                ctx.check(s.endswith(' Ma') and abs(abs(float(s[:-3])) * 1.0e6 - abs(y)) <= 1.0e6, 'geologic-string', got = s, years = y)
                ctx.equal(rts.simplified_timestamp(y), s, 'geologic-simplified')
        ctx.raises((ValueError, AssertionError), lambda: other(m, uuid = uuid), 'wrong-timeframe-accepted')
        loaded.append(ts)
    for a in loaded:
        for b in loaded:
            if geo:
                same = a.timestamps == b.timestamps
            else:
                ta, tb = [[parse(s) for s in x.timestamps] for x in (a, b)]
                same = len(ta) == len(tb) and all(abs(x - y) <= dt.timedelta(seconds = 1) for x, y in zip(ta, tb))
            ctx.equal(a.is_equivalent(b), same, 'equivalence')
    # reuse
    n_parts = len(m.parts())
    c = rts.GeologicTimeSeries.from_year_list(m, list(made[0][1])) if geo else rts.TimeSeries(m, first_timestamp = made[0][1][0])
    if not geo:
        for s in made[0][1][1:]:
            c.add_timestamp(s)
    if not made[0][3]:
        c.extra_metadata = {'timeframe': 'geologic' if geo else 'human'}
        c.create_xml(reuse = True)
        ctx.equal(len(m.parts()), n_parts, 'reuse-duplicated')
        ctx.check(any(str(c.uuid) == str(u) for u, _, _, _ in made), 'reuse-uuid')
    # merge
    if geo:
        exp = sorted(set(y for _, e, _, _ in made for y in e))
    else:
        ts = set(parse(s) for _, e, _, _ in made for s in e)
        if len(set(t.replace(microsecond = 0) for t in ts)) != len(ts) or any(t.microsecond for t in ts):
            return  # merging works to the nearest second
        exp = sorted(ts)
    order = [made[i][0] for i in ctx.rng.permutation(len(made))]
    merged, uuid, tlist = rts.merge_timeseries_from_uuid(m, ctx.choice([list, iter])(order))
    got = list(merged.timestamps) if geo else [parse(s) for s in merged.timestamps]
    ctx.equal(got, exp, 'merged')
    ctx.check(str(uuid) == str(merged.uuid) and len(tlist) == len(made), 'merge-return')
    ctx.equal([str(t.uuid) for t in tlist], [str(u) for u in order], 'merge-list')


def simulator_summary(ctx):
    import resqpy.time_series as rts
    us = ctx.flag()
    hours = ctx.flag(0.3)
    dates = ctx.flag(0.7)
    start = dt.date(ctx.integer(1990, 2030), ctx.integer(1, 12), ctx.integer(1, 28))
    n = ctx.integer(1, 8)
    days = [0] if ctx.flag() else []
    first_step = 0 if days else 1
    while len(days) < n:
        days.append((days[-1] if days else 0) + ctx.integer(1, 60))
    steps = [first_step]
    while len(steps) < n:
        steps.append(steps[-1] + ctx.choice([1, 1, 1, 2]))
    lines = ['Some heading text for the simulator run', '']
    d_head = ('MM/DD/YYYY' if us else 'DD/MM/YYYY') if dates else ''
    lines.append(f' NO.   X     Y     {"HRS" if hours else "DAYS"}   {d_head}   QOP  QWP')
    for s, d in zip(steps, days):
        date = start + dt.timedelta(days = d)
        ds = date.strftime('%m/%d/%Y' if us else '%d/%m/%Y') if dates else '0.0'
        lines.append(f'  {s}  1  2   {d * 24 if hours else d}.0  {ds}  100.0  0.0')
    path = ctx.path('run.sum')
    with open(path, 'w') as f:
        f.write('\n'.join(lines) + '\n')
    ctx.sig(us, hours, dates, steps, days)
    arg = {} if dates else {'start_date': start.isoformat()}
    ts = rts.time_series_from_nexus_summary(path, **arg)
    ctx.check(ts is not None, 'summary-unread')
    exp = [dt.datetime(start.year, start.month, start.day)]
    last_s, last_d = 0, 0
    for s, d in zip(steps, days):
        if s == 0:
            continue
        while s > last_s + 1:
            exp.append(exp[-1])
            last_s += 1
        exp.append(exp[0] + dt.timedelta(days = d))
        last_s = s
    ctx.equal([parse(s) for s in ts.timestamps], exp, 'summary-times', lines = lines)


def both_kinds(ctx):
    """Human and geologic series side by side: reuse, and import with consolidation."""
    import resqpy.model as rq
    import resqpy.time_series as rts

    def make(m, key):
        if key[0] == 'geo':
            return rts.GeologicTimeSeries.from_year_list(m, list(key[1:]), title = 'g')
        ts = rts.TimeSeries(m, first_timestamp = key[1], title = 'h')
        for x in key[2:]:
            ts.add_timestamp(x)
        return ts

    def key_of(m, u):
        ts = rts.any_time_series(m, u)
        return (('geo',) if isinstance(ts, rts.GeologicTimeSeries) else ('human',)) + tuple(ts.timestamps)

    pool = [('geo', -300000 * k, -100000) for k in range(1, 4)] + [('geo', -400000)] + \
        [('human', f'201{k}-01-01T00:00:00Z', '2020-01-01T00:00:00Z') for k in range(3)] + [('human', '2021-06-30T12:00:00Z')]
    models, keys = [], []
    for name in ('one.epc', 'two.epc'):
        m = gen.model(ctx, name, crs = False)
        ks = []
        for _ in range(ctx.integer(1, 5)):
            k = ctx.choice(pool)
            reuse = ctx.flag()
            ts = make(m, k)
            ts.create_xml(reuse = reuse)
            if not reuse or k not in ks:
                ks.append(k)
            ctx.equal(key_of(m, ts.uuid), k, 'timestamps')
            ctx.equal(sorted(key_of(m, u) for u in m.uuids(obj_type = 'TimeSeries')), sorted(ks), 'reuse', 'series present')
        m.store_epc()
        models.append(rq.Model(m.epc_file) if ctx.flag() else m)
        keys.append(ks)
    s, t = models
    consolidate = ctx.flag(0.8)
    t.copy_all_parts_from_other_model(s, consolidate = consolidate)
    got = sorted(key_of(t, u) for u in t.uuids(obj_type = 'TimeSeries'))
    exp = keys[1] + ([k for k in dict.fromkeys(keys[0]) if k not in keys[1]] if consolidate else keys[0])
    ctx.equal(got, sorted(exp), 'imported', 'series present after import', consolidate = consolidate)
    ctx.sig(sorted(keys[0]), sorted(keys[1]), consolidate)


SCENARIOS = [
    Scenario(lookups, 300),
    Scenario(durations, 250),
    Scenario(persistence, 200),
    Scenario(simulator_summary, 100),
    Scenario(both_kinds, 80),
]
