"""C18: connections across faults, pinch-outs and layer gaps against brute force over cell pairs."""

import numpy as np

from props.spec import spec
from rv import gen
from rv.core import Scenario, Skip
from rv.gridgen import random_grid

PROP = spec('C18')


def overlap(ma, mb, pa, pb):
    """Integral over 0..1 of the overlap of two bands whose tops and bottoms are linear between the two edges."""

    def f(x):
        top = max(ma[0] + (mb[0] - ma[0]) * x, pa[0] + (pb[0] - pa[0]) * x)
        bot = min(ma[1] + (mb[1] - ma[1]) * x, pa[1] + (pb[1] - pa[1]) * x)
        return max(0.0, bot - top)

    xs = {0.0, 1.0}
    lines = [(ma[0], mb[0]), (ma[1], mb[1]), (pa[0], pb[0]), (pa[1], pb[1])]
    for i in range(4):
        for j in range(i):
            d0, d1 = lines[i][0] - lines[j][0], lines[i][1] - lines[j][1]
            if d0 * d1 < 0.0:
                xs.add(d0 / (d0 - d1))
    xs = sorted(xs)
    return sum((b - a) * 0.5 * (f(a) + f(b)) for a, b in zip(xs[:-1], xs[1:]))


def side(m, p):
    """Where band p lies relative to band m on one edge: -1 wholly before, +1 wholly beyond, 0 some overlap."""
    return -1 if p[1] <= m[0] else 1 if p[0] >= m[1] else 0


def straight(ctx, faults = True, **kw):
    """A grid with straight parallel pillars and slip only along the pillars; distances along pillars in raw.depth.

    raw.uniform is true where every cell has the same thickness at all four edges
    """
    raw = random_grid(ctx, growth = ctx.flag(0.4), kind = 'box', faults = faults, pinch = False, gaps = kw.pop('gaps', None), z_inc_down = True, **kw)
    nkr = raw.points.shape[0] - 1
    npil = raw.points.shape[1]
    plan = np.empty((npil, 2))
    prim = (raw.nj + 1) * (raw.ni + 1)
    plan[:prim] = raw.points[0, :prim, :2]
    for e, (pind, _) in enumerate(raw.extras):
        plan[prim + e] = plan[pind]
    if not raw.extras:
        plan = raw.points[0, :, :2]
    # primary pillars may themselves be shifted in plan by the base generator: use a clean lattice
    jj, ii = np.meshgrid(np.arange(raw.nj + 1) * 80.0, np.arange(raw.ni + 1) * 110.0, indexing = 'ij')
    lattice = np.stack((ii.flatten(), jj.flatten()), axis = -1)
    if not raw.right_handed:
        lattice[:, 1] *= -1.0
    # keep the handedness consistent with direction of k
    sense = np.array([1.0, 1.0])
    if (not raw.k_down):
        sense = np.array([1.0, -1.0])
    lattice = lattice * sense
    lattice[:, 1] *= -1.0  # i, j, k down right handed means y decreasing with j for z down numbers
    raw.det = None
    a = ctx.uniform(0.0, 2.0 * np.pi)
    lattice = lattice @ np.array([[np.cos(a), -np.sin(a)], [np.sin(a), np.cos(a)]]) if ctx.flag() else lattice
    plan = np.concatenate((lattice, np.array([lattice[e[0]] for e in raw.extras]).reshape((-1, 2))))
    style = ctx.choice(['level', 'layers', 'wedge', 'any'])
    th = np.full((nkr, npil), 10.0)
    if style == 'layers':
        th = th * ctx.rng.uniform(0.3, 2.0, (nkr, 1))
    elif style == 'wedge' or style == 'any':
        th = th * ctx.rng.uniform(0.3, 2.0, (nkr, npil))
    raw.uniform = style in ('level', 'layers')
    depth = 500.0 + np.concatenate((np.zeros((1, npil)), np.cumsum(th, axis = 0)))
    # one throw for each block, or for each edge of each block (scissor), or simple multiples of thickness
    block_of = np.zeros(npil, dtype = int)
    for j in range(raw.nj):
        for i in range(raw.ni):
            block_of[raw.pfc[j, i]] = raw.block[j, i]
    slip = ctx.choice(['block', 'scissor', 'scissor', 'steps', 'none', 'big'])
    if slip in ('block', 'big'):
        depth += (ctx.rng.uniform(-1, 1, 12) * (15.0 if slip == 'block' else 60.0))[block_of]
    elif slip == 'scissor':
        depth += ctx.rng.uniform(-1, 1, npil) * ctx.choice([5.0, 15.0, 40.0])
    elif slip == 'steps':
        depth += (ctx.rng.integers(-4, 5, 12) * 5.0)[block_of]
    d = np.array([ctx.uniform(-0.4, 0.4), ctx.uniform(-0.4, 0.4), 1.0]) if ctx.flag() else np.array([0.0, 0.0, 1.0])
    d /= np.linalg.norm(d)
    raw.depth = depth
    pts = np.empty((nkr + 1, npil, 3))
    pts[..., :2] = plan
    pts[..., 2] = 0.0
    pts += depth[..., np.newaxis] * d
    if not raw.k_down:
        pts[..., 2] = 3000.0 - pts[..., 2]
    pts[..., :2] += ctx.uniform(-1.0e5, 1.0e5)
    raw.points = pts
    raw.complete_points = pts.copy()
    raw.pillar_shape = 'straight'
    raw.style, raw.slip = style, slip
    return raw


def entries(gcs):
    """List of ((cell, (axis, polarity)), (cell, (axis, polarity))) straight from the attributes of a set."""
    gcs.cache_arrays()
    g = gcs.grid_list[0]
    nk, nj, ni = g.extent_kji
    out = []
    for (a, b), (fa, fb) in zip(gcs.cell_index_pairs, gcs.face_index_pairs):
        c = []
        for n, f in ((int(a), int(fa)), (int(b), int(fb))):
            c.append(((n // (nj * ni), (n // ni) % nj, n % ni), {0: (0, 0), 1: (0, 1), 2: (1, 0), 3: (2, 1), 4: (1, 1), 5: (2, 0)}[f]))
        out.append(tuple(c))
    return out


def directed(e):
    """The pair in order of polarity: first is on its plus face."""
    return e if e[0][1][1] == 1 else (e[1], e[0])


def lost(raw, skip):
    dead = np.zeros(raw.extent, dtype = bool)
    if raw.cell_undefined is not None:
        dead |= raw.cell_undefined
    if skip and raw.inactive is not None:
        dead |= raw.inactive
    return dead


def compare(ctx, got, expect, code, optional = (), **data):
    got = [directed(e) for e in got]
    ctx.equal(len(got), len(set(got)), code + '-repeated', **data)
    missing = set(expect) - set(got)
    spurious = set(got) - set(expect) - set(optional)
    ctx.check(not missing, code + '-missed', 'connections missed', missing = sorted(missing)[:4], n = len(missing), got = len(got), **data)
    ctx.check(not spurious, code + '-spurious', 'connections which should not be there', spurious = sorted(spurious)[:4],
              n = len(spurious), **data)


def grid_from(ctx, raw, m, z_inc_down = True):
    import resqpy.grid as grr
    import resqpy.model as rq
    uuid = raw.persist(m)
    g = grr.Grid(m, uuid = uuid)
    if ctx.flag(0.3):
        m.store_epc()
        m = rq.Model(ctx.path('m.epc'))
        g = grr.Grid(m, uuid = uuid)
    if raw.inactive is not None:
        how = ctx.choice(['attribute', 'property'])
        if how == 'property':
            import resqpy.property as rqp
            rqp.Property.from_array(m, (~raw.inactive).astype(int), 'active', 'active', g.uuid, property_kind = 'active', discrete = True)
            g = grr.Grid(m, uuid = uuid)
            g.extract_inactive_mask()
        else:
            g.inactive = raw.inactive.copy()
            if raw.cell_undefined is not None:
                g.inactive |= raw.cell_undefined
            g.all_inactive = bool(np.all(g.inactive))
    return m, g


def stored(ctx, m, gcs, g, code):
    """The set reloaded from the model gives the same connections."""
    import resqpy.fault as rqf
    again = rqf.GridConnectionSet(m, uuid = gcs.uuid)
    ctx.equal(entries(again), entries(gcs), code + '-stored')


def column_pinch(raw, cp, j, i, dead, limit = 0.001):
    """List of (ka, kb) for a column, by definition over all pairs."""
    thick = np.abs(np.mean(cp[:, j, i, 1, :, :, 2], axis = (1, 2)) - np.mean(cp[:, j, i, 0, :, :, 2], axis = (1, 2)))
    flat = ~(thick > limit)
    pairs = []
    for ka in range(raw.nk):
        for kb in range(ka + 2, raw.nk):
            if flat[ka] or flat[kb] or not np.all(flat[ka + 1:kb]):
                continue
            if np.any(raw.gap_after[ka:kb]) or dead[ka, j, i] or dead[kb, j, i]:
                continue
            pairs.append((ka, kb))
    return pairs


def collapse(ctx, raw, p = None):
    """Makes some cells of some layers collapse completely, by moving the base of pillar segments up to the top."""
    p = ctx.choice([0.2, 0.4, 0.6]) if p is None else p
    if ctx.flag():
        cells = ctx.rng.random(raw.extent) < p
    else:
        cells = np.zeros(raw.extent, dtype = bool)
        cells[ctx.rng.random(raw.nk) < p] = True
    z = raw.points
    flat = np.zeros((z.shape[0] - 1, z.shape[1]), dtype = bool)
    for k, j, i in np.argwhere(cells):
        flat[raw.raw_k[k], raw.pfc[j, i]] = True
    steps = np.diff(z, axis = 0)
    steps[flat] = 0.0
    raw.points = np.concatenate((z[:1], z[:1] + np.cumsum(steps, axis = 0)))
    raw.complete_points = raw.points.copy()
    raw.pinched = True


def pinchouts(ctx):
    import resqpy.fault as rqf
    m = gen.model(ctx)
    raw = random_grid(ctx, max_n = (7, 3, 3), min_n = (1 if ctx.flag(0.1) else 3, 1, 1), pinch = False,
                      gaps = None if ctx.flag(0.4) else False)
    collapse(ctx, raw)
    cp = raw.to_cp()
    m, g = grid_from(ctx, raw, m)
    hist = []
    found = 0
    for _ in range(ctx.integer(1, 3)):
        skip = ctx.flag()
        dead = lost(raw, skip)
        expect = [((((ka, j, i), (0, 1)), ((kb, j, i), (0, 0)))) for j in range(raw.nj) for i in range(raw.ni)
                  for ka, kb in column_pinch(raw, cp, j, i, dead)]
        how = ctx.choice(['function', 'method', 'method', 'add'])
        hist.append((skip, how))
        ctx.log(how, skip)
        if how == 'function':
            s = rqf.pinchout_connection_set(g, skip_inactive = skip)
        else:
            s, tr = g.pinchout_connection_set(skip_inactive = skip, add_to_model = how == 'add')
            ctx.check(tr is None, 'pinch-tr')
        if not expect:
            ctx.check(s is None, 'pinch-none', 'set found where no connections', n = 0 if s is None else s.count)
            continue
        ctx.check(s is not None, 'pinch-missed-all', 'no set', n = len(expect))
        compare(ctx, entries(s), expect, 'pinch', skip = skip)
        ctx.equal(s.number_of_features(), 1, 'pinch-features')
        if how == 'add':
            stored(ctx, m, s, g, 'pinch')
        found = len(expect)
        ctx.observe('connections', len(expect))
    ctx.sig(raw.describe(), found, hist)


def gaps(ctx):
    import resqpy.fault as rqf
    import resqpy.crs as rqc
    zdown = ctx.flag(0.7)
    m = gen.model(ctx, crs = False)
    c = rqc.Crs(m, z_inc_down = zdown)
    c.create_xml()
    m.crs_uuid = c.uuid
    raw = random_grid(ctx, max_n = (5, 4, 4), min_n = (2, 1, 1), pinch = False, gaps = None if ctx.flag(0.1) else True, z_inc_down = zdown)
    # gaps closed over part of the area, completely or to a stated thickness
    small = ctx.choice([0.0, 0.0, 0.0005, 0.5])
    steps = np.diff(raw.points, axis = 0)
    for k in np.argwhere(raw.gap_after).flatten():
        seg = raw.raw_k[k] + 1
        if ctx.flag(0.2):
            continue
        where = np.zeros(raw.points.shape[1], dtype = bool)
        if ctx.flag(0.4):
            where[:] = True
        else:
            for j, i in np.argwhere(ctx.rng.random((raw.nj, raw.ni)) < 0.5):
                where[raw.pfc[j, i]] = True
        steps[seg, where] = steps[seg, where] / np.maximum(np.abs(steps[seg, where][:, 2:]), 1.0e-9) * small
    raw.points = np.concatenate((raw.points[:1], raw.points[:1] + np.cumsum(steps, axis = 0)))
    cp = raw.to_cp()
    down = np.sign(np.mean(cp[:, :, :, 1, :, :, 2] - cp[:, :, :, 0, :, :, 2]))
    m, g = grid_from(ctx, raw, m)
    hist = []
    found = 0
    tol = ctx.choice([None, 0.001, 0.01, 1.0])
    for _ in range(ctx.integer(1, 3)):
        skip = ctx.flag()
        dead = lost(raw, skip)
        expect, unsure = [], []
        for k in range(raw.nk - 1):
            if not raw.gap_after[k]:
                continue
            z = down * np.mean(cp[k + 1, :, :, 0, :, :, 2] - cp[k, :, :, 1, :, :, 2], axis = (2, 3))
            for j in range(raw.nj):
                for i in range(raw.ni):
                    e = ((((k, j, i), (0, 1)), ((k + 1, j, i), (0, 0))))
                    if dead[k, j, i] or dead[k + 1, j, i]:
                        continue
                    if abs(z[j, i] - (tol or 0.001)) < 1.0e-7:
                        unsure.append(e)
                    elif z[j, i] < (tol or 0.001):
                        expect.append(e)
        how = ctx.choice(['function', 'method', 'method', 'add'])
        kw = {} if tol is None else {'tolerance': tol}
        hist.append((skip, how))
        if how == 'function':
            s = rqf.k_gap_connection_set(g, skip_inactive = skip, **kw)
        else:
            s, tr = g.k_gap_connection_set(skip_inactive = skip, add_to_model = how == 'add', **kw)
        if not expect and not unsure:
            ctx.check(s is None, 'gap-none', 'set found where no connections', n = 0 if s is None else s.count)
            continue
        if not expect and s is None:
            continue
        ctx.check(s is not None, 'gap-missed-all', 'no set', n = len(expect))
        compare(ctx, entries(s), expect, 'gap', optional = unsure, skip = skip)
        if how == 'add':
            stored(ctx, m, s, g, 'gap')
        found = len(expect)
        ctx.observe('connections', found)
    ctx.sig(raw.describe(), found, small, tol, hist)


def expected_faults(raw):
    """dict of (cell, face), (cell, face) -> (fraction minus, fraction plus, sure of presence, sure of fractions)."""
    out = {}
    cp = raw.to_cp()
    undefined = np.any(np.isnan(cp), axis = (3, 4, 5, 6))
    for axis in (1, 2):
        for j in range(raw.nj - (axis == 1)):
            for i in range(raw.ni - (axis == 2)):
                j2, i2 = (j + 1, i) if axis == 1 else (j, i + 1)
                if axis == 1:
                    pm, pp = raw.pfc[j, i, 1, :], raw.pfc[j2, i2, 0, :]
                else:
                    pm, pp = raw.pfc[j, i, :, 1], raw.pfc[j2, i2, :, 0]
                if np.all(pm == pp):
                    continue
                for km in range(raw.nk):
                    for kp in range(raw.nk):
                        tm, tp = raw.raw_k[km], raw.raw_k[kp]
                        if np.any(np.isnan(raw.points[tm:tm + 2, pm])) or np.any(np.isnan(raw.points[tp:tp + 2, pp])):
                            continue
                        ma, mb = raw.depth[tm:tm + 2, pm[0]], raw.depth[tm:tm + 2, pm[1]]
                        pa, pb = raw.depth[tp:tp + 2, pp[0]], raw.depth[tp:tp + 2, pp[1]]
                        area = overlap(ma, mb, pa, pb)
                        am, ap = 0.5 * (ma[1] - ma[0] + mb[1] - mb[0]), 0.5 * (pa[1] - pa[0] + pb[1] - pb[0])
                        # documented: inaccurate where layers of non-uniform thickness cross over wholly at one edge
                        sa, sb = side(ma, pa), side(mb, pb)
                        uni = abs((ma[1] - ma[0]) - (mb[1] - mb[0])) < 1.0e-6 and abs((pa[1] - pa[0]) - (pb[1] - pb[0])) < 1.0e-6
                        near = min(abs(ma[0] - pa[1]), abs(pa[0] - ma[1]), abs(mb[0] - pb[1]), abs(pb[0] - mb[1])) < 0.003
                        exact = uni or (not near and ((sa == 0 and sb == 0) or not crossing(ma, mb, pa, pb)))
                        if area <= 0.0 and not near:
                            continue
                        key = (((km, j, i), (axis, 1)), ((kp, j2, i2), (axis, 0)))
                        # an incomplete cell may or may not be taken as connected where its facing side is complete
                        near |= bool(undefined[km, j, i] or undefined[kp, j2, i2])
                        out[key] = (area / am, area / ap, not near, exact)
    return out


def crossing(ma, mb, pa, pb):
    """True where the shape of the overlap needs the documented approximation."""
    for m, p in (((ma, mb), (pa, pb)), ((pa, pb), (ma, mb))):
        for (m0, p0), (m1, p1) in (((m[0], p[0]), (m[1], p[1])), ((m[1], p[1]), (m[0], p[0]))):
            if side(m0, p0) == 0:
                continue
            if side(m1, p1) == -side(m0, p0):
                return True
            # one edge wholly before, the other reaching or passing the far side
            if side(m0, p0) < 0 and p1[1] > m1[1] - 0.003 and p1[0] < m1[0] + 1.0e9:
                return True
            if side(m0, p0) > 0 and p1[0] < m1[0] + 0.003:
                return True
    return False


def check_faults(ctx, raw, got, fa, expect, skip, code = 'fault'):
    dead = raw.inactive if skip and raw.inactive is not None else np.zeros(raw.extent, dtype = bool)
    now = {k: v for k, v in expect.items() if not dead[k[0][0]] and not dead[k[1][0]]}
    sure = [k for k, v in now.items() if v[2]]
    unsure = [k for k, v in now.items() if not v[2]]
    compare(ctx, got, sure, code, optional = unsure, skip = skip)
    fa = np.asarray(fa, dtype = float)
    ctx.equal(fa.shape, (len(got), 2), code + '-fraction-shape')
    ctx.check(np.all((fa >= 0.0) & (fa <= 1.0)), code + '-fraction-range', 'fractions out of range', fa = fa)
    # rescaling applies to the whole layer of a column pair when any of its fractions is approximate
    loose = set()
    for k, v in expect.items():
        if not v[3]:
            loose.add((0, k[0], k[1][0][1:]))
            loose.add((1, k[1], k[0][0][1:]))
    n = 0
    for e, f in zip(got, fa):
        d = directed(e)
        if d != e:
            f = f[::-1]
        v = now[d]
        for s in range(2):
            if (s, d[s], d[1 - s][0][1:]) in loose:
                continue
            n += 1
            ctx.close(f[s], v[s], code + '-fraction', tol = 1.0e-3, pair = d, side = s)
    ctx.observe('fractions', n)
    return len(sure)


def faults(ctx):
    import resqpy.olio.transmission as rqtr
    m = gen.model(ctx)
    wide = ctx.flag(0.5)
    raw = straight(ctx, faults = None if ctx.flag(0.1) else True, max_n = (3, 3, 3) if wide else (6, 2, 2), min_n = (1, 1, 1) if ctx.flag(0.2) else (1, 2, 2),
                   gaps = None if ctx.flag(0.3) else False)
    if ctx.flag(0.15) and raw.nj * raw.ni > 1:
        j, i = ctx.integer(0, raw.nj - 1), ctx.integer(0, raw.ni - 1)
        raw.points[:, raw.pfc[j, i].flatten()] = np.nan
        raw.cell_undefined = np.any(np.isnan(raw.to_cp()), axis = (3, 4, 5, 6))
        if np.all(raw.cell_undefined):
            raise Skip('nothing left')
    expect = expected_faults(raw)
    m, g = grid_from(ctx, raw, m)
    hist = []
    found = 0
    for _ in range(ctx.integer(1, 3)):
        skip = ctx.flag()
        dead = raw.inactive if skip and raw.inactive is not None else np.zeros(raw.extent, dtype = bool)
        sure = [k for k, v in expect.items() if v[2] and not dead[k[0][0]] and not dead[k[1][0]]]
        how = ctx.choice(['function', 'method', 'method', 'add'])
        hist.append((skip, how))
        ctx.log(how, skip)
        if how == 'function':
            s, fa = rqtr.fault_connection_set(g, skip_inactive = skip)
        else:
            s, tr = g.fault_connection_set(skip_inactive = skip, add_to_model = how == 'add')
            fa = g.fgcs_fractional_area
            ctx.check(tr is None, 'fault-tr')
        if s is None:
            ctx.check(not sure, 'fault-missed-all', 'no set', n = len(sure))
            continue
        found = check_faults(ctx, raw, entries(s), fa, expect, skip)
        ctx.equal(s.number_of_features(), 1, 'fault-features')
        if how == 'add':
            stored(ctx, m, s, g, 'fault')
        ctx.observe('connections', found)
    ctx.sig(raw.describe(), raw.style, raw.slip, found, hist)


def inherited(ctx):
    """Names inherited from a simple set of faces leave the connections alone and name exactly the matching ones."""
    import resqpy.fault as rqf
    m = gen.model(ctx)
    raw = straight(ctx, faults = True, max_n = (4, 3, 3), min_n = (1, 2, 2), gaps = False)
    if not raw.split:
        raise Skip('no faults')
    expect = expected_faults(raw)
    m, g = grid_from(ctx, raw, m)
    s, _ = g.fault_connection_set(skip_inactive = False)
    if s is None:
        raise Skip('no connections')
    names = {}
    sets = []
    for name in ctx.subset(['north', 'south', 'F3'], ctx.integer(1, 2)):
        jf = ctx.rng.random((raw.nk, raw.nj - 1, raw.ni)) < 0.5
        inf = ctx.rng.random((raw.nk, raw.nj, raw.ni - 1)) < 0.5
        if not jf.any() and not inf.any():
            continue
        fs = rqf.GridConnectionSet(m, grid = g, j_faces = jf, i_faces = inf, feature_name = name,
                                   create_organizing_objects_where_needed = True, title = name)
        sets.append((name, fs, jf, inf))
    if not sets:
        raise Skip('no faces')
    before = entries(s)
    name, fs, jf, inf = sets[0]
    s2, _ = g.fault_connection_set(skip_inactive = False, inherit_features_from = fs, add_to_model = ctx.flag())
    ctx.equal(entries(s2), before, 'inherit-connections')
    for index, e in enumerate(before):
        d = directed(e)
        hits = []
        for (cell, (axis, pol)) in d:
            c = list(cell)
            mask = jf if axis == 1 else inf
            if pol == 0:
                c[axis] -= 1
            hits.append(bool(mask[tuple(c)]))
        n = s2.feature_name_for_feature_index(int(s2.feature_indices[index]))
        if any(hits):
            ctx.equal(n, name, 'inherit-name', pair = d)
        else:
            ctx.check(n != name, 'inherit-spurious', pair = d, n = n)
    ctx.observe('connections', len(before))
    ctx.sig(raw.describe(), len(before), names, len(expect))


SCENARIOS = [
    Scenario(pinchouts, quick = 160, name = 'pinchouts'),
    Scenario(gaps, quick = 120, name = 'gaps'),
    Scenario(faults, quick = 220, name = 'faults'),
    Scenario(inherited, quick = 50, name = 'inherited'),
]
