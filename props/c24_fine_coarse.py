"""C24: fine and coarse mappings."""

import numpy as np

from rv.core import Scenario, Skip
from rv import gen
from props.spec import spec

PROP = spec('C24')


def ratio_vector(ctx, nc):
    form = ctx.choice(['constant', 'constant', 'vector', 'vector', 'uniform vector', 'one'])
    if form in ('constant', 'uniform vector'):
        return form, [ctx.integer(1, 5)] * nc
    if form == 'one':
        return 'vector', [1] * nc
    return form, [ctx.integer(1, 5) for _ in range(nc)]


def make(ctx, forms = None, box = None):
    """Returns a FineCoarse along with the ratios and proportions it was given."""
    import resqpy.olio.fine_coarse as rqfc
    coarse = tuple(ctx.choice([1, 2, 3, 4, 6]) for _ in range(3)) if box is None else box
    spec_ = [ratio_vector(ctx, n) for n in coarse]
    ratios = [r for _, r in spec_]
    fine = tuple(sum(r) for r in ratios)
    within = None
    if ctx.flag(0.4):
        lo = np.array([ctx.integer(0, 4) for _ in range(3)], dtype = int)
        within = np.array((lo, lo + np.array(coarse) - 1))
    fc = rqfc.FineCoarse(fine, coarse, within_coarse_box = within)
    kinds = [f for f, _ in spec_]
    if kinds == ['constant'] * 3 and ctx.flag(0.5):
        fc.set_all_ratios_constant()
    else:
        if kinds[1:] == ['constant'] * 2 and ctx.flag(0.5):
            fc.set_ij_ratios_constant()
            axes = (0,)
        else:
            axes = range(3)
        for axis in axes:
            if kinds[axis] == 'constant':
                fc.set_constant_ratio(axis)
            else:
                v = ratios[axis]
                fc.set_ratio_vector(axis, ctx.choice([list, tuple, np.array])(v))
    props = [[np.full(r, 1.0 / r) for r in ratios[axis]] for axis in range(3)]
    pk = []
    for axis in range(3):
        p = ctx.choice(['equal', 'default', 'vectors', 'equal vectors'])
        pk.append(p)
        if p == 'equal':
            fc.set_equal_proportions(axis)
        elif p == 'equal vectors':
            fc.set_proportions_list_of_vectors(axis, [np.full(r, 2.5) for r in ratios[axis]])
        elif p == 'vectors':
            vs = [ctx.rng.integers(1, 9, size = r) for r in ratios[axis]]
            fc.set_proportions_list_of_vectors(axis, [ctx.choice([list, tuple, np.array])(v.tolist()) for v in vs])
            props[axis] = [v / float(np.sum(v)) for v in vs]
    if ctx.flag(0.3):
        fc.set_all_proportions_equal()
        props = [[np.full(r, 1.0 / r) for r in ratios[axis]] for axis in range(3)]
        pk = ['all equal']
    ctx.sig(coarse, ratios, kinds, pk)
    return fc, coarse, fine, ratios, props, within


def verify(ctx, fc, coarse, fine, ratios, props):
    fc.assert_valid()
    c_of_f = [np.repeat(np.arange(coarse[a]), ratios[a]) for a in range(3)]
    queries = ['mapping', 'axial', 'box', 'prop', 'column']
    for q in [queries[i] for i in ctx.rng.permutation(len(queries))]:
        if q == 'mapping':
            got = fc.coarse_for_fine()
            for a in range(3):
                ctx.equal(np.asarray(got[a]), c_of_f[a], 'coarse-for-fine', axis = a)
                ctx.equal(np.asarray(fc.coarse_for_fine_axial_vector(a)), c_of_f[a], 'axial-vector', axis = a)
        elif q == 'axial':
            for _ in range(8):
                f = tuple(ctx.integer(0, n - 1) for n in fine)
                e = tuple(int(c_of_f[a][f[a]]) for a in range(3))
                ctx.equal(tuple(int(x) for x in fc.coarse_for_fine_kji0(f)), e, 'coarse-for-fine-cell')
                for a in range(3):
                    ctx.equal(int(fc.coarse_for_fine_axial(a, f[a])), e[a], 'coarse-for-fine-axial')
        elif q == 'box':
            seen = np.zeros(fine, dtype = int)
            for c in np.ndindex(*coarse):
                b = fc.fine_box_for_coarse(c)
                base = tuple(int(x) for x in fc.fine_base_for_coarse(c))
                ctx.equal(tuple(int(x) for x in b[0]), base, 'base')
                ctx.equal(tuple(int(x) for x in b[1] - b[0] + 1), tuple(int(ratios[a][c[a]]) for a in range(3)), 'box-extent')
                ctx.equal(tuple(int(x) for x in fc.ratios(c)), tuple(int(ratios[a][c[a]]) for a in range(3)), 'ratios')
                seen[b[0, 0]:b[1, 0] + 1, b[0, 1]:b[1, 1] + 1, b[0, 2]:b[1, 2] + 1] += 1
                for corner in (b[0], b[1]):
                    ctx.equal(tuple(int(x) for x in fc.coarse_for_fine_kji0(corner)), tuple(c), 'inverse')
            ctx.check(np.all(seen == 1), 'partition', 'fine boxes must cover each fine cell exactly once', seen = seen)
        elif q == 'prop':
            for a in range(3):
                tot = 0.0
                for c in range(coarse[a]):
                    ctx.equal(int(fc.ratio(a, c)), int(ratios[a][c]), 'ratio')
                    p = fc.proportion(a, c)
                    ctx.close(p, props[a][c], 'proportion', tol = 1.0e-12)
                    ctx.close(np.sum(p), 1.0, 'proportion-sum', tol = 1.0e-12)
                    i = fc.interpolation(a, c)
                    ctx.close(i, np.concatenate(([0.0], np.cumsum(props[a][c])[:-1])), 'interpolation', tol = 1.0e-12)
                ctx.close(fc.proportions_for_axis(a), np.concatenate(props[a]), 'proportions-for-axis', tol = 1.0e-12)
            c = tuple(ctx.integer(0, n - 1) for n in coarse)
            for a, p in enumerate(fc.proportions(c)):
                ctx.close(p, props[a][c[a]], 'proportions', tol = 1.0e-12)
        else:
            base = [np.concatenate(([0], np.cumsum(r))) for r in ratios]
            for j in range(coarse[1]):
                for i in range(coarse[2]):
                    ctx.equal(int(fc.fine_for_coarse_natural_column_index(j * coarse[2] + i)), int(base[1][j] * fine[2] + base[2][i]),
                              'column-index', ratios = ratios, ji = (j, i))
            for j in range(coarse[1] + 1):
                for i in range(coarse[2] + 1):
                    ctx.equal(int(fc.fine_for_coarse_natural_pillar_index(j * (coarse[2] + 1) + i)),
                              int(base[1][j] * (fine[2] + 1) + base[2][i]), 'pillar-index', ratios = ratios, ji = (j, i))
    ctx.observe('fine cells', int(np.prod(fine)))


def mapping(ctx):
    fc, coarse, fine, ratios, props, within = make(ctx)
    verify(ctx, fc, coarse, fine, ratios, props)
    if within is not None:
        fn = ctx.path('cartref.dat')
        fc.write_cartref(fn, 'LGR_1', mode = 'w', root_name = ctx.choice([None, 'ROOT']), preceeding_blank_lines = 1)
        w = open(fn).read().split()
        at = w.index('CARTREF')
        ctx.equal(w[at + 1], 'LGR_1', 'cartref')
        b = [int(x) for x in w[at + 2:at + 8]]
        ctx.equal(b, [within[0, 2] + 1, within[1, 2] + 1, within[0, 1] + 1, within[1, 1] + 1, within[0, 0] + 1, within[1, 0] + 1], 'cartref-box')
        e = w.index('ENDREF')
        ctx.equal([int(x) for x in w[at + 8:e]], list(ratios[2]) + list(ratios[1]) + list(ratios[0]), 'cartref-ratios')


def refused(ctx):
    """Inconsistent settings are refused rather than giving a mapping that is not a partition."""
    import resqpy.olio.fine_coarse as rqfc
    coarse = tuple(ctx.integer(2, 5) for _ in range(3))
    fine = tuple(n * ctx.integer(2, 4) + 1 for n in coarse)
    ctx.sig(coarse, fine)
    fc = rqfc.FineCoarse(fine, coarse)
    a = ctx.integer(0, 2)
    ctx.raises(AssertionError, lambda: fc.set_constant_ratio(a), 'non-multiple-accepted')
    v = np.full(coarse[a], 1, dtype = int)
    v[0] = fine[a] - coarse[a] + 1
    bad = v.copy()
    bad[-1] += ctx.choice([1, -1])
    ctx.raises(AssertionError, lambda: fc.set_ratio_vector(a, bad), 'wrong-sum-accepted')
    ctx.raises(AssertionError, lambda: fc.set_ratio_vector(a, v[:-1]), 'wrong-length-accepted')
    zero = v.copy()
    zero[0] += 1
    zero[-1] = 0
    ctx.raises(AssertionError, lambda: fc.set_ratio_vector(a, zero), 'zero-ratio-accepted')
    fc.set_ratio_vector(a, v)
    p = [np.ones(n) for n in v]
    ctx.raises(AssertionError, lambda: fc.set_proportions_list_of_vectors(a, p[:-1]), 'short-proportions-accepted')
    q = list(p)
    q[0] = np.ones(v[0] + 1)
    ctx.raises(AssertionError, lambda: fc.set_proportions_list_of_vectors(a, q), 'wrong-proportions-accepted')
    if v[0] > 1:
        q[0] = np.ones(v[0])
        q[0][ctx.integer(0, v[0] - 1)] = ctx.choice([0.0, -1.0, np.nan])
        ctx.raises(AssertionError, lambda: fc.set_proportions_list_of_vectors(a, q), 'bad-proportions-accepted')


def tartan(ctx):
    import resqpy.olio.fine_coarse as rqfc
    coarse = tuple(ctx.integer(1, 12) for _ in range(3))
    fovea = np.zeros((2, 3), dtype = int)
    for d in range(3):
        fovea[:, d] = sorted((ctx.integer(0, coarse[d] - 1), ctx.integer(0, coarse[d] - 1)))
    fr = tuple(ctx.choice([1, 2, 3, 5, 8]) for _ in range(3))
    mode = ctx.choice(['exponential', 'linear'])
    rates = None
    if ctx.flag():
        rates = tuple(ctx.choice([0.0, 0.3, 0.5, 0.8, 1.0] if mode == 'exponential' else [0, 1, 2, 0.5, 3]) for _ in range(3))
    ctx.sig(coarse, fovea.tolist(), fr, mode, rates)
    fc = rqfc.tartan_refinement(coarse, fovea, fr, decay_rates_kji = rates, decay_mode = mode)
    fc.assert_valid()
    ratios = [[int(fc.ratio(a, c)) for c in range(coarse[a])] for a in range(3)]
    for a in range(3):
        r = ratios[a]
        ctx.equal(sum(r), int(fc.fine_extent_kji[a]), 'tartan-extent')
        f0, f1 = fovea[:, a]
        ctx.check(all(x == fr[a] for x in r[f0:f1 + 1]), 'tartan-fovea', got = r)
        ctx.check(min(r) >= 1 and max(r) <= fr[a], 'tartan-range', got = r, fovea_ratio = fr[a])
        ctx.check(all(x <= y for x, y in zip(r[:f0], r[1:f0 + 1])) and all(x >= y for x, y in zip(r[f1:-1], r[f1 + 1:])),
                  'tartan-monotonic', 'refinement must decay away from the fovea', got = r, fovea = (f0, f1))
        if rates is not None:
            for c in range(coarse[a]):
                n = max(f0 - c, c - f1, 0)
                x = fr[a] * rates[a]**n if mode == 'exponential' else fr[a] - n * rates[a]
                x = fr[a] if n == 0 else x
                if abs(x - np.floor(x) - 0.5) > 1.0e-6:
                    ctx.equal(r[c], max(1, int(np.around(x))), 'tartan-ratio', slices_away = n, axis = a)
    props = [[np.full(x, 1.0 / x) for x in ratios[a]] for a in range(3)]
    verify(ctx, fc, coarse, tuple(int(x) for x in fc.fine_extent_kji), ratios, props)


def decoarsen(ctx):
    """Imported arrays that use simulator coarsening are spread over the cells of each coarsening box."""
    import resqpy.crs as rqc
    import resqpy.grid as grr
    import resqpy.model as rq
    import resqpy.property as rqp
    import resqpy.olio.fine_coarse as rqfc
    coarse = tuple(ctx.integer(1, 3) for _ in range(3))
    ratios = [[ctx.integer(1, 3) for _ in range(n)] for n in coarse]
    ext = tuple(sum(r) for r in ratios)
    m = rq.new_model(ctx.path('decoarsen.epc'))
    crs = rqc.Crs(m)
    crs.create_xml()
    g = grr.RegularGrid(m, extent_kji = ext, dxyz = (100.0, 50.0, 10.0), crs_uuid = crs.uuid, set_points_cached = True)
    ina = ctx.rng.random(ext) < 0.2
    first = [np.concatenate(([0], np.cumsum(r)))[:-1] for r in ratios]
    host_axis = [np.repeat(f, r) for f, r in zip(first, ratios)]
    host = np.ravel_multi_index(np.meshgrid(*host_axis, indexing = 'ij'), ext)
    share = np.meshgrid(*[np.repeat(r, r) for r in ratios], indexing = 'ij')
    is_host = host == np.arange(host.size).reshape(ext)
    how = ctx.choice(['icoars', 'kid', 'array', 'none'])
    single = [False]
    if how == 'kid' or ctx.flag(0.2):
        # some inactive cells that are not part of a coarsening box
        one = (share[0] * share[1] * share[2]) == 1
        single = one & (ctx.rng.random(ext) < 0.3)
    g.inactive = (~is_host) | (ina & is_host) if ctx.flag(0.7) else None
    if g.inactive is None:
        if ctx.flag(0.2):
            del g.inactive
        before = None
    else:
        before = g.inactive.copy()
    pc = rqp.GridPropertyCollection()
    pc.set_grid(g)
    kinds = [('porosity', 'continuous', None), ('PV', 'pore volume', None), ('VOL', 'volume', None), ('DZ', 'thickness', None), ('KH', 'permeability thickness', None),
             ('DX', 'cell length', 'I'), ('DY', 'cell length', 'J'), ('DZC', 'cell length', 'K'), ('TX', 'transmissibility', None), ('REGION', 'region initialization', None),
             ('RV', 'rock volume', None), ('FV', 'fluid volume', None), ('UID', 'index', None),
             ('LEN', 'length', None)]
    used = ctx.subset(kinds, ctx.integer(1, 6))
    truth = []
    icoars_at = ctx.integer(0, len(used))
    for n in range(len(used) + 1):
        if n == icoars_at and how in ('icoars', 'kid'):
            if how == 'icoars':
                a = host + 1
            else:
                a = np.where(is_host, 0, -3)
                a[single] = -1
            pc.add_cached_array_to_imported_list(a, 'test', 'ICOARS' if how == 'icoars' else 'KID', discrete = True, property_kind = 'index', indexable_element = 'cells')
            truth.append((None, a.copy(), None))
        if n < len(used):
            t, kind, d = used[n]
            disc = kind in ('region initialization', 'index')
            x = ctx.rng.integers(1, 50, size = ext) if disc else ctx.rng.uniform(0.5, 99.0, size = ext)
            pc.add_cached_array_to_imported_list(x.copy(), 'test', t, discrete = disc, uom = None if disc else 'm', property_kind = kind,
                                                 facet_type = 'direction' if d else None, facet = d, indexable_element = ctx.choice(['cells', 'cells', None]))
            truth.append((kind if t != 'UID' else None, x, d))
    react = ctx.flag(0.7)
    ctx.sig(ext, tuple(map(tuple, ratios)), how, tuple(u[0] for u in used), react)
    got = pc.decoarsen_imported_list(**({'decoarsen_array': host.copy()} if how == 'array' else {}), **({} if react else {'reactivate': False}))
    nothing = how == 'none' or (how == 'kid' and np.all(is_host)) or np.all(is_host)
    if nothing:
        ctx.check(got is None, 'decoarsen-none', 'array returned though there is no coarsening')
    else:
        ctx.equal(np.asarray(got).reshape(ext), host, 'decoarsen-map')
    vol = (share[0] * share[1] * share[2]).astype(float)
    for e, (kind, x, d) in zip(pc.imported_list, truth):
        a = np.asarray(getattr(pc, e[3]))
        ctx.equal(a.shape, ext, 'decoarsen-shape')
        h = x.flatten()[host]
        if nothing or kind in (None, 'transmissibility', 'length'):
            ctx.close(a, x, 'decoarsen-kept', kind = kind)
        elif kind in ('pore volume', 'volume', 'rock volume', 'fluid volume'):
            ctx.close(a, h / vol, 'decoarsen-volume', rtol = 1.0e-9, kind = kind)
            ctx.close(np.sum(a), np.sum(x[is_host]), 'decoarsen-volume', rtol = 1.0e-9, kind = kind, what = 'total')
        elif kind in ('thickness', 'permeability thickness', 'cell length'):
            ctx.close(a, h / share['KJI'.index(d or 'K')], 'decoarsen-length', rtol = 1.0e-9, kind = kind, direction = d)
        else:
            ctx.close(a, h, 'decoarsen-value', kind = kind)
        ctx.observe('decoarsen: ' + str(kind))
    if before is not None:
        ctx.equal(g.inactive, before.flatten()[host].reshape(ext) if react and not nothing else before, 'decoarsen-active')
    ctx.observe('decoarsen by ' + how)


SCENARIOS = [Scenario(mapping, 200), Scenario(refused, 60), Scenario(tartan, 200), Scenario(decoarsen, 80)]
