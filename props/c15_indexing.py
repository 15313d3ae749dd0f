"""C15: cell indexing and box arithmetic."""

import itertools
import math

import numpy as np

from rv.core import Scenario, Skip
from rv import gen
from props.spec import spec

PROP = spec('C15')


def cells(box):
    """Explicit set of cells in a box."""
    return set(itertools.product(*[range(int(box[0, d]), int(box[1, d]) + 1) for d in range(3)]))


def random_box(ctx, n = 6, within = None):
    hi = (n, n, n) if within is None else within
    b = np.zeros((2, 3), dtype = int)
    for d in range(3):
        a, c = sorted((ctx.integer(0, hi[d] - 1), ctx.integer(0, hi[d] - 1)))
        b[:, d] = (a, c)
    return b


def bound(cs):
    a = np.array(sorted(cs), dtype = int)
    return np.array((a.min(axis = 0), a.max(axis = 0)), dtype = int)


def boxes(ctx):
    import resqpy.olio.box_utilities as bx
    a, b = random_box(ctx), random_box(ctx)
    kind = ctx.choice(['random', 'nested', 'touching', 'equal', 'single', 'interior'])
    if kind == 'nested':
        e = a[1] - a[0] + 1
        b = random_box(ctx, within = e) + a[0]
    elif kind == 'touching':
        d = ctx.integer(0, 2)
        w = b[1, d] - b[0, d]
        b[0, d] = a[1, d] + ctx.choice([0, 1])
        b[1, d] = b[0, d] + w
    elif kind == 'equal':
        b = a.copy()
    elif kind == 'single':
        b = bx.single_cell_box(a[ctx.integer(0, 1)])
    elif kind == 'interior':
        b = np.array([[0, 0, 0], [6, 6, 6]], dtype = int)
        a = np.clip(a, 1, 5)
    if ctx.flag():
        a, b = b, a
    ctx.sig(kind, a.tolist(), b.tolist())
    a0, b0 = a.copy(), b.copy()
    ca, cb = cells(a), cells(b)
    ctx.equal(int(bx.volume_of_box(a)), len(ca), 'volume')
    ctx.equal(tuple(bx.extent_of_box(a)), tuple(a[1, d] - a[0, d] + 1 for d in range(3)), 'extent')
    cc = bx.central_cell(a)
    ctx.check(tuple(int(x) for x in cc) in ca, 'central-cell')
    for d in range(3):
        lo, hi = cc[d] - a[0, d], a[1, d] - cc[d]
        ctx.check(abs(int(lo) - int(hi)) <= 1, 'central-cell', 'central cell is not central', box = a, got = cc)
    ctx.equal(bool(bx.boxes_overlap(a, b)), len(ca & cb) > 0, 'overlap', a = a, b = b)
    u = bx.union(a, b)
    ctx.equal(u, bound(ca | cb), 'union')
    ctx.equal(bx.union(None, b), b, 'union-none')
    ctx.equal(bx.union(a, None), a, 'union-none')
    ctx.check(bx.union(None, None) is None, 'union-none')
    for _ in range(10):
        c = np.array([ctx.integer(0, 7) for _ in range(3)], dtype = int)
        inside = tuple(c.tolist()) in ca
        ctx.equal(bool(bx.cell_in_box(c, a)), inside, 'cell-in-box', cell = c, box = a)
        for base in (0, 1):
            loc = bx.local_box_cell_from_parent_cell(a + base, c + base, based_0_or_1 = base)
            ctx.equal(loc is not None, inside, 'local-cell', cell = c, box = a)
            if inside:
                ctx.equal(loc, c - a[0] + base, 'local-cell')
                ctx.equal(bx.parent_cell_from_local_box_cell(a + base, loc, based_0_or_1 = base), c + base, 'parent-cell')
    ext = np.array([ctx.integer(1, 8) for _ in range(3)], dtype = int)
    full = bx.full_extent_box0(ext)
    ctx.equal(len(cells(full)), int(np.prod(ext)), 'full-extent')
    ctx.equal(bool(bx.valid_box(a, ext)), ca <= cells(full), 'valid-box', box = a, extent = ext)
    # string forms
    s = bx.string_iijjkk1_for_box_kji0(a)
    w = s.strip('[]').replace(',', ' ').replace(':', ' ').split()
    ctx.equal(bx.box_kji0_from_words_iijjkk1(w), a, 'string-form', text = s)
    sep = ctx.choice([' ', ':', '  '])
    s = bx.spaced_string_iijjkk1_for_box_kji0(a, colon_separator = sep)
    w = s.replace(':', ' ').split() + ctx.choice([[], ['extra', 'words']])
    ctx.equal(bx.box_kji0_from_words_iijjkk1(w), a, 'spaced-string-form', text = s)
    ctx.equal([int(x) for x in w[:6]], [a[0, 2] + 1, a[1, 2] + 1, a[0, 1] + 1, a[1, 1] + 1, a[0, 0] + 1, a[1, 0] + 1], 'ijk-order')
    # trimming
    trim = np.full((2, 3), 99, dtype = int)
    got = bx.overlapping_boxes(a, b, trim)
    ctx.equal(bool(got), len(ca & cb) > 0, 'overlapping-boxes')
    if not got:
        ctx.equal(trim, np.zeros((2, 3), dtype = int), 'no-trim')
    else:
        ct = cells(trim)
        ctx.check(ct <= cb and (ca & cb) <= ct, 'trim-covers', 'trim box must lie in new box and cover the overlap', a = a, b = b, trim = trim)
        rest = cb - ct
        if rest:
            ctx.equal(cells(bound(rest)), rest, 'trim-leaves-box', 'what is left after trimming is not a box', established = a, new = b,
                      trim = trim)
        # minimal loss: compare with all slabs of new box
        best = None
        for d in range(3):
            for lo in range(b[0, d], b[1, d] + 1):
                for hi in range(lo, b[1, d] + 1):
                    if lo != b[0, d] and hi != b[1, d]:
                        continue
                    t = b.copy()
                    t[0, d], t[1, d] = lo, hi
                    tc = cells(t)
                    if (ca & cb) <= tc and (best is None or len(tc) < best):
                        best = len(tc)
        ctx.equal(len(ct), best, 'trim-minimal', established = a, new = b, trim = trim)
        if rest:
            mask = ctx.rng.random(tuple(int(x) for x in bx.extent_of_box(b))) < 0.6
            bt = b.copy()
            nm = bx.trim_box_by_box_returning_new_mask(bt, trim, mask)
            ctx.equal(cells(bt), rest, 'trimmed-box')
            ctx.equal(nm.shape, tuple(int(x) for x in bx.extent_of_box(bt)), 'trimmed-mask-shape')
            for c in rest:
                ctx.equal(bool(nm[tuple(np.array(c) - bt[0])]), bool(mask[tuple(np.array(c) - b[0])]), 'trimmed-mask', cell = c)
        ctx.observe('trims')
    # trim to mask
    mask = ctx.rng.random(tuple(int(x) for x in bx.extent_of_box(a))) < ctx.choice([0.05, 0.3, 0.9])
    if mask.any():
        bt = a.copy()
        nm = bx.trim_box_to_mask_returning_new_mask(bt, mask)
        true_cells = set(tuple((np.array(c) + a[0]).tolist()) for c in np.argwhere(mask))
        ctx.equal(bt, bound(true_cells), 'mask-box')
        ctx.equal(set(tuple((np.array(c) + bt[0]).tolist()) for c in np.argwhere(nm)), true_cells, 'mask-cells')
    ctx.equal(a, a0, 'argument-modified')
    ctx.equal(b, b0, 'argument-modified')
    ctx.observe('box pairs')


def natural(ctx):
    import resqpy.grid as grr
    m = gen.model(ctx)
    ext = tuple(ctx.choice([1, 2, 3, 5, 8]) for _ in range(3))
    ctx.sig(ext)
    g = grr.RegularGrid(m, extent_kji = ext, crs_uuid = m.crs_uuid)
    ctx.equal(g.cell_count(), int(np.prod(ext)), 'cell-count')
    c0 = 0
    allc = []
    for k in range(ext[0]):
        for j in range(ext[1]):
            for i in range(ext[2]):
                ctx.equal(int(g.natural_cell_index((k, j, i))), c0, 'natural')
                ctx.equal(tuple(int(x) for x in g.denaturalized_cell_index(c0)), (k, j, i), 'denatural')
                allc.append((k, j, i))
                c0 += 1
    a = np.array(allc, dtype = int)
    ctx.equal(g.natural_cell_indices(a), np.arange(c0), 'natural-array')
    shape = ctx.choice([(c0,), (1, c0), (c0, 1), ext])
    n = ctx.rng.permutation(c0).reshape(shape)
    d = g.denaturalized_cell_indices(n)
    ctx.equal(d.shape, tuple(shape) + (3,), 'denatural-shape')
    ctx.equal(g.natural_cell_indices(d), n, 'round-trip')
    ctx.equal(d.reshape(-1, 3), a[n.flatten()], 'denatural-array')
    # as an index into a flattened property-like array
    arr = ctx.rng.random(ext)
    ctx.equal(arr.flatten()[g.natural_cell_indices(a)], arr[tuple(a.T)], 'flattened-array')
    ctx.observe('cells', c0)


def extents(ctx):
    """Prime factors and factors, used when extents are inferred from array sizes."""
    import resqpy.olio.factors as f
    n = ctx.choice([1, 2, ctx.integer(1, 60), ctx.integer(1, 5000), ctx.choice([2, 3, 5, 7])**ctx.integer(1, 6),
                    ctx.integer(2, 40)**2, ctx.choice([97, 101, 997]) * ctx.integer(1, 30)])
    ctx.sig(n)
    p = f.factorize(n)
    ctx.equal(math.prod(p), n, 'prime-product', n = n, got = p)
    ctx.check(all(x > 1 and all(x % y for y in range(2, int(x**0.5) + 1)) for x in p), 'primes', n = n, got = p)
    ctx.equal(f.all_factors(n), [x for x in range(1, n + 1) if n % x == 0], 'factors', n = n)


SCENARIOS = [Scenario(boxes, 300), Scenario(natural, 100), Scenario(extents, 200)]
