"""Generator of irregular grids, with an independent account of every cell's corner points."""

import numpy as np


class RawGrid:
    """An irregular grid in raw resqml form: points by pillar, split pillar lists and layer gaps."""

    def to_cp(self, points = None):
        """Corner points by direct definition, shape (nk, nj, ni, 2, 2, 2, 3)."""
        p = self.points if points is None else points
        cp = np.empty((self.nk, self.nj, self.ni, 2, 2, 2, 3))
        for k in range(self.nk):
            for kp in range(2):
                cp[k, :, :, kp] = p[self.raw_k[k] + kp][self.pfc]
        return cp

    @property
    def extent(self):
        return (self.nk, self.nj, self.ni)

    def describe(self):
        return (self.extent, self.kind, len(self.extras), int(np.count_nonzero(self.gap_after)), self.right_handed,
                self.k_down, bool(self.cell_undefined is not None), bool(self.inactive is not None))

    def native_points(self):
        if self.split:
            return self.points.copy()
        return self.points.reshape((-1, self.nj + 1, self.ni + 1, 3)).copy()

    def build(self, model, crs_uuid = None, points = True, title = 'grid'):
        """Returns a resqpy Grid in memory, with geometry set as attributes in the documented way."""
        import resqpy.grid as grr
        import resqpy.crs as rqc
        g = grr.Grid(model, title = title)
        g.grid_representation = 'IjkGrid'
        g.extent_kji = np.array(self.extent, dtype = int)
        g.nk, g.nj, g.ni = self.extent
        g.k_direction_is_down = self.k_down
        g.grid_is_right_handed = self.right_handed
        g.pillar_shape = self.pillar_shape
        g.has_split_coordinate_lines = self.split
        if self.n_gaps:
            g.k_gaps = self.n_gaps
            g.k_gap_after_array = self.gap_after.copy()
            g._set_k_raw_index_array()
        else:
            g.k_gaps = None
            g.k_gap_after_array = None
            g.k_raw_index_array = np.arange(self.nk, dtype = int)
        if crs_uuid is None:
            crs_uuid = model.crs_uuid
        g.crs_uuid = crs_uuid
        g.crs_root = model.root_for_uuid(crs_uuid)
        g.crs = rqc.Crs(model, uuid = crs_uuid)
        g.points_cached = self.native_points()
        if self.split:
            g.split_pillar_indices_cached = np.array([e[0] for e in self.extras], dtype = int)
            g.cols_for_split_pillars = np.array([c for e in self.extras for c in e[1]], dtype = int)
            g.cols_for_split_pillars_cl = np.cumsum([len(e[1]) for e in self.extras]).astype(int)
            g.split_pillars_count = len(self.extras)
        if self.cell_undefined is not None:
            g.array_cell_geometry_is_defined = ~self.cell_undefined
            g.geometry_defined_for_all_cells_cached = not np.any(self.cell_undefined)
        else:
            g.array_cell_geometry_is_defined = None
            g.geometry_defined_for_all_cells_cached = True
        if self.pillar_undefined is not None:
            g.array_pillar_geometry_is_defined = ~self.pillar_undefined
            g.geometry_defined_for_all_pillars_cached = not np.any(self.pillar_undefined)
        else:
            g.geometry_defined_for_all_pillars_cached = True
        if self.inactive is not None:
            g.inactive = self.inactive.copy()
            g.all_inactive = bool(np.all(self.inactive))
        return g

    def persist(self, model, title = 'grid', **kw):
        """Builds, writes hdf5 and xml; returns the grid's uuid."""
        g = self.build(model, title = title)
        g.write_hdf5()
        g.create_xml(**kw)
        return g.uuid


def random_grid(ctx, max_n = (4, 4, 4), min_n = (1, 1, 1), faults = None, gaps = None, kind = None, undefined = False,
                inactive = None, pinch = None, right_handed = None, k_down = None, regular_xy = False, n = None,
                size = 100.0, thick = 10.0, z_inc_down = True, horizontal_ok = True, throw = 15.0, growth = False):
    """Returns a RawGrid drawn from ctx.rng.

    faults, gaps, pinch, inactive: True, False or None for random choice
    growth: whether layers are thicker on one side of a fault, so that the throw varies with depth
    """
    rng = ctx.rng
    g = RawGrid()
    g.nk, g.nj, g.ni = n if n is not None else [ctx.integer(a, b) for a, b in zip(min_n, max_n)]
    nk, nj, ni = g.nk, g.nj, g.ni
    g.kind = kind or ctx.choice(['box', 'sheared', 'tapered', 'random', 'random', 'curved'])
    g.k_down = ctx.flag(0.8) if k_down is None else k_down
    # layers and gaps
    g.gap_after = np.zeros(max(nk - 1, 0), dtype = bool)
    if nk > 1 and (ctx.flag(0.35) if gaps is None else gaps):
        g.gap_after[:] = rng.random(nk - 1) < 0.5
        if gaps and not g.gap_after.any():
            g.gap_after[ctx.integer(0, nk - 2)] = True
    g.n_gaps = int(np.count_nonzero(g.gap_after))
    g.raw_k = np.arange(nk) + np.concatenate(([0], np.cumsum(g.gap_after))).astype(int)[:nk]
    nkr = nk + g.n_gaps
    # plan positions of pillars
    dx, dy = (1.0, 1.0) if regular_xy else (ctx.uniform(0.5, 1.5), ctx.uniform(0.5, 1.5))
    jj, ii = np.meshgrid(np.arange(nj + 1, dtype = float), np.arange(ni + 1, dtype = float), indexing = 'ij')
    xy = np.stack((ii * dx * size, jj * dy * size), axis = -1)
    rot = ctx.flag(0.4) and g.kind != 'box'
    right = ctx.flag(0.6) if right_handed is None else right_handed
    origin = np.array([ctx.uniform(-1000.0, 1000.0), ctx.uniform(-1000.0, 1000.0)]) if ctx.flag(0.5) else np.zeros(2)
    # total layer thicknesses (some zero where pinched)
    th = np.full((nkr, nj + 1, ni + 1), thick)
    if g.kind in ('tapered', 'random', 'curved'):
        th = thick * rng.uniform(0.4, 1.6, (nkr, nj + 1, ni + 1))
    elif g.kind == 'sheared':
        th = th * rng.uniform(0.5, 1.5, (nkr, 1, 1))
    g.pinched = False
    if ctx.flag(0.25) if pinch is None else pinch:
        m = rng.random((nkr, nj + 1, ni + 1)) < 0.3
        if ctx.flag(0.5):
            m |= (rng.random((nkr, 1, 1)) < 0.3)
        th = np.where(m, 0.0, th)
        g.pinched = True
    zs = np.concatenate((np.zeros((1, nj + 1, ni + 1)), np.cumsum(th, axis = 0)), axis = 0)
    top = 1000.0
    if g.kind == 'sheared':
        top = top + 0.05 * xy[..., 0] - 0.03 * xy[..., 1]
    elif g.kind in ('tapered', 'random', 'curved'):
        top = top + rng.uniform(-thick, thick, (nj + 1, ni + 1)) * 0.5
    zs = zs + top
    # lateral movement with depth
    pts = np.empty((nkr + 1, nj + 1, ni + 1, 3))
    drift = np.zeros((nkr + 1, nj + 1, ni + 1, 2))
    depth = (zs - 1000.0) / thick
    if g.kind == 'sheared':
        drift = depth[..., np.newaxis] * rng.uniform(-0.05, 0.05, 2) * size
    elif g.kind in ('tapered', 'random'):
        drift = depth[..., np.newaxis] * rng.uniform(-0.04, 0.04, (1, nj + 1, ni + 1, 2)) * size / max(nkr, 1)
    elif g.kind == 'curved':
        drift = rng.uniform(-0.06, 0.06, (nkr + 1, nj + 1, ni + 1, 2)) * size
    base = xy.copy()
    if g.kind in ('random', 'curved'):
        base = base + rng.uniform(-0.2, 0.2, (nj + 1, ni + 1, 2)) * size * np.array([dx, dy])
    pts[..., :2] = base + drift
    pts[..., 2] = zs
    # faults: columns in blocks with differing throws
    g.extras = []
    do_fault = (nj * ni > 1) and (ctx.flag(0.55) if faults is None else faults)
    block = np.zeros((nj, ni), dtype = int)
    if do_fault:
        style = ctx.choice(['j', 'i', 'both', 'blob', 'diag'])
        if style in ('j', 'both') and nj > 1:
            block += (np.arange(nj) >= ctx.integer(1, nj - 1))[:, np.newaxis]
        if style in ('i', 'both') and ni > 1:
            block += 2 * (np.arange(ni) >= ctx.integer(1, ni - 1))[np.newaxis, :]
        if style == 'blob':
            block[:] = rng.integers(0, 3, (nj, ni))
        if style == 'diag':
            block[:] = (np.arange(nj)[:, np.newaxis] + np.arange(ni)[np.newaxis, :]) // 2 % 3
    throws = np.concatenate(([0.0], rng.uniform(-throw, throw, 8)))
    throw_xy = np.concatenate((np.zeros((1, 2)), rng.uniform(-0.05, 0.05, (8, 2)) * size)) if ctx.flag(0.4) else np.zeros((9, 2))
    g.block = block
    g.throws = throws
    stretch = 1.0 + (rng.uniform(-0.3, 0.5, 9) if growth else np.zeros(9))
    np_primary = (nj + 1) * (ni + 1)
    prim = np.empty((nkr + 1, np_primary, 3))
    extra_pts = []
    g.pfc = np.empty((nj, ni, 2, 2), dtype = int)

    def moved(pj, pi, b):
        p = pts[:, pj, pi].copy()
        if growth:
            p = p[0] + (p - p[0]) * stretch[b]
        p[:, 2] += throws[b]
        p[:, :2] += throw_xy[b]
        return p

    for pj in range(nj + 1):
        for pi in range(ni + 1):
            corners = []
            for jp in range(2):
                for ip in range(2):
                    j, i = pj - jp, pi - ip
                    if 0 <= j < nj and 0 <= i < ni:
                        corners.append((j, i, jp, ip))
            groups = {}
            for c in corners:
                groups.setdefault(int(block[c[0], c[1]]), []).append(c)
            blocks = [int(b) for b in rng.permutation(sorted(groups))]
            pind = pj * (ni + 1) + pi
            prim[:, pind] = moved(pj, pi, blocks[0])
            for c in groups[blocks[0]]:
                g.pfc[c] = pind
            for b in blocks[1:]:
                cols = groups[b]
                e = np_primary + len(g.extras)
                g.extras.append((pind, [c[0] * ni + c[1] for c in cols]))
                extra_pts.append(moved(pj, pi, b))
                for c in cols:
                    g.pfc[c] = e
    g.split = len(g.extras) > 0
    g.points = prim if not g.split else np.concatenate((prim, np.stack(extra_pts, axis = 1)), axis = 1)
    g.pillar_shape = 'straight' if g.kind in ('box', 'sheared') else 'curved'
    if g.kind in ('tapered', 'random') and ctx.flag(0.3):
        g.pillar_shape = 'straight'
    if g.split and np.any(throw_xy):
        g.pillar_shape = 'curved'
    # orientation
    if rot:
        a = ctx.uniform(0.0, 2.0 * np.pi)
        r = np.array([[np.cos(a), -np.sin(a)], [np.sin(a), np.cos(a)]])
        g.points[..., :2] = g.points[..., :2] @ r.T
    if not g.k_down:
        g.points[..., 2] = 2000.0 - g.points[..., 2]
    # handedness of the i, j, k axes in real space: construction has i = +x, j = +y, k = +z (k down if z down)
    mirror = not right
    # in the xyz frame taken as right handed when z is up: x, y, z(down) is left handed
    if mirror:
        g.points[..., 1] = -g.points[..., 1]
    g.points[..., :2] += origin
    # determinant of (i, j, k) direction vectors in raw x, y, z numbers
    det = 1.0 * (-1.0 if mirror else 1.0) * (1.0 if g.k_down else -1.0)
    if not z_inc_down:
        # caller's crs has z upwards: reflect so that k_down keeps its meaning
        g.points[..., 2] = -g.points[..., 2]
        det = -det
    # real space is right handed for z up; numbers with z down give the opposite sense
    g.det = det
    g.right_handed = (det < 0.0) if z_inc_down else (det > 0.0)
    g.cell_undefined = None
    g.pillar_undefined = None
    g.inactive = None
    g.complete_points = g.points.copy()
    if undefined:
        make_undefined(ctx, g)
    if ctx.flag(0.3) if inactive is None else inactive:
        g.inactive = rng.random(g.extent) < ctx.choice([0.2, 0.5, 0.9])
        if ctx.flag(0.1):
            g.inactive[:] = True
    return g


def make_undefined(ctx, g, style = None):
    """Makes some points NaN, with cell_undefined holding which cells lack a complete set of corners."""
    rng = ctx.rng
    style = style or ctx.choice(['pillar', 'points', 'column', 'layer', 'edge'])
    p = g.points
    if style == 'pillar':
        p[:, rng.random(p.shape[1]) < 0.25] = np.nan
    elif style == 'points':
        p[rng.random(p.shape[:2]) < 0.1] = np.nan
    elif style == 'column':
        for _ in range(ctx.integer(1, 2)):
            p[:, g.pfc[ctx.integer(0, g.nj - 1), ctx.integer(0, g.ni - 1)].flatten()] = np.nan
    elif style == 'layer':
        p[ctx.integer(0, p.shape[0] - 1)] = np.nan
    else:
        p[:, :g.ni + 1] = np.nan
    g.undefined_style = style
    if np.all(np.isnan(p)):
        p[:] = g.complete_points
    g.cell_undefined = np.any(np.isnan(g.to_cp()), axis = (3, 4, 5, 6))
    if not g.cell_undefined.any():
        g.cell_undefined = None
