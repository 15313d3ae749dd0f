"""C33: blocked wells list exactly the cells a path passes, in order; tables and files derived agree."""

import numpy as np

from props import c18_juxtaposition as c18
from props.spec import spec
from rv import gen
from rv.core import Scenario, Skip

PROP = spec('C33')

AP = [(0, 0), (0, 1), (1, 0), (1, 1), (2, 0), (2, 1)]


# oracle

def faces_of(cp):
    """All cell faces as fans of 4 triangles: array (ncell, 6, 4, 3, 3) and areas."""
    n = int(np.prod(cp.shape[:3]))
    c = cp.reshape((n, 2, 2, 2, 3))
    out = np.empty((n, 6, 4, 3, 3))
    for f, (axis, pol) in enumerate(AP):
        q = np.take(c, pol, axis = 1 + axis)  # (n, 2, 2, 3)
        ring = np.stack((q[:, 0, 0], q[:, 0, 1], q[:, 1, 1], q[:, 1, 0]), axis = 1)
        mid = ring.mean(axis = 1)
        for t in range(4):
            out[:, f, t, 0] = mid
            out[:, f, t, 1] = ring[:, t]
            out[:, f, t, 2] = ring[:, (t + 1) % 4]
    return out


def hits(path, tris, near = 0.6):
    """(knot, fraction, cell, face) of all crossings; Skip where path is too close to a face edge to call."""
    n = tris.shape[0]
    flat = tris.reshape((-1, 3, 3))
    a, e1, e2 = flat[:, 0], flat[:, 1] - flat[:, 0], flat[:, 2] - flat[:, 0]
    out = []
    for k in range(len(path) - 1):
        p, d = path[k], path[k + 1] - path[k]
        ld = np.linalg.norm(d)
        h = np.cross(np.broadcast_to(d, e2.shape), e2)
        det = np.sum(e1 * h, axis = 1)
        area = np.linalg.norm(np.cross(e1, e2), axis = 1)
        with np.errstate(all = 'ignore'):
            f = 1.0 / det
            s = p - a
            u = f * np.sum(s * h, axis = 1)
            q = np.cross(s, e1)
            v = f * np.sum(d * q, axis = 1)
            t = f * np.sum(e2 * q, axis = 1)
        ok = np.abs(det) > 1.0e-9 * area * ld
        w = 1.0 - u - v
        # distances in plan of triangle from each of its edges
        with np.errstate(all = 'ignore'):
            de = np.stack((w * area / np.linalg.norm(e2 - e1, axis = 1), u * area / np.linalg.norm(e2, axis = 1), v * area / np.linalg.norm(e1, axis = 1)))
        tol_t = 0.1 / ld
        seen = ok & (t > -tol_t) & (t < 1.0 + tol_t) & (de.min(axis = 0) > -near)
        if np.any(seen & ((t < tol_t) | (t > 1.0 - tol_t))):
            raise Skip('a knot of the path is close to a cell face')
        # the outer edge of the fan is opposite the centre: w is the weight of the centre
        if np.any(seen & (np.abs(de[0]) < near)):
            raise Skip('path close to an edge of a face')
        if np.any(seen & (np.abs(de[1:]).min(axis = 0) < 1.0e-6)):
            raise Skip('path crosses exactly between triangles')
        graze = np.abs(det) < 0.02 * area * ld
        inside = ok & (de.min(axis = 0) >= 0.0) & (t > 0.0) & (t < 1.0)
        if np.any(seen & graze & (area > 0.0)):
            raise Skip('path nearly in the plane of a face')
        for x in np.where(inside)[0]:
            out.append((k, float(t[x]), int(x // 24), int((x // 4) % 6)))
    return out


class Visit:
    pass


def visits(ctx, path, mds, cp):
    """The visits to cells, in order along the path."""
    tris = faces_of(cp)
    per = {}
    for k, t, c, f in hits(path, tris):
        per.setdefault(c, []).append((mds[k] + t * (mds[k + 1] - mds[k]), f, path[k] + t * (path[k + 1] - path[k])))
    out = []
    for c, l in per.items():
        l.sort(key = lambda x: x[0])
        for x in range(0, len(l), 2):
            v = Visit()
            v.cell, v.md0, v.face0, v.xyz0 = c, l[x][0], AP[l[x][1]], l[x][2]
            if x + 1 < len(l):
                v.md1, v.face1, v.xyz1 = l[x + 1][0], AP[l[x + 1][1]], l[x + 1][2]
            else:
                v.md1, v.face1, v.xyz1 = mds[-1], (-1, -1), path[-1]
            out.append(v)
    out = [v for v in out if v.md1 - v.md0 > 1.0e-6]  # pinched out here
    out.sort(key = lambda v: v.md0)
    for a, b in zip(out[:-1], out[1:]):
        gap = b.md0 - a.md1
        if gap < -1.0e-4:
            raise Skip('cells overlap')
        if 1.0e-4 < gap < 2.0:
            raise Skip('small gap between cells')
    if any(v.md1 - v.md0 < 2.0 for v in out):
        raise Skip('short interval')
    return out


# cases

class Case:
    """A grid, in a model, and a path in general position starting above the top of the grid."""


def cell_box(cp):
    flat = cp.reshape((-1, 3))
    return flat.min(axis = 0), flat.max(axis = 0)


def walk(ctx, cp, z_down, style = None):
    """Points in grid space."""
    lo, hi = cell_box(cp)
    sgn = 1.0 if z_down else -1.0
    top, base = (lo[2], hi[2]) if z_down else (-hi[2], -lo[2])  # depths
    span = hi - lo
    thick = base - top
    r = ctx.rng
    style = style or ctx.choice(['vertical', 'slant', 'slant', 'horizontal', 'wander', 'wander', 'reentry', 'deep'])

    def plan():
        return lo[:2] + r.uniform(0.05, 0.95, 2) * span[:2]

    def outside():
        return lo[:2] - 0.4 * span[:2] + r.uniform(0.0, 1.0, 2) * 1.8 * span[:2]

    pts = []
    above = top - ctx.uniform(5.0, 100.0)
    if style in ('vertical', 'deep'):
        p = plan()
        pts = [(p[0], p[1], above)]
        for d in np.sort(r.uniform(top, base, ctx.integer(0, 2))):
            pts.append((p[0], p[1], d))
        pts.append((p[0], p[1], base + ctx.uniform(5.0, 50.0) if style == 'deep' or ctx.flag() else top + ctx.uniform(0.3, 0.95) * thick))
    elif style == 'slant':
        p, q = (outside() if ctx.flag(0.3) else plan()), (outside() if ctx.flag(0.3) else plan())
        pts = [(p[0], p[1], above), (q[0], q[1], base + ctx.uniform(-0.5, 0.2) * thick)]
    elif style == 'horizontal':
        p, q = plan(), (outside() if ctx.flag(0.4) else plan())
        d = top + ctx.uniform(0.2, 0.8) * thick
        pts = [(p[0], p[1], above), (p[0], p[1], d - 0.1 * thick), (p[0] + 0.05 * (q[0] - p[0]), p[1] + 0.05 * (q[1] - p[1]), d)]
        for x in np.sort(r.uniform(0.1, 0.9, ctx.integer(0, 3))):
            pts.append((p[0] + x * (q[0] - p[0]), p[1] + x * (q[1] - p[1]), d + r.uniform(-0.15, 0.15) * thick))
        pts.append((q[0], q[1], d))
    elif style == 'wander':
        p = plan()
        pts = [(p[0], p[1], above)]
        for d in np.sort(r.uniform(top, base, ctx.integer(1, 4))):
            q = plan() if ctx.flag(0.8) else outside()
            pts.append((q[0], q[1], d))
        if ctx.flag():
            q = plan()
            pts.append((q[0], q[1], base + 10.0))
    else:
        p, q = plan(), plan()
        s = plan() if ctx.flag(0.7) else outside()
        pts = [(p[0], p[1], above), (q[0], q[1], base + ctx.uniform(5.0, 30.0)), (s[0], s[1], top + ctx.uniform(0.1, 0.9) * thick)]
        if ctx.flag():
            q = plan()
            pts.append((q[0], q[1], base + 10.0))
    pts = np.array(pts)
    pts[:, 2] *= sgn
    # extra knots along the way
    extra = ctx.integer(0, 3)
    for _ in range(extra):
        k = ctx.integer(0, len(pts) - 2)
        f = ctx.uniform(0.1, 0.9)
        pts = np.insert(pts, k + 1, pts[k] + f * (pts[k + 1] - pts[k]), axis = 0)
    return pts, style


def make_grid(ctx, m, max_n = (4, 4, 4), flavour = None, inactive = None, gaps = None, faults = None, crs_kw = None, pinch = None):
    """Grid stored in the model, with its corner points worked out independently."""
    import resqpy.crs as rqc
    import resqpy.grid as grr
    c = Case()
    c.flavour = flavour or ctx.choice(['straight', 'straight', 'straight', 'regular'])
    c.z_down = ctx.flag(0.7)
    c.crs_kw = dict(z_inc_down = c.z_down) if crs_kw is None else crs_kw
    c.z_down = c.crs_kw['z_inc_down']
    crs = rqc.Crs(m, title = 'grid crs', **c.crs_kw)
    crs.create_xml()
    c.crs = crs
    if c.flavour == 'regular':
        n = [ctx.integer(1, x) for x in max_n]
        dz = ctx.uniform(5.0, 40.0) * (1.0 if c.z_down or ctx.flag() else -1.0)
        d = (ctx.uniform(50.0, 150.0), ctx.uniform(50.0, 150.0), dz)
        g = grr.RegularGrid(m, extent_kji = tuple(n), dxyz = d, crs_uuid = crs.uuid, title = 'grid')
        k, j, i = np.meshgrid(*[np.arange(x + 1, dtype = float) for x in n], indexing = 'ij')
        lat = np.stack((i * d[0], j * d[1], k * d[2]), axis = -1)
        cp = np.empty(tuple(n) + (2, 2, 2, 3))
        for kp in range(2):
            for jp in range(2):
                for ip in range(2):
                    cp[:, :, :, kp, jp, ip] = lat[kp:kp + n[0], jp:jp + n[1], ip:ip + n[2]]
        if inactive or (inactive is None and ctx.flag(0.4)):
            c.inactive = ctx.rng.random(n) < 0.3
            g.inactive = c.inactive.copy()
        else:
            c.inactive = None
        c.raw = None
        c.faulted, c.gapped, c.style, c.pinched = False, False, 'regular', False
    else:
        raw = c18.straight(ctx, faults = ctx.flag(0.6) if faults is None else faults, max_n = max_n, gaps = (ctx.flag(0.25) if gaps is None else gaps),
                           inactive = ctx.flag(0.4) if inactive is None else inactive)
        pts = raw.points
        # thicker cells, around the origin
        base = pts[0, 0].copy()
        pts -= base
        pts[..., 2] *= 3.0
        pts[..., :2] += np.array([ctx.uniform(-500.0, 500.0), ctx.uniform(-500.0, 500.0)])
        pts[..., 2] += 1500.0
        if not c.z_down:
            pts[..., 2] *= -1.0
        c.pinched = False
        if not raw.n_gaps and raw.nk > 1 and (ctx.flag(0.25) if pinch is None else pinch):
            c.pinched = True
            for k in range(raw.nk):
                mask = np.ones(pts.shape[1], dtype = bool) if ctx.flag(0.3) else ctx.rng.random(pts.shape[1]) < ctx.choice([0.3, 0.8])
                if k < raw.nk - 1 and ctx.flag(0.5):
                    pts[k + 1, mask] = pts[k, mask]
        raw.points = pts
        raw.complete_points = pts.copy()
        g = raw.build(m, crs_uuid = crs.uuid)
        cp = raw.to_cp(pts)
        c.inactive = raw.inactive
        c.raw = raw
        c.faulted, c.gapped, c.style = bool(raw.extras), bool(raw.n_gaps), raw.slip
    g.write_hdf5()
    g.create_xml()
    if c.flavour == 'regular' and c.inactive is not None:
        pass
    c.grid, c.cp = g, cp
    c.extent = tuple(cp.shape[:3])
    return c


def make_trajectory(ctx, m, c, style = None, other_crs = None):
    import resqpy.crs as rqc
    import resqpy.well as rqw
    c.path, c.walk = walk(ctx, c.cp, c.z_down, style)
    seg = np.linalg.norm(np.diff(c.path, axis = 0), axis = 1)
    if np.any(seg < 1.0):
        raise Skip('very short path segment')
    stretch = np.ones(len(seg)) if ctx.flag(0.7) else ctx.rng.uniform(1.0, 1.2, len(seg))
    c.mds = ctx.uniform(0.0, 500.0) + np.concatenate(([0.0], np.cumsum(seg * stretch)))
    c.traj_kw = c.crs_kw
    cps, crs = c.path, c.crs
    if ctx.flag(0.25) if other_crs is None else other_crs:
        kw = dict(z_inc_down = ctx.flag(), x_offset = float(ctx.integer(-500, 500)), y_offset = float(ctx.integer(-500, 500)), xy_units = ctx.choice(['m', 'ft']))
        kw['z_units'] = kw['xy_units'] if ctx.flag(0.7) else ctx.choice(['m', 'ft'])
        crs = rqc.Crs(m, title = 'path crs', **kw)
        crs.create_xml()
        cps = gen.CrsOracle(c.crs_kw).convert_to(gen.CrsOracle(kw), c.path)
        c.traj_kw = kw
    c.uom = ctx.choice(['m', 'ft'])
    c.traj_cps, c.traj_crs = cps, crs
    dat = rqw.MdDatum(m, crs_uuid = crs.uuid, location = tuple(cps[0]), md_reference = 'kelly bushing')
    dat.create_xml()
    c.well_name = 'well ' + str(ctx.integer(1, 99))
    t = rqw.Trajectory(m, md_datum = dat, crs_uuid = crs.uuid, mds = c.mds.copy(), control_points = cps.copy(), length_uom = c.uom, well_name = c.well_name)
    t.write_hdf5()
    t.create_xml(title = c.well_name)
    c.trajectory = t
    return t


def expected(ctx, c):
    v = visits(ctx, c.path, c.mds, c.cp)
    c.visits = v
    if not v:
        return None
    node, gi, cells, faces = [v[0].md0], [], [], []
    for x in v:
        if x.md0 - node[-1] > 1.0e-3:
            node.append(x.md0)
            gi.append(-1)
        node.append(x.md1)
        gi.append(0)
        cells.append(x.cell)
        faces.append((x.face0, x.face1))
    return np.array(node), gi, cells, faces


def compare(ctx, bw, e, code, **kw):
    node, gi, cells, faces = e
    info = dict(got = list(map(int, bw.cell_indices)), expect = cells, gi = list(map(int, bw.grid_indices)), egi = gi, **kw)
    ctx.check(list(bw.cell_indices) == cells, code + '-cells', 'cells listed differ from those the path passes', **info)
    ctx.check(list(bw.grid_indices) == gi, code + '-intervals', 'blocked and unblocked intervals differ', **info)
    ctx.equal(bw.node_count, len(node), code + '-node-count')
    ctx.equal(bw.cell_count, len(cells), code + '-cell-count')
    ctx.close(bw.node_mds, node, code + '-mds', tol = 2.0e-3, **kw)
    got = [((int(a), int(b)), (int(p), int(q))) for (a, b), (p, q) in np.asarray(bw.face_pair_indices).reshape((-1, 2, 2))]
    ctx.check(got == faces, code + '-faces', 'entry or exit faces differ', gotf = got, expectf = faces, **kw)


def with_active(c, e):
    """Intervals where those in inactive cells become unblocked."""
    node, gi, cells, faces = e
    flat = c.inactive.flatten()
    n = 0
    ngi, nc, nf = [], [], []
    for g in gi:
        if g < 0:
            ngi.append(-1)
            continue
        if flat[cells[n]]:
            ngi.append(-1)
        else:
            ngi.append(0)
            nc.append(cells[n])
            nf.append(faces[n])
        n += 1
    return node, ngi, nc, nf


def blocking(ctx):
    """Cells, depths and faces against all crossings of the path with all faces of all cells."""
    import resqpy.model as rq
    import resqpy.well as rqw
    m = gen.model(ctx, crs = False)
    c = make_grid(ctx, m)
    make_trajectory(ctx, m, c)
    ctx.log('grid', c.flavour, c.pinched, c.extent, c.style, c.z_down, 'gaps', c.gapped, 'faults', c.faulted, 'walk', c.walk)
    e = expected(ctx, c)
    tactics = ctx.flag(0.7)
    way = ctx.choice(['init', 'compute', 'compute'])
    active = c.inactive is not None and ctx.flag(0.5)
    # leaving at a fault counts as leaving the grid or not, so not asked
    lazy = e is not None and not (c.faulted and -1 in e[1]) and ctx.flag(0.15) and c.visits[0].face0 == (0, 0) and c.visits[0].cell < c.extent[1] * c.extent[2]
    if lazy:  # documented to stop when the path first leaves the grid
        way, active = 'lazy', False
        node, gi, cells, faces = e
        n = gi.index(-1) if -1 in gi else len(gi)
        e = (node[:n + 1], gi[:n], cells[:n], faces[:n])
        bw = rqw.BlockedWell(m)
        bw.compute_from_trajectory(c.trajectory, c.grid, lazy = True, use_single_layer_tactics = tactics)
    elif way == 'init':
        active, tactics = False, True
        bw = rqw.BlockedWell(m, grid = c.grid, trajectory = c.trajectory)
    else:
        bw = rqw.BlockedWell(m)
        bw.compute_from_trajectory(c.trajectory, c.grid, active_only = active, use_single_layer_tactics = tactics)
    ctx.sig(c.flavour, c.z_down, c.gapped, c.faulted, c.walk, way, active, len(c.visits), c.extent)
    ctx.observe('blocking:' + c.flavour + (':gaps' if c.gapped else '') + (':faults' if c.faulted else ''))
    ctx.observe('walk:' + c.walk)
    if c.pinched:
        ctx.observe('pinched')
    if e is None:
        ctx.check(not bw.cell_count, 'outside-blocked', 'cells blocked for a path that misses the grid')
        ctx.observe('missed grid')
        return
    if active:
        e = with_active(c, e)
    ctx.observe('cells visited', len(e[2]))
    ctx.observe('unblocked intervals', e[1].count(-1))
    ctx.check(bw.cell_count is not None, 'not-blocked', 'blocking failed', expect = e[2], faces = e[3], way = way, tactics = tactics)
    compare(ctx, bw, e, 'blocking', tactics = tactics, way = way)
    ctx.check(bw.grid_list == [c.grid] and bw.trajectory is c.trajectory, 'blocking-refs', 'grid or trajectory not noted')
    ctx.equal(bw.well_name, c.well_name, 'blocking-name')


# attributes and queries

def nest(x):
    return [((int(a), int(b)), (int(p), int(q))) for (a, b), (p, q) in np.asarray(x).reshape((-1, 2, 2))]


def synthetic(ctx, m):
    """Blocked well with arbitrary intervals, in up to three grids; path is a broken line."""
    import resqpy.crs as rqc
    import resqpy.grid as grr
    import resqpy.well as rqw
    c = Case()
    crs = rqc.Crs(m, title = 'crs', z_inc_down = ctx.flag(0.7))
    crs.create_xml()
    c.grids = []
    for n in range(ctx.integer(1, 3)):
        g = grr.RegularGrid(m, extent_kji = (ctx.integer(1, 5), ctx.integer(1, 5), ctx.integer(1, 5)), dxyz = (10.0, 20.0, 5.0), crs_uuid = crs.uuid,
                            title = 'grid ' + str(n))
        g.write_hdf5()
        g.create_xml()
        c.grids.append(g)
    n = ctx.integer(2, 5)
    c.path = np.cumsum(ctx.rng.uniform(-50.0, 50.0, (n, 3)), axis = 0)
    seg = np.linalg.norm(np.diff(c.path, axis = 0), axis = 1)
    c.mds = ctx.uniform(0.0, 100.0) + np.concatenate(([0.0], np.cumsum(seg)))
    dat = rqw.MdDatum(m, crs_uuid = crs.uuid, location = tuple(c.path[0]), md_reference = 'kelly bushing')
    dat.create_xml()
    c.trajectory = rqw.Trajectory(m, md_datum = dat, crs_uuid = crs.uuid, mds = c.mds.copy(), control_points = c.path.copy(), length_uom = 'm', well_name = 'W')
    c.trajectory.write_hdf5()
    c.trajectory.create_xml()
    c.crs = crs
    k = ctx.integer(2, 9)
    c.node_mds = np.sort(ctx.rng.uniform(c.mds[0], c.mds[-1], k))
    c.gi = ctx.rng.integers(-1, len(c.grids), k - 1)
    if np.all(c.gi < 0):
        c.gi[ctx.integer(0, k - 2)] = 0
    c.of = [int(x) for x in c.gi if x >= 0]
    c.kji = [tuple(int(ctx.integer(0, e - 1)) for e in c.grids[x].extent_kji) for x in c.of]
    c.ci = [int(np.ravel_multi_index(t, tuple(c.grids[x].extent_kji))) for t, x in zip(c.kji, c.of)]
    c.faces = [((ctx.integer(0, 2), ctx.integer(0, 1)), (ctx.integer(0, 2), ctx.integer(0, 1))) for _ in c.of]
    if ctx.flag(0.4):
        c.faces[-1] = (c.faces[-1][0], (-1, -1))
    bw = rqw.BlockedWell(m, well_name = 'blocked')
    bw.trajectory = c.trajectory
    bw.grid_list = list(c.grids)
    bw.node_count, bw.node_mds = k, c.node_mds.copy()
    bw.grid_indices = np.array(c.gi, dtype = np.int32)
    bw.cell_count, bw.cell_indices = len(c.of), np.array(c.ci, dtype = np.int32)
    bw.face_pair_indices = np.array(c.faces, dtype = np.int8)
    c.bw = bw
    return c


def where(c, md):
    return np.array([np.interp(md, c.mds, c.path[:, a]) for a in range(3)])


def ask(ctx, c, bw, when):
    """All the queries of a blocked well against the lists it was made from."""
    n = len(c.of)
    intervals = [i for i, x in enumerate(c.gi) if x >= 0]
    ctx.equal((bw.node_count, bw.cell_count), (len(c.node_mds), n), 'query-counts', when)
    ctx.close(bw.node_mds, c.node_mds, 'query-node-mds')
    ctx.equal(list(map(int, bw.grid_indices)), list(map(int, c.gi)), 'query-grid-indices', when)
    ctx.equal(list(map(int, bw.cell_indices)), c.ci, 'query-cell-indices', when)
    ctx.equal(nest(bw.face_pair_array()), c.faces, 'query-faces', when)
    ctx.equal(list(bw.map_cell_and_grid_indices()), [intervals.index(i) if i in intervals else -1 for i in range(len(c.gi))], 'query-map')
    ctx.equal(list(map(int, bw.compressed_grid_indices())), c.of, 'query-compressed')
    ctx.equal(bw.number_of_grids(), len(c.grids), 'query-number-of-grids')
    ctx.equal([str(u) for u in bw.grid_uuid_list()], [str(g.uuid) for g in c.grids], 'query-grid-uuids')
    for x in range(n):
        ctx.equal(int(bw.interval_for_cell(x)), intervals[x], 'query-interval')
        ctx.close(np.array(bw.entry_and_exit_mds(x)), c.node_mds[[intervals[x], intervals[x] + 1]], 'query-entry-exit')
    kji, gl = bw.cell_indices_and_grid_list()
    ctx.equal([tuple(map(int, t)) for t in kji], c.kji, 'query-kji')
    ctx.equal([str(g.uuid) for g in gl], [str(c.grids[x].uuid) for x in c.of], 'query-grid-list')
    for x, g in enumerate(c.grids):
        mine = [t for t, o in zip(c.kji, c.of) if o == x]
        u = g.uuid if ctx.flag() else str(g.uuid)
        ctx.equal([tuple(map(int, t)) for t in bw.cell_indices_for_grid_uuid(u)], mine, 'query-kji-for-grid')
        b = bw.box(g.uuid)
        ctx.check((b is None) == (not mine), 'query-box-none', 'box given or not given wrongly')
        if mine:
            ctx.equal(b.tolist(), [np.min(mine, axis = 0).tolist(), np.max(mine, axis = 0).tolist()], 'query-box')
    if len(c.grids) == 1:
        ctx.equal([tuple(map(int, t)) for t in bw.cell_indices_kji0()], c.kji, 'query-kji-single')
        ctx.equal(bw.box().tolist(), [np.min(c.kji, axis = 0).tolist(), np.max(c.kji, axis = 0).tolist()], 'query-box-single')
        ctx.equal(str(bw.single_grid().uuid), str(c.grids[0].uuid), 'query-single-grid')
    else:
        ctx.raises(AssertionError, bw.single_grid, 'query-single-grid-many')
    t, u = bw.kji0_marker()
    ctx.equal((tuple(map(int, t)), str(u)), (c.kji[0], str(c.grids[c.of[0]].uuid)), 'query-kji-marker')
    p, u = bw.xyz_marker()
    ctx.close(np.array(p), where(c, 0.5 * (c.node_mds[intervals[0]] + c.node_mds[intervals[0] + 1])), 'query-xyz-marker', tol = 1.0e-6)
    ctx.equal(str(u), str(c.crs.uuid), 'query-xyz-marker-crs')
    for md in list(c.node_mds[1:]) + list(ctx.rng.uniform(c.mds[0] - 10.0, c.mds[-1] + 10.0, 6)):
        got = bw.wb_cell_for_md(md)
        if md < c.node_mds[0]:
            e = (-1, 0.0)
        elif md > c.node_mds[-1]:
            e = (-1, 1.0)
        else:
            i = int(np.searchsorted(c.node_mds, md, side = 'left')) - 1
            if i < 0:
                continue
            e = (intervals.index(i) if i in intervals else -1, (md - c.node_mds[i]) / (c.node_mds[i + 1] - c.node_mds[i]))
        ctx.check(int(got[0]) == e[0], 'query-md-cell', 'wrong blocked cell for measured depth', got = got, expect = e)
        ctx.close(got[1], e[1], 'query-md-fraction', tol = 1.0e-6)


def queries(ctx):
    import resqpy.model as rq
    import resqpy.well as rqw
    m = gen.model(ctx, crs = False)
    c = synthetic(ctx, m)
    if np.any(np.diff(c.node_mds) < 1.0e-3):
        raise Skip('nodes too close')
    ctx.sig(len(c.grids), len(c.of), tuple(int(x) for x in c.gi))
    ctx.observe('queries:grids:' + str(len(c.grids)))
    ask(ctx, c, c.bw, 'new')
    c.bw.write_hdf5()
    c.bw.create_xml()
    m.store_epc()
    m2 = rq.Model(m.epc_file)
    bw = rqw.BlockedWell(m2, uuid = c.bw.uuid)
    ask(ctx, c, bw, 'reloaded')
    ctx.equal(str(bw.trajectory.uuid), str(c.trajectory.uuid), 'query-trajectory')
    # and an unaltered copy elsewhere
    if ctx.flag(0.4):
        m3 = rq.new_model(ctx.path('copy.epc'))
        m3.copy_uuid_from_other_model(m2, c.bw.uuid)
        m3.store_epc()
        ask(ctx, c, rqw.BlockedWell(rq.Model(m3.epc_file), uuid = c.bw.uuid), 'copied')


def grid_property(ctx):
    """Grid properties moved to a blocked well have the value of the cell of each interval."""
    import resqpy.model as rq
    import resqpy.property as rqp
    import resqpy.time_series as rqts
    import resqpy.well as rqw
    m = gen.model(ctx, crs = False)
    c = make_grid(ctx, m, max_n = (4, 5, 5))
    make_trajectory(ctx, m, c, other_crs = False)
    if expected(ctx, c) is None:
        raise Skip('path misses grid')
    ts = rqts.time_series_from_list(['2000-01-01', '2001-01-01', '2003-01-01'], parent_model = m, title = 'ts')
    ts.create_xml()
    sl = rqp.StringLookup(m, int_to_str_dict = {0: 'a', 1: 'b', 2: 'c', 3: 'd'}, title = 'lookup')
    sl.create_xml()
    made, others = [], 0
    ext = tuple(c.extent)
    for n in range(ctx.integer(1, 6)):
        kind = ctx.choice(['continuous', 'continuous', 'discrete', 'categorical', 'timed', 'elsewhere'])
        kw = dict(title = 'p' + str(n))
        if kind == 'elsewhere':
            shape = (ext[0],)
            a = ctx.rng.normal(size = shape)
            kw.update(property_kind = 'length', uom = 'm', indexable_element = 'layers')
            others += 1
        elif kind in ('continuous', 'timed'):
            a = ctx.rng.normal(size = ext)
            pk, uom = ctx.choice([('pressure', 'bar'), ('pressure', 'psi'), ('length', 'ft'), ('porosity', 'm3/m3')])
            kw.update(property_kind = pk, uom = uom, indexable_element = 'cells')
            if kind == 'timed':
                kw.update(time_series_uuid = ts.uuid, time_index = ctx.integer(0, 2))
            if ctx.flag(0.3):
                kw.update(realization = ctx.integer(0, 3))
            if ctx.flag(0.3):
                ft = ctx.choice([('what', 'oil'), ('what', 'gas'), ('direction', 'I')])
                kw.update(facet_type = ft[0], facet = ft[1])
        else:
            a = ctx.rng.integers(0, 4, ext).astype(np.int32)
            kw.update(property_kind = 'facies', discrete = True, null_value = -1, indexable_element = 'cells')
            if kind == 'categorical':
                kw.update(string_lookup_uuid = sl.uuid)
        p = rqp.Property.from_array(m, a, source_info = 'rv', keyword = kw.pop('title'), support_uuid = c.grid.uuid, **kw)
        if kind != 'elsewhere':
            made.append((p, a, kw))
        else:
            made.append((p, None, kw))
    bw = rqw.BlockedWell(m)
    bw.compute_from_trajectory(c.trajectory, c.grid)
    if not bw.cell_count:
        raise Skip('path misses grid')
    bw.write_hdf5()
    bw.create_xml(title = 'blocked')
    kji = [tuple(t) for t in bw.cell_indices_kji0()]
    c.grid.property_collection = None  # as documented, when properties have been added
    bw.add_grid_property_to_blocked_well([p.uuid for p, _, _ in made])
    ctx.sig(c.flavour, len(kji), tuple(sorted(str(k.get('string_lookup_uuid') is not None) for _, _, k in made)))
    m.store_epc()
    m2 = rq.Model(m.epc_file)
    b2 = rqw.BlockedWell(m2, uuid = bw.uuid)
    pc = b2.extract_property_collection()
    ctx.equal(pc.number_of_parts(), len(made) - others, 'moved-property-count')
    for p, a, kw in made:
        if a is None:
            continue
        parts = [x for x in pc.parts() if pc.citation_title_for_part(x) == p.title]
        ctx.equal(len(parts), 1, 'moved-property-title')
        q = rqp.Property(m2, uuid = m2.uuid_for_part(parts[0]))
        e = np.array([a[t] for t in kji])
        ctx.close(q.array_ref(), e, 'moved-property-values', tol = 1.0e-6)
        ctx.equal((q.is_continuous(), q.indexable_element(), q.property_kind()), (p.is_continuous(), 'cells', p.property_kind()), 'moved-property-attributes')
        ctx.equal((q.uom(), q.time_index(), q.realization(), q.facet_type(), q.facet()), (p.uom(), p.time_index(), p.realization(), p.facet_type(), p.facet()),
                  'moved-property-attributes')
        ctx.equal(str(q.time_series_uuid()), str(kw.get('time_series_uuid')), 'moved-property-series')
        ctx.equal(str(q.string_lookup_uuid()), str(kw.get('string_lookup_uuid')), 'moved-property-lookup')
        ctx.observe('moved property')


# tables

def tabled(ctx, m, flavour = None, units = None):
    """Case with a computed blocked well and cell properties."""
    import resqpy.model as rq
    import resqpy.property as rqp
    import resqpy.well as rqw
    xy, z = units or (ctx.choice(['m', 'm', 'ft']),) * 2
    kw = dict(z_inc_down = ctx.flag(0.7), xy_units = xy, z_units = z)
    c = make_grid(ctx, m, max_n = (4, 5, 5), flavour = flavour, crs_kw = kw)
    make_trajectory(ctx, m, c, other_crs = None if ctx.flag(0.5) else False)
    if expected(ctx, c) is None:
        raise Skip('path misses grid')
    c.prop, c.uuid = {}, {}
    for n, kind in (('ki', 'permeability rock'), ('kj', 'permeability rock'), ('kk', 'permeability rock'), ('ntg', 'net to gross ratio'), ('satw', 'saturation'),
                    ('sato', 'saturation'), ('satg', 'saturation'), ('region', 'region initialization')):
        if n == 'region':
            a = ctx.rng.integers(0, 4, c.extent).astype(np.int32)
        elif n.startswith('k'):
            a = np.exp(ctx.rng.uniform(0.0, 7.0, c.extent))
        elif n == 'ntg':
            a = np.where(ctx.rng.random(c.extent) < 0.3, 1.0, ctx.rng.uniform(0.05, 1.0, c.extent))
        else:
            a = ctx.rng.uniform(0.0, 1.0, c.extent)
        c.prop[n] = a
        p = rqp.Property.from_array(m, a, source_info = 'rv', keyword = n, support_uuid = c.grid.uuid, property_kind = kind, indexable_element = 'cells',
                                    discrete = n == 'region', uom = 'mD' if n.startswith('k') else ('Euc' if n != 'region' else None), dtype = a.dtype)
        c.uuid[n] = p.uuid
    c.grid.property_collection = None  # as documented, when properties have been added
    bw = rqw.BlockedWell(m)
    bw.compute_from_trajectory(c.trajectory, c.grid)
    bw.write_hdf5()
    bw.create_xml()
    c.bw = bw
    if ctx.flag(0.4):
        m.store_epc()
        c.bw = bw = rqw.BlockedWell(rq.Model(m.epc_file), uuid = bw.uuid)
        if c.inactive is not None:
            bw.grid_list[0].inactive = c.inactive.copy()
    c.kji = [tuple(int(x) for x in t) for t in bw.cell_indices_kji0()]
    c.intervals = [i for i, x in enumerate(bw.grid_indices) if x >= 0]
    return c


def rows(ctx, c, pay = False):
    """Keyword arguments for dataframe() and expected rows, as dictionaries."""
    bw = c.bw
    f = {u: gen.LENGTH_M[u] for u in ('m', 'ft')}
    kw, n = {}, len(c.kji)
    lu = ctx.choice([None, 'm', 'ft'])
    md_scale = 1.0 if lu is None else f[c.uom] / f[lu]
    if lu is not None:
        kw['length_uom'] = lu
    straight = ctx.flag(0.3)
    if straight:
        kw['length_mode'] = 'straight'
    centres = ctx.flag(0.3)
    if centres:
        kw['use_face_centres'] = True
    gxy, gz = c.crs_kw['xy_units'], c.crs_kw['z_units']
    gs = np.array([f[gxy], f[gxy], f[gz]])
    tz_down = c.traj_kw.get('z_inc_down')
    txy, tz = c.traj_kw.get('xy_units', 'm'), c.traj_kw.get('z_units', 'm')
    ts = np.array([f[txy], f[txy], f[tz]])
    out = []
    perf = None
    if pay or ctx.flag(0.4):
        perf, md = [], float(bw.node_mds[0]) - 10.0
        while md < bw.node_mds[-1] and len(perf) < 8:
            a = md + ctx.uniform(0.0, 60.0)
            b = a + ctx.uniform(1.0, 120.0)
            perf.append((a, b))
            md = b
        if ctx.flag(0.3):
            perf = [perf[x] for x in ctx.rng.permutation(len(perf))]
        kw['perforation_list'] = perf
    cond = []
    lim = 0.0 if ctx.flag(0.4) else 1.0
    cp = c.cp
    depth = lambda t: cp[t].reshape((-1, 3)).mean(axis = 0)[2] * (1.0 if c.z_down else -1.0)
    if ctx.flag(0.25 * lim):
        kw['min_k0'] = ctx.integer(0, c.extent[0] - 1)
        cond.append(lambda t: t[0] >= kw['min_k0'])
    if ctx.flag(0.25 * lim):
        kw['max_k0'] = ctx.integer(kw.get('min_k0', 0), c.extent[0] - 1)
        cond.append(lambda t: t[0] <= kw['max_k0'])
    if ctx.flag(0.25 * lim):
        kw['k0_list'] = [k for k in range(c.extent[0]) if ctx.flag()]
        cond.append(lambda t: t[0] in kw['k0_list'])
    if ctx.flag(0.25 * lim):
        kw['region_list'], kw['region_uuid'] = [k for k in range(4) if ctx.flag()], c.uuid['region']
        cond.append(lambda t: c.prop['region'][t] in kw['region_list'])
    if ctx.flag(0.25 * lim):
        d = sorted(depth(t) for t in c.kji)
        kw['max_depth'] = ctx.choice(d) + 1.0e-3
        cond.append(lambda t: depth(t) <= kw['max_depth'])
    for name, p, sign in (('max_satw', 'satw', -1), ('min_sato', 'sato', 1), ('max_satg', 'satg', -1)):
        if ctx.flag(0.2 * lim):
            kw[name], kw[p + '_uuid'] = ctx.uniform(0.2, 0.8), c.uuid[p]
            cond.append(lambda t, name = name, p = p, sign = sign: sign * (c.prop[p][t] - kw[name]) >= 0.0)
    if c.inactive is not None and ctx.flag():
        kw['active_only'] = True
        cond.append(lambda t: not c.inactive[t])
    min_length = None
    if ctx.flag(0.25):
        min_length = kw['min_length'] = ctx.uniform(5.0, 60.0)
    down = ctx.choice([None, True, False])
    if down is not None:
        kw['depth_inc_down'] = down
    refs = ['gravity', 'z down', 'z+', 'normal ij down', 'normal ij', 'k+', 'k down']
    ref = ctx.choice(refs[:4] if c.flavour == 'regular' else refs[:3])
    kw['anglv_ref'] = ref
    perm = None
    iso = True
    plane = ref
    turned = not pay and ctx.flag(0.4)  # other directions of reference for the angles: not with anisotropy
    if turned:
        ref = kw['anglv_ref'] = ctx.choice(refs)
        plane = ref
        if ctx.flag():
            plane = kw['angla_plane_ref'] = ctx.choice(refs + ['normal well i+'])
    if pay or ctx.flag(0.7):
        perm = 'ki'
        kw['perm_i_uuid'] = c.uuid['ki']
        kj = kk = 'ki'
        if c.flavour == 'regular' and not turned and ctx.flag():
            iso = False
            if ctx.flag(0.7):
                kj, kw['perm_j_uuid'] = 'kj', c.uuid['kj']
            kk, kw['perm_k_uuid'] = 'kk', c.uuid['kk']
        ntg = None
        if c.flavour == 'regular' and not turned and (pay or ctx.flag()):
            ntg, kw['ntg_uuid'] = 'ntg', c.uuid['ntg']
            if ctx.flag(0.3):
                kw['preferential_perforation'] = False
    for x, t in enumerate(c.kji):
        if not all(q(t) for q in cond):
            continue
        i = c.intervals[x]
        a, b = float(bw.node_mds[i]), float(bw.node_mds[i + 1])
        frac = 1.0
        if perf is not None:
            got = sum(max(0.0, min(b, q) - max(a, p)) for p, q in perf)
            if got < 0.01:
                if got > 0.0099:
                    raise Skip('borderline perforation')
                continue
            frac = min(1.0, got / (b - a))
        r = {}
        if centres:
            fp = c.bw.face_pair_indices[x]
            q = [np.take(cp[t], int(fp[0, 1]), axis = int(fp[0, 0])).reshape((-1, 3)).mean(axis = 0)]
            if fp[1, 0] >= 0:
                q.append(np.take(cp[t], int(fp[1, 1]), axis = int(fp[1, 0])).reshape((-1, 3)).mean(axis = 0))
            else:
                q.append(np.take(cp[t], 1 - int(fp[0, 1]), axis = int(fp[0, 0])).reshape((-1, 3)).mean(axis = 0))
            p0, p1 = q
            s0, s1, ss, s_down = p0, p1, gs, c.z_down
        else:
            p0, p1 = (np.array([np.interp(v, c.mds, c.path[:, k]) for k in range(3)]) for v in (a, b))
            s0, s1 = (np.array([np.interp(v, c.mds, c.traj_cps[:, k]) for k in range(3)]) for v in (a, b))
            ss, s_down = ts, tz_down
        v = (p1 - p0) * gs
        if not c.z_down:
            v[2] = -v[2]
        true = np.linalg.norm(v)
        if true < 1.0e-6:
            raise Skip('in and out by the same face: no direction between face centres')
        if straight:
            length = true / f[lu or c.uom]
        else:
            length = (b - a) * md_scale
        r['LENGTH'] = length * frac
        if min_length is not None:
            if abs(r['LENGTH'] - min_length) < 1.0e-4:
                raise Skip('borderline length')
            if r['LENGTH'] < min_length:
                continue
        r['PPERF'] = frac
        mid = 0.5 * (a + b)
        r['MD'] = mid * md_scale
        if straight:
            p, ps, pdown = 0.5 * (s0 + s1), ss, s_down
        else:
            p, ps, pdown = np.array([np.interp(mid, c.mds, c.traj_cps[:, k]) for k in range(3)]), ts, tz_down
        if lu is not None:
            p = p * ps / f[lu]
        if down and not pdown:
            p[2] = -p[2]
        r['X'], r['Y'], r['DEPTH'] = p
        cosv = v[2] / true
        if ref == 'z+' and not c.z_down:
            cosv = -cosv
        r['ANGLV'] = np.degrees(np.arccos(np.clip(cosv, -1.0, 1.0)))
        w = (p1 - p0) * gs / true  # well and cell axes in space of grid, though with equal units
        cell = cp[t] * gs
        ax = [cell[1].mean(axis = (0, 1)) - cell[0].mean(axis = (0, 1)), cell[:, 1].mean(axis = (0, 1)) - cell[:, 0].mean(axis = (0, 1)), cell[:, :, 1].mean(axis = (0, 1)) - cell[:, :, 0].mean(axis = (0, 1))]
        below = np.array([0.0, 0.0, 1.0 if c.z_down else -1.0])

        def direction(how):
            if how == 'z+':
                return np.array([0.0, 0.0, 1.0])
            if how in ('gravity', 'z down'):
                return below
            if how in ('k+', 'k down'):
                n = ax[0] * (-1.0 if how == 'k down' and not c.grid.k_direction_is_down else 1.0)
            else:
                n = np.cross(ax[1], ax[2])
                if how == 'normal ij down' and np.dot(n, below) < 0.0:
                    n = -n
            if np.linalg.norm(n) < 1.0e-3:
                raise Skip('collapsed cell')
            return n / np.linalg.norm(n)

        r['ANGLV'] = np.degrees(np.arccos(np.clip(np.dot(w, direction(ref)), -1.0, 1.0)))
        if ref in ('gravity', 'z down', 'z+'):
            ctx.close(r['ANGLV'], np.degrees(np.arccos(np.clip(cosv, -1.0, 1.0))), 'oracle', tol = 0.01)
        pw, pi = w, ax[2]
        if plane != 'normal well i+':
            n = direction(plane)
            pw, pi = w - np.dot(w, n) * n, pi - np.dot(pi, n) * n
        if np.linalg.norm(pw) > 0.01 and np.linalg.norm(pi) > 0.01 * np.linalg.norm(ax[2]) and np.linalg.norm(ax[2]) > 1.0e-3 and min(r['ANGLV'], 180.0 - r['ANGLV']) > 0.5:
            r['|ANGLA|'] = np.degrees(np.arccos(np.clip(np.dot(pw, pi) / (np.linalg.norm(pw) * np.linalg.norm(pi)), -1.0, 1.0)))
            if plane in ('gravity', 'z down', 'z+') and c.crs_kw.get('axis_order', 'easting northing') == 'easting northing' and 1.0 < r['|ANGLA|'] < 179.0:
                r['ANGLA sign'] = 1.0 if pi[0] * pw[1] - pi[1] * pw[0] > 0.0 else -1.0
        if perm:
            ki, kj_, kk_ = c.prop['ki'][t], c.prop[kj][t], c.prop[kk][t]
            if iso and ntg is None:
                r['KH'] = r['LENGTH'] * ki
            else:
                g = 1.0 if ntg is None else c.prop['ntg'][t]
                if abs(g - 1.0) < 0.002 and g != 1.0:
                    raise Skip('ntg close to one')
                if g < 1.0 and kw.get('preferential_perforation', True):
                    g = 1.0 if frac <= g else g / frac
                k = np.array([ki * g, kj_ * g, kk_])
                ke = np.prod(k)**(1.0 / 3.0)
                u = np.abs(v) / true
                r['KH'] = ke * r['LENGTH'] * np.sqrt(np.sum(u * u * ke / k))
        r['cell'] = t
        out.append(r)
    return kw, out


def table(ctx):
    """Rows and columns of the table of a blocked well."""
    m = gen.model(ctx, crs = False)
    units = None if ctx.flag(0.6) else (ctx.choice(['m', 'ft']), ctx.choice(['m', 'ft']))
    c = tabled(ctx, m, units = units)
    for turn in range(3):
        pay = c.flavour == 'regular' and ctx.flag(0.4)  # partly perforated, partly net
        kw, e = rows(ctx, c, pay)
        cols = ctx.subset(['GRID', 'ANGLA', 'ANGLV', 'LENGTH', 'DEPTH', 'MD', 'X', 'Y', 'SKIN', 'RADW', 'PPERF', 'STAT'] + (['KH'] if 'perm_i_uuid' in kw else []))
        if pay and 'KH' not in cols:
            cols.append('KH')
        if ctx.flag(0.3):
            cols = [x.lower() for x in cols]
        radw, skin, stat = None, None, None
        if ctx.flag(0.3):
            radw = kw['radw'] = 0.25
        if ctx.flag(0.3):
            skin = kw['skin'] = 1.5
        if ctx.flag(0.3):
            stat = kw['stat'] = ctx.choice(['ON', 'OFF'])
        one = ctx.flag()
        names = ctx.choice([('IW', 'JW', 'L'), ('I', 'J', 'K')])
        df = c.bw.dataframe(i_col = names[0], j_col = names[1], k_col = names[2], one_based = one, extra_columns_list = list(cols), **kw)
        info = dict(args = {k: str(v)[:60] for k, v in kw.items()}, got = df.to_dict('list'))
        ctx.check(len(df) == len(e), 'table-rows', 'number of rows', expect = len(e), **info)
        cols = [x.upper() for x in cols]
        want = list(names) + cols + [x for x, v in (('SKIN', skin), ('STAT', stat), ('RADW', radw)) if v is not None and x not in cols]
        ctx.equal(sorted(df.columns), sorted(want), 'table-columns')
        ctx.equal(list(df.columns)[:3 + len(cols)], want[:3 + len(cols)], 'table-column-order')
        ctx.observe('table rows', len(e))
        lu = kw.get('length_uom')
        for n, r in enumerate(e):
            row = df.iloc[n]
            t = tuple(int(row[x]) - (1 if one else 0) for x in (names[2], names[1], names[0]))
            ctx.check(t == r['cell'], 'table-cell', 'cell of a row', got = t, expect = r['cell'])
            for col in cols:
                if col == 'GRID':
                    ctx.equal(row[col], 'grid', 'table-grid')
                elif col == 'RADW':
                    ctx.close(row[col], radw if radw is not None else (0.33 if (lu or c.crs_kw['xy_units']) == 'ft' else 0.1), 'table-radw')
                elif col == 'SKIN':
                    ctx.close(row[col], 0.0 if skin is None else skin, 'table-skin')
                elif col == 'STAT':
                    ctx.equal(row[col], stat or 'ON', 'table-stat')
                elif col == 'ANGLA':
                    if '|ANGLA|' in r:
                        ctx.close(abs(row[col]), r['|ANGLA|'], 'table-angla', tol = 0.1, args = info['args'])
                    if 'ANGLA sign' in r:
                        ctx.close(np.sign(row[col]), r['ANGLA sign'], 'table-angla', args = info['args'])
                        ctx.observe('signed azimuths')
                else:
                    tol = 0.05 if col == 'ANGLV' else 0.01
                    ctx.close(row[col], r[col], 'table-' + col.lower(), tol = tol, rtol = 1.0e-4, args = info['args'], mixed = units)
                ctx.observe('column:' + col)
        if 'perm_i_uuid' in kw and ctx.flag(0.3):
            total = c.bw.static_kh(**{k: v for k, v in kw.items() if k not in ('radw', 'skin', 'stat', 'depth_inc_down')})
            ctx.close(total, sum(r['KH'] for r in e), 'static-kh', tol = 0.05, rtol = 1.0e-4)
            ctx.observe('static kh')
    ctx.sig(c.flavour, len(c.kji), units)


def kept_properties(ctx):
    """Columns added as properties and used again."""
    import resqpy.model as rq
    import resqpy.property as rqp
    import resqpy.well as rqw
    m = gen.model(ctx, crs = False)
    c = tabled(ctx, m)
    cols = ctx.subset(['ANGLA', 'ANGLV', 'LENGTH', 'DEPTH', 'MD', 'X', 'Y', 'SKIN', 'RADW', 'PPERF', 'STAT', 'KH'])
    if not cols:
        raise Skip('no columns')
    lu = ctx.choice(['m', 'ft'])
    perf = None
    if ctx.flag():
        perf = [(float(c.bw.node_mds[0]) - 1.0, float(c.bw.node_mds[-1]) + 1.0)]
    df = c.bw.dataframe(extra_columns_list = cols, add_as_properties = True, perm_i_uuid = c.uuid['ki'], skin = 2.5 if 'SKIN' in cols else None,
                        stat = 'OFF' if 'STAT' in cols else None, perforation_list = perf, length_uom = lu)
    c.bw.model.store_epc()
    m2 = rq.Model(m.epc_file)
    bw = rqw.BlockedWell(m2, uuid = c.bw.uuid)
    pc = bw.extract_property_collection()
    ctx.equal(sorted(pc.titles()), sorted(cols), 'column-properties')
    for col in cols:
        a = pc.single_array_ref(citation_title = col)
        e = df[col].to_numpy()
        if col == 'STAT':
            e = np.array([x == 'ON' for x in e])
        ctx.close(np.asarray(a, dtype = float), np.asarray(e, dtype = float), 'column-property-values', tol = 1.0e-5, rtol = 1.0e-6, col = col)
        ctx.observe('kept:' + col)
    back = bw.dataframe(extra_columns_list = cols, use_properties = True, length_uom = lu)
    for col in cols:
        g, e = list(back[col]), list(df[col])
        if col == 'STAT':
            ctx.equal(g, e, 'used-property-stat')
        else:
            ctx.close(np.array(g, dtype = float), np.array(e, dtype = float), 'used-property-values', tol = 1.0e-4, rtol = 1.0e-6, col = col)
    ctx.sig(tuple(sorted(cols)), lu, len(df))


def used_properties(ctx):
    """Columns taken from properties given earlier, timeless or for a time, in their own units."""
    import pandas as pd
    import resqpy.model as rq
    import resqpy.time_series as rqts
    import resqpy.well as rqw
    m = gen.model(ctx, crs = False)
    c = tabled(ctx, m)
    bw = c.bw
    m = bw.model
    n = len(c.kji)
    stamps = rqts.TimeSeries(m, first_timestamp = '2020-01-01', title = 'ts')
    for day in range(3):
        stamps.add_timestamp(f'2020-01-{day + 2:02d}')
    stamps.create_xml()

    def values(cols):
        d = {}
        for col in cols:
            if col == 'STAT':
                d[col] = [('ON', 'OFF')[int(x)] for x in ctx.rng.integers(0, 2, n)]
            else:
                d[col] = ctx.rng.uniform(0.1, 9.0, n)
        return pd.DataFrame(d)

    every = ['RADW', 'SKIN', 'STAT', 'RADB', 'WI', 'LENGTH']
    times = ctx.subset(list(range(4))) if ctx.flag(0.7) else []
    given = {}  # column -> (values, uom of lengths), by time
    if times:
        timed = ctx.subset(every)
        if not timed:
            raise Skip('no columns')
        spare = [x for x in ('RADW', 'SKIN', 'STAT') if ctx.flag()]
    else:
        timed, spare = [], ctx.subset(every)
    for t in [None] + times:
        cols = spare if t is None else timed
        given[t] = {}
        if not cols:
            continue
        uom = ctx.choice(['m', 'ft', None])
        df = values(cols)
        bw.add_df_properties(df, list(cols), length_uom = uom, time_index = t, time_series_uuid = None if t is None else stamps.uuid)
        given[t] = {x: (list(df[x]), uom or c.uom) for x in cols}
    if ctx.flag():
        m.store_epc()
        bw = rqw.BlockedWell(rq.Model(m.epc_file), uuid = bw.uuid)
    ctx.sig(n, tuple(times), tuple(sorted(timed)), tuple(sorted(spare)))
    for t in (times or [None]):
        known = {**given[None], **given[t]}
        if not known:
            raise Skip('no columns')
        cols = ctx.subset(sorted(known)) or sorted(known)
        cols = [x for x in ctx.rng.permutation(cols)]
        lu = ctx.choice([None, 'm', 'ft'])
        back = bw.dataframe(extra_columns_list = list(cols), use_properties = True, property_time_index = t, length_uom = lu)
        ctx.equal(len(back), n, 'used-rows')
        for col in cols:
            e, uom = known[col]
            if col == 'STAT':
                ctx.equal(list(back[col]), e, 'used-given-stat')
            else:
                f = 1.0
                if col in ('RADW', 'RADB'):
                    f = gen.LENGTH_M[uom] / gen.LENGTH_M[lu or c.crs_kw['xy_units']]
                elif col == 'LENGTH':
                    f = gen.LENGTH_M[uom] / gen.LENGTH_M[lu or c.traj_kw.get('z_units', 'm')]
                ctx.close(np.array(back[col], dtype = float), np.array(e) * f, 'used-given-values', tol = 1.0e-6, rtol = 1.0e-5, col = col, uom = uom, lu = lu, time = t)
            ctx.observe('used:' + col + (' timeless' if col not in given[t] or t is None else ' timed'))


def added_property(ctx):
    """One array added to a stored dataset as a property of a blocked well."""
    import resqpy.derived_model as rqdm
    import resqpy.model as rq
    import resqpy.property as rqp
    import resqpy.time_series as rqts
    import resqpy.well as rqw
    m = gen.model(ctx, crs = False)
    c = tabled(ctx, m)
    ts = rqts.TimeSeries(m, first_timestamp = '2001-01-01Z', title = 'series')
    ts.add_timestamp('2002-01-01Z')
    ts.create_xml()
    sl = rqp.StringLookup(m, int_to_str_dict = {0: 'no', 1: 'yes', 2: 'maybe'}, title = 'answers')
    sl.create_xml()
    pk = rqp.PropertyKind(m, title = 'special kind', parent_property_kind = 'continuous')
    pk.create_xml()
    m.store_epc()
    m.h5_release()
    bw_uuid, cells, mds = c.bw.uuid, [tuple(x) for x in c.kji], np.array(c.bw.node_mds)
    ie = ctx.choice(['cells', 'cells', 'intervals', 'nodes'])
    n = {'cells': len(cells), 'intervals': len(mds) - 1, 'nodes': len(mds)}[ie]
    count = ctx.choice([1, 1, 3])
    style = ctx.choice(['continuous', 'discrete', 'categorical', 'local'])
    a = {}
    if ie != 'cells' or ctx.flag():
        a['indexable_element'] = ie
    shape = (n, count) if count > 1 else (n,)
    if count > 1:
        a['count_per_element'] = count
    if style in ('continuous', 'local'):
        x = ctx.rng.normal(size = shape)
        kind = 'special kind' if style == 'local' else 'porosity'
        a['uom'] = 'Euc' if style == 'local' else 'm3/m3'
        if style == 'local':
            a['local_property_kind_uuid'] = pk.uuid
    else:
        x = ctx.rng.integers(0, 3, shape)
        a['discrete'] = True
        kind = 'facies'
        if style == 'categorical':
            a['string_lookup_uuid'] = sl.uuid
        elif ctx.flag():
            a['null_value'] = -1
    if ctx.flag(0.3):
        a['realization'] = ctx.integer(0, 4)
    if ctx.flag(0.3):
        a['time_series_uuid'], a['time_index'] = ts.uuid, ctx.integer(0, 1)
    if ctx.flag(0.3):
        a['facet_type'], a['facet'] = 'direction', 'K'
    if ctx.flag(0.3):
        a['extra_metadata'] = {'note': 'added'}
    new = ctx.flag()
    if new:
        a['new_epc_file'] = ctx.path('other.epc')
    before = sorted(m.parts())
    u = rqdm.add_one_blocked_well_property(m.epc_file, x.copy(), kind, bw_uuid, title = 'added', **a)
    ctx.sig(ie, count, style, new, n)
    if new:
        ctx.equal(sorted(rq.Model(m.epc_file).parts()), before, 'added-source', 'source dataset changed')
    m2 = rq.Model(a['new_epc_file'] if new else m.epc_file)
    bw = rqw.BlockedWell(m2, uuid = bw_uuid)
    ctx.equal([tuple(int(y) for y in z) for z in bw.cell_indices_kji0()], [tuple(int(y) for y in z) for z in cells], 'added-well')
    ctx.equal(np.array(bw.node_mds), mds, 'added-well')
    p = rqp.Property(m2, uuid = u)
    ctx.equal(np.asarray(p.array_ref()), x, 'added-values')
    ctx.equal(str(p.collection.support_uuid), str(bw_uuid), 'added-support')
    ctx.equal((p.title, p.indexable_element(), p.property_kind(), p.count(), p.realization(), p.time_index(), p.facet(), p.is_continuous(), p.is_categorical()),
              ('added', ie, kind, count, a.get('realization'), a.get('time_index'), a.get('facet'), not a.get('discrete', False), style == 'categorical'), 'added-attributes')
    if 'uom' in a:
        ctx.equal(p.uom(), a['uom'], 'added-attributes')
    if 'time_index' in a:
        t2 = rqts.TimeSeries(m2, uuid = p.time_series_uuid())
        ctx.equal(t2.timestamps, ts.timestamps, 'added-series')
    if style == 'categorical':
        ctx.equal(p.string_lookup().get_string(2), 'maybe', 'added-lookup')
    if style == 'local':
        ctx.equal(str(p.local_property_kind_uuid()), str(pk.uuid), 'added-kind')
        ctx.check(m2.part(uuid = pk.uuid) is not None, 'added-kind', 'local kind absent')
    ctx.equal((p.extra_metadata or {}).get('note'), (a.get('extra_metadata') or {}).get('note'), 'added-metadata')
    ctx.observe('properties added')


# well specification files

def wellspec(ctx):
    """Files written are read back as the table they were written from."""
    import pandas as pd
    import resqpy.model as rq
    import resqpy.olio.wellspec_keywords as wsk
    import resqpy.well as rqw
    m = gen.model(ctx, crs = False)
    c = tabled(ctx, m)
    path = ctx.path('wells.dat')
    dates = ctx.flag(0.4)
    written = []  # (name, date, df)
    date = None
    day = 0
    lu = ctx.choice([None, 'm', 'ft'])
    usa = ctx.flag(0.3)
    for n in range(ctx.integer(1, 4)):
        if dates and ctx.flag(0.6):
            day += ctx.integer(1, 25)
            d = np.datetime64('2001-01-15') + day
            date = str(d)
            y, mo, dd = date.split('-')
            with open(path, 'a') as fp:
                fp.write('\n')
                fp.write(f'TIME {mo}/{dd}/{y}\n' if usa else f'TIME {dd}/{mo}/{y}\n')
        cols = ctx.subset(['GRID', 'ANGLA', 'ANGLV', 'LENGTH', 'DEPTH', 'MD', 'X', 'Y', 'SKIN', 'RADW', 'PPERF', 'STAT', 'KH'])
        name = ctx.choice(['W1', 'long name', 'A,B', 'W-2'])
        if any(w[0] == name for w in written) and not dates:
            continue
        kw = dict(length_uom = lu, perm_i_uuid = c.uuid['ki'], space_instead_of_tab_separator = ctx.flag(0.7), preceeding_blank_lines = ctx.integer(0, 2),
                  trailing_blank_lines = ctx.integer(0, 2), length_uom_comment = ctx.flag(), write_nexus_units = ctx.flag())
        if ctx.flag(0.3):
            kw['radw'] = 0.2
        if ctx.flag(0.3):
            kw['stat'] = 'OFF'
        if ctx.flag(0.3):
            kw['min_k0'] = ctx.integer(0, c.extent[0] - 1)
        df = c.bw.write_wellspec(path, well_name = name, mode = 'a', extra_columns_list = cols, **kw)
        if len(df) == 0:
            raise Skip('no rows')
        written.append((name, date, df))
    safe = lambda s: s.replace(' ', '_').replace(',', '_')
    names = []
    for w in written:
        if safe(w[0]) not in names:
            names.append(safe(w[0]))
    every, dl = wsk.load_wellspecs(path, column_list = [], keep_duplicate_cells = True, usa_date_format = usa, return_dates_list = True)
    ctx.equal(list(every), names, 'wellspec-names')
    ctx.equal(dl, sorted(set(w[1] for w in written if w[1] is not None)), 'wellspec-dates')
    ctx.sig(len(written), dates, lu, len(names))

    def same(got, df, what):
        ctx.equal(list(got.columns), list(df.columns), 'wellspec-columns', what)
        ctx.equal(len(got), len(df), 'wellspec-rows', what)
        for col in df.columns:
            g, e = list(got[col]), list(df[col])
            if col == 'STAT':
                ctx.equal([int(x) for x in g], [1 if x == 'ON' else 0 for x in e], 'wellspec-stat')
            elif col == 'GRID':
                ctx.equal([str(x) for x in g], [str(x) for x in e], 'wellspec-grid')
            else:
                ctx.close(np.array(g, dtype = float), np.array(e, dtype = float), 'wellspec-values', tol = 5.1e-4, col = col)
            ctx.observe('wellspec column:' + col)

    for name in names:
        mine = [w for w in written if safe(w[0]) == name]
        same(every[name], mine[-1][2], 'last')
        if ctx.flag(0.5):
            one = wsk.load_wellspecs(path, well = name, column_list = [], last_data_only = False, keep_duplicate_cells = True, usa_date_format = usa)
            ctx.equal(list(one), [name], 'wellspec-one')
            d = one[name]
            at = 0
            for _, date, df in mine:
                part = d.iloc[at:at + len(df)]
                at += len(df)
                ctx.check(all((x == date) or (date is None and pd.isna(x)) for x in part['DATE']), 'wellspec-date', 'date of rows', expect = date,
                          got = list(part['DATE']))
                same(part[list(df.columns)], df, 'dated')
            ctx.equal(len(d), at, 'wellspec-all-rows')
    # and made into a blocked well again
    name = ctx.choice(names)
    df = [w for w in written if safe(w[0]) == name][-1][2].drop_duplicates(subset = ['IW', 'JW', 'L'], keep = 'last')
    bw = rqw.BlockedWell(m, wellspec_file = path, well_name = name, grid = c.grid, add_wellspec_properties = False, usa_date_format = usa)
    ctx.equal([tuple(map(int, t)) for t in bw.cell_indices_kji0()], [(int(r['L']) - 1, int(r['JW']) - 1, int(r['IW']) - 1) for _, r in df.iterrows()],
              'wellspec-cells')
    # and all of them made into blocked wells; grid of a perforation defaults to ROOT
    last = {}
    for n in names:
        df = [w for w in written if safe(w[0]) == n][-1][2].drop_duplicates(subset = ['IW', 'JW', 'L'], keep = 'last')
        rows_of = [r for _, r in df.iterrows() if str(r['GRID'] if 'GRID' in df.columns else 'ROOT').upper() == c.grid.title.upper()]
        if rows_of:
            last[n] = [(int(r['L']) - 1, int(r['JW']) - 1, int(r['IW']) - 1) for r in rows_of]
    before = set(str(u) for u in m.uuids(obj_type = 'BlockedWellboreRepresentation'))
    n = rqw.add_blocked_wells_from_wellspec(m, c.grid, path, usa_date_format = usa)
    ctx.equal(n, len(last), 'wellspec-added', 'number of wells added')
    m.store_epc()
    m2 = rq.Model(m.epc_file)
    new = [u for u in m2.uuids(obj_type = 'BlockedWellboreRepresentation') if str(u) not in before]
    ctx.equal(sorted(m2.title(uuid = u) for u in new), sorted(last), 'wellspec-added', 'titles')
    for u in new:
        b2 = rqw.BlockedWell(m2, uuid = u)
        ctx.equal([tuple(map(int, t)) for t in b2.cell_indices_kji0()], last[b2.title], 'wellspec-added', 'cells')
    ctx.observe('wells added from wellspec', len(last))
    ctx.observe('wells without perforations in the grid', len(names) - len(last))


def centre(cp, t, face):
    return np.take(cp[t], face[1], axis = face[0]).reshape((-1, 3)).mean(axis = 0)


def listed(ctx):
    """Blocked wells made from lists of cells, tables, columns."""
    import pandas as pd
    import resqpy.model as rq
    import resqpy.well as rqw
    m = gen.model(ctx, crs = False)
    xy = ctx.choice(['m', 'm', 'ft'])
    c = make_grid(ctx, m, max_n = (5, 5, 5), crs_kw = dict(z_inc_down = ctx.flag(0.7), xy_units = xy, z_units = xy if ctx.flag(0.7) else ctx.choice(['m', 'ft'])),
                  pinch = False)
    how = ctx.choice(['cells', 'cells', 'dataframe', 'column', 'column', 'column_init', 'wellspec', 'named'])
    ext = np.array(c.extent)
    lu = None if ctx.flag() else ctx.choice(['m', 'ft'])
    skip = ctx.flag()
    others = []
    if how.startswith('column'):
        col = (ctx.integer(0, ext[1] - 1), ctx.integer(0, ext[2] - 1))
        cells = [(k,) + col for k in range(ext[0])]
        if how == 'column_init':
            skip = True
        if skip and c.inactive is not None:
            cells = [t for t in cells if not c.inactive[t]]
        if not cells:
            raise Skip('nothing active in column')
    else:
        t = np.array([ctx.integer(0, e - 1) for e in ext])
        if ctx.flag():
            t[0] = 0
        cells = [tuple(int(x) for x in t)]
        for _ in range(ctx.integer(0, 7)):
            step = np.zeros(3, dtype = int)
            step[ctx.choice([0, 0, 1, 2])] = ctx.choice([1, 1, -1])
            if ctx.flag(0.15):
                step = ctx.rng.integers(-2, 3, 3)
            t = np.clip(t + step, 0, ext - 1)
            if tuple(t) != cells[-1]:
                cells.append(tuple(int(x) for x in t))
    name = 'W1'
    df = pd.DataFrame({'IW': [t[2] + 1 for t in cells], 'JW': [t[1] + 1 for t in cells], 'L': [t[0] + 1 for t in cells]})
    expect = list(cells)
    if how == 'named':
        df['GRID'] = [ctx.choice(['GRID', 'grid', 'OTHER', 'ANOTHER']) for _ in cells]
        expect = [t for t, g in zip(cells, df['GRID']) if g.upper() == 'GRID']
        if not expect:
            raise Skip('all in other grids')
    if how == 'cells':
        bw = rqw.BlockedWell(m)
        bw.derive_from_cell_list(np.array(cells), name, c.grid, length_uom = lu)
    elif how == 'dataframe':
        bw = rqw.BlockedWell(m)
        bw.derive_from_dataframe(df, name, c.grid, length_uom = lu)
    elif how == 'named':
        bw = rqw.BlockedWell(m)
        bw.derive_from_dataframe(df, name, c.grid, grid_name_to_check = 'GRID', length_uom = lu)
    elif how == 'column':
        bw = rqw.BlockedWell(m)
        bw.set_for_column(name, c.grid, np.array(col), skip_inactive = skip, length_uom = lu)
    elif how == 'column_init':
        lu = None
        bw = rqw.BlockedWell(m, grid = c.grid, column_ji0 = np.array(col), well_name = name)
    else:
        expect = [t for x, t in enumerate(cells) if t not in cells[x + 1:]]  # only the last mention of a cell is used
        path = ctx.path('cells.dat')
        with open(path, 'w') as fp:
            fp.write('! cells\nWELLSPEC W1\n  IW JW L RADW\n')
            for t in cells:
                fp.write(f'{t[2] + 1} {t[1] + 1} {t[0] + 1} 0.25\n')
        bw = rqw.BlockedWell(m)
        bw.derive_from_wellspec(path, name, c.grid, add_properties = False, length_uom = lu)
    ctx.sig(how, c.flavour, len(cells), lu)
    ctx.observe('listed:' + how)
    got = [tuple(int(x) for x in t) for t in bw.cell_indices_kji0()]
    ctx.check(got == expect, 'listed-cells', 'cells', how = how, got = got, expect = expect, grids = list(df.get('GRID', [])))
    f = {u: gen.LENGTH_M[u] for u in ('m', 'ft')}
    scale = np.array([f[xy], f[xy], f[c.crs_kw['z_units']]]) / f[lu or c.crs_kw['z_units']]
    faces = nest(bw.face_pair_indices)
    t = bw.trajectory
    ctx.equal(bw.trajectory.md_uom, lu or c.crs_kw['z_units'], 'listed-uom')
    ivs = [i for i, x in enumerate(bw.grid_indices) if x >= 0]
    ctx.equal(len(ivs), len(got), 'listed-intervals')
    ctx.equal(len(bw.grid_indices) + 1, bw.node_count, 'listed-node-count')
    last = None
    for i, cell, (entry, exit) in zip(ivs, got, faces):
        p, q = centre(c.cp, cell, entry), centre(c.cp, cell, exit)
        a, b = bw.node_mds[i], bw.node_mds[i + 1]
        ctx.close(t.xyz_for_md(a), p, 'listed-entry', tol = 0.06, md = a)
        ctx.close(t.xyz_for_md(b), q, 'listed-exit', tol = 0.06, md = b)
        ctx.close(b - a, np.linalg.norm((q - p) * scale), 'listed-length', tol = 0.12)
        if last is not None:
            gap = i - last[0] - 1
            far = np.max(np.abs(p - last[1])) > 0.06
            near = np.max(np.abs(p - last[1])) < 0.03
            ctx.check(gap <= 1 and not (far and gap == 0) and not (near and gap == 1), 'listed-gap', 'unblocked interval where there is no gap, or none where there is')
        last = (i, q)
    for x in range(len(got) - 1):
        move = np.array(got[x + 1]) - np.array(got[x])
        if how not in ('named', 'wellspec') and np.sum(np.abs(move)) == 1:
            ax = int(np.argmax(np.abs(move)))
            pol = 1 if move[ax] > 0 else 0
            ctx.check(faces[x][1] == (ax, pol) and faces[x + 1][0] == (ax, 1 - pol), 'listed-faces', 'faces between neighbouring cells', a = got[x], b = got[x + 1],
                      faces = faces)
    bw.write_hdf5()
    bw.create_xml()
    m.store_epc()
    b2 = rqw.BlockedWell(rq.Model(m.epc_file), uuid = bw.uuid)
    ctx.equal([tuple(int(x) for x in t) for t in b2.cell_indices_kji0()], expect, 'listed-reloaded')
    ctx.close(b2.node_mds, bw.node_mds, 'listed-reloaded-mds')
    ctx.equal(nest(b2.face_pair_indices), faces, 'listed-reloaded-faces')
    ctx.equal(list(map(int, b2.grid_indices)), list(map(int, bw.grid_indices)), 'listed-reloaded-grids')


def angled(ctx):
    """Perforations with angles pass through the centre of their cells at those angles."""
    import pandas as pd
    import resqpy.well as rqw
    m = gen.model(ctx, crs = False)
    c = make_grid(ctx, m, max_n = (4, 4, 4), crs_kw = dict(z_inc_down = ctx.flag(0.6)), pinch = False)
    cells, rws = [], []
    t = np.array([ctx.integer(0, e - 1) for e in c.extent])
    for _ in range(ctx.integer(1, 5)):
        cells.append(tuple(int(x) for x in t))
        rws.append((ctx.uniform(-179.0, 179.0), ctx.choice([ctx.uniform(0.5, 60.0), ctx.uniform(0.5, 89.0), 0.0])))
        t = np.clip(t + ctx.rng.integers(-1, 2, 3), 0, np.array(c.extent) - 1)
    df = pd.DataFrame({'IW': [t[2] + 1 for t in cells], 'JW': [t[1] + 1 for t in cells], 'L': [t[0] + 1 for t in cells], 'ANGLA': [x[0] for x in rws],
                       'ANGLV': [x[1] for x in rws]})
    bw = rqw.BlockedWell(m)
    bw.derive_from_dataframe(df, 'W', c.grid, use_face_centres = False)
    ctx.sig(c.flavour, c.z_down, len(cells))
    ctx.equal([tuple(int(x) for x in t) for t in bw.cell_indices_kji0()], cells, 'angled-cells')
    ivs = [i for i, x in enumerate(bw.grid_indices) if x >= 0]
    faces = nest(bw.face_pair_indices)
    for i, cell, (angla, anglv), fp in zip(ivs, cells, rws, faces):
        mid = c.cp[cell].reshape((-1, 3)).mean(axis = 0)
        a, b = (np.array(bw.trajectory.xyz_for_md(x)) for x in (bw.node_mds[i], bw.node_mds[i + 1]))
        iv = (c.cp[cell][:, :, 1] - c.cp[cell][:, :, 0]).sum(axis = (0, 1))
        az = np.radians(np.degrees(np.arctan2(iv[1], iv[0])) + angla) if anglv >= 0.001 else 0.0
        v = np.array([np.sin(np.radians(anglv)) * np.cos(az), np.sin(np.radians(anglv)) * np.sin(az), np.cos(np.radians(anglv)) * (1.0 if c.z_down else -1.0)])
        d = (b - a) / np.linalg.norm(b - a)
        if np.linalg.norm(b - a) < 2.0:
            continue
        ctx.check(np.dot(d, v) > np.cos(np.radians(0.5)) if len(cells) == 1 else np.dot(d, v) > np.cos(np.radians(3.0)), 'angled-direction',
                  'direction of path in cell', got = d.tolist(), expect = v.tolist(), angla = angla, anglv = anglv, z_down = c.z_down, faces = fp)
        f = np.dot(mid - a, d)
        ctx.check(np.linalg.norm(a + f * d - mid) < 0.3 and 0.0 < f < np.linalg.norm(b - a), 'angled-centre', 'path does not pass through the centre of the cell')
        ctx.observe('angled cells')


def cellio(ctx):
    """Blocked wells from RMS cell I/O files."""
    import resqpy.well as rqw
    m = gen.model(ctx, crs = False)
    c = make_grid(ctx, m, max_n = (4, 4, 4), crs_kw = dict(z_inc_down = ctx.flag(0.6)), pinch = False)
    make_trajectory(ctx, m, c, other_crs = False)
    e = expected(ctx, c)
    if e is None:
        raise Skip('path misses grid')
    if any(z * (1.0 if c.z_down else -1.0) < 0.1 for v in c.visits for z in (v.xyz0[2], v.xyz1[2])):
        raise Skip('above datum: direction of z in file is taken from its sign')
    path = ctx.path('cells.txt')
    wells = ctx.integer(1, 3)
    which = ctx.integer(0, wells - 1)
    flip = ctx.flag(0.4)
    with open(path, 'w') as fp:
        for w in range(wells):
            fp.write('1.0\nUndefined\n')
            fp.write(f'W{w} 450000.0 6300000.0 25.0\n')
            h = ctx.integer(1, 3)
            fp.write(f'{h}\n')
            for x in range(h):
                fp.write(f'C{x}\n')
            if w == which:
                for v in c.visits:
                    t = np.unravel_index(v.cell, c.extent)
                    z = -1.0 if flip else 1.0
                    fp.write(f'{t[2] + 1} {t[1] + 1} {t[0] + 1} {v.xyz0[0]:.6f} {v.xyz0[1]:.6f} {z * v.xyz0[2]:.6f} {v.xyz1[0]:.6f} {v.xyz1[1]:.6f} {z * v.xyz1[2]:.6f} 1\n')
            else:
                fp.write('1 1 1 1.0 2.0 3.0 1.0 2.0 4.0 1\n')
            fp.write('\n')
    from resqpy.well.well_utils import well_names_in_cellio_file
    ctx.equal(well_names_in_cellio_file(path), [f'W{w}' for w in range(wells)], 'cellio-names')
    over = ctx.flag()
    bw = rqw.BlockedWell(m)
    r = bw.import_from_rms_cellio(path, f'W{which}', c.grid, include_overburden_unblocked_interval = over)
    ctx.sig(c.flavour, c.z_down, len(c.visits), wells, over)
    ctx.check(r is bw, 'cellio-failed', 'import failed')
    ctx.equal(list(map(int, bw.cell_indices)), e[2], 'cellio-cells')
    ivs = [i for i, x in enumerate(bw.grid_indices) if x >= 0]
    ctx.equal(len(ivs), len(e[2]), 'cellio-intervals')
    for i, v, f in zip(ivs, c.visits, nest(bw.face_pair_indices)):
        a, b = (np.array(bw.trajectory.xyz_for_md(x)) for x in (bw.node_mds[i], bw.node_mds[i + 1]))
        ctx.close(a, v.xyz0, 'cellio-entry', tol = 0.06)
        ctx.close(b, v.xyz1, 'cellio-exit', tol = 1.0e-3)
        ctx.close(bw.node_mds[i + 1] - bw.node_mds[i], np.linalg.norm(v.xyz1 - v.xyz0), 'cellio-length', tol = 0.06)
        ctx.check(f[0] == v.face0 and (v.face1 == (-1, -1) or f[1] == v.face1), 'cellio-faces', 'faces', got = f, expect = (v.face0, v.face1))
        ctx.observe('cellio cells')


SCENARIOS = [
    Scenario(blocking, 120),
    Scenario(queries, 40),
    Scenario(grid_property, 40),
    Scenario(table, 250),
    Scenario(added_property, 30),
    Scenario(kept_properties, 40),
    Scenario(used_properties, 60),
    Scenario(wellspec, 25),
    Scenario(listed, 110),
    Scenario(angled, 25),
    Scenario(cellio, 30),
]
