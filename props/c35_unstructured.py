"""C35: unstructured grids keep topology and measure cells correctly."""

import numpy as np

from props.c13_cell_measures import exact_volumes
from props.spec import spec
from rv import gen
from rv.core import Scenario, Skip
from rv.gridgen import random_grid

PROP = spec('C35')

VOL_SI = {'m3': 1.0, 'ft3': 0.3048**3, 'bbl': 0.158987294928, 'km3': 1.0e9, '1000 m3': 1.0e3}


# shapes of region and cells; all in true space (east, north, up) in metres


class Body:
    """Points, faces as rings of nodes, cells as lists of faces; total volume."""

    def __init__(self):
        self.points, self.faces, self.cells, self.key = [], [], [], {}
        self.total = None

    def node(self, p):
        self.points.append(p)
        return len(self.points) - 1

    def cell(self, rings):
        out = []
        for r in rings:
            k = frozenset(r)
            if k not in self.key:
                self.key[k] = len(self.faces)
                self.faces.append(list(r))
            out.append(self.key[k])
        self.cells.append(out)

    def shuffled(self, ctx):
        """Renumbers everything and varies start and direction of rings."""
        n = ctx.rng.permutation(len(self.points))
        f = ctx.rng.permutation(len(self.faces))
        p = np.array(self.points, dtype = float)
        self.points = np.empty_like(p)
        self.points[n] = p
        faces = [None] * len(self.faces)
        for i, r in enumerate(self.faces):
            r = list(np.roll([int(n[a]) for a in r], ctx.integer(0, len(r) - 1)))
            faces[f[i]] = r[::-1] if ctx.flag() else r
        self.faces = faces
        cells = [[int(f[a]) for a in ctx.rng.permutation(c)] for c in self.cells]
        self.cells = [cells[i] for i in ctx.rng.permutation(len(cells))]
        return self

    def right(self):
        """For each cell, whether each face is clockwise seen from inside."""
        out = []
        for c in self.cells:
            middle = np.mean([self.points[self.faces[f]].mean(axis = 0) for f in c], axis = 0)
            out.append([bool(np.dot(area_vector(self.points[self.faces[f]]), self.points[self.faces[f]].mean(axis = 0) - middle) > 0.0)
                        for f in c])
        return out

    def volumes(self):
        """By the divergence theorem, with each face as a fan about its centre."""
        v = []
        for c in self.cells:
            middle = np.mean([self.points[self.faces[f]].mean(axis = 0) for f in c], axis = 0)
            v.append(sum(abs(np.dot(area_vector(self.points[self.faces[f]]), self.points[self.faces[f]].mean(axis = 0) - middle))
                         for f in c) / 3.0)
        return np.array(v)


def area_vector(p):
    q = p - p.mean(axis = 0)
    return 0.5 * np.sum(np.cross(q, np.roll(q, -1, axis = 0)), axis = 0)


def affine(ctx, size):
    """Random well conditioned linear map keeping planes plane."""
    while True:
        a = np.eye(3) + ctx.rng.uniform(-0.5, 0.5, (3, 3))
        if np.linalg.det(a) > 0.3:
            break
    if ctx.flag(0.3):
        a = np.eye(3)
    return a * size


def box_corners(k, j, i):
    return [[(k + a, j + b, i + c) for c in (0, 1)] for a in (0, 1) for b in (0, 1)]


QUADS = [[(0, 0, 0), (0, 1, 0), (0, 1, 1), (0, 0, 1)], [(1, 0, 0), (1, 1, 0), (1, 1, 1), (1, 0, 1)],
         [(0, 0, 0), (0, 0, 1), (1, 0, 1), (1, 0, 0)], [(0, 1, 0), (0, 1, 1), (1, 1, 1), (1, 1, 0)],
         [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0)], [(0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)]]


def lattice_nodes(ctx, body, n):
    lines = [np.cumsum(ctx.rng.uniform(0.5, 1.5, a + 1)) for a in n]
    ids = np.empty([a + 1 for a in n], dtype = int)
    for k in range(n[0] + 1):
        for j in range(n[1] + 1):
            for i in range(n[2] + 1):
                ids[k, j, i] = body.node((lines[2][i], lines[1][j], lines[0][k]))
    body.total = float(np.prod([x[-1] - x[0] for x in lines]))
    return ids


def make_body(ctx, kind):
    """A filled region divided into cells of a kind."""
    b = Body()
    if kind == 'tetra':
        from scipy.spatial import ConvexHull, Delaunay
        p = ctx.rng.uniform(0.0, 1.0, (ctx.integer(4, 12), 3))
        d = Delaunay(p)
        b.points = [tuple(x) for x in p]
        for s in d.simplices:
            a = [int(v) for v in s]
            q = p[a]
            if abs(np.linalg.det(q[1:] - q[0])) < 0.01:
                raise Skip('sliver')
            b.cell([[a[1], a[2], a[3]], [a[0], a[2], a[3]], [a[0], a[1], a[3]], [a[0], a[1], a[2]]])
        b.total = float(ConvexHull(p).volume)
    elif kind in ('hexa', 'pyramid', 'mixed'):
        n = [ctx.integer(1, 3) for _ in range(3)]
        ids = lattice_nodes(ctx, b, n)
        for k, j, i in np.ndindex(*n):
            quads = [[int(ids[k + c[0], j + c[1], i + c[2]]) for c in q] for q in QUADS]
            if kind == 'hexa' or (kind == 'mixed' and ctx.flag(0.7)):
                b.cell(quads)
                continue
            corner = np.array([b.points[a] for a in sorted(set(sum(quads, [])))])
            w = ctx.rng.uniform(0.5, 1.0, len(corner))
            apex = b.node(tuple(w @ corner / w.sum()))
            for q in quads:
                b.cell([q] + [[q[a], q[(a + 1) % 4], apex] for a in range(4)])
    else:  # prisms and extruded polygons
        nk = ctx.integer(1, 3)
        if kind == 'prism':
            from scipy.spatial import ConvexHull, Delaunay
            xy = ctx.rng.uniform(0.0, 1.0, (ctx.integer(3, 8), 2))
            polys = [[int(v) for v in s] for s in Delaunay(xy).simplices]
            for s in polys:
                if abs(np.linalg.det(xy[s][1:] - xy[s][0])) < 0.02:
                    raise Skip('sliver')
            base = float(ConvexHull(xy).volume)
        else:  # hexagons
            xy, at, polys = [], {}, []
            for r in range(ctx.integer(1, 2)):
                for c in range(ctx.integer(1, 3)):
                    cx, cy = np.sqrt(3.0) * (c + 0.5 * (r % 2)), 1.5 * r
                    ring = []
                    for a in range(6):
                        v = (cx + np.sin(np.pi * a / 3.0), cy + np.cos(np.pi * a / 3.0))
                        key = (round(v[0], 4), round(v[1], 4))
                        if key not in at:
                            at[key] = len(xy)
                            xy.append(v)
                        ring.append(at[key])
                    polys.append(ring)
            xy = np.array(xy)
            base = len(polys) * 1.5 * np.sqrt(3.0)
        z = np.cumsum(ctx.rng.uniform(0.3, 1.0, nk + 1))
        for k in range(nk + 1):
            for v in xy:
                b.node((v[0], v[1], z[k]))
        m = len(xy)
        for k in range(nk):
            for s in polys:
                top, bot = [a + k * m for a in s], [a + (k + 1) * m for a in s]
                b.cell([top, bot] + [[top[a - 1], top[a], bot[a], bot[a - 1]] for a in range(len(s))])
        b.total = base * float(z[-1] - z[0])
    a = affine(ctx, ctx.choice([1.0, 40.0, 700.0]))
    b.points = np.array(b.points) @ a.T + np.array(ctx.choice([(0.0, 0.0, 0.0), (5000.0, 9000.0, -2000.0)]))
    b.total *= abs(np.linalg.det(a))
    return b


KINDS = {'tetra': ('TetraGrid', 'tetrahedral'), 'hexa': ('HexaGrid', 'hexahedral'), 'pyramid': ('PyramidGrid', 'pyramidal'),
         'prism': ('PrismGrid', 'prism'), 'mixed': ('UnstructuredGrid', 'polyhedral'), 'hexagons': ('UnstructuredGrid', 'polyhedral')}


def make_crs(ctx, m, offsets = True, **fixed):
    import resqpy.crs as rqc
    kw = gen.crs_kwargs(ctx)
    if not offsets:
        kw = {k: v for k, v in kw.items() if 'offset' not in k}
    kw.update(fixed)
    c = rqc.Crs(m, title = 'c', **kw)
    c.create_xml()
    return c, kw


def fill(g, points, body, right, crs):
    g.set_cell_count(len(body.cells))
    g.node_count, g.face_count = len(points), len(body.faces)
    g.points_cached = points.copy()
    g.nodes_per_face = np.array(sum(body.faces, []), dtype = int)
    g.nodes_per_face_cl = np.cumsum([len(f) for f in body.faces])
    g.faces_per_cell = np.array(sum(body.cells, []), dtype = int)
    g.faces_per_cell_cl = np.cumsum([len(c) for c in body.cells])
    g.cell_face_is_right_handed = np.array(sum(right, []), dtype = bool)
    g.crs_uuid = crs.uuid


def setup(ctx, kinds = None):
    import resqpy.unstructured as rug
    m = gen.model(ctx, crs = False)
    crs, kw = make_crs(ctx, m, offsets = ctx.flag())
    kind = ctx.choice(kinds or list(KINDS))
    body = make_body(ctx, kind).shuffled(ctx)
    o = gen.CrsOracle(kw)
    per = np.array([o.xyf, o.xyf, o.zf])
    shift = np.array([*(o.off @ o.axes), o.zsign * o.zoff]) if ctx.flag(0.8) else 0.0
    local = o.from_true(body.points / per + shift)
    cls, shape = KINDS[kind]
    general = ctx.flag(0.25)
    if general:
        cls = 'UnstructuredGrid'
        shape = ctx.choice([shape, shape, 'polyhedral'])
    C = getattr(rug, cls)
    g = C(m, title = 'u', cell_shape = shape) if cls == 'UnstructuredGrid' else C(m, title = 'u', extra_metadata = gen.metadata(ctx, 0.2) or {})
    right = body.right()
    fill(g, local, body, right, crs)
    ctx.sig(kind, cls, shape, len(body.cells), len(body.faces))
    return m, crs, kw, kind, body, local, g, right, C, shape


def again(ctx, m, g, C, cache = None):
    import resqpy.model as rq
    g.write_hdf5()
    g.create_xml()
    m.store_epc()
    m2 = rq.Model(m.epc_file)
    return m2, C(m2, uuid = g.uuid, cache_geometry = ctx.flag() if cache is None else cache)


def in_order(cls, faces, n_nodes):
    """Expected order of faces of a cell: the quadrilateral first for pyramids."""
    if cls != 'PyramidGrid':
        return list(range(len(faces)))
    q = [i for i, f in enumerate(faces) if n_nodes[f] == 4]
    return q + [i for i in range(len(faces)) if i not in q]


def check_topology(ctx, g, body, local, right, cls, code):
    n_nodes = [len(f) for f in body.faces]
    ctx.equal((int(g.cell_count), int(g.face_count), int(g.node_count)), (len(body.cells), len(body.faces), len(local)), code + 'counts')
    ops = ['points', 'cells', 'faces', 'usage', 'masked', 'raw', 'sizes', 'box']
    ctx.rng.shuffle(ops)
    for op in ops:
        ctx.observe(code + op)
        if op == 'points':
            ctx.equal(g.points_ref(), local, code + 'points')
        elif op == 'raw':
            g.cache_all_geometry_arrays()
            ctx.equal(g.nodes_per_face, np.array(sum(body.faces, [])), code + 'nodes-per-face')
            ctx.equal(g.nodes_per_face_cl, np.cumsum(n_nodes), code + 'nodes-per-face-cl')
            ctx.equal(g.faces_per_cell, np.array(sum(body.cells, [])), code + 'faces-per-cell')
            ctx.equal(g.faces_per_cell_cl, np.cumsum([len(c) for c in body.cells]), code + 'faces-per-cell-cl')
            ctx.equal(np.array(g.cell_face_is_right_handed, dtype = bool), np.array(sum(right, [])), code + 'right-handed')
            g.check_indices()
        elif op == 'sizes':
            ctx.equal(int(g.max_face_count_for_any_cell()), max(len(c) for c in body.cells), code + 'max-faces')
            ctx.equal(int(g.max_node_count_for_any_face()), max(n_nodes), code + 'max-nodes')
        elif op == 'box':
            ctx.equal(g.xyz_box(), np.array([local.min(axis = 0), local.max(axis = 0)]), code + 'box')
        elif op == 'faces':
            for f in ctx.subset(list(range(len(body.faces))), min(len(body.faces), 12)):
                r = body.faces[f]
                ctx.equal(int(g.node_count_for_face(f)), len(r), code + 'node-count')
                got = g.node_indices_for_face(f)
                ctx.equal(got, np.array(r), code + 'node-indices')
                got += 1  # a copy
                e = np.array([(r[i - 1], r[i]) for i in range(len(r))])
                ctx.equal(g.edges_for_face(f), e, code + 'edges')
                ctx.equal(g.edges_for_face_with_node_indices_ordered_within_pairs(f), np.sort(e, axis = 1), code + 'sorted-edges')
                ctx.close(g.face_centre_point(f), local[r].mean(axis = 0), code + 'face-centre', rtol = 1.0e-12, tol = 1.0e-9)
                if cls == 'TetraGrid':
                    g.cache_all_geometry_arrays()
                    ctx.equal(g.nodes_for_face(f), np.array(r), code + 'tetra-nodes')
        elif op == 'cells':
            for c in ctx.subset(list(range(len(body.cells))), min(len(body.cells), 10)):
                order = in_order(cls, body.cells[c], n_nodes)
                fc = [body.cells[c][i] for i in order]
                ctx.equal(int(g.face_count_for_cell(c)), len(fc), code + 'face-count')
                got = g.face_indices_for_cell(c)
                ctx.equal(got, np.array(fc), code + 'face-indices')
                got += 1
                f, h = g.face_indices_and_handedness_for_cell(c)
                ctx.equal(f, np.array(fc), code + 'face-indices-2')
                ctx.equal(np.array(h, dtype = bool), np.array([right[c][i] for i in order]), code + 'handedness')
                h[:] = ~np.array(h, dtype = bool)
                nodes = sorted(set(sum([body.faces[a] for a in fc], [])))
                ctx.equal(g.distinct_node_indices_for_cell(c), np.array(nodes), code + 'distinct-nodes')
                e = sorted(set(tuple(sorted((body.faces[a][i - 1], body.faces[a][i]))) for a in fc for i in range(n_nodes[a])))
                got = g.distinct_edges_for_cell(c)
                ctx.equal(sorted(map(tuple, got.tolist())), e, code + 'distinct-edges')
                e = np.array([local[body.faces[a]].mean(axis = 0) for a in fc])
                got = g.cell_face_centre_points(c)
                ctx.close(got, e, code + 'cell-face-centres', rtol = 1.0e-12, tol = 1.0e-9)
                if cls == 'TetraGrid':
                    g.cache_all_geometry_arrays()
                    ctx.equal(g.faces_for_cell(c), np.array(fc), code + 'tetra-faces')
        elif op == 'usage':
            e = -np.ones((len(body.faces), 2), dtype = int)
            for c, fc in enumerate(body.cells):
                for f in fc:
                    e[f, 0 if e[f, 0] < 0 else 1] = c
            ctx.equal(g.set_cells_per_face(), e, code + 'cells-per-face')
            ctx.equal(g.external_face_indices(), np.nonzero(e[:, 1] < 0)[0], code + 'external')
        else:
            mask = ctx.rng.random(len(body.cells)) < ctx.choice([0.0, 0.3, 0.7, 1.0])
            given = mask.copy()
            e = -np.ones((len(body.faces), 2), dtype = int)
            for c, fc in enumerate(body.cells):
                if not mask[c]:
                    for f in fc:
                        e[f, 0 if e[f, 0] < 0 else 1] = c
            ctx.equal(g.masked_cells_per_face(given), e, code + 'masked')
            ctx.equal(g.external_face_indices_for_masked_cells(given), np.nonzero((e[:, 0] >= 0) & (e[:, 1] < 0))[0], code + 'masked-external')
            ctx.equal(g.internal_face_indices_for_masked_cells(given), np.nonzero(e[:, 1] >= 0)[0], code + 'masked-internal')


def topology(ctx):
    """Lookups agree with the raw topology, in memory and after storage."""
    import resqpy.grid as grr
    m, crs, kw, kind, body, local, g, right, C, shape = setup(ctx)
    inactive = None
    if ctx.flag(0.4):
        inactive = ctx.rng.random(len(body.cells)) < 0.4
        g.inactive = inactive.copy()
    if ctx.flag(0.5):
        check_topology(ctx, g, body, local, right, C.__name__, 'fresh-')
    m2, h = again(ctx, m, g, C)
    check_topology(ctx, h, body, local, right, C.__name__, '')
    ctx.equal(h.cell_shape, shape, 'cell-shape')
    ctx.equal(str(h.crs_uuid), str(crs.uuid), 'crs')
    ctx.equal(h.xy_units(), kw['xy_units'], 'xy-units')
    ctx.equal(h.z_units(), kw['z_units'], 'z-units')
    check = {'tetrahedral': 'check_tetra', 'hexahedral': 'check_hexahedral', 'pyramidal': 'check_pyramidal', 'prism': 'check_prism'}
    if C.__name__ != 'UnstructuredGrid':
        getattr(h, check[shape])()
    e = np.zeros(len(body.cells), dtype = bool) if inactive is None else inactive
    ctx.equal(np.array(h.inactive, dtype = bool), e, 'inactive')
    ctx.equal(np.array(h.extract_inactive_mask(), dtype = bool), e, 'inactive-mask')
    ctx.equal(int(h.active_cell_count()), int(np.count_nonzero(~e)), 'active-count')
    ctx.equal(bool(h.all_inactive), bool(np.all(e)), 'all-inactive')
    any_g = grr.any_grid(m2, uuid = g.uuid)
    flavour = {v[1]: v[0] for v in KINDS.values()}[shape]
    ctx.equal(type(any_g).__name__, flavour, 'any-grid')
    check_topology(ctx, any_g, body, local, right, flavour, 'any-')


def measures(ctx):
    """Centres, areas, normals and volumes of cells with planar faces."""
    m, crs, kw, kind, body, local, g, right, C, shape = setup(ctx)
    if ctx.flag(0.6):
        m, g = again(ctx, m, g, C)
    o = gen.CrsOracle(kw)
    size = np.ptp(body.points, axis = 0).max()
    same = kw['xy_units'] == kw['z_units']
    n_nodes = [len(f) for f in body.faces]
    eps = 1.0e-9 * (np.abs(local).max() / max(np.ptp(local, axis = 0).min(), 1e-9) + 1.0)
    if eps > 1.0e-5:
        raise Skip('too far from the origin for its size')
    ctx.sig(same, kw['axis_order'], kw['z_inc_down'])
    per = np.array([1.0, 1.0, o.zf / o.xyf])  # to common units
    even = local * per
    hand = None
    for f in ctx.subset(list(range(len(body.faces))), min(len(body.faces), 8)):
        r = body.faces[f]
        av = area_vector(even[r])
        area = np.linalg.norm(av)
        width = np.ptp(even[r], axis = 0).max()
        if area < 0.02 * width * width:
            continue
        n = g.face_normal(f)
        ctx.observe('normals')
        ctx.close(np.linalg.norm(n), 1.0, 'normal-unit', tol = 1.0e-6)
        along = float(np.dot(n, av / area))
        ctx.close(abs(along), 1.0, 'normal', tol = 1.0e-6 + eps)
        if hand is None:
            hand = along > 0.0
        ctx.equal(along > 0.0, hand, 'normal-sense', 'direction follows the order of nodes')
        t = float(ctx.rng.random()) < 0.5
        tol = 1.0e-7 * width + eps * width * 10.0
        flat = g.planar_face_points(f, xy_plane = True)
        ctx.close(flat[:, 2], np.zeros(len(r)), 'planar-level', tol = tol)
        d = lambda q: np.linalg.norm(q[:, None] - q[None], axis = -1)
        ctx.close(d(flat), d(even[r]), 'planar-isometric', tol = tol)
        back = g.planar_face_points(f) if t else g.planar_face_points(f, xy_plane = False)
        ctx.close(back, local[r], 'planar-points', tol = tol / min(1.0, o.zf / o.xyf))
        ctx.close(g.area_of_face(f, in_plane = True), area, 'area-in-plane', rtol = 1.0e-6 + eps, tol = tol * width * 1e-3)
        if same:
            ctx.close(g.area_of_face(f), area, 'area', rtol = 1.0e-6 + eps, tol = tol * width * 1e-3)
        for ln in (True, False):
            tr = np.array(g.face_triangulation(f, local_nodes = ln))
            ctx.equal(tr.shape, (len(r) - 2, 3), 'triangulation-shape')
            ids = np.array(r)[tr] if ln else tr
            ctx.check(set(ids.flatten().tolist()) == set(r), 'triangulation-nodes', 'uses all the nodes of the face')
            s = sum(np.linalg.norm(area_vector(even[q])) for q in ids)
            ctx.close(s, area, 'triangulation-area', rtol = 1.0e-6 + eps)
    # centres
    centres = np.array([np.mean([local[body.faces[f]].mean(axis = 0) for f in c], axis = 0) for c in body.cells])
    tol = 1.0e-9 * np.abs(local).max()
    ops = ['one', 'one-cached', 'all', 'cell']
    ctx.rng.shuffle(ops)
    for op in ops:
        c = ctx.integer(0, len(centres) - 1)
        if op == 'one':
            ctx.close(g.centre_point(c), centres[c], 'centre', tol = tol)
        elif op == 'one-cached':
            ctx.close(g.centre_point(cell = c, cache_centre_array = True), centres[c], 'centre-cached', tol = tol)
        elif op == 'all':
            ctx.close(g.centre_point(), centres, 'centres', tol = tol)
        else:
            ctx.close(g.cell_centre_point(c), centres[c], 'cell-centre', tol = tol)
    # volumes
    vol = body.volumes()
    default = {'m': 'm3', 'ft': 'ft3'}.get(kw['xy_units'], 'm3') if same else 'm3'
    got = []
    for c in range(len(vol)):
        if c >= 8 and kind not in ('tetra', 'pyramid') and C.__name__ != 'HexaGrid':
            got = None
            break
        uom = ctx.choice(list(VOL_SI)) if ctx.flag(0.3) and C.__name__ in ('TetraGrid', 'HexaGrid', 'PyramidGrid') else None
        v = g.volume(c) if uom is None else g.volume(c, required_uom = uom)
        v = float(v) * VOL_SI[uom or default]
        ctx.observe('volumes')
        ctx.close(v, vol[c], 'volume', rtol = 2.0e-5 + eps * 10.0, kind = kind, cls = C.__name__, uom = uom)
        got.append(v)
    if got:
        ctx.close(sum(got), body.total, 'total-volume', rtol = 2.0e-5 + eps * 10.0)
    if C.__name__ == 'TetraGrid':
        ctx.close(float(g.grid_volume()) * VOL_SI[default], body.total, 'grid-volume', rtol = 2.0e-5 + eps * 10.0)
        for c in range(min(len(vol), 6)):
            ctx.equal(np.array(g.determine_cell_face_right_handedness(c), dtype = bool), np.array(right[c]), 'tetra-handedness')
        g.cell_face_is_right_handed = np.zeros(4 * len(vol), dtype = bool)
        g.set_cell_face_is_right_handed_from_geometry()
        ctx.equal(np.array(g.cell_face_is_right_handed, dtype = bool), np.array(sum(right, [])), 'tetra-set-handedness')
    uom = ctx.choice(list(VOL_SI))
    ctx.close(g.adjusted_volume(7.0, required_uom = uom), 7.0 * o.xyf**2 * o.zf / VOL_SI[uom], 'adjusted-volume', rtol = 1.0e-5)
    ctx.equal(g.points_ref(), local, 'points-kept')


def cell_as_tetra(ctx):
    """A single cell divided into tetrahedra."""
    import resqpy.unstructured as rug
    m, crs, kw, kind, body, local, g, right, C, shape = setup(ctx)
    o = gen.CrsOracle(kw)
    if np.abs(local).max() > 1.0e4 * max(np.ptp(local, axis = 0).min(), 1e-9):
        raise Skip('too far from the origin for its size')
    c = ctx.integer(0, len(body.cells) - 1)
    t = rug.TetraGrid.from_unstructured_cell(g, c, title = ctx.choice([None, 'new']), set_handedness = True)
    vol = body.volumes()[c]
    same = kw['xy_units'] == kw['z_units']
    default = {'m': 'm3', 'ft': 'ft3'}.get(kw['xy_units'], 'm3') if same else 'm3'
    ctx.close(float(t.grid_volume()) * VOL_SI[default], vol, 'volume', rtol = 3.0e-5)
    t.check_tetra()
    t.check_indices()
    e = sum(len(body.faces[f]) - 2 for f in body.cells[c])
    four = len(set(sum([body.faces[f] for f in body.cells[c]], []))) == 4
    ctx.equal(int(t.cell_count), 1 if four else e, 'cells')
    u = t.set_cells_per_face()
    ctx.equal(int(np.count_nonzero(u[:, 1] < 0)), e, 'outer-faces', 'faces on the outside of the cell')
    outer = t.external_face_indices()
    pts = t.points_ref()
    nodes = sorted(set(sum([body.faces[f] for f in body.cells[c]], [])))
    ctx.equal(pts[:len(nodes)], local[nodes], 'points')
    if not four:
        ctx.equal(len(pts), len(nodes) + 1, 'one more point')
        ctx.check(all(len(nodes) not in t.node_indices_for_face(f) for f in outer), 'outer-nodes', 'centre not on the outside')
        # handedness of the new faces
        ctx.check(len(t.cell_face_is_right_handed) == 4 * t.cell_count, 'handedness-count', 'per face')
        true = o.to_true(pts) * np.array([o.xyf, o.xyf, o.zf])
        for tc in range(t.cell_count):
            f, h = t.face_indices_and_handedness_for_cell(tc)
            mid = np.mean([true[t.node_indices_for_face(a)].mean(axis = 0) for a in f], axis = 0)
            for a, b in zip(f, h):
                r = true[t.node_indices_for_face(a)]
                ctx.equal(bool(b), bool(np.dot(area_vector(r), r.mean(axis = 0) - mid) > 0.0), 'handedness')
    # stored like any other
    m2, s = again(ctx, m, t, rug.TetraGrid)
    ctx.equal(s.points_ref(), pts, 'stored-points')
    ctx.close(float(s.grid_volume()) * VOL_SI[default], vol, 'stored-volume', rtol = 3.0e-5)


def from_structured(ctx):
    """Hexahedral grids converted from structured ones."""
    import resqpy.grid as grr
    import resqpy.model as rq
    import resqpy.property as rqp
    import resqpy.unstructured as rug
    m = gen.model(ctx, crs = False)
    crs, kw = make_crs(ctx, m, offsets = ctx.flag())
    raw = random_grid(ctx, max_n = (3, 4, 4), faults = False, gaps = False, pinch = ctx.flag(0.2), inactive = ctx.flag(0.4),
                      z_inc_down = kw['z_inc_down'])
    if (np.linalg.det(gen.CrsOracle(kw).axes) < 0.0) != (np.linalg.det(gen.CrsOracle(dict(kw, axis_order = 'easting northing')).axes) < 0.0):
        raw.right_handed = not raw.right_handed
    src = raw.build(m, title = 'source', crs_uuid = crs.uuid)
    src.write_hdf5()
    src.create_xml(write_active = True)
    props = []
    n = int(np.prod(raw.extent))
    for i in range(ctx.integer(0, 3)):
        what = ctx.choice(['cont', 'disc', 'count', 'points', 'const', 'facet'])
        ctx.observe('property ' + what)
        a = ctx.rng.random(tuple(raw.extent))
        p = dict(title = f'p{i}', property_kind = 'length', uom = 'm', indexable_element = 'cells')
        if what == 'disc':
            a = ctx.rng.integers(0, 9, tuple(raw.extent))
            p.update(property_kind = 'index', uom = None, discrete = True, null_value = -1)
        elif what == 'count':
            a = ctx.rng.random(tuple(raw.extent) + (3,))
            p.update(count = 3)
        elif what == 'facet':
            p.update(facet_type = 'direction', facet = 'I', realization = 2, time_index = None)
        if what in ('points', 'const'):
            if what == 'points':
                continue
            a = np.full(tuple(raw.extent), 3.25)
            p.update(const_value = 3.25)
            q = rqp.Property.from_array(m, None, 'made', p.pop('title'), src.uuid, **p)
            p['title'] = f'p{i}'
        else:
            t = p.pop('title')
            q = rqp.Property.from_array(m, a, 'made', t, src.uuid, **p)
            p['title'] = t
        props.append((p, a))
    if ctx.flag(0.3):
        m.store_epc()
        m = rq.Model(m.epc_file)
    inherit = ctx.flag(0.8)
    src = grr.Grid(m, uuid = src.uuid)
    ctx.sig(raw.extent, inherit, [p['property_kind'] for p, _ in props])
    h = rug.HexaGrid.from_unsplit_grid(m, src.uuid, inherit_properties = inherit, title = ctx.choice([None, 'new']))
    m.store_epc()
    m2 = rq.Model(m.epc_file)
    h2 = rug.HexaGrid(m2, uuid = h.uuid)
    cp = raw.to_cp(raw.points) if hasattr(raw, 'to_cp') else src.corner_points()
    cp = np.array(cp).reshape((-1, 2, 2, 2, 3))
    ext = raw.extent
    off = None
    o = gen.CrsOracle(kw)
    for g in (h, h2):
        ctx.equal(int(g.cell_count), n, 'cells')
        ctx.equal(int(g.node_count), int((ext[0] + 1) * (ext[1] + 1) * (ext[2] + 1)), 'nodes')
        g.check_hexahedral()
        g.check_indices()
        use = g.set_cells_per_face()
        inner = (ext[0] - 1) * ext[1] * ext[2] + ext[0] * (ext[1] - 1) * ext[2] + ext[0] * ext[1] * (ext[2] - 1)
        ctx.equal(int(np.count_nonzero(use[:, 1] >= 0)), int(inner), 'shared-faces')
        for c in ctx.subset(list(range(n)), min(n, 12)):
            ctx.equal(g.corner_points(c).reshape((2, 2, 2, 3)), cp[c], 'corner-points')
            f = g.face_indices_for_cell(c)
            k, rest = divmod(c, ext[1] * ext[2])
            j, i = divmod(rest, ext[2])
            for ax, (x, top) in enumerate(((k, ext[0]), (j, ext[1]), (i, ext[2]))):
                for side in (0, 1):
                    face = f[2 * ax + side]
                    e = np.take(cp[c], side, axis = ax).reshape((4, 3))
                    got = g.points_ref()[g.node_indices_for_face(face)]
                    ctx.equal(sorted(map(tuple, got)), sorted(map(tuple, e)), 'face-nodes', f'axis {ax} side {side}')
                    ring = {tuple(e[q]) for q in (0, 3)}
                    if len({tuple(q) for q in e}) == 4:
                        ctx.check({tuple(got[0]), tuple(got[2])} == ring or {tuple(got[1]), tuple(got[3])} == ring, 'face-cycle',
                                  'nodes go around the face')
                    step = (ext[1] * ext[2], ext[2], 1)[ax] * (1 if side else -1)
                    nb = [int(q) for q in use[face] if q >= 0 and q != c]
                    ctx.equal(nb, [c + step] if 0 <= x + (1 if side else -1) < top else [], 'neighbour')
            vol = abs(exact_volumes(cp[c]))
            v = float(g.volume(c, required_uom = 'm3'))
            squeezed = np.any(np.abs(cp[c][1, ..., 2] - cp[c][0, ..., 2]) < 1.0e-6)  # may be inside out
            v = abs(v) if squeezed or raw_pinched(cp[c]) else v
            scale = np.prod(np.ptp(cp[c].reshape((-1, 3)), axis = 0)) * o.xyf**2 * o.zf
            ctx.close(v, vol * o.xyf**2 * o.zf, 'volume', rtol = 2.0e-5, 
                      tol = 1.0e-5 * scale + 1.0e-12 * np.max(np.abs(cp[c]))**3 * o.xyf**2 * o.zf)
            ctx.close(g.cell_centre_point(c), cp[c].reshape((8, 3)).mean(axis = 0), 'centre', rtol = 1.0e-9, tol = 1.0e-9)
            _, right = g.face_indices_and_handedness_for_cell(c)
            true = o.to_true(g.points_ref())
            mid = o.to_true(cp[c].reshape((8, 3))).mean(axis = 0)
            if vol > 1.0e-3 * np.prod(np.ptp(cp[c].reshape((-1, 3)), axis = 0)) and not squeezed and not raw_pinched(cp[c]):
                for face, r in zip(f, right):
                    q = true[g.node_indices_for_face(face)]
                    d = float(np.dot(area_vector(q), q.mean(axis = 0) - mid))
                    if abs(d) > 0.05 * np.linalg.norm(area_vector(q)) * np.linalg.norm(q.mean(axis = 0) - mid):
                        ctx.equal(bool(r), d > 0.0, 'handedness')
    if src.inactive is not None:
        ctx.equal(np.array(h.inactive, dtype = bool), np.array(src.inactive).flatten(), 'inactive')
        if np.any(src.inactive):
            ctx.equal(np.array(h2.inactive, dtype = bool), np.array(src.inactive).flatten(), 'inactive-stored')
    pc = rqp.PropertyCollection(support = h2)
    parts = {pc.citation_title_for_part(p): p for p in pc.parts() if pc.property_kind_for_part(p) != 'active'}
    if not inherit:
        ctx.equal(len(parts), 0, 'not-inherited', sorted(parts))
        return
    ctx.equal(sorted(parts), sorted(p['title'] for p, _ in props), 'inherited', 'titles')
    for p, a in props:
        part = parts[p['title']]
        got = pc.cached_part_array_ref(part)
        e = a.reshape((n, 3) if p.get('count') else (n,))
        ctx.equal(got.shape, e.shape, 'property-shape')
        ctx.close(np.array(got, dtype = float), e.astype(float), 'property', tol = 0.0)
        ctx.equal(pc.property_kind_for_part(part), p['property_kind'], 'property-kind')
        ctx.equal(pc.uom_for_part(part), p['uom'], 'property-uom')
        ctx.equal(pc.facet_for_part(part), p.get('facet'), 'property-facet')
        ctx.equal(pc.realization_for_part(part), p.get('realization'), 'property-realization')
        ctx.equal(bool(pc.continuous_for_part(part)), not p.get('discrete', False), 'property-continuous')
        if p.get('discrete'):
            ctx.equal(pc.null_value_for_part(part), -1, 'property-null')


def raw_pinched(cp):
    """Whether a hexahedron is degenerate or twisted at a corner."""
    v = []
    for a in np.ndindex(2, 2, 2):
        e = [cp[tuple(a[y] ^ (y == x) for y in range(3))] - cp[a] for x in range(3)]
        e = [q * (1 if a[x] == 0 else -1) for x, q in enumerate(e)]
        n = np.prod([np.linalg.norm(q) for q in e])
        v.append(np.linalg.det(e) / n if n > 0.0 else 0.0)
    v = np.array(v)
    return not (np.all(v > 1.0e-4) or np.all(v < -1.0e-4))


def vertical(ctx):
    """Layered prism grids made from surfaces."""
    import resqpy.grid as grr
    import resqpy.model as rq
    import resqpy.surface as rqs
    import resqpy.unstructured as rug
    from scipy.spatial import ConvexHull, Delaunay
    m = gen.model(ctx, crs = False)
    crs, kw = make_crs(ctx, m, offsets = ctx.flag())
    o = gen.CrsOracle(kw)
    nk = ctx.choice([1, 2, 2, 3, 4])
    xy = ctx.rng.uniform(0.0, 1000.0, (ctx.integer(3, 9), 2))
    t = Delaunay(xy).simplices
    if min(abs(np.linalg.det(xy[s][1:] - xy[s][0])) for s in t) < 2.0e4:
        raise Skip('slivers')
    sign = 1.0 if kw['z_inc_down'] else -1.0
    slope = ctx.rng.uniform(-0.1, 0.1, (nk + 1, 2)) * ctx.choice([0.0, 1.0])
    base = 2000.0 + np.cumsum(ctx.rng.uniform(250.0, 400.0, nk + 1))
    plane = lambda k, q: sign * (base[k] + q @ slope[k])
    surfs, style = [], ctx.choice(['same', 'other', 'given', 'plane'])
    z = np.array([plane(k, xy) for k in range(nk + 1)])
    if style == 'same':
        z = z + sign * ctx.rng.uniform(-20.0, 20.0, z.shape)
    tri = t[ctx.rng.permutation(len(t))]
    cols = {}
    for k in range(nk + 1):
        s = rqs.Surface(m, crs_uuid = crs.uuid, title = f's{k}')
        if style == 'same' or (k == 0 and style != 'given'):
            s.set_from_triangles_and_points(tri, np.column_stack((xy, z[k])))
        else:  # planar surfaces over a larger area, with their own triangles
            big = np.array([(-500.0, -600.0), (1700.0, -450.0), (-400.0, 1500.0), (1600.0, 1650.0), (300.0, 350.0)])
            big = big + ctx.rng.uniform(-30.0, 30.0, big.shape)
            s.set_from_triangles_and_points(Delaunay(big).simplices, np.column_stack((big, plane(k, big))))
        surfs.append(s)
    if style == 'given':
        d = ctx.choice([2, 3])
        cols = dict(column_points = np.column_stack((xy, np.zeros(len(xy))))[:, :d].copy(), column_triangles = tri)
    ctx.sig(nk, len(xy), style, kw['z_inc_down'])
    md = gen.metadata(ctx, 0.3) or {}
    v = rug.VerticalPrismGrid.from_surfaces(m, surfs, title = 'v', extra_metadata = md, **cols)
    m2, w = again(ctx, m, v, rug.VerticalPrismGrid)
    ctx.equal(type(grr.any_grid(m2, uuid = v.uuid)).__name__, 'PrismGrid', 'any-grid')
    n, nt = nk * len(tri), len(tri)
    top = np.column_stack((xy, np.zeros(len(xy))))
    q = np.array([np.column_stack((xy, z[k])) for k in range(nk + 1)])
    e_cp = np.stack((q[:-1][:, tri], q[1:][:, tri]), axis = 2).reshape((n, 2, 3, 3))
    tol = 1.0e-6 * 5000.0
    areas = np.array([0.5 * abs(np.linalg.det(xy[s][1:] - xy[s][0])) for s in tri])
    edges = {tuple(sorted((int(s[a - 1]), int(s[a])))) for s in tri for a in range(3)}
    for g in (v, w):
        ops = ['cp', 'cp1', 'thick', 'thick1', 'centre', 'centre1', 'centres', 'columns', 'faces', 'volume']
        ctx.rng.shuffle(ops)
        for op in ops:
            ctx.observe(op)
            c = ctx.integer(0, n - 1)
            if op == 'cp':
                ctx.close(g.corner_points(), e_cp, 'corner-points', tol = tol)
            elif op == 'cp1':
                ctx.close(g.corner_points(c), e_cp[c], 'corner-points-one', tol = tol)
            elif op == 'thick':
                ctx.close(g.thickness(), (e_cp[:, 1, :, 2] - e_cp[:, 0, :, 2]).mean(axis = 1), 'thickness', tol = 2.0 * tol)
            elif op == 'thick1':
                ctx.close(g.thickness(c), (e_cp[c, 1, :, 2] - e_cp[c, 0, :, 2]).mean(), 'thickness-one', tol = 2.0 * tol)
            elif op == 'centre':
                ctx.close(g.cell_centre_point(c), e_cp[c].reshape((6, 3)).mean(axis = 0), 'centre', tol = tol)
            elif op == 'centre1':
                ctx.close(g.centre_point(c), e_cp[c].reshape((6, 3)).mean(axis = 0), 'centre-point', tol = tol)
            elif op == 'centres':
                e = e_cp.reshape((n, 6, 3)).mean(axis = 1)
                ctx.close(g.cell_centre_point() if ctx.flag() else g.centre_point(), e, 'centres', tol = tol)
            elif op == 'columns':
                ctx.equal(int(g.nk), nk, 'layers')
                ctx.equal(int(g.column_count()), nt, 'columns')
                ctx.equal(np.array(g.triangulation()), np.array(tri), 'triangulation')
                tf = g.top_faces()
                ctx.equal(np.array([g.node_indices_for_face(f) for f in tf]), np.array(tri), 'top-faces')
            elif op == 'faces':
                ctx.equal((int(g.cell_count), int(g.face_count), int(g.node_count)),
                          (n, nt * (nk + 1) + len(edges) * nk, len(xy) * (nk + 1)), 'counts')
                g.check_prism()
                g.check_indices()
                use = g.set_cells_per_face()
                f = g.face_indices_for_cell(c)
                ctx.equal([int(g.node_count_for_face(a)) for a in f], [3, 3, 4, 4, 4], 'face-sizes')
                for a in f[2:]:
                    r = g.points_ref()[g.node_indices_for_face(a)]
                    ctx.close(r[[0, 1], :2], r[[3, 2], :2], 'vertical-faces', tol = tol)
                nb = sorted(int(x) for x in use[f].flatten() if x >= 0 and x != c)
                k, col = divmod(c, nt)
                e = [c + nt] * (k < nk - 1) + [c - nt] * (k > 0)
                e += [k * nt + oc for oc in range(nt) if oc != col and len(set(tri[oc]) & set(tri[col])) == 2]
                ctx.equal(nb, sorted(e), 'neighbours')
            else:
                h = np.abs(e_cp[c, 1, :, 2] - e_cp[c, 0, :, 2]).mean()
                same = kw['xy_units'] == kw['z_units']
                default = {'m': 'm3', 'ft': 'ft3'}.get(kw['xy_units'], 'm3') if same else 'm3'
                if kw['xy_units'] in ('m', 'ft') and kw['z_units'] in ('m', 'ft'):  # similar scales
                    ctx.close(float(g.volume(c)) * VOL_SI[default], areas[c % nt] * h * o.xyf**2 * o.zf, 'volume', rtol = 5.0e-5)
    ctx.equal(str(w.crs_uuid), str(crs.uuid), 'crs')
    ctx.equal(w.points_ref(), v.points_ref(), 'stored-points')
    e = dict(md, **{'layer count': str(nk)})
    ctx.equal({k: x for k, x in w.extra_metadata.items() if k in e}, {str(k): str(x) for k, x in e.items()}, 'metadata')


def seeds(ctx):
    """Prism grids made from seed points fill the area of interest."""
    import resqpy.lines as rql
    import resqpy.surface as rqs
    import resqpy.unstructured as rug
    m = gen.model(ctx, crs = False)
    crs, kw = make_crs(ctx, m, offsets = False, axis_order = 'easting northing', z_units = 'm', xy_units = 'm')
    nk = ctx.integer(1, 3)
    grid = np.stack(np.meshgrid(np.arange(4), np.arange(4)), axis = -1).reshape((-1, 2))
    pts = (grid + ctx.rng.uniform(0.25, 0.75, grid.shape)) * 100.0
    pts = pts[ctx.rng.permutation(16)]
    aoi = np.array([(-60.0, -70.0), (-55.0, 470.0), (480.0, 460.0), (465.0, -50.0)]) + ctx.rng.uniform(-10.0, 10.0, (4, 2))
    line = rql.Polyline(m, is_closed = True, set_coord = aoi, set_crs = crs.uuid, title = 'aoi')
    sign = 1.0 if kw['z_inc_down'] else -1.0
    surfs = []
    zs = 1000.0 + 60.0 * np.arange(nk + 1)
    for k in range(nk + 1):
        s = rqs.Surface(m, crs_uuid = crs.uuid, title = f's{k}')
        s.set_to_horizontal_plane(sign * zs[k], np.array([(-200.0, -200.0, 0.0), (700.0, 700.0, 0.0)]))
        surfs.append(s)
    try:
        v = rug.VerticalPrismGrid.from_seed_points_and_surfaces(m, pts if ctx.flag() else np.column_stack((pts, np.zeros(16))), surfs, line,
                                                                title = 'v')
    except AssertionError:
        raise Skip('voronoi construction refused')
    n = v.cell_count // nk
    cp = v.corner_points()
    used = ~np.any(np.isnan(cp), axis = (1, 2, 3))
    ctx.check(np.all(used), 'defined', 'corner points of cells')
    a = np.array([0.5 * abs(np.linalg.det(c[0, 1:, :2] - c[0, 0, :2])) for c in cp])
    x, y = aoi[:, 0], aoi[:, 1]
    total = 0.5 * abs(np.sum(x * np.roll(y, -1) - np.roll(x, -1) * y))
    ctx.sig(nk, n)
    ctx.observe('columns', n)
    ctx.close(a[:n].sum(), total, 'area', rtol = 1.0e-6)
    ctx.close(np.abs(v.thickness()), np.full(v.cell_count, 60.0), 'thickness', tol = 1.0e-6)
    # every seed is a corner of the columns around it
    tops = cp[:n, 0, :, :2].reshape((-1, 2))
    for s in pts:
        ctx.check(np.min(np.linalg.norm(tops - s, axis = 1)) < 1.0e-6, 'seed-corner', 'seed at a corner')


def bare(ctx):
    """Grids without geometry."""
    import resqpy.model as rq
    import resqpy.property as rqp
    import resqpy.unstructured as rug
    m = gen.model(ctx)
    n = ctx.integer(1, 50)
    g = rug.UnstructuredGrid(m, title = 'bare', geometry_required = False, extra_metadata = gen.metadata(ctx, 0.3) or {})
    g.set_cell_count(n)
    md = dict(g.extra_metadata)
    g.create_xml(write_geometry = False, write_active = False)
    a = ctx.rng.random(n)
    rqp.Property.from_array(m, a, 'made', 'p', g.uuid, property_kind = 'length', uom = 'm', indexable_element = 'cells')
    m.store_epc()
    h = rug.UnstructuredGrid(rq.Model(m.epc_file), uuid = g.uuid, geometry_required = False)
    ctx.sig(n)
    ctx.equal(int(h.cell_count), n, 'cells')
    ctx.check(h.cell_shape is None and h.points_cached is None and h.geometry_root is None, 'geometry', 'none')
    ctx.equal(h.extract_property_collection().single_array_ref(citation_title = 'p'), a, 'property')
    ctx.equal({k: h.extra_metadata.get(k) for k in md}, md, 'metadata')
    ctx.equal(int(h.active_cell_count()), n, 'active')


SCENARIOS = [
    Scenario(topology, 90),
    Scenario(measures, 120),
    Scenario(cell_as_tetra, 60),
    Scenario(from_structured, 40),
    Scenario(vertical, 50),
    Scenario(seeds, 12),
    Scenario(bare, 10),
]
