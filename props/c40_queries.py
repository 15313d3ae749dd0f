"""C40: queries leave their arguments and objects unchanged."""

import types
import uuid as pyuuid

import numpy as np

from props.spec import spec
from rv import gen, gridgen, poke
from rv.core import Scenario
from rv.objects import Builder

PROP = spec('C40')


def digest(v, depth = 0):
    """Stable account of any answer; objects of the library by class only, as new ones have new identities."""
    if isinstance(v, (bool, int)):
        return ('int', int(v))
    if v is None or isinstance(v, (str, bytes)):
        return (type(v).__name__, v)
    if isinstance(v, (float, np.floating)):
        return ('float', (), 'float', np.array(float(v)))
    if isinstance(v, (np.integer, np.bool_)):
        return ('int', int(v))
    if isinstance(v, np.ma.MaskedArray):
        return ('masked', digest(v.filled(0), depth), digest(np.ma.getmaskarray(v), depth))
    if isinstance(v, np.ndarray):
        if v.dtype == object:
            return ('objects', v.shape, tuple(digest(x, depth + 1) for x in v.flat))
        return ('array', v.shape, str(v.dtype), v.copy())
    if isinstance(v, pyuuid.UUID):
        return ('uuid', str(v))
    if isinstance(v, dict):
        return ('dict', tuple((k, digest(v[x], depth + 1)) for k, x in sorted((str(x), x) for x in v)))
    if isinstance(v, (set, frozenset)):
        return ('set', tuple(sorted(repr(digest(x, depth + 1)) for x in v)))
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, tuple(digest(x, depth + 1) for x in v))
    if isinstance(v, types.GeneratorType) or hasattr(v, '__next__'):
        return ('iterator', tuple(digest(x, depth + 1) for x in v))
    if hasattr(v, 'tag') and hasattr(v, 'attrib'):
        return ('node', str(v.tag), v.attrib.get('uuid'))
    if type(v).__module__.startswith('pandas'):
        return ('pandas', str(v.shape), v.to_csv() if hasattr(v, 'to_csv') else '')
    return ('object', type(v).__name__)


def same(a, b, tol = 1.0e-9):
    if type(a) is not type(b):
        return False
    if isinstance(a, tuple):
        if a and a[0] in ('array', 'float') and b and b[0] == a[0]:
            x, y = a[3], b[3]
            if a[:3] != b[:3]:
                return False
            if x.dtype.kind not in 'fc':
                return bool(np.array_equal(x, y))
            with np.errstate(all = 'ignore'):
                ok = (x == y) | (np.isnan(x) & np.isnan(y))
                scale = np.nanmax(np.abs(np.where(np.isfinite(x), x, 0.0))) if x.size else 0.0
                return bool(np.all(ok | (np.abs(x - y) <= tol * (1.0 + scale))))
        return len(a) == len(b) and all(same(p, q, tol) for p, q in zip(a, b))
    return a == b


def ask(f, *a, **k):
    try:
        return digest(f(*a, **k))
    except Exception as e:
        return ('raised', type(e).__name__)


# objects

# keep a note of the first answer by design, depend on what has been cached so far, make something or show progress
NOT_ASKED = {'number_of_imports', 'iter_grid_connection_sets', 'iter_trajectories', 'as_graph', 'grid', 'grid_list_uuid_list', 'combined_tr_mult_properties_from_gcs_mults',
             'rework_face_pairs', 'xyz_box', 'xyz_box_centre', 'clean_feature_list', 'compact_indices'}


def with_arguments(ctx, o):
    """Queries needing arguments: list of (label, function of object)."""
    import resqpy.grid as grr
    import resqpy.surface as rqs
    import resqpy.well as rqw
    import resqpy.lines as rql
    import resqpy.property as rqp
    import resqpy.unstructured as rug
    import resqpy.crs as rqc
    out = []

    def add(name, *a, **k):
        out.append((name + repr(k) if k else name, name, a, k))

    if isinstance(o, grr.Grid):
        nk, nj, ni = o.extent_kji
        c = (ctx.integer(0, nk - 1), ctx.integer(0, nj - 1), ctx.integer(0, ni - 1))
        cells = np.stack([ctx.rng.integers(0, n, 4) for n in (nk, nj, ni)], axis = -1)
        xyz = ctx.rng.normal(0.0, 100.0, (5, 3))
        for n in ('corner_points', 'centre_point', 'volume', 'thickness', 'pinched_out', 'interface_vectors_kji', 'interface_lengths_kji', 'face_centres_kji_01', 'poly_line_for_cell',
                  'bounding_box', 'cell_inactive', 'natural_cell_index'):
            add(n, c)
        add('corner_points', np.array(c))
        add('corner_points', c, cache_cp_array = True)
        add('corner_points', cache_cp_array = True)
        add('centre_point', cache_centre_array = True)
        add('thickness', cache_thickness_array = True)
        add('volume', cache_volume_array = True)
        add('centre_point_list', cells)
        add('natural_cell_indices', cells)
        add('denaturalized_cell_index', 0)
        add('denaturalized_cell_indices', ctx.rng.integers(0, nk * nj * ni, 5))
        add('interpolated_point', c, (0.25, 0.5, 0.75))
        add('interpolated_points', c, (ctx.rng.random(3), ctx.rng.random(2), ctx.rng.random(2)))
        add('horizon_points', ref_k0 = ctx.integer(0, nk - 1), heal_faults = ctx.flag(), kp = ctx.integer(0, 1))
        add('split_horizon_points', ref_k0 = ctx.integer(0, nk - 1), masked = ctx.flag(), kp = ctx.integer(0, 1))
        add('split_horizons_points', masked = ctx.flag())
        add('x_section_points', ctx.choice(['I', 'J']))
        add('split_x_section_points', ctx.choice(['I', 'J']))
        add('x_section_corner_points', ctx.choice(['I', 'J']))
        add('x_section_corner_points', 'J', rotate = True)
        add('xyz_box', lazy = False, local = ctx.flag())
        add('xyz_box_centre', lazy = False, local = ctx.flag())
        add('composite_bounding_box', [np.sort(ctx.rng.normal(size = (2, 3)), axis = 0) for _ in range(3)])
        add('points_ref', masked = ctx.flag())
        add('unsplit_points_ref', masked = ctx.flag())
        add('pillar_distances_sqr', xyz[0, :2])
        add('nearest_pillar', xyz[0, :2])
        add('nearest_rod', xyz[0], 'xy', 'J')
        add('find_cell_for_point_xy', float(xyz[0, 0]), float(xyz[0, 1]))
        add('pillar_foursome', c[1:])
        add('column_is_inactive', c[1:])
        add('face_centre', c, 0, 1)
        add('interface_length', c, 2)
        add('interface_vector', c, 1)
        add('is_split_column_face', 0, 0, 'I', 1)
        add('skin', use_single_layer_tactics = ctx.flag())
        add('z_corner_point_depths', ctx.choice(['cellular', 'linear']))
        add('cell_geometry_is_defined', c)
        add('pillar_geometry_is_defined', c[1:])
    elif isinstance(o, rqs.Surface):
        p = o.triangles_and_points()[1]
        lo, hi = p.min(axis = 0), p.max(axis = 0)
        q = lo + (hi - lo) * ctx.rng.random((6, 3))
        add('sample_z_at_xy_points', q, multiple_handling = ctx.choice(['any', 'minimum', 'maximum', 'all']))
        add('sample_z_at_xy_points', q[:, :2].copy())
        add('line_intersection', q[0], np.array([0.0, 0.0, 1.0]))
        add('triangles_and_points', patch = 0)
        add('triangles_and_points', copy = True)
        add('edge_lengths', required_uom = ctx.choice(['m', 'ft']))
        add('axial_edge_crossings', ctx.integer(0, 2), float(q[0, 0]))
        add('axial_edge_crossings', 'z', float(q[0, 2]))
        add('distinct_edges', patch = 0)
        add('triangle_count', patch = 0)
        add('unit_adjusted_points')
        add('normal_vectors')
        add('resampled_surface', title = 'r')
    elif isinstance(o, rqs.TriMesh):
        p = o.full_array_ref().reshape((-1, 3))
        q = p.min(axis = 0) + (p.max(axis = 0) - p.min(axis = 0)) * ctx.rng.random((5, 3))
        for n in ('tji_for_xy_array', 'tji_tc_for_xy_array', 'ji_and_weights_for_xy_array', 'interpolated_z_array'):
            add(n, q[:, :2].copy())
        for n in ('tji_for_xy', 'tji_tc_for_xy', 'ji_and_weights_for_xy', 'interpolated_z'):
            add(n, q[0, :2].copy())
        add('axial_edge_crossings', 'z', float(q[0, 2]))
        add('tri_nodes_for_tji', (0, 0))
        add('edge_zero_crossings', ctx.rng.normal(size = (o.nj, o.ni)))
        add('edge_zero_crossings')
    elif isinstance(o, rqs.Mesh):
        add('surface', quad_triangles = True)
    elif isinstance(o, rqs.PointSet):
        add('single_patch_array_ref', 0)
        add('minimum_xy_area_rectangle', delta_theta = 5.0)
    elif isinstance(o, rql.Polyline):
        c = o.coordinates
        lo, hi = c.min(axis = 0), c.max(axis = 0)
        q = lo - 1.0 + (hi - lo + 2.0) * ctx.rng.random((5, 3))
        add('point_is_inside_xy', q[0], mode = ctx.choice(['crossing', 'winding']))
        add('points_are_inside_xy', q)
        for n in ('segment_length', 'segment_midpoint', 'segment_normal'):
            add(n, 0)
        add('full_length', in_xy = True)
        add('interpolated_point', 0.3, in_xy = ctx.flag())
        add('equidistant_points', 5, in_xy = ctx.flag())
        for mode in ('weighted', 'sampled'):
            add('balanced_centre', mode = mode, in_xy = ctx.flag(), cache = False)
        add('first_line_intersection', *q[:2, :2].flatten())
        add('closest_segment_and_distance_to_point_xy', q[0])
        add('point_snapped_to_segment_xy', 0, q[0])
        add('segment_xyz_from_xy', 0, float(q[0, 0]), float(q[0, 1]))
        add('normalised_xy', 0.2, 0.4, mode = 'square')
        add('splined', min_subdivisions = 2)
        add('tangent_vectors')
        add('is_convex', trust_metadata = False)
        add('area')
    elif isinstance(o, rql.PolylineSet):
        q = ctx.rng.normal(size = 3)
        add('poly_index_containing_point_in_xy', q)
    elif isinstance(o, rqw.Trajectory):
        for _ in range(2):
            add('xyz_for_md', ctx.uniform(float(o.measured_depths[0]), float(o.measured_depths[-1])))
        add('splined_trajectory', 'well', min_subdivisions = 2)
    elif isinstance(o, rqw.BlockedWell):
        md = ctx.uniform(float(o.node_mds[0]), float(o.node_mds[-1])) if o.node_mds is not None else 0.0
        add('wb_cell_for_md', md)
        add('interval_for_cell', 0)
        add('entry_and_exit_mds', 0)
        add('dataframe', extra_columns_list = ['X', 'Y', 'DEPTH'])
        add('box')
    elif isinstance(o, rqp.Property):
        add('array_ref', masked = ctx.flag())
    elif isinstance(o, rug.UnstructuredGrid):
        c, f = ctx.integer(0, o.cell_count - 1), ctx.integer(0, o.face_count - 1)
        for n in ('face_count_for_cell', 'distinct_node_indices_for_cell', 'face_indices_for_cell', 'face_indices_and_handedness_for_cell', 'distinct_edges_for_cell',
                  'cell_face_centre_points', 'cell_centre_point', 'centre_point', 'volume'):
            add(n, c)
        for n in ('face_centre_point', 'node_count_for_face', 'node_indices_for_face', 'edges_for_face', 'face_normal', 'planar_face_points', 'face_triangulation', 'area_of_face',
                  'edges_for_face_with_node_indices_ordered_within_pairs'):
            add(n, f)
        add('planar_face_points', f, xy_plane = True)
        mask = ctx.rng.random(o.cell_count) < 0.4
        for n in ('masked_cells_per_face', 'external_face_indices_for_masked_cells', 'internal_face_indices_for_masked_cells'):
            add(n, mask)
    elif isinstance(o, rqc.Crs):
        others = [u for u in o.model.uuids(obj_type = 'LocalDepth3dCrs')]
        if others:
            other = rqc.Crs(o.model, uuid = ctx.choice(others))
            add('convert_to', other, (1.0, 2.0, 3.0))
            add('convert_to', other, np.array((1.0, 2.0, 3.0)))
            add('convert_from', other, np.array((1.0, 2.0, 3.0)))
            add('is_equivalent', other)
            add('has_same_epsg_code', other)
        add('global_to_local', (1.0, 2.0, 3.0))
        add('local_to_global', np.array((1.0, 2.0, 3.0)))
    return out


def calls(ctx, o):
    out = [(n, n, (), {}) for n in poke.queries(o, NOT_ASKED)]
    try:
        out += [x for x in with_arguments(ctx, o) if hasattr(o, x[1])]
    except Exception:
        ctx.observe('no arguments')
    return out


def kept_parts(m):
    """Parts apart from organising objects, which some questions about faults need to have."""
    return sorted(p for p in m.parts() if not p.split('_')[1].endswith(('Feature', 'Interpretation')))


def sequence(ctx, fresh, what, m):
    """Any sequence of queries gives the answers that a fresh object gives."""
    cs = calls(ctx, fresh())
    if not cs:
        return
    n = min(len(cs), ctx.integer(3, 12))
    chosen = [cs[int(i)] for i in ctx.rng.permutation(len(cs))[:n]]
    parts = kept_parts(m)
    base = {}
    for i, (label, name, a, k) in enumerate(chosen):
        before = digest([list(a), k])
        base[i] = ask(getattr(fresh(), name), *a, **k)
        ctx.check(same(digest([list(a), k]), before, 0.0), 'argument-changed', kind = what, query = label)
    o = fresh()
    trail = []
    for _ in range(ctx.integer(n, 2 * n)):
        i = ctx.integer(0, n - 1)
        label, name, a, k = chosen[i]
        before = digest([list(a), k])
        got = ask(getattr(o, name), *a, **k)
        ctx.check(same(digest([list(a), k]), before, 0.0), 'argument-changed', kind = what, query = label)
        trail.append(label)
        if base[i] == ('raised', 'AssertionError'):
            continue  # refused: no answer promised
        ctx.check(same(got, base[i]), 'answer-changed', kind = what, query = label, after = trail[-8:], got = got, first = base[i])
        ctx.observe('answers')
        if got[0] == 'raised':
            ctx.observe('no answer')
    ctx.equal(kept_parts(m), parts, 'parts-changed', 'parts after queries', kind = what, queries = sorted(set(trail)))
    return n


def stored_objects(ctx):
    import resqpy.model as rq
    m = gen.model(ctx)
    b = Builder(ctx, m)
    it = None
    while it is None:
        it = b.add(None if ctx.flag(0.3) else ctx.choice(['grid', 'regular', 'surface', 'polyline', 'polyset', 'trajectory', 'blocked', 'frame', 'markers', 'survey', 'mesh', 'trimesh',
                                                          'points', 'hexa', 'tetra', 'prism', 'vertical', 'pyramid', 'gcs', 'property', 'catproperty', 'crs', 'series']))
    if ctx.flag(0.3):
        b.add('property')
    if it.kind == 'crs':
        b.add('crs')
    m.store_epc()
    m.h5_release()
    m = rq.Model(m.epc_file)
    n = sequence(ctx, lambda: it.load(m, it.uuid), it.kind, m)
    ctx.sig(it.kind, n, ctx.index)


def faulted_grids(ctx):
    """Irregular grids, with faults, gaps, inactive cells and properties."""
    import resqpy.grid as grr
    import resqpy.model as rq
    m = gen.model(ctx)
    r = gridgen.random_grid(ctx, max_n = (4, 4, 4), min_n = (1, 1, 1))
    u = r.persist(m)
    m.store_epc()
    m = rq.Model(m.epc_file)
    n = sequence(ctx, lambda: grr.any_grid(m, uuid = u), 'grid', m)
    ctx.sig(r.to_cp().shape, n, ctx.index)


def model_queries(ctx):
    """Catalogue queries, in any order."""
    import resqpy.model as rq
    m = gen.model(ctx)
    b = Builder(ctx, m)
    for _ in range(ctx.integer(1, 6)):
        b.add(None)
    m.store_epc()
    path = m.epc_file
    n = sequence(ctx, lambda: rq.Model(path), 'model', rq.Model(path))
    ctx.sig(n, tuple(i.kind for i in b.items))


# functions

def table(ctx):
    """Functions of arrays: (module, name, arguments)."""
    r = ctx.rng
    n = ctx.integer(3, 9)
    P = lambda *s: r.normal(0.0, 10.0, s)
    v3 = lambda: P(3)
    poly = lambda: (lambda t: np.stack((10.0 * np.cos(t), 10.0 * np.sin(t)), axis = -1))(np.sort(r.uniform(0, 6.28, n + 2)))
    poly3 = lambda: np.concatenate((poly(), P(n + 2, 1)), axis = 1)
    tri = lambda: P(3, 3)
    t = np.stack([r.permutation(n)[:3] for _ in range(4)])
    pts = P(n, 3)
    box = np.stack((np.zeros(3, dtype = int), r.integers(0, 3, 3)))
    box2 = np.stack((np.zeros(3, dtype = int), r.integers(0, 4, 3))) + r.integers(0, 2)
    hull = poly3()
    cloud = P(n + 4, 2)
    vec = 'resqpy.olio.vector_utilities'
    inter = 'resqpy.olio.intersection'
    tr = 'resqpy.olio.triangulation'
    pip = 'resqpy.olio.point_inclusion'
    bx = 'resqpy.olio.box_utilities'
    wam = 'resqpy.weights_and_measures'
    rm = np.linalg.qr(P(3, 3))[0]
    cp = gridgen_cp(ctx)
    out = [(vec, f, (v3(),)) for f in ('unit_vector', 'azimuth', 'inclination', 'naive_length', 'naive_2d_length', 'rotation_matrix_3d_vector', 'rotation_3d_matrix',
                                       'reverse_rotation_3d_matrix', 'unit_vector_njit', 'rotation_matrix_3d_vector_njit', 'rotation_3d_matrix_njit')]
    out += [(vec, f, (v3(), v3())) for f in ('add', 'subtract', 'elemental_multiply', 'dot_product', 'cross_product', 'manhattan_distance', 'isclose', 'radians_difference')]
    out += [(vec, f, (P(n, 3),)) for f in ('unit_vectors', 'nan_unit_vectors', 'azimuths', 'inclinations', 'nan_inclinations', 'naive_lengths', 'naive_2d_lengths')]
    out += [
        (vec, 'dot_products', (P(n, 3), P(n, 3))), (vec, 'points_direction_vector', (P(n, 4, 3), 0)), (vec, 'unit_corrected_length', (v3(), 0.3)),
        (vec, 'rotate_vector', (rm, v3())), (vec, 'rotate_array', (rm, P(n, 3))), (vec, 'rotate_array_njit', (rm, P(n, 3))),
        (vec, 'rotate_xyz_array_around_z_axis', (P(n, 3), P(2))), (vec, 'perspective_vector', (np.array([[0.0, 0, 0], [10, 10, 10]]), 2, 30.0, v3())),
        (vec, 'determinant', (v3(), v3(), v3())), (vec, 'determinant_3x3', (rm,)), (vec, 'clockwise', (v3(), v3(), v3())), (vec, 'clockwise_triangles', (pts, t)),
        (vec, 'in_triangle', (v3(), v3(), v3(), v3())), (vec, 'in_triangle_edged', (v3(), v3(), v3(), v3())), (vec, 'points_in_triangles', (P(4, 2), np.arange(3).reshape((1, 3)), P(5, 2))),
        (vec, 'triangle_normal_vector', (tri(),)), (vec, 'triangle_normal_vector_numba', (tri(),)), (vec, 'in_circumcircle', (P(2), P(2), P(2), P(2))),
        (vec, 'point_distance_to_line_2d', (P(2), P(2), P(2))), (vec, 'point_distance_to_line_segment_2d', (P(2), P(2), P(2))), (vec, 'is_obtuse_2d', (P(2), P(2), P(2))),
        (vec, 'point_distance_sqr_to_points_projected', (v3(), P(n, 3), 'xy')), (vec, 'nearest_point_projected', (v3(), P(n, 3), 'xz')),
        (vec, 'area_of_triangle', (v3(), v3(), v3())), (vec, 'area_of_triangles', (pts, t, False)), (vec, 'area_of_triangles', (pts, t, True)),
        (vec, 'clockwise_sorted_indices', (pts, list(range(n)))), (vec, 'xy_sorted', (P(n, 3),)), (vec, 'xy_sorted_njit', (P(n, 3),)),
        (vec, 'points_in_triangles_aligned_optimised', (6, 5, 2.0, 3.0, np.abs(P(4, 3, 3)))), (vec, 'points_in_triangles_aligned_unified', (6, 5, 0, 1, 2, np.abs(P(4, 3, 3)))),
        (vec, 'triangle_box', (tri(),)), (vec, 'vertical_intercept', (0.5, np.array([0.0, 1.0]), np.array([3.0, 9.0]))),
        (inter, 'line_plane_intersect', (v3(), v3(), tri())), (inter, 'line_triangle_intersect', (v3(), v3(), tri())), (inter, 'line_triangles_intersects', (v3(), v3(), P(n, 3, 3))),
        (inter, 'line_set_triangles_intersects', (P(2, 3), P(2, 3), P(n, 3, 3))), (inter, 'poly_line_triangles_intersects', (P(4, 3), P(n, 3, 3))),
        (inter, 'poly_line_triangles_first_intersect', (P(4, 3), P(n, 3, 3))), (inter, 'point_projected_to_line_2d', (P(2), P(2), P(2))),
        (inter, 'point_snapped_to_line_segment_2d', (P(2), P(2), P(2))), (inter, 'distilled_intersects', (np.where(r.random((3, 4, 1)) < 0.5, np.nan, P(3, 4, 3)),)),
        (inter, 'last_intersects', (np.where(r.random((3, 4, 1)) < 0.5, np.nan, P(3, 4, 3)),)),
        (inter, 'intersects_indices', (np.where(r.random((4, 1)) < 0.5, np.nan, P(4, 3)),)),
        (tr, 'dt', (cloud,)), (tr, 'dt', (np.concatenate((cloud, P(len(cloud), 1)), axis = 1),)), (tr, 'ccc', (P(2), P(2), P(2))), (tr, 'reorient', (P(n + 3, 3) * [1.0, 1.0, 0.05],)),
        (tr, 'reorient', (P(n + 3, 3), False)), (tr, 'surrounding_xy_ring', (P(n, 3),)), (tr, 'edges', (t,)), (tr, 'triangles_using_point', (t, 1)),
        (tr, 'triangles_using_edge', (t, 0, 1)), (tr, 'triangles_using_edges', (t, np.array([[0, 1], [1, 2]]))), (tr, 'triangulated_polygons', (hull, [np.arange(len(hull))])),
        (pip, 'pip_cn', (P(2), poly())), (pip, 'pip_wn', (P(2), poly())), (pip, 'pip_array_cn', (P(n, 2), poly())), (pip, 'scan', (np.array([-12.0, -12.0]), 5, 6, 4.0, 4.0, poly())),
        (bx, 'extent_of_box', (box,)), (bx, 'volume_of_box', (box,)), (bx, 'central_cell', (box,)), (bx, 'union', (box, box2)), (bx, 'boxes_overlap', (box, box2)),
        (bx, 'overlapping_boxes', (box, box2, None)), (bx, 'cell_in_box', ((0, 1, 0), box)), (bx, 'valid_box', (box, (4, 4, 4))), (bx, 'string_iijjkk1_for_box_kji0', (box,)),
        (bx, 'parent_cell_from_local_box_cell', (box, (0, 0, 0))), (bx, 'local_box_cell_from_parent_cell', (box, (0, 0, 0))), (bx, 'full_extent_box0', ((3, 4, 5),)),
        ('resqpy.olio.volume', 'tetra_cell_volume', (cp[0, 0, 0],)), ('resqpy.olio.volume', 'tetra_volumes', (cp,)), ('resqpy.olio.volume', 'tetrahedron_volume', (v3(), v3(), v3(), v3())),
        ('resqpy.olio.volume', 'tetra_volumes_slow', (cp,)),
        ('resqpy.olio.volume', 'pyramid_volume', (v3(), v3(), v3(), v3(), v3())),
        ('resqpy.olio.grid_functions', 'actual_pillar_shape', (P(4, n, 3),)), ('resqpy.olio.grid_functions', 'determine_corp_extent', (cp.reshape((-1, 2, 2, 2, 3)),)),
        ('resqpy.olio.grid_functions', 'triangles_for_cell_faces', (cp[0, 0, 0],)),
        ('resqpy.olio.factors', 'factorize', (60,)), ('resqpy.olio.factors', 'combinatorial', ([2, 3, 5],)), ('resqpy.olio.factors', 'all_factors_from_primes', ([2, 2, 3],)),
        (wam, 'convert', (P(n), 'm', 'ft')), (wam, 'convert', (P(2, 3), 'degF', 'degC')), (wam, 'rq_uom_list', (['M', 'feet', 'bars'],)),
        ('resqpy.lines', 'tangents', (P(n, 3),)), ('resqpy.lines', 'spline', (P(n, 3),)), ('resqpy.lines', 'spline', (P(n, 3), P(n, 3))),
        ('resqpy.surface', 'distill_triangle_points', (t, pts)), ('resqpy.surface', 'nan_removed_triangles_and_points', (t, np.where(r.random((n, 1)) < 0.3, np.nan, pts))),
        ('resqpy.crs', 'switch_axes', ('easting northing', 'northing easting', 1.0, 2.0)),
        ('resqpy.property', 'reformat_column_edges_to_resqml_format', (P(2, 3, 2, 2),)), ('resqpy.property', 'reformat_column_edges_from_resqml_format', (P(2, 3, 4),)),
        ('resqpy.property', 'guess_uom', ('length', 0.0, 5.0, None)),
    ]
    return out


def gridgen_cp(ctx):
    return gridgen.random_grid(ctx, max_n = (2, 3, 3), min_n = (1, 1, 1), gaps = False, inactive = False).to_cp().astype(float)


def functions(ctx):
    """Arguments of functions on arrays are left as they were and the same question has the same answer."""
    import copy
    import importlib
    tab = table(ctx)
    names = []
    for i in ctx.rng.permutation(len(tab))[:ctx.integer(10, 30)]:
        mod, name, args = tab[int(i)]
        f = getattr(importlib.import_module(mod), name)
        args = copy.deepcopy(args)
        before = digest(list(args))
        try:
            r = f(*args)
        except Exception as e:
            ctx.observe('no answer')
            ctx.check(same(digest(list(args)), before, 0.0), 'argument-changed', function = name)
            ctx.log(name, repr(e)[:200])
            continue
        one = digest(r)
        ctx.check(same(digest(list(args)), before, 0.0), 'argument-changed', function = name)
        two = ask(f, *args)
        ctx.check(same(one, two), 'answer-changed', function = name, first = one, second = two)
        ctx.check(same(digest(list(args)), before, 0.0), 'argument-changed', function = name)
        # what is done to an answer does not change the arguments
        if name not in ALIAS:
            for a in arrays_in(r):
                if a.dtype.kind in 'fi' and a.size and a.flags.writeable:
                    a += 1
            ctx.check(same(digest(list(args)), before, 0.0), 'answer-is-argument', function = name)
        names.append(name)
    ctx.sig(tuple(sorted(names)))


# returning one of the arguments is natural
ALIAS = {'point_snapped_to_line_segment_2d', 'nan_removed_triangles_and_points', 'overlapping_boxes', 'union'}


def arrays_in(v):
    if isinstance(v, np.ndarray):
        return [v]
    if isinstance(v, (list, tuple)):
        return [x for y in v for x in arrays_in(y)]
    return []


SCENARIOS = [
    Scenario(stored_objects, 400),
    Scenario(faulted_grids, 200),
    Scenario(model_queries, 60),
    Scenario(functions, 200),
]
