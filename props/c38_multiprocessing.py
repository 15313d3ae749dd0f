"""C38: batch work over processes gives the same result as serial work."""

import json
import os
import sys
import time

import numpy as np

from props.spec import spec
from props import c28_find_faces as c28
from props import c33_blocked_wells as c33
from rv import files, gen
from rv.core import Scenario, Skip, Violation

PROP = spec('C38')


def distinct_uuids():
    """Uuids come from a counter while checking (so that cases can be repeated): each new process needs a range of its own."""
    import resqpy.olio.uuid as bu
    if bu.test_mode:
        bu.test_latest_int = (bu.test_latest_int + (os.getpid() << 70)) % (1 << 126)


os.register_at_fork(after_in_child = lambda: 'resqpy.olio.uuid' in sys.modules and distinct_uuids())


def register(n):
    """Makes sure that the backend used by the batch functions is available, as a pool of n forked processes."""
    import joblib
    from joblib._parallel_backends import MultiprocessingBackend

    class Pool(MultiprocessingBackend):

        def effective_n_jobs(self, n_jobs):
            return n

        def configure(self, n_jobs = 1, **kw):
            return super().configure(n_jobs = n, **kw)

    for name in ('dask', 'rv_pool'):
        joblib.register_parallel_backend(name, Pool)


def crs_def(m, uuid):
    import resqpy.crs as rqc
    c = rqc.Crs(m, uuid = uuid)
    return tuple(getattr(c, k) for k in ('xy_units', 'z_units', 'z_inc_down', 'x_offset', 'y_offset', 'z_offset', 'rotation', 'axis_order'))


def no_dangling(ctx, m, code = 'dangling'):
    """Every reference made by any part of the model is to a part of the model."""
    import resqpy.olio.xml_et as rqet
    ctx.check(len(m.uuids(obj_type = 'EpcExternalPartReference')) <= 1, code, 'number of hdf5 parts')
    for part in m.parts():
        root = m.root_for_part(part)
        for ref in rqet.list_obj_references(root):
            u = rqet.find_nested_tags_text(ref, ['UUID'])
            t = rqet.find_nested_tags_text(ref, ['ContentType']) or ''
            if 'EpcExternalPartReference' in t:
                continue
            ctx.check(m.part_for_uuid(u) is not None, code, 'reference to a missing part', part = part, missing = t)
        for node in root.iter():
            if isinstance(node.tag, str) and node.tag.endswith('PathInHdfFile'):
                ctx.check(m.h5_uuid() is not None, code, 'no hdf5 part')


def left_behind(ctx, d, cleaned, code = 'tmp-directory'):
    found = os.listdir(d)
    if cleaned:
        ctx.equal(found, [], code, 'left in temporary directory')
    else:
        ctx.equal(len(found), 1, code, 'temporary directory kept')


# general function

def make_item(index, parent_tmp_dir, plan):
    """Batch function under control of the plan for the item; run in a worker process."""
    import resqpy.crs as rqc
    import resqpy.model as rq
    import resqpy.organize as rqo
    import resqpy.property as rqp
    import resqpy.surface as rqs
    time.sleep(plan['delay'])
    with open(plan['log'], 'a') as f:
        f.write(json.dumps([index, os.getpid()]) + '\n')
    if plan['what'] == 'nothing':
        return index, plan['success'], None, []
    d = os.path.join(parent_tmp_dir, 'item_' + str(index))
    os.makedirs(d)
    epc = os.path.join(d, 'wrapper.epc')
    m = rq.new_model(epc, quiet = True)
    uuids = []
    crs = rqc.Crs(m, title = 'crs ' + str(plan['crs']), x_offset = 100.0 * plan['crs'], z_inc_down = True)
    crs.create_xml()
    uuids.append(crs.uuid)
    f = rqo.TectonicBoundaryFeature(m, kind = 'fault', feature_name = 'fault ' + str(plan['feature'])) if plan['feature'] is not None else None
    if f is not None:
        f.create_xml()
        fi = rqo.FaultInterpretation(m, tectonic_boundary_feature = f, is_normal = True, domain = 'depth')
        fi.create_xml()
        uuids += [f.uuid, fi.uuid]
    rng = np.random.default_rng(plan['seed'])
    for s in range(plan['sets']):
        ps = rqs.PointSet(m, points_array = rng.random((plan['points'], 3)), crs_uuid = crs.uuid, title = f"set {plan['id']} {s}")
        if f is not None:
            ps.set_represented_interpretation_root(fi.root)
        ps.write_hdf5()
        ps.create_xml()
        uuids.append(ps.uuid)
        if plan['related'] and f is not None:
            m.create_reciprocal_relationship_uuids(ps.uuid, 'sourceObject', f.uuid, 'destinationObject')
        if plan['property']:
            p = rqp.Property.from_array(m, rng.random(plan['points']), source_info = 'item', keyword = f"prop {plan['id']} {s}", support_uuid = ps.uuid,
                                        property_kind = 'length', uom = 'm', indexable_element = 'nodes', realization = index)
            uuids.append(p.uuid)
    if plan['order'] == 'reversed':
        uuids.reverse()
    elif plan['order'] == 'mixed':
        rng.shuffle(uuids)
    if plan['what'] == 'part':
        uuids = uuids[:1]
    m.store_epc(quiet = True)
    m.h5_release()
    if plan['as'] == 'str':
        uuids = [str(u) for u in uuids]
    elif plan['as'] == 'both':
        uuids = [(str(u) if i % 2 else u) for i, u in enumerate(uuids)]
    elif plan['as'] == 'none':
        uuids = None
    return index, plan['success'], epc, uuids


def general(ctx):
    """Items of all sorts, failing at random and completing in any order; recombined into a new or existing dataset."""
    import resqpy.crs as rqc
    import resqpy.model as rq
    import resqpy.multi_processing as rqmp
    import resqpy.organize as rqo
    import resqpy.property as rqp
    import resqpy.surface as rqs
    n = ctx.integer(1, 8)
    workers = ctx.choice([0, 1, 2, 3, 4])
    register(max(1, workers))
    log = ctx.path('order.txt')
    open(log, 'w').close()
    fails = ctx.flag(0.5)
    how = ctx.choice(['UUID', 'str', 'both', 'none'])
    plans = []
    delays = ctx.choice(['none', 'reverse', 'random'])
    n_crs, n_feat = ctx.integer(1, 3), ctx.integer(1, 3)
    for i in range(n):
        plans.append(dict(id = i, seed = ctx.integer(0, 10**6), log = log, sets = ctx.choice([1, 1, 2, 3]), points = ctx.integer(1, 8), property = ctx.flag(),
                          crs = ctx.integer(1, n_crs), feature = ctx.choice([None, ctx.integer(1, n_feat)]), related = ctx.flag(),
                          what = 'nothing' if fails and ctx.flag(0.3) else ('part' if fails and ctx.flag(0.2) else 'all'), success = True,
                          order = ctx.choice(['made', 'made', 'reversed', 'mixed']), delay = 0.0, **{'as': how}))
        p = plans[-1]
        p['success'] = p['what'] == 'all'
        if workers and delays != 'none':
            p['delay'] = 0.03 * (n - i) if delays == 'reverse' else ctx.uniform(0.0, 0.15)
    consolidate = ctx.flag(0.7)
    tidy = ctx.flag(0.8)
    epc = ctx.path('all.epc')
    tmp = ctx.path('tmp')
    os.makedirs(tmp)
    before = None
    had = []
    if ctx.flag(0.4):
        m = rq.new_model(epc, quiet = True)
        c = rqc.Crs(m, title = 'crs 1', x_offset = 100.0, z_inc_down = True)
        c.create_xml()
        ps = rqs.PointSet(m, points_array = ctx.rng.random((4, 3)), crs_uuid = c.uuid, title = 'resident')
        ps.write_hdf5()
        ps.create_xml()
        f = rqo.TectonicBoundaryFeature(m, kind = 'fault', feature_name = 'fault 1')
        f.create_xml()
        had = [c.uuid, f.uuid]
        m.store_epc(quiet = True)
        m.h5_release()
        before = files.contents(epc)
    backend = ctx.choice(['rv_pool', 'dask', 'multiprocessing'] if workers > 1 else ['rv_pool', 'dask'])
    strict = fails and ctx.flag(0.3)
    kwargs = [{'plan': dict(p)} for p in plans]
    ok = [p['success'] for p in plans]
    ctx.sig(n, workers, tuple(p['what'] for p in plans), how, delays)
    if how == 'none':
        for p in plans:
            if p['what'] == 'part':
                p['what'] = 'all'
    kw = dict(consolidate = consolidate, require_success = strict, tmp_dir_path = tmp, clean_up = tidy)
    if strict and not all(ok):
        ctx.raises(Exception, lambda: rqmp.function_multiprocessing(make_item, kwargs, epc, 'cluster' if workers else None, backend = backend, **kw), 'require-success')
        if before is not None:
            files.kept(ctx, before, files.contents(epc), 'require-success', False)
        else:
            ctx.check(not os.path.exists(epc), 'require-success', 'dataset made in spite of failure')
        ctx.observe('failure raised')
        return
    got = rqmp.function_multiprocessing(make_item, kwargs, epc, 'cluster' if workers else None, backend = backend, **kw)
    ran = [json.loads(x) for x in open(log).read().split('\n') if x]
    ctx.observe('completion order ' + ('serial' if not workers else ('as given' if [x[0] for x in ran] == sorted(x[0] for x in ran) else 'other')))
    ctx.observe('processes used', len(set(x[1] for x in ran)))
    ctx.equal(sorted(x[0] for x in ran), list(range(n)), 'items', 'each item is worked on once')
    ctx.equal([bool(x) for x in got], ok, 'success-list')
    left_behind(ctx, tmp, tidy)
    if before is not None:
        after = files.contents(epc)
        files.kept(ctx, {k: v for k, v in before.items() if k[0] == 'h5'}, after, 'resident', True)
        files.kept(ctx, {k: v for k, v in before.items() if k[0] == 'xml'}, after, 'resident', True)
    if all(p['what'] == 'nothing' for p in plans) and before is None:
        ctx.check(os.path.exists(epc), 'recombined', 'dataset exists')
        return
    m = rq.Model(epc)
    no_dangling(ctx, m)
    made = [p for p in plans if p['what'] == 'all']
    # point sets, in item order
    expect = [f"set {p['id']} {s}" for p in made for s in range(p['sets'])]
    titles = [m.title(uuid = u) for u in m.uuids(obj_type = 'PointSetRepresentation')]
    lone = set(t for t in titles if t is not None and t.startswith('set ') and plans[int(t.split()[1])]['what'] == 'part')
    titles = [t for t in titles if t not in lone]
    want = (['resident'] if before is not None else []) + expect
    ctx.equal(sorted(titles), sorted(want), 'point-sets')
    items = [int(t.split()[1]) for t in titles if t.startswith('set ')]
    ctx.equal(items, sorted(items), 'item-order', 'point sets')
    for i, p in enumerate(plans):
        if p['what'] != 'all':
            continue
        rng = np.random.default_rng(p['seed'])
        for s in range(p['sets']):
            u = m.uuid(obj_type = 'PointSetRepresentation', title = f"set {p['id']} {s}")
            ps = rqs.PointSet(m, uuid = u)
            ctx.equal(ps.full_array_ref(), rng.random((p['points'], 3)), 'points')
            ctx.equal(crs_def(m, ps.crs_uuid)[3], 100.0 * p['crs'], 'crs')
            if p['feature'] is not None:
                iu = m.uuid(obj_type = 'FaultInterpretation', related_uuid = u)
                ctx.check(iu is not None, 'interpretation', 'related to the point set')
                fi = rqo.FaultInterpretation(m, uuid = iu)
                ctx.equal(fi.tectonic_boundary_feature.feature_name if fi.tectonic_boundary_feature is not None else m.title(uuid = m.uuid(obj_type = 'TectonicBoundaryFeature', related_uuid = iu)),
                          'fault ' + str(p['feature']), 'interpretation', 'feature')
                if p['related']:
                    fu = m.uuids(obj_type = 'TectonicBoundaryFeature', related_uuid = u)
                    ctx.check(len(fu) == 1, 'relationship', 'with feature', found = len(fu))
            pu = m.uuids(obj_type = 'ContinuousProperty', related_uuid = u)
            ctx.equal(len(pu), 1 if p['property'] else 0, 'properties', 'count')
            if p['property']:
                pr = rqp.Property(m, uuid = pu[0])
                ctx.equal(pr.array_ref(), rng.random(p['points']), 'properties')
                ctx.equal((pr.title, pr.realization(), pr.uom()), (f"prop {p['id']} {s}", i, 'm'), 'properties', 'attributes')
    # consolidated objects
    if not lone and all(p['what'] != 'part' for p in plans):
        defs = [crs_def(m, u) for u in m.uuids(obj_type = 'LocalDepth3dCrs')]
        used = set(p['crs'] for p in made) | ({1} if before is not None else set())
        feats = [m.title(uuid = u) for u in m.uuids(obj_type = 'TectonicBoundaryFeature')]
        f_used = [p['feature'] for p in made if p['feature'] is not None] + ([1] if before is not None else [])
        if consolidate:
            ctx.equal(sorted(d[3] for d in defs), sorted(100.0 * x for x in used), 'consolidation', 'crs')
            ctx.equal(sorted(feats), sorted('fault ' + str(x) for x in set(f_used)), 'consolidation', 'features')
        else:
            ctx.equal(sorted(d[3] for d in defs), sorted(100.0 * x for x in [p['crs'] for p in made] + ([1] if before is not None else [])), 'no-consolidation', 'crs')
            ctx.equal(sorted(feats), sorted('fault ' + str(x) for x in f_used), 'no-consolidation', 'features')
    for u in had:
        ctx.check(m.part_for_uuid(u) is not None, 'resident', 'uuid kept')
    # kept epc files
    if not tidy:
        d = os.path.join(tmp, os.listdir(tmp)[0])
        ctx.equal(sorted(x for x in os.listdir(d) if x.startswith('item_')), sorted(f'item_{i}' for i, p in enumerate(plans) if p['what'] != 'nothing'), 'tmp-directory', 'contents')


def chunks(n, w):
    return [list(range(i * n // w, (i + 1) * n // w)) for i in range(w)]


def pool_size(ctx):
    w = ctx.choice([None, 1, 2, 3])
    register(w or 1)
    return w


# meshes

def mesh_view(m, uuid):
    import resqpy.surface as rqs
    h = rqs.Mesh(m, uuid = uuid)
    return dict(title = h.title, flavour = h.flavour, points = h.full_array_ref().copy(), crs = crs_def(m, h.crs_uuid), extra = {k: v for k, v in (h.extra_metadata or {}).items()},
                role = h.surface_role)


def same_view(ctx, got, exp, code):
    ctx.equal(sorted(got), sorted(exp), code, 'keys')
    for k, e in exp.items():
        if isinstance(e, np.ndarray):
            ctx.close(got[k], e, code + '-' + k.replace(' ', '-'), tol = 0.0)
        elif isinstance(e, dict) and any(isinstance(x, (dict, np.ndarray)) for x in e.values()):
            same_view(ctx, got[k], e, code)
        else:
            ctx.equal(got[k], e, code + '-' + k.replace(' ', '-'))


def meshes(ctx):
    """Meshes from column properties."""
    import resqpy.crs as rqc
    import resqpy.grid as grr
    import resqpy.model as rq
    import resqpy.multi_processing as rqmp
    import resqpy.property as rqp
    import resqpy.surface as rqs
    m = gen.model(ctx, name = 'grid.epc')
    kw = dict(gen.crs_kwargs(ctx, extreme = False)) if ctx.flag() else {}
    crs = rqc.Crs(m, title = 'grid crs', **kw)
    crs.create_xml(reuse = False)
    nk, nj, ni = ctx.integer(1, 3), ctx.integer(2, 6), ctx.integer(2, 6)
    d = (ctx.uniform(5.0, 100.0), ctx.uniform(5.0, 100.0), ctx.uniform(1.0, 10.0))
    g = grr.RegularGrid(m, extent_kji = (nk, nj, ni), dxyz = d, crs_uuid = crs.uuid, title = 'block')
    g.create_xml(add_cell_length_properties = True)
    n = ctx.integer(1, 6)
    props = []
    for i in range(n):
        kind = ctx.choice(['length', 'depth', 'pressure', 'discrete', 'porosity'])
        uom = {'length': ctx.choice(['m', 'ft', 'cm']), 'depth': ctx.choice(['m', 'ft']), 'pressure': 'kPa', 'discrete': None, 'porosity': 'm3/m3'}[kind]
        a = ctx.rng.integers(-5, 50, size = (nj, ni)) if kind == 'discrete' else ctx.rng.random((nj, ni)) * 1000.0
        if kind != 'discrete' and ctx.flag(0.3):
            a[ctx.integer(0, nj - 1), ctx.integer(0, ni - 1)] = np.nan
        p = rqp.Property.from_array(m, a, source_info = 'test', keyword = f'surface {i}', support_uuid = g.uuid, property_kind = kind, uom = uom, discrete = kind == 'discrete',
                                    indexable_element = 'columns', null_value = -1 if kind == 'discrete' else None, extra_metadata = {'colour': 'red'} if ctx.flag(0.3) else {})
        props.append((p.uuid, kind, uom, a, {'colour': 'red'} if p.extra_metadata else {}))
    m.store_epc(quiet = True)
    m.h5_release()
    before = files.contents(m.epc_file)
    w = pool_size(ctx)
    n_workers = ctx.integer(1, n + 1)
    epc = ctx.path('meshes.epc')
    tmp = ctx.path('tmp')
    os.makedirs(tmp)
    resident = ctx.flag(0.3)
    if resident:  # start from the grid and its properties
        r = rq.new_model(epc, quiet = True)
        r.copy_all_parts_from_other_model(rq.Model(m.epc_file))
        r.store_epc(quiet = True)
        r.h5_release()
    as_str = ctx.flag(0.3)
    ctx.sig(n, n_workers, w, tuple(p[1] for p in props))
    got = rqmp.mesh_from_regular_grid_column_property_batch(m.epc_file, str(g.uuid) if as_str else g.uuid, [str(p[0]) if as_str else p[0] for p in props], epc,
                                                            None if w is None else 'cluster', n_workers, require_success = ctx.flag(), tmp_dir_path = tmp)
    ctx.equal([bool(x) for x in got], [True] * n_workers, 'mesh-success-list')
    left_behind(ctx, tmp, True)
    files.kept(ctx, before, files.contents(m.epc_file), 'mesh-source', False)
    r = rq.Model(epc)
    no_dangling(ctx, r)
    uuids = r.uuids(obj_type = 'Grid2dRepresentation')
    ctx.equal([r.title(uuid = u) for u in uuids], [f'surface {i}' for i in range(n)], 'mesh-order')
    # serial
    s = rq.Model(m.epc_file)
    for u, (pu, kind, uom, a, extra) in zip(uuids, props):
        h = rqs.Mesh.from_regular_grid_column_property(s, g.uuid, pu)
        v = mesh_view(r, u)
        ctx.equal(v['flavour'], h.flavour, 'mesh-flavour')
        ctx.close(v['points'], h.full_array_ref(), 'mesh-points', tol = 1.0e-9)
        ctx.equal(v['crs'], crs_def(s, h.crs_uuid), 'mesh-crs')
        ctx.equal(v['extra'].get('Uom'), (h.extra_metadata or {}).get('Uom'), 'mesh-metadata')
        # independently
        j, i = np.meshgrid(np.arange(nj), np.arange(ni), indexing = 'ij')
        e = np.stack(((i + 0.5) * d[0], (j + 0.5) * d[1], a), axis = -1)
        ctx.close(v['points'], e, 'mesh-geometry', tol = 1.0e-6)
        c0 = list(crs_def(s, crs.uuid))
        if kind in ('length', 'depth'):
            c0[1] = uom
        ctx.equal(list(v['crs']), c0, 'mesh-crs', 'expected')
        ctx.equal(v['extra'].get('colour'), extra.get('colour'), 'mesh-metadata', 'extra')
        ctx.equal(v['extra'].get('Uom'), 'Euc' if kind == 'discrete' else uom, 'mesh-metadata', 'uom')
        if resident:
            ctx.check(u in r.uuids(related_uuid = pu), 'mesh-relationship', 'with its property')


# wells

def well_view(m, uuid):
    import resqpy.well as rqw
    b = rqw.BlockedWell(m, uuid = uuid)
    return dict(nodes = b.node_mds.copy(), cells = np.array(b.cell_indices), grids = np.array(b.grid_indices), faces = np.array(b.face_pair_indices),
                count = (int(b.node_count), int(b.cell_count)), traj = str(b.trajectory.uuid), grid = [str(g.uuid) for g in b.grid_list], title = b.title, well = b.well_name)


def wells(ctx):
    """Blocked wells from trajectories."""
    import resqpy.grid as grr
    import resqpy.model as rq
    import resqpy.multi_processing as rqmp
    import resqpy.well as rqw
    m = gen.model(ctx, name = 'grid.epc', crs = False)
    c = c33.make_grid(ctx, m, inactive = False, pinch = False)
    n = ctx.integer(1, 5)
    same = ctx.flag()
    if same:
        tm = m
        m.store_epc(quiet = True)
    else:
        m.store_epc(quiet = True)
        tm = gen.model(ctx, name = 'wells.epc', crs = False)
        import resqpy.crs as rqc
        c.crs = rqc.Crs(tm, title = 'grid crs', **c.crs_kw)
        c.crs.create_xml()
    trajs, exp = [], []
    for i in range(n):
        t = c33.make_trajectory(ctx, tm, c)
        trajs.append(t.uuid)
        try:
            exp.append(c33.expected(ctx, c))
        except Skip:
            exp.append(None)
    tm.store_epc(quiet = True)
    for x in (m, tm):
        x.h5_release()
    before = [files.contents(x.epc_file) for x in (m, tm)]
    # serial: the result wanted for each item
    sm = rq.Model(tm.epc_file)
    sg = grr.any_grid(rq.Model(m.epc_file), uuid = c.grid.uuid)
    serial = []
    for u in trajs:
        t = rqw.Trajectory(sm, uuid = u)
        b = rqw.BlockedWell(sm, grid = sg, trajectory = t)
        serial.append(None if b.cell_count is None or b.node_count is None else b)
    w = pool_size(ctx)
    n_workers = ctx.integer(1, n + 1)
    want_success = [all(serial[i] is not None for i in part) for part in chunks(n, n_workers)]
    epc, tmp = ctx.path('blocked.epc'), ctx.path('tmp')
    os.makedirs(tmp)
    ctx.sig(n, n_workers, w, tuple(b is None for b in serial))
    as_str = ctx.flag(0.3)
    strict = ctx.flag(0.3)
    args = (m.epc_file, str(c.grid.uuid) if as_str else c.grid.uuid, tm.epc_file, [str(u) if as_str else u for u in trajs], epc, None if w is None else 'cluster', n_workers)
    if strict and not all(want_success):
        ctx.raises(Exception, lambda: rqmp.blocked_well_from_trajectory_batch(*args, require_success = True, tmp_dir_path = tmp), 'well-require-success')
        return
    got = rqmp.blocked_well_from_trajectory_batch(*args, require_success = strict, tmp_dir_path = tmp)
    ctx.equal([bool(x) for x in got], want_success, 'well-success-list')
    left_behind(ctx, tmp, True)
    for b, x in zip(before, (m, tm)):
        files.kept(ctx, b, files.contents(x.epc_file), 'well-source', False)
    kept = [(u, b, e) for u, b, e in zip(trajs, serial, exp) if b is not None]
    if not kept:
        return
    r = rq.Model(epc)
    no_dangling(ctx, r)
    uuids = r.uuids(obj_type = 'BlockedWellboreRepresentation')
    ctx.equal(len(uuids), len(kept), 'well-count')
    for u, (tu, b, e) in zip(uuids, kept):
        v = well_view(r, u)
        ctx.equal(v['traj'], str(tu), 'well-order')
        ctx.equal(v['grid'], [str(c.grid.uuid)], 'well-grid')
        ctx.close(v['nodes'], b.node_mds, 'well-nodes', tol = 1.0e-9)
        ctx.equal(v['cells'], np.array(b.cell_indices), 'well-cells')
        ctx.equal(v['grids'], np.array(b.grid_indices), 'well-grids')
        ctx.equal(v['faces'], np.array(b.face_pair_indices), 'well-faces')
        ctx.equal(v['count'], (int(b.node_count), int(b.cell_count)), 'well-count', 'nodes and cells')
        ctx.equal(v['well'], b.well_name, 'well-name')
        if e is not None:
            c33.compare(ctx, rqw.BlockedWell(r, uuid = u), e, 'well-blocking')
        ctx.observe('cells blocked', int(b.cell_count))


# faces for surfaces

def gcs_view(m, uuid):
    import resqpy.fault as rqf
    import resqpy.property as rqp
    g = rqf.GridConnectionSet(m, uuid = uuid)
    g.cache_arrays()
    out = dict(count = int(g.count), cells = np.array(g.cell_index_pairs), faces = np.array(g.face_index_pairs), features = g.list_of_feature_names(), title = g.title,
               extra = dict(g.extra_metadata or {}))
    for u in m.uuids(obj_type = 'ContinuousProperty', related_uuid = uuid) + m.uuids(obj_type = 'DiscreteProperty', related_uuid = uuid) + m.uuids(obj_type = 'PointsProperty', related_uuid = uuid):
        p = rqp.Property(m, uuid = u)
        out['p:' + p.title] = dict(a = np.array(p.array_ref()), kind = p.property_kind(), uom = p.uom(), realization = p.realization(), element = p.indexable_element())
    return out


KINDS = {'triangle': 'triangle index', 'depth': 'depth', 'offset': 'offset', 'normal vector': 'normal vector', 'flange bool': 'flange bool', 'grid bisector': 'grid bisector', 'grid shadow': 'grid shadow'}


def surfaces(ctx):
    """Faces of a regular grid for a batch of surfaces."""
    import resqpy.olio.uuid as bu
    import resqpy.crs as rqc
    import resqpy.grid as grr
    import resqpy.grid_surface as rqgs
    import resqpy.model as rq
    import resqpy.multi_processing as rqmp
    import resqpy.organize as rqo
    import resqpy.property as rqp
    import resqpy.surface as rqs
    c = c28.Case(ctx, kinds = ['sheet', 'sheet', 'partial', 'curtain', 'outside', 'ball'], max_n = (4, 5, 5))
    m = c.m
    if min(c.ext) < 1 or np.prod(c.ext) < 2:
        raise Skip('single cell')
    c.store()
    if c.grid.root is None:
        c.grid.create_xml()
    items = []
    n = ctx.integer(1, 3)
    interp = []
    for i in range(n):
        if i:
            kind = ctx.choice(['sheet', 'sheet', 'partial', 'curtain', 'outside'])
            if kind == 'curtain':
                t, p, side = c28.curtain(ctx, c.lo, c.hi)
            else:
                t, p, side, _ = c28.sheet(ctx, c.lo, c.hi, (0, 1) if kind == 'sheet' else ctx.choice([(0, 1), (0, 2), (1, 2)]), ctx.choice([0.0, 0.3, 0.6]))
                if kind == 'partial':
                    keep = ctx.rng.random(len(t)) < 0.6
                    keep[ctx.integer(0, len(t) - 1)] = True
                    t = t[keep]
                elif kind == 'outside':
                    p = p + (5.0 * (c.hi - c.lo) + 1.0)
            s_kw = dict(gen.crs_kwargs(ctx, extreme = False)) if ctx.flag(0.4) else c.kw
            s_crs = rqc.Crs(m, title = f'surface crs {i}', **s_kw)
            s_crs.create_xml(reuse = ctx.flag())
            s = rqs.Surface(m, title = f'surf {i}', crs_uuid = s_crs.uuid)
            s.set_from_triangles_and_points(t, gen.CrsOracle(c.kw).convert_to(gen.CrsOracle(s_kw), p))
        else:
            kind, s = c.kind, c.surface
            s = rqs.Surface(m, uuid = s.uuid)
        fi = None
        if ctx.flag():
            f = rqo.TectonicBoundaryFeature(m, kind = 'fault', feature_name = f'fault {i}')
            f.create_xml()
            fi = rqo.FaultInterpretation(m, tectonic_boundary_feature = f, is_normal = True, domain = 'depth')
            fi.create_xml()
            if i:
                s.set_represented_interpretation_root(fi.root)
        if i:
            s.write_hdf5()
            s.create_xml()
        items.append((kind, s.uuid, fi))
    m.store_epc(quiet = True)
    m.h5_release()
    before = files.contents(m.epc_file)
    kwargs, serial = [], []
    use_index = ctx.flag()
    sm = rq.Model(m.epc_file)
    sg = grr.RegularGrid(sm, uuid = c.grid.uuid)
    for i, (kind, su, fi) in enumerate(items):
        want = ctx.subset(['triangle', 'depth', 'offset', 'grid shadow'] + (['grid bisector'] if kind in ('sheet', 'curtain') else []))
        if ctx.flag(0.2):
            want = None
        curt = kind == 'curtain' and ctx.flag()
        raw = ctx.flag(0.3)
        kw = dict(use_index_as_realisation = use_index, grid_epc = m.epc_file, grid_uuid = c.grid.uuid, surface_epc = m.epc_file, surface_uuid = su, name = f'cut{i}',
                  title = ctx.choice([None, f'title {i}']), feature_type = ctx.choice(['fault', 'horizon', 'geobody boundary']), trimmed = ctx.flag(), is_curtain = curt,
                  extra_metadata = {'item': str(i)} if ctx.flag() else None, return_properties = want, raw_bisector = raw, use_pack = ctx.flag(0.3),
                  related_uuid = fi.uuid if fi is not None and ctx.flag() else (bu.new_uuid() if ctx.flag(0.1) else None))
        kwargs.append(kw)
        s = rqs.Surface(sm, uuid = su)
        s.change_crs(sg.crs)
        r = rqgs.find_faces_to_represent_surface_regular_optimised(sg, s, f'cut{i}', kw['title'], False, False, kw['feature_type'], curt, None, want, raw_bisector = raw)
        gcs, arrays = r if isinstance(r, tuple) else (r, {})
        serial.append((gcs, arrays))
    w = pool_size(ctx)
    epc, tmp = ctx.path('cut.epc'), ctx.path('tmp')
    os.makedirs(tmp)
    ctx.sig(n, w, tuple(x[0] for x in items))
    success = [bool(g is not None and g.count) for g, _ in serial]
    got = rqmp.function_multiprocessing(rqmp.find_faces_to_represent_surface_regular_wrapper, [dict(x) for x in kwargs], epc, None if w is None else 'cluster',
                                        tmp_dir_path = tmp, consolidate = ctx.flag(0.8), backend = 'dask')
    ctx.equal([bool(x) for x in got], success, 'surface-success-list')
    left_behind(ctx, tmp, True)
    files.kept(ctx, before, files.contents(m.epc_file), 'surface-source', False)
    r = rq.Model(epc)
    no_dangling(ctx, r)
    uuids = r.uuids(obj_type = 'GridConnectionSetRepresentation')
    ctx.equal(len(uuids), sum(success), 'surface-count')
    g = grr.RegularGrid(r, uuid = c.grid.uuid)
    ctx.equal(tuple(int(x) for x in g.extent_kji), c.ext, 'surface-grid')
    ctx.equal(crs_def(r, g.crs_uuid), crs_def(sm, sg.crs_uuid), 'surface-grid', 'crs')
    # properties of the grid belong to items through their titles
    k = 0
    gprops = {}
    for u in r.uuids(obj_type = 'DiscreteProperty', related_uuid = g.uuid):
        p = rqp.Property(r, uuid = u)
        if str(p.collection.support_uuid) == str(g.uuid) and p.title not in ('DX', 'DY', 'DZ'):
            gprops.setdefault(p.title, []).append(p)
    expected_grid_props = {}
    for i, ((gcs, arrays), kw, ok, item) in enumerate(zip(serial, kwargs, success, items)):
        if not ok:
            continue
        v = gcs_view(r, uuids[k])
        k += 1
        ctx.equal(v['count'], int(gcs.count), 'surface-faces', 'count')
        ctx.equal(v['cells'], gcs.cell_index_pairs, 'surface-faces', 'cells')
        ctx.equal(v['faces'], gcs.face_index_pairs, 'surface-faces', 'faces')
        ctx.equal(v['features'], [f'cut{i}'], 'surface-order')
        ctx.equal(v['title'], kw['title'] or f'cut{i}', 'surface-title')
        ctx.equal({x: v['extra'].get(x) for x in (kw['extra_metadata'] or {})}, kw['extra_metadata'] or {}, 'surface-metadata')
        names = [x for x in (kw['return_properties'] or []) if not x.startswith('grid ')]
        st = sm.title(uuid = item[1])
        got_names = sorted(x for x in v if x.startswith('p:'))
        ctx.equal(sorted(x.split(' ')[-1] for x in got_names), sorted(x.split(' ')[-1] for x in names), 'surface-properties')
        ps = [x for x in got_names]
        for x in names:
            hit = [y for y in ps if y.endswith(' ' + x)]
            ctx.equal(len(hit), 1, 'surface-properties', 'named')
            pr = v[hit[0]]
            e = np.array(arrays[x], dtype = float)
            if x == 'depth':
                e = e + sg.crs.z_offset
                if not sg.crs.z_inc_down:
                    e = -e
            ctx.close(np.array(pr['a'], dtype = float), e, 'surface-property-' + x.replace(' ', '-'), tol = 1.0e-6, rtol = 1.0e-6)
            ctx.equal((pr['kind'], pr['realization'], pr['element']), (KINDS[x], i if use_index else None, 'faces'), 'surface-property-attributes')
            if x in ('offset', 'depth'):
                ctx.equal(pr['uom'], sg.crs.z_units, 'surface-property-attributes', 'uom')
            ctx.observe('property ' + x)
        for x in (kw['return_properties'] or []):
            if x.startswith('grid '):
                a = arrays[x]
                cols = False
                if x == 'grid bisector':
                    a, cols = a
                expected_grid_props.setdefault(x, []).append((i, np.array(a), cols, kw, st))
        rel = kw['related_uuid']
        if rel is not None and r.part_for_uuid(rel) is not None:
            ctx.check(uuids[k - 1] in r.uuids(related_uuid = rel), 'surface-related', 'connection set')
        su = r.uuid(uuid = item[1])
        ctx.check(len(r.uuids(obj_type = 'TriangulatedSetRepresentation')) >= 1, 'surface-kept', 'surface')
    total = 0
    for x, lst in expected_grid_props.items():
        have = [p for t, q in gprops.items() if t.endswith(' ' + x) for p in q]
        ctx.equal(len(have), len(lst), 'surface-grid-properties', 'count')
        for p, (i, a, cols, kw, st) in zip(have, lst):
            total += 1
            q = p.array_ref(dtype = bool if x == 'grid bisector' else None)
            ctx.equal(np.array(q).astype(int), a.astype(int), 'surface-' + x.replace(' ', '-'))
            ctx.equal((p.realization(), p.indexable_element(), p.property_kind()), (i if use_index else None, 'columns' if cols else 'cells', x), 'surface-grid-property-attributes')
            if x == 'grid bisector':
                ctx.equal((p.facet_type(), p.facet()), ('direction', 'raw' if kw['raw_bisector'] else ('vertical' if cols else 'sloping')), 'surface-grid-property-attributes', 'facet')
            ctx.observe('property ' + x)
    ctx.equal(sum(len(q) for q in gprops.values()), total, 'surface-grid-properties', 'nothing more')


def extended(ctx):
    """Point sets and surfaces which the wrapper triangulates, extends or trims first: the faces are those of the surface it made."""
    import resqpy.crs as rqc
    import resqpy.grid as grr
    import resqpy.grid_surface as rqgs
    import resqpy.model as rq
    import resqpy.multi_processing as rqmp
    import resqpy.organize as rqo
    import resqpy.property as rqp
    import resqpy.surface as rqs
    c = c28.Case(ctx, kinds = ['sheet', 'side sheet'], max_n = (4, 5, 5))
    m = c.m
    if np.prod(c.ext) < 2:
        raise Skip('single cell')
    c.store()
    if c.grid.root is None:
        c.grid.create_xml()
    n = ctx.integer(1, 3)
    kwargs, items = [], []
    for i in range(n):
        f = rqo.TectonicBoundaryFeature(m, kind = 'fault', feature_name = f'fault {i}')
        f.create_xml()
        fi = rqo.FaultInterpretation(m, tectonic_boundary_feature = f, is_normal = True, domain = 'depth')
        fi.create_xml()
        axes = ctx.choice([(0, 1), (0, 2), (1, 2)])
        t, p, _, _ = c28.sheet(ctx, c.lo, c.hi, axes, ctx.choice([0.1, 0.3]))
        s_kw = dict(gen.crs_kwargs(ctx, extreme = False)) if ctx.flag(0.4) else c.kw
        s_crs = rqc.Crs(m, title = f'crs {i}', **s_kw)
        s_crs.create_xml(reuse = False)
        q = gen.CrsOracle(c.kw).convert_to(gen.CrsOracle(s_kw), p)
        as_set = ctx.flag()
        if as_set:
            o = rqs.PointSet(m, points_array = q, crs_uuid = s_crs.uuid, title = f'item{i}')
        else:
            o = rqs.Surface(m, title = f'item{i}', crs_uuid = s_crs.uuid)
            o.set_from_triangles_and_points(t, q)
        has_interp = ctx.flag()
        if has_interp:
            o.set_represented_interpretation_root(fi.root)
        o.write_hdf5()
        o.create_xml()
        flange = ctx.flag(0.6)
        want = ctx.subset(['triangle', 'depth', 'offset']) + (['flange bool'] if flange and ctx.flag(0.7) else [])
        kwargs.append(dict(use_index_as_realisation = True, grid_epc = m.epc_file, grid_uuid = c.grid.uuid, surface_epc = m.epc_file, surface_uuid = o.uuid, name = f'cut{i}',
                           trimmed = ctx.flag(), extend_fault_representation = flange, retriangulate = ctx.flag(), flange_inner_ring = ctx.flag(0.3),
                           saucer_parameter = ctx.choice([None, None, 10.0, -10.0]), return_properties = want,
                           flange_radius = ctx.choice([None, 5.0 * float(np.max(c.hi - c.lo))])))
        items.append((as_set, o.uuid, fi.uuid, has_interp, flange))
    m.store_epc(quiet = True)
    m.h5_release()
    before = files.contents(m.epc_file)
    w = pool_size(ctx)
    epc, tmp = ctx.path('cut.epc'), ctx.path('tmp')
    os.makedirs(tmp)
    ctx.sig(n, w, tuple(x[0] for x in items), tuple(x[4] for x in items))
    try:
        got = rqmp.function_multiprocessing(rqmp.find_faces_to_represent_surface_regular_wrapper, [dict(x) for x in kwargs], epc, None if w is None else 'cluster',
                                            tmp_dir_path = tmp, consolidate = True, backend = 'dask')
    except AssertionError as e:
        if 'no xyz overlap' in str(e) or 'nobbled' in str(e) or 'triang' in str(e).lower():
            raise Skip('points do not make a surface')
        raise
    except Exception as e:
        if type(e).__name__ == 'QhullError':
            raise Skip('flat set of points')
        raise
    ctx.equal(len(got), n, 'extended-success-list')
    left_behind(ctx, tmp, True)
    files.kept(ctx, before, files.contents(m.epc_file), 'extended-source', False)
    r = rq.Model(epc)
    no_dangling(ctx, r)
    g = grr.RegularGrid(r, uuid = c.grid.uuid)
    ctx.equal(len(r.uuids(obj_type = 'GridConnectionSetRepresentation')), sum(bool(x) for x in got), 'extended-count')
    surfs = [rqs.Surface(r, uuid = u) for u in r.uuids(obj_type = 'TriangulatedSetRepresentation')]
    for i, ((as_set, u, iu, has_interp, flange), kw, ok) in enumerate(zip(items, kwargs, got)):
        mine = [s for s in surfs if s.title.split()[0] == f'item{i}' and str(s.uuid) != str(u)]
        changed = as_set or flange or kw['retriangulate']
        if not ok:
            continue
        if changed:
            ctx.check(len(mine) >= 1, 'extended-surface', 'surface made for item', kw = {k: v for k, v in kw.items() if k in ('trimmed', 'extend_fault_representation', 'retriangulate')})
            s = mine[-1]
            ctx.equal('extended' in s.title, flange, 'extended-title', s.title)
        else:
            s = mine[-1] if mine else rqs.Surface(r, uuid = u)
        ctx.equal(crs_def(r, s.crs_uuid), crs_def(r, g.crs_uuid), 'extended-crs') if changed else None
        t, p = s.triangles_and_points()
        s.change_crs(g.crs)
        x = rqgs.find_faces_to_represent_surface_regular_optimised(g, s, f'cut{i}', return_properties = kw['return_properties'])
        gcs, arrays = x if isinstance(x, tuple) else (x, {})
        v = [y for y in (gcs_view(r, z) for z in r.uuids(obj_type = 'GridConnectionSetRepresentation')) if y['features'] == [f'cut{i}']]
        ctx.equal(len(v), 1, 'extended-order')
        v = v[0]
        ctx.equal(v['cells'], gcs.cell_index_pairs, 'extended-faces')
        ctx.equal(v['faces'], gcs.face_index_pairs, 'extended-faces', 'faces')
        for name in kw['return_properties']:
            pr = [v[y] for y in v if y.startswith('p:') and y.endswith(' ' + name)]
            ctx.equal(len(pr), 1, 'extended-properties', name)
            e = np.array(arrays[name], dtype = float)
            if name == 'depth':
                e = (e + g.crs.z_offset) * (1.0 if g.crs.z_inc_down else -1.0)
            ctx.close(np.array(pr[0]['a'], dtype = float), e, 'extended-property-' + name.replace(' ', '-'), tol = 1.0e-6, rtol = 1.0e-6)
            ctx.equal(pr[0]['realization'], i, 'extended-properties', 'realization')
        if flange:
            fb = [rqp.Property(r, uuid = y) for y in r.uuids(obj_type = 'DiscreteProperty', related_uuid = s.uuid)]
            fb = [y for y in fb if y.property_kind() == 'flange bool']
            ctx.equal(len(fb), 1, 'extended-flange')
            a = fb[0].array_ref(dtype = bool)
            ctx.equal(a.shape, (len(t),), 'extended-flange', 'shape')
            # triangles of original points only are not flange
            orig = gen.CrsOracle(c.kw)
            q = rqs.PointSet(rq.Model(m.epc_file), uuid = u).full_array_ref() if as_set else rqs.Surface(rq.Model(m.epc_file), uuid = u).triangles_and_points()[1]
            s0 = rqc.Crs(rq.Model(m.epc_file), uuid = (rqs.PointSet if as_set else rqs.Surface)(rq.Model(m.epc_file), uuid = u).crs_uuid)
            q = np.array(q)
            kw0 = {k: getattr(s0, k) for k in ('x_offset', 'y_offset', 'z_offset', 'rotation', 'rotation_units', 'axis_order', 'xy_units', 'z_units', 'z_inc_down')}
            q = gen.CrsOracle(kw0).convert_to(orig, q)
            near = np.array([np.min(np.max(np.abs(q - x), axis = 1)) < 1.0e-3 * (1.0 + np.max(c.hi - c.lo)) for x in p])
            ctx.equal(a, ~np.all(near[t], axis = 1), 'extended-flange', 'values')
            ctx.observe('flange triangles', int(a.sum()))
        if changed or mine:
            if has_interp:
                kept = r.uuid(obj_type = 'FaultInterpretation', related_uuid = u) if r.part_for_uuid(u) is not None else None
                if r.part_for_uuid(iu) is not None:
                    ctx.check(str(iu) in [str(y) for y in r.uuids(related_uuid = s.uuid)], 'extended-interpretation', 'inherited')
        ctx.observe('faces', int(gcs.count))


SCENARIOS = [
    Scenario(general, 40),
    Scenario(meshes, 25),
    Scenario(wells, 30),
    Scenario(surfaces, 30),
    Scenario(extended, 20),
]
