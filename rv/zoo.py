"""Small builders of stored parts of many classes; each returns (uuid string, type, title, set of referenced uuid strings)."""

import os
import zipfile

import numpy as np

from rv import gen

NS_REF = 'DataObjectReference'


def local(tag):
    return tag.split('}')[-1].split(':')[-1]


def xml_type(node):
    for k, v in node.attrib.items():
        if local(k) == 'type':
            return v.split('}')[-1].split(':')[-1]
    return None


def refs_in(root):
    """Uuids of data objects referenced in xml, and uuids of hdf5 proxies, found independently."""
    out = set()
    h5 = set()
    for node in root.iter():
        if not isinstance(node.tag, str) or xml_type(node) != NS_REF:
            continue
        ct = uu = None
        for c in node:
            if local(c.tag) == 'ContentType':
                ct = c.text
            elif local(c.tag) == 'UUID':
                uu = c.text
        if 'EpcExternalPart' in ct:
            h5.add(uu.strip().lower())
        else:
            out.add(uu.strip().lower())
    return out, h5


def child(node, name):
    for c in node:
        if isinstance(c.tag, str) and local(c.tag) == name:
            return c
    return None


def title_in(root):
    return child(child(root, 'Citation'), 'Title').text


def extra_in(root):
    out = {}
    for c in root:
        if isinstance(c.tag, str) and local(c.tag) == 'ExtraMetadata':
            out[child(c, 'Name').text] = child(c, 'Value').text
    return out


def is_ext(name):
    return 'EpcExternalPartReference' in name


class Maker:
    """Adds random objects to a model through the library's own classes."""

    KINDS = ['boundary', 'geobody', 'wellfeature', 'tectonic', 'fault', 'horizon', 'crs', 'kind', 'lookup', 'points', 'datum',
             'trajectory', 'grid', 'property', 'property', 'series', 'polyline', 'surface', 'wellinterp', 'earth', 'propset']

    def __init__(self, ctx, kinds = None):
        self.ctx = ctx
        self.n = 0
        self.kinds = kinds or self.KINDS

    def add(self, m, kind = None):
        """Creates one object (and only one part) if possible; returns object or None."""
        import resqpy.crs as rqc
        import resqpy.grid as grr
        import resqpy.lines as rql
        import resqpy.organize as rqo
        import resqpy.property as rqp
        import resqpy.surface as rqs
        import resqpy.time_series as rqts
        import resqpy.well as rqw
        ctx = self.ctx
        self.n += 1
        kind = kind or ctx.choice(self.kinds)
        t = gen.title(ctx) if ctx.flag(0.8) else f'{ctx.choice(["Alpha", "beta"])} {ctx.integer(1, 3)}'
        meta = gen.metadata(ctx)

        def one(obj_type):
            u = m.uuids(obj_type = obj_type)
            return ctx.choice(u) if u else None

        def keep(o, **kw):
            o.create_xml(reuse = False, **kw)
            return o

        if kind == 'boundary':
            return keep(rqo.BoundaryFeature(m, feature_name = t, extra_metadata = meta))
        if kind == 'geobody':
            return keep(rqo.GeobodyFeature(m, feature_name = t, extra_metadata = meta))
        if kind == 'wellfeature':
            return keep(rqo.WellboreFeature(m, feature_name = t, extra_metadata = meta))
        if kind == 'tectonic':
            return keep(rqo.TectonicBoundaryFeature(m, kind = ctx.choice(['fault', 'fracture']), feature_name = t, extra_metadata = meta))
        if kind == 'earth':
            return keep(rqo.OrganizationFeature(m, organization_kind = 'earth model', feature_name = t, extra_metadata = meta))
        if kind == 'fault':
            u = one('TectonicBoundaryFeature')
            if u is None:
                return None
            f = rqo.TectonicBoundaryFeature(m, uuid = u)
            return keep(rqo.FaultInterpretation(m, title = t, tectonic_boundary_feature = f, is_normal = True, extra_metadata = meta))
        if kind == 'wellinterp':
            u = one('WellboreFeature')
            if u is None:
                return None
            f = rqo.WellboreFeature(m, uuid = u)
            return keep(rqo.WellboreInterpretation(m, title = t, wellbore_feature = f, is_drilled = True, extra_metadata = meta))
        if kind == 'horizon':
            f = rqo.GeneticBoundaryFeature(m, kind = 'horizon', feature_name = t)
            return keep(f)
        if kind == 'crs':
            return keep(rqc.Crs(m, title = t, x_offset = float(self.n), extra_metadata = meta))
        if kind == 'kind':
            return keep(rqp.PropertyKind(m, title = t, example_uom = 'm', parent_property_kind = 'continuous', extra_metadata = meta))
        if kind == 'lookup':
            return keep(rqp.StringLookup(m, int_to_str_dict = {0: 'a', 1: f'b{self.n}'}, title = t, extra_metadata = meta))
        if kind == 'series':
            ts = rqts.TimeSeries(m, first_timestamp = '2000-01-01Z', title = t, extra_metadata = meta)
            ts.add_timestamp('2001-01-01Z')
            return keep(ts)
        c = one('LocalDepth3dCrs')
        if kind in ('points', 'polyline', 'surface', 'datum', 'grid') and c is None:
            return None
        if kind == 'datum':
            o = rqw.MdDatum(m, crs_uuid = c, location = (1.0, 2.0, float(self.n)), md_reference = 'kelly bushing', title = t,
                            extra_metadata = meta)
            o.create_xml()
            return o
        if kind == 'points':
            o = rqs.PointSet(m, crs_uuid = c, points_array = ctx.rng.random((ctx.integer(1, 4), 3)), title = t, extra_metadata = meta)
            o.write_hdf5()
            o.create_xml()
            return o
        if kind == 'polyline':
            o = rql.Polyline(m, set_coord = ctx.rng.random((ctx.integer(2, 4), 3)), set_bool = ctx.flag(), set_crs = c, title = t,
                             extra_metadata = meta)
            o.write_hdf5()
            o.create_xml()
            return o
        if kind == 'surface':
            o = rqs.Surface(m, crs_uuid = c, title = t, extra_metadata = meta)
            o.set_from_triangles_and_points(np.array([[0, 1, 2]]), ctx.rng.random((3, 3)))
            o.write_hdf5()
            o.create_xml()
            return o
        if kind == 'trajectory':
            d = one('MdDatum')
            if d is None:
                return None
            datum = rqw.MdDatum(m, uuid = d)
            o = rqw.Trajectory(m, md_datum = datum, data_frame = None, length_uom = 'm', well_name = t, extra_metadata = meta)
            o.knot_count = 2
            o.crs_uuid = datum.crs_uuid
            o.measured_depths = np.array([0.0, 10.0])
            o.control_points = np.array([[0.0, 0.0, 0.0], [0.0, 0.0, 10.0]])
            o.tangent_vectors = np.array([[0.0, 0.0, 1.0], [0.0, 0.0, 1.0]])
            o.set_measured_depths()
            o.write_hdf5()
            o.create_xml(title = t)
            return o
        if kind == 'grid':
            o = grr.RegularGrid(m, extent_kji = (1, 2, 2), crs_uuid = c, title = t, extra_metadata = meta)
            o.create_xml(add_cell_length_properties = False)
            return o
        if kind == 'property':
            g = one('IjkGridRepresentation')
            if g is None:
                return None
            lu = one('StringTableLookup') if ctx.flag(0.3) else None
            ts = one('TimeSeries') if ctx.flag(0.3) else None
            pk = None
            kw = {}
            if lu is not None:
                kw['string_lookup_uuid'] = lu
                a = ctx.rng.integers(0, 2, (1, 2, 2))
                pk = 'discrete'
            else:
                a = ctx.rng.random((1, 2, 2))
                pk = one('PropertyKind')
                if pk is not None and ctx.flag(0.6):
                    kw['local_property_kind_uuid'] = pk
                    pk = m.title(uuid = pk)
                else:
                    pk = 'porosity'
            if ts is not None:
                kw.update(time_series_uuid = ts, time_index = 1)
            return rqp.Property.from_array(m, a, source_info = 'x', keyword = t, support_uuid = g, property_kind = pk,
                                           indexable_element = 'cells', discrete = lu is not None, extra_metadata = meta or {},
                                           uom = 'm' if lu is None else None, find_local_property_kind = False, **kw)
        if kind == 'propset':
            g = one('IjkGridRepresentation')
            if g is None:
                return None
            parts = ctx.subset([p for p in m.parts(related_uuid = g) if p.split('/')[-1].startswith('obj_ContinuousProperty') and
                                '_rels/' + p + '.rels' in m.rels_forest])
            if not parts:
                return None
            c = rqp.PropertyCollection()
            c.set_support(support_uuid = g, model = m)
            c.add_parts_list_to_dict(parts)
            return c.create_property_set_xml(title = t)
        raise ValueError(kind)


def read_epc(path):
    """Independent reading of an epc file: {part name: root}, {rels part name: root}, content types list."""
    from lxml import etree
    parts, rels, overrides = {}, {}, []
    with zipfile.ZipFile(path) as z:
        names = z.namelist()
        assert len(names) == len(set(names)), 'duplicate names in epc'
        for n in names:
            root = etree.fromstring(z.read(n))
            if n == '[Content_Types].xml':
                overrides = [(c.attrib['PartName'].lstrip('/'), c.attrib['ContentType']) for c in root if local(c.tag) == 'Override']
            elif n.endswith('.rels'):
                rels[n] = root
            elif not n.startswith('docProps'):
                parts[n] = root
    return parts, rels, overrides
