"""The text of every property: statement, scope, anchors and the way its check decides it."""

SPECS = {}


def P(id, title, statement, over, text, why, files, mech, rule, technique = None, note = None, observe = None,
      state = None, assumptions = None):
    assert len(title) <= 80, title
    SPECS[id] = {
        'id': id,
        'title': title,
        'statement': ' '.join(statement.split()),
        'quantifier': {
            'over': over,
            'text': ' '.join(text.split())
        },
        'why_tests_cant': ' '.join(why.split()),
        'anchors': {
            'files': files,
            'mechanism': [{
                'name': n,
                'where': w
            } for n, w in mech],
            'state': [{
                'name': n,
                'meaning': m,
                'where': w
            } for n, m, w in (state or [])],
            'observe_at': observe or [],
            'hook_needed': None
        },
        'rule': ' '.join(rule.split()),
        'technique': technique or 'runtime monitoring: oracle over randomised executions of the real code',
        'level': 'exploration',
        'level_note': ' '.join((note or 'Held on every execution observed; seeded random workloads, no claim beyond what '
                                'was run. Trusts numpy, h5py, lxml and the independent oracle in /verif.').split()),
        'assumptions': assumptions or []
    }


def spec(id):
    return SPECS[id]


IN = ['inputs']
IH = ['inputs', 'histories']
H = ['histories']
IC = ['inputs', 'configurations']

P('C01', 'A stored dataset reopens with the same content',
  '''Every object written to a model, stored and opened again presents the same attribute values, arrays, metadata,
  titles, identities and relationships as the object that was written. This holds however many times the dataset is
  stored and reopened, whether it is opened normally, lazily or as a copy, and for every object class the library can
  create.''', ['inputs', 'histories', 'configurations'],
  'all mixes of object classes and sizes; all sequences of create / store / reopen / extend / copy',
  '''Unit tests store and reopen one hand-made object per class with fixed values; the claim is over all attribute
  combinations, multi-object datasets and repeated store/reopen cycles.''',
  ['resqpy/model/_model.py', 'resqpy/model/_forestry.py', 'resqpy/model/_xml.py', 'resqpy/model/_hdf5.py',
   'resqpy/olio/base.py', 'resqpy/olio/xml_et.py', 'resqpy/olio/write_hdf5.py'],
  [('Model.store_epc / load_epc', 'resqpy/model/_forestry.py'), ('xml node helpers', 'resqpy/olio/xml_et.py'),
   ('H5Register.write', 'resqpy/olio/write_hdf5.py'), ('BaseResqpy', 'resqpy/olio/base.py')],
  '''A case builds a dataset of randomly drawn objects from a zoo covering the library's classes, stores it and reopens it
  one to three times in differing modes, comparing a fingerprint of public attributes and arrays of each object plus the
  canonical xml and the relationship graph. Signature: the multiset of object classes and modes.''')

P('C02', 'Part catalogue and relationships stay consistent under any history',
  '''After any sequence of adding, relating, importing, copying, patching and removing parts, the catalogue presents exactly the
  parts that should be present, each with its own type, title, uuid and xml tree. Relationships are symmetric, mention only
  parts present, include every reference held in xml, and lookups by part name, uuid, title and xml root agree with each
  other. Storing and reopening yields the same catalogue and relationships.''', H,
  'all sequences of catalogue operations on models of any size',
  '''Tests perform short fixed sequences; dangling or one-sided relationships only appear after particular orders of add,
  relate, copy, remove and store.''',
  ['resqpy/model/_catalogue.py', 'resqpy/model/_forestry.py', 'resqpy/model/_xml.py', 'resqpy/model/_model.py'],
  [('parts_forest / uuid_part_dict / rels maintenance', 'resqpy/model/_forestry.py'),
   ('reciprocal relationships', 'resqpy/model/_xml.py'), ('catalogue queries', 'resqpy/model/_catalogue.py')],
  '''A case is a random history of 10-60 operations applied to a real model and to a shadow catalogue (set of parts,
  undirected relation graph); after every operation all lookups are compared, at the end the dataset is stored, reopened and
  compared again. Signature: the operation sequence.''')

P('C03', 'Catalogue queries return exactly the parts that satisfy every filter',
  '''A query for parts, uuids, titles, roots or a single item returns exactly the parts for which every supplied filter
  (type, uuid, title with its matching mode and case rule, extra metadata, relationship, input list) holds, in the requested
  order. A single item query applies the stated multiple handling rule: sole, first, oldest, newest, none or exception.''',
  IN, 'all model contents and all combinations of filter arguments',
  '''Tests use one or two filters at a time on a small model; filters interact, and title matching modes multiply.''',
  ['resqpy/model/_catalogue.py', 'resqpy/model/_model.py'],
  [('_parts and filters', 'resqpy/model/_catalogue.py'), ('_part multiple handling', 'resqpy/model/_catalogue.py')],
  '''A case builds a random model of features, interpretations, string tables, crs and pointsets with adversarial titles and
  extra metadata, then evaluates 40+ random filter combinations against a brute force filter over parts read independently
  from the xml. Signature: filter combination and result size.''')

P('C04', 'Copying parts between models preserves content and completes references',
  '''Copying a part (or all parts) from one model to another yields, in the target, an object equal in content to the source
  object, together with everything it references. With consolidation, objects equivalent to ones already present are not
  duplicated and references are redirected to the resident equivalent. The source dataset is left unchanged, and copying
  twice adds nothing.''', IH,
  'all source and target contents, orders of copying and consolidation settings',
  '''Tests copy a few parts between two fixed models; correctness depends on the combination of shared, equivalent and
  distinct parts and on the order of copying.''',
  ['resqpy/model/_forestry.py', 'resqpy/olio/consolidation.py', 'resqpy/model/_hdf5.py', 'resqpy/model/_model.py'],
  [('copy_part_from_other_model', 'resqpy/model/_forestry.py'), ('Consolidation', 'resqpy/olio/consolidation.py'),
   ('Model.copy_all_parts_from_other_model', 'resqpy/model/_model.py')],
  '''A case builds two random datasets with a controlled overlap of equivalent parts, copies random parts in random order with
  random settings, then compares object fingerprints, reference closure and hdf5 content before and after storing. Signature:
  classes copied, overlap pattern, settings.''')

P('C05', 'Arrays written to hdf5 are read back exactly, whole or in part',
  '''Every array registered and written is read back with the same shape, values and type class, whether fetched whole, as a
  single element or as a slice, whether or not packing or compression was used, and after copying or identity change
  of the array file content. Overwriting an array changes that array only; appending never disturbs arrays already present.''',
  ['inputs', 'histories', 'configurations'],
  'all dtypes, shapes, slice specifications, packing and chunking options and write/append/overwrite sequences',
  '''Tests use a few arrays of common dtypes and the default options.''',
  ['resqpy/model/_hdf5.py', 'resqpy/olio/write_hdf5.py'],
  [('H5Register', 'resqpy/olio/write_hdf5.py'), ('h5 array access functions', 'resqpy/model/_hdf5.py')],
  '''A case is a random sequence of registrations, writes, appends, overwrites, copies and uuid changes over arrays of random
  dtype and shape, shadowed by a dictionary of numpy arrays; random slices and elements are compared at every read. Signature:
  dtypes, ranks, options and operation sequence.''')

P('C06', 'Organisational objects persist, compare and are reused faithfully',
  '''Features, interpretations, wellbore datums, property kinds, string lookups and crs objects written to a dataset come back
  with every attribute as created. Equivalence between two such objects is reflexive and symmetric, and false as soon
  as a defining attribute differs. Asking for an object with reuse returns an existing equivalent object if there is one,
  and otherwise creates exactly one new object.''', IH,
  'all attribute combinations of each class, all pairs of objects, and all sequences of creation with reuse',
  '''Tests check one or two examples per class and never quantify over attribute combinations or creation histories.''',
  ['resqpy/organize/__init__.py', 'resqpy/olio/base.py', 'resqpy/property/property_kind.py',
   'resqpy/property/string_lookup.py', 'resqpy/well/_md_datum.py', 'resqpy/crs.py'],
  [('BaseResqpy.try_reuse', 'resqpy/olio/base.py'), ('is_equivalent methods', 'resqpy/organize'),
   ('create_xml / _load_from_xml', 'resqpy/organize')],
  '''A case draws random attribute values for objects of random classes, persists them, reopens, compares attributes, evaluates
  equivalence over pairs of variants, and runs a history of creations with reuse against a shadow set of equivalence classes.
  Signature: class and attribute combination.''')

P('C07', 'Stratigraphic columns keep unit order, contacts and attributes',
  '''A stratigraphic column, its ranks, units and contacts written to a dataset come back with the same units in the same order,
  the same contacts and the same attributes. Unit and contact lookups by index agree with the order, and equivalence of
  stratigraphic objects holds exactly when their defining content is the same.''', IN,
  'all columns: any number of ranks, units and contact kinds, any insertion order',
  '''Tests build one column of a few units in natural order.''',
  ['resqpy/strata/_stratigraphic_column.py', 'resqpy/strata/_stratigraphic_column_rank.py',
   'resqpy/strata/_binary_contact_interpretation.py', 'resqpy/strata/_stratigraphic_unit_interpretation.py'],
  [('StratigraphicColumnRank', 'resqpy/strata/_stratigraphic_column_rank.py'),
   ('BinaryContactInterpretation', 'resqpy/strata/_binary_contact_interpretation.py')],
  '''A case builds a random column with units supplied in shuffled order, random contact attributes, stores, reopens and
  compares; then mutates one attribute and checks equivalence. Signature: unit count, ranks, contact kinds.''')

P('C08', 'Coordinate transforms are exact, invertible and consistent in every form',
  '''Converting points between coordinate reference systems applies the stated translation, rotation, unit change and z
  direction, so converting there and back restores the points and converting via a third system gives the direct answer. The
  scalar, array, tuple, one-direction and object-level conversions agree with each other. Systems are reported
  equivalent only if they describe the same frame, and always if their settings agree; converting depth to time is refused.''', IN,
  'all pairs and triples of systems (offset, rotation in any unit, xy and z units, z direction, axis order) and all points',
  '''Tests use a handful of systems; sign and order errors cancel for particular combinations.''',
  ['resqpy/crs.py'],
  [('Crs.convert_to / convert_from / convert_array_*', 'resqpy/crs.py'), ('local_to_global, global_to_local', 'resqpy/crs.py'),
   ('is_equivalent', 'resqpy/crs.py')],
  '''A case draws two or three systems and points, and compares every conversion route with an independent matrix formulation.
  Signature: units, axis order, z direction, rotation unit, offset kind.''')

P('C09', 'Unit conversions are linear, invertible and dimensionally sound',
  '''Converting values between two units of one quantity agrees with their definitions in base units, is undone by converting
  back, and converting through a third unit gives the direct result. Aliases of a unit are interchangeable, conversion between
  units of different dimension is refused, and scalar, array and in-place conversions agree.''', IN,
  'all units of the standard dictionary, all pairs and triples of compatible units, all values',
  '''The dictionary has thousands of units and tests sample a few pairs.''',
  ['resqpy/weights_and_measures/weights_and_measures.py', 'resqpy/weights_and_measures/nexus_units.py',
   'resqpy/olio/data/properties.json'],
  [('convert and get_conversion_factors', 'resqpy/weights_and_measures/weights_and_measures.py'),
   ('rq_uom and aliases', 'resqpy/weights_and_measures/weights_and_measures.py')],
  '''A case draws a quantity class and units in it and compares conversions with an exact rational evaluation of the unit
  definitions read directly from the dictionary. Signature: unit pair.''')

P('C10', 'Time series keep their order, find dates correctly and persist',
  '''A time series holds its timestamps in order; every index lookup (exact, before, after, nearest, by duration, by date part)
  and every duration, step and days computation agrees with calendar arithmetic, and durations added to a timestamp give
  the timestamp that is that long after. Series, human or geological, come back unchanged from a dataset and merging
  gives the sorted union.''', IN,
  'all sets of timestamps, any resolution, all query times, all merges',
  '''Tests use short regular series; boundary cases at equal times, month and year ends and ordering are unbounded.''',
  ['resqpy/time_series/_time_series.py', 'resqpy/time_series/_any_time_series.py', 'resqpy/time_series/_time_duration.py',
   'resqpy/time_series/_geologic_time_series.py', 'resqpy/time_series/_functions.py'],
  [('TimeSeries', 'resqpy/time_series/_time_series.py'), ('TimeDuration', 'resqpy/time_series/_time_duration.py'),
   ('merge_timeseries_from_uuid', 'resqpy/time_series/_functions.py')],
  '''A case draws timestamps and query times (including exact hits and neighbours) and compares with datetime arithmetic and
  bisect. Signature: length, resolution, query relation.''')

P('C11', 'Grid geometry persists and undefined geometry is reported truthfully',
  '''An irregular grid written to a dataset comes back with the same corner points, split pillars, k gaps, direction flags,
  inactive cells and parent links, whatever mix of those features it has. Cells and points reported as having defined geometry
  are exactly those whose corner points are all present, and filling in undefined points leaves defined points untouched.''',
  IN, 'all grid shapes with any faulting, layer gaps, undefined pillars and inactive cells',
  '''Tests have a few small grids; combinations of splits, gaps and undefined geometry are combinatorial.''',
  ['resqpy/grid/_grid.py', 'resqpy/grid/_create_grid_xml.py', 'resqpy/grid/_write_hdf5_from_caches.py',
   'resqpy/grid/_defined_geometry.py', 'resqpy/grid/_extract_functions.py'],
  [('write_hdf5_from_caches / create_xml', 'resqpy/grid'), ('cell_geometry_is_defined', 'resqpy/grid/_defined_geometry.py'),
   ('set_geometry_is_defined', 'resqpy/grid/_defined_geometry.py')],
  '''A case generates a random grid with random features, persists it and compares all geometry caches, then evaluates defined
  geometry against the corner points. Signature: extent, splits, gaps, undefined and inactive pattern.''')

P('C12', 'Corner point import and export preserve every cell corner',
  '''A grid built from corner point data has, at every cell, exactly the supplied corner points (within the stated tolerance),
  whatever the faulting, collapsed cells, voids or cell ordering. Reordering between the two corner orderings is an exact
  inverse pair, and a grid exported to a corner point file and read back is the same grid.''', IN,
  'all corner point arrays: any faults, gaps, zero thickness cells, inactive and undefined cells',
  '''Tests use a few synthetic arrays.''',
  ['resqpy/rq_import/_grid_from_cp.py', 'resqpy/olio/grid_functions.py', 'resqpy/grid/_write_nexus_corp.py',
   'resqpy/rq_import/_import_nexus.py'],
  [('grid_from_cp', 'resqpy/rq_import/_grid_from_cp.py'), ('resequence_nexus_corp', 'resqpy/olio/grid_functions.py'),
   ('write_nexus_corp', 'resqpy/grid/_write_nexus_corp.py')],
  '''A case generates a random faulted/gapped grid as an independent corner point array, imports with random options and compares
  cell by cell; round trips through the file writer. Signature: extent, fault pattern, gaps, options.''')

P('C13', 'Cell volumes, centres, thicknesses and lengths match the cell shape',
  '''Cell volumes equal the volume enclosed by the cell's corner points, never negative for properly handed grids; centre points
  are the mean of the corners; thickness, lengths and interface vectors match their geometric definition. Whole-grid,
  single-cell, cached and derived-property forms of each measure agree, unit options scale results exactly, and arrays
  already returned (and properties they come from) do not change with later queries.''', IN,
  'all cell shapes (sheared, tapered, faulted, collapsed), handedness, units and option combinations',
  '''Tests mostly use box-shaped cells where wrong formulae give right answers.''',
  ['resqpy/grid/_cell_properties.py', 'resqpy/olio/volume.py', 'resqpy/grid/_points_functions.py',
   'resqpy/property/grid_property_collection.py'],
  [('volume', 'resqpy/grid/_cell_properties.py'), ('tetra_cell_volume, pyramid_volume', 'resqpy/olio/volume.py'),
   ('thickness', 'resqpy/grid/_cell_properties.py')],
  '''A case draws a random grid and options and compares each measure with an independent computation from corner points (faceted
  divergence theorem for volume). Signature: extent, shape kind, options.''')

P('C14', 'All geometric views of a grid agree with its corner points',
  '''Corner points, cell faces, horizons, layer interfaces, pillars, cross sections, coordinate lines, bounding boxes and split
  face information extracted from a grid are all consistent with the corner points of its cells. Results do not depend on
  which view was requested first or on what was cached. Curtains of faces found at the faults of a grid, listed in a table or
  traced along pillars hold exactly the faces named, and throws are those of the columns either side.''', IH,
  'all grids (faulted or not, with layer gaps or not) and all orders of requests',
  '''Tests request single views on simple grids, so cache interplay and fault handling remain unexplored.''',
  ['resqpy/grid/_points_functions.py', 'resqpy/grid/_face_functions.py', 'resqpy/grid/_pillars.py', 'resqpy/grid/_xyz.py',
   'resqpy/grid/_faults.py', 'resqpy/grid/_grid.py'],
  [('corner_points / split_horizon_points / split_x_section_points', 'resqpy/grid/_points_functions.py'),
   ('face functions', 'resqpy/grid/_face_functions.py'), ('xyz box', 'resqpy/grid/_xyz.py')],
  '''A case draws a grid and a random order of view requests, each compared with a corner point model derived only from the raw
  points array and split pillar lists. Signature: extent, faulting, gaps, request order.''')

P('C15', 'Cell indexing and box arithmetic are exact',
  '''Conversions between natural cell numbers and cell indices are mutually inverse for every cell and agree between scalar and
  array forms. Box operations (volume, containment, overlap, union, intersection, trimming, string forms, local and parent
  conversion) agree with set operations on the cells of the boxes.''', IN,
  'all extents and cells, all pairs of boxes', '''Tests sample a few boxes; overlapping, touching and degenerate boxes abound.''',
  ['resqpy/olio/box_utilities.py', 'resqpy/grid/_grid.py', 'resqpy/olio/grid_functions.py', 'resqpy/olio/simple_lines.py'],
  [('natural_cell_index', 'resqpy/grid/_grid.py'), ('box functions', 'resqpy/olio/box_utilities.py')],
  '''A case draws extents and boxes and compares each function with explicit cell sets. Signature: function and box relation.''')

P('C16', 'A regular grid behaves as the equivalent explicit grid',
  '''A block grid defined by origin and axis steps reports the same corner points, centres, volumes, thicknesses, bounding box,
  cell containing a point and properties as an explicit grid with the same corner points. It comes back from a dataset with the
  same definition, whether or not its points are materialised, and aligned shortcuts agree with the general computations.''',
  IN, 'all extents, origins, step vectors (aligned, sheared, left or right handed), mesh kinds and units',
  '''Tests use axis-aligned blocks, the only case in which several shortcuts and the general path coincide trivially.''',
  ['resqpy/grid/_regular_grid.py', 'resqpy/grid/_grid.py'],
  [('RegularGrid', 'resqpy/grid/_regular_grid.py'), ('slice_block, find_cell_for_point', 'resqpy/grid/_regular_grid.py')],
  '''A case draws a block definition and compares with a materialised corner point model. Signature: extent, alignment, options.''')

P('C17', 'Transmissibilities follow the geometry and permeability of the grid',
  '''Transmissibility between neighbouring cells is symmetric in the pair, non-negative, linear in permeability and in
  the unit constant, zero when either cell does not conduct, and equals the harmonic combination of the half-cell values.
  For box cells it equals area times permeability over distance, and shared face areas for displaced columns equal the true
  overlap. Results do not depend on what was computed before, with whichever modifiers.''', IN, 'all grids and permeability fields, fault throws and unit options',
  '''Tests check single known values on tiny grids.''',
  ['resqpy/grid/_transmissibility.py', 'resqpy/olio/transmission.py', 'resqpy/fault/_gcs_functions.py'],
  [('half_cell_t', 'resqpy/olio/transmission.py'), ('fault_connection_set / areal overlap', 'resqpy/olio/transmission.py'),
   ('transmissibility', 'resqpy/grid/_transmissibility.py')],
  '''A case draws a grid, permeabilities and throws; checks closed forms on box grids, metamorphic relations on general grids and
  overlap areas by polygon clipping. Signature: extent, kind, direction.''')

P('C18', 'Fault, pinch-out and layer-gap connections are exactly those in the geometry',
  '''The connections found across faults join exactly those cells of neighbouring columns whose facing areas overlap, with the
  right cell faces and fractional areas; pinch-out connections join exactly the cells separated only by collapsed cells; and
  layer-gap connections join exactly the cells that touch across a gap. No connection is missed or reported twice.''', IN,
  'all faulted, pinched and gapped grids, inactive masks and tolerance settings',
  '''Tests have one or two hand-made grids for each.''',
  ['resqpy/fault/_gcs_functions.py', 'resqpy/olio/transmission.py', 'resqpy/grid/_connection_sets.py'],
  [('pinchout_connection_set', 'resqpy/fault/_gcs_functions.py'), ('k_gap_connection_set', 'resqpy/fault/_gcs_functions.py'),
   ('fault_connection_set', 'resqpy/olio/transmission.py')],
  '''A case generates grids with random throws, collapsed layers and gaps and compares with brute force over cell pairs.
  Signature: extent, throw pattern, counts.''')

P('C19', 'Property arrays and their metadata come back as written',
  '''A property added to a supporting object comes back from the dataset with the same values, type, shape, units, kind, facet,
  realization, time index, null value, extreme values, indexable element, string lookup and constant flag. Continuous, discrete,
  categorical, points and vector properties of every supporting kind obey this, including arrays added from another
  collection or copied between grids.''', IN,
  'all property kinds, dtypes, shapes, metadata combinations and supporting objects',
  '''Tests write a few typical properties.''',
  ['resqpy/property/property_collection.py', 'resqpy/property/_property.py', 'resqpy/property/_collection_create_xml.py',
   'resqpy/property/_collection_add_part.py', 'resqpy/property/_collection_get_attributes.py'],
  [('Property.from_array', 'resqpy/property/_property.py'),
   ('PropertyCollection.add_cached_array_to_imported_list and writing', 'resqpy/property/property_collection.py')],
  '''A case draws a support object and properties with random metadata, writes, reopens and compares every attribute and the
  array. Signature: support, kind, dtype and metadata pattern.''')

P('C20', 'Property collections select and assemble exactly the requested members',
  '''Selecting from a property collection by any combination of attributes returns exactly the members whose own
  attributes match. Arrays assembled over facets, realizations or time steps hold, at each position, the array of the member with
  that facet, realization or time, and normalised arrays follow the stated scaling. Inheriting between collections neither loses
  nor invents members.''', IN,
  'all collections and all selection and assembly arguments',
  '''Tests use small collections where members are distinguished by one attribute.''',
  ['resqpy/property/property_collection.py', 'resqpy/property/_collection_support.py',
   'resqpy/property/_collection_get_attributes.py', 'resqpy/property/attribute_property_set.py'],
  [('inherit_parts_selectively_from_other_collection', 'resqpy/property/property_collection.py'),
   ('facets_array_ref / realizations_array_ref / time_series_array_ref', 'resqpy/property/_collection_get_attributes.py'),
   ('normalized_part_array', 'resqpy/property/_collection_get_attributes.py')],
  '''A case builds a random collection and evaluates random selections and assemblies against brute force. Signature: selection
  arguments and result size.''')

P('C21', 'Array text and binary files read back the values written',
  '''Writing an array to a text or binary simulator file and loading it back gives the same values, for any extent, number
  format, line length, header, comment and null setting. Comments and multi-line layouts are read as defined,
  and a file holding too few values is refused. Binary array files added to a stored dataset become grid properties with the
  values and metadata given.''', IN,
  'all arrays, formatting options and legal layouts of keyword array files',
  '''Tests read a few fixed files.''',
  ['resqpy/olio/write_data.py', 'resqpy/olio/load_data.py', 'resqpy/olio/keyword_files.py', 'resqpy/olio/ab_toolbox.py',
   'resqpy/rq_import/_add_ab_properties.py'],
  [('write_array_to_ascii_file', 'resqpy/olio/write_data.py'), ('load_array_from_file', 'resqpy/olio/load_data.py'),
   ('keyword search', 'resqpy/olio/keyword_files.py')],
  '''A case draws an array and formatting options or composes an input file with random comments, keywords and line breaks,
  and compares with the known values. Signature: layout features.''')

P('C22', 'Grid connection sets keep their face pairs through every operation',
  '''A grid connection set holds exactly the cell face pairs and feature associations it was built from, and returns them unchanged
  from a dataset. Appending, filtering by feature, compressing, reordering, removing and inheriting duplicates act as the
  corresponding set operations on (face pair, feature), and face arrays, face masks, and property inheritance agree with the
  list of pairs.''', IH,
  'all face sets, feature assignments and sequences of operations',
  '''Tests use one or two small sets.''',
  ['resqpy/fault/_grid_connection_set.py', 'resqpy/fault/_gcs_functions.py'],
  [('GridConnectionSet', 'resqpy/fault/_grid_connection_set.py')],
  '''A case builds a set from random face masks or lists with random features and applies random operations against a shadow list.
  Signature: extent, counts, operations.''')

P('C23', 'Grids derived from grids keep the geometry and properties they should',
  '''A copied, refined, coarsened, extracted, zonally merged, unsplit, tilted, draped, interpolated or depth-adjusted grid has the
  corner points its definition implies from the source grid; inherited properties have the values of the corresponding source
  cells combined as stated; upscaled rock volume, net to gross, porosity and saturation conserve what they stand for. The source grid and its dataset content are left unchanged, and refining then coarsening restores
  the grid.''', IN,
  'all source grids, boxes, ratios, zone definitions and inherited properties',
  '''Tests check extents and totals on one grid per function.''',
  ['resqpy/derived_model/_copy_grid.py', 'resqpy/derived_model/_refined_grid.py', 'resqpy/derived_model/_coarsened_grid.py',
   'resqpy/derived_model/_extract_box.py', 'resqpy/derived_model/_zonal_grid.py', 'resqpy/derived_model/_unsplit_grid.py',
   'resqpy/derived_model/_tilted_grid.py', 'resqpy/derived_model/_interpolated_grid.py',
   'resqpy/derived_model/_fault_throw_scaling.py', 'resqpy/derived_model/_drape_to_surface.py',
   'resqpy/derived_model/_add_single_cell_grid.py', 'resqpy/derived_model/_add_faults.py'],
  [('derived model functions', 'resqpy/derived_model')],
  '''A case draws a source grid with properties and a derivation, and compares the result with an independent prediction from source
  corner points. Signature: derivation, extent, options.''')

P('C24', 'Fine and coarse cell mappings partition the refined box exactly',
  '''A fine/coarse mapping assigns every fine cell to exactly one coarse cell: ratios sum to the fine extent, proportions sum
  to one, coarse-for-fine and fine-box-for-coarse are mutually inverse, and boxes are contiguous and disjoint. Constant,
  per-layer and individual ratio settings that mean the same give the same mapping, and mappings survive storage with the
  grid. Imported arrays that use simulator coarsening are spread over the cells of each box so that totals are kept.''', IN,
  'all extents, ratio and proportion settings in each direction',
  '''Tests sample constant ratios with an occasional vector.''',
  ['resqpy/olio/fine_coarse.py', 'resqpy/property/grid_property_collection.py'],
  [('decoarsen_imported_list', 'resqpy/property/grid_property_collection.py'), ('FineCoarse', 'resqpy/olio/fine_coarse.py')],
  '''A case draws coarse extents and ratios in one of the supported forms and compares every mapping function with an explicit
  enumeration. Signature: ratio forms and extents.''')

P('C25', 'Triangulations are valid, complete and come back unchanged',
  '''A triangulation made from points is a valid planar mesh: triangles do not overlap, cover the convex hull, and no point lies
  inside the circumcircle of a triangle; derived information (edges, rims, patches, normals, areas) agrees with the triangle list.
  A surface written to a dataset comes back with the same triangles and points, and surface editing operations change exactly
  what they state.''', IN,
  'all point sets (random, regular, collinear runs, clustered, duplicated columns) and all surfaces',
  '''Tests use a few point sets; degeneracy is where triangulation breaks.''',
  ['resqpy/olio/triangulation.py', 'resqpy/surface/_surface.py', 'resqpy/surface/_triangulated_patch.py'],
  [('dt', 'resqpy/olio/triangulation.py'), ('Surface', 'resqpy/surface/_surface.py'), ('edges / rims', 'resqpy/olio/triangulation.py')],
  '''A case draws a point set or surface and evaluates the invariants with independent code. Signature: kind, counts.''')

P('C26', 'All point inclusion tests give the exact answer',
  '''For points clearly inside or outside, every point-in-polygon and point-in-triangle routine (winding, crossing, vectorised,
  compiled, parallel, regular grid sampling) gives the exact geometric answer, whatever the polygon shape and the order or
  direction of its vertices. Where a routine documents its treatment of boundary points, that is followed.''', IN,
  'all simple polygons and triangles, all points, vertex orders and directions',
  '''Tests use convex polygons with a few points.''',
  ['resqpy/olio/point_inclusion.py', 'resqpy/olio/vector_utilities.py', 'resqpy/lines/_polyline.py'],
  [('pip_cn, pip_wn, pip_array_cn', 'resqpy/olio/point_inclusion.py'),
   ('points_in_polygon, points_in_triangles_*', 'resqpy/olio/vector_utilities.py')],
  '''A case draws a polygon (star-shaped, comb, spiral, convex) and points at a distance from its edges; answers compared with exact
  rational arithmetic. Signature: polygon kind, routine.''')

P('C27', 'Line, triangle and plane intersections are exact and found completely',
  '''Intersections of lines or line segments with triangles, planes and each other are reported exactly when they exist, and the
  reported point lies on both. Single, vectorised and compiled routines agree with each other and with independent evaluation
  for every configuration away from tolerance, and results do not depend on vertex order.''', IN,
  'all lines, segments, triangles and planes, in bulk or singly',
  '''Tests use a few hand computed cases.''',
  ['resqpy/olio/intersection.py', 'resqpy/olio/vector_utilities.py', 'resqpy/olio/simple_lines.py',
   'resqpy/grid_surface/_trajectory_intersects.py'],
  [('line_triangle_intersect*', 'resqpy/olio/intersection.py'), ('line_line_intersect', 'resqpy/olio/intersection.py')],
  '''A case draws batches of lines and triangles and compares hit sets and points with exact rational arithmetic. Signature:
  routine and hit pattern.''')

P('C28', 'Faces found where a surface cuts a grid are exactly right in every method',
  '''Representing a surface on a grid by cell faces yields exactly the faces whose neighbouring cell centres are separated by
  the surface (the line between centres meets a triangle). All methods and options for doing this give the same faces, and
  depths, offsets, triangle indices, normals and the separation into two sides agree with the geometry.''', IC,
  'all surfaces (flat, folded, partial, many patches), grids (regular, irregular), directions and method options',
  '''Tests check single surfaces with fixed expected counts and compare few methods.''',
  ['resqpy/grid_surface/_find_faces.py'],
  [('find_faces_to_represent_surface_*', 'resqpy/grid_surface/_find_faces.py'),
   ('bisector_from_faces', 'resqpy/grid_surface/_find_faces.py')],
  '''A case draws a grid and a surface and compares faces from every method with brute force segment/triangle tests. Signature:
  method, directions, counts.''')

P('C29', 'Well paths and surfaces meet grids and surfaces where geometry says',
  '''Intersections found between well paths and surfaces, grid layers or grid skins lie on both objects and none is missed; the grid
  skin is the closed outer boundary of the grid. Surfaces generated from grid layers, x-sections or sheets coincide with the
  grid's own points.''', IN,
  'all grids, surfaces and well paths',
  '''Tests use a single simple well and box grid.''',
  ['resqpy/grid_surface/_trajectory_intersects.py', 'resqpy/grid_surface/_grid_skin.py', 'resqpy/grid_surface/_grid_surface.py'],
  [('find_intersections_of_trajectory_with_surface', 'resqpy/grid_surface/_trajectory_intersects.py'),
   ('GridSkin', 'resqpy/grid_surface/_grid_skin.py'), ('generate_*_surface', 'resqpy/grid_surface/_grid_surface.py')],
  '''A case draws a grid, surface and trajectory and compares intersections with brute force. Signature: extent, hits.''')

P('C30', 'Meshes, tri-meshes and point sets keep their points and derived views',
  '''A lattice mesh in any representation (regular, reference-plus-z, explicit) or a point set comes back from a dataset with the
  same full set of points. Equivalent representations give the same points and the same surface; conversions between mesh,
  surface and point set keep every point, as does reading mesh and surface files into a dataset; and tri-mesh index, interpolation and gradient queries agree with the triangles.''',
  IN, 'all mesh flavours, extents, step vectors and patch structures',
  '''Tests cover each flavour with one example.''',
  ['resqpy/surface/_mesh.py', 'resqpy/surface/_pointset.py', 'resqpy/surface/_tri_mesh.py', 'resqpy/surface/_tri_mesh_stencil.py',
   'resqpy/rq_import/_add_surfaces.py'],
  [('Mesh.full_array_ref', 'resqpy/surface/_mesh.py'), ('PointSet patches', 'resqpy/surface/_pointset.py'),
   ('TriMesh', 'resqpy/surface/_tri_mesh.py')],
  '''A case draws a mesh or point set, persists, reopens and compares with the closed form points. Signature: flavour, extent.''')

P('C31', 'Polyline measures, splits and set conversions are exact',
  '''Lengths, interpolated points, spacing, areas, centres, closest points, crossings, offsets and clipping of polylines agree with
  elementary geometry for any vertex list, open or closed. Polylines and polyline sets come back unchanged from a dataset or file
  and converting between sets and single lines loses nothing.''', IN,
  'all polylines: any number of vertices, convex or not, open or closed',
  '''Tests use squares and triangles.''',
  ['resqpy/lines/_polyline.py', 'resqpy/lines/_polyline_set.py', 'resqpy/lines/_common.py'],
  [('Polyline', 'resqpy/lines/_polyline.py'), ('PolylineSet', 'resqpy/lines/_polyline_set.py')],
  '''A case draws a polyline or set and compares each measure with an independent computation. Signature: kind and measure.''')

P('C32', 'Well paths interpolate, convert and persist consistently',
  '''A trajectory passes through its control points at their measured depths, and position, direction and inclination queries at
  any depth agree with its knots and tangents. Deviation surveys and trajectories describe the same path in both
  directions (units and angle conventions included), and come back unchanged from a dataset, dataframe or text file.''', IN,
  'all well paths: vertical, horizontal, build sections, any units and datum',
  '''Tests use a few simple wells.''',
  ['resqpy/well/_trajectory.py', 'resqpy/well/_deviation_survey.py', 'resqpy/well/_md_datum.py', 'resqpy/well/well_utils.py'],
  [('Trajectory', 'resqpy/well/_trajectory.py'), ('DeviationSurvey', 'resqpy/well/_deviation_survey.py')],
  '''A case draws a path and compares queries with an independent minimum curvature or spline evaluation. Signature: path kind,
  units.''')

P('C33', 'Blocked wells list exactly the cells a path passes, in order',
  '''A blocked well derived from a trajectory and a grid lists exactly the cells the path passes through, in order, with entry and
  exit depths and faces that match the geometry. Cell lists, perforation tables, dataframes and well specification files derived
  from it agree with each other and blocked wells come back unchanged from a dataset. All wells of a specification file having
  perforations in the grid can be added to a dataset together.''', IN,
  'all grids and trajectories, including gaps, exits and re-entries, and all column list options',
  '''Tests use a few wells in simple grids.''',
  ['resqpy/well/_blocked_well.py', 'resqpy/grid_surface/_blocked_well_populate.py', 'resqpy/well/blocked_well_frame.py',
   'resqpy/well/well_object_funcs.py'],
  [('populate_blocked_well_from_trajectory', 'resqpy/grid_surface/_blocked_well_populate.py'),
   ('BlockedWell', 'resqpy/well/_blocked_well.py')],
  '''A case draws a grid and path, computes the exact sequence of cells by dense independent evaluation and compares. Signature:
  extent, number of cells, faces.''')

P('C34', 'Well frames, markers and logs keep depths aligned with their data',
  '''Wellbore frames, marker frames and logs come back from a dataset or log file with depths and values unchanged and aligned, and
  marker lookups by depth, boundary feature or interpretation return the right marker. Upscaling frame properties to a
  blocked well weights each interval by its exact overlap with the cell.''', IN,
  'all depth lists, marker sets and log curves',
  '''Tests have one example of each.''',
  ['resqpy/well/_wellbore_frame.py', 'resqpy/well/_wellbore_marker_frame.py', 'resqpy/well/_wellbore_marker.py',
   'resqpy/property/well_log_collection.py', 'resqpy/well/blocked_well_frame.py'],
  [('WellboreFrame', 'resqpy/well/_wellbore_frame.py'), ('WellboreMarkerFrame', 'resqpy/well/_wellbore_marker_frame.py'),
   ('WellLogCollection', 'resqpy/property/well_log_collection.py')],
  '''A case draws depths, markers and curves, persists and compares. Signature: lengths and options.''')

P('C35', 'Unstructured grids keep topology and measure cells correctly',
  '''An unstructured grid (general, tetrahedral, pyramidal, prismatic, hexahedral) comes back from a dataset with the same
  nodes, faces, cells and handedness; node, face and cell lookups agree with the raw topology. Volumes, areas and centres match
  an independent computation, the total volume equals that of the region filled, and structured grids convert without
  loss.''', IN,
  'all valid topologies of each flavour',
  '''Tests build one grid of each flavour.''',
  ['resqpy/unstructured/_unstructured_grid.py', 'resqpy/unstructured/_tetra_grid.py', 'resqpy/unstructured/_prism_grid.py',
   'resqpy/unstructured/_hexa_grid.py', 'resqpy/unstructured/_pyramid_grid.py'],
  [('UnstructuredGrid', 'resqpy/unstructured/_unstructured_grid.py')],
  '''A case generates a grid of random flavour and size, persists and compares all lookups and measures. Signature: flavour,
  counts.''')

P('C36', 'Tables and simulator text files are read as written',
  '''Data tables, time tables, relative permeability tables, fault tables, z-map surfaces, mesh files and well specification
  files written by the library, or laid out in any legal way, are read back with the same values, columns, names and null
  markers. Tables come back unchanged from a dataset.''', IN,
  'all table contents and legal layouts',
  '''Tests read a few fixture files.''',
  ['resqpy/olio/dataframe.py', 'resqpy/olio/relperm.py', 'resqpy/olio/zmap_reader.py', 'resqpy/olio/read_nexus_fault.py',
   'resqpy/olio/wellspec_keywords.py', 'resqpy/surface/_mesh.py'],
  [('DataFrame / TimeTable', 'resqpy/olio/dataframe.py'), ('RelPerm', 'resqpy/olio/relperm.py'),
   ('read_zmap_grid', 'resqpy/olio/zmap_reader.py'), ('load_wellspecs', 'resqpy/olio/wellspec_keywords.py')],
  '''A case draws a table, writes it or composes a file, reads it and compares. Signature: reader and layout features.''')

P('C37', 'Vector and geometry utilities obey their mathematical definitions',
  '''Rotation matrices are orthogonal and compose, angles, azimuths, dips, inclinations and normals follow their stated
  conventions, in every octant; scalar and array versions agree; inverses invert. Distances, areas, centres, in-circles,
  interpolations and sampling helpers agree with their definitions.''', IN,
  'all vectors, angles, point sets', '''Tests try axis-aligned vectors and a few angles.''',
  ['resqpy/olio/vector_utilities.py', 'resqpy/olio/simple_lines.py', 'resqpy/olio/box_utilities.py'],
  [('vector functions', 'resqpy/olio/vector_utilities.py')],
  '''A case draws vectors and evaluates identities and definitions. Signature: function and octant.''')

P('C38', 'Batch work over processes gives the same result as serial work',
  '''Running surface-to-grid faces, blocking of wells or mesh generation as a batch over any number of worker processes gives, for
  every item, the same objects and success flag as running the items one by one, recombined into one dataset in item order
  with nothing lost, duplicated or left behind.''', ['inputs', 'schedules', 'configurations'],
  'all batch sizes, numbers of workers, orders of completion and mixes of failing items',
  '''Tests run a batch of two or three identical items with one worker arrangement.''',
  ['resqpy/multi_processing/_multiprocessing.py', 'resqpy/multi_processing/wrappers/grid_surface_mp.py',
   'resqpy/multi_processing/wrappers/blocked_well_mp.py', 'resqpy/multi_processing/wrappers/mesh_mp.py'],
  [('function_multiprocessing', 'resqpy/multi_processing/_multiprocessing.py'), ('wrappers', 'resqpy/multi_processing/wrappers')],
  '''A case runs a random batch over 1-4 workers with injected delays and compares with serial results. Signature: batch size,
  workers, failing items, completion order.''')

P('C39', 'Compiled numeric kernels stay in bounds and parallel equals serial',
  '''Compiled kernels read and write only inside the arrays they are given, for every size including empty and single-element
  inputs. Kernels that run in parallel give the same result as their serial definition with any number of threads, on every
  run.''', ['inputs', 'schedules'],
  'all array sizes, thread counts and interleavings', '''Out of range access in compiled code usually goes unnoticed, and races
  depend on thread timing.''',
  ['resqpy/olio/vector_utilities.py', 'resqpy/olio/intersection.py', 'resqpy/olio/triangulation.py', 'resqpy/grid_surface/_find_faces.py'],
  [('njit kernels', 'resqpy/olio/vector_utilities.py'), ('prange loops', 'resqpy/olio/vector_utilities.py')],
  '''A case calls a kernel on random inputs with numba bounds checking on and guard cells around the data, compares with the
  interpreted definition and repeats with 1-8 threads. Signature: kernel, sizes, threads.''',
  technique = 'runtime sanitizer (compiled bounds checks) and parallel/serial differential monitor')

P('C40', 'Queries leave their arguments and objects unchanged',
  '''Functions documented as returning information do not modify the arrays passed to them, nor the state of the objects queried as
  seen through their other queries. Asking again gives the same answer, and a returned array offered as a copy does not alias the
  internal state.''', IH,
  'all query functions and all orders of calling them',
  '''Tests rarely look at arguments after a call or repeat a query.''',
  ['resqpy/olio/vector_utilities.py', 'resqpy/crs.py', 'resqpy/grid/_grid.py', 'resqpy/lines/_polyline.py',
   'resqpy/surface/_surface.py', 'resqpy/well/_trajectory.py'],
  [('copying before in-place arithmetic', 'resqpy'), ('inplace arguments', 'resqpy/weights_and_measures/weights_and_measures.py')],
  '''A case calls a random sequence of queries with read-only or checksummed arguments and compares checksums and repeated
  answers. Signature: object and query sequence.''')

P('C41', 'Reading a dataset never alters its files',
  '''Opening a dataset and making any sequence of read requests leaves the bytes of its files unchanged, creates no other
  files, and leaves no array file open for writing; afterwards another reader sees the same content. A dataset opened for reading
  can be used by several readers at the same time.''', H,
  'all datasets and sequences of reads, with several models open', '''Tests do not compare files before and after.''',
  ['resqpy/model/_model.py', 'resqpy/model/_hdf5.py', 'resqpy/model/_context.py', 'resqpy/model/_forestry.py'],
  [('h5_access modes', 'resqpy/model/_hdf5.py'), ('ModelContext', 'resqpy/model/_context.py')],
  '''A case builds a dataset, hashes files, reads all objects in random order through random interfaces and compares hashes,
  directory listing and open file modes. Signature: classes and interfaces.''')
